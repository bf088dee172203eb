import sys
import os
import importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa


def main():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module(pid.lower())
    except Exception as e:
        # the code under test cannot even be imported / harness broken
        import traceback
        traceback.print_exc()
        print(f"ERROR: cannot load check {pid}: {e}")
        return 2
    return common.main(mod.chk, sys.argv[2:])


if __name__ == '__main__':
    sys.exit(main())
