""" stand-in warning text tables: the ones the EWSS decoders read are not part
of the repository; the decoders' default path is relative to the working
directory (../data/ewss/...)"""
import json
import os


# keys beyond the dense part
EXTRA = [(1 << k)-1 for k in range(11, 41)]+[(1 << k)+k for k in range(10, 40)]


def make(d, nkey=1024):
    run = os.path.join(d, 'run')
    jma = os.path.join(d, 'data/ewss/jma')
    camf = os.path.join(d, 'data/ewss/camf')
    for x in (run, jma, camf):
        os.makedirs(x, exist_ok=True)

    def tab(path, name):
        with open(path, 'w', encoding='utf-8') as f:
            for k in list(range(nkey))+EXTRA:
                f.write(f"{k}\t{name}:{k}\n")
    for n in range(1, 60):
        tab(f"{jma}/tab4_1_2_{n}.txt", f"t{n}")
    for n in ('hazard', 'list_a', 'list_b', 'list_c', 'region', 'd14', 'd35'):
        tab(f"{camf}/{n}.txt", n)
    with open(f"{camf}/jisx0401-en.json", 'w', encoding='utf-8') as f:
        json.dump({f"{k:02d}": f"pref{k}" for k in range(1, 48)}, f)
    with open(f"{camf}/000323625.csv", 'w', encoding='utf-8') as f:
        f.write("tiiki-code,ken-name,sityouson-name1,sityouson-name2,"
                "sityouson-name3\n")
        for k in range(1, 60):
            f.write(f"{k*1000+2},ken{k},"
                    + f"{f'shi{k}' if k % 2 else ''},"
                    + f"{f'ku{k}' if k % 3 else ''},"
                    + f"{f'cho{k}' if k % 5 else ''}\n")
    return run


def build(tmp, cls, nkey=1024, **kw):
    """ object of a class which reads the tables when it is created """
    run = make(tmp, nkey)
    old = os.getcwd()
    os.chdir(run)
    try:
        return cls(**kw)
    finally:
        os.chdir(old)
