""" C10: synchronisation of rover and base observations """
from common import Check
import os
from cssrlib.gnss import uGNSS, rSigRnx, timediff, epoch2time, timeadd, \
    time2epoch
from cssrlib.rinex import rnxdec, sync_obs

chk = Check('C10', ['src/cssrlib/rinex.py'],
            rule='pairs of observation files with different rates, gaps, '
            'offsets, start and end; distinct by relation of the files')


def write(path, t0, ts, tagv):
    with open(path, 'w') as fh:
        fh.write('     3.04           OBSERVATION DATA    M'.ljust(60) +
                 'RINEX VERSION / TYPE\n')
        fh.write('G    1 C1C'.ljust(60)+'SYS / # / OBS TYPES\n')
        fh.write(' '*60+'END OF HEADER\n')
        for t in ts:
            ep = time2epoch(timeadd(t0, t))
            fh.write('> %4d %02d %02d %02d %02d%11.7f  0  1\n' %
                     (ep[0], ep[1], ep[2], ep[3], ep[4], ep[5]))
            fh.write('G05%14.3f\n' % (2e7+t))
    d = rnxdec()
    d.setSignals([rSigRnx(uGNSS.GPS, 'C1C')])
    d.decode_obsh(path)
    return d


def series(r, th):
    dt = r.choice([1.0, 5.0, 30.0])
    n = r.randint(0, 12)
    t, out = r.choice([0.0, 0.0, dt, 3*dt, 10*dt]), []
    for _ in range(n):
        if r.random() < 0.8:
            out.append(round(t+r.choice([0, 0, r.uniform(-th, th)*0.7]), 4))
        t += dt
    return [x for x in out if x >= 0]


@chk.case(400, 8000, cpu=20, minseen=6)
def sync(c):
    r = c.rng
    th = r.choice([0.1, 0.1, 0.02, 0.3])
    t0 = epoch2time([r.randint(2000, 2060), r.randint(1, 12),
                     r.randint(1, 28), r.choice([0, 23]), 59, 40])
    A, B = series(r, th), series(r, th)
    da = write(os.path.join(c.tmp, 'a'), t0, A, 0)
    db = write(os.path.join(c.tmp, 'b'), t0, B, 0)
    exp = [(a, b) for a in A for b in B if abs(a-b) <= th+1e-9]
    if any(abs(abs(a-b)-th) < 1e-5 for a in A for b in B):
        return
    for a, b in exp:
        o, ob = (sync_obs(da, db) if th == 0.1 else sync_obs(da, db, th))
        if not c.ok(o.t.time != 0 and ob.t.time != 0, 'pair missed',
                    f"{a} {b}"):
            return
        c.ok(abs(timediff(o.t, t0)-a) < 1e-5 and
             abs(timediff(ob.t, t0)-b) < 1e-5, 'wrong pair', f"{a} {b}")
        c.ok(abs(o.P[0, 0]-(2e7+a)) < 1e-3 and
             abs(ob.P[0, 0]-(2e7+b)) < 1e-3, 'data of another epoch', '')
    for _ in range(2):
        o, ob = sync_obs(da, db, th)
        c.ok(o.t.time == 0 or ob.t.time == 0, 'end of data not reported', '')
    c.seen(min(len(exp), 3), len(A) == 0, len(B) == 0,
           bool(A and B) and A[-1] > B[-1])
    da.fobs.close()
    db.fobs.close()
