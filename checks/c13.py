""" C13: signal biases from Bias-SINEX files """
from common import Check, snapshot
import os
import math
from datetime import datetime, timedelta
from cssrlib.gnss import uGNSS, prn2sat, gtime_t, rSigRnx
from cssrlib.peph import biasdec

chk = Check('C13', ['src/cssrlib/peph.py'],
            rule='Bias-SINEX files of generated satellite, station and '
            'GLONASS-site biases with adjoining, separated and open '
            'validity, probed at and around every interval bound; distinct '
            'by record kind and retrieval outcome')

SYS = {'G': (uGNSS.GPS, 32, 0, ['C1C', 'C1W', 'C2W', 'C2L', 'C5Q', 'L1C',
                                'L2W', 'L5Q']),
       'R': (uGNSS.GLO, 24, 0, ['C1C', 'C1P', 'C2P', 'L1C', 'L2P']),
       'E': (uGNSS.GAL, 36, 0, ['C1C', 'C1X', 'C5Q', 'C7Q', 'C8Q', 'C6C',
                                'L1C', 'L5Q']),
       'C': (uGNSS.BDS, 60, 0, ['C2I', 'C6I', 'C7I', 'C1P', 'C5P', 'L2I']),
       'J': (uGNSS.QZS, 9, 192, ['C1C', 'C2L', 'C5Q', 'L1C', 'L5Q'])}
U0 = datetime(1970, 1, 1)


def ydoy(t):
    if t is None:
        return '0000:000:00000'
    d = (t-datetime(t.year, 1, 1))
    return f"{t.year:4d}:{d.days+1:03d}:{d.seconds:05d}"


def gt(t):
    s = (t-U0).total_seconds()
    return gtime_t(int(math.floor(s)), s-math.floor(s))


def line(kind, svn, prn, site, s1, s2, ts, te, unit, v, sd, slope):
    s = (f" {kind:<4} {svn:<4} {prn:<3} {site:<9} {s1:<4} {s2:<4} "
         f"{ydoy(ts)} {ydoy(te)} {unit:<4} {v:21.5f} {sd:11.6f}")
    if slope:
        s += f" {0.1234:21.5f} {0.01:11.6f}"
    return s+'\n'


@chk.case(150, 6000, minseen=12)
def biases(c):
    r = c.rng
    siteid = r.choice([None, 'ABMF', 'WTZR'])
    recs, lines = [], []
    base = datetime(r.randint(2006, 2035), 1, 1)+timedelta(
        days=r.randint(0, 365))
    if r.random() < .3:
        base = datetime(r.choice([2019, 2020, 2021, 2024, 2025]), 1, 1) \
            - timedelta(days=1)
    for _ in range(r.randint(3, 10)):
        ch = r.choice(list(SYS))
        sys, n, o, codes = SYS[ch]
        prn = r.randint(1, n)
        kind = r.choice(['OSB', 'OSB', 'DSB'])
        s1 = r.choice(codes)
        s2 = ''
        unit = 'ns'
        if kind == 'DSB':
            c2 = [x for x in codes if x[0] == s1[0] and x != s1]
            if not c2:
                continue
            s2 = r.choice(c2)
            if s1[0] == 'L':
                unit = 'cyc'
        sid = f"{ch}{prn:02d}"
        if any(q[0] == kind and q[1] == sid and q[2 if kind == 'OSB' else 3]
               == (s1 if kind == 'OSB' else s2) for q in recs):
            continue
        t = base
        site = ''
        who = r.random()
        if ch == 'R':
            site = r.choice(['ABMF', 'WTZR', ''])
        nint = r.choice([1, 1, 2, 4])
        if who < .15:   # station bias without satellite
            lines.append(line(kind, ch, ch, r.choice(['ABMF', 'WTZR']), s1,
                              s2, t, t+timedelta(days=1), unit,
                              r.uniform(-90, 90), .1, False))
            c.seen('station', kind)
            continue
        for k in range(nint):
            ln = r.choice([86400, 3600, 900, 86400*30])
            ts, te = t, t+timedelta(seconds=ln)
            t = te+timedelta(seconds=r.choice([0, 0, 600]))
            f0, f1 = ts, te
            if k == 0 and r.random() < .2:
                f0 = None
            if k == nint-1 and r.random() < .2:
                f1 = None
            v = round(r.choice([r.uniform(-200, 200), r.uniform(-9e4, 9e4)]),
                      5)
            sd = round(r.uniform(0, 20), 6)
            lines.append(line(kind, f"{ch}{r.randint(1, 999):03d}", sid, site,
                              s1, s2, f0, f1, unit, v, sd, r.random() < .3))
            recs.append((kind, sid, s1, s2, f0, f1, v, sd,
                         ch == 'R' and site != (siteid if siteid else None)))
    r.shuffle(lines)
    txt = '%=BIA 1.00 COD\n+BIAS/DESCRIPTION\n*KEYWORD\n' \
        ' BIAS_MODE     ABSOLUTE\n-BIAS/DESCRIPTION\n'
    if r.random() < .3:    # a similar looking line outside of the solution
        txt += line('OSB', 'G001', 'G01', '', 'C1C', '', base,
                    base+timedelta(days=400), 'ns', 999.0, 1.0, False)
    txt += '+BIAS/SOLUTION\n*BIAS SVN_ PRN STATION__ OBS1 OBS2\n'
    txt += ''.join(lines)+'-BIAS/SOLUTION\n%=ENDBIA\n'
    path = os.path.join(c.tmp, 'x.bia')
    open(path, 'w').write(txt)
    dec = biasdec()
    dec.parse(path, siteid) if siteid else dec.parse(path)
    vis = [q for q in recs if not q[8]]
    c.eq((len(dec.osb), len(dec.dcb)),
         (sum(q[0] == 'OSB' for q in vis), sum(q[0] == 'DSB' for q in vis)),
         'count', f"site {siteid}")
    before = snapshot([dec.osb, dec.dcb])
    probes = {base-timedelta(days=1), base+timedelta(days=500)}
    for q in recs:
        for t in (q[4], q[5]):
            if t is not None:
                probes |= {t, t-timedelta(seconds=1), t+timedelta(seconds=1),
                           t+timedelta(seconds=300.5)}
    probes = sorted(probes)
    ids = sorted({(q[0], q[1]) for q in recs})
    for kind, sid in ids:
        sys, n, o, codes = SYS[sid[0]]
        sat = prn2sat(sys, int(sid[1:])+o)
        for code in codes:
            sig = rSigRnx(sid[0]+code)
            for t in probes:
                exp = [q for q in vis if q[0] == kind and q[1] == sid and
                       q[2 if kind == 'OSB' else 3] == code and
                       (q[4] is None or q[4] <= t) and
                       (q[5] is None or t < q[5])]
                g = gt(t)
                m = f"{kind} {sid} {code} {t}"
                if kind == 'OSB':
                    b, s = dec.getosb(sat, g, sig), \
                        dec.getosbstd(sat, g, sig)
                    e = exp[0][6:8] if exp else (float('nan'),)*2
                    c.close([b, s], list(e), 1e-9, 'osb', m)
                else:
                    b, s, ref = dec.getdcb(sat, g, sig)
                    if exp:
                        c.close([b, s], list(exp[0][6:8]), 1e-9, 'dsb', m)
                        c.eq(ref, rSigRnx(sid[0]+exp[0][2]), 'dsb.ref', m)
                    else:
                        c.eq((b, s, ref), (None,)*3, 'dsb.none', m)
                c.seen(kind, sid[0], bool(exp),
                       exp and exp[0][4] is None, exp and exp[0][5] is None)
    c.ok(snapshot([dec.osb, dec.dcb]) == before, 'mutation')
    c.sample(f"{len(recs)} records, {len(probes)} epochs, site {siteid}")
