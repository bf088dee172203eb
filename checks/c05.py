""" C05: broadcast orbit and clock """
from common import Check, snapshot
import math
import os
import numpy as np
from datetime import datetime, timedelta
from cssrlib.gnss import (uGNSS, prn2sat, Alm, timeadd, gtime_t, timediff)
from cssrlib.ephemeris import (eph2pos, eph2clk, eph2rel, geph2pos, geph2clk,
                               geph2rel, alm2pos, findalm, loadyuma,
                               loadXmlAlmanac)
import ref_orbit as ro

chk = Check('C05', ['src/cssrlib/ephemeris.py'],
            rule='random ephemerides of every constellation and orbit class '
            '(MEO, IGSO, GEO), legacy and CNAV-type, evaluated at random '
            'epochs inside (and at the limits of) the fit interval; distinct '
            'by constellation, orbit class, message type, side of toe')

SYS = [(uGNSS.GPS, 1, 32), (uGNSS.GAL, 1, 36), (uGNSS.QZS, 193, 202),
       (uGNSS.BDS, 1, 63), (uGNSS.IRN, 1, 14)]


def epoch(r):
    w = r.randint(1800, 2500)
    tow = r.choice([0, 302400, 604784, 16*r.randint(0, 37799)])
    return ro.gps(w, tow)


@chk.case(6000, 120000, minseen=40)
def keplerian(c):
    r = c.rng
    sys, lo, hi = r.choice(SYS)
    prn = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi)])
    sat = prn2sat(sys, prn)
    mode = r.choice([0, 0, 1, 2])
    toe = epoch(r)
    eph = ro.gen_eph(r, sat, toe, mode)
    dt = r.choice([0.0, r.uniform(-7200, 7200), r.uniform(-14400, 14400),
                   7200.0, -7200.0, r.uniform(-1, 1)])
    t = timeadd(toe, dt)
    s0, s1 = snapshot(eph), snapshot(t)
    rs, dts = eph2pos(t, eph)
    rs2, vs, dts2 = eph2pos(t, eph, True)
    c.ok(snapshot(eph) == s0 and snapshot(t) == s1, 'mutation', '')
    p, v, clk, rel = ro.eph_state(eph, t)
    tag = f"sys {sys!r} prn {prn} mode {mode} dt {dt} e {eph.e:.4f}"
    tol = 1e-3 if eph.e < 0.04 else 3e-2
    c.close(rs, p, tol, 'position', tag)
    c.ok((rs == rs2).all() and dts == dts2, 'position:velocity flag', tag)
    c.close(vs, v, 1e-4, 'velocity', tag)
    c.ok(abs(dts-(clk+rel)) < 1e-13+1e-10*abs(rel), 'clock',
         f"{tag} {dts} {clk+rel}")
    c.ok(abs(eph2rel(t, eph)-rel) < 1e-13, 'relativity', tag)
    # clock polynomial argument is satellite time
    c.ok(abs(eph2clk(t, eph)-clk) < 1e-12, 'eph2clk', tag)
    c.seen(int(sys), ro.is_geo(sat), mode > 0, (dt > 0)-(dt < 0),
           eph.A > 4e7)
    # consistency: the finite difference of the reported positions
    h = 1.0
    f = [eph2pos(timeadd(t, k*h), eph)[0] for k in (-2, -1, 1, 2)]
    vn = (f[0]-8*f[1]+8*f[2]-f[3])/(12*h)
    c.close(vs, vn, 2e-3, 'velocity:derivative', tag)
    c.sample(f"{tag}: |rs|={np.linalg.norm(rs):.3f}")


@chk.case(120, 2500, minseen=4)
def glonass(c):
    r = c.rng
    sat = prn2sat(uGNSS.GLO, r.randint(1, 27))
    toe = epoch(r)
    g = ro.gen_geph(r, sat, toe)
    dt = r.choice([0.0, r.uniform(-900, 900), r.uniform(-1800, 1800), 900.0,
                   -900.0, 0.4, -0.4, 1.0, r.randint(-900, 900)])
    t = timeadd(toe, dt)
    s0 = snapshot(g)
    rs, vs, dts = geph2pos(t, g, True)
    p, v, clk = ro.geph_state(g, t)
    c.close(rs, p, 2e-3, 'position', f"dt {dt}")
    c.close(vs, v, 1e-4, 'velocity', f"dt {dt}")
    c.ok(abs(dts-clk) < 1e-14, 'clock', f"{dts} {clk}")
    st = r.choice([10.0, 30.0])
    rs2, dts2 = geph2pos(t, g, TSTEP=st)
    c.close(rs2, p, 5e-2, 'position:step', f"dt {dt} step {st}")
    c.ok(dts2 == dts, 'clock:flag', '')
    c.ok(abs(geph2clk(t, g)-clk) < 1e-13, 'geph2clk', '')
    c.ok(abs(geph2rel(rs, vs)+2*float(p@v)/ro.CL**2) < 1e-15, 'geph2rel', '')
    c.ok(snapshot(g) == s0, 'mutation', '')
    c.seen((dt > 0)-(dt < 0), abs(dt) < 1, float(dt).is_integer())


@chk.case(2000, 40000, minseen=5)
def almanac(c):
    r = c.rng
    sys, lo, hi = r.choice(SYS[:4])
    prn = r.randint(lo, hi)
    sat = prn2sat(sys, prn)
    toa = epoch(r)
    e = ro.gen_eph(r, sat, toa, 0)
    a = Alm(sat)
    a.toa, a.toas = toa, e.toes
    for k in ('e', 'i0', 'A', 'M0', 'OMG0', 'OMGd', 'omg', 'af0', 'af1'):
        setattr(a, k, getattr(e, k))
    for k in ('deln', 'idot', 'crs', 'crc', 'cus', 'cuc', 'cis', 'cic'):
        setattr(e, k, 0.0)
    dt = r.uniform(-3*86400, 3*86400) if r.random() < .7 else \
        r.uniform(-60*86400, 60*86400)
    t = timeadd(toa, dt)
    rs, dts = alm2pos(t, a)
    p = ro.pos_at(e, ro.LET[sys], False, dt)
    c.close(rs, p, 2e-3 if e.e < 0.04 else 5e-2, 'position',
            f"{sys!r} {dt}")
    c.ok(abs(dts-(a.af0+a.af1*dt)) < 1e-14, 'clock', '')
    c.seen(int(sys), dt > 0)
    # selection of the nearest almanac of the satellite
    n = r.randint(0, 6)
    alms = []
    for _ in range(n):
        b = Alm(r.choice([sat, sat, prn2sat(uGNSS.GPS, 31)]))
        b.toa = timeadd(t, r.uniform(-9e5, 9e5))
        alms.append(b)
    tmax = r.choice([None, 3e5])
    got = findalm(alms, t, sat) if tmax is None else \
        findalm(alms, t, sat, tmax)
    cand = [b for b in alms if b.sat == sat and
            (tmax is None or abs(ro.tsub(t, b.toa)) <= tmax)]
    best = min(cand, key=lambda b: abs(ro.tsub(t, b.toa)), default=None)
    c.ok(got is best, 'findalm', '')


@chk.case(60, 600, minseen=2)
def yuma(c):
    """ Yuma almanac file, ten-bit week """
    r = c.rng
    sys = r.choice([uGNSS.GPS, uGNSS.QZS])
    now = int((datetime.utcnow()-datetime(1980, 1, 6)).total_seconds())
    wk = now//604800
    n = r.randint(1, 8)
    txt, ref = '', []
    for k in range(n):
        prn = (k+1) if sys == uGNSS.GPS else 193+k
        w = wk-r.choice([0, 1, 2, r.randint(0, 1000), 1022])
        v = dict(e=r.uniform(0, .02), toas=4096.0*r.randint(0, 147),
                 i0=r.uniform(.9, 1), OMGd=r.uniform(-9e-9, -7e-9),
                 sq=r.uniform(5153, 5154), OMG0=r.uniform(-3, 3),
                 omg=r.uniform(-3, 3), M0=r.uniform(-3, 3),
                 af0=r.uniform(-9e-4, 9e-4), af1=r.uniform(-1e-11, 1e-11),
                 svh=r.choice([0, 0, 63]))
        v = {k_: (float('%.10E' % x) if k_ != 'svh' else x)
             for k_, x in v.items()}
        ref.append((prn, w, v))
        txt += f"******** Week {w % 1024} almanac for PRN-{prn:02d} ********\n"
        for lab, val in (('ID', f"{prn:02d}"), ('Health', f"{v['svh']:03d}"),
                         ('Eccentricity', v['e']),
                         ('Time of Applicability(s)', v['toas']),
                         ('Orbital Inclination(rad)', v['i0']),
                         ('Rate of Right Ascen(r/s)', v['OMGd']),
                         ('SQRT(A)  (m 1/2)', v['sq']),
                         ('Right Ascen at Week(rad)', v['OMG0']),
                         ('Argument of Perigee(rad)', v['omg']),
                         ('Mean Anom(rad)', v['M0']), ('Af0(s)', v['af0']),
                         ('Af1(s/s)', v['af1']), ('week', w % 1024)):
            s = val if isinstance(val, str) else \
                str(val) if isinstance(val, int) else f"{val:.10E}"
            txt += f"{lab}:  {s}\n"
        txt += "\n"
    fn = os.path.join(c.tmp, 'a.yuma')
    open(fn, 'w').write(txt)
    got = loadyuma(fn, sys)
    c.eq(len(got), n, 'count')
    for a, (prn, w, v) in zip(got, ref):
        c.eq(int(a.sat), int(prn2sat(sys, prn)), 'sat')
        c.eq(a.week, w, 'week', f"now {wk}")
        c.ok(abs(ro.tsub(a.toa, ro.gps(w, v['toas']))) < 1e-6, 'toa', '')
        c.close([a.e, a.i0, a.OMGd, a.OMG0, a.omg, a.M0, a.af0, a.af1],
                [v[k] for k in ('e', 'i0', 'OMGd', 'OMG0', 'omg', 'M0',
                                'af0', 'af1')], 1e-15, 'fields', rtol=1e-12)
        c.ok(abs(a.A-v['sq']**2) < 1e-3, 'A', '')
        c.eq(a.svh, v['svh'], 'health')
        c.seen(int(sys), wk-w > 500)


@chk.case(60, 600, minseen=4)
def xmlalm(c):
    """ Galileo almanac in XML, two-bit week """
    r = c.rng
    issue = datetime(2013, 1, 1)+timedelta(
        seconds=r.randint(0, 20*365*86400))
    if r.random() < .4:     # close to the turn of the week
        d = datetime(2013, 1, 6)+timedelta(weeks=r.randint(0, 1000))
        issue = d+timedelta(seconds=r.randint(-90000, 90000))
    sec = (issue-datetime(1999, 8, 22)).total_seconds()
    n = r.randint(1, 30)
    prns = r.sample(range(1, 37), n)
    txt, ref = '', []
    # reference time within some days of the issue
    w0 = sec+r.uniform(-4, 4)*86400
    wk, toas = int(w0//604800), int(w0 % 604800)//600*600
    for prn in prns:
        v = dict(aSqRoot=r.uniform(-.05, .05), ecc=r.uniform(0, 1e-3),
                 deltai=r.uniform(-.01, .01), omega0=r.uniform(-1, 1),
                 omegaDot=r.uniform(-3e-9, -1e-9), w=r.uniform(-1, 1),
                 m0=r.uniform(-1, 1), af0=r.uniform(-1e-3, 1e-3),
                 af1=r.uniform(-1e-11, 1e-11))
        v = {k: float('%.12E' % x) for k, x in v.items()}
        st = [r.randint(0, 3) for _ in range(3)]
        iod = r.randint(0, 15)
        ref.append((prn, v, st, iod))
        txt += f"<svAlmanac><SVID>{prn}</SVID><almanac>" + \
            ''.join(f"<{k}>{x:.12E}</{k}>" for k, x in v.items()) + \
            f"<iod>{iod}</iod><t0a>{toas}</t0a><wna>{wk % 4}</wna>" \
            "</almanac><svFNavSignalStatus>" \
            f"<statusE5a>{st[0]}</statusE5a></svFNavSignalStatus>" \
            f"<svINavSignalStatus><statusE5b>{st[1]}</statusE5b>" \
            f"<statusE1B>{st[2]}</statusE1B></svINavSignalStatus>" \
            "</svAlmanac>\n"
    fn = os.path.join(c.tmp, 'a.xml')
    with open(fn, 'w') as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?>\n<signalData>'
                '<header><GAL-header><source>GSC</source><issueDate>'
                f"{issue.isoformat(timespec='milliseconds')}"
                '</issueDate></GAL-header></header><body><Almanacs>'
                f'{txt}</Almanacs></body></signalData>')
    got = loadXmlAlmanac(fn)
    c.eq([int(a.sat) for a in got],
         [int(prn2sat(uGNSS.GAL, p)) for p in prns], 'satellites')
    t0 = ro.gps(wk+1024, float(toas))
    for a, (prn, v, st, iod) in zip(got, ref):
        c.ok(abs(ro.tsub(a.toa, t0)) < 1e-6, 'toa',
             f"issued {issue}, week {wk}, tow {toas}")
        pi = 3.1415926535898
        c.close([a.e, a.i0, a.OMG0, a.OMGd, a.omg, a.M0, a.af0, a.af1,
                 a.toas], [v['ecc'], (v['deltai']+56/180)*pi,
                           v['omega0']*pi, v['omegaDot']*pi, v['w']*pi,
                           v['m0']*pi, v['af0'], v['af1'], toas],
                1e-15, 'fields', rtol=1e-11)
        c.ok(abs(a.A-(v['aSqRoot']+29600e3**.5)**2) < 1e-3, 'A', '')
        c.eq((int(a.ioda), int(a.svh)),
             (iod, st[0] << 4 | st[1] << 2 | st[2]), 'health')
    c.seen(wk % 4, int(sec//604800)-wk)
