""" C06: ephemeris selection and satellite states at transmission time """
from common import Check, snapshot
import math
import numpy as np
from cssrlib.gnss import (uGNSS, prn2sat, sat2prn, Nav, Obs, rSigRnx, uTYP,
                          timeadd)
from cssrlib.ephemeris import findeph, satpos, satposs
import ref_orbit as ro

chk = Check('C06', ['src/cssrlib/ephemeris.py'],
            rule='navigation data sets with several records per satellite '
            '(legacy/CNAV, old and new issues, expired, unhealthy) in random '
            'order and observation sets mixing available and missing '
            'satellites; distinct by constellation, outcome, record choice')

SYS = [(uGNSS.GPS, 1, 32), (uGNSS.GAL, 1, 36), (uGNSS.QZS, 193, 202),
       (uGNSS.BDS, 1, 63), (uGNSS.IRN, 1, 14), (uGNSS.GLO, 1, 27)]
MAXD = {uGNSS.GPS: 7200, uGNSS.QZS: 7200, uGNSS.BDS: 7200,
        uGNSS.IRN: 7200, uGNSS.GAL: 14400, uGNSS.GLO: 1800}


def rsat(r, systems=SYS):
    sys, lo, hi = r.choice(systems)
    return prn2sat(sys, r.choice([lo, hi, r.randint(lo, hi)])), sys


@chk.case(6000, 120000, minseen=15)
def select(c):
    r = c.rng
    sat, sys = rsat(r)
    other, _ = rsat(r, [s for s in SYS if s[0] == sys])
    t = ro.gps(r.randint(1900, 2400), r.uniform(0, 604799))
    M = MAXD[sys]
    recs = []
    iodes = r.sample(range(0, 256), 12)
    for k in range(r.randint(0, 10)):
        d = r.choice([r.uniform(-M, M), r.uniform(-M, M),
                      r.uniform(-2*M, 2*M), 604800.0+r.uniform(-M, M),
                      M+5.0, -M-5.0, float(M)-1, 1.0-M, 0.0])
        s = r.choice([sat, sat, sat, other])
        m = r.choice([0, 0, 1, 2])
        toe = timeadd(t, d)
        if sys == uGNSS.GLO:
            e = ro.gen_geph(r, s, toe, iode=iodes[k])
            e.mode = m
        else:
            e = ro.gen_eph(r, s, toe, mode=m, iode=iodes[k])
        recs.append(e)
    if len(recs) > 1 and r.random() < 0.3:   # same epoch twice: newer last
        recs[-1].toe, recs[-1].sat = recs[0].toe, recs[0].sat
        recs[-1].mode = recs[0].mode
    s0 = [id(e) for e in recs]
    mode = r.choice([0, 0, 1, 2])
    ok = [e for e in recs if e.sat == sat and e.mode == mode and
          abs(ro.tsub(t, e.toe)) <= M]
    got = findeph(recs, t, sat, mode=mode) if mode or r.random() < .5 \
        else findeph(recs, t, sat)
    if not ok:
        c.ok(got is None, 'none expected', '')
    else:
        best = min(abs(ro.tsub(t, e.toe)) for e in ok)
        c.ok(got is not None and any(got is e for e in ok), 'invalid record',
             '')
        if got is not None:
            d = abs(ro.tsub(t, got.toe))
            c.ok(d <= best+1e-6, 'not nearest', f"{d} {best}")
            ties = [e for e in ok if ro.tsub(e.toe, got.toe) == 0]
            c.ok(got is ties[-1], 'superseded record', '')
    c.seen(int(sys), 'free', len(ok) and 1+(len(ok) > 1), mode)
    # a given issue of data
    iode = r.choice(iodes)
    cand = [e for e in ok if e.iode == iode]
    got = findeph(recs, t, sat, iode, mode)
    if cand:
        c.ok(got is cand[0], 'issue', f"{iode}")
    else:
        c.ok(got is None, 'issue: other record returned', f"{iode}")
    c.seen(int(sys), 'iode', bool(cand))
    c.ok([id(e) for e in recs] == s0, 'list modified', '')


@chk.case(700, 14000, minseen=15)
def transmission(c):
    r = c.rng
    t = ro.gps(r.randint(1900, 2400), r.choice([
        r.randint(0, 604799), 0.0, 604799.0])+r.choice([0, 0.5]))
    nav = Nav(nf=r.choice([1, 2]))
    nav.smode = r.choice([0, 1])
    nav.ephopt = r.choice([0, 2])
    obs = Obs()
    obs.t = t
    used = r.sample(SYS, r.randint(1, len(SYS)))
    sats, truth = [], {}
    for _ in range(r.randint(1, 10)):
        sat, sys = rsat(r)
        if sat in sats:
            continue
        sats.append(sat)
        M = MAXD[sys]
        avail = r.random() < 0.85
        best = None
        # |d| differ by at least a minute: the nearest record is unambiguous
        top = 900 if sys == uGNSS.GLO else M-60
        ds = [r.choice([-1, 1])*d for d in r.sample(range(0, top, 60), 3)]
        for d in ds:
            toe = timeadd(t, float(d))
            if not avail:
                toe = timeadd(t, (M+100.0)*r.choice([-1, 1]))
            if sys == uGNSS.GLO:
                e = ro.gen_geph(r, sat, toe)
                nav.geph.append(e)
            else:
                e = ro.gen_eph(r, sat, toe, 0)
                nav.eph.append(e)
                if r.random() < 0.3:  # CNAV record must be ignored
                    nav.eph.append(ro.gen_eph(r, sat, toe, 1))
            e.svh = r.choice([0, 0, 0, 1, 63])
            # transmission is 0.06..0.14 s before: avoid ties
            if best is None or abs(ro.tsub(t, e.toe)+0.1) < \
                    abs(ro.tsub(t, best.toe)+0.1):
                best = e
        truth[sat] = best if avail else None
    r.shuffle(nav.eph)
    r.shuffle(nav.geph)
    n = len(sats)
    obs.sat = np.array(sats, dtype=int)
    nf = 2
    obs.P = np.zeros((n, nf))
    for i in range(n):
        obs.P[i, :] = r.uniform(1.9e7, 4.2e7)
    obs.L = np.zeros((n, nf))
    obs.S = np.ones((n, nf))*40
    obs.lli = np.zeros((n, nf), dtype=int)
    obs.sig = {s[0]: {uTYP.C: [rSigRnx(s[0], {uGNSS.IRN: 'C5A', uGNSS.BDS:
                                        'C2I'}.get(s[0], 'C1C'))]}
               for s in used}
    so, sn = snapshot(obs), snapshot([nav.eph, nav.geph])
    rs, vs, dts, svh, nsat = satposs(obs, nav)
    c.ok(snapshot(obs) == so, 'observations modified', '')
    c.ok(snapshot([nav.eph, nav.geph]) == sn, 'ephemeris modified', '')
    again = satposs(obs, nav)
    c.ok((again[0] == rs).all() and (again[2] == dts).all() and
         again[4] == nsat, 'not repeatable', '')
    c.ok(rs.shape == (n, 3) and vs.shape == (n, 3) and dts.shape == (n,),
         'shape', '')
    cnt = 0
    for i, sat in enumerate(sats):
        sys = uGNSS(int(sat2prn(sat)[0]))
        tag = f"{sys!r} {sat}"
        e = truth[sat]
        if sys not in obs.sig:
            c.ok(not rs[i].any() and dts[i] == 0, 'unused system', tag)
            c.seen('unused', int(sys))
            continue
        if e is None:
            c.ok(not rs[i].any() and dts[i] == 0 and svh[i] != 0,
                 'no ephemeris', tag)
            c.seen('missing', int(sys))
            continue
        cnt += 1
        c.seen('ok', int(sys), e.svh != 0, nav.smode, nav.nf)
        c.eq(int(svh[i]), e.svh, 'health', tag)
        t1 = timeadd(t, -obs.P[i, 0]/ro.CL)
        if sys == uGNSS.GLO:
            t2 = timeadd(t1, -ro.geph_state(e, t1)[2])
            p, v, clk = ro.geph_state(e, t2)
            rel = -2*float(p@v)/ro.CL**2
            c.eq(nav.glo_ch.get(sat), e.frq, 'glonass channel', tag)
            full = clk
        else:
            t2 = timeadd(t1, -(ro.eph_state(e, t1)[2]))
            p, v, clk, rel = ro.eph_state(e, t2)
            full = clk+rel
            if nav.smode == 1 and nav.nf == 1:
                full -= e.tgd
        c.close(rs[i], p, 5e-3 if sys != uGNSS.QZS else 4e-2, 'position',
                tag)
        c.close(vs[i], v, 1e-3, 'velocity', tag)
        c.ok(abs(dts[i]-full) < 1e-12, 'clock', f"{tag} {dts[i]} {full}")
        # state of a single satellite at a given time
        nav2 = nav
        rs1, vs1, d1, h1 = satpos(sat, t2, nav2)
        c.close(rs1[0], p, 5e-3 if sys != uGNSS.QZS else 4e-2,
                'satpos:position', tag)
        c.close(vs1[0], v, 1e-3, 'satpos:velocity', tag)
        f1 = clk - (rel if sys == uGNSS.GLO else 0)
        if sys != uGNSS.GLO and nav.smode == 1 and nav.nf == 1:
            f1 -= e.tgd
        c.ok(abs(d1[0]-f1) < 1e-12, 'satpos:clock', f"{tag} {d1} {f1}")
        c.eq(int(h1[0]), e.svh, 'satpos:health', tag)
    c.eq(nsat, cnt, 'count')
    c.sample(f"{n} satellites, {cnt} computed")
    # unavailable satellite
    for sat in sats:
        if truth[sat] is None:
            rs1, vs1, d1, h1 = satpos(sat, t, nav)
            c.ok(np.isnan(rs1).all() and np.isnan(d1).all() and h1[0] != 0,
                 'satpos:no ephemeris', '')
