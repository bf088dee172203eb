""" C07: SSR corrections applied to satellite orbit and clock """
from common import Check, snapshot
import math
import numpy as np
from cssrlib.gnss import (uGNSS, prn2sat, sat2prn, Nav, Obs, rSigRnx, uTYP,
                          timeadd, gtime_t)
from cssrlib.cssrlib import cssr, sCSSRTYPE as sc, sCType
from cssrlib.ephemeris import satpos, satposs
import ref_orbit as ro
import copy

chk = Check('C07', ['src/cssrlib/ephemeris.py'],
            rule='correction stores of every service type in consistent and '
            'inconsistent states (issue numbers of orbit, clock, mask and '
            'broadcast data equal, lagging by one update, or unrelated; '
            'missing or invalid values); distinct by service, constellation, '
            'state and outcome')

SYS = [(uGNSS.GPS, 1, 32), (uGNSS.GAL, 1, 36), (uGNSS.QZS, 193, 202),
       (uGNSS.BDS, 6, 58), (uGNSS.GLO, 1, 27)]
ECEF = (sc.PVS_PPP, sc.SBAS_L1, sc.SBAS_L5)


def build(c):
    """ store + expected application per satellite """
    r = c.rng
    mode = r.choice(list(sc))
    while mode == sc.STDPOS:
        mode = r.choice(list(sc))
    cs = cssr()
    cs.cssrmode = mode
    t = ro.gps(r.randint(1900, 2400), r.randint(0, 604799) + 0.0)
    nav = Nav()
    nav.ephopt = 2
    nav.time_p = r.choice([gtime_t(), t])
    nav.x = np.r_[6378137.0*c.np.normal(size=3), np.zeros(3)]
    nav.x[:3] *= 6378137.0/np.linalg.norm(nav.x[:3])
    cs.nav_mode = {s: r.choice([0, 0, 1]) if s != uGNSS.GLO else 0
                   for s, _, _ in SYS}
    cs.iodssr = r.randint(0, 7)
    cs.iodssr_p = r.choice([-1, (cs.iodssr+1) % 8, (cs.iodssr-1) % 8])
    io = r.choice(['cur', 'cur', 'cur', 'prev', 'other'])
    ic = r.choice(['cur', 'cur', 'cur', 'prev', 'other'])
    val = {'cur': cs.iodssr, 'prev': cs.iodssr_p,
           'other': (cs.iodssr+4) % 8}
    cs.iodssr_c[sCType.ORBIT] = val[io]
    cs.iodssr_c[sCType.CLOCK] = val[ic]
    cs.mask_id = r.randint(0, 31)
    cs.mask_id_clk = r.choice([cs.mask_id, cs.mask_id, (cs.mask_id+1) % 32])
    lc = cs.lc[0]
    lc.iode, lc.dorb, lc.dclk = {}, {}, {}
    lc.iodc, lc.iodc_c, lc.iodc_c_p, lc.dclk_p = {}, {}, {}, {}
    lc.dvel, lc.ddft, lc.hclk = {}, {}, {}
    # rates of RTCM and IGS SSR
    if r.random() < .8:
        lc.ddorb = {}
    if r.random() < .8:
        lc.ddclk, lc.dddclk = {}, {}
    for x in (sCType.ORBIT, sCType.CLOCK):
        cs.udi[x] = r.choice([0, r.randint(0, 15)])
    if r.random() < 0.3:
        lc.cstat |= 1 << sCType.HCLOCK
    sats, exp, info = [], {}, {}
    cs.sat_n, cs.sat_n_p = [], []
    systems = [s for s in SYS if mode not in ECEF or s[0] != uGNSS.GLO]
    for _ in range(r.randint(1, 8)):
        sys, lo, hi = r.choice(systems)
        sat = prn2sat(sys, r.randint(lo, hi))
        if sat in sats:
            continue
        sats.append(sat)
        incur, inprev = r.random() < .85, r.random() < .7
        if incur:
            cs.sat_n.append(sat)
        if inprev:
            cs.sat_n_p.append(sat)
        st = []
        m = cs.nav_mode[sys]
        iode = r.randint(0, 90) + 1
        mx = 800 if sys == uGNSS.GLO else 3600
        e = None
        bad = r.choice(['', '', '', '', 'iode', 'mode', 'none'])
        others = r.sample(range(100, 250), 2)
        for k, io_ in enumerate(others+[iode]):
            toe = timeadd(t, float(r.randint(-mx, mx)))
            md = m
            if io_ == iode:
                if bad == 'none':
                    continue
                if bad == 'mode':
                    md = 1-m
                if bad == 'iode':
                    io_ = 251
            if sys == uGNSS.GLO:
                g = ro.gen_geph(r, sat, toe, io_)
                g.mode = md
                nav.geph.append(g)
            else:
                g = ro.gen_eph(r, sat, toe, md, io_)
                nav.eph.append(g)
            if io_ == iode and not bad:
                e = g
        has_orb = r.random() < .92
        has_clk = r.random() < .92
        dorb = np.array([r.uniform(-3, 3) for _ in range(3)])
        dclk = r.uniform(-3, 3)
        if r.random() < .06:
            dorb[r.randrange(3)] = np.nan
        if r.random() < .06:
            dclk = np.nan
        lc.t0[sat] = {sCType.ORBIT: timeadd(t, -float(r.choice(
            [0, 5, 17, 30, 60]))),
            sCType.CLOCK: timeadd(t, -float(r.choice([0, 5, 13])))}
        if has_orb:
            lc.iode[sat], lc.dorb[sat] = iode, dorb.copy()
            lc.dvel[sat] = np.array([r.uniform(-.01, .01) for _ in range(3)])
            if lc.ddorb is not None:
                lc.ddorb[sat] = np.array([r.uniform(-2e-3, 2e-3)
                                          for _ in range(3)])
            lc.iodc[sat] = r.randint(0, 7)
        if has_clk:
            lc.dclk[sat] = dclk
            lc.ddft[sat] = r.uniform(-.01, .01)
            if lc.ddclk is not None:
                lc.ddclk[sat] = r.uniform(-2e-3, 2e-3)
                lc.dddclk[sat] = r.choice([0, r.uniform(-1e-6, 1e-6)])
            if r.random() < .6:
                lc.hclk[sat] = r.choice([r.uniform(-.1, .1), np.nan])
        q = r.choice(['eq', 'eq', 'prev', 'no', 'nevr', 'noprev'])
        iodc = lc.iodc.get(sat, 3)
        if q == 'eq':
            lc.iodc_c[sat] = iodc
        elif q == 'prev':
            lc.iodc_c[sat] = (iodc+1) % 8
            lc.iodc_c_p[sat], lc.dclk_p[sat] = iodc, dclk-1.0
        elif q == 'no':
            lc.iodc_c[sat] = (iodc+1) % 8
            lc.iodc_c_p[sat], lc.dclk_p[sat] = (iodc+2) % 8, 7.0
        elif q == 'noprev':
            lc.iodc_c[sat] = (iodc+1) % 8
        # --- specification ---
        use = True
        if io == 'cur':
            use = incur
        elif io == 'prev' and cs.iodssr_p >= 0:
            use = inprev
        else:
            use = False
        use = use and has_orb and not np.isnan(dorb).any()
        ck = dclk if has_clk else None
        if mode == sc.BDS_PPP:
            ck = {'eq': ck, 'prev': dclk-1.0}.get(q)
            if q == 'eq' and not has_clk:
                # a clock issue is only stored together with its value
                del lc.iodc_c[sat]
        elif mode == sc.GAL_HAS_SIS:
            if cs.mask_id != cs.mask_id_clk and not inprev:
                use = False
        else:
            if ic == 'cur':
                use = use and incur
            elif ic == 'prev' and cs.iodssr_p >= 0:
                use = use and inprev
            elif ic == 'prev':
                # both clock and previous issue undefined (-1)
                use = use and inprev
            else:
                use = False
        if ck is not None and mode != sc.BDS_PPP:
            h = lc.hclk.get(sat, np.nan)
            if lc.cstat & (1 << sCType.HCLOCK) and not np.isnan(h):
                ck = ck+h
        if ck is None or np.isnan(ck):
            use = False
        exp[sat] = (use, e, ck)
        info[sat] = (mode.name, int(sys), io, ic, bad, q if
                     mode == sc.BDS_PPP else '', has_orb, has_clk)
    r.shuffle(nav.eph)
    return cs, nav, t, sats, exp, info, mode


UDI = (1, 2, 5, 10, 15, 30, 60, 120, 240, 300, 600, 900, 1800, 3600, 7200,
       10800)


def apply(cs, mode, sat, p, v, lc, ck, tref):
    dorb = lc.dorb[sat].copy()
    if mode in (sc.RTCM3_SSR, sc.IGS_SSR):
        # the corrections refer to the middle of their update interval
        def age(x):
            u = UDI[cs.udi[x]]/2 if cs.udi[x] else 0
            return ro.tsub(tref, lc.t0[sat][x])-u
        if lc.ddorb is not None:
            dorb = dorb+lc.ddorb[sat]*age(sCType.ORBIT)
        if lc.ddclk is not None:
            a = age(sCType.CLOCK)
            ck = ck+lc.ddclk[sat]*a+lc.dddclk[sat]*a*a
    if mode in ECEF:
        dorb = dorb+lc.dvel[sat]*ro.tsub(tref, lc.t0[sat][sCType.ORBIT])
        ck = ck+lc.ddft[sat]*ro.tsub(tref, lc.t0[sat][sCType.CLOCK])
        return p-dorb, ck, dorb
    if mode == sc.BDS_PPP:
        er = p/np.linalg.norm(p)
        ec = np.cross(p, v)
        ec /= np.linalg.norm(ec)
        ea = np.cross(ec, er)
    else:
        ea = v/np.linalg.norm(v)
        ec = np.cross(p, v)
        ec /= np.linalg.norm(ec)
        er = np.cross(ea, ec)
    d = er*dorb[0]+ea*dorb[1]+ec*dorb[2]
    return p-d, ck, d


def store(cs):
    return snapshot({k: v for k, v in vars(cs).items()
                     if k not in ('fh', 'buff', 'sinfo')})


@chk.case(1500, 30000, minseen=200)
def corrections(c):
    r = c.rng
    cs, nav, t, sats, exp, info, mode = build(c)
    n = len(sats)
    obs = Obs()
    obs.t = t
    obs.sat = np.array(sats)
    obs.P = np.array([[r.uniform(2e7, 3.9e7)]*2 for _ in sats])
    obs.sig = {s[0]: {uTYP.C: [rSigRnx(s[0], 'C1C' if s[0] != uGNSS.BDS
                                       else 'C2I')]} for s in SYS}
    s0, e0, o0 = store(cs), snapshot([nav.eph, nav.geph]), snapshot(obs)
    tp = nav.time_p
    rs, vs, dts, svh, nsat = satposs(obs, nav, cs=cs)
    c.ok(store(cs) == s0, 'stored corrections modified', mode.name)
    c.ok(snapshot([nav.eph, nav.geph]) == e0, 'ephemeris modified', '')
    c.ok(snapshot(obs) == o0, 'observations modified', '')
    r2 = satposs(obs, nav, cs=cs)
    c.ok((r2[0] == rs).all() and (r2[2] == dts).all() and r2[4] == nsat,
         'not repeatable', mode.name)
    cnt = 0
    for i, sat in enumerate(sats):
        use, e, ck = exp[sat]
        sys = uGNSS(int(sat2prn(sat)[0]))
        tag = f"{info[sat]}"
        if not use or e is None:
            c.ok(not rs[i].any() and dts[i] == 0, 'must not be used', tag)
            if use:
                c.ok(svh[i] != 0, 'no matching broadcast record', tag)
            c.seen('no', *info[sat])
            q = satpos(sat, t, nav, cs=cs)
            c.ok(np.isnan(q[0]).all() and np.isnan(q[2]).all(),
                 'satpos: must not be used', tag)
            continue
        cnt += 1
        c.seen('yes', *info[sat][:6])
        t1 = timeadd(t, -obs.P[i, 0]/ro.CL)
        if sys == uGNSS.GLO:
            t2 = timeadd(t1, -ro.geph_state(e, t1)[2])
            p, v, clk = ro.geph_state(e, t2)
            rel = -2*float(p@v)/ro.CL**2
            full, f1 = clk, clk-rel
        else:
            t2 = timeadd(t1, -ro.eph_state(e, t1)[2])
            p, v, clk, rel = ro.eph_state(e, t2)
            full, f1 = clk+rel, clk
        tgd = e.tgd if (mode in ECEF+(sc.DGPS,) and sys == uGNSS.GPS) else 0
        pc, k, d = apply(cs, mode, sat, p, v, cs.lc[0], ck, t)
        c.close(rs[i], pc, 2e-2 if sys == uGNSS.QZS else 5e-3, 'position',
                tag)
        c.close(vs[i], v, 1e-3, 'velocity', tag)
        c.ok(abs(dts[i]-(full+k/ro.CL-tgd)) < 2e-12, 'clock',
             f"{tag} {dts[i]} {full+k/ro.CL-tgd}")
        # projection on the line of sight kept for monitoring
        los = (rs[i]-nav.x[:3])/np.linalg.norm(rs[i]-nav.x[:3])
        c.ok(abs(nav.dorb[sat]+los@d) < 1e-3 and abs(nav.dclk[sat]-k) < 1e-6,
             'line-of-sight corrections', tag)
        q = satpos(sat, t2, nav, cs=cs)
        pc, k, d = apply(cs, mode, sat, p, v, cs.lc[0], ck, t2)
        c.close(q[0][0], pc, 2e-2 if sys == uGNSS.QZS else 5e-3,
                'satpos:position', tag)
        c.ok(abs(q[2][0]-(f1+k/ro.CL-tgd)) < 2e-12, 'satpos:clock', tag)
    c.eq(nsat, cnt, 'count', mode.name)
    c.ok(store(cs) == s0, 'stored corrections modified', mode.name)
    c.sample(f"{mode.name}: {n} satellites, {cnt} corrected")


def instance(r, mode):
    """ store of the class which decodes the service """
    from cssrlib.cssr_bds import cssr_bds
    from cssrlib.cssr_has import cssr_has
    from cssrlib.cssr_mdc import cssr_mdc
    from cssrlib.cssr_pvs import cssr_pvs
    from cssrlib.rtcm import rtcm
    from cssrlib.sbas import sbasDec
    cls = {sc.BDS_PPP: cssr_bds, sc.GAL_HAS_SIS: cssr_has,
           sc.QZS_MADOCA: cssr_mdc, sc.PVS_PPP: cssr_pvs,
           sc.RTCM3_SSR: rtcm, sc.IGS_SSR: rtcm,
           sc.SBAS_L1: sbasDec, sc.SBAS_L5: sbasDec}.get(mode, cssr)
    cs = cls()
    cs.cssrmode = mode
    return cs


@chk.case(400, 6000, minseen=40)
def expiry(c):
    """ corrections which are too old have no effect any more, the others
        are kept; a mask with satellites without corrections is no error """
    r = c.rng
    mode = r.choice([m for m in sc if m != sc.STDPOS])
    cs = instance(r, mode)
    t = ro.gps(r.randint(1900, 2400), r.randint(0, 604799) + 0.0)
    nav = Nav()
    nav.ephopt = 2
    nav.time_p = gtime_t()
    nav.x = np.r_[3.9e6, -3.1e6, 3.97e6, np.zeros(3)]
    cs.iodssr = cs.mask_id = cs.mask_id_clk = 1
    cs.iodssr_p = r.choice([-1, 0])
    cs.iodssr_c[:] = 1
    cs.iodp_c = {1: 1}
    lc = cs.lc[0]
    # the satellites of PVS and DGPS are those with corrections
    empty = r.random() < .1 and mode not in (sc.PVS_PPP, sc.DGPS)
    if not empty:
        lc.iode, lc.dorb, lc.dclk = {}, {}, {}
        lc.iodc, lc.iodc_c, lc.iodc_c_p, lc.dclk_p = {}, {}, {}, {}
        lc.hclk = {}
        if mode in ECEF:
            lc.dvel, lc.ddft = {}, {}
        elif mode in (sc.RTCM3_SSR, sc.IGS_SSR):
            lc.ddorb, lc.ddclk, lc.dddclk = {}, {}, {}
    for x in (sCType.ORBIT, sCType.CLOCK):
        cs.udi[x] = r.choice([0, r.randint(0, 5)])
        if r.random() < .5:
            cs.tmax[x] = r.choice([5.0, 30.0, 60.0, 300.0])
    limit = dict(cs.tmax)
    cs.sat_n, cs.sat_n_p, sats, exp = [], [], [], {}
    systems = [s for s in SYS if mode not in ECEF or s[0] != uGNSS.GLO]
    for _ in range(r.randint(1, 8)):
        sys, lo, hi = r.choice(systems)
        sat = prn2sat(sys, r.randint(lo, hi))
        if sat in sats:
            continue
        cs.nav_mode[sys] = 0
        cs.sat_n.append(sat)
        sats.append(sat)
        eph = {}
        for io in (11, 12):
            toe = timeadd(t, float(r.randint(-700, 700)))
            if sys == uGNSS.GLO:
                eph[io] = ro.gen_geph(r, sat, toe, io)
                eph[io].mode = 0
                nav.geph.append(eph[io])
            else:
                eph[io] = ro.gen_eph(r, sat, toe, 0, io)
                nav.eph.append(eph[io])
        if empty or mode not in (sc.PVS_PPP, sc.DGPS) and r.random() < .2:
            # in the mask only
            exp[sat] = None
            continue
        io = r.choice([11, 12])
        age = {x: float(r.choice([0, 1, limit[x]-1, limit[x], limit[x]+1,
                                  limit[x]+500, 86400*r.randint(1, 9)]))
               for x in (sCType.ORBIT, sCType.CLOCK)}
        for x in age:
            cs.set_t0(0, sat, x, timeadd(t, -age[x]))
        lc.iode[sat] = io
        lc.dorb[sat] = np.array([r.uniform(-3, 3) for _ in range(3)])
        lc.dclk[sat] = r.uniform(-3, 3)
        lc.iodc[sat] = lc.iodc_c[sat] = 3
        if r.random() < .3:
            lc.iodc_c[sat], lc.iodc_c_p[sat] = 4, 3
            lc.dclk_p[sat] = r.uniform(-3, 3)
        for k, lim in (('dvel', .01), ('ddorb', 2e-3)):
            if getattr(lc, k, None) is not None:
                getattr(lc, k)[sat] = np.array(
                    [r.uniform(-lim, lim) for _ in range(3)])
        for k, lim in (('ddft', .01), ('ddclk', 2e-3), ('dddclk', 1e-6)):
            if getattr(lc, k, None) is not None:
                getattr(lc, k)[sat] = r.uniform(-lim, lim)
        exp[sat] = (io, age[sCType.ORBIT] > limit[sCType.ORBIT],
                    age[sCType.CLOCK] > limit[sCType.CLOCK], eph)
    r.shuffle(nav.eph)
    obs = Obs()
    obs.t = t
    obs.sat = np.array(sats)
    obs.P = np.array([[r.uniform(2e7, 3.9e7)]*2 for _ in sats])
    obs.sig = {s[0]: {uTYP.C: [rSigRnx(s[0], 'C1C' if s[0] != uGNSS.BDS
                                       else 'C2I')]} for s in SYS}
    keep = copy.deepcopy(lc)
    for _ in range(r.choice([1, 2])):
        cs.check_validity(t)
    if empty:
        c.seen(mode.name, 'empty')
        return
    rs, vs, dts, svh, _ = satposs(obs, nav, cs=cs)
    for i, sat in enumerate(sats):
        sys = uGNSS(int(sat2prn(sat)[0]))
        if exp[sat] is None:
            c.ok(not rs[i].any(), 'no corrections', mode.name)
            c.seen(mode.name, 'none')
            continue
        io, oo, oc, eph = exp[sat]
        tag = f"{mode.name} {int(sys)} orbit {oo} clock {oc}"
        c.seen(mode.name, oo, oc)
        ck = keep.dclk[sat]
        if mode == sc.BDS_PPP and keep.iodc_c[sat] != 3:
            ck = keep.dclk_p[sat]
        cand = [eph[io]] if not oo else list(eph.values())
        best = None
        for e in cand:
            t1 = timeadd(t, -obs.P[i, 0]/ro.CL)
            if sys == uGNSS.GLO:
                t2 = timeadd(t1, -ro.geph_state(e, t1)[2])
                p, v, full = ro.geph_state(e, t2)
            else:
                t2 = timeadd(t1, -ro.eph_state(e, t1)[2])
                p, v, clk, rel = ro.eph_state(e, t2)
                full = clk+rel
            tgd = e.tgd if (mode in ECEF+(sc.DGPS,) and
                            sys == uGNSS.GPS) else 0
            pc, k, _ = apply(cs, mode, sat, p, v, keep, ck, t)
            if oo:
                pc = p
            if oc:
                k = 0.0
            err = (np.abs(rs[i]-pc).max(), abs(dts[i]-(full+k/ro.CL-tgd)))
            if best is None or err < best:
                best = err
        c.ok(best[0] < (2e-2 if sys == uGNSS.QZS else 5e-3),
             'position after expiry', f"{tag} {best}")
        c.ok(best[1] < 2e-12, 'clock after expiry', f"{tag} {best}")


@chk.case(300, 3000, minseen=2)
def sizes(c):
    """ last satellite number is handled like any other """
    r = c.rng
    t = ro.gps(2200, 30.0*r.randint(0, 20000))
    nav = Nav()
    nav.time_p = gtime_t()
    nav.x = np.array([-3.9e6, 3.3e6, 3.7e6])
    prn = r.choice([14, 1])
    sat = prn2sat(uGNSS.IRN, prn)
    cs = cssr()
    cs.cssrmode = sc.RTCM3_SSR
    cs.iodssr = 1
    cs.iodssr_c[:] = 1
    cs.sat_n = [sat]
    cs.nav_mode[uGNSS.IRN] = 0
    lc = cs.lc[0]
    lc.iode, lc.dorb = {sat: 5}, {sat: np.array([1., 2, 3])}
    lc.dclk, lc.hclk = {sat: 1.0}, {}
    lc.t0[sat] = {sCType.ORBIT: t, sCType.CLOCK: t}
    e = ro.gen_eph(r, sat, t, 0, 5)
    nav.eph.append(e)
    obs = Obs()
    obs.t = t
    obs.sat = np.array([sat])
    obs.P = np.array([[3.8e7, 3.8e7]])
    obs.sig = {uGNSS.IRN: {uTYP.C: [rSigRnx('IC5A')]}}
    rs, vs, dts, svh, nsat = satposs(obs, nav, cs=cs)
    c.eq(nsat, 1, 'count')
    c.ok(abs(nav.dclk[sat]-1.0) < 1e-9, 'dclk', '')
    c.seen(prn)
