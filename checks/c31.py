""" C31: QZSS SLAS (DGPS) """
from common import Check
from bits import BW, ru
import math
import numpy as np
import sim
import ewss_tabs
import ref_orbit as ro
from cssrlib.gnss import (gtime_t, timeadd, timediff, sat2id, uGNSS, Nav)
from cssrlib.cssrlib import sCType as T
from cssrlib.dgps import dgpsDec
from cssrlib.pntpos import stdpos

chk = Check('C31', ['src/cssrlib/dgps.py', 'src/cssrlib/pntpos.py'],
            rule='independently encoded L1S message histories with mask and '
            'IOD changes; positioning with simulated errors common to '
            'station and receiver; distinct by message type and situation')

NS = [('G', 64, 32), ('J', 9, 9), ('R', 36, 24), ('E', 36, 36),
      ('C', 36, 36)]


class Slas():
    def __init__(self, c, cs):
        self.c, self.r, self.cs = c, c.rng, cs
        self.t = ro.gps(2200, 100.0)
        self.iodp = self.iodi = None
        self.sats, self.iode = [], {}
        self.cor = {}
        self.stn = {}
        self.svh = None

    def send(self, mt, w):
        self.cs.time = self.t
        w = w.pad(212)
        self.cs.decode_cssr(BW().u(8, 0x53).u(6, mt).cat(w).u(
            24, ru(self.r, 24)).align().bytes(), 0)
        self.c.seen('mt', mt)

    def stations(self, lst=None):
        r = self.r
        w = BW()
        used = set()
        for k in range(5):
            if lst is not None:
                code, la, lo, al = lst[k] if k < len(lst) else (63, 0, 0, 0)
            else:
                code = r.choice([63, r.randrange(63)])
                code = 63 if code in used else code
                used.add(code)
                la, lo = r.randrange(4000, 9400), r.randrange(1000, 8000)
                al = ru(r, 6)
            w.u(6, code).s(15, la).s(15, lo).u(6, al)
            if code != 63:
                self.stn[code] = (la*.005, lo*.005+115, al*50-100)
        self.send(47, w)

    def mask(self, sats=None):
        r = self.r
        if sats is None and self.iodp is not None and r.random() < .4:
            pass
        else:
            p = self.iodp
            self.iodp = r.randrange(4) if p is None else \
                (p+r.randint(1, 3)) % 4
            pool = [f"{s}{k:02d}" for s, n, m in NS for k in range(1, m+1)]
            n = r.choice([1, 8, 16, 23])
            pick = set(r.sample(pool, n)) if sats is None else set(sats)
            self.sats = [x for x in pool if x in pick]
            self.iodi = None
            self.iode = {}
            self.c.seen('mask', len(self.sats))
        w = BW().u(2, self.iodp)
        for s, n, m in NS:
            for k in range(1, n+1):
                w.u(1, int(f"{s}{k:02d}" in self.sats))
        self.send(48, w)

    def iods(self, ok=True, iode=None):
        r = self.r
        iodi = r.randrange(4)
        w = BW().u(2, iodi)
        use = [r.random() < .9 for _ in self.sats] if iode is None else \
            [True for _ in self.sats]
        for k in range(23):
            w.u(1, int(k < len(self.sats) and use[k]))
        new = {}
        for k, s in enumerate(self.sats):
            if use[k]:
                v = ru(r, 8) if iode is None else iode[s]
                new[s] = v
                w.u(8, v)
        w.pad(209)
        w.u(2, self.iodp if ok else (self.iodp+r.randint(1, 3)) % 4)
        if ok:
            self.iodi, self.iode = iodi, new
        self.send(49, w)

    def corr(self, kind='ok', code=None, prc=None):
        """ kind: ok, bad, foreign mask, foreign issue """
        r = self.r
        code = r.choice([0, 1, 14, 31, 32, 40, 62]) if code is None else code
        p = self.iodp
        i = self.iodi if self.iodi is not None else r.randrange(4)
        h = 0
        if kind == 'bad':
            h = 1
        elif kind == 'mask':
            p = (p+r.randint(1, 3)) % 4
        elif kind == 'issue':
            i = (i+r.randint(1, 3)) % 4
        if prc is None:
            use = sorted(r.sample(range(len(self.sats)),
                                  r.randint(0, min(14, len(self.sats)))))
        else:
            use = [k for k, s in enumerate(self.sats) if s in prc]
        w = BW().u(2, p).u(2, i).u(6, code).u(1, h)
        for k in range(23):
            w.u(1, int(k in use))
        new = {}
        for k in use:
            s = self.sats[k]
            v = r.choice([-2047, 2047, 0, 1, -1, r.randrange(-2047, 2048)]) \
                if prc is None else prc[s]
            w.s(12, v)
            if s in self.iode:
                new[s] = self.iode[s], v*.04
        if self.iodi is not None and kind in ('ok', 'bad'):
            self.cor[code] = self.iodp, {} if h else new, self.t
        self.c.seen(kind, len(new), code > 31)
        self.send(50, w)

    def health(self):
        r = self.r
        v = [ru(r, n) for s, n, m in NS]
        w = BW()
        for x, (s, n, m) in zip(v, NS):
            w.u(n, x)
        self.svh = v
        self.send(51, w)


def compare(c, cs, e, tag):
    if e.iodp is not None:
        c.eq([sat2id(s) for s in cs.sat], e.sats, 'mask', tag)
        c.eq(cs.iodp, e.iodp, 'iodp', tag)
    for code, (p, d, t) in e.cor.items():
        lc = cs.lc[code+1]
        g = {sat2id(s): (lc.iode[s], round(lc.dclk[s], 6)) for s in lc.sat_n}
        c.eq(g, {s: (x, round(y, 6)) for s, (x, y) in d.items()},
             'corrections', f"{tag} station {code}")
        for s in lc.sat_n:
            c.ok(abs(timediff(lc.t0[s][T.CLOCK], t)) < 1e-6, 't0', tag)
            c.ok(not np.any(lc.dorb[s]), 'orbit', tag)
    for code, p in e.stn.items():
        c.close(cs.posr[code], [math.radians(p[0]), math.radians(p[1]),
                                p[2]], 1e-9, 'station', f"{tag} {code}")
    if e.svh is not None:
        sy = [uGNSS.GPS, uGNSS.QZS, uGNSS.GLO, uGNSS.GAL, uGNSS.BDS]
        c.eq([cs.svh.get(s) for s in sy], e.svh, 'health', tag)


def dist(a, b):
    return np.linalg.norm(sim.xyz(math.radians(a[0]), math.radians(a[1]),
                                  0)-sim.xyz(math.radians(b[0]),
                                             math.radians(b[1]), 0))


@chk.case(200, 8000)
def history(c):
    """ message history """
    r = c.rng
    cs = ewss_tabs.build(c.tmp, dgpsDec, 2)
    e = Slas(c, cs)
    if r.random() < .2:
        e.iodp, e.sats = 1, []
        e.corr()
        e.iods()
        e.iodp = None
        e.iodi = None
        e.cor = {}
    e.mask()
    for k in range(r.randint(4, 40)):
        q = r.random()
        if q < .08:
            e.mask()
        elif q < .2:
            e.iods(r.random() < .7)
        elif q < .3:
            e.stations()
        elif q < .34:
            e.health()
        elif q < .38:
            e.send(63, BW().u(212, ru(r, 212)))
        else:
            e.corr(r.choice(['ok']*7+['bad', 'mask', 'issue']))
        compare(c, cs, e, f"msg {k}")
        e.t = timeadd(e.t, r.choice([1, 2, 30]))
        if e.iodi is None or r.random() < .6:
            continue
        # selection of the station
        la, lo = r.uniform(22, 46), r.uniform(122, 154)
        rr = sim.xyz(math.radians(la), math.radians(lo), 50.0)
        known = {i: (math.degrees(p[0]), math.degrees(p[1]))
                 for i, p in enumerate(cs.posr) if p[0] != 0}
        dd = sorted((dist((la, lo), p), i) for i, p in known.items())
        if len(dd) > 1 and dd[0][0] > .9*dd[1][0]:
            continue
        if dd[0][0] > 6e5:   # the range of the service
            continue
        code = dd[0][1]
        b = cs.set_dgps_corr(rr)
        c.ok(abs(b-dd[0][0]*1e-3) < .05*dd[0][0]*1e-3+.1, 'baseline',
             f"{b} {dd[0]}")
        c.eq(cs.inet, code+1, 'station', f"{la} {lo}")
        if code in e.cor:
            p, d, t = e.cor[code]
            g = {sat2id(s): (cs.lc[0].iode[s], round(cs.lc[0].dclk[s], 6))
                 for s in cs.sat_n}
            c.eq(g, {s: (x, round(y, 6)) for s, (x, y) in d.items()},
                 'in use', f"station {code}")
            c.seen('in use', len(d))


@chk.case(12, 400, cpu=200, minseen=2)
def position(c):
    """ errors common to the station and the receiver are removed """
    r = c.rng
    t0 = gtime_t(ro.gps(r.randint(2000, 2400), r.uniform(10, 604000)).time, 0)
    systems = r.choice(['G', 'GE', 'GJ'])
    w = sim.World(c, t0, systems)
    la, lo = r.randrange(5000, 8800), r.randrange(1800, 6000)
    code = r.choice([2, 20, 33, 62])
    pb = sim.xyz(math.radians(la*.005), math.radians(lo*.005+115), 100.0)
    dtdc = r.random() < .5
    ax = sim.enu_axes(math.radians(la*.005), math.radians(lo*.005+115))
    rr = pb+ax.T@np.array([r.uniform(-3e4, 3e4), r.uniform(-3e4, 3e4),
                           r.uniform(0, 800)])
    cs = ewss_tabs.build(c.tmp, dgpsDec, 2)
    e = Slas(c, cs)
    e.t = t0
    # the default stations may be closer
    e.stations([(code, la, lo, 4)])
    for i in range(len(cs.posr)):
        if i != code:
            cs.posr[i] = 0
    codes = {s: ['1C'] for s in systems}
    bx = sim.Rx(c, w, codes, mask=5)
    rx = sim.Rx(c, w, codes, mask=5)
    err = {s: r.uniform(-20, 20) for s in w.sats()}

    def com(t, p, a, el, s):
        return err[s]
    trop = sim.trop_mops
    # the corrections contain the troposphere of the station
    ob, ib = bx.observe(t0, pb, 0.0, trop, com, tgd=True)
    ids = {sat2id(s): s for s in ob.sat}
    prc = {}
    for k, s in enumerate(ob.sat):
        i = ib[s]
        tg = sim.CL*w.eph[s].tgd if sat2id(s)[0] == 'G' else 0.0
        P = ob.P[k, 0]
        if sat2id(s)[0] != 'G':
            P -= sim.CL*w.eph[s].tgd
            w.eph[s].tgd = 0.0
        prc[sat2id(s)] = (i['rho']-sim.CL*i['clk']+tg)-P
    names = sorted(prc, key=lambda s: -ib[ids[s]]['el'])[:14]
    names = [s for s in names if abs(prc[s]) < 80]
    if len(names) < 7:
        return
    e.mask(names)
    e.iods(True, {s: w.eph[ids[s]].iode for s in names})
    e.corr('ok', code, {s: round(prc[s]/.04) for s in names})
    nav = w.nav(nf=1)
    nav.pmode = 0
    # without the model of the troposphere at the receiver unless the
    # differential correction is selected
    std = stdpos(nav, rr+c.np.normal(size=3)*r.choice([1, 30]),
                 trop_opt=1, iono_opt=1)
    nav.t = gtime_t(t0.time, 0.0)
    nav.time_p = gtime_t()
    nav.elmin = math.radians(10)
    errs = []
    clk = r.uniform(-1e-7, 1e-7)
    miss = r.choice([None, 2, 3])
    rec = []
    kf = std.kfupdate

    def watch(x, P, H, v, R):
        rec[:] = [np.diag(R).copy(), R.copy()]
        return kf(x, P, H, v, R)
    std.kfupdate = watch
    for k in range(8):
        t = timeadd(t0, float(k))
        o, i = rx.observe(t, rr, clk, trop, com, tgd=True)
        if k == miss:       # too few satellites
            m = r.choice([0, 2])
            for x in ('sat', 'P', 'L', 'S', 'lli'):
                setattr(o, x, getattr(o, x)[:m])
            std.process(o, cs)
            c.eq(nav.smode, 0, 'mode without solution')
            continue
        e.t = t
        if k % 3 == 1:
            e.corr('ok', code, {s: round(prc[s]/.04) for s in names})
        std.process(o, cs)
        errs.append(np.linalg.norm(nav.x[:3]-rr))
        if len(nav.sat) < 4 or std.dop is None:
            continue
        c.eq(nav.smode, 2, 'mode', f"epoch {k}, outage {miss}")
        # weights of the specification, by elevation
        if k > 2 and rec and len(rec[0]) == len(nav.sat):
            h = sim.llh(nav.x[:3])[2]
            exp = []
            for q in sorted(nav.sat, key=lambda q: (
                    systems.index(sat2id(q)[0]), int(q))):
                el = i[int(q)]['el']
                d = math.degrees(el)
                mp = .13+.53*math.exp(-d/10)
                fpp = 1/math.sqrt(1-(6378137*math.cos(el)/(6378137+h))**2) \
                    if h > 0 else None
                if fpp is None:
                    break
                exp.append((.16+1.07*math.exp(-d/15.5))**2+.08**2+.11**2 +
                           mp**2+(fpp*.004*(nav.baseline+14))**2)
            else:
                c.close(np.sort(rec[0]), np.sort(exp), 1e-3, 'weights',
                        rtol=2e-2)
                c.close(rec[1]-np.diag(rec[0]), 0*rec[1], 0, 'correlation')
    c.eq(nav.smode, 2, 'mode')
    if not c.ok(std.dop is not None, 'solution', f"{systems} {names}"):
        return
    if std.dop[0] > 5:
        return
    c.seen('position', systems)
    c.sample(f"{systems} {[round(x, 3) for x in errs]}")
    c.ok(errs[-1] < .4, 'position', f"{systems} {errs} dop {std.dop}")
