""" C25: CLAS network selection, atmosphere interpolation and PPP-RTK """
from common import Check, snapshot
import math
import os
import numpy as np
import sim
import ref_atm as ra
from enc_cssr import Enc, Mask, names
from c20 import Setup, CODES, quiet
from cssrlib.gnss import timeadd, gpst2utc, sat2id, ecef2pos
from cssrlib.cssrlib import cssr, sCSSRTYPE as sc, sCType
from cssrlib.ppprtk import ppprtkpos
from cssrlib import ppp as pppmod

chk = Check('C25', ['src/cssrlib/cssrlib.py', 'src/cssrlib/pppssr.py',
                    'src/cssrlib/ppprtk.py'],
            rule='random grid networks, rover positions near, between and '
            'outside grid points, all combinations of functional and '
            'residual terms, simulated PPP-RTK observations; distinct by '
            'geometry class, terms and signal')

RE = 6378137.0
D2R = math.pi/180


def make_grid(r, lat0, lon0, nnet=None):
    """ networks of 1-9 points around a place (degrees) """
    g = []
    nets = r.sample(range(1, 20), nnet or r.randint(1, 5))
    for n in sorted(nets):
        la, lo = lat0+r.uniform(-2, 2), lon0+r.uniform(-2, 2)
        for k in range(r.randint(1, 9)):
            g.append((n, k+1, round(la+r.uniform(-1, 1), 4),
                      round(lo+r.uniform(-1, 1), 4)))
    if r.random() < .3:     # rows in any order after the reference points
        q = [x for x in g if x[1] > 1]
        r.shuffle(q)
        g = [x for x in g if x[1] == 1]+q
    return g if len(g) > 1 else make_grid(r, lat0, lon0, nnet)


def load(c, cs, g):
    p = os.path.join(c.tmp, 'grid.txt')
    with open(p, 'w') as f:
        f.write('nid gid lat lon alt\n')
        for n, k, la, lo in g:
            f.write(f"{n:3d} {k:3d} {la:10.4f} {lo:10.4f} {0.0:8.2f}\n")
    cs.read_griddef(p)


def interp(g, lat, lon):
    """ network and weights of its grid points at lat, lon [rad] """
    def off(x):
        return np.array([x[2]*D2R-lat, (x[3]*D2R-lon)*math.cos(lat)])
    d = [(float(np.hypot(*off(x)))*RE, x, off(x)) for x in g]
    near = sorted(d, key=lambda q: q[0])
    net = near[0][1][0]
    amb = len(near) > 1 and near[1][0]-near[0][0] < 1.0 or \
        abs(near[0][0]-5e3) < .5
    if near[0][0] < 5e3:
        return net, {near[0][1][1]: 1.0}, amb, 'point'
    own = [q for q in near if q[1][0] == net]
    for a, b in zip(own, own[1:]):
        amb |= b[0]-a[0] < 1.0
    use = own[:3]
    kind = len(own)
    if len(own) >= 4:
        p = -own[0][2]
        a, b = own[1][2]-own[0][2], own[2][2]-own[0][2]

        def cr(x, y):
            return x[0]*y[1]-x[1]*y[0]
        kind = 3
        for q in own[3:]:
            v = q[2]-own[0][2]
            s = (cr(a, p)*cr(a, v), cr(b, p)*cr(b, v))
            if min(abs(x) for x in s) < 1e-16:
                amb = True
            if s[0] >= 0 and s[1] >= 0:
                use = use+[q]
                kind = 4
                break
    iw = [1/q[0] for q in use]
    return net, {q[1][1]: x/sum(iw) for q, x in zip(use, iw)}, amb, kind


def resid(v, w):
    return sum(v[k-1]*x for k, x in w.items())


@chk.case(250, 10000)
def atmosphere(c):
    """ decoded atmosphere corrections at a position """
    r = c.rng
    cs = cssr()
    cs.week = r.randint(1900, 2500)
    lat0, lon0 = r.uniform(-60, 60), r.uniform(-170, 170)
    g = make_grid(r, lat0, lon0)
    load(c, cs, g)
    e = Enc(c, cs.week)
    tow = r.randint(0, 600000)
    w = e.mask(tow, Mask(r, sorted(r.sample([0, 1, 2, 4], 2)), 30), 3)
    nets = sorted({x[0] for x in g})
    old = r.random() < .25
    for n in nets:
        ng = sum(1 for x in g if x[0] == n)
        if old:
            w.cat(e.stec(tow, n)).cat(e.gridc(tow, n, ng, e.b))
        else:
            w.cat(e.atmos(tow, n, ng))
    cs.decode_cssr(w.bytes()+bytes(20))
    for _ in range(6):
        k = r.random()
        q = r.choice(g)
        if k < .3:      # close to a grid point
            s = r.choice([1e-6, .01, .044, .05, .1])
        elif k < .9:
            s = 1.0
        else:
            s = 6.0
        lat = (q[2]+r.uniform(-s, s))*D2R
        lon = (q[3]+r.uniform(-s, s))*D2R
        pos = [lat, lon, r.uniform(-50, 3000)]
        net, wt, amb, kind = interp(g, lat, lon)
        if amb:
            continue
        inet = int(cs.find_grid_index(pos))
        c.eq(inet, net, 'network')
        c.eq(int(cs.inet_ref), net, 'network')
        idx = [int(x) for x in np.atleast_1d(cs.grid_index)]
        if not c.eq(sorted(idx), sorted(wt), 'grid points', kind):
            continue
        for i, x in zip(idx, np.atleast_1d(cs.grid_weight)):
            c.close(x, wt[i], 1e-9, 'weight', kind)
        dl = cs.get_dpos(pos)
        g0 = [x for x in g if x[0] == net][0]
        d = (lat/D2R-g0[2], lon/D2R-g0[3])
        c.close(dl, d, 1e-9, 'offset')
        s = e.m.net(net)
        # values away from the reference are bounded by nothing: plain sums
        p1 = [1, d[0], d[1], d[0]*d[1]]
        th, tw = 0.0, 0.0
        if s.ftrop:
            th = float(np.dot(p1, s.ct[0]))
            tw = float(np.dot(p1, s.ct[1]))
            if s.ftrop & 1:
                if s.dth is not None:
                    th += resid(s.dth, wt)
                tw += resid(s.dtw, wt)
        a = cs.get_trop(*dl)
        c.close(a, [th, tw], 1e-7, 'trop', f"flags {s.ftrop} {kind}")
        st = cs.get_stec(*dl)
        c.eq(names(cs.lc[inet].sat_n), s.sat_n, 'stec-sats')
        p2 = [1, d[0], d[1], d[0]*d[1], d[0]**2, d[1]**2]
        exp = []
        for q in s.sat_n:
            v = 0.0
            if s.fstec & 2:
                v += float(np.dot(p2, s.ci[q]))
            if s.fstec & 1:
                v += resid(s.dstec[q], wt)
            exp.append(v)
        c.close(st, exp, 1e-6, 'stec', f"flags {s.fstec} {kind}")
        c.seen(kind, s.ftrop, s.fstec, old)


class Local(Setup):
    """ receiver in a CLAS network """

    def __init__(self, c, **kw):
        Setup.__init__(self, c, sc.QZS_CLAS, **kw)
        r, cs = c.rng, self.cs
        pos = sim.llh(self.rr)
        la, lo = pos[0]/D2R, pos[1]/D2R
        # networks around the receiver, the nearest one is clear
        while True:
            self.g = make_grid(r, la, lo, 3)
            net, wt, amb, kind = interp(self.g, pos[0], pos[1])
            v1 = interp(self.g, pos[0]+1e-6, pos[1]+1e-6)
            if not amb and v1[0] == net and sorted(v1[1]) == sorted(wt):
                break
        self.kind = kind
        load(c, cs, self.g)
        self.net = net
        ng = sum(1 for x in self.g if x[0] == net)
        lc = cs.lc[net]
        self.lc = lc
        used = [s for s in self.w.sats() if r.random() < .9]
        r.shuffle(used)
        lc.sat_n, lc.nsat_n = used, len(used)
        lc.flg_trop, lc.flg_stec = r.choice([3, 3, 1, 2]), r.choice([3, 3, 2])
        u = r.uniform
        lc.ct = np.array([[2.3+u(-.3, .3), u(-.1, .1), u(-.1, .1),
                           u(-.05, .05)], [u(0, .3), 0, 0, 0]])
        lc.dtw = np.array([u(-.1, .1) for _ in range(ng)])
        lc.dth = None if r.random() < .7 else \
            np.array([u(-.05, .05) for _ in range(ng)])
        lc.ci = {s: np.array([u(-30, 60), u(-5, 5), u(-5, 5), u(-2, 2),
                              u(-.5, .5), u(-.5, .5)]) for s in used}
        lc.dstec = {s: np.array([u(-2, 2) for _ in range(ng)])
                    for s in used}
        lc.cstat = (1 << sCType.STEC) | (1 << sCType.TROP)
        # phase (and code) biases of the network
        lc.cbias, lc.pbias = {}, {}
        if r.random() < .7:
            lc.cstat |= 1 << sCType.PBIAS
            from cssrlib.gnss import rSigRnx
            for s in used:
                let = self.w.let(s)
                lc.pbias[s] = {}
                for code in CODES[let]:
                    b = u(-2, 2)
                    lc.pbias[s][rSigRnx(let+'L'+code)] = b
                    self.bias[s, code, 'L'] = \
                        self.bias.get((s, code, 'L'), 0.0)+b
        if r.random() < .5:
            lc.cstat |= 1 << sCType.CBIAS
            from cssrlib.gnss import rSigRnx
            for s in used:
                let = self.w.let(s)
                lc.cbias[s] = {}
                for code in CODES[let]:
                    b = u(-2, 2)
                    lc.cbias[s][rSigRnx(let+'C'+code)] = b
                    self.bias[s, code, 'C'] = \
                        self.bias.get((s, code, 'C'), 0.0)+b
        self.ion = {}
        self.cfg['nav'].update(trop_opt=2, iono_opt=2,
                               elmaskar=r.choice([0, 10, 20]))
        quiet(self.make_eng, kw.get('off', np.zeros(3)))

    def make_eng(self, off):
        self.eng = ppprtkpos(self.nav, self.rr+off, config=self.cfg)

    def atm(self, pos):
        """ zenith delays and slant TEC """
        net, wt, _, _ = interp(self.g, pos[0], pos[1])
        g0 = [x for x in self.g if x[0] == net][0]
        d = (pos[0]/D2R-g0[2], pos[1]/D2R-g0[3])
        p1 = [1, d[0], d[1], d[0]*d[1]]
        p2 = [1, d[0], d[1], d[0]*d[1], d[0]**2, d[1]**2]
        lc = self.lc
        h, w = np.dot(p1, lc.ct[0]), np.dot(p1, lc.ct[1])
        if lc.flg_trop & 1:
            w += resid(lc.dtw, wt)
            if lc.dth is not None:
                h += resid(lc.dth, wt)
        ion = {}
        for s in lc.sat_n:
            v = float(np.dot(p2, lc.ci[s]))
            if lc.flg_stec & 1:
                v += resid(lc.dstec[s], wt)
            ion[s] = v*40.3e16/(1575.42e6**2)
        return h, w, ion

    def epoch(self, dt):
        w = self.w
        t = timeadd(self.t0, self.k*dt)
        x = self.x = self.rr+self.vel*self.k*dt
        utc = gpst2utc(t)
        tide = pppmod.tidedispIERS2010(utc, sim.llh(x))
        rsun, _, _ = pppmod.sunmoonpos(utc)
        xt = x+tide
        pos = sim.llh(xt)
        clk = 1e-5
        zh, zw, ion = self.atm(pos)
        h1, w1 = ra.saast(pos[0], pos[2], .7)
        h0, w0 = ra.saast(pos[0], 0.0, .7)
        geo = {}

        def trop(t_, p, el):
            m = ra.niell(sim.doy_of(t_), p[0], p[2], el)
            return zh*h1/h0*m[0]+zw*w1/w0*m[1]

        def iono(t_, p, az, el, s):
            return ion.get(s, 0.0)

        def eff(sat, code):
            if sat not in geo:
                rho, ck, e, az, el, xs = w.geom(sat, t, xt, clk)
                geo[sat] = e, xs
            e, xs = geo[sat]
            return self.effect(sat, e, code, pos, xs, rsun)

        def cb(sat, code):
            return eff(sat, code)+self.bias.get((sat, code, 'C'), 0.0)

        def pb(sat, code):
            return eff(sat, code)+self.bias.get((sat, code, 'L'), 0.0)
        o, info = self.rx.observe(t, x, clk, trop, iono, shapiro=True,
                                  tide=tide, cbias=cb, pbias=pb)
        if self.cfg['nav']['phw_opt']:
            for i, s in enumerate(o.sat):
                xs = info[s]['xs']
                h = .5
                v = (w.geom(s, timeadd(t, h), xt, clk)[5] -
                     w.geom(s, timeadd(t, -h), xt, clk)[5])/(2*h)
                self.phw[s] = pppmod.windupcorr(
                    t, xs, v, xt, rsun, self.phw.get(s, 0.0),
                    full=self.cfg['nav']['phw_opt'] == 1)
                o.L[i] += self.phw[s]
        self.k += 1
        return o, info


@chk.case(60, 1500, cpu=300, minseen=8)
def residual(c):
    """ at the true position only clock and ambiguity remain """
    s = Local(c)
    o, info = s.epoch(30.0)
    lc0 = snapshot([vars(x) for x in s.cs.lc])
    s.run(o)
    c.ok(snapshot([vars(x) for x in s.cs.lc]) == lc0, 'corrections altered')
    nav = s.nav
    exp = [int(q) for q in o.sat if info[q]['el'] >= nav.elmin
           and q in s.lc.sat_n]
    if len(exp) < 6:
        return
    # satellites without local corrections are observed but not used
    sats = [int(q) for q, y in zip(nav.sat, nav.y) if np.any(y)]
    if all(abs(info[q]['el']-nav.elmin) > 1e-4 for q in o.sat):
        c.eq(sorted(sats), exp, 'satellites')
    c.eq(int(s.cs.inet), s.net, 'network')
    for i, q in enumerate(nav.sat):
        q = int(q)
        if q not in sats:
            continue
        let = s.w.let(q)
        for f, code in enumerate(CODES[let]):
            ch = s.w.geph[q].frq if q in s.w.geph else 0
            lam = sim.CL/sim.frequency(q, int(code[0]), ch)
            b = sim.CL*1e-5
            tag = f"{s.systems} {sat2id(q)} {code} trop {s.lc.flg_trop} " \
                f"stec {s.lc.flg_stec} phw {s.cfg['nav']['phw_opt']} " \
                f"{s.kind}"
            c.close(nav.y[i, f+nav.nf], b, 5e-3, 'code', tag)
            d = nav.y[i, f]-(b+s.rx.N[q, f]*lam)
            d -= round(d/lam)*lam if abs(d) > lam/2 else 0
            c.ok(abs(d) < 5e-3, 'phase', f"{tag}: {d}")
            c.seen(let, code, s.lc.flg_trop, s.lc.flg_stec, s.kind)


@chk.case(16, 400, cpu=300, minseen=4)
def rtk(c):
    """ position of a receiver with network corrections """
    r = c.rng
    ar = r.choice([0, 1, 3])
    off = c.np.normal(size=3)*r.choice([.1, 1.0])
    s = Local(c, off=off, armode=ar, pmode=r.choice([0, 0, 1]))
    if 'R' in s.systems:
        s.nav.armode = ar = 0
    errs, fx = [], []
    for k in range(8):
        o, info = s.epoch(30.0 if not s.nav.pmode else 1.0)
        if k == 0:
            n = [q for q in o.sat if q in s.lc.sat_n and
                 info[q]['el'] > math.radians(15)]
            if len(n) < 8 or any(sum(1 for q in n if s.w.let(q) == x) < 3
                                 for x in s.systems):
                return
        s.run(o)
        f = s.nav.smode == 4
        x = s.nav.xa[:3] if f else s.nav.x[:3]
        errs.append(round(float(np.linalg.norm(x-s.x)), 4))
        fx.append(int(f))
    inf = f"{s.systems} pmode {s.nav.pmode} ar {ar} off " \
        f"{np.linalg.norm(off):.2f} err {errs} fix {fx}"
    for k in range(3, 8):
        c.ok(errs[k] < .3+.15*errs[0], 'position', inf)
        if fx[k]:
            c.ok(errs[k] < .05, 'fixed', inf)
    c.seen(s.systems, ar, any(fx), s.nav.pmode)
    c.sample(inf)
