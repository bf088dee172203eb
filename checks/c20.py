""" C20: precise point positioning """
from common import Check, snapshot
import copy
import math
import numpy as np
import sim
import ref_orbit as ro
from cssrlib.gnss import (timeadd, gtime_t, default_config, uGNSS, rSigRnx,
                          sat2prn, sat2id, gpst2utc, uTYP, uTideModel)
from cssrlib.cssrlib import cssr, sCSSRTYPE as sc, sCType
from cssrlib.peph import pcv_t
from cssrlib.pppssr import pppos
from cssrlib import ppp as pppmod

chk = Check('C20', ['src/cssrlib/pppssr.py', 'src/cssrlib/ephemeris.py'],
            rule='simulated observations built from every modelled effect '
            '(light time, relativity, tides, troposphere, ionosphere, '
            'windup, antennas, signal biases, orbit/clock corrections) for '
            'each correction service, with slips, outages, bad health, weak '
            'signals and exclusions; distinct by service, constellation, '
            'configuration and fault')

CL = 299792458.0
CODES = {'G': ['1C', '2W'], 'E': ['1C', '5Q'], 'J': ['1C', '2L'],
         'C': ['1P', '5P'], 'R': ['1C', '2C']}
SIG0 = {sc.QZS_MADOCA: {'G': ['1', '2'], 'R': ['1', '2'], 'E': ['1', '5'],
                        'J': ['1', '5']},
        sc.GAL_HAS_SIS: {'G': ['1', '2'], 'E': ['1', '7']},
        sc.GAL_HAS_IDD: {'G': ['1'], 'E': ['1']},
        sc.IGS_SSR: {'G': ['1'], 'R': ['1'], 'E': ['1'], 'C': ['2'],
                     'J': ['1']},
        sc.RTCM3_SSR: {'G': ['1'], 'R': ['1'], 'E': ['1'], 'C': ['2'],
                       'J': ['1']},
        sc.BDS_PPP: {'G': ['1', '2'], 'C': ['6']},
        sc.PVS_PPP: {'G': ['1', '5'], 'E': ['1', '5']}}
NEG = (sc.QZS_CLAS, sc.BDS_PPP, sc.PVS_PPP)
FB = {'G': {'1': 1575.42, '2': 1227.6, '5': 1176.45},
      'J': {'1': 1575.42, '2': 1227.6, '5': 1176.45},
      'E': {'1': 1575.42, '5': 1176.45, '7': 1207.14},
      'C': {'1': 1575.42, '2': 1561.098, '5': 1176.45, '6': 1268.52}}


def quiet(f, *a, **k):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


class SsrWorld(sim.World):
    """ orbits and clocks differ from the broadcast data by corrections """
    mode = None
    dorb = {}
    dclk = {}

    def state(self, sat, t):
        p, k = sim.World.state(self, sat, t)
        if self.mode is None or sat not in self.dorb:
            return p, k
        h = .5
        v = (sim.World.state(self, sat, timeadd(t, h))[0] -
             sim.World.state(self, sat, timeadd(t, -h))[0])/(2*h)
        d = self.dorb[sat]
        if self.mode == sc.PVS_PPP:
            return p-d, k+self.dclk[sat]/CL - (
                self.eph[sat].tgd if self.let(sat) == 'G' else 0)
        if self.mode == sc.BDS_PPP:
            er = p/np.linalg.norm(p)
            ec = np.cross(p, v)
            ec /= np.linalg.norm(ec)
            ea = np.cross(ec, er)
        else:
            ea = v/np.linalg.norm(v)
            ec = np.cross(p, v)
            ec /= np.linalg.norm(ec)
            er = np.cross(ea, ec)
        return p-er*d[0]-ea*d[1]-ec*d[2], k+self.dclk[sat]/CL

    def let(self, sat):
        return ro.LET[uGNSS(int(sat2prn(sat)[0]))]


class Orb():
    """ stands for a set of precise products """

    def __init__(self, w):
        self.w = w

    def peph2pos(self, t, sat, nav, *a, **k):
        h = .5
        p, ck = self.w.state(sat, t)
        v = (self.w.state(sat, timeadd(t, h))[0] -
             self.w.state(sat, timeadd(t, -h))[0])/(2*h)
        return np.r_[p, v], np.array([ck, 0.0]), np.zeros(4)


class Bsx():
    def __init__(self, f):
        self.f = f

    def getosb(self, sat, t, sig):
        return self.f(sat, sig)


def antenna(c, name, scale):
    r = c.rng
    p = pcv_t()
    p.type, p.sat = name, name
    p.zen = [0, 90 if isinstance(name, str) else 17, 1]
    for s, b in (('G', '125'), ('R', '12'), ('E', '1567'), ('C', '12567'),
                 ('J', '125')):
        for k in b:
            q = rSigRnx(s+'L'+k)
            p.off[q] = np.array([r.uniform(-scale, scale) for _ in range(3)])
            p.var[q] = np.zeros(91 if isinstance(name, str) else 18)
    return p


def config(**k):
    cfg = copy.deepcopy(default_config)
    cfg['nav'].update(k)
    return cfg


def tides(nav, utc, pos):
    """ displacement by the model of the configuration """
    if nav.tidecorr == uTideModel.NONE:
        return np.zeros(3)
    f = pppmod.tidedisp if nav.tidecorr == uTideModel.SIMPLE else \
        pppmod.tidedispIERS2010
    return f(utc, pos)


class Setup():
    """ one simulated receiver together with its engine """

    def __init__(self, c, mode=None, systems=None, **kw):
        r, g = c.rng, c.np
        self.c, self.mode = c, mode
        pre = mode == 'precise'
        ok = SIG0.get(mode)
        if systems is None:
            systems = r.choice([s for s in ('GE', 'G', 'GEJ', 'GC', 'GEC',
                                            'GER', 'EC', 'GR') if ok is None
                                or all(x in ok for x in s)] or ['G'])
        self.systems = systems
        t0 = kw.get('t0') or ro.gps(r.randint(2000, 2400),
                                    r.uniform(10, 604000))
        self.t0 = gtime_t(t0.time, 0.0)
        self.codes = kw.get('codes', CODES)
        w = self.w = SsrWorld(c, self.t0, systems)
        self.nav = nav = w.nav(nf=2)
        nav.pmode = kw.get('pmode', r.choice([0, 0, 0, 1]))
        self.cfg = config(phw_opt=r.choice([0, 1, 1, 2]),
                          ephopt=4 if pre else 2,
                          armode=kw.get('armode', 0), thresar=3.0,
                          parmode=r.choice([1, 2]), elmin=r.choice([5, 10]))
        if kw.get('excl'):
            self.cfg['nav']['excl_sat'] = kw['excl']
        lat, lon = math.asin(r.uniform(-.9, .9)), r.uniform(-3.1, 3.1)
        self.rr = sim.xyz(lat, lon, r.uniform(0, 500))
        self.vel = g.normal(size=3)*(r.choice([0, 1, 4]) if nav.pmode else 0)
        self.rx = sim.Rx(c, w, {s: self.codes[s] for s in systems}, mask=4)
        self.nav.t = gtime_t(self.t0.time, 0.0)
        self.nav.time_p = gtime_t(self.t0.time, 0.0)
        # antennas
        self.ant = r.random() < .7
        nav.sat_ant = [antenna(c, s, 2000) for s in w.sats()]
        nav.rcv_ant = antenna(c, 'X', 120) if self.ant else None
        self.satant = {p.sat: p for p in nav.sat_ant}
        # biases
        self.bias = {}
        self.cs = self.orb = self.bsx = None
        if pre:
            self.orb, self.bsx = Orb(w), Bsx(self.osb)
        elif mode is not None:
            self.make_cs()
        self.ztd = r.uniform(-.05, .05)
        self.ion = {s: (r.uniform(.5, 30), r.uniform(-.0004, .0004))
                    for s in w.sats()}
        self.phw = {}
        self.drop, self.weak, self.noP = (), (), ()
        off = g.normal(size=3)*r.choice([.1, 1, 3])
        if kw.get('exact'):
            off = np.zeros(3)
        self.eng = quiet(pppos, nav, self.rr+off, config=self.cfg)
        nav.tidecorr = r.choice([uTideModel.IERS2010]*4+[
            uTideModel.SIMPLE, uTideModel.NONE])
        self.k = 0

    def rnd_bias(self, sat, code, typ):
        key = (sat, code, typ)
        if key not in self.bias:
            self.bias[key] = self.c.rng.uniform(-3, 3)*(
                .15 if typ == 'C' else 1)
        return self.bias[key]

    def osb(self, sat, sig):
        s = sig.str()       # e.g. C1C, L2W
        if s[0] == 'L' and self.w.let(sat) == 'R':
            return float('nan')
        return self.rnd_bias(sat, s[1:], s[0])/CL*1e9

    def make_cs(self):
        r, w = self.c.rng, self.w
        cs = self.cs = cssr()
        cs.cssrmode = w.mode = self.mode
        cs.iodssr, cs.iodssr_p = 3, 2
        cs.iodssr_c[sCType.ORBIT] = cs.iodssr_c[sCType.CLOCK] = 3
        cs.mask_id = cs.mask_id_clk = 1
        cs.sat_n = w.sats()
        cs.sat_n_p = []
        lc = cs.lc[0]
        lc.iode, lc.dorb, lc.dclk = {}, {}, {}
        lc.iodc, lc.iodc_c, lc.iodc_c_p, lc.dclk_p = {}, {}, {}, {}
        lc.dvel, lc.ddft, lc.hclk = {}, {}, {}
        lc.cbias, lc.pbias = {}, {}
        lc.cstat = 0
        hc = r.random() < .3
        if hc:
            lc.cstat |= 1 << sCType.HCLOCK
        cb, pb = r.random() < .8, r.random() < .7
        self.w.dorb, self.w.dclk = {}, {}
        for s in w.sats():
            e = w.eph.get(s) or w.geph.get(s)
            sys = uGNSS(int(sat2prn(s)[0]))
            cs.nav_mode[sys] = e.mode
            lc.iode[s] = e.iode
            lc.dorb[s] = np.array([r.uniform(-2, 2) for _ in range(3)])
            lc.dclk[s] = r.uniform(-3, 3)
            lc.dvel[s], lc.ddft[s] = np.zeros(3), 0.0
            lc.iodc[s] = lc.iodc_c[s] = r.randint(0, 7)
            lc.t0[s] = {sCType.ORBIT: self.t0, sCType.CLOCK: self.t0}
            w.dorb[s], w.dclk[s] = lc.dorb[s].copy(), lc.dclk[s]
            if hc and self.mode != sc.BDS_PPP:
                lc.hclk[s] = r.uniform(-.3, .3)
                w.dclk[s] += lc.hclk[s]
            lc.cbias[s], lc.pbias[s] = {}, {}
            let = w.let(s)
            for code in self.codes[let]:
                for on, st, typ in ((cb, lc.cbias, 'C'), (pb, lc.pbias, 'L')):
                    if not on:
                        self.bias[s, code, typ] = 0.0
                        continue
                    b = self.rnd_bias(s, code, typ)
                    b = -b       # stored sign is that of the correction
                    if self.mode in NEG:
                        b = -b
                    q = code
                    if code == '2W' and self.mode in (
                            sc.GAL_HAS_SIS, sc.GAL_HAS_IDD):
                        q = '2P'
                    elif code in ('5Q', '2L', '1P', '5P') and \
                            r.random() < .3:
                        q = code[0]+'X'
                    st[s][rSigRnx(let+typ+q)] = b
        if cb:
            lc.cstat |= 1 << sCType.CBIAS
        if pb:
            lc.cstat |= 1 << sCType.PBIAS

    def effect(self, sat, e, code, pos, xs, rsun):
        """ antenna effects [m] """
        d = 0.0
        w = self.w
        let, b = w.let(sat), code[0]
        if self.ant:
            o = self.nav.rcv_ant.off[rSigRnx(let+'L'+b)]
            # receiver offsets are stored east, north, up
            d -= (sim.enu_axes(pos[0], pos[1])@e)@o*1e-3
        if self.mode in SIG0 or self.mode == 'precise':
            p = self.satant[sat]
            ez = -xs/np.linalg.norm(xs)
            es = (rsun-xs)/np.linalg.norm(rsun-xs)
            ey = np.cross(ez, es)
            ey /= np.linalg.norm(ey)
            ex = np.cross(ey, ez)
            ref = np.zeros(3)
            if self.mode in SIG0:
                fs = SIG0[self.mode][let]
                wt = [1.0]
                if len(fs) == 2:
                    if let == 'R':
                        f = [sim.frequency(sat, int(x), w.geph[sat].frq)
                             for x in fs]
                    else:
                        f = [FB[let][x] for x in fs]
                    g = [x**2 for x in f]
                    wt = [g[0]/(g[0]-g[1]), -g[1]/(g[0]-g[1])]
                for a, x in zip(wt, fs):
                    ref = ref+a*p.off[rSigRnx(let+'L'+x)]
            o = p.off[rSigRnx(let+'L'+b)]-ref
            d += e@(o[0]*ex+o[1]*ey+o[2]*ez)*1e-3
        return d

    def epoch(self, dt):
        """ simulate one epoch """
        c, w = self.c, self.w
        t = timeadd(self.t0, self.k*dt)
        x = self.rr+self.vel*self.k*dt
        self.x = x
        utc = gpst2utc(t)
        tide = tides(self.nav, utc, sim.llh(x))
        rsun, _, _ = pppmod.sunmoonpos(utc)
        xt = x+tide
        pos = sim.llh(xt)
        clk = 1e-5
        geo = {}

        def trop(t_, p, el):
            import ref_atm as ra
            h, q = ra.saast(p[0], p[2], .7)
            m = ra.niell(sim.doy_of(t_), p[0], p[2], el)
            return h*m[0]+(q+self.ztd)*m[1]

        def iono(t_, p, az, el, s):
            a, b = self.ion[s]
            # smooth enough not to look like a cycle slip
            return a+b*self.k*dt

        def eff(sat, code):
            if sat not in geo:
                rho, ck, e, az, el, xs = w.geom(sat, t, xt, clk)
                geo[sat] = e, xs
            e, xs = geo[sat]
            return self.effect(sat, e, code, pos, xs, rsun)

        def cb(sat, code):
            b = self.rnd_bias(sat, code, 'C') if self.mode is not None else 0.0
            return eff(sat, code)+b

        def pb(sat, code):
            b = self.rnd_bias(sat, code, 'L') if self.mode is not None else 0.0
            if self.mode == 'precise' and w.let(sat) == 'R':
                b = 0.0
            return eff(sat, code)+b
        o, info = self.rx.observe(t, x, clk, trop, iono, shapiro=True,
                                  tide=tide, cbias=cb, pbias=pb,
                                  drop=self.drop)
        # windup
        if self.cfg['nav']['phw_opt'] and self.mode is not False:
            for i, s in enumerate(o.sat):
                xs = info[s]['xs']
                h = .5
                v = (w.geom(s, timeadd(t, h), xt, clk)[5] -
                     w.geom(s, timeadd(t, -h), xt, clk)[5])/(2*h)
                self.phw[s] = pppmod.windupcorr(
                    t, xs, v, xt, rsun, self.phw.get(s, 0.0),
                    full=self.cfg['nav']['phw_opt'] == 1)
                o.L[i] += self.phw[s]
        for s in self.weak:
            if s in o.sat:
                o.S[list(o.sat).index(s), 1] = 8.0
        for s, q in self.noP:
            if s in o.sat:
                (o.P if q < 2 else o.L)[list(o.sat).index(s), q % 2] = 0.0
        self.k += 1
        return o, info

    def run(self, o):
        return quiet(self.eng.process, o, cs=self.cs, orb=self.orb,
                     bsx=self.bsx)


MODES = [None, 'precise', sc.RTCM3_SSR, sc.IGS_SSR, sc.QZS_MADOCA,
         sc.GAL_HAS_SIS, sc.GAL_HAS_IDD, sc.BDS_PPP, sc.QZS_CLAS,
         sc.PVS_PPP]


def used(c, s, without, tag):
    """ every satellite with complete models updates the filter """
    nav = s.nav
    for x in s.systems:
        n = [int(q) for q in nav.sat if s.w.let(int(q)) == x
             and not (without and int(q) in without)]
        if len(n) < 2 or len(nav.sat) < 6:
            continue
        for q in n:
            c.eq([int(v) for v in nav.vsat[q-1][:nav.nf]], [1]*nav.nf,
                 'not used', f"{tag}: {sat2id(q)}")


@chk.case(60, 1500, cpu=300, minseen=12)
def ppp(c):
    """ convergence to the true position with every modelled effect """
    r = c.rng
    ar = r.choice([0, 0, 1, 3])
    mode = MODES[c.idx % len(MODES)]
    excl = ['G%02d' % r.randint(1, 30)] if r.random() < .3 else []
    s = Setup(c, mode, armode=ar, excl=excl)
    if 'R' in s.systems:
        s.cfg['nav']['armode'] = s.nav.armode = ar = 0
    dt = 30.0 if not s.nav.pmode else 1.0
    ne = 16
    scen = r.choice(['none', 'lli', 'gf', 'drop', 'unhealthy', 'weak',
                     'nodata', 'nan', 'noant'])
    ev = r.randint(6, 9)
    vic = []
    errs, fixed = [], []
    s.nav.sis = s.nav.sis
    for k in range(ne):
        if k == ev and vic:
            if scen in ('lli', 'gf'):
                for q in vic:
                    s.rx.N[q, 0] += r.choice([-60, 5, 11, 1000])
                    if scen == 'lli':
                        s.rx.N[q, 1] += r.choice([0, -3, 77])
            elif scen == 'drop':
                s.drop = vic
            elif scen == 'unhealthy':
                for q in vic:
                    (s.w.eph.get(q) or s.w.geph.get(q)).svh = 1
            elif scen == 'weak':
                s.weak = vic
            elif scen == 'nodata':
                s.noP = [(q, r.randint(0, 3)) for q in vic]
            elif scen == 'nan' and s.cs is not None:
                for q in vic:
                    s.cs.lc[0].dclk[q] = np.nan
            elif scen == 'noant':  # calibration ends
                s.nav.sat_ant = [p for p in s.nav.sat_ant
                                 if p.sat not in vic]
        if k == ev+2:
            if scen == 'drop':
                for q in vic:
                    for f in (0, 1):
                        s.rx.N[q, f] += r.randint(-10**6, 10**6)
                s.drop = ()
            s.weak, s.noP = (), ()
        o, info = s.epoch(dt)
        if k == 0:
            com = [q for q in o.sat if info[q]['el'] > math.radians(15)
                   and sat2id(q) not in excl]
            if len(com) < 9 or any(
                    sum(1 for q in com if s.w.let(q) == x) < 3
                    for x in s.systems):
                return
            vic = r.sample(com, r.choice([1, 1, 2]))
            if r.random() < .4:  # the reference satellite
                vic[0] = max(com, key=lambda q: info[q]['el'])
                vic = sorted(set(vic))
        if k == ev and scen == 'lli':
            for q in vic:
                if q in o.sat:
                    o.lli[list(o.sat).index(q), r.choice([0, 1])] = 1
        s0 = snapshot([o.P, o.L, o.sat, o.lli, o.S])
        st0 = snapshot(vars(s.cs.lc[0])) if s.cs is not None else None
        s.nav.vsat[:] = 0
        s.run(o)
        c.ok(snapshot([o.P, o.L, o.sat, o.lli, o.S]) == s0,
             'observations altered')
        if st0 is not None:
            c.ok(snapshot(vars(s.cs.lc[0])) == st0, 'corrections altered')
        fx = s.nav.smode == 4
        x = s.nav.xa[:3] if fx else s.nav.x[:3]
        errs.append(round(float(np.linalg.norm(x-s.x)), 4))
        fixed.append(int(fx))
        # satellites which take part
        exp, dubious = [], False
        for i, q in enumerate(o.sat):
            el, lim = info[q]['el'], s.nav.elmin
            if abs(el-lim) < 1e-4:
                dubious = True
            if el < lim or sat2id(q) in excl:
                continue
            if q in vic:
                if scen in ('lli', 'gf') and k == ev:
                    continue
                if scen == 'unhealthy' and k >= ev:
                    continue
                if scen in ('weak', 'nodata') and ev <= k < ev+2:
                    continue
                if scen == 'nan' and s.cs is not None and k >= ev:
                    continue
                if scen in ('nodata', 'drop') and k == ev+2:
                    dubious = True
            exp.append(int(q))
        if not dubious and len(exp) >= 6:
            c.eq(sorted(int(q) for q in s.nav.sat), exp, 'satellites',
                 f"{mode} {scen} epoch {k} event {ev} {vic}")
        if not dubious:
            used(c, s, scen == 'noant' and k >= ev and (
                mode in SIG0 or mode == 'precise') and vic,
                f"{mode} {s.systems} {scen} epoch {k} event {ev} {vic}")
    inf = f"{mode} {s.systems} pmode {s.nav.pmode} ar {ar} {scen}@{ev} " \
        f"phw {s.cfg['nav']['phw_opt']} ztd {s.ztd:.3f} err {errs} fix {fixed}"
    for k in range(6, ne):
        # the prior (position, biased first ambiguities) fades away
        a, b = (.8, .2) if s.nav.pmode else (.3, .2) if k < 10 else (.2, .12)
        c.ok(errs[k] < a+b*errs[0],
             'position', inf)
        if fixed[k]:
            c.ok(errs[k] < .15, 'fixed', inf)
    c.seen(mode, s.systems, s.nav.pmode, ar, scen)
    c.sample(inf)


@chk.case(120, 4000, cpu=300, minseen=25)
def model(c):
    """ residuals at the true position are the unmodelled parts only """
    mode = MODES[c.idx % len(MODES)]
    s = Setup(c, mode, exact=True)
    o, info = s.epoch(30.0)
    s.run(o)
    nav = s.nav
    if nav.nsat[2] < 6:
        return
    sats = [int(q) for q in nav.sat]
    exp = [int(q) for q in o.sat if info[q]['el'] >= nav.elmin]
    if all(abs(info[q]['el']-nav.elmin) > 1e-4 for q in o.sat):
        c.eq(sorted(sats), exp, 'satellites', f"{mode}")
    residuals(c, s, nav, o, info, f"{mode}")


def residuals(c, s, nav, o, info, tag0, skip=False):
    """ undifferenced residuals against the effects left unmodelled """
    import ref_atm as ra
    sats = [int(q) for q in nav.sat]
    nf = nav.nf
    tide = tides(nav, gpst2utc(o.t), sim.llh(s.x))
    pos = sim.llh(s.x+tide)
    for i, q in enumerate(sats):
        if skip and not np.any(nav.y[i]):
            continue
        j = list(o.sat).index(q)
        let = s.w.let(q)
        mw = ra.niell(sim.doy_of(o.t), pos[0], pos[2], info[q]['el'])[1]
        for f, code in enumerate(s.codes[let]):
            ch = s.w.geph[q].frq if q in s.w.geph else 0
            fr = sim.frequency(q, int(code[0]), ch)
            lam = CL/fr
            ik = info[q]['i1']*(1575.42e6/fr)**2
            b = CL*1e-5+s.ztd*mw
            tag = f"{tag0} {s.systems} {sat2id(q)} {code} el " \
                f"{math.degrees(info[q]['el']):.1f} phw " \
                f"{s.cfg['nav']['phw_opt']} ant {s.ant}"
            c.close(nav.y[i, f+nf], b+ik, 5e-3, 'code', tag)
            # windup is determined up to full cycles
            d = nav.y[i, f]-(b-ik+s.rx.N[q, f]*lam)
            d -= round(d/lam)*lam if abs(d) > lam/2 else 0
            c.ok(abs(d) < 5e-3, 'phase', f"{tag}: {d}")
            c.seen(s.mode, let, code, s.cfg['nav']['phw_opt'], s.ant)


@chk.case(6, 150, cpu=300, minseen=3)
def isolated(c):
    """ engines do not influence each other, nor the shared configuration """
    r = c.rng
    m = r.choice([None, sc.RTCM3_SSR, sc.GAL_HAS_SIS])
    d0 = snapshot(default_config)
    a = Setup(c, m, pmode=0)
    b = Setup(c, r.choice([None, sc.RTCM3_SSR]), pmode=0)
    ea = [a.epoch(30.0)[0] for _ in range(5)]
    eb = [b.epoch(30.0)[0] for _ in range(5)]
    solo = copy.deepcopy(a)
    for o in ea:
        solo.run(o)
    for x, y in zip(ea, eb):
        b.run(y)
        a.run(x)
    c.ok(np.array_equal(solo.nav.x, a.nav.x) and
         np.array_equal(solo.nav.P, a.nav.P), 'interference',
         f"{solo.nav.x[:3]-a.nav.x[:3]}")
    c.ok(snapshot(default_config) == d0, 'default config altered')
    cfg = config()
    s0 = snapshot(cfg)
    n = sim.Nav(nf=2)
    quiet(pppos, n, np.zeros(3), None, r.choice([1, 2]), r.choice([1, 2]), 1,
          cfg)
    c.ok(snapshot(cfg) == s0, 'config altered')
    n = sim.Nav(nf=2)
    quiet(pppos, n, np.zeros(3), None, r.choice([1, 2]), r.choice([1, 2]), 1)
    c.ok(snapshot(default_config) == d0, 'default config altered')
    c.seen(m, b.mode, c.idx)
