""" independent encoder and store model of Compact SSR messages """
import math
from bits import BW, rs, ru
from cssrlib.gnss import gpst2time, timediff, sat2id
from cssrlib.cssrlib import sCType

# identifier -> system, PRN offset of mask bit 0, number of satellites
GN = {0: ('G', 1, 32), 1: ('R', 1, 24), 2: ('E', 1, 36), 3: ('C', 1, 40),
      4: ('J', 1, 10), 7: ('C', 19, 40)}
_B = '2I 2Q 2X 6I 6Q 6X 7I 7Q 7X 1D 1P 1X 5D 5P 5X'.split()
SG = {0: '1C 1P 1W 1S 1L 1X 2S 2L 2X 2P 2W 5I 5Q 5X'.split(),
      1: '1C 1P 2C 2P 4A 4B 4X 6A 6B 6X 3I 3Q 3X'.split(),
      2: '1B 1C 1X 5I 5Q 5X 7I 7Q 7X 8I 8Q 8X 6B 6C 6X'.split(),
      3: _B, 7: _B,
      4: '1C 1S 1L 1X 2S 2L 2X 5I 5Q 5X 6D 6P 6E 1E'.split()}


def bias_inv(v, n):
    return v == -(1 << (n-1))


def val(v, n, scl, inv=bias_inv):
    return math.nan if inv(v, n) else v*scl


def qi(cl, v):
    if cl == 7 and v == 7:
        return 5.4665
    if cl == 0 and v == 0:
        return math.nan
    return (3.0**cl*(1+v/4.0)-1.0)*1e-3


PNAN = [0.07]       # rate of 'not available'


def srnd(r, n):
    """ signed value, sometimes the 'not available' one """
    return -(1 << (n-1)) if r.random() < PNAN[0] else rs(r, n)


class Mask():
    """ satellite/signal mask """

    def __init__(self, r, gnss, maxsat, cellp=0.5, nsigmax=4):
        self.g = []
        self.sat = []         # (name, gnss, [codes])
        left = maxsat
        for k, gid in enumerate(gnss):
            sy, p0, n = GN[gid]
            if gid == 3 and 7 in gnss:
                n = 18
            nmax = max(1, min(n, left-(len(gnss)-1-k)))
            m = r.randint(1, min(nmax, 14)) if r.random() < .95 else 0
            left -= m
            prn = sorted(r.sample(range(n), m))
            if m and r.random() < .3 and n-1 not in prn:
                prn[-1] = n-1
            ns = min(r.randint(1, nsigmax), len(SG[gid]))
            sig = sorted(r.sample(range(len(SG[gid])), ns))
            cma = r.random() < cellp
            cells = []
            for p in prn:
                c = [1]*ns
                if cma:
                    c = [int(r.random() < .6) for _ in range(ns)]
                    if r.random() < .8 and not any(c):
                        c[r.randrange(ns)] = 1
                cells.append(c)
            self.g.append((gid, prn, sig, cma, cells))
            for p, c in zip(prn, cells):
                nm = f"{sy}{p+p0:02d}"
                self.sat.append((nm, gid, [SG[gid][s] for s, b in
                                           zip(sig, c) if b]))
        self.n = len(self.sat)
        if not self.n:
            self.__init__(r, gnss, maxsat, cellp, nsigmax)

    def put(self, w, tail=None):
        w.u(4, len(self.g))
        for gid, prn, sig, cma, cells in self.g:
            w.u(4, gid)
            w.u(40, sum(1 << (39-p) for p in prn))
            w.u(16, sum(1 << (15-s) for s in sig))
            w.u(1, int(cma))
            if cma:
                for c in cells:
                    for b in c:
                        w.u(1, b)
            if tail:
                tail(w, gid)
        return w


class Fmt():
    """ numerical format of a service """

    def __init__(self, orb=((15, 13, 13), (0.0016, 0.0064, 0.0064)),
                 clk=(15, 0.0016), cb=(11, 0.02), pb=(15, 0.001), inv=bias_inv,
                 sgn=1.0):
        self.orb, self.clk, self.cb, self.pb = orb, clk, cb, pb
        self.inv, self.sgn = inv, sgn
        self.bias = None

    def draw(self, r, n, typ, key):
        """ signal bias; constant with a function given """
        if self.bias is None or key is None:
            return srnd(r, n)
        return self.bias(typ, *key)

    def p_orb(self, w, r, gid):
        n = 10 if gid == 2 else 8
        iode = ru(r, n)
        w.u(n, iode)
        o = []
        for b, s in zip(*self.orb):
            v = srnd(r, b)
            w.s(b, v)
            o.append(self.sgn*val(v, b, s, self.inv))
        return iode, o

    def p_clk(self, w, r):
        b, s = self.clk
        v = srnd(r, b)
        w.s(b, v)
        return val(v, b, s, self.inv)

    def p_cb(self, w, r, key=None):
        b, s = self.cb
        v = self.draw(r, b, 'C', key)
        w.s(b, v)
        return val(v, b, s, self.inv)

    def p_pb(self, w, r, key=None):
        b, s = self.pb
        v = self.draw(r, b, 'L', key)
        di = r.randrange(4)
        w.s(b, v).u(2, di)
        return val(v, b, s, self.inv), di


class Store(dict):
    """ expected corrections of one network """

    def __getattr__(self, k):
        return self.get(k)

    def __setattr__(self, k, v):
        self[k] = v


class Model():
    """ expected state of the decoder """

    def __init__(self, week):
        self.week = week
        self.lc = {}
        self.tow0 = self.tow = None
        self.mask = None
        self.iod = -1
        self.udi = {}
        self.iodc = {}

    def net(self, k):
        if k not in self.lc:
            self.lc[k] = Store(t0={}, cstat=0)
        return self.lc[k]

    def t0(self, inet, sat, typ):
        self.net(inet)['t0'][(sat, typ)] = self.tow

    def flag(self, inet, typ):
        self.net(inet)['cstat'] |= 1 << int(typ)


T = sCType


class Enc():
    """ message encoder, updates the model """

    def __init__(self, c, week, fmt=None, grid=None, mt=4073):
        self.c, self.r = c, c.rng
        self.f = fmt or Fmt()
        self.m = Model(week)
        self.grid = grid
        self.live = False

    def head(self, sub, tow=None, iod=None):
        r, m = self.r, self.m
        w = BW().u(12, 4073).u(4, sub)
        if sub == 1:
            w.u(20, tow % 604800)
            m.tow0 = tow//3600*3600
            m.tow = tow
        else:
            # with the observation time given, the hour needs no mask message
            w.u(12, tow % 3600 if self.live else tow-m.tow0)
            m.tow = tow
        self.udi = r.randrange(16)
        w.u(4, self.udi).u(1, r.randrange(2))
        w.u(4, m.iod if iod is None else iod)
        return w

    def mask(self, tow, mask, iod):
        m = self.m
        w = self.head(1, tow, iod)
        mask.put(w)
        m.mask, m.iod = mask, iod
        m.flag(0, T.MASK)
        return w

    def orb(self, tow):
        m, r = self.m, self.r
        w = self.head(2, tow)
        s = m.net(0)
        s.dorb, s.iode = {}, {}
        for sat, gid, _ in m.mask.sat:
            s.iode[sat], s.dorb[sat] = self.f.p_orb(w, r, gid)
            m.t0(0, sat, T.ORBIT)
        m.udi[T.ORBIT] = self.udi
        m.iodc[T.ORBIT] = m.iod
        m.flag(0, T.ORBIT)
        return w

    def clk(self, tow):
        m, r = self.m, self.r
        w = self.head(3, tow)
        s = m.net(0)
        s.dclk = {}
        for sat, gid, _ in m.mask.sat:
            s.dclk[sat] = self.f.p_clk(w, r)
            m.t0(0, sat, T.CLOCK)
        m.udi[T.CLOCK] = self.udi
        m.iodc[T.CLOCK] = m.iod
        m.flag(0, T.CLOCK)
        return w

    def cb(self, tow):
        m, r = self.m, self.r
        w = self.head(4, tow)
        s = m.net(0)
        s.cbias = {}
        for sat, gid, cd in m.mask.sat:
            s.cbias[sat] = {'C'+k: self.f.p_cb(w, r, (sat, k)) for k in cd}
            if cd:
                m.t0(0, sat, T.CBIAS)
        m.udi[T.CBIAS] = self.udi
        m.iodc[T.CBIAS] = m.iod
        m.flag(0, T.CBIAS)
        return w

    def pb(self, tow):
        m, r = self.m, self.r
        w = self.head(5, tow)
        s = m.net(0)
        s.pbias, s.di = {}, {}
        for sat, gid, cd in m.mask.sat:
            s.pbias[sat], s.di[sat] = {}, {}
            for k in cd:
                s.pbias[sat]['L'+k], s.di[sat]['L'+k] = \
                    self.f.p_pb(w, r, (sat, k))
                m.t0(0, sat, T.PBIAS)
        m.udi[T.PBIAS] = self.udi
        m.iodc[T.PBIAS] = m.iod
        m.flag(0, T.PBIAS)
        return w

    def pick(self, p=.7):
        """ network satellite mask """
        r, n = self.r, self.m.mask.n
        b = [int(r.random() < p) for _ in range(n)]
        if not any(b) and n:
            b[r.randrange(n)] = 1
        return b

    def pmask(self, w, b):
        for x in b:
            w.u(1, x)
        return [s for s, x in zip(self.m.mask.sat, b) if x]

    def bias(self, tow, inet=None):
        m, r = self.m, self.r
        w = self.head(6, tow)
        cb, pb = r.choice([(1, 1), (1, 1), (1, 0), (0, 1)])
        w.u(1, cb).u(1, pb).u(1, int(inet is not None))
        sats = m.mask.sat
        k = 0
        s = m.net(0)
        if inet is not None:
            w.u(5, inet)
            sats = self.pmask(w, self.pick())
            k = inet
            s = m.net(k)
            s.sat_n = [x[0] for x in sats]
        if cb:
            s.cbias = {x[0]: {} for x in sats}
            m.udi[T.CBIAS] = self.udi
            m.iodc[T.CBIAS] = m.iod
            m.flag(k, T.CBIAS)
        if pb:
            s.pbias = {x[0]: {} for x in sats}
            s.di = {x[0]: {} for x in sats}
            m.udi[T.PBIAS] = self.udi
            m.iodc[T.PBIAS] = m.iod
            m.flag(k, T.PBIAS)
        for sat, gid, cd in sats:
            for x in cd:
                if cb:
                    s.cbias[sat]['C'+x] = self.f.p_cb(w, r)
                    m.t0(k, sat, T.CBIAS)
                if pb:
                    s.pbias[sat]['L'+x], s.di[sat]['L'+x] = self.f.p_pb(w, r)
                    m.t0(k, sat, T.PBIAS)
        return w

    def ura(self, tow):
        m, r = self.m, self.r
        w = self.head(7, tow)
        s = m.net(0)
        s.ura = {}
        for sat, gid, _ in m.mask.sat:
            a, b = r.choice([(0, 0), (7, 7), (r.randrange(8), r.randrange(8)),
                             (r.randrange(8), r.randrange(8))])
            w.u(3, a).u(3, b)
            s.ura[sat] = qi(a, b)
        m.udi[T.URA] = self.udi
        m.flag(0, T.URA)
        return w

    def qual(self, w):
        r = self.r
        a, b = r.randrange(8), r.randrange(8)
        w.u(3, a).u(3, b)
        return qi(a, b)

    def coef(self, w, st):
        r = self.r
        c = [0.0]*6
        v = srnd(r, 14)
        w.s(14, v)
        c[0] = val(v, 14, 0.05)
        if st > 0:
            for k in (1, 2):
                v = srnd(r, 12)
                w.s(12, v)
                c[k] = val(v, 12, 0.02)
        if st > 1:
            v = srnd(r, 10)
            w.s(10, v)
            c[3] = val(v, 10, 0.02)
        if st > 2:
            for k in (4, 5):
                v = srnd(r, 8)
                w.s(8, v)
                c[k] = val(v, 8, 0.005)
        return c

    def stec(self, tow, inet, b=None):
        """ subtype 8 """
        m, r = self.m, self.r
        w = self.head(8, tow)
        st = r.randrange(4)
        w.u(2, st).u(5, inet)
        self.b = b or self.pick()
        sats = self.pmask(w, self.b)
        s = m.net(inet)
        s.sat_n = [x[0] for x in sats]
        s.stec_quality, s.ci = {}, {}
        s.fstec = 2
        for sat, _, _ in sats:
            s.stec_quality[sat] = self.qual(w)
            s.ci[sat] = self.coef(w, st)
            m.t0(inet, sat, T.STEC)
        m.udi[T.STEC] = self.udi
        m.flag(inet, T.STEC)
        return w

    def gridc(self, tow, inet, ng, b=None):
        """ subtype 9 """
        m, r = self.m, self.r
        w = self.head(9, tow)
        tt, rng = int(r.random() < .85), r.randrange(2)
        w.u(2, tt).u(1, rng).u(5, inet)
        sats = self.pmask(w, b or self.pick())
        s = m.net(inet)
        s.sat_n = [x[0] for x in sats]
        s.trop_quality = self.qual(w)
        w.u(6, ng)
        s.ng = ng
        sz = 16 if rng else 7
        s.dth, s.dtw = [0.0]*ng, [0.0]*ng
        s.dstec = {x[0]: [0.0]*ng for x in sats}
        s.ct = [[2.3, 0, 0, 0], [0.252, 0, 0, 0]]
        s.ftrop = 3 if tt else 0
        s.fstec = (s.fstec or 0) | 1
        for j in range(ng):
            if tt:
                v = srnd(r, 9)
                w.s(9, v)
                s.dth[j] = val(v, 9, 0.004)
                v = srnd(r, 8)
                w.s(8, v)
                s.dtw[j] = val(v, 8, 0.004)
            for sat, _, _ in sats:
                v = srnd(r, sz)
                w.s(sz, v)
                s.dstec[sat][j] = val(v, sz, 0.04)
        for sat, _, _ in sats:
            m.t0(inet, sat, T.TROP)
        m.udi[T.TROP] = self.udi
        m.flag(inet, T.TROP)
        return w

    def comb(self, tow, inet=None):
        m, r = self.m, self.r
        w = self.head(11, tow)
        ob, ck = r.choice([(1, 1), (1, 1), (1, 0), (0, 1)])
        w.u(1, ob).u(1, ck).u(1, int(inet is not None))
        sats, k = m.mask.sat, 0
        if inet is not None:
            w.u(5, inet)
            sats = self.pmask(w, self.pick())
            k = inet
        s = m.net(k)
        if ob:
            s.dorb, s.iode = {}, {}
            m.udi[T.ORBIT] = self.udi
            m.flag(k, T.ORBIT)
        if ck:
            s.dclk = {}
            m.udi[T.CLOCK] = self.udi
            m.flag(k, T.CLOCK)
        for sat, gid, _ in sats:
            if ob:
                s.iode[sat], s.dorb[sat] = self.f.p_orb(w, r, gid)
                m.t0(k, sat, T.ORBIT)
            if ck:
                s.dclk[sat] = self.f.p_clk(w, r)
                m.t0(k, sat, T.CLOCK)
        return w

    def atmos(self, tow, inet, ng, trop=None, stec=None):
        m, r = self.m, self.r
        w = self.head(12, tow)
        tp = r.choice([0, 1, 2, 3, 3, 3]) if trop is None else trop
        sp = r.choice([0, 1, 2, 3, 3, 3]) if stec is None else stec
        w.u(2, tp).u(2, sp).u(5, inet).u(6, ng)
        s = m.net(inet)
        s.ng, s.ftrop, s.fstec = ng, tp, sp
        s.ct = [[0.0]*4, [0.0]*4]
        if tp:
            s.trop_quality = self.qual(w)
            m.udi[T.TROP] = self.udi
            m.flag(inet, T.TROP)
            m.t0(inet, 0, T.TROP)
        if tp & 2:
            tt = r.randrange(3)
            w.u(2, tt)
            v = srnd(r, 9)
            w.s(9, v)
            s.ct[0][0] = val(v, 9, 0.004)+2.3
            if tt > 0:
                for k in (1, 2):
                    v = srnd(r, 7)
                    w.s(7, v)
                    s.ct[0][k] = val(v, 7, 0.002)
            if tt > 1:
                v = srnd(r, 7)
                w.s(7, v)
                s.ct[0][3] = val(v, 7, 0.001)
        if tp & 1:
            z, o = r.randrange(2), r.randrange(16)
            w.u(1, z).u(4, o)
            s.ct[1][0] = o*0.02
            sz = 8 if z else 6
            s.dtw = []
            for _ in range(ng):
                v = srnd(r, sz)
                w.s(sz, v)
                s.dtw.append(val(v, sz, 0.004))
        sats = self.pmask(w, self.pick())
        s.sat_n = [x[0] for x in sats]
        s.stec_quality = {}
        m.udi[T.STEC] = self.udi
        if sp & 2:
            s.ci = {}
        if sp & 1:
            s.dstec = {}
        for sat, _, _ in sats:
            m.t0(inet, sat, T.STEC)
            if sp:
                s.stec_quality[sat] = self.qual(w)
            if sp & 2:
                st = r.randrange(4)
                w.u(2, st)
                s.ci[sat] = self.coef(w, st)
            if sp & 1:
                z = r.randrange(4)
                w.u(2, z)
                sz = (4, 4, 5, 7)[z]
                sc = (0.04, 0.12, 0.16, 0.24)[z]
                s.dstec[sat] = []
                for _ in range(ng):
                    v = srnd(r, sz)
                    w.s(sz, v)
                    s.dstec[sat].append(val(v, sz, sc))
        if sp:
            m.flag(inet, T.STEC)
        return w

    def sinfo(self):
        """ service information, no effect on corrections """
        r = self.r
        n = r.randrange(4)
        w = BW().u(12, 4073).u(4, 10).u(1, 0).u(3, r.randrange(4)).u(2, n)
        for _ in range(n+1):
            w.u(40, ru(r, 40))
        return w


def names(sats):
    return [sat2id(s) for s in sats]


def observe(c, cs, week, tow):
    """ time of an observation epoch close to the corrections """
    t = tow+c.rng.choice([0, 0, 1, 4, 5, 30, -1, -5, 200])
    w, s = cs.set_time(gpst2time(week, t))
    c.eq((w, s), (week+t//604800, t % 604800), 'set_time')
    c.seen('set_time', t//604800-tow//604800, t//3600-tow//3600)


def compare(c, cs, m, tag):
    """ whole store against the model """
    if m.tow is not None:
        c.ok(abs(timediff(cs.time, gpst2time(m.week, m.tow))) < 1e-6,
             'epoch', lambda: f"{tag}: tow {cs.tow} expected {m.tow}")
    if m.mask is None:
        return
    c.eq(cs.iodssr, m.iod, 'iodssr', tag)
    c.eq(names(cs.sat_n), [s[0] for s in m.mask.sat], 'sat-mask', tag)
    for k, v in m.udi.items():
        c.eq(int(cs.udi[k]), v, 'udi', f"{tag} {k}")
    for k, v in m.iodc.items():
        c.eq(int(cs.iodssr_c[k]), v, 'iodssr-of-corr', f"{tag} {k}")
    for s, gid, cd in m.mask.sat:
        key = [k for k in cs.sig_n if sat2id(k) == s]
        if c.eq(len(key), 1, 'sig-mask', f"{tag} {s}"):
            c.eq([x.str() for x in cs.sig_n[key[0]]], ['L'+x for x in cd],
                 'sig-mask', f"{tag} {s}")
    # complete for a location: mask, orbit, clock, code bias, and STEC,
    # troposphere and optionally phase bias of its network
    keep = cs.inet_ref, cs.local_pbias
    g = m.lc[0].cstat if 0 in m.lc else 0
    for k in range(1, min(13, len(cs.lc))):
        s = m.lc[k].cstat if k in m.lc else 0
        for pb in (True, False):
            cs.inet_ref, cs.local_pbias = k, pb
            need = (sCType.STEC, sCType.TROP)+((sCType.PBIAS,) if pb else ())
            full = all(g >> x & 1 for x in (
                sCType.MASK, sCType.ORBIT, sCType.CLOCK, sCType.CBIAS)) and \
                all(s >> x & 1 for x in need)
            c.eq(bool(cs.chk_stat()), full, 'complete', f"{tag} {k} {pb}")
            if s:
                c.seen('complete', full, pb)
    cs.inet_ref, cs.local_pbias = keep
    for k, s in m.lc.items():
        lc = cs.lc[k]
        lt = f"{tag} inet={k}"
        c.eq(int(lc.cstat), s.cstat, 'status', lt)
        for f in ('dorb', 'iode', 'dclk', 'ura', 'ci', 'dstec',
                  'stec_quality'):
            if s.get(f) is None:
                continue
            g = getattr(lc, f)
            if not c.eq(sorted(names(g)), sorted(s[f]), f+'-sats', lt):
                continue
            for sat in g:
                c.close(g[sat], s[f][sat2id(sat)], 1e-9, f,
                        f"{lt} {f} {sat2id(sat)}")
        for f in ('cbias', 'pbias', 'di'):
            if s.get(f) is None:
                continue
            g = getattr(lc, f)
            if not c.eq(sorted(names(g)), sorted(s[f]), f+'-sats', lt):
                continue
            for sat in g:
                nm = sat2id(sat)
                o = {x.str(): v for x, v in g[sat].items()}
                if c.eq(sorted(o), sorted(s[f][nm]), f+'-sigs', f"{lt} {nm}"):
                    for x in o:
                        c.close(o[x], s[f][nm][x], 1e-9, f, f"{lt} {nm} {x}")
        if s.get('sat_n') is not None:
            c.eq(names(lc.sat_n), s.sat_n, 'net-sats', lt)
            c.eq(int(lc.nsat_n), len(s.sat_n), 'net-nsat', lt)
        for f in ('ng', 'dtw', 'dth', 'ct', 'trop_quality'):
            if s.get(f) is not None:
                c.close(getattr(lc, f), s[f], 1e-9, f, lt)
        if s.get('ftrop') is not None:
            c.eq(int(lc.flg_trop), s.ftrop, 'flg-trop', lt)
        if s.get('fstec') is not None:
            c.eq(int(lc.flg_stec), s.fstec, 'flg-stec', lt)
        g = {(sat2id(a) if a else 0, b): t for a, d in lc.t0.items()
             for b, t in d.items()}
        for (sat, typ), tow in s.t0.items():
            if not c.ok((sat, typ) in g, 't0-missing', f"{lt} {sat} {typ}"):
                continue
            c.ok(abs(timediff(g[(sat, typ)], gpst2time(m.week, tow))) < 1e-6,
                 't0', lambda: f"{lt} {sat} {typ} expected {tow}")
