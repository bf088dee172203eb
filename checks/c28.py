""" C28: SBAS L1 correction messages """
from common import Check
from bits import BW, ru
import math
import os
import numpy as np
import ref_orbit as ro
from cssrlib.gnss import (Nav, Obs, gtime_t, timeadd, timediff, sat2id,
                          prn2sat, uGNSS, rSigRnx)
from cssrlib.cssrlib import sCType as T
from cssrlib.ephemeris import satposs
from cssrlib.sbas import sbasDec

CL = 299792458.0
chk = Check('C28', ['src/cssrlib/sbas.py'],
            rule='independently encoded histories of SBAS L1 messages with '
            'mask changes and foreign masks; distinct by message type, '
            'block, velocity code and fill of the block')

UDRE = [0, 1, 5, 11, 13, 14, 15]
URA = [2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096,
       0]


def sr(r, n):
    """ signed value, never the largest one """
    m = 1 << (n-1)
    return r.choice([0, 1, -1, m-2, -m, r.randrange(-m, m-1)])


def sid(slot):
    """ id of a PRN slot """
    if slot <= 37:
        return f"G{slot:02d}"
    if slot <= 61:
        return f"R{slot-37:02d}"
    return f"S{slot-100:02d}"


def near(t, tod):
    """ time with the time of day nearest to t """
    d = t.time//86400*86400
    c = [gtime_t(d+k*86400+tod, 0.0) for k in (-1, 0, 1)]
    return min(c, key=lambda x: abs(timediff(x, t)))


def untie(t, k, step):
    """ count k unless it is exactly half a day away (either day is right) """
    return k+(1 if k == 0 else -1) if (t.time-k*step) % 86400 == 43200 else k


class Sbas():
    def __init__(self, c, t):
        self.c, self.r, self.t = c, c.rng, t
        self.iodp = None
        self.sats = []
        self.fc, self.udre, self.ai = {}, {}, {}
        self.lt, self.cov, self.alm = {}, {}, {}
        self.geo = self.prm = self.sv = None

    def msg(self, mt, w):
        pre = self.r.choice([0x53, 0x9a, 0xc6])
        assert w.n == 212, (mt, w.n)
        return BW().u(8, pre).u(6, mt).cat(w).u(24, ru(self.r, 24)).align()

    def mask(self, iodp, slots=None):
        r = self.r
        if iodp != self.iodp or slots is not None:
            if slots is None:
                n = r.choice([0, 1, 7, 12, 13, 14, 26, 30, 40, 51])
                pool = list(range(1, 33))+list(range(38, 62)) + \
                    list(range(120, 159))
                slots = sorted(r.sample(pool, n))
                if self.sats and r.random() < .5:
                    # one satellite replaced
                    slots = [s for s in self.slots if s < 1e3]
                    slots = sorted(set(slots[1:]) | {r.choice(pool)})
            self.slots = slots
            self.sats = [sid(s) for s in slots]
            self.iodp = iodp
            for d in (self.fc, self.lt):
                for k in list(d):
                    if k not in self.sats:
                        del d[k]
        w = BW()
        for k in range(1, 211):
            w.u(1, int(k in self.slots))
        return self.msg(1, w.u(2, iodp))

    def fast_blk(self, w, typ, n, ok):
        r = self.r
        f = [sr(r, 12) for _ in range(n)]
        u = [r.choice(UDRE) for _ in range(n)]
        for x in f:
            w.s(12, x)
        for x in u:
            w.u(4, x)
        for k in range(n):
            j = typ*13+k
            if ok and j < len(self.sats):
                s = self.sats[j]
                self.fc[s] = f[k]*.125, self.t
                self.udre[s] = u[k]
        if ok:
            self.c.seen('fast', typ, n, len(self.sats) >= typ*13+n)

    def fast(self, ok=True):
        typ = self.r.randrange(4)
        w = BW().u(2, self.r.randrange(4)).u(2, self.iod(ok))
        self.fast_blk(w, typ, 13, ok)
        return self.msg(typ+2, w)

    def iod(self, ok):
        return self.iodp if ok else (self.iodp+self.r.randint(1, 3)) % 4

    def integ(self, ok=True):
        w = BW().u(8, ru(self.r, 8))
        for k in range(51):
            u = self.r.choice(UDRE)
            w.u(4, u)
            if k < len(self.sats):
                self.udre[self.sats[k]] = u
        return self.msg(6, w)

    def degr(self, ok=True):
        w = BW().u(4, ru(self.r, 4)).u(2, self.iod(ok)).u(2, ru(self.r, 2))
        for k in range(51):
            u = self.r.randrange(16)
            w.u(4, u)
            if ok and k < len(self.sats):
                self.ai[self.sats[k]] = u
        return self.msg(7, w)

    def ranging(self, ok=True):
        r = self.r
        w = BW().u(8, ru(r, 8))
        t0, ura = r.randrange(5400), r.randrange(16)
        t0 = untie(self.t, t0, 16)
        w.u(13, t0).u(4, ura)
        v = []
        for n, s in ((30, .08), (30, .08), (25, .4), (17, 6.25e-4),
                     (17, 6.25e-4), (18, 4e-3), (10, 1.25e-5),
                     (10, 1.25e-5), (10, 6.25e-5), (12, 2**-31),
                     (8, 2**-40)):
            x = sr(r, n)
            w.s(n, x)
            v.append(x*s)
        self.geo = near(self.t, t0*16), URA[ura], v
        return self.msg(9, w)

    def param(self, ok=True):
        r = self.r
        w = BW()
        v = []
        for n, s in ((10, .002), (10, .002), (10, .00005), (9, 1),
                     (10, .002), (9, 1), (10, .0005), (10, .00005), (9, 1),
                     (6, .5), (10, .001), (9, 1), (10, .000005), (1, 1),
                     (1, 1), (7, .1)):
            x = ru(r, n)
            w.u(n, x)
            v.append(x*s)
        self.prm = v
        return self.msg(10, w.u(81, 0))

    def almanac(self, ok=True):
        r = self.r
        w = BW()
        a = []
        for k in range(3):
            prn = r.choice([0, r.randint(120, 158), r.randint(120, 158)])
            h = ru(r, 8)
            w.u(2, ru(r, 2)).u(8, prn).u(8, h)
            v = []
            for n, s in ((15, 2600), (15, 2600), (9, 26000), (3, 10),
                         (3, 10), (4, 60)):
                x = sr(r, n)
                w.s(n, x)
                v.append(x*s)
            a.append((prn, h, v))
        ta = untie(self.t, r.randrange(1350), 64)
        for prn, h, v in a:
            if prn:
                self.alm[sid(prn)] = near(self.t, ta*64), h, v
        return self.msg(17, w.u(11, ta))

    def half(self, w, ok, sat=None):
        r = self.r
        vc = r.randrange(2)
        new = {}
        n = len(self.sats)

        def pick():
            q = r.random()
            if q < .1 or not n:
                return 0
            if q < .2:
                return r.randint(n+1, 63)
            return r.randint(1, n)
        w.u(1, vc)
        used = set()
        for k in range(1 if vc else 2):
            p = pick()
            if p in used:
                p = 0
            used.add(p)
            iode = ru(r, 8)
            ns = (11, 11, 11, 11, 8, 8, 8, 8) if vc else (9, 9, 9, 10)
            d = [sr(r, x) for x in ns]
            w.u(6, p).u(8, iode)
            for x, y in zip(ns, d):
                w.s(x, y)
            d += [0]*(8-len(d))
            t0 = self.t
            if vc:
                tod = r.choice([int(self.t.time % 86400)//16,
                                r.randrange(5400)])
                tod = untie(self.t, tod, 16)
                w.u(13, tod)
                t0 = near(self.t, tod*16)
            if 1 <= p <= n:
                new[self.sats[p-1]] = dict(
                    iode=iode, dorb=[-.125*x for x in d[:3]],
                    dclk=d[3]*2**-31*CL, dvel=[-x/2048 for x in d[4:7]],
                    ddft=d[7]*2**-39*CL, t0=t0)
        w.u(2, self.iod(ok))
        if not vc:
            w.u(1, 0)
        if ok:
            self.lt.update(new)
            self.c.seen('long', vc, len(new))

    def mixed(self, ok=True):
        r = self.r
        w = BW()
        typ = r.randrange(4)
        self.fast_blk(w, typ, 6, ok)
        w.u(2, self.iod(ok)).u(2, typ).u(2, ru(r, 2)).u(4, 0)
        self.half(w, ok)
        return self.msg(24, w)

    def long(self, ok=True):
        w = BW()
        k = self.r.randrange(3)
        for j in range(2):
            self.half(w, ok or j == k)
        return self.msg(25, w)

    def service(self, ok=True):
        r = self.r
        h = [ru(r, n) for n in (3, 3, 3, 3, 2, 4, 4)]
        w = BW().add('u3 u3 u3 u3 u2 u4 u4', *h)
        reg = []
        for k in range(5):
            v = [r.randint(-90, 90), r.randint(-180, 180),
                 r.randint(-90, 90), r.randint(-180, 180), r.randrange(2)]
            w.add('s8 s9 s8 s9 u1', *v)
            reg.append(v)
        self.sv = h, reg
        return self.msg(27, w.u(15, 0))

    def covar(self, ok=True):
        r = self.r
        w = BW().u(2, self.iod(ok))
        n = len(self.sats)
        last = 0
        for k in range(2):
            p = r.choice([0, r.randint(1, n) if n else 0,
                          r.randint(1, n) if n else 0, min(n+1, 63)])
            if p == last:
                p = 0
            last = p
            C, sc = cov(r, w.u(6, p))
            if ok and 1 <= p <= n:
                self.cov[self.sats[p-1]] = C, sc
        return self.msg(28, w)

    def other(self, ok=True):
        mt = self.r.choice([8, 11, 12, 20, 62, 63])
        return self.msg(mt, BW().u(212, ru(self.r, 212)))


def cov(r, w):
    """ covariance block; returns C and scale """
    k = r.randrange(8)
    d = [ru(r, 9) for _ in range(4)]
    o = [r.randrange(-512, 512) for _ in range(6)]
    w.u(3, k)
    for x in d:
        w.u(9, x)
    for x in o:
        w.s(10, x)
    sc = 2.0**(k-5)
    R = np.diag(np.array(d, dtype=float))
    R[0, 1], R[0, 2], R[0, 3], R[1, 2], R[1, 3], R[2, 3] = o
    R *= sc
    return R.T@R, sc


def tt(a, b):
    return abs(timediff(a, b)) < 1e-6


def compare(c, cs, e, tag):
    lc = cs.lc[0]
    if e.iodp is None:
        c.ok(not lc.dorb and not lc.hclk, 'before mask', tag)
        return
    c.eq([sat2id(s) for s in cs.sat], e.sats, 'mask', tag)
    c.eq(cs.iodp, e.iodp, 'iodp', tag)
    # fast corrections
    got = {sat2id(s): v for s, v in lc.hclk.items()}
    if c.eq(sorted(got), sorted(e.fc), 'fast-sats', tag):
        for s, (v, t) in e.fc.items():
            c.close(got[s], v, 1e-9, 'fast', f"{tag} {s}")
    t0 = {sat2id(s): d for s, d in lc.t0.items() if s}
    for s, (v, t) in e.fc.items():
        c.ok(s in t0 and tt(t0[s][T.HCLOCK], t), 'fast-t0', f"{tag} {s}")
    for what, got, want in (('udre', cs.obad.udrei, e.udre),
                            ('ai', cs.ai, e.ai)):
        g = {sat2id(s): v for s, v in got.items()}
        c.eq({s: g.get(s) for s in e.sats},
             {s: want.get(s) for s in e.sats}, what, tag)
    # long-term
    use = {sat2id(s) for s in cs.sat_n if s in lc.dorb}
    if c.eq(sorted(use), sorted(e.lt), 'long-sats', tag):
        sn = {sat2id(s): s for s in cs.sat_n}
        for n, m in e.lt.items():
            s = sn[n]
            c.eq(lc.iode[s], m['iode'], 'iode', f"{tag} {n}")
            for k in ('dorb', 'dclk', 'dvel', 'ddft'):
                c.close(getattr(lc, k)[s], m[k], 1e-9, k, f"{tag} {n}")
            for k in (T.CLOCK, T.ORBIT):
                c.ok(tt(lc.t0[s][k], m['t0']), 'long-t0', f"{tag} {n}")
    if e.lt:
        c.ok(cs.iodssr == e.iodp, 'iodssr', tag)
    g = {sat2id(s): v for s, v in cs.obad.cov.items()}
    gs = {sat2id(s): v for s, v in cs.obad.scl.items()}
    for n, (C, sc) in e.cov.items():
        if c.ok(n in g, 'cov-sat', f"{tag} {n}"):
            c.close(g[n].flatten(), C.flatten(), 1e-6, 'cov', f"{tag} {n}")
            c.close(gs[n], sc, 1e-12, 'cov-scale', f"{tag} {n}")
    c.eq(sorted(g), sorted(e.cov), 'cov-sats', tag)


def compare_sys(c, cs, e, tag):
    if e.geo is not None and c.ok(cs.Seph is not None, 'mt9', tag):
        t0, ura, v = e.geo
        s = cs.Seph
        c.ok(tt(s.t0, t0), 'mt9-t0', tag)
        c.close(s.sva, ura, 1e-9, 'mt9-ura', tag)
        g = list(s.pos)+list(s.vel)+list(s.acc)
        c.close(g, v[:9], 1e-6, 'mt9-state', tag)
        c.close(s.af0, v[9], 1e-15, 'mt9-af0', tag)
        c.close(s.af1, v[10], 1e-17, 'mt9-af1', tag)
    if e.prm is not None:
        for k, (a, b) in enumerate(zip(cs.deg_prm, e.prm)):
            c.close(a, b, 1e-9, f"mt10-{k}", tag)
    al = {sat2id(s): a for s, a in cs.Alm.items()}
    if c.eq(sorted(al), sorted(e.alm), 'mt17', tag):
        for n, (t0, h, v) in e.alm.items():
            a = al[n]
            c.ok(tt(a.t0, t0), 'mt17-t0', tag)
            c.eq(a.svh, h, 'mt17-svh', tag)
            c.close(list(a.pos)+list(a.vel), v, 1e-6, 'mt17-state', tag)
    if e.sv is not None:
        h, reg = e.sv
        s = cs.sinfo
        c.eq([s.iods, s.nmsg, s.snum, s.nreg, s.priority, s.dUDRE_in,
              s.dUDRE_out], h, 'mt27', tag)
        for k in range(5):
            c.eq([int(x[k]) for x in (s.lat1, s.lon1, s.lat2, s.lon2)],
                 reg[k][:4], f"mt27-region{k}", tag)
            c.eq(int(np.atleast_1d(s.shape)[k]) if np.size(s.shape) > k
                 else None, reg[k][4], f"mt27-shape{k}", tag)


KINDS = ['fast', 'fast', 'fast', 'integ', 'degr', 'ranging', 'param',
         'almanac', 'mixed', 'mixed', 'long', 'long', 'long', 'service',
         'covar', 'covar', 'other']


@chk.case(160, 8000)
def history(c):
    """ message history """
    r = c.rng
    cs = sbasDec(os.path.join(c.tmp, 'sb.txt'))
    cs.monlevel = r.choice([0, 0, 1, 2])
    w0 = r.randint(1024, 2500)
    t = ro.gps(w0, r.choice([0, 86390, 604790, r.randrange(604800)]))
    e = Sbas(c, t)
    prn = r.randint(120, 158)

    def send(w):
        cs.time = e.t
        cs.decode_cssr(w.bytes(), 0, 0, prn)
    if r.random() < .2:
        e.iodp, e.slots = 1, []
        for k in ('fast', 'long', 'mixed', 'degr'):
            w = getattr(e, k)()
            send(w)
        c.ok(not cs.lc[0].dorb and not cs.lc[0].hclk, 'before mask')
        e.iodp = None
        c.seen('before mask')
    send(e.mask(r.randrange(4)))
    for k in range(r.randint(4, 40)):
        e.t = timeadd(e.t, r.choice([0, 1, 1, 6, 60]))
        q = r.random()
        if q < .04:
            w = e.mask((e.iodp+r.randint(1, 3)) % 4)
            c.seen('mask', 'new')
        elif q < .08:
            w = e.mask(e.iodp)
            c.seen('mask', 'same')
        elif q < .18:
            n = r.choice(['fast', 'degr', 'mixed', 'long', 'covar'])
            w = getattr(e, n)(False)
            c.seen('foreign', n)
        else:
            n = r.choice(KINDS)
            w = getattr(e, n)()
            c.seen(n)
        send(w)
        compare(c, cs, e, f"msg {k}")
        compare_sys(c, cs, e, f"msg {k}")
    if e.geo is not None:
        c.eq(cs.Seph.sat, prn2sat(uGNSS.SBS, prn), 'mt9-sat')


@chk.case(60, 3000)
def apply(c):
    """ corrections applied to the broadcast orbit and clock """
    r = c.rng
    t = ro.gps(r.randint(1800, 2400), r.randrange(7200, 590000))
    cs = sbasDec(os.path.join(c.tmp, 'sb.txt'))
    cs.monlevel = r.choice([0, 0, 1, 2])
    e = Sbas(c, t)
    cs.time = t
    n = r.randint(4, 20)
    slots = sorted(r.sample(range(1, 33), n))
    cs.decode_cssr(e.mask(r.randrange(4), slots).bytes(), 0, 0, 129)
    for k in range(40):
        e.t = timeadd(t, k)
        cs.time = e.t
        w = r.choice([e.long, e.mixed, e.fast])()
        cs.decode_cssr(w.bytes(), 0, 0, 129)
    nav = Nav(nf=1)
    cs_iode = {}
    for s in e.sats:
        sat = prn2sat(uGNSS.GPS, int(s[1:]))
        toe = gtime_t((t.time+3600)//7200*7200, 0.0)
        i = e.lt[s]['iode'] if s in e.lt else ru(r, 8)
        if r.random() < .15:
            i = (i+1) % 256
        cs_iode[s] = i
        eph = ro.gen_eph(r, sat, toe, iode=i)
        eph.tgd = r.uniform(-2e-8, 2e-8)
        nav.eph.append(eph)
    nav.x = np.array([6378e3, 0.0, 0.0])
    nav.time_p = gtime_t()
    o = Obs()
    o.t = timeadd(t, r.uniform(40, 90))
    o.sat = np.array([prn2sat(uGNSS.GPS, int(s[1:])) for s in e.sats])
    o.P = c.np.uniform(2e7, 2.6e7, (n, 1))
    o.L = np.zeros((n, 1))
    o.sig = {uGNSS.GPS: {}}
    rs0, vs0, dt0, _, _ = satposs(o, nav)
    rs, vs, dts, svh, ns = satposs(o, nav, cs)
    used = 0
    for k, s in enumerate(e.sats):
        m = e.lt.get(s)
        if m is None or cs_iode[s] != m['iode']:
            c.ok(not np.any(rs[k]), 'no correction', s)
            c.seen('not corrected', m is None)
            continue
        used += 1
        c.seen('corrected', s in e.fc)
        # transmission time differs from the reception time by < 0.1 s
        dt = timediff(o.t, m['t0'])
        fc = e.fc[s][0] if s in e.fc else 0.0
        d = [-(a+b*dt) for a, b in zip(m['dorb'], m['dvel'])]
        c.close(rs[k]-rs0[k], d, 0.02, 'position', s)
        clk = (m['dclk']+m['ddft']*dt+fc)/CL-nav.eph[k].tgd
        c.close((dts[k]-dt0[k])*CL, clk*CL, 0.02, 'clock', s)
    c.eq(ns, used, 'number')
