""" C29: dual frequency SBAS (DFMC) and PVS messages """
from common import Check
from bits import BW, ru
from c28 import cov, near, tt, untie, CL
import math
import os
import numpy as np
import ref_orbit as ro
from cssrlib.gnss import (Nav, Obs, gtime_t, timeadd, timediff, sat2id,
                          time2gpst, uGNSS, sat2prn)
from cssrlib.cssrlib import sCType as T
from cssrlib.ephemeris import satposs
from cssrlib.sbas import sbasDec
from cssrlib.cssr_pvs import cssr_pvs, decode_sinca_line

chk = Check('C29', ['src/cssrlib/sbas.py', 'src/cssrlib/cssr_pvs.py'],
            rule='independently encoded histories of DFMC SBAS messages; '
            'distinct by message type, system, time situation')

POOL = list(range(1, 33))+list(range(38, 65))+list(range(75, 111)) + \
    list(range(120, 159))+list(range(159, 196))


def sid(s):
    for a, b, let, o in ((1, 32, 'G', 0), (38, 69, 'R', 37),
                         (75, 110, 'E', 74), (120, 158, 'S', 100),
                         (159, 195, 'C', 158)):
        if a <= s <= b:
            return f"{let}{s-o:02d}"
    return None


def sr(r, n):
    m = 1 << (n-1)
    return r.choice([0, 1, -1, m-2, -m+1, r.randrange(-m+1, m-1)])


class Dfmc():
    def __init__(self, c, t):
        self.c, self.r, self.t = c, c.rng, t
        self.iodm = None
        self.slots = []
        self.cor, self.q = {}, {}
        self.cov = {}
        self.eph = None
        self.alm = {}
        self.e39 = None

    def msg(self, mt, w):
        assert w.n == 216, (mt, w.n)
        self.c.seen('mt', mt)
        return BW().u(4, self.r.choice([5, 12, 6, 9, 3, 10])).u(6, mt).cat(
            w).u(24, ru(self.r, 24)).align()

    def mask(self, ok=True):
        r = self.r
        if self.iodm is None or r.random() < .5:
            n = r.choice([1, 20, 53, 54, 70, 92])
            self.slots = sorted(r.sample(POOL, n))
            self.iodm = r.randrange(4) if self.iodm is None else \
                (self.iodm+r.randint(1, 3)) % 4
        w = BW()
        for k in range(1, 215):
            w.u(1, int(k in self.slots))
        return self.msg(31, w.u(2, self.iodm))

    def corr(self, ok=True, pvs=False, slot=None, tod=None):
        r = self.r
        if slot is None:
            slot = r.choice(r.choice([POOL, self.slots or POOL]))
            if r.random() < .08:
                slot = r.choice([0, 36, 112, 118, 214])
        iodn = ru(r, 10)
        ns = (11, 11, 11, 12, 8, 8, 8, 9)
        d = [sr(r, x) for x in ns]
        w = BW().u(8, slot).u(10, iodn)
        for n, x in zip(ns, d):
            w.s(n, x)
        if tod is None:
            tod = r.choice([int(self.t.time % 86400)//16, r.randrange(5400),
                            0, 5399])
            tod = untie(self.t, tod, 16)
        w.u(13, tod)
        C, sc = cov(r, w)
        f, g = r.randrange(16), r.randrange(16)
        w.u(4, f).u(4, g)
        s = sid(slot)
        if s is not None and (not pvs or tod % 2 == 1):
            self.cor[s] = dict(
                iode=iodn, dorb=[-.0625*x for x in d[:3]], dclk=d[3]*.03125,
                dvel=[-x/2048 for x in d[4:7]], ddft=d[7]/4096,
                t0=near(self.t, tod*16))
            if not pvs:
                self.cov[s] = C, sc, g/15
                self.q[s] = f
            self.c.seen('corr', s[0])
        return self.msg(32, w)

    def iod(self, ok):
        return self.iodm if ok else (self.iodm+self.r.randint(1, 3)) % 4

    def mt34(self, ok=True):
        r = self.r
        w = BW()
        ci = []
        for k in range(92):
            x = r.choice([0, 0, 0, 2, 3])
            ci.append(x)
        for k in r.sample(range(92), r.randint(0, 7)):
            ci[k] = 1
        v = [r.randrange(16) for _ in range(7)]
        for x in ci:
            w.u(2, x)
        for x in v:
            w.u(4, x)
        w.u(2, 0).u(2, self.iod(ok))
        if ok:
            # indicators beyond the mask do not belong to a satellite
            k = 0
            for x, s in zip(ci, self.slots):
                n = sid(s)
                if x == 1:
                    self.q[n] = v[k]
                    k += 1
                elif x == 2 and n in self.q:
                    self.q[n] = min(15 if self.q[n] == 15 else 14,
                                    self.q[n]+1)
                elif x == 3:
                    self.q[n] = 15
        return self.msg(34, w)

    def mt35(self, ok=True):
        w = BW()
        for k in range(53):
            x = self.r.randrange(16)
            w.u(4, x)
            if ok and k < len(self.slots):
                self.q[sid(self.slots[k])] = x
        return self.msg(35, w.u(2, 0).u(2, self.iod(ok)))

    def mt36(self, ok=True):
        w = BW()
        for k in range(39):
            x = self.r.randrange(16)
            w.u(4, x)
            if ok and k+53 < len(self.slots):
                self.q[sid(self.slots[k+53])] = x
        return self.msg(36, w.u(58, 0).u(2, self.iod(ok)))

    def mt39(self, ok=True):
        r = self.r
        slot = r.randint(1, 39)
        iodg = r.randrange(4)
        w = BW().u(6, slot).u(2, iodg).u(5, ru(r, 5))
        ns = (19, 19, 22, 34, 34, 34, 25, 16)
        sc = (math.pi*2**-19*1e-4, math.pi*2**-19*1e-4,
              7*math.pi/6*2**-21*1e-6, math.pi*2**-33, math.pi*2**-33,
              math.pi*2**-33, .02/CL, 4e-5/CL)
        v = [sr(r, n) for n in ns]
        for n, x in zip(ns, v):
            w.s(n, x)
        self.e39 = f"S{slot+19:02d}", iodg, [x*y for x, y in zip(v, sc)]
        self.eph = None
        return self.msg(39, w)

    def mt40(self, ok=True):
        r = self.r
        g = self.e39[1] if self.e39 is not None else r.randrange(4)
        if not ok or r.random() < .2:
            g = (g+r.randint(1, 3)) % 4
        ns = (33, 30, 31, 13)
        v = [ru(r, n) for n in ns]
        v[3] = untie(self.t, r.randrange(5400), 16)
        w = BW().u(2, g)
        for n, x in zip(ns, v):
            w.u(n, x)
        C, sc = cov(r, w)
        a, b = r.randrange(16), r.randrange(16)
        w.u(4, a).u(4, b)
        if self.e39 is not None and g == self.e39[1]:
            s = self.e39[0]
            self.eph = s, self.e39[2]+[v[0]*math.pi*2**-33, v[1]*2**-30,
                                       v[2]*.02], near(self.t, v[3]*16)
            self.cov[s] = C, sc, b/15
            self.q[s] = a
        return self.msg(40, w)

    def mt47(self, ok=True):
        r = self.r
        w = BW()
        last = 0
        for k in range(2):
            s = r.choice([0, r.randint(1, 39)])
            s = 0 if s == last else s
            last = s
            w.u(6, s).u(5, ru(r, 5)).u(1, ru(r, 1))
            A, e, i0 = ru(r, 16), ru(r, 8), ru(r, 13)
            v = [r.randrange(-1 << (n-1), 1 << (n-1))
                 for n in (14, 14, 8, 15)]
            ta = untie(self.t, r.randrange(48), 1800)
            w.u(16, A).u(8, e).u(13, i0)
            for n, x in zip((14, 14, 8, 15), v):
                w.s(n, x)
            w.u(6, ta)
            if s:
                p = math.pi*2**-13
                self.alm[f"S{s+19:02d}"] = [
                    A*650, e/256, i0*p, v[0]*p, v[1]*p, v[2]*1e-9,
                    v[3]*p/2], near(self.t, ta*1800)
        return self.msg(47, w.u(4, ru(r, 4)))

    def other(self, ok=True):
        return self.msg(self.r.choice([42, 62, 63, 50]),
                        BW().u(216, ru(self.r, 216)))


def cmp_corr(c, cs, e, tag):
    lc = cs.lc[0]
    got = {sat2id(s): s for s in lc.dorb}
    if not c.eq(sorted(got), sorted(e.cor), 'corr-sats', tag):
        return
    for n, m in e.cor.items():
        s = got[n]
        c.eq(lc.iode[s], m['iode'], 'iode', f"{tag} {n}")
        for k in ('dorb', 'dclk', 'dvel', 'ddft'):
            c.close(getattr(lc, k)[s], m[k], 1e-9, k, f"{tag} {n}")
        for k in (T.CLOCK, T.ORBIT):
            c.ok(tt(lc.t0[s][k], m['t0']), 't0', f"{tag} {n}")


def compare(c, cs, e, tag):
    cmp_corr(c, cs, e, tag)
    g = {sat2id(s): v for s, v in cs.obad.dfrei.items()}
    c.eq({k: int(v) for k, v in g.items()}, e.q, 'dfrei', tag)
    g = {sat2id(s): s for s in cs.obad.cov}
    if c.eq(sorted(g), sorted(e.cov), 'cov-sats', tag):
        for n, (C, sc, dr) in e.cov.items():
            s = g[n]
            c.close(cs.obad.cov[s].flatten(), C.flatten(), 1e-6, 'cov',
                    f"{tag} {n}")
            c.close(cs.obad.scl[s], sc, 1e-12, 'scale', f"{tag} {n}")
            c.close(cs.obad.dRcorr[s], dr, 1e-12, 'dRcorr', f"{tag} {n}")
    if e.eph is not None and c.ok(cs.Eph is not None, 'eph', tag):
        n, v, t0 = e.eph
        h = cs.Eph
        c.eq(sat2id(h.sat), n, 'eph-sat', tag)
        g = [h.cuc, h.cus, h.idot, h.omg, h.OMG0, h.M0, h.af0, h.af1,
             h.i0, h.e, h.A]
        nm = 'cuc cus idot omg OMG0 M0 af0 af1 i0 e A'.split()
        for x, y, k in zip(g, v, nm):
            c.ok(abs(x-y) <= 1e-12*abs(y)+1e-30, 'eph-'+k,
                 f"{tag} {x} {y}")
        c.ok(tt(h.toe, t0), 'eph-toe', tag)
        c.ok(tt(h.toc, t0), 'eph-toc', tag)
    al = {sat2id(s): a for s, a in cs.Alm.items()}
    if c.eq(sorted(al), sorted(e.alm), 'alm', tag):
        for n, (v, t0) in e.alm.items():
            a = al[n]
            g = [a.A, a.e, a.i0, a.omg, a.OMG0, a.OMGd, a.M0]
            for x, y, k in zip(g, v, 'A e i0 omg OMG0 OMGd M0'.split()):
                c.ok(abs(x-y) <= 1e-12*abs(y)+1e-30, 'alm-'+k,
                     f"{tag} {x} {y}")
            c.ok(tt(a.toa, t0), 'alm-toa', tag)


@chk.case(160, 8000)
def dfmc(c):
    """ message history, dual frequency SBAS """
    r = c.rng
    cs = sbasDec(os.path.join(c.tmp, 'sb.txt'), nf=2)
    cs.monlevel = r.choice([0, 0, 1, 2])
    t = ro.gps(r.randint(1024, 2500),
               r.choice([0, 86390, 604790, r.randrange(604800)]))
    e = Dfmc(c, t)

    def send(w):
        cs.time = e.t
        cs.decode_cssr(w.bytes(), 0, 1, 131)
    send(e.mask())
    for k in range(r.randint(4, 40)):
        e.t = timeadd(e.t, r.choice([0, 1, 1, 6, 60]))
        n = r.choice(['corr']*6+['mask', 'mt34', 'mt34', 'mt35', 'mt36',
                                 'mt39', 'mt40', 'mt40', 'mt47', 'other'])
        ok = r.random() < .85
        w = getattr(e, n)(ok)
        if not ok:
            c.seen('foreign', n)
        send(w)
        compare(c, cs, e, f"msg {k} {n}")


def sinca(r, b):
    """ SISNeT compression: c|n is a run of n < 16, c/nn a longer run """
    h, out = b.hex().upper(), ''
    lim = r.choice([4, 3, 5])
    while h:
        n = len(h)-len(h.lstrip(h[0]))
        if n >= 16:
            out += f"{h[0]}/{n:02X}"
        elif n >= lim:
            out += f"{h[0]}|{n:X}"
        else:
            out += h[:n]
        h = h[n:]
    return out


@chk.case(120, 6000)
def text(c):
    """ compressed text lines """
    r = c.rng
    t = ro.gps(r.randint(1024, 2500), r.choice([0, r.randrange(604800)]))
    e = Dfmc(c, t)
    for k in range(10):
        if r.random() < .5:
            b = e.corr(pvs=True).bytes()
        else:
            b = bytes(x for x in (r.choice([0, 0, 0xff, 0x55, r.randrange(256)])
                                  for _ in range(8))
                      for _ in range(r.choice([1, 4, 8])))[:32]
            b = b+bytes(32-len(b))
        z = sinca(r, b)
        w, s = time2gpst(t)
        v = decode_sinca_line(f"*MSG,{w},{int(s)},{z}*{ru(r, 8):02X}"
                              + r.choice(['', chr(10), chr(13)+chr(10)]))
        if c.ok(v is not None, 'text line', z):
            c.ok(tt(v[0], t), 'text time', f"{w} {s}")
            c.eq(v[1].hex(), b.hex(), 'text message', z)
        c.seen('text', '|' in z, '/' in z)
        c.eq(decode_sinca_line(r.choice(['*START', '', f"MSG,{w}"])), None,
             'other line')


@chk.case(80, 4000)
def pvs(c):
    """ message history, PPP via SouthPAN """
    r = c.rng
    cs = cssr_pvs(os.path.join(c.tmp, 'pvs.txt'))
    cs.monlevel = r.choice([0, 0, 1, 4])
    t = ro.gps(r.randint(1024, 2500),
               r.choice([0, 86390, 604790, r.randrange(604800)]))
    e = Dfmc(c, t)
    for k in range(r.randint(4, 40)):
        e.t = timeadd(e.t, r.choice([0, 1, 1, 6, 60]))
        cs.set_time(e.t)
        n = r.choice(['corr', 'corr', 'corr', 'other'])
        w = e.corr(pvs=True) if n == 'corr' else e.other()
        b = w.bytes()
        if r.random() < .3:
            b = decode_sinca_line('*MSG,2300,1,'+sinca(r, b)+'*00')[1]
        cs.decode_cssr(b, 0)
        cmp_corr(c, cs, e, f"msg {k}")


@chk.case(60, 3000)
def apply(c):
    """ corrections applied to the broadcast orbit and clock """
    r = c.rng
    t = ro.gps(r.randint(1800, 2400), r.randrange(7200, 590000))
    p = r.random() < .5
    cs = cssr_pvs() if p else sbasDec(nf=2)
    e = Dfmc(c, t)
    if not p:
        cs.time = t
        cs.decode_cssr(e.mask().bytes(), 0, 1, 131)
        e.slots = [s for s in e.slots if s <= 32 or 75 <= s <= 110]
    e.slots = e.slots or [1, 5, 80]
    for k in range(60):
        e.t = timeadd(t, k)
        cs.time = e.t
        if p:
            cs.set_time(e.t)
            cs.decode_cssr(e.corr(pvs=True).bytes(), 0)
        else:
            cs.decode_cssr(e.corr().bytes(), 0, 1, 131)
    nav = Nav()
    names = [s for s in e.cor if s[0] in 'GE']
    names += [x for x in ('G01', 'E01', 'E20') if x not in names]
    ephs, ids = {}, {}
    sats = []
    for s in names:
        sat = ro_id(s)
        sats.append(sat)
        toe = gtime_t((t.time+3600)//7200*7200, 0.0)
        i = e.cor[s]['iode'] if s in e.cor else ru(r, 10)
        if r.random() < .15:
            i = (i+1) % 1024
        ids[s] = i
        for m in ((0,) if s[0] == 'G' else (0, 1)):
            eph = ro.gen_eph(r, sat, toe, iode=i)
            eph.mode = m
            eph.Adot = eph.delnd = 0.0
            eph.tgd = 0.0
            nav.eph.append(eph)
    nav.x = np.array([6378e3, 0.0, 0.0])
    nav.time_p = gtime_t()
    n = len(sats)
    o = Obs()
    o.t = timeadd(t, r.uniform(40, 90))
    o.sat = np.array(sats)
    o.P = c.np.uniform(2e7, 2.6e7, (n, 2))
    o.L = np.zeros((n, 2))
    o.sig = {uGNSS.GPS: {}, uGNSS.GAL: {}}
    rs, vs, dts, svh, ns = satposs(o, nav, cs)
    nav2 = Nav()
    nav2.eph = [x for x in nav.eph
                if x.mode == (0 if sat2prn(x.sat)[0] == uGNSS.GPS else 1)]
    for x in nav2.eph:
        x.mode = 0
    nav2.x = nav.x
    rs0, vs0, dt0, _, _ = satposs(o, nav2)
    used = 0
    for k, s in enumerate(names):
        m = e.cor.get(s)
        if m is None or ids[s] != m['iode']:
            c.ok(not np.any(rs[k]), 'no correction', s)
            continue
        used += 1
        c.seen('corrected', s[0], p)
        dt = timediff(o.t, m['t0'])
        d = [-(a+b*dt) for a, b in zip(m['dorb'], m['dvel'])]
        c.close(rs[k]-rs0[k], d, 0.02, 'position', s)
        c.close((dts[k]-dt0[k])*CL, m['dclk']+m['ddft']*dt, 0.02, 'clock', s)
    c.eq(ns, used, 'number')


def ro_id(s):
    from cssrlib.gnss import id2sat
    return id2sat(s)
