""" C35: MADOCA-PPP Compact SSR and wide area ionosphere messages """
from common import Check
from bits import BW, rs, ru
from enc_cssr import Enc, Mask, compare, names, observe
from c20 import Setup, CODES, quiet, tides
import math
import os
import numpy as np
import sim
import ref_atm as ra
from cssrlib.gnss import timeadd, gpst2utc, sat2id, gpst2time, timediff
from cssrlib.cssrlib import sCSSRTYPE as sc, sCType
from cssrlib.cssr_mdc import cssr_mdc
from cssrlib import ppp as pppmod
from cssrlib.pppssr import pppos

chk = Check('C35', ['src/cssrlib/cssr_mdc.py', 'src/cssrlib/cssrlib.py',
                    'src/cssrlib/pppssr.py'],
            rule='encoded streams of Compact SSR, coverage (MT1) and STEC '
            'correction (MT2) messages, positions in, between and outside '
            'rectangle and circle areas all around the world, simulated PPP '
            'observations; distinct by message, area shape, polynomial and '
            'situation')

D2R = math.pi/180
RE = 6378137.0
NAREA = {1: 8, 2: 16, 3: 5, 4: 1, 5: 8}
SY = 'GRECJ'
NS = dict(zip(SY, (32, 24, 36, 63, 10)))
NEW = ['orb', 'clk', 'cb', 'pb', 'bias', 'ura', 'mt1', 'mt2', 'mt2', 'mt2']


def inet_of(reg, area):
    return sum(v for k, v in NAREA.items() if k < reg)+area


class Rect():
    def __init__(self, r, lat, lon, near):
        """ areas around a place [deg] or anywhere """
        s = r.uniform(1, 12) if near else r.uniform(.5, 25)
        self.hl, self.ho = int(s*10), r.randint(5, 150)
        self.lat = max(-900, min(900, round(lat*10)))
        self.lon = round(lon*10) % 3600

    def put(self, w):
        w.u(1, 0).s(11, self.lat).u(12, self.lon).u(8, self.hl).u(8, self.ho)
        return self

    def where(self, lat, lon):
        """ 1 inside, 0 outside, None at the border """
        a = abs(lat-self.lat*.1)-self.hl*.1
        b = abs((lon-self.lon*.1+180) % 360-180)-self.ho*.1
        if max(a, b) < -1e-6:
            return 1
        return 0 if max(a, b) > 1e-6 else None

    def ref(self):
        return self.lat*.1, self.lon*.1


class Circle():
    def __init__(self, r, lat, lon, near):
        self.rng = r.randint(1, 70) if near or r.random() < .8 else \
            r.randint(71, 255)
        self.lat, self.lon = round(lat*100), round(lon*100) % 36000

    def put(self, w):
        w.u(1, 1).s(15, self.lat).u(16, self.lon).u(8, self.rng)
        return self

    def where(self, lat, lon):
        p, q = self.lat*.01*D2R, lat*D2R
        dl = (lon-self.lon*.01)*D2R
        x = math.sin((q-p)/2)**2+math.cos(p)*math.cos(q)*math.sin(dl/2)**2
        d = 2*math.asin(min(1, math.sqrt(x)))*6371e3
        k = d/(self.rng*1e4)
        if self.rng > 70:
            return None
        # the shape of the earth and of the map is not specified
        return 1 if k < .85 else 0 if k > 1.2 else None

    def ref(self):
        return self.lat*.01, self.lon*.01


class Mdc(Enc):
    """ encoder of MADOCA messages """

    def __init__(self, c, week):
        super().__init__(c, week)
        self.areas = {}     # (region, area): shape
        self.corr = {}      # (region, area): tow, type, {sat: (qi, coef)}
        self.iono_iod = 0
        self.alert = {}

    def mt1(self, tow, reg, areas):
        """ areas: {number: shape} """
        r = self.r
        w = BW().u(12, 1).u(4, 0).u(20, tow % 604800).u(4, r.randrange(16)).u(
            1, r.randrange(2)).u(4, self.iono_iod)
        al = r.randrange(2)
        # length of the following part
        n = sum(45 for a in areas)
        w.u(8, reg).u(1, al).u(16, n).u(5, len(areas))
        for k, s in areas.items():
            w.u(5, k)
            s.put(w)
            self.areas[reg, k] = s
        self.alert = al
        self.m.tow0 = tow//3600*3600
        return w

    def mt2(self, tow, reg, area, sats=None, cmax=None):
        r = self.r
        w = BW().u(12, 2).u(4, 0).u(12, tow % 3600 if
                                       self.live else tow-self.m.tow0).u(
            4, r.randrange(16)).u(1, r.randrange(2)).u(4, self.iono_iod)
        st = r.randrange(4)
        w.u(8, reg).u(5, area).u(2, st)
        if sats is None:
            sats = {}
            for y in SY:
                n = r.choice([0, 1, r.randint(0, min(NS[y], 12))])
                sats[y] = sorted(r.sample(range(1, NS[y]+1), n))
        for y in SY:
            w.u(5, len(sats.get(y, ())))
        out = {}
        for y in SY:
            for p in sats.get(y, ()):
                q = ru(r, 6)
                w.u(6, p).u(6, q)
                v = [0]*6
                for k, (n, need) in enumerate(((14, 0), (12, 1), (12, 1),
                                               (10, 2), (8, 3), (8, 3))):
                    if st >= need:
                        v[k] = rs(r, n)
                        if v[k] == -(1 << (n-1)):
                            v[k] = 0
                        if cmax:
                            v[k] = max(-cmax[k], min(cmax[k], v[k]))
                        w.s(n, v[k])
                out[f"{y}{p:02d}"] = q, [
                    v[0]*.05, v[1]*.02, v[2]*.02, v[3]*.02, v[4]*.005,
                    v[5]*.005]
        self.corr[reg, area] = tow, st, out
        self.c.seen('mt2', st, len(out) > 0)
        return w


def check_iono(c, cs, e, tag):
    """ areas and corrections of the store """
    for (reg, k), s in e.areas.items():
        p = cs.pnt.get(reg, {}).get(k)
        if not c.ok(p is not None, 'area-missing', f"{tag} {reg} {k}"):
            continue
        rect = isinstance(s, Rect)
        c.eq(int(p.sid), 0 if rect else 1, 'area-shape', tag)
        c.close([p.latr], [s.ref()[0]], 1e-9, 'area-lat', tag)
        c.close([(p.lonr-s.ref()[1]+180) % 360], [180], 1e-9, 'area-lon', tag)
        if rect:
            c.close([p.lats, p.lons], [s.hl*.1, s.ho*.1], 1e-9, 'area-size',
                    tag)
        else:
            c.close([p.rng], [s.rng*10], 1e-9, 'area-size', tag)
    c.eq(sum(len(v) for v in cs.pnt.values()), len(e.areas), 'areas', tag)
    for (reg, k), (tow, st, sats) in e.corr.items():
        inet = inet_of(reg, k)
        lc = cs.lc[inet]
        t = f"{tag} region {reg} area {k}"
        c.eq(cs.get_inet(reg, k), inet, 'network number', t)
        c.eq(names(lc.sat_n), list(sats), 'sats', t)
        c.eq(int(lc.nsat_n), len(sats), 'nsat', t)
        c.ok(int(lc.cstat) & (1 << sCType.STEC), 'status', t)
        c.eq(sorted(names(lc.ci)), sorted(sats), 'coef-sats', t)
        for s in lc.sat_n:
            nm = sat2id(s)
            if nm in sats:
                c.eq(int(lc.stec_quality[s]), sats[nm][0], 'quality', t)
                c.close(lc.ci[s], sats[nm][1], 1e-9, 'coef', f"{t} {nm}")
        t0 = lc.t0.get(0, {}).get(sCType.STEC)
        c.ok(t0 is not None and
             abs(timediff(t0, gpst2time(e.m.week, tow))) < 1e-6, 't0',
             lambda: f"{t} at {tow}")


def fresh(c, log=False):
    r = c.rng
    cs = cssr_mdc(os.path.join(c.tmp, 'log.txt') if log else None)
    cs.monlevel = c.rng.choice([1, 1, 2, 3, 4]) if log else 0
    cs.week = r.randint(1900, 2600)
    tow = r.choice([r.randint(0, 600000), 3600*r.randint(0, 166),
                    3600*r.randint(1, 166)-1])
    return cs, Mdc(c, cs.week), tow


def newmask(c):
    r = c.rng
    return Mask(r, sorted(r.sample([0, 1, 2, 3, 4, 7], r.randint(1, 4))), 40)


def areas(r, reg, n=None):
    """ some areas of a region """
    out = {}
    for k in sorted(r.sample(range(1, NAREA[reg]+1),
                             n or r.randint(1, min(NAREA[reg], 5)))):
        lat = math.degrees(math.asin(r.uniform(-.8, .8)))
        out[k] = r.choice([Rect, Circle])(r, lat, r.uniform(-180, 360),
                                          False)
    return out


@chk.case(150, 5000)
def stream(c):
    """ history of messages """
    r = c.rng
    log = r.random() < .3
    cs, e, tow = fresh(c, log)
    live = e.live = r.random() < .4
    if live and r.random() < .6:
        tow = 3600*r.choice([168, 24*r.randint(1, 7), r.randint(1, 168)]
                            )-r.choice([1, 5, 30, 300])
    iod = r.randrange(16)
    have = False
    hour = None
    buf = BW()
    for k in range(r.randint(3, 25)):
        if tow//3600 != hour and not live:
            # hour from a message with the full time of week
            have = False
        if not have or r.random() < .1:
            iod = (iod+r.randint(0, 15)) % 16
            w = e.mask(tow, newmask(c), iod)
            have, hour = True, tow//3600
        else:
            x = r.choice(NEW)
            reg = r.randint(1, 5)
            if x == 'mt1':
                w = e.mt1(tow, reg, areas(r, reg))
                hour = tow//3600
            elif x == 'mt2':
                w = e.mt2(tow, reg, r.randint(1, NAREA[reg]))
            elif x == 'bias':
                w = e.bias(tow)
            else:
                w = getattr(e, x)(tow)
            c.seen('msg', x)
        buf.cat(w)
        if r.random() < .6 or buf.n > 14000:
            if live:
                observe(c, cs, e.m.week, tow)
            cs.decode_cssr(bytes(buf.bytes())+bytes(20))
            compare(c, cs, e.m, f"msg {k}")
            check_iono(c, cs, e, f"msg {k}")
            buf = BW()
            tow += r.choice([0, 5, 30, 600])
            if tow >= 604800 and not live:
                break
    if log:
        cs.fh.close()


@chk.case(150, 6000)
def select(c):
    """ area and STEC at a position """
    r = c.rng
    cs, e, tow = fresh(c)
    w = e.mask(tow, newmask(c), 3)
    for _ in range(r.randint(1, 3)):
        reg = r.randint(1, 5)
        w.cat(e.mt1(tow, reg, areas(r, reg)))
    ar = list(e.areas)
    for k in ar:
        if r.random() < .8:
            w.cat(e.mt2(tow, *k))
    cs.decode_cssr(w.bytes()+bytes(20))
    for _ in range(12):
        k = r.choice(ar)
        la, lo = e.areas[k].ref()
        lat = max(-89, min(89, la+r.uniform(-1, 1)*r.choice([1, 5, 20])))
        lon = (lo+r.uniform(-1, 1)*r.choice([1, 5, 20])+180) % 360-180
        hit = {q: s.where(lat, lon) for q, s in e.areas.items()}
        pos = np.array([lat*D2R, lon*D2R, 10.0])
        tag = f"{lat:.3f} {lon:.3f}"
        inet = cs.find_grid_index(pos)
        ok = {inet_of(*q): q for q, v in hit.items() if v != 0}
        if 1 not in hit.values():
            ok[-1] = None
        if not c.ok(inet in ok, 'area',
                    lambda: f"{tag}: network {inet} instead of {ok}"):
            continue
        q = ok[inet]
        c.seen('area', q is None or type(e.areas[q]).__name__, q and q[0],
               len(ok) > 1)
        if q is None:
            continue
        cs.inet = inet
        d = [float(x) for x in cs.get_dpos(pos)]
        a, b = e.areas[q].ref()
        x = [lat-a, (lon-b+180) % 360-180]
        c.close(d, x, 1e-9, 'offset', tag)
        if q not in e.corr:
            continue
        v = cs.get_stec(*d)
        sats = e.corr[q][2]
        c.eq(len(v), len(sats), 'stec-count', tag)
        for s, y in zip(cs.lc[inet].sat_n, v):
            k = sats[sat2id(s)][1]
            z = k[0]+k[1]*x[0]+k[2]*x[1]+k[3]*x[0]*x[1]+k[4]*x[0]**2 + \
                k[5]*x[1]**2
            c.close(y, z, 1e-7, 'stec', f"{tag} {sat2id(s)}")
            c.seen('stec', e.corr[q][1])


class Local(Setup):
    """ PPP receiver in an area """

    def __init__(self, c, **kw):
        Setup.__init__(self, c, sc.QZS_MADOCA, **kw)
        r = c.rng
        self.cfg['nav'].update(iono_opt=2)
        quiet(self.make_eng, kw.get('off', np.zeros(3)))

    def make_eng(self, off):
        self.eng = pppos(self.nav, self.rr+off, config=self.cfg)

    def make_cs(self):
        Setup.make_cs(self)
        r, c = self.c.rng, self.c
        m = cssr_mdc()
        old = self.cs
        for k in ('iodssr', 'iodssr_p', 'iodssr_c', 'mask_id', 'mask_id_clk',
                  'sat_n', 'sat_n_p', 'nav_mode'):
            setattr(m, k, getattr(old, k))
        c.eq(m.cssrmode, sc.QZS_MADOCA, 'mode')
        m.lc[0] = old.lc[0]
        self.cs = m
        from cssrlib.gnss import time2gpst
        m.week, tow = time2gpst(self.t0)
        tow = int(tow)
        e = self.e = Mdc(c, m.week)
        pos = sim.llh(self.rr)
        la, lo = pos[0]/D2R, pos[1]/D2R
        reg = r.randint(1, 5)
        ar = areas(r, reg)
        a = self.a = r.randint(1, NAREA[reg])
        ar = {k: s for k, s in ar.items() if s.where(la, lo) == 0}
        while True:
            s = r.choice([Rect, Circle])(r, la+r.uniform(-5, 5),
                                         lo+r.uniform(-5, 5), True)
            if s.where(la, lo) == 1:
                break
        ar[a] = self.s = s
        self.reg = reg
        w = e.mt1(tow, reg, ar)
        used = {}
        for q in self.w.sats():
            if r.random() < .9:
                nm = sat2id(q)
                used.setdefault(nm[0], []).append(int(nm[1:]))
        for v in used.values():
            v.sort()
        ks = list(ar)
        r.shuffle(ks)
        for k in ks:
            w.cat(e.mt2(tow, reg, k, used if k == a else None,
                        (800, 250, 250, 50, 20, 20)))
        m.decode_cssr(w.bytes()+bytes(20))
        self.lc = m.lc[inet_of(reg, a)]
        self.net = inet_of(reg, a)

    def tec(self, pos):
        la, lo = pos[0]/D2R, pos[1]/D2R
        a, b = self.s.ref()
        x = [la-a, (lo-b+180) % 360-180]
        out = {}
        from cssrlib.gnss import id2sat
        for nm, (_, k) in self.e.corr[self.reg, self.a][2].items():
            out[id2sat(nm)] = 40.3e16/1575.42e6**2*(
                k[0]+k[1]*x[0]+k[2]*x[1]+k[3]*x[0]*x[1]+k[4]*x[0]**2 +
                k[5]*x[1]**2)
        return out

    def epoch(self, dt):
        t = timeadd(self.t0, self.k*dt)
        x = self.rr+self.vel*self.k*dt
        tide = tides(self.nav, gpst2utc(t), sim.llh(x))
        ion = self.tec(sim.llh(x+tide))
        for s in self.ion:
            self.ion[s] = ion.get(s, 0.0), 0.0
        return Setup.epoch(self, dt)


@chk.case(40, 1000, cpu=300, minseen=6)
def residual(c):
    """ at the true position only clock and ambiguity remain """
    s = Local(c, exact=True)
    s.ztd = 0.0
    o, info = s.epoch(30.0)
    s.run(o)
    nav = s.nav
    used = {k for k in s.lc.sat_n}
    exp = [int(q) for q in o.sat if info[q]['el'] >= nav.elmin
           and q in used]
    if len(exp) < 6:
        return
    c.eq(int(s.cs.inet), s.net, 'network')
    sats = [int(q) for q, y in zip(nav.sat, nav.y) if np.any(y)]
    if all(abs(info[q]['el']-nav.elmin) > 1e-4 for q in o.sat):
        c.eq(sorted(sats), exp, 'satellites')
    for i, q in enumerate(nav.sat):
        q = int(q)
        if q not in sats:
            continue
        let = s.w.let(q)
        for f, code in enumerate(CODES[let]):
            ch = s.w.geph[q].frq if q in s.w.geph else 0
            lam = sim.CL/sim.frequency(q, int(code[0]), ch)
            b = sim.CL*1e-5
            tag = f"{s.systems} {sat2id(q)} {code} {type(s.s).__name__}"
            c.close(nav.y[i, f+nav.nf], b, 5e-3, 'code', tag)
            d = nav.y[i, f]-(b+s.rx.N[q, f]*lam)
            d -= round(d/lam)*lam if abs(d) > lam/2 else 0
            c.ok(abs(d) < 5e-3, 'phase', f"{tag}: {d}")
            c.seen('res', let, code, type(s.s).__name__)
