""" C30: SBAS ionospheric grid """
from common import Check
from bits import BW, ru
import math
import numpy as np
import ref_orbit as ro
from cssrlib.gnss import timeadd, Nav, uIonoModel
from cssrlib.pntpos import ionmodel
from cssrlib.sbas import sbasDec, ionoSBAS

chk = Check('C30', ['src/cssrlib/sbas.py'],
            rule='grids of all bands sent by MT18/MT26 histories with mask '
            'changes and unmonitored points; random pierce points; distinct '
            'by cell type, number of usable corners, situation')

L1 = list(range(-55, 60, 5))
L2 = [-75, -65]+L1+[65, 75]


def band_points(b):
    """ grid points of a band, DO-229 table A-14 """
    p = []
    if b <= 8:
        for k in range(8):
            lon = -180+40*b+5*k
            if k % 2:
                la = list(L1)
            else:
                la = list(L2)
                if lon in (-180, -90, 0, 90):
                    la = la+[85]
                if lon in (-140, -50, 40, 130):
                    la = [-85]+la
            p += [(x, lon) for x in la]
    else:
        s = 1 if b == 9 else -1
        p += [(60*s, x) for x in range(-180, 180, 5)]
        for a in (65, 70, 75):
            p += [(a*s, x) for x in range(-180, 180, 10)]
        p += [(85*s, x) for x in range(-180 if b == 9 else -170, 180, 30)]
    return p


BAND = [band_points(b) for b in range(11)]
assert [len(x) for x in BAND] == [201]*8+[200, 192, 192]


def pierce(pos, az, el):
    """ pierce point on a sphere and slant factor """
    re, h = 6378.1363, 350.0
    U = np.array([math.cos(pos[0])*math.cos(pos[1]),
                  math.cos(pos[0])*math.sin(pos[1]), math.sin(pos[0])])
    E = np.array([-math.sin(pos[1]), math.cos(pos[1]), 0])
    N = np.cross(U, E)
    d = math.cos(el)*(math.sin(az)*E+math.cos(az)*N)+math.sin(el)*U
    b = re*(U@d)
    s = -b+math.sqrt(b*b+(re+h)**2-re**2)
    x = (re*U+s*d)/(re+h)
    f = 1/math.sqrt(1-(re*math.cos(el)/(re+h))**2)
    return (math.degrees(math.asin(x[2])),
            math.degrees(math.atan2(x[1], x[0])), f)


def polar_cap(lat, lon, g, full):
    """ pierce points beyond 75 degrees, DO-229 A.4.4.10.2 and 3;
    full: the polar band is in use """
    s = 1 if lat > 0 else -1
    edge = min(abs(abs(lat)-75), abs(abs(lat)-85)) < 1e-7

    def get(la, lo):
        return g.get((la, (lo+180) % 360-180))
    if abs(lat) >= 85:
        q = [-180, -90, 0, 90] if s > 0 else [-140, -50, 40, 130]
        d, k = min(((lon-b) % 360, k) for k, b in enumerate(q))
        P = [get(85*s, q[(k+j) % 4]) for j in range(4)]
        if None in P:
            return None, 4-P.count(None), edge, ('cap', s)
        # great distance from the meridian: bilinear in the turned square
        y = (abs(lat)-85)/10
        x = d/90*(1-2*y)+y
        w = [(1-x)*(1-y), x*(1-y), x*y, (1-x)*y]
        return sum(a*b for a, b in zip(w, P)), 4, edge, ('cap', s)
    st = 30 if full else 90
    base = 0 if s > 0 else 40
    lc = base+math.floor((lon-base)/st)*st
    a, b = get(85*s, lc), get(85*s, lc+st)
    lo = math.floor(lon/10)*10
    p, q = get(75*s, lo), get(75*s, lo+10)
    n = 4-[a, b, p, q].count(None)
    if n < 4:
        return None, n, edge, ('ring', s)
    va, vb = [a+(b-a)*(z-lc)/st for z in (lo, lo+10)]
    x, y = (lon-lo)/10, (abs(lat)-75)/10
    return (1-y)*((1-x)*p+x*q)+y*((1-x)*va+x*vb), 4, edge, ('ring', s)


def expect(lat, lon, g, full=False):
    """ interpolated vertical delay; None: no correction possible """
    if abs(lat) >= 75:
        return polar_cap(lat, lon, g, full)
    if -55 <= lat < 55:
        s1 = s2 = 5
        la = math.floor(lat/5)*5
    else:
        s1 = s2 = 10
        la = math.floor((lat-5)/10)*10+5
    lo = math.floor(lon/s2)*s2
    x, y = (lon-lo)/s2, (lat-la)/s1
    P = {(i, j): g.get((la+j*s1, (lo+i*s2+180) % 360-180))
         for i in (0, 1) for j in (0, 1)}
    n = [k for k in P if P[k] is not None]
    edge = min(x, 1-x, y, 1-y) < 1e-7
    if len(n) == 4:
        w = {(0, 0): (1-x)*(1-y), (1, 0): x*(1-y), (0, 1): (1-x)*y,
             (1, 1): x*y}
        return sum(w[k]*P[k] for k in w), 4, edge, (s1, la)
    if len(n) < 3:
        return None, len(n), edge, (s1, la)
    # plane through the three points, pierce point inside the triangle
    A = np.array([[1, i, j] for i, j in n], dtype=float)
    w = np.linalg.solve(A.T, [1, x, y])
    edge = edge or min(abs(w)) < 1e-7
    if min(w) < 0:
        return None, -3, edge, (s1, la)
    return sum(a*P[k] for a, k in zip(w, n)), 3, edge, (s1, la)


class Grid():
    def __init__(self, c, cs):
        self.c, self.r, self.cs = c, c.rng, cs
        self.mask, self.iodi, self.val = {}, {}, {}
        self.t = ro.gps(2200, 1000.0)
        self.bands = []

    def send(self, mt, w):
        self.cs.time = self.t
        m = BW().u(8, 0x53).u(6, mt).cat(w.pad(212)).u(24, 0).align()
        self.cs.decode_cssr(m.bytes(), 0, 0, 129)

    def mt18(self, b, idx, iodi, used):
        w = BW().u(4, len(self.bands)).u(4, b).u(2, iodi)
        for k in range(201):
            w.u(1, int(k in idx))
        if self.iodi.get(b) != iodi or self.mask.get(b) != idx:
            self.val[b] = {}
        self.mask[b], self.iodi[b] = idx, iodi
        self.send(18, w)

    def mt26(self, b, blk, iodi=None):
        r = self.r
        idx = self.mask.get(b, [])
        w = BW().u(4, b).u(4, blk)
        for k in range(15):
            v = r.choice([ru(r, 9), r.randrange(200), r.randrange(510)])
            q = r.choice([0, 0, 1, 3, 7, 12, 13, 14])
            z = r.random()
            if z < .06:
                v = 511
            elif z < .12:
                q = 15
            w.u(9, v).u(4, q)
            j = blk*15+k
            if iodi is None and j < len(idx):
                self.val[b][idx[j]] = v*.125 if v != 511 and q != 15 else None
        w.u(2, self.iodi.get(b, 0) if iodi is None else iodi).u(7, 0)
        self.send(26, w)

    def points(self):
        g = {}
        for b, d in self.val.items():
            for k, v in d.items():
                g[BAND[b][k]] = v
        return g


@chk.case(120, 6000, minseen=6)
def grid(c):
    """ grid messages and interpolation """
    r = c.rng
    cs = sbasDec()
    e = Grid(c, cs)
    # grid points belong to one band only
    first = r.randrange(9)
    nb = 9 if r.random() < .15 else r.randint(1, 3)
    e.bands = sorted({(first+k) % 9 for k in range(nb)})
    hi = r.random() < .3
    dense = r.choice([1.0, 1.0, .97, .85])
    it = r.randrange(4)

    def idx(b):
        n = len(BAND[b])
        return [k for k in range(n) if r.random() < dense]
    nav = Nav()
    nav.ion = np.array([[1e-8, 0, 0, 0], [9e4, 0, 0, 0]])
    for rnd in range(r.randint(1, 4)):
        if rnd:
            q = r.random()
            if q < .4:
                it = (it+r.randint(1, 3)) % 4
            for b in e.bands:
                if r.random() < .7:
                    e.mt18(b, idx(b) if q < .4 else e.mask[b], it, None)
                    c.seen('mask', q < .4)
        else:
            for b in e.bands:
                e.mt18(b, idx(b), it, None)
        for b in e.bands:
            nk = (len(e.mask[b])+14)//15
            for k in range(nk):
                if r.random() < .93:
                    e.mt26(b, k)
            if r.random() < .3:
                e.mt26(b, r.randrange(max(nk, 1)), (e.iodi[b]+1) % 4)
                c.seen('foreign iodi')
        other = [b for b in range(11) if b not in e.mask]
        if other and r.random() < .2:
            e.mt26(r.choice(other), 0, e.iodi[e.bands[0]])
            c.seen('unknown band')
        g = e.points()
        for _ in range(40):
            b = r.choice(e.bands)
            for _ in range(20):
                la = r.uniform(-70, 70)
                if nb > 2 and r.random() < .4:
                    la = r.choice([-1, 1])*r.uniform(68, 90)
                lo = -180+40*b+r.uniform(-8, 43)
                lo = (lo+180) % 360-180
                pos = [math.radians(la), math.radians(lo),
                       r.uniform(0, 2000)]
                if r.random() < .1:
                    pos[1] = math.radians(r.choice([-179.9, 179.9, 0]))
                az = r.uniform(-math.pi, 2*math.pi)
                el = r.choice([r.uniform(.05, 1.57), r.uniform(.5, 1.5)])
                plat, plon, f = pierce(pos, az, el)
                if abs(plat) < 74.9 or nb > 2:
                    break
            else:
                continue
            v, n, edge, cell = expect(plat, plon, g)
            if edge:
                continue
            z = ionoSBAS(e.t, pos, az, el, cs)[0]
            c.seen('cell', cell[0], n)
            tag = f"lat {plat:.3f} lon {plon:.3f} corners {n}"
            if v is None:
                c.close(z, 0.0, 0.0, 'unavailable', tag)
            else:
                c.close(z, v*f, 1e-6*max(1, v*f), 'delay', tag)
                if v > 0:
                    m = ionmodel(e.t, np.array(pos), az, el, nav,
                                 uIonoModel.SBAS, cs)
                    c.close(m, v*f, 1e-6*max(1, v*f), 'model', tag)
        e.t = timeadd(e.t, 300)


@chk.case(40, 2000, minseen=1)
def polar(c):
    """ bands 9 and 10 """
    r = c.rng
    cs = sbasDec()
    e = Grid(c, cs)
    e.bands = [r.choice([9, 10])]
    b = e.bands[0]
    n = len(BAND[b])
    dense = r.choice([1.0, .97])
    e.mt18(b, [k for k in range(n) if r.random() < dense], 1, None)
    for k in range((len(e.mask[b])+14)//15):
        e.mt26(b, k)
    g = e.points()
    for _ in range(90):
        pos = [math.radians(r.uniform(60, 90)*(1 if b == 9 else -1)),
               r.uniform(-math.pi, math.pi), 100.0]
        az, el = r.uniform(0, 2*math.pi), r.uniform(.2, 1.5)
        plat, plon, f = pierce(pos, az, el)
        if not 65.001 < abs(plat):
            continue
        v, n, edge, cell = expect(plat, plon, g, True)
        if edge:
            continue
        c.seen('polar', b, n, cell[0])
        z = ionoSBAS(e.t, pos, az, el, cs)[0]
        tag = f"lat {plat:.3f} lon {plon:.3f} corners {n}"
        if v is None:
            c.close(z, 0.0, 0.0, 'unavailable', tag)
        else:
            c.close(z, v*f, 1e-6*max(1, v*f), 'delay', tag)
    # the complete grid, by its documented coordinates
    for b in range(11):
        c.eq([tuple(int(y) for y in x) for x in cs.igp_t[b]], BAND[b],
             f"band {b}")
