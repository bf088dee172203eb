""" C14: Earth orientation, Sun/Moon, tides, windup, relativity """
from common import Check, snapshot
import math
import numpy as np
import ephem
from cssrlib.gnss import epoch2time, timeadd, xyz2enu
from cssrlib import ppp, peph

chk = Check('C14', ['src/cssrlib/ppp.py', 'src/cssrlib/peph.py'],
            rule='epochs 2000-2036 and all sites; Sun, Moon and sidereal time '
            'against PyEphem (VSOP87/ELP), frame matrix against an '
            'independent precession/nutation, tides against pysolid '
            '(IERS2010), windup against crossed-dipole phases; distinct by '
            'quantity and regime')

AU = 1.495978707e11
AS = math.pi/180/3600
C = 299792458.0


def utc(c, lo=2000, hi=2036):
    r = c.rng
    return [r.randint(lo, hi), r.randint(1, 12), r.randint(1, 28),
            r.randint(0, 23), r.randint(0, 59), float(r.randint(0, 59))]


def body(b, gst):
    ra, de = float(b.g_ra), float(b.g_dec)
    return b.earth_distance*AU*np.array(
        [math.cos(de)*math.cos(ra-gst), math.cos(de)*math.sin(ra-gst),
         math.sin(de)])


def gast_ephem(ep):
    dt = ephem.Date(tuple(ep))
    ob = ephem.Observer()
    ob.lon, ob.lat, ob.date = '0', '0', dt
    return float(ob.sidereal_time()), dt


def ang(a, b):
    return math.degrees(math.atan2(np.linalg.norm(np.cross(a, b)), a@b))


def leap(ep):
    L = [(1999, 1, 13), (2006, 1, 14), (2009, 1, 15), (2012, 7, 16),
         (2015, 7, 17), (2017, 1, 18)]
    return [n for y, m, n in L if (ep[0], ep[1]) >= (y, m)][-1]


def rot(ax, t):
    i, j = [(1, 2), (2, 0), (0, 1)][ax]
    R = np.eye(3)
    R[i, i] = R[j, j] = math.cos(t)
    R[i, j], R[j, i] = math.sin(t), -math.sin(t)
    return R


@chk.case(150, 6000, minseen=2)
def sunmoon(c):
    """ Sun and Moon positions of both modules """
    ep = utc(c)
    t = epoch2time(ep)
    gst, dt = gast_ephem(ep)
    S = body(ephem.Sun(dt, epoch=dt), gst)
    M = body(ephem.Moon(dt, epoch=dt), gst)
    s1, m1, g1 = peph.sunmoonpos(t, np.zeros(5), True, True, True)
    s2, m2, g2 = ppp.sunmoonpos(t)
    for n, s, m, g in (('peph', s1, m1, g1), ('ppp', s2, m2, g2)):
        c.ok(ang(s, S) < 0.02, f"sun.{n}", lambda: f"{ep}: {ang(s, S)} deg")
        c.close(np.linalg.norm(s)/np.linalg.norm(S), 1, 1e-4, f"sund.{n}")
        c.ok(ang(m, M) < 0.45, f"moon.{n}",
             lambda: f"{ep}: {ang(m, M)} deg")
        c.close(np.linalg.norm(m)/np.linalg.norm(M), 1, 8e-3, f"moond.{n}")
        d = (g-gst+math.pi) % (2*math.pi)-math.pi
        c.ok(abs(d) < math.radians(0.01), f"gmst.{n}", f"{ep}: {d} rad")
    c.seen('sun', ep[0] >= 2017)
    c.seen('season', ep[1]//4)
    a, b, g = peph.sunmoonpos(t, np.zeros(5), rmoon=True)
    c.ok(a is False and g is False, 'flags')
    c.close(b, m1, 1e-6, 'flags.moon')


def pnmatrix(ep, ut1=0.0, xp=0.0, yp=0.0):
    """ J2000 to terrestrial: Capitaine/Lieske precession angles, nutation by
    its leading terms, equation of equinoxes and GMST(1982) """
    a = (14-ep[1])//12
    y, m = ep[0]+4800-a, ep[1]+12*a-3
    jdn = ep[2]+(153*m+2)//5+365*y+y//4-y//100+y//400-32045
    s = ep[3]*3600+ep[4]*60+ep[5]
    d0 = jdn-0.5-2451545.0
    T = (d0+(s+leap(ep)+19+32.184)/86400)/36525
    ze = (0.6406161+(0.0000839+0.0000050*T)*T)*T*math.pi/180
    z = (0.6406161+(0.0003041+0.0000051*T)*T)*T*math.pi/180
    th = (0.5567530-(0.0001185+0.0000116*T)*T)*T*math.pi/180
    P = rot(2, -z)@rot(1, th)@rot(2, -ze)
    om = math.radians(125.04452-1934.136261*T)
    L = math.radians(280.46646+36000.76983*T)
    Lm = math.radians(218.31654591+481267.88134236*T)
    M = math.radians(357.5291092+35999.0502909*T)
    Mm = math.radians(134.96341138+477198.86763133*T)
    F = math.radians(93.27209062+483202.0174577*T)
    D = math.radians(297.85020420+445267.11151675*T)
    dp = (-17.1996*math.sin(om)-1.3187*math.sin(2*L)-.2274*math.sin(2*Lm)
          + .2062*math.sin(2*om)+.1426*math.sin(M)+.0712*math.sin(Mm)
          - .0517*math.sin(2*L+M)-.0386*math.sin(2*Lm-om)
          - .0301*math.sin(2*Lm+Mm)+.0217*math.sin(2*L-M)
          - .0158*math.sin(Mm-2*D)+.0129*math.sin(2*L-om)
          + .0123*math.sin(2*Lm-Mm))*AS
    de = (9.2025*math.cos(om)+.5736*math.cos(2*L)+.0977*math.cos(2*Lm)
          - .0895*math.cos(2*om)+.0054*math.cos(M)+.0224*math.cos(2*L+M)
          + .0200*math.cos(2*Lm-om)+.0129*math.cos(2*Lm+Mm)
          - .0095*math.cos(2*L-M)-.0070*math.cos(2*L-om))*AS
    e = (23.43929111-0.013004167*T)*math.pi/180
    N = rot(0, -e-de)@rot(2, -dp)@rot(0, e)
    Tu = (d0+(s+ut1)/86400)/36525
    du = d0+(s+ut1)/86400
    g = (280.46061837+360.98564736629*du+0.000387933*Tu**2
         - Tu**3/38710000) % 360
    g = math.radians(g)+dp*math.cos(e)
    return rot(1, -xp)@rot(0, -yp)@rot(2, g)@N@P, g


@chk.case(100, 4000, minseen=2)
def frame(c):
    """ inertial to Earth-fixed rotation """
    r = c.rng
    ep = utc(c)
    erp = np.zeros(5)
    if r.random() < .7:
        erp[:3] = r.uniform(-2e-6, 2e-6), r.uniform(-2e-6, 2e-6), \
            r.uniform(-.5, .5)
    t = epoch2time(ep)
    U1, g1 = peph.eci2ecef(t, erp)
    U2, g2 = ppp.eci2ecef(timeadd(t, leap(ep)), erp)
    c.close(U1, U2, 1e-10, 'same', f"{ep}: two implementations differ")
    c.close(U1@U1.T, np.eye(3), 1e-12, 'orthonormal')
    c.close(np.linalg.det(U1), 1, 1e-12, 'det')
    R, _ = pnmatrix(ep, erp[2], erp[0], erp[1])
    c.close(U1, R, 4e-7, 'frame', f"{ep} {erp}")
    c.close(g1, g2, 1e-12, 'gmst')
    c.seen(bool(erp[0]), ep[0] >= 2017)
    c.sample(f"{ep} max dev {np.abs(U1-R).max():.2e} rad")


@chk.case(120, 3000, minseen=3)
def tides(c):
    """ solid earth tide displacement """
    from pysolid.solid import solid_grid
    r = c.rng
    ep = utc(c, 2005, 2030)
    t = epoch2time(ep)
    lat = r.choice([math.asin(r.uniform(-1, 1)), 0.0, 1.55, -1.55])
    lon = r.uniform(-math.pi, math.pi)
    pos = np.array([lat, lon, r.uniform(-100, 4000)])
    before = snapshot(pos)
    d0 = ppp.tidedisp(t, pos)
    d1 = ppp.tidedispIERS2010(t, pos)
    c.ok(snapshot(pos) == before, 'mutation')
    E = np.array([[-math.sin(lon), math.cos(lon), 0],
                  [-math.sin(lat)*math.cos(lon), -math.sin(lat)*math.sin(lon),
                   math.cos(lat)],
                  [math.cos(lat)*math.cos(lon), math.cos(lat)*math.sin(lon),
                   math.sin(lat)]])
    de, dn, du = solid_grid(ep[0], ep[1], ep[2], ep[3], ep[4], int(ep[5]),
                            math.degrees(lat), 0.1, 1, math.degrees(lon),
                            0.1, 1)
    ref = np.array([de[0, 0], dn[0, 0], du[0, 0]])
    c.close(E@d1, ref, 1e-6, 'iers2010', f"{ep} {pos}")
    # simple model restores the permanent tide
    sl = math.sin(lat)
    perm = np.array([0, 0.0247*math.sin(2*lat), 0.1196*(1.5*sl*sl-.5)])
    c.close(E@d0-perm, ref, 0.012, 'simple', f"{ep} {pos}")
    ang_ = np.linalg.norm(d1)
    c.ok(ang_ < 0.6, 'bound')
    c.seen('lat', lat > 0, abs(lat) > 1.5)
    c.sample(f"{ep} lat {math.degrees(lat):.1f} enu {ref}")


def dphase(exs, eys, exr, eyr, k):
    """ crossed dipole expression of Wu et al. """
    ds = exs-k*(k@exs)-np.cross(k, eys)
    dr = exr-k*(k@exr)+np.cross(k, eyr)
    ds, dr = ds/np.linalg.norm(ds), dr/np.linalg.norm(dr)
    # signed angle around k
    return math.atan2(k@np.cross(ds, dr), ds@dr)/(2*math.pi)


@chk.case(80, 3000, minseen=3)
def windup(c):
    """ phase windup along satellite passes """
    r = c.rng
    rng = c.np
    full = r.random() < .5
    lat, lon = math.asin(r.uniform(-1, 1)), r.uniform(-math.pi, math.pi)
    U = np.array([math.cos(lat)*math.cos(lon), math.cos(lat)*math.sin(lon),
                  math.sin(lat)])
    Ea = np.array([-math.sin(lon), math.cos(lon), 0])
    No = np.cross(U, Ea)
    # geodetic latitude of the receiver is lat: position on the ellipsoid
    e2 = 6.69437999014e-3
    Nn = 6378137.0/math.sqrt(1-e2*math.sin(lat)**2)
    rr = np.array([Nn*math.cos(lat)*math.cos(lon),
                   Nn*math.cos(lat)*math.sin(lon),
                   Nn*(1-e2)*math.sin(lat)])
    d = rng.normal(size=3)
    rsun = d/np.linalg.norm(d)*AU
    A = r.choice([2.656e7, 2.96e7, 4.2164e7])
    n = math.sqrt(3.986005e14/A**3)
    inc, O, M0 = r.uniform(0, 1.2), r.uniform(0, 6.28), r.uniform(0, 6.28)
    om = 7.2921151467e-5

    def sat(t):
        u = M0+n*t
        x, y = A*math.cos(u), A*math.sin(u)
        o = O-om*t
        return np.array([x*math.cos(o)-y*math.cos(inc)*math.sin(o),
                         x*math.sin(o)+y*math.cos(inc)*math.cos(o),
                         y*math.sin(inc)])
    phw = 0.0
    t0 = epoch2time([2022, 3, 4, 0, 0, 0])
    step = r.choice([30, 120, 300])
    big = 0.0
    for k in range(r.randint(20, 120)):
        t = k*step
        rs = sat(t)
        vs = (sat(t+.5)-sat(t-.5))
        kk = (rr-rs)/np.linalg.norm(rr-rs)
        if -kk@U < 0.05:
            continue
        ez = -rs/np.linalg.norm(rs)
        if full:
            es = (rsun-rs)/np.linalg.norm(rsun-rs)
        else:
            es = vs+np.cross([0, 0, om], rs)
            es = es/np.linalg.norm(es)
        ey = np.cross(ez, es)
        if np.linalg.norm(ey) < 0.02:
            continue
        ey /= np.linalg.norm(ey)
        ex = np.cross(ey, ez)
        snap = snapshot([rs, vs, rr, rsun])
        new = ppp.windupcorr(timeadd(t0, t), rs, vs, rr, rsun, phw, full)
        c.ok(snapshot([rs, vs, rr, rsun]) == snap, 'mutation')
        ref = dphase(ex, ey, Ea, No, kk)
        f = (new-ref+.5) % 1-.5
        c.ok(abs(f) < 1e-6, 'windup', f"{new} vs {ref} (mod 1)")
        c.ok(abs(new-phw) <= 0.5+1e-9, 'continuity', f"{phw} -> {new}")
        phw = new
        big = max(big, abs(phw))
    c.seen(full, int(big*2), step)


@chk.case(60, 2000, minseen=1)
def shapiro(c):
    """ relativistic path delay """
    rng = c.np
    d = rng.normal(size=3)
    rs = d/np.linalg.norm(d)*rng.uniform(2.5e7, 4.3e7)
    d = rng.normal(size=3)
    rr = d/np.linalg.norm(d)*6.371e6
    v = ppp.shapiro(rs, rr)
    # integral of 2GM/(c^2 r) along the straight path
    n = 4000
    x = (np.arange(n)+.5)/n
    p = rr+np.outer(x, rs-rr)
    rad = np.linalg.norm(p, axis=1)
    if rad.min() < 2e6:
        return
    I = 2*3.986004418e14/C**2*np.mean(1/rad)*np.linalg.norm(rs-rr)
    c.close(v, I, 1e-5, 'integral')
    c.close(ppp.shapiro(rr, rs), v, 1e-12, 'symmetric')
    c.ok(0.003 < v < 0.05, 'range', v)
    c.seen(int(v*100))
