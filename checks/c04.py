""" C04: coordinate frames and geometry """
from common import Check
import numpy as np
import math
from cssrlib.gnss import (ecef2pos, pos2ecef, ecef2enu, xyz2enu, enu2xyz,
                          satazel, geodist, deg2dms, vnorm)

chk = Check('C04', ['src/cssrlib/gnss.py'],
            rule='positions over the whole globe incl. poles, equator, date '
            'line, heights -10 km .. geostationary; satellites in every '
            'direction incl. zenith and horizon; distinct by latitude band, '
            'longitude quadrant, height class')

A = 6378137.0
F = 1/298.257223563
B = A*(1-F)
E2 = F*(2-F)
W = 7.2921151467e-5
CL = 299792458.0


def llh(c):
    r = c.rng
    k = r.randrange(6)
    lat = r.choice([r.uniform(-90, 90), r.uniform(-90, 90), 90, -90, 0.0,
                    89.9999999, -89.99999, 45, r.uniform(85, 90)])
    lon = r.choice([r.uniform(-180, 180), r.uniform(-180, 180), 0.0, 180.0,
                    -179.9999999, 90.0, -90.0])
    h = [0.0, r.uniform(-1e4, 1e4), r.uniform(-500, 9000), r.uniform(0, 1e6),
         r.uniform(1e6, 4e7), 3.5786e7][k]
    return lat, lon, h


def ref_ecef(lat, lon, h):
    """ geometric construction via the reduced latitude """
    p, lm = math.radians(lat), math.radians(lon)
    if abs(lat) == 90:
        cp, sp = 0.0, math.copysign(1, lat)
    else:
        cp, sp = math.cos(p), math.sin(p)
    # parametric latitude
    q = math.hypot(A*cp, B*sp)
    x = A*A*cp/q+h*cp
    z = B*B*sp/q+h*sp
    return np.array([x*math.cos(lm), x*math.sin(lm), z])


@chk.case(20000, 400000)
def geodetic(c):
    lat, lon, h = llh(c)
    ref = ref_ecef(lat, lon, h)
    c.seen(int((lat+90)//15), int((lon+180)//90),
           'lo' if h < 0 else 'surf' if h < 1e4 else 'leo' if h < 1e6
           else 'meo', abs(lat) == 90)
    p = np.array([math.radians(lat), math.radians(lon), h])
    p0 = p.copy()
    r = pos2ecef(p)
    c.close(r, ref, 1e-6, 'pos2ecef', f"{lat} {lon} {h}")
    c.ok((p == p0).all(), 'pos2ecef:mutates', '')
    pd = np.array([lat, lon, h])
    rd = pos2ecef(pd, True)
    c.close(rd, ref, 1e-6, 'pos2ecef:deg', f"{lat} {lon} {h}")
    c.ok((pd == [lat, lon, h]).all(), 'pos2ecef:mutates', f"{pd}")
    r2 = pos2ecef([lat, lon, h], isdeg=True)
    c.close(r2, ref, 1e-6, 'pos2ecef:list', '')
    ref0 = ref.copy()
    q = ecef2pos(ref)
    c.ok((ref == ref0).all(), 'ecef2pos:mutates', '')
    c.ok(abs(q[0]-p[0])*A < 1e-3, 'ecef2pos:lat',
         f"{lat} {lon} {h}: {np.rad2deg(q[0])}")
    dl = (q[1]-p[1]+math.pi) % (2*math.pi)-math.pi
    c.ok((abs(lat) == 90 or abs(dl)*A*math.cos(p[0]) < 1e-3)
         and -math.pi-1e-12 <= q[1] <= math.pi+1e-12,
         'ecef2pos:lon', f"{lat} {lon} {h}: {np.rad2deg(q[1])}")
    c.ok(abs(q[2]-h) < 1e-3, 'ecef2pos:height', f"{lat} {lon} {h}: {q[2]}")
    if abs(lat) < 90:
        c.close(pos2ecef(ecef2pos(ref)), ref, 2e-3, 'roundtrip', '')
    c.sample(f"{lat},{lon},{h} -> {ref}")


@chk.case(15000, 300000)
def local_frame(c):
    r = c.rng
    lat, lon, h = llh(c)
    p = np.array([math.radians(lat), math.radians(lon), h])
    E = xyz2enu(p)
    c.close(E@E.T, np.eye(3), 1e-12, 'orthonormal', '')
    c.ok(abs(np.linalg.det(E)-1) < 1e-12, 'right-handed', '')
    up = np.array([math.cos(p[0])*math.cos(p[1]),
                   math.cos(p[0])*math.sin(p[1]), math.sin(p[0])])
    c.close(E[2], up, 1e-12, 'up', '')
    c.close(E[0], [-math.sin(p[1]), math.cos(p[1]), 0], 1e-12, 'east', '')
    c.close(enu2xyz(p), E.T, 1e-9, 'enu2xyz', '')
    v = np.array([r.uniform(-1e5, 1e5) for _ in range(3)])
    v0 = v.copy()
    c.close(ecef2enu(p, v), E@v, 1e-6, 'ecef2enu', '')
    c.ok((v == v0).all(), 'ecef2enu:mutates', '')
    # azimuth / elevation
    k = r.randrange(6)
    az = r.uniform(-math.pi, math.pi)
    el = [r.uniform(-1.5, 1.5), math.pi/2, 0.0, r.uniform(0, 0.2),
          math.pi/2-1e-9, r.uniform(1.5, 1.57)][k]
    if k == 0 and r.random() < 0.3:
        az = r.choice([0, math.pi/2, -math.pi/2, math.pi])
    e = E.T@np.array([math.sin(az)*math.cos(el), math.cos(az)*math.cos(el),
                      math.sin(el)])
    e = e/np.linalg.norm(e) if r.random() < 0.5 else e
    if k == 1:
        e = E[2].copy()
    a2, e2 = satazel(p, e)
    c.ok(abs(e2-el) < 5e-8, 'elevation', f"{az} {el}: {e2}")
    if abs(el) < 1.55:
        d = (a2-az+math.pi) % (2*math.pi)-math.pi
        c.ok(abs(d) < 1e-9, 'azimuth', f"{az} {el}: {a2}")
    c.seen(k, int((az+math.pi)//(math.pi/2)), int((lat+90)//30))
    w = vnorm(v)
    c.ok(abs(np.linalg.norm(w)-1) < 1e-12 and
         np.linalg.norm(np.cross(w, v)) < 1e-6, 'vnorm', '')


@chk.case(15000, 300000)
def distance(c):
    """ range with earth rotation during the signal flight time """
    r = c.rng
    lat, lon, h = llh(c)
    h = min(h, 1e6)
    rr = ref_ecef(lat, lon, h)
    R = r.choice([2.65e7, 4.2164e7, 2.96e7, 1e9])
    u = c.np.normal(size=3)
    rs = R*u/np.linalg.norm(u)
    a, b = rs.copy(), rr.copy()
    d, e = geodist(rs, rr)
    c.ok((rs == a).all() and (rr == b).all(), 'mutates', '')
    geo = np.linalg.norm(rs-rr)
    sag = W*(rs[0]*rr[1]-rs[1]*rr[0])/CL
    c.ok(abs(d-(geo+sag)) < 1e-6, 'range', f"{d} {geo+sag}")
    c.close(e, (rs-rr)/geo, 1e-12, 'line of sight', '')
    if R < 1e8:
        # rotate the satellite into the frame of the reception time
        tau = geo/CL
        for _ in range(5):
            th = W*tau
            x = np.array([math.cos(th)*rs[0]+math.sin(th)*rs[1],
                          -math.sin(th)*rs[0]+math.cos(th)*rs[1], rs[2]])
            tau = np.linalg.norm(x-rr)/CL
        c.ok(abs(d-tau*CL) < 5e-3, 'sagnac', f"{d-tau*CL}")
    c.seen(R, int((lat+90)//30), sag > 0)


@chk.case(5000, 100000)
def dms(c):
    r = c.rng
    x = r.choice([r.uniform(-180, 180), r.uniform(-1, 1), float(
        r.randint(-180, 180)), r.randint(-1800, 1800)/10, 0.0])
    v = deg2dms(x)
    s = math.copysign(1, v[0])
    c.ok(abs(v[0]) == math.floor(abs(x)) and 0 <= v[1] < 60+1e-9 and
         0 <= v[2] < 60+1e-6 and float(v[1]).is_integer(), 'dms', f"{x} {v}")
    c.ok(abs(s*(abs(v[0])+v[1]/60+v[2]/3600)-x) < 1e-9, 'dms value',
         f"{x} {v}")
    c.seen(x < 0, abs(x) < 1, float(x).is_integer())
