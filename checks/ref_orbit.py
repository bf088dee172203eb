""" independent orbit/clock models and ephemeris generators """
import math
import numpy as np
from cssrlib.gnss import (uGNSS, Eph, Geph, Alm, prn2sat, sat2prn, gtime_t,
                          timeadd)

CL = 299792458.0
GPS0 = 315964800
MU = {'G': 3.986005e14, 'E': 3.986004418e14, 'C': 3.986004418e14,
      'J': 3.986005e14, 'I': 3.986005e14}
WE = {'G': 7.2921151467e-5, 'E': 7.2921151467e-5, 'C': 7.292115e-5,
      'J': 7.2921151467e-5, 'I': 7.2921151467e-5}
LET = {uGNSS.GPS: 'G', uGNSS.GAL: 'E', uGNSS.QZS: 'J', uGNSS.BDS: 'C',
       uGNSS.GLO: 'R', uGNSS.SBS: 'S', uGNSS.IRN: 'I'}


def tsub(a, b):
    return (a.time-b.time)+(a.sec-b.sec)


def gps(week, tow):
    i = math.floor(tow)
    return gtime_t(GPS0+int(week)*604800+i, tow-i)


def kepler(M, e):
    E = M+e*math.sin(M)
    for _ in range(50):
        d = (E-e*math.sin(E)-M)/(1-e*math.cos(E))
        E -= d
        if abs(d) < 1e-15:
            break
    return E


def is_geo(sat):
    s, p = sat2prn(sat)
    return s == uGNSS.BDS and (p <= 5 or p >= 59)


def pos_at(eph, let, geo, dt):
    """ ECEF position dt seconds after toe (interface documents) """
    mu, we = MU[let], WE[let]
    cnav = eph.mode > 0
    A = eph.A+(eph.Adot*dt if cnav else 0.0)
    n = math.sqrt(mu/eph.A**3)+eph.deln+(0.5*eph.delnd*dt if cnav else 0.0)
    E = kepler(eph.M0+n*dt, eph.e)
    nu = 2*math.atan2(math.sqrt(1+eph.e)*math.sin(E/2),
                      math.sqrt(1-eph.e)*math.cos(E/2))
    ph = nu+eph.omg
    s2, c2 = math.sin(2*ph), math.cos(2*ph)
    u = ph+eph.cus*s2+eph.cuc*c2
    r = A*(1-eph.e*math.cos(E))+eph.crs*s2+eph.crc*c2
    i = eph.i0+eph.idot*dt+eph.cis*s2+eph.cic*c2
    x, y = r*math.cos(u), r*math.sin(u)
    if geo:
        O = eph.OMG0+eph.OMGd*dt-we*eph.toes
    else:
        O = eph.OMG0+(eph.OMGd-we)*dt-we*eph.toes
    p = np.array([x*math.cos(O)-y*math.cos(i)*math.sin(O),
                  x*math.sin(O)+y*math.cos(i)*math.cos(O),
                  y*math.sin(i)])
    if geo:
        a = math.radians(-5.0)
        Rx = np.array([[1, 0, 0], [0, math.cos(a), math.sin(a)],
                       [0, -math.sin(a), math.cos(a)]])
        f = we*dt
        Rz = np.array([[math.cos(f), math.sin(f), 0],
                       [-math.sin(f), math.cos(f), 0], [0, 0, 1]])
        p = Rz@Rx@p
    return p


def eph_state(eph, t):
    """ position, velocity, clock without and relativistic correction """
    let = LET[uGNSS(int(sat2prn(eph.sat)[0]))]
    geo = is_geo(eph.sat)
    dt = tsub(t, eph.toe)
    p = pos_at(eph, let, geo, dt)
    h = 2.0
    f = [pos_at(eph, let, geo, dt+k*h) for k in (-2, -1, 1, 2)]
    v = (f[0]-8*f[1]+8*f[2]-f[3])/(12*h)
    dc = tsub(t, eph.toc)
    clk = eph.af0+eph.af1*dc+eph.af2*dc*dc
    n = math.sqrt(MU[let]/eph.A**3)+eph.deln + \
        (0.5*eph.delnd*dt if eph.mode > 0 else 0.0)
    E = kepler(eph.M0+n*dt, eph.e)
    rel = -2*math.sqrt(MU[let]*eph.A)*eph.e*math.sin(E)/CL**2
    return p, v, clk, rel


# --- GLONASS ---------------------------------------------------------------
GMU, GJ2, GRE, GWE = 3.9860044e14, 1.0826257e-3, 6378136.0, 7.292115e-5


def glo_deq(t, x, acc):
    X, Y, Z, VX, VY, VZ = x
    r2 = X*X+Y*Y+Z*Z
    r = math.sqrt(r2)
    k = GMU/(r2*r)
    j = 1.5*GJ2*GMU*GRE**2/(r2*r2*r)
    z2 = 5*Z*Z/r2
    ax = -k*X-j*X*(1-z2)+GWE**2*X+2*GWE*VY+acc[0]
    ay = -k*Y-j*Y*(1-z2)+GWE**2*Y-2*GWE*VX+acc[1]
    az = -k*Z-j*Z*(3-z2)+acc[2]
    return [VX, VY, VZ, ax, ay, az]


def geph_state(geph, t):
    from scipy.integrate import solve_ivp
    dt = tsub(t, geph.toe)
    x0 = np.r_[geph.pos, geph.vel].astype(float)
    if dt == 0:
        x = x0
    else:
        s = solve_ivp(glo_deq, (0, dt), x0, method='DOP853', rtol=1e-12,
                      atol=1e-6, args=(list(map(float, geph.acc)),))
        x = s.y[:, -1]
    return x[:3], x[3:], -geph.taun+geph.gamn*dt


# --- generators ------------------------------------------------------------
def gen_eph(r, sat, toe, mode=0, iode=None):
    """ realistic broadcast ephemeris; toe: GPST gtime """
    sys, prn = sat2prn(sat)
    sys = uGNSS(int(sys))
    e = Eph(sat)
    e.toe = toe
    e.mode = mode
    sec = toe.time-GPS0
    if sys == uGNSS.BDS:
        sec -= 14+1356*604800
    e.week, e.toes = sec//604800, float(sec % 604800)+toe.sec
    e.toc = timeadd(toe, r.choice([0, 0, 0, -3600, 600]))
    e.tot = timeadd(toe, -7200+r.randint(0, 3600))
    e.iode = r.randint(0, 255) if iode is None else iode
    e.iodc = e.iode
    geo = is_geo(sat)
    if sys in (uGNSS.GPS, uGNSS.GLO):
        A, inc, ecc = 26.56e6, 0.96, r.uniform(0, 0.03)
    elif sys == uGNSS.GAL:
        A, inc = 29.6e6, 0.98
        ecc = r.choice([r.uniform(0, 0.001), r.uniform(0, 0.03)])
    elif sys == uGNSS.BDS and not geo and r.random() < 0.6:
        A, inc, ecc = 27.906e6, 0.96, r.uniform(0, 0.01)
    elif sys == uGNSS.QZS:
        A, inc, ecc = 42.164e6, 0.71, r.uniform(0.03, 0.1)
    elif geo:
        A, inc, ecc = 42.164e6, r.uniform(0.0, 0.14), r.uniform(0, 0.002)
    else:
        A, inc, ecc = 42.164e6, 0.96, r.uniform(0, 0.01)
    e.A = A+r.uniform(-2e4, 2e4)
    e.e = ecc
    e.i0 = inc+r.uniform(-0.03, 0.03)
    e.M0 = r.uniform(-math.pi, math.pi)
    e.OMG0 = r.uniform(-math.pi, math.pi)
    e.omg = r.uniform(-math.pi, math.pi)
    e.OMGd = r.uniform(-9e-9, -5e-9) if not geo else r.uniform(-1e-8, 1e-8)
    e.idot = r.uniform(-5e-10, 5e-10)
    e.deln = r.uniform(-1e-9, 6e-9)
    e.crs, e.crc = r.uniform(-300, 300), r.uniform(-400, 400)
    e.cus, e.cuc = r.uniform(-2e-5, 2e-5), r.uniform(-2e-5, 2e-5)
    e.cis, e.cic = r.uniform(-3e-7, 3e-7), r.uniform(-3e-7, 3e-7)
    e.af0 = r.uniform(-9e-4, 9e-4)
    e.af1 = r.uniform(-1e-11, 1e-11)
    e.af2 = r.choice([0.0, r.uniform(-1e-18, 1e-18)])
    e.tgd, e.tgd_b = r.uniform(-3e-8, 3e-8), r.uniform(-3e-8, 3e-8)
    # CNAV terms are meaningless in mode 0 and must be ignored there
    e.Adot = r.uniform(-0.02, 0.02)
    e.delnd = r.uniform(-1e-13, 1e-13)
    e.svh = 0
    return e


def gen_geph(r, sat, toe, iode=None):
    g = Geph(sat)
    g.toe = toe
    g.tof = timeadd(toe, -600)
    g.frq = r.randint(-7, 6)
    g.iode = r.randint(1, 95) if iode is None else iode
    R = 25.51e6+r.uniform(-2e4, 2e4)
    i, O, u = 1.131+r.uniform(-.02, .02), r.uniform(0, 6.28), \
        r.uniform(0, 6.28)
    p = np.array([math.cos(u), math.sin(u)])
    P = np.array([math.cos(O), math.sin(O), 0])
    Q = np.array([-math.cos(i)*math.sin(O), math.cos(i)*math.cos(O),
                  math.sin(i)])
    V = math.sqrt(GMU/R)*(1+r.uniform(-1e-3, 1e-3))
    g.pos = R*(p[0]*P+p[1]*Q)
    v = V*(-p[1]*P+p[0]*Q)
    g.vel = v-np.cross([0, 0, GWE], g.pos)
    g.acc = np.array([r.choice([0, 1, -1, 2, -3])*9.3132257e-7
                      for _ in range(3)])
    g.taun = r.uniform(-5e-4, 5e-4)
    g.gamn = r.uniform(-3e-12, 3e-12)
    g.svh = 0
    return g
