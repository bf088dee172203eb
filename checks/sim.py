"""
Simulator of multi-GNSS observations, independent of the positioning code:
constellations of broadcast ephemerides (ref_orbit), exact light-time solution
in an inertial frame, published atmosphere models (ref_atm).
"""
import math
import numpy as np
from cssrlib.gnss import (uGNSS, Eph, Geph, Nav, Obs, rSigRnx, uTYP, prn2sat,
                          sat2prn, gtime_t, timeadd, uIonoModel)
import ref_orbit as ro
import ref_atm as ra

CL = 299792458.0
WE = 7.2921151467e-5
RE, FE = 6378137.0, 1/298.257223563

# system: (letter, first prn, planes, per plane, A, inc)
CONST = {'G': (uGNSS.GPS, 1, 6, 5, 26.56e6, 0.96),
         'E': (uGNSS.GAL, 1, 3, 9, 29.6e6, 0.978),
         'C': (uGNSS.BDS, 19, 3, 8, 27.906e6, 0.96),
         'R': (uGNSS.GLO, 1, 3, 8, 25.51e6, 1.131),
         'J': (uGNSS.QZS, 193, 3, 1, 42.164e6, 0.71)}
MUG = 3.986005e14


def llh(rr):
    """ geodetic latitude, longitude, height """
    p = math.hypot(rr[0], rr[1])
    e2 = FE*(2-FE)
    lat = math.atan2(rr[2], p*(1-e2))
    for _ in range(10):
        N = RE/math.sqrt(1-e2*math.sin(lat)**2)
        lat = math.atan2(rr[2]+e2*N*math.sin(lat), p)
    N = RE/math.sqrt(1-e2*math.sin(lat)**2)
    h = p*math.cos(lat)+rr[2]*math.sin(lat)-RE*RE/N
    return np.array([lat, math.atan2(rr[1], rr[0]), h])


def xyz(lat, lon, h):
    e2 = FE*(2-FE)
    N = RE/math.sqrt(1-e2*math.sin(lat)**2)
    return np.array([(N+h)*math.cos(lat)*math.cos(lon),
                     (N+h)*math.cos(lat)*math.sin(lon),
                     (N*(1-e2)+h)*math.sin(lat)])


def enu_axes(lat, lon):
    return np.array([[-math.sin(lon), math.cos(lon), 0],
                     [-math.sin(lat)*math.cos(lon),
                      -math.sin(lat)*math.sin(lon), math.cos(lat)],
                     [math.cos(lat)*math.cos(lon),
                      math.cos(lat)*math.sin(lon), math.sin(lat)]])


def doy_of(t):
    import datetime
    d = datetime.datetime(1970, 1, 1)+datetime.timedelta(seconds=int(t.time))
    d0 = datetime.datetime(d.year, 1, 1)
    return (d-d0).total_seconds()/86400+1+t.sec/86400


class World:
    def __init__(self, c, t0, systems='GE', toe_off=None):
        """ t0: GPST centre of the simulated span """
        r = c.rng
        self.t0 = t0
        self.eph, self.geph = {}, {}
        self._glo = {}
        self.cache = {}
        for s in systems:
            sys, prn, npl, ns, A, inc = CONST[s]
            O0, m0 = r.uniform(0, 6.28), r.uniform(0, 6.28)
            for k in range(npl*ns):
                pl, j = k//ns, k % ns
                sat = prn2sat(sys, prn+k)
                step = 3600 if s != 'E' else 600
                toe = gtime_t(t0.time//step*step, 0.0)
                if s == 'C':
                    toe = timeadd(toe, 14.0)
                if s == 'R':
                    g = ro.gen_geph(r, sat, gtime_t(t0.time//900*900, 0.0))
                    i, O = inc, O0+pl*2*math.pi/npl
                    u = m0+j*2*math.pi/ns+pl*.26
                    P = np.array([math.cos(O), math.sin(O), 0])
                    Q = np.array([-math.cos(i)*math.sin(O),
                                  math.cos(i)*math.cos(O), math.sin(i)])
                    V = math.sqrt(ro.GMU/A)
                    g.pos = A*(math.cos(u)*P+math.sin(u)*Q)
                    g.vel = V*(-math.sin(u)*P+math.cos(u)*Q) - \
                        np.cross([0, 0, ro.GWE], g.pos)
                    g.frq = (k*5) % 14-7
                    self.geph[sat] = g
                    continue
                e = ro.gen_eph(r, sat, toe)
                e.toc = toe
                e.A, e.i0 = A+r.uniform(-1e4, 1e4), inc+r.uniform(-.02, .02)
                e.omg = r.uniform(-3, 3)
                e.M0 = m0+j*2*math.pi/ns+pl*.4+r.uniform(-.1, .1)-e.omg
                e.OMG0 = O0+pl*2*math.pi/npl+WE*e.toes
                self.eph[sat] = e

    def sats(self):
        return sorted(list(self.eph)+list(self.geph))

    def nav(self, nf=2, sats=None):
        n = Nav(nf=nf)
        n.eph = [e for s, e in self.eph.items() if sats is None or s in sats]
        n.geph = [e for s, e in self.geph.items() if sats is None or s in sats]
        n.glo_ch = {s: g.frq for s, g in self.geph.items()}
        return n

    def state(self, sat, t):
        """ ECEF position, clock offset incl. relativity [s] """
        if sat in self.geph:
            g = self.geph[sat]
            if sat not in self._glo:
                from scipy.integrate import solve_ivp
                self._glo[sat] = [solve_ivp(
                    ro.glo_deq, (0, s*1800), np.r_[g.pos, g.vel],
                    method='DOP853', rtol=1e-12, atol=1e-6,
                    dense_output=True,
                    args=(list(map(float, g.acc)),)).sol for s in (-1, 1)]
            dt = ro.tsub(t, g.toe)
            x = self._glo[sat][1 if dt >= 0 else 0](dt)
            return x[:3], -g.taun+g.gamn*dt
        e = self.eph[sat]
        let = ro.LET[uGNSS(int(sat2prn(sat)[0]))]
        p = ro.pos_at(e, let, ro.is_geo(sat), ro.tsub(t, e.toe))
        dc = ro.tsub(t, e.toc)
        n = math.sqrt(ro.MU[let]/e.A**3)+e.deln
        E = ro.kepler(e.M0+n*ro.tsub(t, e.toe), e.e)
        rel = -2*math.sqrt(ro.MU[let]*e.A)*e.e*math.sin(E)/CL**2
        return p, e.af0+e.af1*dc+e.af2*dc*dc+rel

    def geom(self, sat, tag, rr, dtr):
        """ range [m], satellite clock [s], unit vector, azimuth, elevation,
        satellite position in the frame of the reception """
        tr = timeadd(tag, -dtr)
        tau = 0.075
        for _ in range(6):
            rs, clk = self.state(sat, timeadd(tr, -tau))
            a = WE*tau
            x = np.array([math.cos(a)*rs[0]+math.sin(a)*rs[1],
                          -math.sin(a)*rs[0]+math.cos(a)*rs[1], rs[2]])
            rho = np.linalg.norm(x-rr)
            if abs(rho/CL-tau) < 1e-13:
                break
            tau = rho/CL
        e = (x-rr)/rho
        pos = llh(rr)
        v = enu_axes(pos[0], pos[1])@e
        return rho, clk, e, math.atan2(v[0], v[1]), math.asin(v[2]), x


def frequency(sat, band, ch=0):
    sys = uGNSS(int(sat2prn(sat)[0]))
    f = {uGNSS.GPS: {1: 1575.42, 2: 1227.6, 5: 1176.45},
         uGNSS.QZS: {1: 1575.42, 2: 1227.6, 5: 1176.45},
         uGNSS.GAL: {1: 1575.42, 5: 1176.45, 7: 1207.14, 6: 1278.75},
         uGNSS.BDS: {1: 1575.42, 2: 1561.098, 5: 1176.45, 6: 1268.52},
         uGNSS.GLO: {1: 1602+ch*.5625, 2: 1246+ch*.4375}}
    return f[sys][band]*1e6


class Rx:
    """ simulated receiver """

    def __init__(self, c, world, codes, mask=8, amb=True):
        """ codes: {'G': ['1C', '2W'], ...} """
        self.c, self.w, self.codes, self.mask = c, world, codes, mask
        self.nf = len(next(iter(codes.values())))
        self.N = {}
        self.amb = amb
        self.sig = {}
        for s, cs in codes.items():
            sys = CONST[s][0]
            self.sig[sys] = {
                uTYP.C: [rSigRnx(s+'C'+x) for x in cs],
                uTYP.L: [rSigRnx(s+'L'+x) for x in cs],
                uTYP.S: [rSigRnx(s+'S'+x) for x in cs]}

    def observe(self, tag, rr, dtr, trop=None, iono=None, shapiro=False,
                tide=None, cbias=None, pbias=None, sp=0.0, sl=0.0, drop=(),
                ref=None, tgd=False):
        """
        trop(t, llh, el) [m], iono(t, llh, az, el, sat) [m on L1]
        cbias/pbias(sat, code) [m]; sp/sl noise [m]
        returns Obs and dictionary of geometry
        """
        r, g = self.c.rng, self.c.np
        w = self.w
        x = rr if tide is None else rr+tide
        pos = llh(x)
        sat, P, L, S, lli = [], [], [], [], []
        info = {}
        for s in w.sats():
            let = ro.LET[uGNSS(int(sat2prn(s)[0]))]
            if let not in self.codes or s in drop:
                continue
            rho, clk, e, az, el, xs = w.geom(s, tag, x, dtr)
            if el < math.radians(self.mask):
                continue
            d = rho+CL*(dtr-clk)
            if shapiro:
                a, b = np.linalg.norm(xs), np.linalg.norm(x)
                d += 2*3.986004418e14/CL**2*math.log((a+b+rho)/(a+b-rho))
            if trop is not None:
                d += trop(tag, pos, el)
            i1 = iono(tag, pos, az, el, s) if iono is not None else 0.0
            pr, cp = [], []
            for k, code in enumerate(self.codes[let]):
                ch = w.geph[s].frq if s in w.geph else 0
                f = frequency(s, int(code[0]), ch)
                lam = CL/f
                ik = i1*(1575.42e6/f)**2
                if (s, k) not in self.N:
                    self.N[s, k] = r.randint(-2*10**6, 2*10**6) if self.amb \
                        else 0
                p = d+ik+(cbias(s, code) if cbias else 0)
                if tgd and s in w.eph:
                    p += CL*w.eph[s].tgd
                q = d-ik+(pbias(s, code) if pbias else 0)
                p += g.normal()*sp if sp else 0
                q += g.normal()*sl if sl else 0
                pr.append(p)
                cp.append(q/lam+self.N[s, k])
            sat.append(s)
            P.append(pr)
            L.append(cp)
            S.append([45.0]*self.nf)
            lli.append([0]*self.nf)
            info[s] = dict(rho=rho, clk=clk, e=e, az=az, el=el, i1=i1, xs=xs)
        o = Obs()
        o.t = gtime_t(tag.time, tag.sec)
        o.sat = np.array(sat, dtype=int)
        sh = (len(sat), self.nf)
        o.P, o.L = np.reshape(P, sh), np.reshape(L, sh)
        o.S, o.D = np.reshape(S, sh), np.zeros(sh)
        o.lli = np.array(lli, dtype=int).reshape(sh)
        o.sig = self.sig
        return o, info


def trop_mops(t, pos, el):
    h, q = ra.mops(doy_of(t), math.degrees(pos[0]), pos[2])
    return (h+q)*ra.mops_map(el)


def trop_saast(t, pos, el):
    h, q = ra.saast(pos[0], pos[2], .7)
    m = ra.niell(doy_of(t), pos[0], pos[2], el)
    return h*m[0]+q*m[1]


def iono_klob(ion):
    def f(t, pos, az, el, sat):
        tow = (t.time-ro.GPS0) % 604800+t.sec
        return ra.klobuchar(tow, pos[0], pos[1], az, el, ion[0], ion[1])
    return f
