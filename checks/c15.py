""" C15: atmospheric models """
from common import Check, snapshot
import math
import numpy as np
import ref_atm as ra
from cssrlib.gnss import (Nav, epoch2time, time2gpst, tropmodel, tropmapf,
                          ionppp, uTropoModel, uIonoModel, timeadd)
from cssrlib.pntpos import ionmodel

chk = Check('C15', ['src/cssrlib/gnss.py', 'src/cssrlib/pntpos.py'],
            rule='random and boundary epochs, sites, heights, directions and '
            'broadcast coefficients; reference models typed in from RTCA '
            'DO-229, Niell (1996), Saastamoinen and IS-GPS-200; pierce points '
            'by ray/sphere intersection; distinct by model and regime')


def site(c):
    r = c.rng
    lat = r.choice([math.asin(r.uniform(-1, 1)), 0.0,
                    math.radians(r.choice([15, 30, 45, 60, 75, -15, -30, -45,
                                           -60, -75, 89.9, -89.9]))])
    return np.array([lat, r.uniform(-math.pi, math.pi),
                     r.choice([0.0, r.uniform(-400, 9000), 12000.0])])


def epoch(c):
    r = c.rng
    ep = [r.randint(2000, 2038), r.randint(1, 12), r.randint(1, 28),
          r.randint(0, 23), r.randint(0, 59), r.uniform(0, 59.99)]
    if r.random() < .1:
        ep[1:3] = r.choice([[1, 1], [12, 31], [2, 29 if ep[0] % 4 == 0
                                               else 28]])
    dm = [31, 29 if ep[0] % 4 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31,
          30, 31]
    doy = sum(dm[:ep[1]-1])+ep[2]+(ep[3]*3600+ep[4]*60+ep[5])/86400
    return ep, doy


@chk.case(600, 30000, minseen=8)
def tropo(c):
    r = c.rng
    pos = site(c)
    ep, doy = epoch(c)
    t = epoch2time(ep)
    el = r.choice([math.asin(r.uniform(0.02, 1)), math.pi/2,
                   math.radians(5), math.radians(10)])
    humi = r.choice([0.7, r.random()])
    snap = snapshot(pos)
    d, w, z = tropmodel(t, pos, el, humi, uTropoModel.SAAST)
    h, q = ra.saast(pos[0], pos[2], humi)
    c.close([d, w], [h, q], 1e-9, 'saast', f"{pos} {humi}")
    c.close(z, math.pi/2-el, 1e-12, 'zenith')
    mh, mw = tropmapf(t, pos, el, uTropoModel.SAAST)
    c.close([mh, mw], list(ra.niell(doy, pos[0], pos[2], el)), 1e-9,
            'niell', f"{ep} {pos} {el}")
    d0, w0, _ = tropmodel(t, pos)
    c.close([d0, w0], list(ra.saast(pos[0], pos[2], .7)), 1e-9, 'default')
    hs, ws = ra.mops(doy, math.degrees(pos[0]), pos[2])
    m = ra.mops_map(el)
    d, w, _ = tropmodel(t, pos, el, model=uTropoModel.SBAS)
    c.close([d, w], [hs*m, ws*m], 1e-8, 'mops', f"{ep} {pos} {el}")
    c.close(tropmapf(t, pos, el, uTropoModel.SBAS), [m, m], 1e-9, 'mopsmap')
    d, w, _ = tropmodel(t, pos, el, model=uTropoModel.HOPF)
    kd = 77.6e-6/5*1010*(148.98-613.3768/291.1)
    kw = 77.6e-6/5*11000*4810*10.4/291.1**2
    c.close([d, w], [kd, kw], 1e-6, 'hopfield')
    e_ = math.degrees(el)
    c.close(tropmapf(t, pos, el, uTropoModel.HOPF),
            [1/math.sin(math.radians(math.sqrt(e_*e_+6.25))),
             1/math.sin(math.radians(math.sqrt(e_*e_+2.25)))], 1e-9,
            'hopfieldmap')
    c.close(tropmodel(t, pos, el, model=uTropoModel.NONE), [0, 0, 0], 0,
            'none')
    c.close(tropmapf(t, pos, el, uTropoModel.NONE), [0, 0], 0, 'nonemap')
    if el <= 0 or pos[2] > 2e4:
        c.ok(False, 'x')
    c.close(tropmapf(t, pos, -0.1, uTropoModel.SAAST), [0, 0], 0, 'below')
    c.ok(snapshot(pos) == snap, 'mutation')
    c.seen('N' if pos[0] >= 0 else 'S', int(abs(math.degrees(pos[0]))//15))
    c.sample(f"{ep[:3]} {pos} el {e_:.1f}: {hs*m+ws*m:.3f} m")


@chk.case(800, 30000, minseen=4)
def iono(c):
    r = c.rng
    pos = site(c)
    ep, _ = epoch(c)
    t = epoch2time(ep)
    nav = Nav()
    if r.random() < .1:
        ion = np.zeros((2, 4))
    else:
        ion = np.array([[r.uniform(-3e-8, 3e-8), r.uniform(-3e-8, 3e-8),
                         r.uniform(-2e-7, 2e-7), r.uniform(-4e-7, 4e-7)],
                        [r.uniform(4e4, 1.6e5), r.uniform(-2e5, 2e5),
                         r.uniform(-3e5, 3e5), r.uniform(-8e5, 8e5)]])
    nav.ion = ion
    az, el = r.uniform(-math.pi, math.pi), math.radians(r.uniform(1, 90))
    snap = snapshot([ion, pos])
    v = ionmodel(t, pos, az, el, nav, uIonoModel.KLOBUCHAR)
    _, tow = time2gpst(t)
    d = (math.floor(((epoch2time(ep).time-315964800) % 604800))+ep[5]
         - int(ep[5]))
    ref = ra.klobuchar(d, pos[0], pos[1], az, el, ion[0], ion[1])
    # the cosine expansion is cut at |x| = 1.57
    c.close(v, ref, 1e-6, 'klobuchar', f"{ep} {pos} {az} {el} {ion}")
    c.close(ionmodel(t, pos, az, el, nav, uIonoModel.NONE), 0, 0, 'none')
    c.close(ionmodel(t, pos, az, el, nav, uIonoModel.SBAS, None), ref, 1e-6,
            'fallback')
    c.ok(snapshot([ion, pos]) == snap, 'mutation')
    c.seen(ref < 1.5*ra.C*5e-9*(1+16*(.53-el/math.pi)**3), el < .5)


@chk.case(800, 40000, minseen=6)
def pierce(c):
    """ pierce point of the ray from the site through the shell """
    r = c.rng
    pos = site(c)
    if r.random() < .3:
        pos[0] = math.radians(r.uniform(65, 89.5))*r.choice([-1, 1])
    az, el = r.uniform(-math.pi, 2*math.pi), math.radians(r.uniform(0.5, 90))
    re, h = r.choice([(6378.1363, 350.0), (6378136.3, 350e3),
                      (6371.0, 450.0)])
    sf, p = ionppp(pos, az, el, re, h)
    lat, lon = pos[0], pos[1]
    U = np.array([math.cos(lat)*math.cos(lon), math.cos(lat)*math.sin(lon),
                  math.sin(lat)])
    E = np.array([-math.sin(lon), math.cos(lon), 0])
    N = np.cross(U, E)
    d = math.cos(el)*(math.sin(az)*E+math.cos(az)*N)+math.sin(el)*U
    b = re*(U@d)
    s = -b+math.sqrt(b*b+(re+h)**2-re**2)
    x = (re*U+s*d)/(re+h)
    g = np.array([math.cos(p[0])*math.cos(p[1]),
                  math.cos(p[0])*math.sin(p[1]), math.sin(p[0])])
    c.close(g, x, 1e-7, 'ipp', f"{pos} az {az} el {el}")
    # obliquity: inverse cosine of the zenith angle at the pierce point
    c.close(sf, 1/(d@x), 1e-9, 'slant', rtol=1e-9)
    c.seen(int(abs(lat)*180/math.pi//30), el < .3, math.cos(az) > 0)
