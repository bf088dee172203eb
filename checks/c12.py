""" C12: antenna phase centre corrections """
from common import Check, snapshot
import math
import os
import numpy as np
from cssrlib.gnss import (uGNSS, Nav, prn2sat, sat2id, epoch2time, timeadd,
                          rSigRnx, gpst2utc)
from cssrlib.peph import (atxdec, searchpcv, antModelTx, antModelRx, apc2com,
                          orb2ecef, sunmoonpos)

chk = Check('C12', ['src/cssrlib/peph.py'],
            rule='ANTEX/NGS files of generated antennas (validity intervals, '
            'azimuth rows, missing signals, RMS sections) and random '
            'geometries; oracle is the vector geometry of the offset and the '
            'linearly interpolated variation; distinct by antenna kind, '
            'substitution and selection outcome')

BANDS = {uGNSS.GPS: ('G', 'GL', '125', 32), uGNSS.GLO: ('R', 'RL', '123', 24),
         uGNSS.GAL: ('E', 'EL', '15678', 30),
         uGNSS.BDS: ('C', 'CL', '125678', 50),
         uGNSS.QZS: ('J', 'JL', '1256', 7), uGNSS.IRN: ('I', 'IL', '59', 7),
         uGNSS.SBS: ('S', 'SL', '15', 10)}
ATT = {'G': {'1': 'CWP', '2': 'WLX', '5': 'QX'},
       'R': {'1': 'CP', '2': 'CP', '3': 'IX'},
       'E': {'1': 'CX', '5': 'QX', '6': 'CX', '7': 'QX', '8': 'QX'},
       'C': {'1': 'PX', '2': 'IX', '5': 'PX', '6': 'IX', '7': 'IZ',
             '8': 'PX'},
       'J': {'1': 'CX', '2': 'LX', '5': 'QX', '6': 'SX'},
       'I': {'5': 'AX', '9': 'AX'}, 'S': {'1': 'C', '5': 'IX'}}
# carrier frequencies in MHz of the interface documents
FRQ = {'G': {'1': 1575.42, '2': 1227.60, '5': 1176.45},
       'E': {'1': 1575.42, '5': 1176.45, '6': 1278.75, '7': 1207.14,
             '8': 1191.795},
       'C': {'1': 1575.42, '2': 1561.098, '5': 1176.45, '6': 1268.52,
             '7': 1207.14, '8': 1191.795},
       'J': {'1': 1575.42, '2': 1227.60, '5': 1176.45, '6': 1278.75}}
# substitution of a band without calibration
SUB_TX = {('G', '5'): ('G', '2'), ('R', '3'): ('R', '2'),
          ('C', '8'): ('C', '5')}
SUB_RX = {('G', '5'): ('G', '2'), ('R', '1'): ('G', '1'),
          ('R', '2'): ('G', '2'), ('R', '3'): ('G', '2'),
          ('E', '1'): ('G', '1'), ('E', '5'): ('G', '2'),
          ('E', '6'): ('G', '2'), ('E', '7'): ('G', '2'),
          ('E', '8'): ('G', '2'), ('C', '1'): ('G', '1'),
          ('C', '2'): ('G', '1'), ('C', '5'): ('G', '2'),
          ('C', '6'): ('G', '2'), ('C', '7'): ('G', '2'),
          ('C', '8'): ('G', '2'), ('J', '1'): ('G', '1'),
          ('J', '2'): ('G', '2'), ('J', '5'): ('G', '2'),
          ('J', '6'): ('G', '2'), ('I', '5'): ('G', '2'),
          ('S', '1'): ('G', '1'), ('S', '5'): ('G', '2')}


def lab(s, label):
    return f"{s:<60}{label}\n"


class Ant():
    pass


def gen_ant(c, typ, code, freqs, ts, te, z):
    r = c.rng
    a = Ant()
    a.typ, a.code, a.ts, a.te, a.zen = typ, code, ts, te, z
    a.off, a.var = {}, {}
    nv = int(round((z[1]-z[0])/z[2]))+1
    for f in freqs:
        h = r.choice([500, 500, 2500])
        a.off[f] = [round(r.uniform(-h, h), 2), round(
            r.uniform(-300, 300), 2), round(r.uniform(-500, 3000), 2)]
        a.var[f] = [round(r.uniform(-20, 20), 2) for _ in range(nv)]
    return a


def ts2s(e, c):
    return (f"  {e[0]:4d}{e[1]:6d}{e[2]:6d}{e[3]:6d}{e[4]:6d}{e[5]:13.7f}")


def put_ant(c, a, dazi):
    r = c.rng
    s = lab('', 'START OF ANTENNA')
    s += lab(f"{a.typ:<20}{a.code:<20}{'G063':<10}2011-036A",
             'TYPE / SERIAL NO')
    s += lab(f"{'':20}{'':20}{0:6d}    29-JAN-17", 'METH / BY / # / DATE')
    s += lab(f"  {dazi:6.1f}", 'DAZI')
    s += lab("  {:6.1f}{:6.1f}{:6.1f}".format(*a.zen), 'ZEN1 / ZEN2 / DZEN')
    s += lab(f"{len(a.off):6d}", '# OF FREQUENCIES')
    if a.ts:
        s += lab(ts2s(a.ts, c), 'VALID FROM')
    if a.te:
        s += lab(ts2s(a.te, c), 'VALID UNTIL')
    s += lab('IGS14_2247', 'SINEX CODE')
    if r.random() < .4:
        s += lab('NORTH / EAST / UP of a comment', 'COMMENT')
    for f in a.off:
        s += lab(f"   {f[0]}0{f[1]}", 'START OF FREQUENCY')
        s += lab("{:10.2f}{:10.2f}{:10.2f}".format(*a.off[f]),
                 'NORTH / EAST / UP')
        # surplus values of some files are ignored
        x = [99.99]*r.choice([0, 0, 0, 1, 2])
        s += '   NOAZI'+''.join(f"{x:8.2f}" for x in a.var[f]+x)+'\n'
        if dazi:
            for az in np.arange(0, 360.1, dazi):
                s += f"{az:8.1f}"+''.join(
                    f"{x+r.uniform(-3, 3):8.2f}" for x in a.var[f])+'\n'
        s += lab(f"   {f[0]}0{f[1]}", 'END OF FREQUENCY')
    if r.random() < .3:
        for f in a.off:
            s += lab(f"   {f[0]}0{f[1]}", 'START OF FREQ RMS')
            s += lab("{:10.2f}{:10.2f}{:10.2f}".format(9.9, 9.8, 9.7),
                     'NORTH / EAST / UP')
            s += '   NOAZI'+''.join(f"{.5:8.2f}" for x in a.var[f])+'\n'
            s += lab(f"   {f[0]}0{f[1]}", 'END OF FREQ RMS')
    s += lab('', 'END OF ANTENNA')
    return s


EP = [[2015, 3, 7, 0, 0, 0], [2018, 11, 30, 0, 0, 0], [2021, 3, 19, 0, 0, 0],
      [2024, 2, 29, 0, 0, 0]]
EU = [[2015, 3, 6, 23, 59, 59.9999999], [2018, 11, 29, 23, 59, 59.9999999],
      [2021, 3, 18, 23, 59, 59.9999999], [2024, 2, 28, 23, 59, 59.9999999]]


def gen_file(c, nsat=6, nrec=4):
    r = c.rng
    ants, recs = [], []
    sats = set()
    for _ in range(nsat):
        sys = r.choice(list(BANDS)[:5])
        ch, _, bands, n = BANDS[sys]
        sid = f"{ch}{r.randint(1, n):02d}"
        if sid in sats:
            continue
        sats.add(sid)
        k0 = r.randint(0, 2)
        k1 = r.randint(k0+1, 4)
        for k in range(k0, k1):
            if r.random() < .15:
                continue    # gap in the validity
            fr = [ch+b for b in bands if r.random() < .75] or [ch+bands[0]]
            z = r.choice([[0, 17, 1], [0, 14, 1], [0, 20, .5]])
            te = EU[k+1] if k < 3 and not (k == k1-1 and r.random() < .3) \
                else None
            ants.append(gen_ant(c, f"BLOCK {k}", sid, fr, EP[k], te, z))
            if te is None:
                break
    for j in range(nrec):
        fr = [f"G{b}" for b in '12']
        for sys in BANDS:
            ch, _, bands, n = BANDS[sys]
            fr += [ch+b for b in bands
                   if r.random() < .4 and ch+b not in fr]
        if r.random() < .2:
            fr.remove('G2')
        z = r.choice([[0, 90, 5], [0, 80, 5], [0, 90, 2.5]])
        recs.append(gen_ant(c, f"ANT{j:<13d}{r.choice(['NONE', 'SCIS'])}",
                            '', fr, None, None, z))
    blocks = [(a, put_ant(c, a, r.choice([0, 0, 30]))) for a in ants+recs]
    r.shuffle(blocks)
    s = lab('     1.4            M', 'ANTEX VERSION / SYST')
    s += lab('A', 'PCV TYPE / REFANT')+lab('', 'END OF HEADER')
    s += ''.join(b for _, b in blocks)
    path = os.path.join(c.tmp, 'a.atx')
    open(path, 'w').write(s)
    return path, ants, recs


def num(f, z, v):
    """ piecewise linear interpolation on the grid, constant outside """
    n = len(v)
    x = (f-z[0])/z[2]
    if x <= 0:
        return v[0]
    if x >= n-1:
        return v[-1]
    k = int(math.floor(x))
    return v[k]+(x-k)*(v[k+1]-v[k])


def key(e):
    return tuple(e)


def expected(ants, sid, ep):
    for a in ants:
        if a.code == sid and (a.ts is None or key(a.ts) <= key(ep)) and \
                (a.te is None or key(ep) <= key(a.te)):
            return a
    return None


def sat_of(sid):
    for sys, (ch, _, _, _) in BANDS.items():
        if ch == sid[0]:
            return prn2sat(sys, int(sid[1:])+(192 if ch == 'J' else 0)
                           + (119 if ch == 'S' else 0))


def frame(rs, rsun):
    ez = -rs/np.linalg.norm(rs)
    es = (rsun-rs)/np.linalg.norm(rsun-rs)
    ey = np.cross(ez, es)
    ey /= np.linalg.norm(ey)
    return np.cross(ey, ez), ey, ez


def geometry(c):
    rng = c.np
    d = rng.normal(size=3)
    rs = d/np.linalg.norm(d)*rng.uniform(2.4e7, 4.3e7)
    while True:
        q = rng.normal(size=3)
        rr = q/np.linalg.norm(q)*6.37e6
        e = rs-rr
        e /= np.linalg.norm(e)
        if e@rr > 0 or c.rng.random() < .1:
            break
    if c.rng.random() < .1:
        rr = rs/np.linalg.norm(rs)*6.37e6   # satellite at the zenith
        e = (rs-rr)/np.linalg.norm(rs-rr)
    d = rng.normal(size=3)
    rsun = d/np.linalg.norm(d)*1.496e11
    return rs, rr, e, rsun


def rsig(f, c=None, typ='L'):
    if c is None:
        return rSigRnx(f[0]+typ+f[1])
    return rSigRnx(f[0]+c.rng.choice('CL')+f[1]+c.rng.choice(
        ATT[f[0]][f[1]]))


@chk.case(120, 4000, minseen=6)
def files(c):
    """ antennas of a file are the ones of the generating data """
    r = c.rng
    path, ants, recs = gen_file(c)
    atx = atxdec()
    atx.readpcv(path)
    c.eq(len(atx.pcvs), len(ants), 'count.sat', 'satellite antennas')
    c.eq(len(atx.pcvr), len(recs), 'count.rec', 'receiver antennas')
    sids = sorted({a.code for a in ants})
    probe = [[2014, 1, 1, 0, 0, 0], [2030, 6, 1, 12, 0, 0]]
    for e, u in zip(EP, EU):
        probe += [e, [e[0], e[1], e[2], 0, 0, 30.0],
                  [u[0], u[1], u[2], 23, 59, 59.5],
                  [u[0], u[1], u[2], 23, 59, 30.0],
                  [e[0]+1, 1, 15, 3, 4, 5.0]]
    for sid in sids+['G32', 'C20']:
        for ep in probe:
            a = expected(ants, sid, ep)
            p = searchpcv(atx.pcvs, sat_of(sid), epoch2time(ep))
            if a is None:
                c.ok(p is None, 'validity', f"{sid} {ep}: antenna found")
                c.seen('none', sid[0])
                continue
            if not c.ok(p is not None, 'validity',
                        f"{sid} {ep}: no antenna, file has {a.ts}-{a.te}"):
                continue
            compare(c, p, a, True)
            c.seen('sat', sid[0], a.te is None, a.zen[2])
    for a in recs:
        p = searchpcv(atx.pcvr, a.typ.ljust(20), epoch2time(EP[1]))
        if c.ok(p is not None, 'rec', f"no antenna {a.typ}"):
            compare(c, p, a, False)
            c.seen('rec', a.zen[2], a.zen[1])
    c.ok(searchpcv(atx.pcvr, 'OTHER'.ljust(20), epoch2time(EP[1])) is None,
         'rec.none')
    atx = atxdec()
    atx.readpcv(path, onlyReceiver=True)
    c.eq((len(atx.pcvs), len(atx.pcvr)), (0, len(recs)), 'onlyreceiver')


def compare(c, p, a, sat):
    for f in a.off:
        s = rsig(f)
        if not c.ok(s in p.off and s in p.var, 'freq',
                    f"{a.typ} {a.code} frequency {f} missing"):
            continue
        o = a.off[f] if sat else [a.off[f][1], a.off[f][0], a.off[f][2]]
        c.close(p.off[s], o, 1e-9, 'off', f"offset {a.code} {f}")
        c.close(p.var[s], a.var[f], 1e-9, 'var', f"variation {a.code} {f}")
    c.close(p.zen, a.zen, 0, 'zen')


@chk.case(60, 2500, minseen=8)
def model_tx(c):
    """ transmit antenna correction along the line of sight """
    r = c.rng
    path, ants, recs = gen_file(c, 8, 1)
    atx = atxdec()
    atx.readpcv(path)
    nav = Nav()
    nav.sat_ant = atx.pcvs
    for _ in range(25):
        a = r.choice(ants) if ants else None
        if a is None:
            return
        sid = a.code
        ep = r.choice(EP+[[2016, 5, 5, 1, 2, 3.0], [2022, 1, 2, 3, 4, 5.]])
        a = expected(ants, sid, ep)
        rs, rr, e, rsun = geometry(c)
        nav.rsun = rsun
        ch, _, bands, _ = BANDS[next(s for s in BANDS
                                     if BANDS[s][0] == sid[0])]
        fl = [ch+r.choice(bands) for _ in range(3)]
        sigs = [rsig(f, c) for f in fl]
        sat = sat_of(sid)
        t = epoch2time(ep)

        def sub(f):
            if f in a.off:
                return f
            s = SUB_TX.get((f[0], f[1]))
            s = s[0]+s[1] if s else f
            return s if s in a.off else None

        sig0 = None
        f0 = []
        if r.random() < .6 and ch in FRQ:
            b = [x for x in bands if x in FRQ[ch]]
            f0 = [ch+x for x in r.sample(b, r.choice([1, 2]))]
            if len(f0) == 2 and f0[0] == f0[1]:
                f0 = f0[:1]
            sig0 = [rsig(f, c) for f in f0]
        before = snapshot([nav.sat_ant, rs, e, rsun])
        d = antModelTx(nav, e, sigs, sat, t, rs, sig0)
        c.ok(snapshot([nav.sat_ant, rs, e, rsun]) == before, 'mutation',
             'antenna data or geometry altered')
        if a is None:
            c.ok(d is None, 'tx.none', 'correction without valid antenna')
            c.seen('none')
            continue
        ex, ey, ez = frame(rs, rsun)
        nadir = math.degrees(math.atan2(np.linalg.norm(np.cross(ez, -e)),
                                        -(ez@e)))

        def ecef(o):
            return o[0]*ex+o[1]*ey+o[2]*ez
        ref = np.zeros(3)
        if f0:
            w = [1.0]
            if len(f0) == 2:
                g = [FRQ[x[0]][x[1]]**2 for x in f0]
                w = [g[0]/(g[0]-g[1]), -g[1]/(g[0]-g[1])]
            for w_, f in zip(w, f0):
                q = sub(f)
                ref = ref+w_*ecef(a.off[q]) if q else ref*np.nan
        exp = []
        for f in fl:
            q = sub(f)
            if q is None:
                exp.append(np.nan)
                continue
            exp.append((e@(ecef(a.off[q])-ref)+num(nadir, a.zen, a.var[q]))
                       * 1e-3)
            c.seen(f[0], 'sub' if q != f else 'direct', len(f0))
        c.close(d, exp, 2e-7, 'tx', f"{sid} {fl} ref {f0} nadir {nadir}")
        c.sample(f"{sid} {fl} nadir {nadir:.2f} -> {d}")


@chk.case(60, 2500, minseen=8)
def model_rx(c):
    """ receive antenna correction """
    r = c.rng
    path, ants, recs = gen_file(c, 1, 4)
    atx = atxdec()
    atx.readpcv(path)
    nav = Nav()
    t = epoch2time([2022, 3, 4, 0, 0, 0])
    for _ in range(25):
        a, b = r.choice(recs), r.choice(recs)
        nav.rcv_ant = searchpcv(atx.pcvr, a.typ.ljust(20), t)
        nav.rcv_ant_b = searchpcv(atx.pcvr, b.typ.ljust(20), t)
        lat = math.asin(r.uniform(-1, 1))
        lon = r.uniform(-math.pi, math.pi)
        pos = np.array([lat, lon, r.uniform(-100, 3000)])
        el = math.asin(r.uniform(-.2, 1))
        if r.random() < .1:
            el = math.pi/2
        az = r.uniform(-math.pi, math.pi)
        enu = np.array([math.cos(el)*math.sin(az), math.cos(el)*math.cos(az),
                        math.sin(el)])
        E = np.array([-math.sin(lon), math.cos(lon), 0])
        N = np.array([-math.sin(lat)*math.cos(lon),
                      -math.sin(lat)*math.sin(lon), math.cos(lat)])
        Uv = np.array([math.cos(lat)*math.cos(lon),
                       math.cos(lat)*math.sin(lon), math.sin(lat)])
        e = enu[0]*E+enu[1]*N+enu[2]*Uv
        fl = []
        for _ in range(4):
            sys = r.choice(list(BANDS))
            fl.append(BANDS[sys][0]+r.choice(BANDS[sys][2]))
        sigs = [rsig(f, c) for f in fl]
        rt = r.choice([0, 1])
        x = a if rt == 1 else b
        before = snapshot([atx.pcvr, pos, e])
        d = antModelRx(nav, pos, e, sigs, rt)
        c.ok(snapshot([atx.pcvr, pos, e]) == before, 'mutation')
        exp = []
        zen = math.degrees(math.pi/2-el)
        for f in fl:
            q = f
            if q not in x.off:
                q = ''.join(SUB_RX.get((f[0], f[1]), ('?', '?')))
            if q not in x.off:
                exp.append(np.nan)
                c.seen('missing', f)
                continue
            o = x.off[q]
            exp.append((-(o[1]*enu[0]+o[0]*enu[1]+o[2]*enu[2])
                        + num(zen, x.zen, x.var[q]))*1e-3)
            c.seen('sub' if q != f else 'direct', f, rt)
        c.close(d, exp, 2e-7, 'rx', f"{x.typ} {fl} el {math.degrees(el)}")


@chk.case(40, 1500, minseen=4)
def com(c):
    """ antenna phase centre to centre of mass conversion """
    r = c.rng
    path, ants, recs = gen_file(c, 8, 1)
    atx = atxdec()
    atx.readpcv(path)
    nav = Nav()
    nav.sat_ant = atx.pcvs
    import ephem
    for _ in range(10):
        if not ants:
            return
        sid = r.choice(ants).code
        if sid[0] not in FRQ:
            continue
        ep = [r.randint(2015, 2026), r.randint(1, 12), r.randint(1, 28),
              r.randint(0, 23), r.randint(0, 59), r.uniform(0, 59)]
        a = expected(ants, sid, ep)
        t = epoch2time(ep)
        rs, _, _, _ = geometry(c)
        if a is not None:
            bands = [x for x in FRQ[sid[0]] if sid[0]+x in a.off]
            if not bands:
                continue
        else:
            bands = list(FRQ[sid[0]])
        fl = r.sample(bands, min(len(bands), r.choice([1, 2])))
        sigs = [rsig(sid[0]+b, c) for b in fl]
        d = apc2com(nav, sat_of(sid), t, rs, sigs)
        if a is None:
            c.ok(d is None, 'com.none')
            c.seen('none')
            continue
        # direction of the Sun from an independent ephemeris
        leap = 18 if ep[0] >= 2017 else 17 if (ep[0], ep[1]) >= (2015, 7) \
            else 16
        dt = ephem.Date(tuple(ep[:5])+(ep[5],))
        dt = ephem.Date(dt-leap/86400)
        s = ephem.Sun(dt, epoch=dt)
        ob = ephem.Observer()
        ob.lon, ob.lat, ob.date = '0', '0', dt
        gst = float(ob.sidereal_time())
        ra, de = float(s.g_ra), float(s.g_dec)
        D = s.earth_distance*1.495978707e11
        rsun = D*np.array([math.cos(de)*math.cos(ra-gst),
                           math.cos(de)*math.sin(ra-gst), math.sin(de)])
        ex, ey, ez = frame(rs, rsun)
        sn = np.linalg.norm(np.cross(ez, rsun))/D
        w = [1.0]
        if len(fl) == 2:
            g = [FRQ[sid[0]][x]**2 for x in fl]
            w = [g[0]/(g[0]-g[1]), -g[1]/(g[0]-g[1])]
        exp = np.zeros(3)
        mag = 0
        for w_, b in zip(w, fl):
            o = a.off[sid[0]+b]
            exp -= w_*(o[0]*ex+o[1]*ey+o[2]*ez)*1e-3
            mag += abs(w_)*math.hypot(o[0], o[1])*1e-3
        c.close(d, exp, 1e-6+mag*4e-4/max(sn, 1e-4), 'com', f"{sid} {fl}")
        c.seen(sid[0], len(fl))


@chk.case(30, 800, minseen=2)
def ngs(c):
    """ NGS antenna file """
    r = c.rng
    s = ''
    if r.random() < .5:
        s += f"{'header':<61}|\n"*r.randint(1, 4)
    L = []
    for k in range(r.randint(1, 6)):
        o = [[round(r.uniform(-9, 200), 1) for _ in range(3)]
             for _ in range(2)]
        v = [[round(r.uniform(-9, 9), 1) for _ in range(19)]
             for _ in range(2)]
        s += f"{'AOA'+str(k):<20}{'description':<30}NGS ( 3) 99/12/31\n"
        for j in range(2):
            s += "   {:7.1f}   {:7.1f}   {:7.1f}\n".format(*o[j])
            s += ' '+''.join(f"{x:6.1f}" for x in v[j][:10])+'\n'
            s += ' '+''.join(f"{x:6.1f}" for x in v[j][10:])+'\n'
        L.append((f"{'AOA'+str(k):<20}", o, v))
    path = os.path.join(c.tmp, 'n.pcv')
    open(path, 'w').write(s)
    atx = atxdec()
    atx.readngspcv(path)
    c.eq(len(atx.pcvr), len(L), 'ngs.count')
    for n, o, v in L:
        p = searchpcv(atx.pcvr, n, epoch2time([2020, 1, 1, 0, 0, 0]))
        if not c.ok(p is not None, 'ngs.type', n):
            continue
        for j, b in enumerate('12'):
            q = rSigRnx('GL'+b)
            c.close(p.off[q], [o[j][1], o[j][0], o[j][2]], 1e-9, 'ngs.off')
            c.close(p.var[q], v[j], 1e-9, 'ngs.var')
        c.seen(len(L))


@chk.case(60, 2000, minseen=1)
def attitude(c):
    """ nominal yaw attitude frame """
    rs, rr, e, rsun = geometry(c)
    A = orb2ecef(epoch2time([2020, 1, 1, 0, 0, 0]), rs, rsun)
    c.close(A, np.array(frame(rs, rsun)), 1e-9, 'frame')
    c.close(A@A.T, np.eye(3), 1e-9, 'orthonormal')
    c.close(np.linalg.det(A), 1.0, 1e-9, 'right-handed')
    c.ok(A[0]@rsun > -1e-3*1.5e11, 'sun in +x')
    c.seen('f')
