""" C36: RTCM SSR messages that are encoded """
from common import Check
from bits import BW, rs, ru, rtcm3
import math
import numpy as np
from cssrlib.gnss import (gpst2time, sat2id, id2sat, uGNSS, uTYP, rSigRnx,
                          timediff)
from cssrlib.cssrlib import sCType, local_corr
from cssrlib.rtcm import rtcm, rtcme, rtcmUtil
from c23 import SIG, TST, TPB, NS, ura

chk = Check('C36', ['src/cssrlib/rtcm.py', 'src/cssrlib/cssrlib.py'],
            rule='random correction stores of several systems encoded into '
            'every supported message; expected frame built bit by bit, and '
            'decoded again; distinct by message, system and option')

SYS = {'G': uGNSS.GPS, 'R': uGNSS.GLO, 'E': uGNSS.GAL, 'J': uGNSS.QZS,
       'S': uGNSS.SBS, 'C': uGNSS.BDS}
GPS = (1057, 1058, 1059, 1060, 1061, 1062)
KIND = ('orb', 'clk', 'cb', 'oc', 'ura', 'hclk')
CT = dict(orb=sCType.ORBIT, clk=sCType.CLOCK, cb=sCType.CBIAS,
          oc=sCType.OC, ura=sCType.URA, hclk=sCType.HCLOCK, pb=sCType.PBIAS)


def sid(sy, k):
    return f"{sy}{k:02d}"


def sbits(sy):
    return 4 if sy == 'J' else 6


def off(c, v, s):
    """ value that is rounded to v units of s """
    return (v+c.rng.uniform(-.45, .45))*s


def frame(enc):
    """ what an application does to send the message """
    msg = bytearray(1100)
    i = enc.encode(msg)
    n = (i+7)//8-3
    enc.set_sync(msg, 0)
    enc.set_len(msg, 0, n)
    enc.set_checksum(msg, 0)
    return bytes(msg[:n+6])


def new_encoder(c, nlc=1):
    r = c.rng
    enc = rtcme()
    enc.lc = [local_corr() for _ in range(nlc)]
    enc.inet = 0
    enc.tow = r.randrange(604800)
    enc.iodssr, enc.pid, enc.sid = ru(r, 4), ru(r, 16), ru(r, 4)
    enc.datum, enc.mi = ru(r, 1), bool(ru(r, 1))
    enc.udi = np.array([ru(r, 4) for _ in range(int(sCType.MAX))])
    enc.iyaw, enc.iexpb = bool(ru(r, 1)), ru(r, 4)
    return enc


def new_decoder(c, enc):
    dec = rtcm()
    dec.monlevel = 0
    dec.week = c.rng.randint(1931, 2600)
    dec.time = gpst2time(dec.week, enc.tow)
    return dec


def head(w, enc, mt, ct):
    w.u(12, mt).u(20, enc.tow).u(4, int(enc.udi[ct])).u(1, enc.mi)
    if ct in (sCType.ORBIT, sCType.OC):
        w.u(1, enc.datum)
    return w.u(4, enc.iodssr).u(16, enc.pid).u(4, enc.sid)


@chk.case(2500, 40000, cpu=60, minseen=30)
def corrections(c):
    """ orbits, clocks, biases, accuracies """
    r = c.rng
    enc = new_encoder(c)
    lc = enc.lc[0]
    for a in ('dorb', 'ddorb', 'dclk', 'ddclk', 'dddclk', 'iode', 'ura',
              'hclk', 'cbias', 'pbias', 'yaw', 'dyaw', 'si', 'di', 'wl'):
        setattr(lc, a, {})
    sset = r.sample('GECJ', r.choice([1, 2, 4]))
    V = {}  # integers of satellites
    cap = dict(orb=25, clk=40, oc=20, cb=20, pb=14)
    sats = {}
    order = []
    lim = r.choice(list(cap.values()))
    for sy in sset:
        n = min(NS[sy], lim, r.choice([0, 1, 5, 40]))
        sats[sy] = [sid(sy, k) for k in r.sample(range(1, NS[sy]+1), n)]
        if sy == 'J':
            sats[sy] = [f"J{k:02d}" for k in r.sample(range(1, 11), min(
                n, 10))]
        order += sats[sy]
    r.shuffle(order)
    enc.sat_n = [id2sat(s) for s in order]
    vel = r.random() < .8
    if not vel:
        lc.ddorb = lc.ddclk = lc.dddclk = None
    nohclk = r.random() < .1
    if nohclk:
        lc.hclk = None
    some = {k: r.choice([1, 1, .5]) for k in ('ura', 'cb', 'pb')}
    for s in order:
        sat, v = id2sat(s), {}
        V[s] = v
        iod = ru(r, 10 if s[0] == 'E' else 8)
        o = [rs(r, n) for n in (22, 20, 20, 21, 19, 19)]
        k = [rs(r, n) for n in (22, 21, 27)]
        h = rs(r, 22)
        sc = (1e-4, 4e-4, 4e-4, 1e-6, 4e-6, 4e-6)
        lc.iode[sat] = iod
        f = [off(c, x, q) for x, q in zip(o, sc)]
        g = [off(c, x, q) for x, q in zip(k, (1e-4, 1e-6, 2e-8))]
        if r.random() < .05:
            j = r.randrange(3)
            o[j], f[j] = None, math.nan
        if r.random() < .05:
            k[0], g[0] = None, math.nan
        lc.dorb[sat] = np.array(f[:3])
        lc.dclk[sat] = g[0]
        if vel:
            lc.ddorb[sat] = np.array(f[3:])
            lc.ddclk[sat], lc.dddclk[sat] = g[1], g[2]
        else:
            o[3:] = [0, 0, 0]
            k[1:] = [0, 0]
        hf = off(c, h, 1e-4)
        if nohclk:
            h = 0
        else:
            if r.random() < .05:
                h, hf = None, math.nan
            lc.hclk[sat] = hf
        v.update(orb=(iod, o), clk=k, hclk=h)
        if r.random() < some['ura']:
            a, b = ru(r, 3), ru(r, 3)
            if (a, b) == (7, 7):
                b = 6
            lc.ura[sat] = ura(a, b)
            v['ura'] = (a, b)
        for kd, ty in (('cb', 'C'), ('pb', 'L')):
            if r.random() >= some[kd]:
                continue
            q = r.sample(sorted(SIG[s[0]]), min(len(SIG[s[0]]), r.choice(
                [0, 1, 2, 4])))
            x, d = [], {}
            if kd == 'pb':
                lc.si[sat], lc.di[sat], lc.wl[sat] = {}, {}, {}
            for j in q:
                sg = rSigRnx(s[0]+ty+SIG[s[0]][j])
                if kd == 'cb':
                    y = rs(r, 14)
                    d[sg] = off(c, y, .01)
                    if r.random() < .03:
                        y, d[sg] = -(1 << 13), math.nan
                    x.append((j, y))
                else:
                    y, i_, di = rs(r, 20), ru(r, 1), ru(r, 4)
                    d[sg] = off(c, y, 1e-4)
                    lc.si[sat][sg], lc.di[sat][sg] = i_, di
                    x.append((j, i_, di, y))
            v[kd] = x
            if kd == 'cb':
                lc.cbias[sat] = d
            else:
                lc.pbias[sat] = d
                yy, dy = ru(r, 9), rs(r, 8)
                if r.random() < .9:
                    lc.yaw[sat], lc.dyaw[sat] = yy/256., dy/8192.
                else:
                    yy = dy = 0
                v['yaw'] = (yy, dy)
    kinds = ['orb', 'clk', 'cb', 'oc', 'ura', 'hclk', 'pb']
    for _ in range(6):
        sy, kd = r.choice(sset), r.choice(kinds)
        if sy == 'C' and kd == 'orb':  # number of the BDS ephemeris
            continue
        if len(sats[sy]) > cap.get(kd, 40):
            continue
        if kd == 'pb':
            mt = TPB[sy]
        else:
            mt = GPS[KIND.index(kd)] if sy == 'G' else \
                TST[sy][KIND.index(kd)]
        tag = f"{mt} {sy} {kd}"
        w = head(BW(), enc, mt, CT[kd])
        if kd == 'pb':
            w.u(1, enc.iyaw).u(4, enc.iexpb)
        if kd in ('ura', 'cb', 'pb'):
            d = dict(ura=lc.ura, cb=lc.cbias, pb=lc.pbias)[kd]
            lst = [sat2id(x) for x in d if sat2id(x)[0] == sy]
        else:
            lst = [s for s in order if s[0] == sy]
        w.u(6, len(lst))
        for s in lst:
            v = V[s]
            w.u(sbits(sy), int(s[1:]))
            if kd in ('orb', 'oc'):
                iod, o = v['orb']
                w.u(10 if sy == 'E' else 8, iod)
                for n, x in zip((22, 20, 20, 21, 19, 19), o):
                    w.s(n, -(1 << (n-1)) if x is None else x)
            if kd in ('clk', 'oc'):
                for n, x in zip((22, 21, 27), v['clk']):
                    w.s(n, -(1 << (n-1)) if x is None else x)
            if kd == 'hclk':
                w.s(22, -(1 << 21) if v['hclk'] is None else v['hclk'])
            if kd == 'ura':
                w.u(3, v['ura'][0]).u(3, v['ura'][1])
            if kd == 'cb':
                w.u(5, len(v['cb']))
                for j, y in v['cb']:
                    w.u(5, j).s(14, y)
            if kd == 'pb':
                w.u(5, len(v['pb']))
                if enc.iyaw:
                    w.u(9, v['yaw'][0]).s(8, v['yaw'][1])
                for j, i_, di, y in v['pb']:
                    w.u(5, j).u(1, i_).u(4, di).s(20, y)
        enc.msgtype = mt
        f = frame(enc)
        exp = rtcm3(w.bytes())
        c.eq(len(f), len(exp), 'length', tag)
        c.ok(f == exp, 'bits', lambda: f"{tag}: {f.hex()} {exp.hex()}")
        dec = new_decoder(c, enc)
        c.ok(dec.checksum(f, 0), 'frame', tag)
        dec.decode(f)
        c.ok(abs(timediff(dec.time, gpst2time(dec.week, enc.tow))) < 1e-6,
             'epoch', tag)
        D = dec.lc[0]
        c.eq((dec.iodssr, dec.pid, dec.sid), (enc.iodssr, enc.pid, enc.sid),
             'header', tag)
        for a, b, t in dict(
                orb=[('dorb', 'dorb', 2.1e-4), ('iode', 'iode', 0)],
                clk=[('dclk', 'dclk', .51e-4)], hclk=[
                    ('hclk', 'hclk', .51e-4)],
                oc=[('dorb', 'dorb', 2.1e-4), ('dclk', 'dclk', .51e-4)],
                ura=[('ura', 'ura', 1e-6)], cb=[('cbias', 'cbias', .0051)],
                pb=[('pbias', 'pbias', .51e-4)])[kd]:
            x, y = getattr(D, a), getattr(lc, b)
            if y is None:
                continue
            y = {sat2id(k): q for k, q in y.items() if sat2id(k)[0] == sy}
            x = {sat2id(k): q for k, q in (x or {}).items()}
            c.eq(set(x), set(y), 'decoded-set', tag)
            for s in y:
                if s not in x:
                    continue
                if isinstance(y[s], dict):
                    c.eq({k.str() for k in x[s]}, {k.str() for k in y[s]},
                         'decoded-signals', f"{tag} {s}")
                    for k in y[s]:
                        c.close(x[s].get(k, 1e9), y[s][k], t, 'decoded',
                                f"{tag} {s}")
                else:
                    c.close(x[s], y[s], t, 'decoded', f"{tag} {s}")
        c.seen(sy, kd)
        if kd == 'pb':
            c.seen('yaw', enc.iyaw)
        if not vel:
            c.seen('no-rates', kd)
    c.sample(f"{sset} {len(order)} satellites")


@chk.case(800, 15000, cpu=60, minseen=6)
def trop(c):
    """ regional troposphere """
    r = c.rng
    enc = new_encoder(c, 32)
    gid = r.randrange(1, 32)
    enc.gid, enc.msgtype = gid, 95
    lc = enc.lc[gid]
    rmi = r.randrange(2)
    lc.flg_trop = rmi | r.choice([0, 2])
    nb = (11, 9, 9, 13, 6, 5)
    sc = (2.5e-7, 5e-6, 2e-4, 1e-6, 2.5e-5, 2e-3)
    b0 = (.00118, .00298, .0682, .000104, .0015, .048)
    m = [rs(r, n) for n in nb]
    lc.maph = np.array([b0[j]+off(c, m[j], sc[j]) for j in range(3)])
    lc.mapw = np.array([b0[j]+off(c, m[j], sc[j]) for j in range(3, 6)])
    t = [rs(r, n) for n in (13, 15, 15)*2]
    lc.ct = np.zeros((2, 4))
    for k, z in ((0, 2.3), (1, .252)):
        lc.ct[k, 0] = z+off(c, t[3*k], 1e-4)
        lc.ct[k, 2] = off(c, t[3*k+1], 1e-5)   # west-east
        lc.ct[k, 1] = off(c, t[3*k+2], 1e-5)   # south-north
    n, mm = r.choice([(0, 14), (9, 9), (14, 0), (15, 15), (2, 2)])
    ng, ofst = r.randint(1, 30), r.choice([0, 0, 1, 20])
    enc.nlen, enc.mlen = n, mm
    lc.ng, lc.ofst = ng, ofst
    dh = [rs(r, n) if n else 0 for _ in range(ofst+ng)]
    dw = [rs(r, mm) if mm else 0 for _ in range(ofst+ng)]
    lc.dth = np.array([off(c, x, 1e-4) for x in dh])
    lc.dtw = np.array([off(c, x, 1e-4) for x in dw])
    w = head(BW(), enc, 95, sCType.TROP).u(10, gid).u(1, rmi)
    w.add('s11 s9 s9 s13 s6 s5', *m).add('s13 s15 s15 s13 s15 s15', *t)
    if rmi:
        w.u(12, ofst).u(12, ng).u(4, n).u(4, mm)
        for k in range(ofst, ofst+ng):
            if n:
                w.s(n, dh[k])
            if mm:
                w.s(mm, dw[k])
    f, exp = frame(enc), rtcm3(w.bytes())
    tag = f"95 rmi {rmi} {n}/{mm}"
    c.ok(f == exp, 'bits', lambda: f"{tag}: {f.hex()} {exp.hex()}")
    dec = new_decoder(c, enc)
    c.ok(dec.checksum(f, 0), 'frame', tag)
    dec.decode(f)
    D = dec.lc[gid]
    c.close(D.maph, [b0[j]+m[j]*sc[j] for j in range(3)], 1e-12, 'mapping',
            tag)
    c.close(D.mapw, [b0[j]+m[j]*sc[j] for j in range(3, 6)], 1e-12,
            'mapping', tag)
    for k, z in ((0, 2.3), (1, .252)):
        c.close(D.ct[k, :3], [z+t[3*k]*1e-4, t[3*k+2]*1e-5, t[3*k+1]*1e-5],
                1e-9, 'zenith', tag)
    if rmi:
        c.eq((D.ng, D.ofst), (ng, ofst), 'grid', tag)
        if n:
            c.close(D.dth[ofst:], np.array(dh[ofst:])*1e-4, 1e-9,
                    'hydrostatic', tag)
        if mm:
            c.close(D.dtw[ofst:], np.array(dw[ofst:])*1e-4, 1e-9, 'wet', tag)
    c.seen('trop', rmi, n, mm)
    c.sample(tag)


GDT = [('nid', 'i4'), ('gid', 'i4'), ('lat', 'f8'), ('lon', 'f8'),
       ('alt', 'f8')]


def points(c, nid, n):
    """ grid points with arbitrary digits, less than 4 deg apart """
    r = c.rng
    p = [[r.uniform(-80, 80), r.uniform(-170, 170), r.uniform(0, 3000)]]
    for _ in range(n-1):
        q = p[-1]
        p.append([min(85, max(-85, q[0]+r.uniform(-3.9, 3.9))),
                  min(179, max(-179, q[1]+r.uniform(-3.9, 3.9))),
                  min(4000, max(-500, q[2]+r.uniform(-3000, 3000)))])
    if r.random() < .3:
        p = [[round(x[0], 2), round(x[1], 2), x[2]] for x in p]
    return np.array([(nid, k+1, *x) for k, x in enumerate(p)], dtype=GDT)


@chk.case(800, 15000, cpu=60, minseen=2)
def grid(c):
    """ grid definition and metadata """
    r = c.rng
    enc = new_encoder(c)
    gid, ty = r.randrange(1, 32), r.choice([0, 1])
    n = r.choice([1, 2, 12, 60])
    enc.msgtype, enc.gid, enc.gtype = 61, gid, ty
    enc.ofst = r.choice([0, 1, 40])
    G = points(c, gid, n)
    enc.grid = np.concatenate([points(c, 33, 3), G, points(c, 34, 2)])
    tag = f"61 type {ty} points {n} offset {enc.ofst}"
    f = frame(enc)
    c.eq(len(f), 6+(12+30+(67+36*(n-1) if ty == 0 else 57+27*(n-1))+7)//8,
         'length', tag)
    dec = new_decoder(c, enc)
    c.ok(dec.checksum(f, 0), 'frame', tag)
    dec.decode(f)
    c.eq((dec.pid, bool(dec.mi), dec.gid, dec.gtype),
         (enc.pid, bool(enc.mi), gid, ty), 'header', tag)
    c.eq(len(dec.grid), n, 'points', tag)
    if len(dec.grid) == n:
        c.close(dec.grid['lat'], G['lat'], .00051, 'latitude', tag)
        c.close(dec.grid['lon'], G['lon'], .00051, 'longitude', tag)
        if ty == 0:
            c.close(dec.grid['alt'], G['alt'], 6.26, 'height', tag)
        c.eq(list(dec.grid['gid']), [enc.ofst+k for k in range(n)],
             'numbering', tag)
        c.ok((dec.grid['nid'] == gid).all(), 'network', tag)
    # bits of an independent message
    w = BW().u(12, 61).u(16, enc.pid).u(1, enc.mi).u(10, gid).u(3, ty)
    la, lo, al = (r.randint(-60000, 60000), r.randint(-100000, 100000),
                  r.randint(100, 300))
    w.s(18, la).s(19, lo)
    if ty == 0:
        w.u(10, al)
    m = r.choice([0, 1, 5, 20])
    w.u(12, enc.ofst).u(8, m)
    P = [(la, lo, al)]
    for _ in range(m):
        d = (r.randint(-800, 800), r.randint(-1500, 1500), r.randint(-8, 8))
        w.s(13, d[0]).s(14, d[1])
        if ty == 0:
            w.s(9, d[2])
        P.append(tuple(a+b for a, b in zip(P[-1], d)))
    dec = new_decoder(c, enc)
    f2 = rtcm3(w.bytes())
    dec.decode(f2)
    c.eq(len(dec.grid), m+1, 'points', tag)
    for k, (a, b, h) in enumerate(P[:len(dec.grid)]):
        c.close(list(dec.grid[k])[2:4], [a*1e-3, b*1e-3], 1e-7, 'point', tag)
        if ty == 0:
            c.close(dec.grid[k]['alt'], h*12.5-1000, 1e-6, 'point-height',
                    tag)
    # the decoded grid encodes into the same message
    if m:
        enc.grid = dec.grid
        f = frame(enc)
        c.ok(f == f2, 'bits', lambda: f"{tag}: {f.hex()} {f2.hex()}")
    # metadata without entries
    enc.msgtype = 60
    f = frame(enc)
    exp = rtcm3(BW().u(12, 60).u(4, enc.iodssr).u(16, enc.pid).u(
        4, enc.sid).u(5, 0).u(7, 0).bytes())
    c.ok(f == exp, 'metadata', lambda: f"{f.hex()} {exp.hex()}")
    dec.decode(f)
    c.eq((dec.iodssr, dec.pid, dec.sid, dec.nm), (enc.iodssr, enc.pid,
                                                  enc.sid, 0), 'metadata')
    c.seen('grid', ty)
    c.sample(tag)


@chk.case(800, 15000, cpu=60, minseen=15)
def iono(c):
    """ regional ionosphere """
    r = c.rng
    enc = new_encoder(c, 32)
    sy = r.choice('GECJ')
    mt = 96+'GRECJ'.index(sy)  # no GLONASS
    gid = r.randrange(1, 32)
    enc.gid = enc.inet = gid
    enc.msgtype = mt
    lc = enc.lc[gid]
    pmi, rmi = r.choice([(1, 1), (1, 1), (1, 0), (0, 1)])
    lc.flg_stec = pmi*2+rmi
    nc = r.choice([1, 3, 6])
    G = points(c, gid, r.choice([2, 8, 14]))
    for g in G:  # regional
        g['lat'], g['lon'] = G[0]['lat']+r.uniform(-1, 1), \
            G[0]['lon']+r.uniform(-1, 1)
    enc.grid = np.concatenate([points(c, 33, 3), G])
    ng = r.randint(1, len(G))
    ofst = r.choice([0, len(G)-ng])
    lc.ng, lc.ofst = ng, ofst
    lc.ci, lc.stype, lc.dstec = {}, {}, {}
    n = min(NS[sy], r.choice([1, 3, 8]))
    own = r.sample(range(1, min(NS[sy], 10 if sy == 'J' else 64)+1), n)
    oth = r.sample(range(1, 10), 3)
    osy = 'E' if sy == 'G' else 'G'
    names = [(sid(sy, k)) for k in own]+[sid(osy, k) for k in oth]
    r.shuffle(names)
    C = {}
    for s in names:
        sat = id2sat(s)
        ty = 0 if nc == 1 else r.choice([1, 1, 0]) if nc == 3 else \
            r.randrange(4)
        v = [rs(r, 15), rs(r, 14), rs(r, 14)]
        if ty == 0:
            v[1] = v[2] = 0
        ci = np.zeros(nc)
        ci[0] = off(c, v[0], .01)
        if nc > 1 and ty > 0:
            ci[1], ci[2] = off(c, v[1], 1e-3), off(c, v[2], 1e-3)
        if ty >= 2:
            ci[3] = r.choice([r.uniform(-10, 10), 0])
        if ty == 3:
            ci[4], ci[5] = r.uniform(-.6, .6), r.uniform(-.6, .6)
        lc.ci[sat], lc.stype[sat] = ci, ty
        lc.dstec[sat] = np.array([r.uniform(-50, 50) for _ in G])
        C[s] = (v, ty)
    f = frame(enc)
    tag = f"{mt} pmi {pmi} rmi {rmi} coefs {nc}"
    dec = new_decoder(c, enc)
    c.ok(dec.checksum(f, 0), 'frame', tag)
    dec.decode(f)
    D = dec.lc[gid]
    own = [sid(sy, k) for k in sorted(own)]
    c.eq([sat2id(x) for x in D.sat_n], own, 'satellites', tag)
    pgi = max(C[s][1] for s in own) > 0
    w = head(BW(), enc, mt, sCType.STEC).u(10, gid).u(1, pmi).u(1, rmi)
    m = 0
    for s in own:
        m |= 1 << (64-int(s[1:]))
    w.u(64, m)
    if pmi:
        w.u(1, pgi)
        for s in own:
            w.s(17, C[s][0][0])
            if pgi:
                w.s(18, C[s][0][1]).s(18, C[s][0][2])
    if not rmi:
        exp = rtcm3(w.bytes())
        c.ok(f == exp, 'bits', lambda: f"{tag}: {f.hex()} {exp.hex()}")
    else:
        k = w.n//8
        exp = w.bytes()
        c.ok(f[3:3+k] == exp[:k], 'bits', tag)
    if pmi:
        for s in own:
            x = {sat2id(k): q for k, q in D.ci.items()}.get(s, np.full(
                3, 1e9))
            c.close(x[0], C[s][0][0]*.01, 1e-9, 'coefficient', tag)
            if pgi:
                c.close(x[1:3], np.array(C[s][0][1:])*1e-3, 1e-9,
                        'gradient', tag)
    if rmi:
        c.eq((D.ng, D.ofst), (ng, ofst), 'grid', tag)
        for s in own:
            sat = id2sat(s)
            ci = lc.ci[sat]
            x = {sat2id(k): q for k, q in D.dstec.items()}.get(s)
            if not c.ok(x is not None and len(x) == ofst+ng, 'residuals',
                        tag):
                continue
            for j in range(ofst, ofst+ng):
                a, b = G[j]['lat']-G[0]['lat'], G[j]['lon']-G[0]['lon']
                e = lc.dstec[sat][j]
                if nc == 6:
                    e += ci[3]*a*b+ci[4]*a*a+ci[5]*b*b
                c.close(x[j], e, .00101, 'residual', f"{tag} {s}")
    c.seen('iono', sy, pmi, rmi, nc)
    c.sample(tag)


@chk.case(1, 1, cpu=60)
def numbers(c):
    """ message numbers """
    u = rtcmUtil()
    k = {}
    for mt in list(range(41, 101))+list(range(1057, 1069)) + \
            list(range(1240, 1271)):
        if mt not in u.ssrtype_t:
            continue
        s, t = u.mt2sct(mt)
        c.eq(u.get_ssr_sys(mt), s, 'system', f"{mt}")
        k.setdefault((s, t), []).append(mt)
    for (s, t), v in k.items():
        c.ok(u.sct2mt(t, s) in v, 'number', f"{s} {t}")
    b = dict(G=1057, R=1063, E=1240, J=1246, S=1252, C=1258)
    for sy, m in b.items():
        for j, ct in enumerate((sCType.ORBIT, sCType.CLOCK, sCType.CBIAS,
                                sCType.OC, sCType.URA, sCType.HCLOCK)):
            c.eq(u.mt2sct(m+j), (SYS[sy], ct), 'type', f"{m+j}")
    for sy in TST:
        for m, ct in zip(TST[sy], (sCType.ORBIT, sCType.CLOCK, sCType.CBIAS,
                                   sCType.OC, sCType.URA, sCType.HCLOCK)):
            if m:
                c.eq(u.mt2sct(m), (SYS[sy], ct), 'type', f"{m}")
    for sy, m in TPB.items():
        c.eq(u.mt2sct(m), (SYS[sy], sCType.PBIAS), 'type', f"{m}")
    c.seen('numbers')
    c.sample('message numbers')
