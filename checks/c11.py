""" C11: precise orbit and clock products """
from common import Check, snapshot
import math
import os
import numpy as np
from cssrlib.gnss import (uGNSS, Nav, prn2sat, sat2id, epoch2time, timediff,
                          timeadd, time2epoch, Obs, rSigRnx, uTYP, uSIG,
                          Eph, Geph, sat2prn)
from cssrlib.peph import peph
from cssrlib.rinex import rnxdec
from cssrlib.ephemeris import satpos, satposs
from datetime import datetime, timedelta

chk = Check('C11', ['src/cssrlib/peph.py', 'src/cssrlib/rinex.py',
                    'src/cssrlib/ephemeris.py'],
            rule='SP3 and Clock-RINEX files of simulated Kepler orbits written '
            'by an independent formatter (c/d, P/V, gaps, missing clocks and '
            'orbits, prediction and accuracy flags, unknown satellites), '
            'interpolation against the analytic orbit; distinct by version, '
            'flags and outcome')

CL = 299792458.0
OM = 7.2921151467e-5
MU = 3.986005e14
SYS = [(uGNSS.GPS, 32), (uGNSS.GAL, 36), (uGNSS.BDS, 58), (uGNSS.GLO, 27),
       (uGNSS.QZS, 9)]
U = datetime(1970, 1, 1)


class Sim():
    def __init__(self, r):
        self.A = r.uniform(2.55e7, 3.0e7)
        self.e = r.uniform(0, 0.02)
        self.i, self.O, self.w, self.M = (r.uniform(0.6, 1.1),
                                          *(r.uniform(0, 6.28)
                                            for _ in range(3)))
        self.c0, self.c1 = r.choice([-1, 1])*r.uniform(1e-6, 5e-4), \
            r.uniform(-1e-11, 1e-11)
        self.n = math.sqrt(MU/self.A**3)

    def pos(self, t):
        M = self.M+self.n*t
        E = M
        for _ in range(30):
            E = M+self.e*math.sin(E)
        x = self.A*(math.cos(E)-self.e)
        y = self.A*math.sqrt(1-self.e**2)*math.sin(E)
        cw, sw, ci, si = (math.cos(self.w), math.sin(self.w),
                          math.cos(self.i), math.sin(self.i))
        X, Y = cw*x-sw*y, sw*x+cw*y
        Z, Y = si*Y, ci*Y
        o = self.O-OM*t
        co, so = math.cos(o), math.sin(o)
        return np.array([co*X-so*Y, so*X+co*Y, Z])

    def vel(self, t):
        return (self.pos(t+.5)-self.pos(t-.5))

    def clk(self, t):
        return self.c0+self.c1*t


def sp3line(d):
    return '%04d %2d %2d %2d %2d %11.8f' % (d.year, d.month, d.day, d.hour,
                                            d.minute, d.second)


def head(r, d0, n, dt, sats, acc, ver, flag, base):
    out = ['#%s%s%s %7d ORBIT IGS14 HLM  IGS\n' % (ver, flag, sp3line(d0), n)]
    w = (d0-datetime(1980, 1, 6)).total_seconds()
    out.append('## %4d %15.8f %14.8f %5d %15.13f\n' % (
        w//604800, w % 604800, dt, 44244+w//86400, w % 86400/86400))
    rows = max(5, -(-len(sats)//17)) if ver == 'd' else 5
    for k in range(rows):
        ids = [sat2id(s) for s in sats[17*k:17*k+17]]
        ids += ['  0']*(17-len(ids))
        out.append('+ %s   %s\n' % ('%4d' % len(sats) if k == 0 else '    ',
                                    ''.join(ids)))
    for k in range(rows):
        a = [('%3d' % x) for x in acc[17*k:17*k+17]]
        out.append('++       %s\n' % ''.join(a+['  0']*(17-len(a))))
    out.append('%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n')
    out.append('%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n')
    out.append('%%f %10.7f %12.9f %14.11f %18.15f\n' % (*base, 0, 0))
    out.append('%f  0.0000000  0.000000000  0.00000000000  0.000000000000000\n')
    out.append('%i    0    0    0    0      0      0      0      0         0\n')
    out.append('%i    0    0    0    0      0      0      0      0         0\n')
    for _ in range(r.choice([1, 4])):
        out.append('/* COMMENT P *  #\n')
    return out


def gen(r, tmp):
    nsat = r.choice([1, 3, 16, 17, 18, 34, 40]*3+[85, 86, 110])
    sats = set()
    while len(sats) < nsat:
        s, hi = r.choice(SYS)
        sats.add(prn2sat(s, r.randint(1, hi)+(192 if s == uGNSS.QZS else 0)))
    sats = sorted(sats)
    if r.random() < .5:
        r.shuffle(sats)
    sims = {s: Sim(r) for s in sats}
    ver = r.choice('cd') if nsat <= 85 else 'd'
    flag = r.choice('PPV')
    base = r.choice([(1.25, 1.025), (0.0, 0.0), (2.0, 1.05)])
    dt = r.choice([300.0, 300.0, 900.0])
    n = r.randint(11, 20)
    d0 = datetime(r.randint(2005, 2079), r.randint(1, 12), r.randint(1, 28)) \
        + timedelta(seconds=r.choice([0, 0, 300*r.randint(0, 287)]))
    acc = [r.randint(0, 20) for _ in sats]
    out = head(r, d0, n, dt, sats, acc, ver, flag, base)
    nodes = {}
    missing = {}
    for k in range(n):
        d = d0+timedelta(seconds=dt*k)
        out.append('*  '+sp3line(d)+'\n')
        for s in sats:
            p, c = sims[s].pos(dt*k)/1e3, sims[s].clk(dt*k)*1e6
            if r.random() < .003:
                p = np.zeros(3)
            if r.random() < .01:
                c = 999999.999999
            ln = 'P%3s%14.6f%14.6f%14.6f%14.6f' % (sat2id(s), *p, c)
            ex = [r.randint(0, 30) if r.random() < .8 else None
                  for _ in range(3)]
            ec = r.randint(0, 300) if r.random() < .8 else None
            f = [r.random() < .15 for _ in range(4)]
            full = ln+''.join('   ' if x is None else ' %2d' % x for x in ex)
            full += '    ' if ec is None else ' %3d' % ec
            full += ' '+('E' if f[0] else ' ')+('P' if f[1] else ' ')+'  ' \
                + ('M' if f[2] else ' ')+('P' if f[3] else ' ')
            if r.random() < .7:
                ln = full if r.random() < .5 else full.rstrip()
                hasf = True
            else:
                ex, ec, f, hasf = [None]*3, None, [False]*4, False
            if len(ln) < 73:
                ex, ec = [None]*3, None
            out.append(ln+'\n')
            nodes[k, s] = (np.array([float('%14.6f' % x)*1e3 for x in p]),
                           None if c > 999999 else float('%14.6f' % c)*1e-6,
                           ex, ec, f[1], f[3])
            if flag == 'V':
                v = sims[s].vel(dt*k)*10.0
                out.append('V%3s%14.6f%14.6f%14.6f%14.6f\n' % (
                    sat2id(s), *v, 999999.999999))
    out.append('EOF\n')
    path = os.path.join(tmp, 'o.sp3')
    with open(path, 'w') as fh:
        fh.write(''.join(out))
    return path, sats, sims, d0, dt, n, acc, ver, flag, base, nodes


def tt(d, s=0.0):
    return timeadd(epoch2time([d.year, d.month, d.day, d.hour, d.minute,
                               d.second]), s)


@chk.case(120, 3000, minseen=10)
def sp3(c):
    r = c.rng
    path, sats, sims, d0, dt, n, acc, ver, flag, base, nodes = gen(r, c.tmp)
    opt = r.choice([0, 0, 0, 1, 2])
    nav = Nav()
    sp = peph()
    sp.parse_sp3(path, nav, opt)
    if opt == 0:
        if not c.eq((nav.ne, len(nav.peph)), (n, n), 'epochs'):
            return
    c.eq((sp.nsat, [int(x) for x in sp.sat], [int(x) for x in sp.acc]),
         (len(sats), sats, acc), 'satellite list')
    c.ok(abs(timediff(sp.t0, tt(d0))) < 1e-6, 'start', '')
    c.seen(ver, flag, opt, base[0] > 0, len(sats), dt)
    by = {}
    for e in nav.peph:
        by[round(timediff(e.time, tt(d0))/dt)] = e
        c.ok(abs(timediff(e.time, tt(d0)) % dt) < 1e-6, 'epoch time', '')
    for (k, s), (p, ck, ex, ec, pc, po) in nodes.items():
        if k not in by:
            continue
        e = by[k]
        useo = not (opt == 1 and po or opt == 2 and not po)
        usec = not (opt == 1 and pc or opt == 2 and not pc)
        if useo and p.any():
            c.close(e.pos[s-1, :3], p, 1e-6, 'orbit', f"{k} {s}")
        elif not useo:
            c.ok(np.isnan(e.pos[s-1, :3]).all(), 'excluded orbit', '')
        if ck is not None and usec:
            c.close(e.pos[s-1, 3], ck, 1e-15, 'clock', f"{k} {s}")
        else:
            c.ok(np.isnan(e.pos[s-1, 3]), 'missing clock', '')
        sd = [0 if x is None or base[0] <= 0 or x == 0 else
              base[0]**x*1e-3 for x in ex]
        sd.append(0 if ec is None or base[1] <= 0 or ec == 0 else
                  base[1]**ec*1e-12)
        c.close(e.std[s-1], sd, 1e-15, 'accuracy', f"{k} {s}", rtol=1e-12)
        if flag == 'V' and opt == 0 and p.any():
            c.close(e.vel[s-1, :3], sims[s].vel(dt*k), 1e-4, 'velocity', '')
    c.sample(f"{ver}{flag} {len(sats)} satellites {n} epochs")
    if opt:
        return
    # interpolation
    s0 = snapshot([e.pos for e in nav.peph])
    lim = 1e-3 if dt == 300 else 0.03
    ok = dict()
    for _ in range(25):
        s = r.choice(sats)
        T = r.choice([r.uniform(0, dt*(n-1)), dt*r.randrange(n),
                      r.uniform(dt*4, dt*(n-5)), -950.0, dt*(n-1)+950.0,
                      dt*(n-1)+899.99, dt*(n-1)+900.0-5e-4, -500.0])
        rs, dts, var = sp.peph2pos(tt(d0, T), s, nav, True)
        if T < -900 or T > dt*(n-1)+900:
            c.ok(rs is None and dts is None, 'outside validity', f"{T}")
            c.seen('outside')
            continue
        # a node without orbit within the window
        k0 = min(max(int(T//dt), 0), n-2)
        win = range(max(0, min(k0-6, n-11)), min(n, max(k0+8, 11)))
        core = range(max(0, k0), min(n, k0+2))
        bad = [k for k in win if not nodes[k, s][0].any()]
        if bad:
            if any(k in core for k in bad):
                c.ok(rs is None, 'missing orbit interpolated', f"{T}")
                c.seen('missing')
            continue
        if T < 0 or T > dt*(n-1):
            if T > dt*(n-1)+900-1e-3:
                c.ok(rs is None, 'outside validity', f"{T}")
            c.seen('extrapolated')
            continue
        if not c.ok(rs is not None, 'no result', f"{T}"):
            continue
        edge = T < 3*dt or T > dt*(n-4)
        q = lim*(30 if edge else 1)
        c.close(rs[:3], sims[s].pos(T), q, 'interpolated orbit', f"{T} {dt}")
        c.close(rs[3:], sims[s].vel(T), 1e-2 if edge else 1e-3,
                'interpolated velocity', f"{T} {dt}")
        fr = (T/dt) % 1
        if T <= 0 or 1e-9 < fr < 1-1e-9:
            a, b = nodes[k0, s], nodes[k0+1, s]
            if T > 0 and a[1] is not None and b[1] is not None:
                rel = -2*float(rs[:3]@rs[3:])/CL**2
                c.ok(abs(dts[0]-(sims[s].clk(T)+rel)) < 2e-12,
                     'interpolated clock', f"{T} {dts[0]}")
                c.ok(abs(dts[1]-sims[s].c1) < 1e-8, 'clock rate', '')
                near = a if T-k0*dt < (k0+1)*dt-T else b
                dn = min(T-k0*dt, (k0+1)*dt-T)
                sx = math.sqrt(sum((base[0]**x*1e-3)**2 for x in a[2]
                                   if x and base[0] > 0))
                sc = (base[1]**near[3]*1e-12*CL if near[3] and base[1] > 0
                      else 0)+1e-3*dn
                if abs(T-k0*dt-dt/2) > 1:
                    c.close(var, sx**2+sc**2, 1e-9, 'variance', f"{T}",
                            rtol=1e-6)
                c.seen('clock')
            elif T > 0:
                c.ok(np.isnan(dts[0]), 'missing clock used', f"{dts[0]}")
                c.seen('no clock')
    no = prn2sat(uGNSS.IRN, 3)
    c.ok(sp.peph2pos(tt(d0, dt*3+1), no, nav)[0] is None,
         'satellite without orbit', '')
    c.ok(snapshot([e.pos for e in nav.peph]) == s0, 'products modified', '')


@chk.case(80, 2000, minseen=8)
def states(c):
    """ states at transmission time and at an epoch from precise products """
    r = c.rng
    path, sats, sims, d0, dt, n, acc, ver, flag, base, nodes = gen(r, c.tmp)
    nav = Nav()
    nav.ephopt = 4
    sp = peph()
    sp.parse_sp3(path, nav)
    clkf = r.random() < .3
    if clkf:  # clocks of a second product
        for s in sims.values():
            s.c0, s.c1 = r.choice([-1, 1])*r.uniform(1e-5, 5e-4), \
                r.uniform(-1e-11, 1e-11)
        exp = clkfile(r, os.path.join(c.tmp, 'c.clk'), d0, sats, sims,
                      int(dt*(n-1)/300)+1, 300., 3.0)
        rnxdec().decode_clk(os.path.join(c.tmp, 'c.clk'), nav)
    lim = 1e-3 if dt == 300 else 0.03
    brdc = r.random() < .6
    nav.eph, nav.geph = [], []
    health = {}
    T0 = T = r.uniform(0, dt*(n-1)) if r.random() < .85 else r.choice(
        [-5000., dt*(n-1)+5000.])
    limit = None
    if r.random() < .2:  # transmission times at the limits of the product
        limit = r.choice([-900., dt*(n-1)+900.])
        T0 = T = limit+.1
    for s in sats:
        glo = sat2prn(s)[0] == uGNSS.GLO
        if not brdc or r.random() < .15:
            continue
        for k in range(r.choice([1, 1, 2])):
            e = (Geph if glo else Eph)(s)
            x = r.uniform(-800, 800) if k == 0 else -1e6
            e.toe, e.mode, e.iode = tt(d0, T0+x), 0, r.randrange(256)
            e.svh = r.choice([0, 0, 0, 1, 9])
            if glo:
                e.frq = r.randint(-7, 6)
            if k == 0:
                health[s] = e
            (nav.geph if glo else nav.eph).append(e)
    r.shuffle(nav.eph)
    seen_g, seen_e = len(nav.geph) > 0, len(nav.eph) > 0
    extra = [prn2sat(uGNSS.IRN, 3)]
    names = sats+[x for x in extra if r.random() < .3]
    names = r.sample(names, min(len(names), r.choice([1, 8, 40])))
    off = {sat2prn(s)[0] for s in names if r.random() < .05}
    o = Obs()
    o.t, o.sat = tt(d0, T), np.array(names)
    pr = {s: r.uniform(1.9e7, 4.2e7) for s in names}
    if limit is not None:
        pr = {s: (T-limit+r.uniform(-5e-4, 5e-4))*CL for s in names}
    o.P = np.array([[pr[s], pr[s]+5.] for s in names])
    o.sig = {x: {uTYP.C: [rSigRnx(x, uTYP.C, uSIG.L1C)]} for x in
             {sat2prn(s)[0] for s in names}-off}
    rs, vs, dts, svh, nsat = satposs(o, nav, None, sp)
    cnt = 0

    def state(s, t):
        """ what is known of the state at t: None (nothing), False (not
        judged), True """
        if s not in sims or t < -901 or t > dt*(n-1)+901:
            return None
        k0 = min(max(int(t//dt), 0), n-2)
        win = range(max(0, min(k0-6, n-11)), min(n, max(k0+8, 11)))
        bad = [k for k in win if not nodes[k, s][0].any()]
        if t < 1 or t > dt*(n-1)-1 or min(t % dt, -t % dt) < .01:
            return False
        if bad:
            return None if any(k in (k0, k0+1) for k in bad) else False
        if clkf:
            j = int(t//300)
            if min(t % 300, -t % 300) < .01 or j+1 > int(dt*(n-1)/300):
                return False
            ks = {k for k, _ in exp}
            if (j, s) in exp and (j+1, s) in exp:
                return True
            return None if j in ks and j+1 in ks else False
        if nodes[k0, s][1] is None or nodes[k0+1, s][1] is None:
            return None
        return True
    for i, s in enumerate(names):
        sy = sat2prn(s)[0]
        tag = f"{sat2id(s)} {T:.3f} {dt} {n}"
        t = T-pr[s]/CL
        st = state(s, t)
        has = seen_g if sy == uGNSS.GLO and seen_g else seen_e
        e = health.get(s) if has else None
        used = bool(np.any(rs[i]))
        if used:
            cnt += 1
        # an ephemeris of the other kind is not for this satellite
        none = sy in off or st is None or (has and e is None)
        if none:
            c.ok(not used, 'without data', tag)
            c.seen('none', sy in off, st is None)
        elif st:
            if not c.ok(used, 'not computed', tag):
                continue
            t -= sims[s].clk(t)
            t2 = t+2*float(sims[s].pos(t)@sims[s].vel(t))/CL**2
            edge = t < 3*dt or t > dt*(n-4)
            c.close(rs[i], sims[s].pos(t2), lim*(30 if edge else 1),
                    'orbit', tag)
            c.close(vs[i], sims[s].vel(t2), 1e-2 if edge else 1e-3,
                    'velocity', tag)
            rel = -2*float(rs[i]@vs[i])/CL**2
            c.ok(abs(dts[i]-sims[s].clk(t2)-rel) < 2e-12, 'clock', tag)
            c.eq(int(svh[i]), e.svh if e else 0, 'health', tag)
            if e and sy == uGNSS.GLO:
                c.eq(nav.glo_ch.get(s), e.frq, 'channel', tag)
            c.seen('ok', brdc, clkf, bool(e))
        # state at an epoch, clock of the product
        q = satpos(s, o.t, nav, None, sp)
        st = state(s, T)
        if st is None or has and e is None:
            c.ok(np.isnan(q[0]).all() and np.isnan(q[2]).all(),
                 'satpos:without data', tag)
        elif st:
            edge = T < 3*dt or T > dt*(n-4)
            c.close(q[0][0], sims[s].pos(T), lim*(30 if edge else 1),
                    'satpos:orbit', tag)
            c.close(q[1][0], sims[s].vel(T), 1e-2 if edge else 1e-3,
                    'satpos:velocity', tag)
            c.ok(abs(q[2][0]-sims[s].clk(T)) < 2e-12, 'satpos:clock', tag)
            c.eq(int(q[3][0]), e.svh if e else 0, 'satpos:health', tag)
            c.seen('satpos', bool(e))
    c.eq(nsat, cnt, 'number')
    c.sample(f"{len(names)} satellites, {cnt} computed")


def clkfile(r, path, d0, sats, sims, n, dt, ver):
    out = []
    lab = 60 if ver < 3.04 else 65
    out.append(('%9.2f           C                   G' % ver).ljust(lab) +
               'RINEX VERSION / TYPE\n')
    out.append('GPS'.ljust(lab)+'TIME SYSTEM ID\n')
    out.append('AS in header'.ljust(lab)+'COMMENT\n')
    out.append(' '*lab+'END OF HEADER\n')
    exp = {}
    for k in range(n):
        d = d0+timedelta(seconds=dt*k)
        for s in sats:
            if r.random() < .04:
                continue
            nrec = r.choice([1, 2, 2])
            w = 4 if ver < 3.04 else 9
            t = '%4d %02d %02d %02d %02d %9.6f' % (
                d.year, d.month, d.day, d.hour, d.minute, d.second)
            sd = r.uniform(1e-12, 1e-10)
            ln = 'AS '+sat2id(s).ljust(w)+' '+t+' %2d' % nrec+'   ' + \
                '%19.12E' % sims[s].clk(dt*k)
            if nrec == 2:
                ln += ' %19.12E' % sd
            out.append(ln+'\n')
            exp[k, s] = (float('%19.12E' % sims[s].clk(dt*k)),
                         float('%19.12E' % sd) if nrec == 2 else 0.0)
            if r.random() < .1:
                out.append('AR '+'GOLD'.ljust(w)+' '+t+'  1   ' +
                           '%19.12E' % 1e-3+'\n')
    with open(path, 'w') as fh:
        fh.write(''.join(out))
    return exp


@chk.case(80, 1500, minseen=5)
def clock(c):
    """ Clock-RINEX replaces the SP3 clocks """
    r = c.rng
    path, sats, sims, d0, dt, n, acc, ver, flag, base, nodes = gen(r, c.tmp)
    nav = Nav()
    sp = peph()
    sp.parse_sp3(path, nav)
    for s in sims.values():
        s.c0, s.c1 = r.choice([-1, 1])*r.uniform(1e-5, 5e-4), \
            r.uniform(-1e-11, 1e-11)
    cdt = r.choice([30.0, 300.0])
    cn = int(min(dt*(n-1), 3600)//cdt)+1
    v = r.choice([3.00, 3.02, 3.04])
    cp = os.path.join(c.tmp, 'c.clk')
    for rep in range(r.choice([1, 2])):
        exp = clkfile(r, cp, d0, sats, sims, cn, cdt, v)
        rnxdec().decode_clk(cp, nav)
    c.eq((nav.nc, len(nav.pclk)), (len({k for k, _ in exp}),)*2, 'epochs')
    by = {round(timediff(e.time, tt(d0))/cdt): e for e in nav.pclk}
    for (k, s), (ck, sd) in exp.items():
        c.close(by[k].clk[s-1], ck, 0, 'clock', f"{k} {s}")
        c.close(by[k].std[s-1], sd, 0, 'sigma', f"{k} {s}")
    c.seen(v, cdt, rep)
    full = {s for s in sats if all(nodes[k, s][0].any() for k in range(n))}
    for _ in range(20):
        s = r.choice(sats)
        if s not in full:
            continue
        T = r.uniform(0.01, cdt*(cn-1)-.01)
        k0 = int(T//cdt)
        if min(T-k0*cdt, (k0+1)*cdt-T) < .01:
            continue
        rs, dts, var = sp.peph2pos(tt(d0, T), s, nav, True)
        if (k0, s) not in exp or (k0+1, s) not in exp:
            if k0 in by and k0+1 in by:
                c.ok(rs is None, 'missing clock', f"{T}")
                c.seen('missing')
            continue
        if not c.ok(rs is not None, 'no result', ''):
            continue
        rel = -2*float(rs[:3]@rs[3:])/CL**2
        c.ok(abs(dts[0]-(sims[s].clk(T)+rel)) < 2e-13, 'interpolated',
             f"{T} {dts[0]} {sims[s].clk(T)+rel}")
        c.ok(abs(dts[1]-sims[s].c1) < 1e-9, 'rate', '')
        c.seen('ok')


@chk.case(40, 800, minseen=3)
def write(c):
    """ written products are read back unchanged """
    r = c.rng
    path, sats, sims, d0, dt, n, acc, ver, flag, base, nodes = gen(r, c.tmp)
    nav = Nav()
    sp = peph()
    sp.parse_sp3(path, nav)
    p2 = os.path.join(c.tmp, 'w.sp3')
    s0 = snapshot([e.pos for e in nav.peph])
    if r.random() < .5:
        sub = sorted(r.sample(sats, r.randint(1, len(sats))))
        sp.write_sp3(p2, nav, set(sub))
    else:
        sub = sats
        sp.write_sp3(p2, nav)
    c.ok(snapshot([e.pos for e in nav.peph]) == s0, 'products modified', '')
    n2 = Nav()
    s2 = peph()
    s2.parse_sp3(p2, n2)
    if not c.eq(n2.ne, n, 'epochs'):
        return
    c.eq([int(x) for x in s2.sat], sub, 'satellites')
    for a, b in zip(nav.peph, n2.peph):
        c.ok(abs(timediff(a.time, b.time)) < 1e-6, 'time', '')
        for s in sub:
            c.close(b.pos[s-1, :3], a.pos[s-1, :3], 2e-3, 'orbit', '')
            c.close(b.pos[s-1, 3], a.pos[s-1, 3], 2e-12, 'clock', '')
        rest = [s for s in range(1, uGNSS.MAXSAT+1) if s not in sub]
        c.ok(np.isnan(b.pos[np.array(rest)-1]).all(), 'other satellites', '')
    c.seen(len(sub), len(sub) == len(sats))


@chk.case(60, 800, minseen=4)
def transmission(c):
    """ states of observed satellites from precise products """
    r = c.rng
    path, sats, sims, d0, dt, n, acc, ver, flag, base, nodes = gen(r, c.tmp)
    full = [s for s in sats if all(nodes[k, s][0].any() and
                                   nodes[k, s][1] is not None
                                   for k in range(n))]
    nav = Nav()
    nav.ephopt = 4
    sp = peph()
    sp.parse_sp3(path, nav)
    T = r.uniform(5*dt, dt*(n-6))
    obs = Obs()
    obs.t = tt(d0, T)
    use = r.sample(full, min(len(full), 8))
    if not use:
        return
    extra = prn2sat(uGNSS.GPS, r.randint(1, 32))
    if extra not in sats:
        use.append(extra)
    obs.sat = np.array(use)
    obs.P = np.array([[r.uniform(1.9e7, 2.8e7)]*2 for _ in use])
    obs.sig = {s: {uTYP.C: [rSigRnx(s, 'C1C' if s != uGNSS.BDS else 'C2I')]}
               for s, _ in SYS}
    rs, vs, dts, svh, nsat = satposs(obs, nav, orb=sp)
    for i, s in enumerate(use):
        if s not in sats:
            c.ok(not rs[i].any() and dts[i] == 0, 'unknown satellite', '')
            c.seen('none')
            continue
        t1 = T-obs.P[i, 0]/CL
        t2 = t1-sims[s].clk(t1)
        p, v = sims[s].pos(t2), sims[s].vel(t2)
        q = 5e-3 if dt == 300 else .05
        c.close(rs[i], p, q, 'position', '')
        c.close(vs[i], v, 1e-3 if dt == 300 else 1e-2, 'velocity', '')
        rel = -2*float(p@v)/CL**2
        c.ok(abs(dts[i]-(sims[s].clk(t2)+rel)) < 3e-12, 'clock',
             f"{dts[i]} {sims[s].clk(t2)+rel}")
        c.seen(dt, len(use) > 4)
    c.eq(nsat, sum(s in sats for s in use), 'count')
