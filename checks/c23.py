""" C23: RTCM 3 and IGS state space corrections """
from common import Check
from bits import BW, rs, ru, rtcm3
import math
import os
import numpy as np
from cssrlib.gnss import (gpst2time, sat2id, timediff, uGNSS, uTYP, rSigRnx,
                          gtime_t)
from cssrlib.cssrlib import sCSSR, sCType
from cssrlib.rtcm import rtcm, sRTCM

chk = Check('C23', ['src/cssrlib/rtcm.py'],
            rule='independently encoded RTCM SSR, test-number and IGS SSR '
            'message histories of six systems; distinct by message number, '
            'dialect and history situation')

LET = {'G': uGNSS.GPS, 'R': uGNSS.GLO, 'E': uGNSS.GAL, 'J': uGNSS.QZS,
       'S': uGNSS.SBS, 'C': uGNSS.BDS}
RT = {'G': 1057, 'R': 1063, 'E': 1240, 'J': 1246, 'S': 1252, 'C': 1258}
PB = {'G': 1265, 'R': 1266, 'E': 1267, 'J': 1268, 'S': 1269, 'C': 1270}
# orbit, clock, code bias, combined, URA, high rate clock
TST = {'R': (41, 42, 43, 44, 45, 46), 'E': (62, 65, 68, 71, 74, 77),
       'C': (None, 66, 69, 72, 75, 78), 'J': (64, 67, 70, 73, 76, 79)}
TPB = {'G': 85, 'R': 86, 'E': 87, 'C': 88, 'J': 89}
IGS = {'G': 20, 'R': 40, 'E': 60, 'J': 80, 'C': 100, 'S': 120}
NS = {'G': 32, 'R': 24, 'E': 36, 'J': 10, 'S': 39, 'C': 63}
SIG = {
    'G': {0: '1C', 1: '1P', 2: '1W', 5: '2C', 6: '2D', 7: '2S', 8: '2L',
          9: '2X', 10: '2P', 11: '2W', 14: '5I', 15: '5Q', 16: '5X',
          17: '1S', 18: '1L', 19: '1X'},
    'R': {0: '1C', 1: '1P', 2: '2C', 3: '2P', 4: '4A', 5: '4B', 6: '6A',
          7: '6B'},
    'E': {0: '1A', 1: '1B', 2: '1C', 3: '1X', 4: '1Z', 5: '5I', 6: '5Q',
          7: '5X', 8: '7I', 9: '7Q', 10: '7X', 11: '8I', 12: '8Q', 13: '8X',
          14: '6A', 15: '6B', 16: '6C', 17: '6X', 18: '6Z'},
    'C': {0: '2I', 1: '2Q', 2: '2X', 3: '6I', 4: '6Q', 5: '6X', 6: '7I',
          7: '7Q', 8: '7X', 9: '1D', 10: '1P', 11: '1X', 12: '5D', 13: '5P',
          14: '5X'},
    'J': {0: '1C', 1: '1S', 2: '1L', 3: '2S', 4: '2L', 5: '2X', 6: '5I',
          7: '5Q', 8: '5X', 9: '6S', 10: '6L', 11: '6X', 12: '1X'},
    'S': {0: '1C', 1: '5I', 2: '5Q', 3: '5X'}}


def sid(sy, k):
    return f"{sy}{k+19:02d}" if sy == 'S' else f"{sy}{k:02d}"


def ura(cl, v):
    if cl == 7 and v == 7:
        return 5.4665
    if cl == 0 and v == 0:
        return math.nan
    return (3.0**cl*(1+v/4.0)-1.0)*1e-3


class Stream():
    """ encoder of one correction stream and its expected state """

    def __init__(self, c, week):
        self.c, self.r, self.week = c, c.rng, week
        self.st = {k: {} for k in ('orb', 'clk', 'hclk', 'ura', 'cb', 'pb',
                                   'yaw')}
        self.ep = {}

    def head(self, w, sy, igs, tow, kind, nsat, iod, extra=None):
        r = self.r
        if sy == 'R' and not igs:
            w.u(17, (tow-18+10800) % 86400)
        else:
            w.u(20, tow % 604800)
        self.udi, self.mi, self.pid, self.sid = (ru(r, 4), ru(r, 1),
                                                 ru(r, 16), ru(r, 4))
        self.datum = ru(r, 1)
        self.udi = self.interval(kind)
        w.u(4, self.udi).u(1, self.mi)
        orb = kind in ('orb', 'oc')
        if orb and not igs:
            w.u(1, self.datum)
        w.u(4, iod).u(16, self.pid).u(4, self.sid)
        if orb and igs:
            w.u(1, self.datum)
        if extra:
            w.add(*extra)
        if nsat is not None:
            w.u(6, nsat)

    def newer(self, keys, tow, ref):
        """ corrections of an older epoch are dropped """
        if ref not in self.ep or tow > self.ep[ref]:
            for k in keys:
                self.st[k] = {}
        self.ep[ref] = tow

    def interval(self, kind):
        return self.udi

    def choose(self, dialect, sy):
        """ satellites of a message """
        r = self.r
        n = min(r.choice([0, 1, 3, 10, 32]), NS[sy])
        if dialect != 'igs' and sy == 'J':
            n = min(n, 10)
        if n*4*30 > 7000:
            n = 10
        return r.sample(range(1, NS[sy]+1), n)

    def vorb(self):
        r = self.r
        v = [rs(r, 22), rs(r, 20), rs(r, 20), rs(r, 21), rs(r, 19), rs(r, 19)]
        if r.random() < .05:
            v[r.randrange(3)] = None
        return v

    def vclk(self):
        r = self.r
        v = [rs(r, 22), rs(r, 21), rs(r, 27)]
        if r.random() < .05:
            v[0] = None
        return v

    def vbias(self, typ, sat, code):
        return rs(self.r, 14 if typ == 'C' else 20)

    def codes(self, sy):
        """ identifiers of the signals with a bias """
        r = self.r
        return r.sample(sorted(SIG[sy]),
                        min(len(SIG[sy]), r.choice([0, 1, 2, 4])))

    def make(self, dialect, sy, kind, tow, iod):
        r = self.r
        igs = dialect == 'igs'
        mt = None
        w = BW()
        if igs:
            sub = IGS[sy]+dict(orb=1, clk=2, oc=3, hclk=4, cb=5, pb=6,
                               ura=7)[kind]
            w.u(12, 4076).u(3, 1).u(8, sub)
            mt = sub
        elif dialect == 'tst':
            if kind == 'pb':
                mt = TPB[sy]
            else:
                mt = TST[sy][['orb', 'clk', 'cb', 'oc', 'ura',
                              'hclk'].index(kind)]
            w.u(12, mt)
        else:
            mt = PB[sy] if kind == 'pb' else RT[sy]+[
                'orb', 'clk', 'cb', 'oc', 'ura', 'hclk'].index(kind)
            w.u(12, mt)
        sats = self.choose(dialect, sy)
        n = len(sats)
        sb = 6 if igs or sy not in 'RJ' else (5 if sy == 'R' else 4)
        # state of the previous epochs
        if kind == 'orb':
            self.newer(['orb'], tow, 'orb')
        elif kind == 'clk':
            self.newer(['clk'], tow, 'clk')
        elif kind == 'oc':
            self.newer(['orb', 'clk'], tow, 'orb')
        elif kind == 'hclk':
            self.newer(['hclk'], tow, 'hclk')
        elif kind == 'ura':
            self.newer(['ura'], tow, 'ura')
        elif kind == 'cb':
            self.newer(['cb'], tow, 'cb')
        else:
            self.newer(['pb'], tow, 'pb')
        ex = None
        yaw = True
        if kind == 'pb':
            if dialect == 'tst':
                yaw = r.random() < .5
                ex = ('u1 u4', yaw, ru(r, 4))
            else:
                ex = ('u1 u1', ru(r, 1), ru(r, 1))
        self.head(w, sy, igs, tow, kind, n, iod, ex)
        for k in sats:
            w.u(sb, k)
            s = sid(sy, k)
            if kind in ('orb', 'oc'):
                ib = 8 if igs else {'E': 10, 'S': 24}.get(sy, 8)
                iode = ru(r, ib)
                v = self.vorb()
                nb = (22, 20, 20, 21, 19, 19)
                w.u(ib, iode)
                for b, x in zip(nb, v):
                    w.s(b, -(1 << (b-1)) if x is None else x)
                v = [math.nan if x is None else x for x in v]
                self.st['orb'][s] = (iode, [v[0]*1e-4, v[1]*4e-4, v[2]*4e-4],
                                     [v[3]*1e-6, v[4]*4e-6, v[5]*4e-6])
            if kind in ('clk', 'oc'):
                v = self.vclk()
                for b, x in zip((22, 21, 27), v):
                    w.s(b, -(1 << (b-1)) if x is None else x)
                if v[0] is None:
                    v[0] = math.nan
                self.st['clk'][s] = [v[0]*1e-4, v[1]*1e-6, v[2]*2e-8]
            if kind == 'hclk':
                v = rs(r, 22)
                w.s(22, v)
                self.st['hclk'][s] = v*1e-4
            if kind == 'ura':
                a, b = ru(r, 3), ru(r, 3)
                w.u(3, a).u(3, b)
                self.st['ura'][s] = ura(a, b)
            if kind in ('cb', 'pb'):
                q = self.codes(sy)
                w.u(5, len(q))
                if kind == 'cb':
                    d = self.st['cb'].setdefault(s, {})
                    for g in q:
                        v = self.vbias('C', s, SIG[sy][g])
                        w.u(5, g).s(14, v)
                        d['C'+SIG[sy][g]] = v*0.01
                else:
                    d = self.st['pb'].setdefault(s, {})
                    if yaw:
                        a, b = ru(r, 9), rs(r, 8)
                        w.u(9, a).s(8, b)
                        self.st['yaw'][s] = [a/256.0, b/8192.0]
                    for g in q:
                        si, wl, di = ru(r, 1), ru(r, 2), ru(r, 4)
                        v = self.vbias('L', s, SIG[sy][g])
                        w.u(5, g).u(1, si)
                        if dialect != 'tst':
                            w.u(2, wl)
                        w.u(4, di).s(20, v)
                        d['L'+SIG[sy][g]] = (v*1e-4, si, di,
                                             wl if dialect != 'tst' else None)
        self.nbit = w.n
        return mt, rtcm3(w.bytes(), ru(r, 6)), [sid(sy, k) for k in sats]


def ids(d):
    return {} if d is None else {sat2id(s): v for s, v in d.items()}


@chk.case(320, 12000, cpu=90, minseen=60)
def history(c):
    """ message histories; store and metadata after every message """
    r = c.rng
    log = os.path.join(c.tmp, 'rtcm.log') if c.idx % 5 == 0 else None
    dec = rtcm(log)
    dec.monlevel = c.rng.choice([1, 1, 2, 3, 4]) if log else 0
    week = r.randint(1931, 2600)
    tow = r.choice([r.randrange(500000), r.randrange(100)])
    live = r.random() < .4
    if live:
        # the receiver gives the observation time
        tow = r.choice([604800, 604800, 86400*r.randint(1, 7), tow+1000])
        tow -= r.choice([1, 5, 30, 1000])
    if live and r.random() < .5:
        dec.set_time(gpst2time(week, tow))
    else:
        dec.week, dec.time = week, gpst2time(week, tow)
    S = Stream(c, week)
    dialect = r.choice(['rtcm', 'igs', 'tst', 'rtcm', 'igs'])
    sset = r.sample(sorted(TST if dialect == 'tst' else RT), r.choice(
        [1, 2, 4]))
    comb = r.random() < .3
    kinds = ['oc', 'hclk', 'ura', 'cb', 'pb'] if comb else \
        ['orb', 'clk', 'hclk', 'ura', 'cb', 'pb']
    iod, tag, sats = ru(r, 4), '', []
    for n in range(r.choice([3, 8, 15])):
        sy, kind = r.choice(sset), r.choice(kinds)
        if dialect == 'tst' and sy == 'C' and kind == 'orb':
            continue
        if r.random() < .1:
            iod = (iod+1) % 16
        mt, f, sats = S.make(dialect, sy, kind, tow, iod)
        tag = f"{dialect} {mt} {sy} {kind}"
        c.ok(dec.checksum(f, 0), 'frame', tag)
        texp = gpst2time(week, tow)
        if live:
            t = tow+r.choice([0, 1, 5, 30, -1, -5, -30])
            w_ = dec.set_time(gpst2time(week, t))
            c.eq(w_, (week+t//604800, t % 604800), 'set_time')
            c.seen('set_time', t//604800-tow//604800)
        if dialect == 'igs' or dialect == 'rtcm' and kind != 'pb':
            t = dec.decode_time(f)
            c.ok(abs(timediff(t, texp)) < 1e-6, 'time-only', tag)
        i, obs, eph, geph, seph = dec.decode(f)
        c.ok(obs is None and eph is None and geph is None and seph is None,
             'result', tag)
        c.eq(i, 24+S.nbit, 'consumed', tag)
        c.ok(abs(timediff(dec.time, texp)) < 1e-6, 'epoch',
             lambda: f"{tag}: {timediff(dec.time, texp)}")
        c.eq((dec.iodssr, dec.pid, dec.sid, bool(dec.mi)),
             (iod, S.pid, S.sid, bool(S.mi)), 'header', tag)
        ct = dict(orb=[sCType.ORBIT], clk=[sCType.CLOCK], hclk=[
            sCType.HCLOCK], ura=[sCType.URA], cb=[sCType.CBIAS], pb=[
            sCType.PBIAS], oc=[sCType.ORBIT, sCType.CLOCK])[kind]
        if kind in ('orb', 'oc'):
            c.eq(dec.datum, S.datum, 'datum', tag)
        lc = dec.lc[0]
        for x in ct:
            c.eq((dec.udi[x], dec.iodssr_c[x]), (S.udi, iod), 'interval', tag)
            c.ok(lc.cstat >> x & 1, 'status', tag)
            for s in lc.t0:
                if isinstance(s, (int, np.integer)) and s > 0 and \
                        sat2id(s) in sats:
                    c.ok(abs(timediff(lc.t0[s][x], texp)) < 1e-6,
                         'reference-time', tag)
        st = S.st
        o = ids(lc.iode)
        c.eq(set(o), set(st['orb']), 'orbit-set', tag)
        od, ov = ids(lc.dorb), ids(lc.ddorb)
        for s, (iode, d, v) in st['orb'].items():
            if s not in o:
                continue
            c.eq(int(o[s]), iode, 'iode', f"{tag} {s}")
            c.close(od[s], d, 1e-9, 'orbit', f"{tag} {s}")
            c.close(ov[s], v, 1e-12, 'orbit-rate', f"{tag} {s}")
        a0, a1, a2 = ids(lc.dclk), ids(lc.ddclk), ids(lc.dddclk)
        c.eq(set(a0), set(st['clk']), 'clock-set', tag)
        for s, v in st['clk'].items():
            if s in a0:
                c.close([a0[s], a1[s]*1e2, a2[s]*1e4],
                        [v[0], v[1]*1e2, v[2]*1e4], 1e-10, 'clock',
                        f"{tag} {s}")
        h = ids(lc.hclk)
        c.eq(set(h), set(st['hclk']), 'hclk-set', tag)
        for s, v in st['hclk'].items():
            c.close(h.get(s, math.nan), v, 1e-9, 'high-rate-clock', tag)
        h = ids(lc.ura)
        c.eq(set(h), set(st['ura']), 'ura-set', tag)
        for s, v in st['ura'].items():
            c.close(h.get(s, 1e9), v, 1e-9, 'ura', tag)
        h = ids(lc.cbias)
        c.eq(set(h), set(st['cb']), 'cbias-set', tag)
        for s, v in st['cb'].items():
            c.eq({g.str() for g in h.get(s, {})}, set(v), 'cbias-signals',
                 f"{tag} {s}")
            for g, x in v.items():
                c.close(h.get(s, {}).get(rSigRnx(s[0]+g), math.nan), x, 1e-9,
                        'code-bias', f"{tag} {s} {g}")
        h = ids(lc.pbias)
        si, di, wl = ids(lc.si), ids(lc.di), ids(lc.wl)
        c.eq(set(h), set(st['pb']), 'pbias-set', tag)
        for s, v in st['pb'].items():
            c.eq({g.str() for g in h.get(s, {})}, set(v), 'pbias-signals',
                 f"{tag} {s}")
            for g, x in v.items():
                q = rSigRnx(s[0]+g)
                c.close(h.get(s, {}).get(q, math.nan), x[0], 1e-9,
                        'phase-bias', f"{tag} {s} {g}")
                c.eq((int(si[s][q]), di[s][q]), x[1:3], 'indicators',
                     f"{tag} {s} {g}")
                if x[3] is not None:
                    c.eq(wl[s][q], x[3], 'wide-lane', f"{tag} {s} {g}")
        y, dy = ids(lc.yaw), ids(lc.dyaw)
        for s, v in st['yaw'].items():
            c.close([y.get(s, math.nan), dy.get(s, math.nan)], v, 1e-12,
                    'yaw', f"{tag} {s}")
        c.seen(dialect, sy, kind)
        if r.random() < .25:
            tow += r.choice([1, 5, 30, 600])
            c.seen('epoch')
    c.sample(f"{dialect} {sset} last {tag} sats {sats}")


@chk.case(60, 2000, cpu=60, minseen=2)
def vtec(c):
    """ ionosphere and unknown IGS messages do not disturb the stream """
    r = c.rng
    dec = rtcm()
    dec.monlevel = 0
    week, tow = r.randint(1931, 2600), r.randrange(600000)
    dec.week, dec.time = week, gpst2time(week, tow-5 if tow > 5 else tow)
    S = Stream(c, week)
    for _ in range(3):
        nl = r.choice([1, 2, 3])
        w = BW().u(12, 4076).u(3, 1).u(8, 201)
        iod = ru(r, 4)
        S.head(w, 'G', True, tow, 'vtec', None, iod)
        w.u(9, ru(r, 9)).u(2, nl)
        for k in range(nl):
            n = r.randint(0, 6)
            m = r.randint(0, n)
            w.u(8, ru(r, 8)).u(4, n).u(4, m)
            for j in range(m+1):
                for _ in range(j, n+1):
                    w.s(16, rs(r, 16))
            for j in range(1, m+1):
                for _ in range(j, n+1):
                    w.s(16, rs(r, 16))
        f = rtcm3(w.bytes())
        c.ok(dec.checksum(f, 0), 'frame', 'vtec')
        dec.decode(f)
        c.eq((dec.pid, dec.sid, dec.iodssr_c[sCType.VTEC]),
             (S.pid, S.sid, iod), 'header', 'vtec')
        c.ok(abs(timediff(dec.time, gpst2time(week, tow))) < 1e-6, 'epoch',
             'vtec')
        c.seen('vtec', nl)
    c.sample('vtec')
