""" C27: BeiDou PPP-B2b messages """
from common import Check
from bits import BW, ru
from enc_cssr import qi, srnd
import math
import os
from cssrlib.gnss import (bdt2gpst, bdt2time, sat2id, time2gpst, timeadd,
                          timediff)
from cssrlib.cssrlib import sCType as T
from cssrlib.cssr_bds import cssr_bds

chk = Check('C27', ['src/cssrlib/cssr_bds.py'],
            rule='independently encoded PPP-B2b message histories with mask '
            'and IOD changes; distinct by message type, system, subtype and '
            'IOD situation')

SYS = [('C', 63), ('G', 37), ('E', 37), ('R', 37)]
# satellites known to the library
NP = {'C': 63, 'G': 32, 'E': 36, 'R': 27}
SIG = {'G': {0: '1C', 1: '1P', 4: '1L', 5: '1X', 7: '2L', 8: '2X', 11: '5I',
             12: '5Q', 13: '5X'},
       'R': {0: '1C', 1: '1P', 2: '2C'},
       'E': {1: '1B', 2: '1C', 4: '5Q', 5: '5I', 7: '7I', 8: '7Q', 11: '6C'},
       'C': {0: '2I', 1: '1D', 2: '1P', 4: '5D', 5: '5P', 7: '7D', 8: '7P',
             12: '6I'}}


def sv(r, n, scl):
    m = 1 << (n-1)
    v = srnd(r, n)
    if v == -(m-1):
        v += 1
    return v, math.nan if v == -m else v*scl


def slot(sat):
    s, p = sat[0], int(sat[1:])
    k = 0
    for q, n in SYS:
        if q == s:
            return k+p
        k += n


class B2b():
    """ encoder and expected store """

    def __init__(self, c, week, tow0):
        self.c, self.r, self.week, self.tow0 = c, c.rng, week, tow0
        self.tod = c.rng.choice([0, 86000, c.rng.randrange(86400)])
        self.iodssr = self.iodp = None
        self.sats = []
        self.st = {k: {} for k in ('dorb', 'iode', 'iodc', 'dclk', 'iodc_c',
                                   'dclk_p', 'iodc_c_p', 'cbias', 'ura')}
        self.t0 = {}
        self.iodc_ = {}
        self.time = None

    def head(self, mt, iod=None):
        w = BW().u(6, mt)
        return self.hd(w, iod)

    def hd(self, w, iod=None):
        self.time = self.tow0+self.tod
        return w.u(17, self.tod).u(4, ru(self.r, 4)).u(
            2, self.iodssr if iod is None else iod)

    def mask(self, iodssr, iodp):
        r = self.r
        self.iodssr = iodssr
        w = self.head(1).u(4, iodp)
        if iodp != self.iodp:
            self.sats = self.choose()
            self.st = {k: {} for k in self.st}
            self.iodp = iodp
        for s, n in SYS:
            m = 0
            for q in self.sats:
                if q[0] == s:
                    m |= 1 << (n-int(q[1:]))
            w.u(n, m)
        return w.pad(462)

    def anysat(self):
        r = self.r
        if self.sats and r.random() < .8:
            return r.choice(self.sats)
        s = r.choice('CGER')
        return f"{s}{r.randint(1, NP[s]):02d}"

    def vbias(self, sat, code):
        return sv(self.r, 12, .017)

    def iod(self, sat):
        r = self.r
        return ru(r, 10), ru(r, 3)

    def iod_clk(self, sat):
        r = self.r
        return ru(r, 3) if r.random() < .3 else self.iodc_.get(sat, 1)

    def choose(self):
        """ satellites of a new mask """
        r, out = self.r, []
        if r.random() < .15:        # nearly all satellites
            return [f"{s}{p:02d}" for s, n in SYS for p in
                    range(1, NP[s]+1) if r.random() < .97]
        for s, n in SYS:
            k = r.choice([0, 3, 8, NP[s]]) if s in 'CG' else \
                r.choice([0, 0, 4])
            out += [f"{s}{p:02d}" for p in
                    sorted(r.sample(range(1, NP[s]+1), k))]
        return out

    def orb1(self, w, ok, used):
        """ one orbit block """
        r = self.r
        if r.random() < .12:
            sat, n = None, r.choice([0, 175, 300, 511])
        else:
            sat = self.anysat()
            if sat in used:
                sat, n = None, 0
            else:
                n = slot(sat)
                used.add(sat)
        iodn, ic = self.iod(sat)
        w.u(9, n).u(10, iodn).u(3, ic)
        o = []
        for b, s in ((15, .0016), (13, .0064), (13, .0064)):
            v, x = sv(r, b, s)
            w.s(b, v)
            o.append(x)
        a, b = r.randrange(8), r.randrange(8)
        w.u(3, a).u(3, b)
        if sat is not None and ok and sat in self.sats:
            st = self.st
            st['iode'][sat] = iodn & 255 if sat[0] in 'GC' else iodn
            st['iodc'][sat] = ic
            st['dorb'][sat] = o
            st['ura'][sat] = qi(a, b)
            self.t0[sat, T.ORBIT] = self.time
            self.c.seen('orbit', sat[0])

    def clk1(self, w, sat, ok):
        r = self.r
        v, x = sv(r, 15, .0016)
        ic = self.iod_clk(sat)
        self.iodc_[sat] = ic
        w.u(3, ic).s(15, v)
        if ok and sat in self.sats:
            st = self.st
            if sat in st['iodc_c'] and st['iodc_c'][sat] != ic:
                st['iodc_c_p'][sat] = st['iodc_c'][sat]
                st['dclk_p'][sat] = st['dclk'][sat]
                self.c.seen('clock', 'new iod')
            st['iodc_c'][sat] = ic
            st['dclk'][sat] = -x
            self.t0[sat, T.CLOCK] = self.time
            self.c.seen('clock', sat[0])

    def bad(self):
        return (self.iodssr+self.r.randint(1, 3)) % 4

    def orb(self, iod=None):
        w = self.head(2, iod)
        used = set()
        for _ in range(6):
            self.orb1(w, iod is None, used)
        return w.pad(462)

    def cb(self, iod=None):
        r = self.r
        w = self.head(3, iod)
        n = r.randint(0, 8)
        w.u(5, n)
        used = set()
        for _ in range(n):
            for _ in range(50):
                sat = self.anysat()
                if sat not in used:
                    break
            if sat in used:
                sat = None
            sg = SIG[sat[0]] if sat else {0: '1C', 1: '1P'}
            ks = r.sample(sorted(sg), r.randint(0, min(4, len(sg))))
            if w.n+13+len(ks)*16 > 462:
                ks = []
            used.add(sat)
            w.u(9, slot(sat) if sat else 200).u(4, len(ks))
            d = {}
            for k in ks:
                v, x = self.vbias(sat, sg[k])
                w.u(4, k).s(12, v)
                d['C'+sg[k]] = x
            if iod is None and sat in self.sats:
                self.st['cbias'][sat] = d
                self.t0[sat, T.CBIAS] = self.time
                self.c.seen('bias', sat[0])
            elif iod is None:
                self.c.seen('bias', 'unknown')
        return w

    def clk(self, iod=None, iodp=None):
        r = self.r
        w = self.head(4, iod)
        st = r.randint(0, max(0, (len(self.sats)-1)//23))
        w.u(4, self.iodp if iodp is None else iodp).u(5, st)
        ok = iod is None and iodp is None
        for k in range(23):
            i = st*23+k
            if i < len(self.sats):
                self.clk1(w, self.sats[i], ok)
            else:
                w.u(18, ru(r, 18))
        self.c.seen('subtype', st)
        return w.pad(462)

    def ura(self, iod=None, iodp=None):
        r = self.r
        w = self.head(5, iod)
        st = r.randint(0, max(0, (len(self.sats)-1)//70))
        w.u(4, self.iodp if iodp is None else iodp).u(3, st)
        ok = iod is None and iodp is None
        for k in range(70):
            a, b = r.randrange(8), r.randrange(8)
            w.u(3, a).u(3, b)
            i = st*70+k
            if ok and i < len(self.sats):
                self.st['ura'][self.sats[i]] = qi(a, b)
        return w

    def comb(self, iod=None):
        r = self.r
        nc, no = r.choice([(0, 1), (3, 0), (5, 2), (10, 1), (0, 4), (0, 0)])
        w = BW().u(6, 7).u(5, nc).u(3, no)
        ok = iod is None
        self.tch = True
        if nc:
            self.hd(w, iod)
            for _ in range(nc):
                sat = self.anysat()
                w.u(9, slot(sat))
                self.clk1(w, sat, ok)
        if no:
            self.hd(w, iod)
            used = set()
            for _ in range(no):
                self.orb1(w, ok, used)
        self.c.seen('comb', nc, no)
        return w.pad(462)

    def comb1(self, iod=None, iodp=None):
        """ message type 6: clocks of consecutive satellites of the mask and
        orbits; each part has its header """
        r = self.r
        nc, no = r.choice([(0, 1), (0, 3), (0, 6), (3, 0), (22, 0), (5, 2),
                           (12, 1), (1, 4), (9, 2)])
        w = BW().u(6, 6).u(5, nc).u(3, no)
        if nc:
            self.hd(w, iod)
            st = r.choice([0, 0, max(0, len(self.sats)-1),
                           r.randrange(len(self.sats)+1)])
            w.u(4, self.iodp if iodp is None else iodp).u(9, st)
            for k in range(st, st+nc):
                if k < len(self.sats):
                    self.clk1(w, self.sats[k], iod is None and iodp is None)
                else:
                    w.u(18, ru(r, 18))
        if no:
            self.hd(w, iod)
            used = set()
            for _ in range(no):
                self.orb1(w, iod is None, used)
        self.c.seen('comb1', nc, no)
        return w.pad(462)


def compare(c, cs, e, tag):
    if e.time is not None:
        t = bdt2gpst(bdt2time(e.week, e.time))
        c.ok(abs(timediff(cs.time, t)) < 1e-6, 'epoch', tag)
    if e.iodssr is None:
        return
    c.eq(cs.iodssr, e.iodssr, 'iodssr', tag)
    c.eq([sat2id(s) for s in cs.sat_n], e.sats, 'mask', tag)
    lc = cs.lc[0]
    for k, want in e.st.items():
        got = cs.ura if k == 'ura' else getattr(lc, k)
        if not c.eq(sorted(sat2id(s) for s in got), sorted(want), k+'-sats',
                    tag):
            continue
        for s, v in got.items():
            n = sat2id(s)
            if k == 'cbias':
                o = {x.str(): y for x, y in v.items()}
                if c.eq(sorted(o), sorted(want[n]), 'cbias-sigs', tag):
                    for x in o:
                        c.close(o[x], want[n][x], 1e-9, k, f"{tag} {n} {x}")
            else:
                c.close(v, want[n], 1e-9, k, f"{tag} {n}")
    g = {(sat2id(s), k): v for s, d in lc.t0.items() if s
         for k, v in d.items()}
    for k, v in e.t0.items():
        t = bdt2gpst(bdt2time(e.week, v))
        c.ok(k in g and abs(timediff(g[k], t)) < 1e-6, 't0', f"{tag} {k}")


@chk.case(200, 8000)
def history(c):
    """ message history """
    r = c.rng
    log = r.random() < .2
    cs = cssr_bds(os.path.join(c.tmp, 'log.txt') if log else None)
    if log:
        cs.monlevel = r.choice([1, 2, 3, 4])
    cs.week = r.randint(700, 1200)
    cs.tow0 = 86400*r.randint(0, 6)
    e = B2b(c, cs.week, cs.tow0)

    live = r.random() < .5
    if live:
        # the receiver gives the observation time
        if r.random() < .5:
            e.tow0 = 86400*r.choice([6, 6, r.randint(0, 6)])
            e.tod = 86400-r.choice([1, 6, 20, 100])
        c.seen('set_time')

    def send(w):
        if live:
            t = timeadd(bdt2gpst(bdt2time(e.week, e.tow0+e.tod)),
                        r.choice([0, 0, 1, 5, 14, 20, -1, -5, 600]))
            c.eq(cs.set_time(t), time2gpst(t), 'set_time')
        cs.decode_cssr(w.bytes()+bytes(4), 0)
    if r.random() < .3:
        e.iodssr, e.iodp = 1, 1
        for k in range(3):
            send(r.choice([e.orb, e.clk, e.cb, e.ura, e.comb])())
        c.ok(not cs.lc[0].dorb and not cs.lc[0].dclk and
             not cs.lc[0].cbias and not cs.ura, 'before mask')
        c.seen('no mask')
        e.iodssr = e.iodp = None
    e.st = {k: {} for k in e.st}
    send(e.mask(r.randrange(4), r.randrange(16)))
    for k in range(r.randint(5, 40)):
        q = r.random()
        if q < .04:
            n = (e.iodp+r.randint(1, 15)) % 16
            w = e.mask(r.choice([e.iodssr, e.bad()]), n)
            c.seen('mask', 'new iodp')
        elif q < .08:
            w = e.mask(e.bad(), e.iodp)
            c.seen('mask', 'new iodssr')
        elif q < .12:
            w = e.mask(e.iodssr, e.iodp)
        elif q < .2:
            f = r.choice([e.orb, e.cb, e.clk, e.ura, e.comb, e.comb1])
            w = f(e.bad())
            c.seen('foreign', f.__name__)
        elif q < .25:
            f = r.choice([e.clk, e.ura, e.comb1])
            w = f(None, (e.iodp+r.randint(1, 15)) % 16)
            c.seen('foreign mask', f.__name__)
        elif q < .28:
            w = BW().u(6, r.choice([0, 8, 20, 63])).u(456, ru(r, 456))
            c.seen('other type')
        else:
            f = r.choice([e.orb, e.orb, e.clk, e.clk, e.clk, e.cb, e.ura,
                          e.comb, e.comb1])
            w = f()
            c.seen(f.__name__)
        send(w)
        compare(c, cs, e, f"msg {k}")
        e.tod += r.choice([0, 1, 6, 48])
        if e.tod >= 86400:
            e.tod -= 86400
            if live:
                e.tow0 += 86400
    if log:
        cs.fh.close()
