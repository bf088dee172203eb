""" C26: Galileo HAS pages and messages """
from common import Check
from bits import BW, ru
from enc_cssr import Enc, Fmt, Mask, compare, observe, srnd, T
import math
import os
import numpy as np
from cssrlib.cssr_has import cssr_has, cnav_msg

chk = Check('C26', ['src/cssrlib/cssr_has.py', 'src/cssrlib/cssrlib.py'],
            rule='HAS messages of random content encoded into erasure coded '
            'pages, received in random order with losses, duplicates and '
            'foreign pages; distinct by block, mask option, page situation')

# --- GF(256), polynomial x^8+x^4+x^3+x^2+1 --------------------------------
EXP, LOG = [0]*512, [0]*256
_x = 1
for _i in range(255):
    EXP[_i] = _x
    LOG[_x] = _i
    _x <<= 1
    if _x & 256:
        _x ^= 0x11d
for _i in range(255, 512):
    EXP[_i] = EXP[_i-255]


def mul(a, b):
    return 0 if a == 0 or b == 0 else EXP[LOG[a]+LOG[b]]


def rs_matrix():
    """ systematic generator of RS(255,32), rows are code word symbols """
    g = [1]
    for i in range(1, 224):
        n = [0]*(len(g)+1)
        for k, x in enumerate(g):
            n[k] ^= x
            n[k+1] ^= mul(x, EXP[i])
        g = n
    # remainders of x^(254-j)
    G = np.zeros((255, 32), dtype=np.uint8)
    for j in range(32):
        G[j, j] = 1
        reg = [0]*223
        for k in range(32):
            f = (1 if k == j else 0) ^ reg[0]
            reg = reg[1:]+[0]
            if f:
                for q in range(223):
                    reg[q] ^= mul(f, g[q+1])
        G[32:, j] = reg
    return G


_G = None


def gmat():
    global _G
    if _G is None:
        _G = rs_matrix()
    return _G


MUL = None


def encode(pages):
    """ 255 encoded pages of the message pages """
    global MUL
    if MUL is None:
        MUL = np.array([[mul(a, b) for b in range(256)] for a in range(256)],
                       dtype=np.uint8)
    G = gmat()
    out = np.zeros((255, 53), dtype=np.uint8)
    for j, p in enumerate(pages):
        out ^= MUL[G[:, j][:, None], np.array(list(p), dtype=np.uint8)[None]]
    return out


# --- messages --------------------------------------------------------------
def dnu(v, n):
    return v == -(1 << (n-1))


FM = Fmt(orb=((13, 12, 12), (0.0025, 0.008, 0.008)), clk=(13, 0.0025),
         cb=(11, 0.02), pb=(11, 0.01), inv=dnu, sgn=-1.0)
MHZ = {'G': {'1': 1575.42, '2': 1227.6, '5': 1176.45},
       'E': {'1': 1575.42, '5': 1176.45, '7': 1207.14, '8': 1191.795,
             '6': 1278.75}}
CL = 299792458.0


def val(r, n, scl, clk=False, given=None):
    """ value: not available, do not use (clock only) """
    m = 1 << (n-1)
    v = srnd(r, n) if given is None else given
    if v == m-1 and not clk:
        v -= 1
    if clk and r.random() < .03:
        v = m-1
    bad = v == -m or (clk and v == m-1)
    return v, math.nan if bad else v*scl


class Has(Enc):
    """ HAS message encoder """

    def __init__(self, c, week, tow0):
        Enc.__init__(self, c, week, FM)
        self.m.tow0 = tow0
        self.mask_id = None
        self.alive = False

    def message(self, toh, blocks, mask=None, mask_id=None, iod=0):
        r, m = self.r, self.m
        fl = 0
        for k, b in enumerate(['mask', 'orb', 'clk', 'sub', 'cb', 'pb']):
            if b in blocks:
                fl |= 1 << (5-k)
        w = BW().add('u12 u6 u4 u5 u5', toh, fl, ru(r, 4), mask_id, iod)
        m.tow = m.tow0+toh
        m.iod = iod
        if 'mask' in blocks:
            mask.put(w, lambda w, g: w.u(3, 0))
            w.u(6, 0)
            m.mask, self.mask_id = mask, mask_id
            m.flag(0, T.MASK)
        s = m.net(0)
        M = m.mask
        if 'orb' in blocks:
            self.vi(w, T.ORBIT)
            s.dorb, s.iode = {}, {}
            for sat, gid, _ in M.sat:
                n = 10 if gid == 2 else 8
                s.iode[sat] = ru(r, n)
                w.u(n, s.iode[sat])
                o = []
                for b, q in zip(*FM.orb):
                    v, x = val(r, b, q)
                    w.s(b, v)
                    o.append(-x)
                s.dorb[sat] = o
                m.t0(0, sat, T.ORBIT)
        if 'clk' in blocks:
            self.vi(w, T.CLOCK)
            mu = {}
            for g in M.g:
                mu[g[0]] = r.randrange(4)
                w.u(2, mu[g[0]])
            s.dclk = {}
            for sat, gid, _ in M.sat:
                v, x = val(r, 13, .0025, True)
                w.s(13, v)
                s.dclk[sat] = x*(mu[gid]+1)
                m.t0(0, sat, T.CLOCK)
        if 'sub' in blocks:
            self.vi(w, T.CLOCK)
            if s.dclk is None:
                s.dclk = {}
            gs = [g for g in M.g if g[1]]
            gs = r.sample(gs, r.randint(1, len(gs)))
            w.u(4, len(gs))
            for g in gs:
                k = r.randrange(4)
                w.u(4, g[0]).u(2, k)
                sats = [x for x in M.sat if x[1] == g[0]]
                b = [int(r.random() < .5) for _ in sats]
                for x in b:
                    w.u(1, x)
                for q, x in zip(sats, b):
                    if x:
                        v, y = val(r, 13, .0025, True)
                        w.s(13, v)
                        s.dclk[q[0]] = y*(k+1)
                        m.t0(0, q[0], T.CLOCK)
        if 'cb' in blocks:
            self.vi(w, T.CBIAS)
            s.cbias = {}
            for sat, gid, cd in M.sat:
                s.cbias[sat] = {}
                for k in cd:
                    v, x = val(r, 11, .02, False, self.given('C', sat, k))
                    w.s(11, v)
                    s.cbias[sat]['C'+k] = x
                    m.t0(0, sat, T.CBIAS)
        if 'pb' in blocks:
            self.vi(w, T.PBIAS)
            s.pbias, s.di = {}, {}
            for sat, gid, cd in M.sat:
                s.pbias[sat], s.di[sat] = {}, {}
                for k in cd:
                    v, x = val(r, 11, .01, False, self.given('L', sat, k))
                    d = r.randrange(4)
                    w.s(11, v).u(2, d)
                    s.pbias[sat]['L'+k] = x*CL/(MHZ[sat[0]][k[0]]*1e6)
                    s.di[sat]['L'+k] = d
                    m.t0(0, sat, T.PBIAS)
        return w

    def given(self, typ, sat, k):
        return None

    def vi(self, w, t):
        u = self.r.randrange(16)
        w.u(4, u)
        self.m.udi[t] = u
        self.m.iodc[t] = self.m.iod
        self.m.flag(0, t)


def newmask(r):
    return Mask(r, r.choice([[0], [2], [0, 2], [0, 2]]), 40)


def fresh(c, log):
    r = c.rng
    cs = cssr_has(os.path.join(c.tmp, 'log.txt') if log else None)
    cs.monlevel = c.rng.choice([1, 1, 2, 3, 4]) if log else 0
    cs.msgtype = r.choice([1, 4073])
    cs.week = r.randint(2100, 2500)
    cs.tow0 = 3600*r.randint(0, 167)
    return cs


def script(c, e, toh, st):
    """ next message of a plausible broadcast """
    r = c.rng
    if st.get('id') is None or r.random() < .15:
        st['id'] = r.choice([i for i in range(32) if i != st.get('id')])
        bl = ['mask']+[b for b in ('orb', 'clk', 'sub', 'cb', 'pb')
                       if r.random() < .5]
        mask = newmask(r)
        c.seen('mask', len(mask.g), mask.g[0][3])
    else:
        bl = [b for b in ('orb', 'clk', 'sub', 'cb', 'pb')
              if r.random() < .4] or ['clk']
        mask = e.m.mask
        if r.random() < .2:
            bl = ['mask']+bl
    if 'clk' in bl and 'sub' in bl:
        bl.remove('sub')
    for b in bl:
        c.seen('block', b, len(bl))
    return e.message(toh, bl, mask, st['id'], r.randrange(32))


@chk.case(120, 5000)
def message(c):
    """ history of HAS messages """
    r = c.rng
    log = r.random() < .3
    cs = fresh(c, log)
    e = Has(c, cs.week, cs.tow0)
    st = {}
    toh = r.choice([0, 3590, 1800])
    if r.random() < .3:
        # corrections before any mask
        w = BW().add('u12 u6 u4 u5 u5', 5, r.choice([16, 8, 4, 2, 1, 27]), 0,
                     r.randrange(32), 1)
        w.u(200, ru(r, 200))
        cs.decode_cssr(w.bytes()+bytes(50))
        c.ok(cs.lc[0].cstat == 0 and not cs.lc[0].dorb and
             not cs.lc[0].dclk, 'before mask')
        c.seen('no mask')
    live = r.random() < .5
    if live:
        # the receiver gives the observation time
        toh = r.choice([0, 3599, 3590, 3550, 1800, r.randrange(3600)])
        if r.random() < .4:
            e.m.tow0 = 86400*r.randint(1, 7)-3600
    for k in range(r.randint(2, 10)):
        w = script(c, e, toh, st)
        if live:
            observe(c, cs, e.m.week, e.m.tow)
        cs.decode_cssr(w.bytes()+bytes(53))
        compare(c, cs, e.m, f"msg {k}")
        q = r.random()
        mt = cs.msgtype
        bad = None
        if q < .1:
            cs.msgtype = r.choice([0, 2, 3])
            bad = w.bytes()
            c.seen('bad', 'type')
        elif q < .2:
            bad = BW().add('u12 u6 u4 u5 u5', r.choice([3600, 4095]), 8, 0,
                           st['id'], 9).u(300, ru(r, 300)).bytes()
            c.seen('bad', 'toh')
        elif q < .35:
            bad = BW().add('u12 u6 u4 u5 u5', toh, r.choice([16, 8, 2, 1, 31]),
                           0, (st['id']+r.randint(1, 31)) % 32, 9)
            bad = bad.u(3000, ru(r, 3000)).bytes()
            c.seen('bad', 'mask id')
        elif q < .4:
            bad = b'\x01'
            c.seen('bad', 'short')
        if bad is not None:
            cs.decode_cssr(bad)
            cs.msgtype = mt
            compare(c, cs, e.m, f"msg {k} bad")
        toh += r.choice([1, 10, 50, 700 if live else 10])
        if toh >= 3600:
            toh -= 3600
            if live:
                e.m.tow0 += 3600
    if log:
        cs.fh.close()


def cnav(page=None, hass=1, mid=0, ms=1, pid=1, rng=None, dummy=False,
         mt=1):
    """ E6-B page as hexadecimal text """
    w = BW().u(14, ru(rng, 14))
    if dummy:
        w.u(24, 0xaf3bc3)
        for _ in range(53):
            w.u(8, 0)
    else:
        w.add('u2 u2 u2 u5 u5 u8', hass, 0, mt, mid, ms-1, pid)
        for b in page:
            w.u(8, int(b))
    w.u(24, ru(rng, 24)).u(6, 0)
    return {'nav': w.pad(496).bytes().hex()}


@chk.case(12, 300, cpu=120)
def reuse(c):
    """ message ids are used again and again """
    r = c.rng
    fn = os.path.join(c.tmp, 'gmat.csv')
    np.savetxt(fn, gmat(), fmt='%d', delimiter=',')
    cn = cnav_msg()
    cn.load_gmat(fn)
    tow = 345600
    n, mid, step = r.choice([40, 80]), r.randrange(32), r.choice([1, 1, 3, 5])
    for k in range(n):
        ms = r.choice([1, 1, 2, 3])
        data = bytes(r.randrange(256) for _ in range(53*ms))
        enc = encode([data[53*i:53*i+53] for i in range(ms)])
        if r.random() < .1:     # some messages are missed
            mid = (mid+step) % 32
        out = None
        for p in r.sample(range(ms), ms):
            c.eq(out, None, 'too early', k)
            out = cn.decode_cnav(tow, [cnav(enc[p], 1, mid, ms, p+1, rng=r)])
            tow += 1
        c.ok(out is not None and out[:53*ms] == data, 'reused id',
             f"message {k}, id {mid}, {ms} pages")
        mid = (mid+step) % 32
    c.seen('reuse', n, step)


@chk.case(40, 1200, cpu=120)
def pages(c):
    """ message recovery from encoded pages """
    r = c.rng
    fn = os.path.join(c.tmp, 'gmat.csv')
    np.savetxt(fn, gmat(), fmt='%d', delimiter=',')
    cn = cnav_msg()
    cn.load_gmat(fn)
    full = r.random() < .4
    cs = fresh(c, False)
    e = Has(c, cs.week, cs.tow0)
    st = {}
    last = []
    tow = cs.tow0
    for n in range(r.randint(1, 6)):
        if full:
            w = script(c, e, 10*n, st)
            data = w.bytes()
            ms = (len(data)+52)//53
            if r.random() < .2:
                ms = min(32, ms+r.randint(1, 3))
        else:
            ms = r.choice([1, 2, 5, 10, 20, 31, 32, r.randint(1, 32)])
            data = bytes(r.randrange(256) for _ in range(53*ms))
        if ms > 32:
            return
        data = data+bytes(53*ms-len(data))
        mid = r.choice([i for i in range(32) if i not in last[-11:]])
        last.append(mid)
        enc = encode([data[53*i:53*i+53] for i in range(ms)])
        pids = list(range(ms))+list(range(32, 255))
        mode = r.choice(['any', 'parity', 'info'])
        if mode == 'parity':
            pids = pids[ms:]
        elif mode == 'any':
            r.shuffle(pids)
        if mode == 'parity':
            r.shuffle(pids)
        nsv = r.choice([1, 4, 10, 20, 32])
        if ms > 1 and r.random() < .3:
            # a message that is never completed; given up after a while
            m2 = r.choice([i for i in range(32) if i not in last[-11:]])
            k2 = r.randint(1, ms-1)
            p2 = r.sample(range(1, 256), k2)
            for k in range(2*ms+2):
                vi = [cnav(bytes(r.randrange(256) for _ in range(53)), 1, m2,
                           ms, p2[k], rng=r)] if k < k2 else \
                    [cnav(rng=r, dummy=True)]
                o = cn.decode_cnav(tow, vi)
                c.ok(o is None, 'incomplete', f"{k2} pages of {ms}")
                tow += 1
            c.seen('given up', ms > 10)
        got, out, sent, steps = set(), None, [], 0
        while out is None and steps < 2*ms+1:
            vi = []
            for _ in range(nsv):
                q = r.random()
                if q < .05:
                    vi.append(cnav(rng=r, dummy=True))
                elif q < .1:
                    vi.append(cnav(enc[0], 2+r.randrange(2), mid, ms, 1,
                                   rng=r))
                elif q < .15 and got:
                    p = r.choice(sorted(got))
                    vi.append(cnav(enc[p], r.randrange(2), mid, ms, p+1,
                                   rng=r))
                elif q < .2 and len(last) > 1 and got:
                    # pages of a message already decoded
                    vi.append(cnav(bytes(53), 1, last[-2], ms,
                                   r.randint(1, 255), rng=r))
                elif q < .25 and got:
                    # an undefined page number
                    vi.append(cnav(bytes(53), 1, mid, ms, 0, rng=r))
                elif pids:
                    p = pids.pop(0)
                    got.add(p)
                    vi.append(cnav(enc[p], r.randrange(2), mid, ms, p+1,
                                   rng=r))
            r.shuffle(vi)
            out = cn.decode_cnav(tow, vi)
            tow += 1
            steps += 1
            if out is None:
                # the 'already received' pages above never complete a message
                c.ok(len(got) < ms, 'not recovered',
                     lambda: f"{len(got)} pages of {ms}, step {steps}")
            else:
                c.ok(len(got) >= ms, 'too early', f"{len(got)} of {ms}")
        if out is None:
            c.ok(steps >= 2*ms+1, 'not recovered', '')
            return
        c.eq(out[:53*ms], data, 'content',
             f"ms {ms} mid {mid} {mode} {len(got)} pages")
        c.ok(not any(out[53*ms:]), 'excess')
        c.seen('pages', mode, len(got) > ms, len(got) > 32, nsv)
        if full:
            cs.msgtype = cn.msgtype
            cs.decode_cssr(out)
            compare(c, cs, e.m, f"paged msg {n}")
            c.seen('paged', full)
