""" C24: QZSS CLAS (Compact SSR) messages and L6 frames """
from common import Check
from bits import BW, ru
from enc_cssr import Enc, Mask, compare, observe
import copy
import math
import os
import numpy as np
from cssrlib.gnss import gpst2time, epoch2time, timediff
from cssrlib.cssrlib import cssr, sCType

chk = Check('C24', ['src/cssrlib/cssrlib.py'],
            rule='independently encoded Compact SSR streams of all sub types '
            'and L6 frame sequences with loss and facility changes; distinct '
            'by sub type, format option and stream situation')

GRID = [(n, g+1, 24.0+1.5*n+0.5*(g//4), 123.0+1.2*n+0.6*(g % 4))
        for n in range(1, 13) for g in range(6+n % 5)]


def grid_file(c):
    p = os.path.join(c.tmp, 'grid.txt')
    with open(p, 'w') as f:
        f.write('nid gid lat lon alt\n')
        for n, g, la, lo in GRID:
            f.write(f"{n} {g} {la:.4f} {lo:.4f} 0.0\n")
    return p


def ngrid(n):
    return sum(1 for x in GRID if x[0] == n)


def new(c, log=False):
    r = c.rng
    cs = cssr(os.path.join(c.tmp, 'log.txt') if log else None)
    cs.monlevel = c.rng.choice([1, 1, 2, 3, 4]) if log else 0
    cs.read_griddef(grid_file(c))
    week = r.randint(1900, 2600)
    tow = r.choice([r.randint(0, 604000), 3600*r.randint(0, 167),
                    3600*r.randint(1, 167)-1, 0])
    cs.week = week
    return cs, week, tow


def newmask(c, new=False):
    r = c.rng
    gn = r.sample([0, 1, 2, 3, 4, 7], r.randint(1, 4))
    ns = 16 if r.random() < .15 else 4
    return Mask(r, sorted(gn), 32 if new else 40, nsigmax=ns)


def step(c, e, tow, old, kinds):
    """ one random message """
    r = c.rng
    k = r.choice(kinds)
    inet = r.randint(1, 12)
    c.seen('sub', k)
    if k == 'orb':
        return e.orb(tow)
    if k == 'clk':
        return e.clk(tow)
    if k == 'cb':
        return e.cb(tow)
    if k == 'pb':
        return e.pb(tow)
    if k == 'bias':
        n = r.choice([None, inet])
        c.seen('bias', n is None)
        return e.bias(tow, n)
    if k == 'ura':
        return e.ura(tow)
    if k == 'comb':
        n = r.choice([None, inet])
        c.seen('comb', n is None)
        return e.comb(tow, n)
    if k == 'sinfo':
        return e.sinfo()
    if k == 'atmos':
        return e.atmos(tow, inet, ngrid(inet))
    if k == 'stec':
        return e.stec(tow, inet)
    if k == 'sg':
        w = e.stec(tow, inet)
        return w.cat(e.gridc(tow, inet, ngrid(inet), e.b))
    raise KeyError(k)


NEW = ['orb', 'clk', 'cb', 'pb', 'bias', 'bias', 'ura', 'comb', 'comb',
       'sinfo', 'atmos', 'atmos', 'atmos']
OLD = ['orb', 'clk', 'cb', 'pb', 'bias', 'ura', 'comb', 'stec', 'sg', 'sg']


def num(x, p):
    """ printed value """
    return 'nan' if math.isnan(x) else f"{x:.{p}f}"


def chk_log(c, text, sub, m):
    """ log of a single message lists the corrections of the store """
    ln = [x.split() for x in text.split('\n') if x.strip()]
    c.ok(ln and ln[0][0].startswith('4073/') or
         text.startswith('4073/'), 'log-head', text[:80])
    s = m.net(0)
    rows = {x[0]: x[1:] for x in ln[2:]}
    if sub in (2, 3, 11):
        want = {}
        if sub == 3:
            want = {k: [num(v, 4)] for k, v in s.dclk.items() if v == v}
        elif s.dorb is not None:
            for k, v in s.dorb.items():
                if v[0] != v[0]:
                    continue
                o = [str(s.iode[k])]+[num(x, 3) for x in v]
                if sub == 11:
                    if k not in (s.dclk or {}) or s.dclk[k] != s.dclk[k]:
                        continue
                    o.append(num(s.dclk[k], 4))
                want[k] = o
    elif sub in (4, 5):
        b = s.cbias if sub == 4 else s.pbias
        want = {k: sum(([x, num(y, 2)] for x, y in v.items()), [])
                for k, v in b.items()}
    else:
        return
    c.seen('log', sub)
    c.eq(sorted(rows), sorted(want), 'log-sats', f"sub {sub}")
    for k, v in want.items():
        a = rows.get(k, [])
        ok = len(a) == len(v)
        for x, y in zip(a, v):
            try:
                ok = ok and (x == y or abs(float(x)-float(y)) < 0.0101)
            except ValueError:
                ok = False
        c.ok(ok, 'log-values', f"{k}: {a} expected {v}")


@chk.case(150, 6000)
def stream(c):
    """ history of messages, one or many per buffer """
    r = c.rng
    log = r.random() < .4
    cs, week, tow = new(c, log)
    e = Enc(c, week)
    live = e.live = r.random() < .4
    if live and r.random() < .6:
        tow = 3600*r.choice([168, 168, 24*r.randint(1, 7), r.randint(1, 168)]
                            )-r.choice([1, 5, 30, 300])
    old = r.random() < .3
    iod = r.randrange(16)
    have = False
    buf = BW()
    t_mask = None
    lpos = 0
    for k in range(r.randint(3, 25)):
        if not have or r.random() < .12:
            if have and r.random() < .5:
                w = e.mask(tow, e.m.mask, iod)
                c.seen('mask', 'repeat')
            else:
                if have:
                    iod = (iod+r.randint(1, 15)) % 16
                    c.seen('mask', 'new iod')
                w = e.mask(tow, newmask(c), iod)
                for g in e.m.mask.g:
                    c.seen('mask', g[0], g[3], len(g[1]) > 0)
            have = True
            t_mask = tow//3600
        else:
            w = step(c, e, tow, old, OLD if old else NEW)
        buf.cat(w)
        if r.random() < .5 or buf.n > 14000:
            c.seen('buffer', 'several' if buf.n != w.n else 'one')
            one = buf.n == w.n
            if live:
                observe(c, cs, week, tow)
            cs.decode_cssr(bytes(buf.bytes())+bytes(20))
            compare(c, cs, e.m, f"msg {k}")
            if log:
                text = open(cs.fh.name).read()
                if one:
                    chk_log(c, text[lpos:], w.get(12, 4), e.m)
                lpos = len(text)
            buf = BW()
            tow += r.choice([0, 5, 30, 600])
            if tow >= 604800 and not live:
                break
            if tow//3600 != t_mask and not live:
                have = False
    if log:
        cs.fh.close()


@chk.case(40, 1500)
def reject(c):
    """ messages of another IOD SSR do not touch the network corrections """
    r = c.rng
    cs, week, tow = new(c)
    e = Enc(c, week)
    iod = r.randrange(16)
    tow = min(tow//3600*3600, 604000)
    w = e.mask(tow, newmask(c), iod)
    for k in range(3):
        w.cat(step(c, e, tow+5, False, NEW))
    inet = r.randint(1, 12)
    w.cat(e.atmos(tow+5, inet, ngrid(inet), 3, 3))
    cs.decode_cssr(w.bytes()+bytes(20))
    compare(c, cs, e.m, 'before')
    # another iod
    o = Enc(c, week)
    o.m.tow0 = tow
    o.m.mask = e.m.mask if r.random() < .5 else newmask(c)
    o.m.iod = (iod+r.randint(1, 15)) % 16
    k = r.choice(['ura', 'stec', 'comb', 'atmos', 'grid'])
    c.seen('reject', k)
    if k == 'ura':
        w = o.ura(tow+10)
    elif k == 'stec':
        w = o.stec(tow+10, inet)
    elif k == 'grid':
        w = o.gridc(tow+10, inet, ngrid(inet))
    elif k == 'comb':
        w = o.comb(tow+10, r.choice([None, inet]))
    else:
        w = o.atmos(tow+10, inet, ngrid(inet))
    cs.decode_cssr(w.bytes()+bytes(20))
    e.m.tow = tow+10
    compare(c, cs, e.m, 'after '+k)
    # other message numbers and an empty buffer end the decoding
    w = BW().u(12, r.choice([0, 1, 4072, 4074, 4095])).u(4, r.randrange(16))
    w.u(64, ru(r, 64))
    cs.decode_cssr(w.bytes()+bytes(100))
    compare(c, cs, e.m, 'foreign')
    c.seen('foreign')


def l6(prn, vendor, fac, pt, first, data):
    """ L6 message: header, 1695 data bits, parity """
    w = BW().u(32, 0x1acffc1d).u(8, prn).u(3, vendor).u(2, fac).u(2, pt)
    w.u(1, first).u(1, 0).u(1695, data).u(256, 0)
    return w.bytes()


# facility of a transmission pattern
FAC = {0: {0: 0, 1: 2, 2: 1, 3: 3}, 1: {0: 2, 1: 0, 2: 3, 3: 1}}


@chk.case(60, 2500)
def frames(c):
    """ L6 frames: sub frames of five frames, loss, change of facility """
    r = c.rng
    cs, week, tow = new(c)
    e = Enc(c, week)
    tow = tow//3600*3600
    prn, vendor, pt = 193+r.randrange(8), 5, r.randrange(2)
    fac = r.randrange(4)
    first = True
    iod = r.randrange(16)
    cur = None
    asm, nf = None, 0         # expected assembly: frames in order
    lossy = r.random() < .7
    for s in range(r.randint(2, 10)):
        fac_n = fac
        if lossy and r.random() < .15:
            fac_n = r.randrange(4)
        keep = copy.deepcopy(e.m)
        w = BW()
        if first or r.random() < .3:
            iod = (iod+1) % 16
            w.cat(e.mask(tow, newmask(c), iod))
        while w.n < 8475:
            k2 = copy.deepcopy(e.m)
            x = step(c, e, tow+5, False, NEW)
            if w.n+x.n > 8475:
                e.m = k2
                break
            w.cat(x)
        w.pad(8475)
        lost = set()
        if lossy and r.random() < .4:
            lost = {r.choice([0, 0, 1, 2, 3, 4])} if r.random() < .6 else \
                set(r.sample(range(5), r.randint(2, 5)))
            # frames carry no number: two losses in a row across the border
            # of sub frames can not be told from none
            if 0 in lost and 0 < cs.fcnt < 5:
                lost.discard(0)
        done = mixed = False
        sw = 5
        if lossy and not lost and r.random() < .15:
            sw = r.randint(1, 4)     # other facility within the sub frame
            mixed = True
        for k in range(5):
            if k in lost:
                continue
            if k == sw:
                fac_n = (fac_n+r.randint(1, 3)) % 4
            d = w.get(k*1695, 1695)
            msg = l6(prn, vendor, fac_n, pt, int(k == 0), d)
            of = r.choice([0, 3, 12])
            if r.random() < .1:
                # a frame with a wrong preamble is ignored
                bad = bytearray(msg)
                bad[r.randrange(4)] ^= 1 << r.randrange(8)
                n0 = cs.fcnt
                rc = cs.decode_l6msg(bytes(of)+bytes(bad), of)
                c.ok(rc == -1 and cs.fcnt == n0, 'preamble')
                c.seen('preamble')
            cs.decode_l6msg(bytes(of)+msg, of)
            if cs.fcnt == 5:
                done = True
                c.ok(not lost, 'assembly-with-loss',
                     lambda: f"sub frame complete without {lost}")
                c.ok(not mixed, 'assembly-mixed',
                     lambda: f"two facilities, switch at {sw}")
                cs.decode_cssr(bytes(cs.buff), 0)
        if done:
            compare(c, cs, e.m, f"subframe {s}")
            first = False
            c.seen('subframe', fac_n == fac)
        else:
            c.ok(bool(lost) or mixed or fac_n != cur, 'assembly-missing',
                 f"sub frame {s}")
            e.m = keep
            c.seen('lost', len(lost), mixed)
            if e.m.mask is None:
                first = True
        if len(lost) < 5:
            cur = fac_n
        fac = fac_n
        if fac_n == cur and not lost:
            c.eq(cs.facility, FAC[pt][fac_n], 'facility', '')
        tow += 30
        if tow >= 604800-60:
            break
        if tow % 3600 == 0:
            first = True
