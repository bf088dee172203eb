""" C43: text reports of the correction decoders """
from common import Check
from bits import BW, ru
from datetime import datetime, timedelta
import math
import os
import c24
import c26
import c27
import c35
from enc_cssr import Enc, observe
from cssrlib.gnss import bdt2gpst, bdt2time, timeadd
from cssrlib.cssr_bds import cssr_bds

chk = Check('C43', ['src/cssrlib/cssrlib.py', 'src/cssrlib/cssr_has.py',
                    'src/cssrlib/cssr_bds.py', 'src/cssrlib/cssr_mdc.py'],
            rule='encoded CLAS, HAS, PPP-B2b and MADOCA message histories '
            'with the report switched on; distinct by service, block, '
            'several messages per buffer and rejected messages')


def hdr(week, tow):
    t = datetime(1980, 1, 6)+timedelta(days=7*week, seconds=int(tow))
    return t.strftime('%Y-%m-%d %H:%M:%S')


def val(v, d):
    """ printed value, its tolerance """
    return ('f', v, .51*10.0**-d)


def orbs(s, clk=False):
    """ rows of an orbit (and clock) block """
    out = {}
    for k, v in (s.get('dorb') or {}).items():
        if v[0] != v[0]:
            continue
        o = [('s', str(s['iode'][k]), 0)]+[val(x, 3) for x in v]
        if clk:
            d = (s.get('dclk') or {}).get(k)
            if d is None or d != d:
                continue
            o.append(val(d, 4))
        out[k] = o
    return out


def block(s, sub):
    """ rows of a block; None: heading only """
    if sub == 2:
        return orbs(s)
    if sub == 11:
        return orbs(s, True)
    if sub == 3:
        return {k: [val(v, 4)] for k, v in s['dclk'].items() if v == v}
    if sub in (4, 5):
        b = s['cbias' if sub == 4 else 'pbias'] or {}
        return {k: sum(([('s', x, 0), val(y, 2)] for x, y in v.items()), [])
                for k, v in b.items()}
    return None


def parse(text):
    """ blocks of the report: [heading words, table title, {name: words}] """
    out = []
    for ln in text.split('\n'):
        if not ln.strip() or ln.startswith('#####'):
            continue
        w = ln.split()
        if w[0].endswith('/'):
            # the sub type is printed with a blank before it
            w = [w[0]+w[1]]+w[2:]
        if ln.count('\t') == 1 and ':' in ln and not ln.startswith('Reg'):
            out.append([w[0], ' '.join(w[1:3]), []])
        elif ln[:4].strip().isdigit() and '-' in ln and ':' in ln:
            out.append([w[0], ' '.join(w[1:3]), []])
        else:
            if not out:
                out.append(['', '', []])
            out[-1][2].append(w)
    return out


def same(c, words, want, tag):
    ok = len(words) == len(want)
    for x, (k, v, tol) in zip(words, want):
        if k == 's':
            ok = ok and x == v
            continue
        try:
            x = float(x)
        except ValueError:
            ok = False
            continue
        ok = ok and (math.isnan(x) if v != v else abs(x-v) <= tol)
    c.ok(ok, 'values', lambda: f"{tag}: {words} instead of "
         f"{[str(q[1]) for q in want]}")


def judge(c, got, want, tag):
    """ blocks of one decoder call """
    if not c.eq(len(got), len(want), 'blocks',
                f"{tag}: {[g[:2] for g in got]} expected "
                f"{[w[:2] for w in want]}"):
        return
    for (h, t, rows), (wh, wt, wr) in zip(got, want):
        tg = f"{tag} block {wh}"
        if wh is not None:
            c.eq(h, wh, 'heading', tg)
        c.eq(t, wt, 'time', tg)
        if wr is None:
            c.eq(len(rows), 0, 'empty', tg)
            continue
        if not c.ok(len(rows) > 0 and rows[0][0] == 'SatID', 'title', tg):
            continue
        r = {}
        for q in rows[1:]:
            c.ok(q[0] not in r, 'twice', tg)
            r[q[0]] = q[1:]
        if c.eq(sorted(r), sorted(wr), 'satellites', tg):
            for k in r:
                same(c, r[k], wr[k], f"{tg} {k}")


class Tail():
    """ what was added to the report """

    def __init__(self, fh):
        self.fh, self.pos = fh, 0

    def new(self):
        self.fh.flush()
        s = open(self.fh.name).read()
        out, self.pos = s[self.pos:], len(s)
        return out


@chk.case(60, 2500)
def clas(c):
    """ Compact SSR of CLAS """
    r = c.rng
    cs, week, tow = c24.new(c, True)
    e = Enc(c, week)
    live = e.live = r.random() < .4
    tail = Tail(cs.fh)
    iod, have, hour = r.randrange(16), False, None
    buf, want = BW(), []
    for k in range(r.randint(3, 25)):
        if not have or r.random() < .1:
            iod = (iod+1) % 16
            w = e.mask(tow, c24.newmask(c), iod)
            have, hour = True, tow//3600
        else:
            w = c24.step(c, e, tow, False, c24.NEW)
        sub = w.get(12, 4)
        buf.cat(w)
        want.append((f"4073/{sub}", hdr(week, e.m.tow),
                     block(e.m.net(0), sub)))
        c.seen('clas', sub, len(want) > 1)
        if r.random() < .5 or buf.n > 14000:
            if live:
                observe(c, cs, week, tow)
            cs.decode_cssr(bytes(buf.bytes())+bytes(20))
            judge(c, parse(tail.new()), want, f"CLAS {k}")
            buf, want = BW(), []
            tow += r.choice([0, 5, 30, 600])
            if tow >= 604800 and not live:
                break
            if tow//3600 != hour and not live:
                have = False
    cs.fh.close()


HSUB = {'orb': 2, 'clk': 3, 'sub': 3, 'cb': 4, 'pb': 5}


class Rec():
    """ HAS encoder that remembers the blocks """

    def __init__(self, e):
        self.e, self.m = e, e.m

    def message(self, toh, bl, mask, mid, iod):
        self.bl = bl
        return self.e.message(toh, bl, mask, mid, iod)


@chk.case(60, 2500)
def has(c):
    """ Galileo HAS """
    r = c.rng
    cs = c26.fresh(c, True)
    e = c26.Has(c, cs.week, cs.tow0)
    rec = Rec(e)
    tail = Tail(cs.fh)
    st = {}
    toh = r.choice([0, 3000, 1800])
    for k in range(r.randint(2, 10)):
        w = c26.script(c, rec, toh, st)
        want = [(f"{cs.msgtype:d}/{HSUB[b]}", hdr(e.m.week, e.m.tow),
                 block(e.m.net(0), HSUB[b]))
                for b in ('orb', 'clk', 'sub', 'cb', 'pb') if b in rec.bl]
        for b in rec.bl:
            c.seen('has', b, len(rec.bl))
        cs.decode_cssr(w.bytes()+bytes(53))
        text = tail.new()
        head = [x for x in text.split('\n') if x.startswith('#####')]
        if c.eq(len(head), 1, 'has head', text[:200]):
            q = head[0].replace('=', ' ').replace('TOH', 'TOH ').split()
            fl = sum(1 << (5-i) for i, b in enumerate(
                ('mask', 'orb', 'clk', 'sub', 'cb', 'pb')) if b in rec.bl)
            ok = q[4:6] == ['TOH', str(toh)] and q[7] == bin(fl) and \
                q[9] == str(st['id']) and q[11] == str(e.m.iod)
            c.ok(ok, 'has head', lambda: f"{head[0]} expected TOH {toh} flags "
                 f"{bin(fl)} mask {st['id']} iod {e.m.iod}")
        judge(c, parse(text), want, f"HAS {k}")
        if r.random() < .2:
            # corrections of another mask
            bad = BW().add('u12 u6 u4 u5 u5', toh, r.choice([16, 8, 2, 1, 31]),
                           0, (st['id']+r.randint(1, 31)) % 32, 9)
            cs.decode_cssr(bad.u(3000, ru(r, 3000)).bytes())
            judge(c, parse(tail.new()), [], f"HAS {k} foreign")
            c.seen('has', 'foreign')
        toh += r.choice([1, 10, 50])
        if toh >= 3600:
            break
    cs.fh.close()


@chk.case(60, 2500)
def b2b(c):
    """ BeiDou PPP-B2b """
    r = c.rng
    cs = cssr_bds(os.path.join(c.tmp, 'log.txt'))
    cs.monlevel = 1
    cs.week = r.randint(700, 1200)
    cs.tow0 = 86400*r.randint(0, 6)
    e = c27.B2b(c, cs.week, cs.tow0)
    tail = Tail(cs.fh)

    def send(w):
        cs.decode_cssr(w.bytes()+bytes(4), 0)
    send(e.mask(r.randrange(4), r.randrange(16)))
    judge(c, parse(tail.new()), [], 'mask')
    for k in range(r.randint(5, 25)):
        f = r.choice([e.orb, e.orb, e.clk, e.clk, e.cb, e.ura, e.comb,
                      e.comb1])
        iod = e.bad() if r.random() < .08 else None
        w = f(iod)
        send(w)
        sub = {e.orb: 2, e.cb: 4, e.clk: 3}.get(f)
        got = parse(tail.new())
        if iod is None:
            t = hdr(e.week+1356, e.time+14)
            judge(c, got, [] if sub is None else
                  [(None, t, block(e.st, sub))], f"B2b {k} {f.__name__}")
        for g in got:
            c.ok(sub is not None and g[0].split('/')[1] == str(sub),
                 'subtype', f"{g[0]} {f.__name__}")
        c.seen('b2b', f.__name__, iod is None)
        e.tod += r.choice([0, 1, 6, 48])
        if e.tod >= 86400:
            break
    cs.fh.close()


COL = 'Sat,stype,c00,c01,c10,c11,c02,c20'
ORD = {'c00': 0, 'c01': 1, 'c10': 2, 'c11': 3, 'c02': 4, 'c20': 5}


@chk.case(60, 2500)
def madoca(c):
    """ areas and coefficients of the wide area ionosphere """
    r = c.rng
    cs, e, tow = c35.fresh(c, True)
    tail = Tail(cs.fh)
    w = e.mask(tow, c35.newmask(c), 3)
    cs.decode_cssr(w.bytes()+bytes(20))
    g = parse(tail.new())
    c.ok(len(g) == 1 and g[0][0] in ('4073', '4073/1') and
         g[0][1] == hdr(cs.week, tow) and not g[0][2], 'mask', str(g))
    t0 = tow
    for k in range(r.randint(3, 12)):
        reg = r.randint(1, 5)
        buf, kinds = BW(), []
        for _ in range(r.choice([1, 1, 2, 3])):
            if r.random() < .4:
                buf.cat(e.mt1(tow, reg, c35.areas(r, reg)))
                rows = {a: s for (q, a), s in e.areas.items() if q == reg}
                kinds.append((1, reg, rows))
            else:
                a = r.randint(1, c35.NAREA[reg])
                buf.cat(e.mt2(tow, reg, a))
                kinds.append((2, (reg, a), e.corr[reg, a][1:]))
        cs.decode_cssr(buf.bytes()+bytes(20))
        got = parse(tail.new())
        if not c.eq([g[0] for g in got], [str(q[0]) for q in kinds], 'blocks',
                    f"MADOCA {k}"):
            return
        for g, (mt, key, want) in zip(got, kinds):
            tag = f"MADOCA {k} {mt} {key}"
            if mt == 1:
                area_rows(c, g[2], key, want, tag)
            else:
                stec_rows(c, g[2], key, want, tag)
            c.seen('madoca', mt, len(want) > 1, len(kinds) > 1)
        tow += r.choice([0, 5, 30])
        if tow//3600 != t0//3600:
            break
    cs.fh.close()


def area_rows(c, rows, reg, want, tag):
    c.ok(rows and rows[0] == 'Reg Area sid latr lonr lats lons'.split(),
         'title', tag)
    got = {int(q[1]): q for q in rows[1:]}
    c.eq(sorted(got), sorted(want), 'areas', tag)
    c.eq(len(rows)-1, len(want), 'area twice', tag)
    for a, s in want.items():
        if a not in got:
            continue
        la, lo = s.ref()
        rect = isinstance(s, c35.Rect)
        v = [('s', str(reg), 0), ('s', str(a), 0),
             ('s', '0' if rect else '1', 0), val(la, 1), val(lo, 1)]
        v += [val(s.hl*.1, 1), val(s.ho*.1, 1)] if rect else \
            [val(s.rng*10.0, 1)]
        same(c, got[a], v, f"{tag} area {a}")


def stec_rows(c, rows, key, want, tag):
    st, sats = want
    h = ''.join(rows[0]).replace('\t', '') if rows else ''
    c.ok(h == f"Reg:{key[0]}Area:{key[1]}", 'place', lambda: f"{tag}: {h}")
    col = rows[1][0].split(',') if len(rows) > 1 else []
    if not c.eq(sorted(col), sorted(COL.split(',')), 'columns', tag):
        return
    c.eq([q[0] for q in rows[2:]], list(sats), 'satellites', tag)
    n = [1, 3, 4, 6][st]
    for q in rows[2:]:
        if q[0] not in sats:
            continue
        z = sats[q[0]][1]
        v = [('s', q[0], 0), ('s', str(st), 0)] + \
            [val(z[ORD[x]], 2) for x in col[2:2+n]]
        same(c, q, v, f"{tag} {q[0]}")
