""" C09: RINEX navigation files """
from common import Check, snapshot
import gzip
import math
import os
import numpy as np
from cssrlib.gnss import (uGNSS, Nav, prn2sat, epoch2time, timediff, timeadd,
                          gtime_t)
from cssrlib.rinex import rnxdec, rnxenc
import ref_orbit as ro
from datetime import datetime, timedelta

chk = Check('C09', ['src/cssrlib/rinex.py'],
            rule='navigation files (RINEX 3.02-4.02) with every message type '
            'in random order, written by an independent formatter; '
            'distinct by version, constellation and message type')

BLANK = object()
EP0 = datetime(1980, 1, 6)


def sow(d):
    """ week, second of week of a calendar date """
    s = (d-EP0).total_seconds()
    return int(s//604800), s % 604800


def num(r, v):
    if v is BLANK:
        return ' '*19
    s = '%19.12E' % v
    return s.replace('E', r.choice('ED')) if r.random() < 0.3 else s


def val(v):
    return float('%19.12E' % v)


class Rec():
    """ builds the lines of a record and the expected attributes """

    def __init__(self, r):
        self.r, self.exp, self.lines = r, {}, []

    def f(self, name, v, cnv=float, k=1.0):
        """ numeric field stored in attribute `name` """
        if name:
            self.exp[name] = cnv(val(v)*k)
        return v

    def line(self, *v, pre='    '):
        s = pre+''.join(num(self.r, x) for x in v)
        s = s.rstrip() if self.r.random() < 0.8 else s.ljust(80)
        self.lines.append(s+'\n')


def date(r):
    d = datetime(r.randint(2006, 2079), r.randint(1, 12), r.randint(1, 28))
    if r.random() < 0.4:  # around the week boundary
        d -= timedelta(days=d.isoweekday() % 7)
        if r.random() < .3:
            return d-timedelta(minutes=15)
    return d+timedelta(minutes=15*r.choice([0, 0, 1, 8, 95,
                                            r.randint(0, 95)]))


def gt(d, s=0.0):
    return ('time', d+timedelta(seconds=s))


def kepler(q, first, third):
    r = q.r
    f = q.f
    q.line(first, f('crs', r.uniform(-99, 99)), f('deln', r.uniform(0, 1e-8)),
           f('M0', r.uniform(-3, 3)))
    sq = r.uniform(5000, 6600)
    q.line(f('cuc', r.uniform(-1e-5, 1e-5)), f('e', r.uniform(0, .1)),
           f('cus', r.uniform(-1e-5, 1e-5)), sq)
    q.exp['A'] = val(sq)**2
    q.line(third, f('cic', r.uniform(-1e-6, 1e-6)),
           f('OMG0', r.uniform(-3, 3)), f('cis', r.uniform(-1e-6, 1e-6)))
    q.line(f('i0', r.uniform(0, 1.2)), f('crc', r.uniform(-400, 400)),
           f('omg', r.uniform(-3, 3)), f('OMGd', r.uniform(-1e-8, 1e-8)))


def clockline(q, d, idc, a):
    s = idc+d.strftime(' %Y %m %d %H %M %S')
    q.line(*a, pre=s)


KINDS = {3: ['G', 'E', 'C', 'J', 'I', 'R', 'S'],
         4: ['G', 'G1', 'G2', 'E', 'E1', 'C', 'C1', 'C2', 'C3', 'J', 'J1',
             'J2', 'I', 'I2', 'R', 'R1', 'R3', 'S']}
LBL = {'G': 'LNAV', 'G1': 'CNAV', 'G2': 'CNV2', 'E': 'INAV', 'E1': 'FNAV',
       'C': 'D1', 'C1': 'CNV1', 'C2': 'CNV2', 'C3': 'CNV3', 'J': 'LNAV',
       'J1': 'CNAV', 'J2': 'CNV2', 'I': 'LNAV', 'I2': 'L1NV', 'R': 'FDMA',
       'R1': 'L1OC', 'R3': 'L3OC', 'S': 'SBAS'}
PRN = {'G': 32, 'E': 36, 'C': 63, 'J': 10, 'I': 14, 'R': 27}
SYS = {'G': uGNSS.GPS, 'E': uGNSS.GAL, 'C': uGNSS.BDS, 'J': uGNSS.QZS,
       'I': uGNSS.IRN, 'R': uGNSS.GLO, 'S': uGNSS.SBS}


def record(r, kind, ver):
    q = Rec(r)
    ch = kind[0]
    m = int(kind[1]) if len(kind) > 1 else 0
    n = r.randint(20, 58) if ch == 'S' else r.randint(1, PRN[ch])
    idc = '%s%02d' % (ch, n)
    sat = prn2sat(SYS[ch], n+(192 if ch == 'J' else 100 if ch == 'S' else 0))
    d = date(r)
    f, u = q.f, r.uniform
    I_ = lambda name, hi: f(name, float(r.randint(0, hi)), int)
    q.exp['sat'], q.exp['mode'] = sat, m
    if ver >= 4:
        q.lines.append(f"> EPH {idc} {LBL[kind]}\n")
        if kind == 'C' and (n <= 5 or n >= 59):
            q.lines[-1] = f"> EPH {idc} D2\n"
    if ch == 'R':
        week, s = sow(d)
        tn = u(-1e-3, 1e-3)
        q.exp['taun'] = -val(tn)
        fdma = m == 0
        tf = float(r.randint(0, 47)*1800 % 86400)
        # frame time: second of UTC week, within half a day of the epoch
        tf = (s + r.randint(-40, 40)*30) % 604800
        third = tf if fdma else f('beta', u(0, 1e-15))
        clockline(q, d, idc, (tn, f('gamn', u(-1e-11, 1e-11)), third))
        p, v, a = ([u(-2.5e4, 2.5e4) for _ in range(3)],
                   [u(-3, 3) for _ in range(3)],
                   [u(-9e-9, 9e-9) for _ in range(3)])
        svh = r.randint(0, 1)
        q.exp['svh'] = svh
        k = r.randint(-7, 6)
        last = [float(svh), float(k if r.random() < .8 or k >= 0 else k+256)
                if fdma else I_('status', 3), float(r.randint(0, 9))
                if fdma else u(-1e-8, 1e-8)]
        if not fdma:
            q.exp['isc'] = [0, val(last[2]), 0] if m == 1 else \
                [0, 0, val(last[2])]
        if fdma:
            q.exp['frq'] = k
            q.exp['age'] = int(last[2])
        for i in range(3):
            q.line(p[i], v[i], a[i], last[i])
        q.exp['pos'] = [val(x)*1e3 for x in p]
        q.exp['vel'] = [val(x)*1e3 for x in v]
        q.exp['acc'] = [val(x)*1e3 for x in a]
        if fdma and ver >= 3.05:
            four = r.random() < .5
            hs = r.randint(0, 7)
            q.line(I_('status', 255), f('dtaun', u(-1e-8, 1e-8)),
                   float(r.randint(0, 15)), float(hs) if four else BLANK)
            q.exp['urai0'] = int(q.lines[-1][42:61].replace(
                'D', 'E').split('.')[0] and float(
                    q.lines[-1][42:61].replace('D', 'E')))
            if four:
                q.exp['svh'] = hs
        if not fdma:
            q.line(I_('sattype', 3), I_('src', 15),
                   f('aode', r.randint(0, 255)*.25), f('aodc', r.randint(
                       0, 255)*.25))
            q.line(I_('flag', 1), f('tin', float(r.randint(0, 86399))),
                   f('tau1', u(0, 255)), f('tau2', u(0, 255)))
            q.line(f('psi', u(-3, 3)), I_('sn', 1), f('win', u(0, 2)),
                   f('dw', u(0, 2)))
            dp = [u(-4, 4) for _ in range(3)]
            q.line(f('wmax', u(0, 2)), *dp)
            q.exp['dpos'] = [val(x) for x in dp]
            ur = [float(r.randint(0, 31)) for _ in range(2)]
            q.exp['urai'] = [int(x) for x in ur]
            if r.random() < .5:
                q.line(*ur, tf)
            else:
                q.line(*ur, BLANK, tf)
        utc = d
        q.exp['toe'] = ('utc', utc)
        dt = (tf-s+302400) % 604800-302400
        q.exp['tof'] = ('utc', utc+timedelta(seconds=dt))
        sec = d.hour*3600+d.minute*60
        q.exp['iode'] = int(round(((sec+10800) % 86400)/900))
        return 'geph', sat, q
    if ch == 'S':
        d += timedelta(seconds=r.choice([0, 16, 448, 848, 880]))
        week, s = sow(d)
        dt = r.randint(-300, 300)
        tot = (s+dt) % 604800
        del q.exp['mode']
        clockline(q, d, idc, (f('af0', u(-1e-6, 1e-6)),
                              f('af1', u(-1e-11, 1e-11)), tot))
        p, v, a = ([u(-4.2e4, 4.2e4) for _ in range(3)],
                   [u(-1, 1) for _ in range(3)],
                   [u(-9e-8, 9e-8) for _ in range(3)])
        e = (I_('svh', 63), f('sva', float(r.choice([2, 4, 8, 32767]))),
             I_('iodn', 255))
        for i in range(3):
            q.line(p[i], v[i], a[i], e[i])
        q.exp['pos'] = [val(x)*1e3 for x in p]
        q.exp['vel'] = [val(x)*1e3 for x in v]
        q.exp['acc'] = [val(x)*1e3 for x in a]
        q.exp['t0'], q.exp['tof'] = gt(d), gt(d, dt)
        return 'seph', sat, q
    clockline(q, d, idc, (f('af0', u(-1e-3, 1e-3)), f('af1', u(-1e-10, 1e-10)),
                          f('af2', u(-1e-18, 1e-18))))
    if ch == 'C':   # epoch in BDT
        d14 = d+timedelta(seconds=14)
        week, s = sow(d)
        week -= 1356
        q.exp['toc'] = gt(d14)
    else:
        d14 = d
        week, s = sow(d)
        q.exp['toc'] = gt(d)
    q.exp['toe'] = q.exp['toc']
    tx = r.randint(-7200, 0)
    tot = s+tx if s+tx >= 0 or r.random() < .5 else s
    tx = tot-s
    q.exp['tot'] = gt(d14, tx)
    q.exp['week'] = week
    if ch in 'GJ':
        if m == 0:
            kepler(q, I_('iode', 255), s)
            q.line(f('idot', u(-1e-9, 1e-9)), float(r.randint(0, 2)),
                   float(week), I_('l2p', 1))
            hl = r.randint(0, 63)
            q.line(I_('sva', 20), float(hl), f('tgd', u(-2e-8, 2e-8)),
                   I_('iodc', 1023))
            q.exp['svh'] = hl if ch == 'G' else hl & 0xee
            if r.random() < .7:
                q.line(tot, I_('fit', 8))
            else:
                q.line(tot)
        else:
            top = s-float(r.randint(0, 7200))
            kepler(q, f('Adot', u(-.1, .1)), f('tops', top))
            q.exp['toes'] = s
            ed = r.randint(-16, 15)
            u4 = [float(r.randint(-16, 15)) for _ in range(3)]
            q.line(f('idot', u(-1e-9, 1e-9)), f('delnd', u(-1e-13, 1e-13)),
                   u4[0], u4[1])
            hl = r.randint(0, 7)
            q.line(float(ed), float(hl), f('tgd', u(-2e-8, 2e-8)), u4[2])
            q.exp['svh'] = hl if ch == 'G' else hl & 0xee
            q.exp['sva'] = ed
            q.exp['urai'] = [int(x) for x in u4]+[ed]
            isc = [u(-2e-8, 2e-8) for _ in range(6)]
            q.line(*isc[:4])
            nI = 4
            if m == 2:
                q.line(isc[4], isc[5])
                nI = 6
            q.exp['isc'] = [val(x) for x in isc[:nI]]+[0.0]*(6-nI)
            if r.random() < .5:
                q.line(float(int(tot)), I_('wn_op', 255), I_('integ', 7))
            else:
                q.line(float(int(tot)), I_('wn_op', 255))
        if m:
            q.exp.pop('week')
    elif ch == 'E':
        kepler(q, I_('iode', 1023), s)
        q.exp['iodc'] = q.exp['iode']
        src = r.choice([513, 516, 517, 258])
        if ver >= 4:
            src = 258 if m == 1 else r.choice([513, 516, 517])
        q.line(f('idot', u(-1e-9, 1e-9)), f('code', float(src), int),
               float(week))
        if ver < 4:
            q.exp['mode'] = 1 if src == 258 else 0
        a, b = u(-2e-8, 2e-8), u(-2e-8, 2e-8)   # BGD E5a/E1, E5b/E1
        q.line(f('sva', float(r.randint(-1, 6)), int), I_('svh', 511), a, b)
        if src & 512:
            q.exp['tgd'], q.exp['tgd_b'] = val(b), val(a)
        else:
            q.exp['tgd'], q.exp['tgd_b'] = val(a), val(b)
        q.line(tot)
    elif ch == 'C':
        if m == 0:
            kepler(q, I_('iode', 31), s)
            q.line(f('idot', u(-1e-9, 1e-9)), BLANK, float(week))
            q.line(I_('sva', 15), I_('svh', 1), f('tgd', u(-2e-8, 2e-8)),
                   f('tgd_b', u(-2e-8, 2e-8)))
            q.line(tot, I_('iodc', 31))
        else:
            kepler(q, f('Adot', u(-.1, .1)), s)
            q.line(f('idot', u(-1e-9, 1e-9)), f('delnd', u(-1e-13, 1e-13)),
                   f('sattype', float(r.randint(0, 3)), int),
                   f('tops', float(r.randint(0, 604799)), int))
            si = [float(r.randint(0, 31)) for _ in range(4)]
            q.line(*si)
            q.exp['sisai'] = [int(x) for x in si]
            if m < 3:
                isc = u(-2e-8, 2e-8)
                q.line(isc if m == 1 else BLANK, isc if m == 2 else BLANK,
                       f('tgd', u(-2e-8, 2e-8)), f('tgd_b', u(-2e-8, 2e-8)))
                q.exp['isc'] = [0.0]*6
                q.exp['isc'][m-1] = val(isc)
            q.line(I_('sismai', 15), I_('svh', 2), I_('integ', 7),
                   I_('iodc', 1023) if m < 3 else f('tgd', u(-2e-8, 2e-8)))
            q.line(tot, BLANK, BLANK, I_('iode', 255) if m < 3 else BLANK)
            # transmission time carries no week: same week as the epoch
            q.exp['tot'] = gt(d14, tot-s)
    elif ch == 'I':
        if m == 0:
            kepler(q, I_('iode', 255), s)
            q.exp['iodc'] = q.exp['iode']
            q.line(f('idot', u(-1e-9, 1e-9)), BLANK, float(week))
            q.line(f('sva', float(r.choice([2.0, 2.8, 4.0]))), I_('svh', 3),
                   f('tgd', u(-2e-8, 2e-8)))
            q.line(tot)
        else:
            iod = I_('iode', 15)
            kepler(q, f('Adot', u(-.1, .1)), iod)
            q.exp['iodc'] = q.exp['iode']
            rsf = r.randint(0, 1)
            q.line(f('idot', u(-1e-9, 1e-9)), f('delnd', u(-1e-13, 1e-13)),
                   BLANK, f('integ', float(rsf), int))
            tg = f('tgd', u(-2e-8, 2e-8))
            i5, i4 = u(-2e-8, 2e-8), u(-2e-8, 2e-8)
            if rsf == 0:
                q.line(I_('urai', 15), I_('svh', 3), tg)
                q.line(i5, i4)
            else:
                q.line(I_('urai', 15), I_('svh', 3), BLANK, tg)
                q.line(BLANK, BLANK, i5, i4)
            q.exp['isc45'] = [val(i4), val(i5)]
            q.line(tot)
    return 'eph', sat, q


def gps2utc(c, t, utc):
    """ |t - (utc + leap seconds)| """
    leap = ro_leap(utc)
    return abs(tsec(t)-((utc-datetime(1970, 1, 1)).total_seconds()+leap))


LEAPS = [datetime(*x) for x in (
    (1981, 7, 1), (1982, 7, 1), (1983, 7, 1), (1985, 7, 1), (1988, 1, 1),
    (1990, 1, 1), (1991, 1, 1), (1992, 7, 1), (1993, 7, 1), (1994, 7, 1),
    (1996, 1, 1), (1997, 7, 1), (1999, 1, 1), (2006, 1, 1), (2009, 1, 1),
    (2012, 7, 1), (2015, 7, 1), (2017, 1, 1))]


def ro_leap(utc):
    return sum(1 for x in LEAPS if utc >= x)


def tsec(t):
    return t.time+t.sec


def compare(c, got, q, tag):
    for k, v in sorted(q.exp.items()):
        if k == 'urai0':
            g = got.urai[0]
        elif k == 'isc45':
            g = [got.isc[4], got.isc[5]]
        else:
            g = getattr(got, k)
        if isinstance(v, tuple) and v[0] == 'time':
            c.ok(abs(tsec(g)-(v[1]-datetime(1970, 1, 1)).total_seconds())
                 < 1e-6, f"{tag}:{k}", f"{g.time} {v}")
        elif isinstance(v, tuple) and v[0] == 'utc':
            c.ok(gps2utc(c, g, v[1]) < 1e-6, f"{tag}:{k}", f"{g.time} {v}")
        else:
            c.close(g, v, 0, f"{tag}:{k}", rtol=1e-14)


@chk.case(500, 15000, minseen=60)
def decode(c):
    r = c.rng
    ver = r.choice([3.02, 3.03, 3.04, 3.05, 4.0, 4.01, 4.02])
    out = ['%9.2f           NAVIGATION DATA     M'.ljust(60) % ver]
    out = [('%9.2f           NAVIGATION DATA     M' % ver).ljust(60) +
           'RINEX VERSION / TYPE\n']
    al = [round(r.uniform(-1e-7, 1e-7), 11) for _ in range(4)]
    be = [float(r.randint(-200000, 200000)) for _ in range(4)]
    h = []
    sysc = r.choice(['GPS', 'QZS'])
    klob = r.random() < .6
    if klob:
        h.append(f"{sysc}A "+''.join('%12.4E' % x for x in al))
        h.append(f"{sysc}B "+''.join('%12.4E' % x for x in be))
    h = [(x.ljust(60)+'IONOSPHERIC CORR\n') for x in h]
    h.append('comment'.ljust(60)+'COMMENT\n')
    leap = r.randint(13, 20)
    h.append(('%6d' % leap).ljust(60)+'LEAP SECONDS\n')
    r.shuffle(h)
    out += h+[' '*60+'END OF HEADER\n']
    recs = []
    other = {}
    for _ in range(r.randint(1, 25)):
        kind = r.choice(KINDS[int(ver)])
        lst, sat, q = record(r, kind, ver)
        recs.append((lst, kind, q))
        out += q.lines
        if ver >= 4 and r.random() < .3:
            out += extra(r, other)
    gz = r.random() < .2
    path = os.path.join(c.tmp, 'n.rnx'+('.gz' if gz else ''))
    with (gzip.open if gz else open)(path, 'wt') as fh:
        fh.write(''.join(out))
    nav = Nav()
    nav.eph, nav.geph = [1], [2]
    dec = rnxdec()
    dec.decode_nav(path, nav)
    if klob:
        c.close(nav.ion[0], [float('%12.4E' % x) for x in al], 0, 'ion alpha')
        c.close(nav.ion[1], [float('%12.4E' % x) for x in be], 0, 'ion beta')
    c.eq(nav.leaps, leap, 'leap seconds')
    for lst in ('eph', 'geph', 'seph'):
        got = getattr(nav, lst)
        E = [x for x in recs if x[0] == lst]
        if not c.eq([e.sat for e in got], [q.exp['sat'] for _, _, q in E],
                    f"{lst} records"):
            return
        for e, (_, kind, q) in zip(got, E):
            compare(c, e, q, kind)
            c.seen(ver, kind)
    for (typ, sys, im), v in other.items():
        c.seen(typ, sys, im)
        p = {'STO': nav.sto_prm, 'EOP': nav.eop_prm,
             'ION': nav.ion_prm}[typ][sys][im]
        for k, x in v.items():
            if isinstance(x, tuple):
                c.ok(abs(tsec(getattr(p, k))-(x[1]-datetime(
                    1970, 1, 1)).total_seconds()) < 1e-6, f"{typ}:{k}", '')
            else:
                c.close(getattr(p, k), x, 0, f"{typ}:{sys}:{im}:{k}",
                        rtol=1e-14)
    # appending keeps what is there
    n = len(nav.eph), len(nav.geph), len(nav.seph)
    rnxdec().decode_nav(path, nav, append=True)
    c.eq((len(nav.eph), len(nav.geph), len(nav.seph)),
         tuple(2*x for x in n), 'append')
    c.sample(f"v{ver}: {len(recs)} records")


def extra(r, other):
    """ system time offset, earth orientation and ionosphere messages """
    typ = r.choice(['STO', 'EOP', 'ION'])
    ln = []
    if r.random() < .1 and typ != 'ION':     # message of an unknown kind
        return [f"> {typ} G{r.randint(1, 9):02d} XXXX\n",
                '    2023 01 02 03 04 05'+' 1.000000000000E+00'*3+chr(10)] + \
            ['    '+' 1.000000000000E+00'*4+chr(10)] * \
            {'STO': 1, 'EOP': 2}[typ]
    d = date(r)
    pre = d.strftime('    %Y %m %d %H %M %S')

    def v(n, lo=-1e-6, hi=1e-6):
        return [r.uniform(lo, hi) for _ in range(n)]

    def put(*x, p='    '):
        ln.append((p+''.join(num(r, y) for y in x)).rstrip()+'\n')
    if typ == 'STO':
        ch, it, im = r.choice([('G', 'LNAV', 0), ('E', 'IFNV', 2),
                               ('C', 'D1D2', 3), ('C', 'CNVX', 5),
                               ('J', 'LNAV', 0), ('R', 'FDMA', 1),
                               ('I', 'L1NV', 6)])
        n = r.randint(1, 9)
        a, b = r.sample(['GP', 'GL', 'GA', 'BD', 'QZ', 'IR', 'SB', 'UT'], 2)
        src = {'GP': uGNSS.GPS, 'GL': uGNSS.GLO, 'GA': uGNSS.GAL,
               'BD': uGNSS.BDS, 'QZ': uGNSS.QZS, 'IR': uGNSS.IRN,
               'SB': uGNSS.SBS, 'UT': uGNSS.NONE}
        ln.append(f"> STO {ch}{n:02d} {it}\n")
        ln.append(f"{pre} {a+b}\n")
        tt, x = float(r.randint(0, 604799)), v(3)
        put(tt, *x)
        other[(typ, SYS[ch], im)] = dict(
            t_ot=gt(d), prm=[int(src[a]), int(src[b])], t_t=tt,
            a=[val(y) for y in x])
    elif typ == 'EOP':
        ch, it, im = r.choice([('G', 'CNVX', 5), ('J', 'CNVX', 5),
                               ('C', 'CNVX', 5), ('I', 'L1NV', 6)])
        ln.append(f"> EOP {ch}{r.randint(1, 9):02d} {it}\n")
        x = v(9)
        put(*x[:3], p=pre)
        put(BLANK, *x[3:6])
        tt = float(r.randint(0, 604799))
        put(tt, *x[6:])
        # second line: blank first field
        other[(typ, SYS[ch], im)] = dict(
            t_eop=gt(d), t_t=tt, prm=[val(y) for y in x])
    else:
        ch, it, im, kind = r.choice([
            ('G', 'LNAV', 0, 'K'), ('C', 'D1D2', 3, 'K'),
            ('J', 'CNVX', 5, 'K'), ('G', 'CNVX', 5, 'K'),
            ('E', 'IFNV', 2, 'N'), ('C', 'CNVX', 5, 'B'),
            ('R', 'LXOC', 7, 'O'), ('I', 'L1NV', 6, 'KLOB'),
            ('I', 'L1NV', 6, 'NEQN'), ('I', 'L1NV', 6, 'KLOB')])
        st = ' '+kind if len(kind) > 1 else ''
        ln.append(f"> ION {ch}{r.randint(1, 9):02d} {it}{st}\n")
        if kind == 'O':
            x = v(3, 0, 300)
            put(*x, p=pre)
            prm = [val(y) for y in x]+[0]*6
        elif kind == 'KLOB':
            iod, x = float(r.randint(0, 15)), v(12)
            put(iod, p=pre)
            for k in (0, 4, 8):
                put(*x[k:k+4])
            x = [val(y) for y in x]
            prm = x[:8]+[0]
            other[(typ, SYS[ch], im)] = dict(t_tm=gt(d), prm=prm, iod=iod,
                                             region=x[8:])
            return ln
        elif kind == 'NEQN':
            iod, x = float(r.randint(0, 15)), v(24, -200, 200)
            put(iod, p=pre)
            for k in range(0, 24, 4):
                put(*x[k:k+4])
            x = [val(y) for y in x]
            prm = [x[:8], x[8:16], x[16:]]
            other[(typ, SYS[ch], im)] = dict(t_tm=gt(d), prm=prm, iod=iod)
            return ln
        elif kind == 'N':
            x = v(3, -50, 50)
            put(*x, p=pre)
            fl = float(r.randint(0, 31))
            put(fl)
            prm = [val(y) for y in x]+[fl]+[0]*5
        else:
            x = v(9)
            put(*x[:3], p=pre)
            put(*x[3:7])
            if kind == 'B':
                put(*x[7:])
                prm = [val(y) for y in x]
            else:
                rg = r.choice([None, 0, 1])
                if rg is None:
                    put(x[7])
                    rg = 0
                else:
                    put(x[7], float(rg))
                prm = [val(y) for y in x[:8]]+[rg]
        other[(typ, SYS[ch], im)] = dict(t_tm=gt(d), prm=prm)
    return ln


ATT = ['sat', 'mode', 'af0', 'af1', 'af2', 'crs', 'deln', 'M0', 'cuc', 'e',
       'cus', 'cic', 'OMG0', 'cis', 'i0', 'crc', 'omg', 'OMGd', 'idot',
       'svh', 'tgd', 'tgd_b', 'toes']


GCD = ['beta', 'isc', 'sattype', 'src', 'aode', 'aodc', 'flag', 'tin',
       'tau1', 'tau2', 'psi', 'sn', 'win', 'dw', 'wmax', 'dpos', 'urai']


@chk.case(400, 8000, minseen=12)
def roundtrip(c):
    """ records written by the encoder are read back unchanged """
    r = c.rng
    path = os.path.join(c.tmp, 'a.rnx')
    out = [('%9.2f           NAVIGATION DATA     M' % 4.02).ljust(60) +
           'RINEX VERSION / TYPE\n', ' '*60+'END OF HEADER\n']
    kinds = []
    for _ in range(r.randint(1, 12)):
        k = r.choice(KINDS[4])
        kinds.append(k)
        out += record(r, k, 4.02)[2].lines
    with open(path, 'w') as fh:
        fh.write(''.join(out))
    n1 = rnxdec().decode_nav(path, Nav())
    enc = rnxenc()
    p2 = os.path.join(c.tmp, 'b.rnx')
    s0 = snapshot([n1.eph, n1.geph, n1.seph])
    with open(p2, 'w') as fh:
        enc.rnx_nav_header(fh)
        for rep in range(2):      # repeated records are written once
            for e in n1.eph:
                enc.rnx_nav_body(e, fh)
            for e in n1.geph:
                enc.rnx_gnav_body(e, fh)
            for e in n1.seph:
                enc.rnx_snav_body(e, fh)
            if rep == 0 and len({(e.sat, e.mode) for e in n1.eph+n1.geph}) \
                    < len(n1.eph+n1.geph):
                break
            if rep == 0 and len({e.sat for e in n1.seph}) < len(n1.seph):
                break
    c.ok(snapshot([n1.eph, n1.geph, n1.seph]) == s0, 'records modified', '')
    n2 = rnxdec().decode_nav(p2, Nav())
    for lst in ('eph', 'geph', 'seph'):
        a, b = getattr(n1, lst), getattr(n2, lst)
        if not c.eq([x.sat for x in b], [x.sat for x in a], f"{lst} records"):
            return
        for x, y in zip(a, b):
            if lst == 'eph':
                sys = int((x.sat-1)*0)
                atts = ATT+['Adot', 'delnd', 'iode', 'iodc', 'week', 'fit',
                            'sismai', 'sattype', 'integ', 'wn_op', 'isc',
                            'sisai', 'tops', 'l2p']
                tag = f"{sysname(x.sat)}{x.mode}"
                if sysname(x.sat) == 'J':
                    atts = [k for k in atts if k != 'svh']
                tms = ('toc', 'toe', 'tot')
            elif lst == 'geph':
                atts = ['taun', 'gamn', 'pos', 'vel', 'acc', 'frq', 'age',
                        'iode', 'mode', 'dtaun', 'status', 'svh']
                if x.mode:
                    atts += GCD
                else:
                    atts.append('sva')
                tms, tag = ('toe', 'tof'), f"R{x.mode}"
            else:
                atts = ['af0', 'af1', 'pos', 'vel', 'acc', 'svh', 'sva',
                        'iodn']
                tms, tag = ('t0', 'tof'), 'S'
            for k in atts:
                c.close(getattr(y, k), getattr(x, k), 0, f"{tag}:{k}",
                        rtol=3e-12)
            for k in tms:
                c.ok(abs(timediff(getattr(x, k), getattr(y, k))) < 1e-6,
                     f"{tag}:{k}", '')
            c.seen(tag)


def sysname(sat):
    from cssrlib.gnss import sat2id
    return sat2id(sat)[0]


@chk.case(300, 5000, minseen=8)
def updates(c):
    """ every new record is written once, repetitions are not """
    r = c.rng
    enc = rnxenc()
    path = os.path.join(c.tmp, 'u.rnx')
    exp = {'eph': [], 'geph': [], 'seph': []}
    t = ro.gps(2200, 7200.0*r.randint(0, 80))
    sats = [prn2sat(uGNSS.GPS, 3), prn2sat(uGNSS.GAL, 7),
            prn2sat(uGNSS.BDS, 21), prn2sat(uGNSS.GLO, 4)]
    with open(path, 'w') as fh:
        enc.rnx_nav_header(fh)
        last = {}
        for k in range(r.randint(2, 10)):
            sat = r.choice(sats)
            m = r.choice([0, 0, 1]) if sat != sats[3] else 0
            t = timeadd(t, 7200.0)
            if r.random() < .4 and (sat, m) in last:
                e = last[(sat, m)]
                new = False
            else:
                iode = r.choice([1, 1, 2])
                if sat == sats[3]:
                    e = ro.gen_geph(r, sat, timeadd(t, 18.0))
                    e.mode, e.tof = 0, t
                    e.iode = iode
                    e.toes = 0.0
                else:
                    e = ro.gen_eph(r, sat, timeadd(
                        t, 14.0 if sat == sats[2] else 0.0), m, iode)
                    e.toc = e.toe
                    if not isinstance(e.tot, gtime_t):
                        e.tot = t
                new = True
            last[(sat, m)] = e
            (enc.rnx_gnav_body if sat == sats[3] else enc.rnx_nav_body)(e, fh)
            if new:
                exp['geph' if sat == sats[3] else 'eph'].append(e)
            c.seen(sat, m, new)
    nav = rnxdec().decode_nav(path, Nav())
    for lst in ('eph', 'geph'):
        if c.eq([(e.sat, e.mode) for e in getattr(nav, lst)],
                [(e.sat, e.mode) for e in exp[lst]], f"{lst} written"):
            for a, b in zip(getattr(nav, lst), exp[lst]):
                c.ok(abs(timediff(a.toe, b.toe)) < 1, f"{lst} toe", '')
