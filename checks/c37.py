""" C37: disaster and crisis reports (EWSS) """
from common import Check
from bits import BW, ru
import contextlib
import datetime as dtm
import io
import math
import re
import ewss_tabs
from cssrlib.gnss import epoch2time, timediff
from cssrlib.ewss import jmaDec, camfDec
from cssrlib.dgps import dgpsDec

chk = Check('C37', ['src/cssrlib/ewss.py', 'src/cssrlib/dgps.py'],
            rule='independently encoded reports of every category and hazard '
            'around turns of days, months, years and weeks; distinct by '
            'category, hazard and option')

CACHE = {}


def dec(c, cls):
    """ decoder (the tables are read once per process) """
    if c.rng.random() < .02 or cls not in CACHE:
        kw = {'year': 2024} if cls is dgpsDec and c.rng.random() < .5 else {}
        CACHE[cls] = ewss_tabs.build(c.tmp, cls, **kw)
    return CACHE[cls]


def gt(t):
    return epoch2time([t.year, t.month, t.day, t.hour, t.minute,
                       t.second+t.microsecond*1e-6])


def same(c, a, t, sig, msg=''):
    c.ok(abs(timediff(a, gt(t))) < 1e-3, sig, f"{a.time} {t} {msg}")


def key(r, n):
    """ key of n bits for which the table has a text """
    m = 1 << n
    if m > 1024 and r.random() < .3:
        return r.choice([k for k in ewss_tabs.EXTRA if k < m])
    return r.randrange(1, min(m, 1024))


def moment(r):
    """ time close to a turn, or any """
    y = r.choice([2023, 2024, 2025, 2027, 2028])
    q = r.random()
    if q < .3:
        t = dtm.datetime(y, 1, 1)
    elif q < .6:
        t = dtm.datetime(y, r.randint(1, 12), 1)
    elif q < .7:
        t = dtm.datetime(y, 3, 1)
    else:
        t = dtm.datetime(y, 1, 1)+dtm.timedelta(days=r.randrange(365))
    return t+dtm.timedelta(minutes=r.randint(-2000, 2000),
                           seconds=r.randrange(60))


def floor_min(t):
    return t.replace(second=0, microsecond=0)


def head(w, t):
    return w.u(4, t.month).u(5, t.day).u(5, t.hour).u(6, t.minute)


def dhm(w, t):
    return w.u(5, t.day).u(5, t.hour).u(6, t.minute)


def dms(w, r, nd, dmax):
    s, d = ru(r, 1), r.randrange(dmax)
    m, x = r.randrange(60), r.randrange(60)
    w.u(1, s).u(nd, d).u(6, m).u(6, x)
    v = d+m/60+x/3600
    return -v if s else v


def flags(r, n):
    p = r.choice([.05, .3, .9, 0])
    return [int(r.random() < p) for _ in range(n)]


def report(c, dc, t, rc, it):
    """ message of 212 bits (without preamble and type) and what is in it """
    r = c.rng
    w = BW().u(3, rc).u(4, dc)
    x = {'it': it, 'ta': t}
    head(w, t).u(2, it)
    # event within some days of the report
    ev = floor_min(t+dtm.timedelta(
        minutes=r.choice([r.randint(-90, 0), r.randint(-14000, 0),
                          r.randint(0, 4000)])))
    spare = (lambda n: w.u(n, ru(r, n)))
    opt = ''
    if dc == 1:
        w.u(4, 0)
        lo, up = r.randrange(8), r.randrange(8)
        w.u(3, lo).u(3, up)
        for _ in range(3):
            w.u(9, r.choice([0, key(r, 9)]))
        dhm(w, ev)
        de, ma, ep = ru(r, 9), ru(r, 7), key(r, 10)
        w.u(9, de).u(7, ma).u(10, ep)
        a, b = ru(r, 4), ru(r, 4)
        w.u(4, a).u(4, b)
        f = flags(r, 80)
        for k in f:
            w.u(1, k)
        spare(4)
        x.update(tb=ev, params=[[k for k in range(80) if f[k]],
                                [de, ma*.1, ep, a, b]])
    elif dc == 2:
        w.u(10, 0)
        co = [r.choice([0, key(r, 9)]) for _ in range(3)]
        for k in co:
            w.u(9, k)
        dhm(w, ev)
        de, ma, ep = ru(r, 9), ru(r, 7), key(r, 10)
        w.u(9, de).u(7, ma).u(10, ep)
        la = dms(w, r, 7, 90)
        lo = dms(w, r, 8, 180)
        spare(51)
        x.update(tb=ev, pos=[la, lo], params=[co, [de, ma*.1, ep]])
    elif dc == 3:
        w.u(10, 0)
        dhm(w, ev)
        es, rg = [], []
        for k in range(16):
            a, b = (0, 0) if r.random() < .4 else (ru(r, 3), ru(r, 6))
            w.u(3, a).u(6, b)
            if a or b:
                es.append(a)
                rg.append(b)
        spare(1)
        x.update(tb=ev, params=[es, rg])
    elif dc == 5:
        w.u(10, 0)
        co = [r.choice([0, key(r, 9)]) for _ in range(3)]
        for k in co:
            w.u(9, k)
        dw = ru(r, 4)
        w.u(4, dw)
        tb, p = [], [co, [dw]]
        for k in range(5):
            if r.random() < .3:
                w.u(26, 0)
                continue
            d, h, m = ru(r, 1), r.randrange(24), r.randrange(60)
            th, rg = ru(r, 4), key(r, 10)
            w.u(1, d).u(5, h).u(6, m).u(4, th).u(10, rg)
            tb.append(dtm.datetime(t.year, t.month, t.day, h, m)
                      + dtm.timedelta(days=d))
            p.append([th, rg])
            opt += str(d)
        x.update(tb=tb, params=p)
    elif dc == 6:
        w.u(10, 0)
        tp = ru(r, 3)
        w.u(3, tp)
        tb, p = [], [tp]
        for k in range(5):
            d, h, m = ru(r, 1), r.randrange(24), r.randrange(60)
            th, rg = ru(r, 9), ru(r, 7)
            w.u(1, d).u(5, h).u(6, m).u(9, th).u(7, rg)
            tb.append(dtm.datetime(t.year, t.month, t.day, h, m)
                      + dtm.timedelta(days=d))
            p.append([th, rg])
        spare(18)
        x.update(tb=tb, params=p)
    elif dc == 8:
        w.u(7, 0)
        du = ru(r, 3)
        w.u(3, du)
        dhm(w, ev)
        dw, vo = key(r, 7), key(r, 12)
        w.u(7, dw).u(12, vo)
        rg = []
        for k in range(5):
            a = 0 if r.random() < .4 else key(r, 23)
            w.u(23, a)
            if a:
                rg.append(a)
        spare(11)
        x.update(tb=ev, params=[du, dw, vo, rg])
    elif dc == 9:
        spare(10)
        dhm(w, ev)
        d1, vo = r.choice([1, 2]), key(r, 12)
        w.u(2, d1).u(12, vo)
        p = [d1, vo]
        for k in range(4):
            a, b, g = ru(r, 3), ru(r, 3), r.choice([0, key(r, 23)])
            w.u(3, a).u(3, b).u(23, g)
            if g:
                p.append([a, b, g])
        spare(15)
        x.update(tb=ev, params=p)
    elif dc == 10:
        w.u(10, 0)
        ar = r.choice([1, 2])
        w.u(3, ar)
        p = [ar]
        for k in range(6):
            a, b = r.choice([0, ru(r, 5)]), r.choice([0, key(r, 19)])
            w.u(5, a).u(19, b)
            if a and b:
                p.append([a, b])
        spare(14)
        x.update(params=p)
    elif dc == 11:
        w.u(10, 0)
        p = []
        for k in range(3):
            a, b = r.choice([(0, 0), (ru(r, 4), key(r, 40))])
            w.u(4, a).u(40, b)
            if a or b:
                p.append([a, b])
        spare(29)
        x.update(params=p)
    elif dc == 12:
        w.u(10, 0)
        dhm(w, ev)
        dt = r.choice([1, 2, 3])
        w.u(3, dt)
        spare(8)
        du, tn, sr, ic = ru(r, 7), ru(r, 7), ru(r, 4), ru(r, 4)
        w.u(7, du).u(7, tn).u(4, sr).u(4, ic)
        la = dms(w, r, 7, 90)
        lo = dms(w, r, 8, 180)
        pr, w1, w2 = ru(r, 11), ru(r, 7), ru(r, 7)
        w.u(11, pr).u(7, w1).u(7, w2)
        spare(46)
        x.update(tb=ev, pos=[la, lo],
                 params=[dt, du, tn, sr, ic, pr, w1, w2])
    elif dc == 14:
        spare(10)
        p = []
        for k in range(8):
            a, b = r.choice([(0, 0), (ru(r, 5), key(r, 14))])
            w.u(5, a).u(14, b)
            if a or b:
                p.append([a, b])
        spare(9)
        x.update(params=p)
    vn = ru(r, 6)
    assert len(w) == 200, (dc, len(w))
    w.u(6, vn)
    spare(6)
    x['vn'] = vn
    return w, x, opt


def flat(v):
    return [y for z in v for y in flat(z)] if isinstance(v, (list, tuple)) \
        or hasattr(v, 'tolist') else [v]


def struct(v):
    return [struct(z) for z in v] if isinstance(v, (list, tuple)) \
        or hasattr(v, 'tolist') else 0


def match(c, d, x, sig):
    c.eq(d.it, x['it'], sig+' itype')
    same(c, d.ta, x['ta'], sig+' report time')
    if 'tb' in x:
        if isinstance(x['tb'], list):
            c.eq(len(d.tb), len(x['tb']), sig+' events')
            for k, (a, b) in enumerate(zip(d.tb, x['tb'])):
                same(c, a, b, sig+' arrival', f"{k}: {x['ta']}")
        else:
            same(c, d.tb, x['tb'], sig+' event', f"reported {x['ta']}")
    if 'pos' in x:
        for k in range(2):
            c.close(d.pos[k], x['pos'][k], 1e-9, sig+' position')
    if 'params' in x:
        c.eq(struct(d.params), struct(x['params']), sig+' structure',
             f"{d.params} {x['params']}")
        for a, b in zip(flat(d.params), flat(x['params'])):
            c.close(a, b, 1e-9, sig+' value', f"{d.params} {x['params']}")
    c.eq(d.vn, x['vn'], sig+' version')


def run(dcr, x, fn):
    """ decode, with or without log """
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        v = fn()
    return v, out.getvalue()


DC = (1, 2, 3, 5, 6, 8, 9, 10, 11, 12, 14)


@chk.case(1200, 60000)
def jma(c):
    """ JMA reports """
    r = c.rng
    via = r.random() < .4
    top = dec(c, dgpsDec) if via else None
    d = top.dcr if via else dec(c, jmaDec)
    for _ in range(12):
        dc = r.choice(DC)
        rc = r.choice([1, 2, 3, 7])
        it = r.choice([0, 2])
        now = moment(r)
        # received after the report (up to some hours) or clocks differ
        t = floor_min(now-dtm.timedelta(
            seconds=r.choice([r.randint(0, 300), r.randint(0, 40000),
                              r.randint(-120, 0)])))
        w, x, opt = report(c, dc, t, rc, it)
        d.monlevel = int(r.random() < .4)
        j = 0
        if via:
            top.time = gt(now)
            buff = BW().u(8, r.choice([0x53, 0x9a, 0xc6])).u(6, 43).cat(
                w).u(24, ru(r, 24)).align().bytes()
            _, s = run(d, x, lambda: top.decode_cssr(buff, 0))
            c.eq(top.msgtype, 43, 'message type')
        else:
            d.time = gt(now)
            j = r.choice([14, 0, 3])
            buff = BW().u(j, ru(r, j)).cat(w).u(
                24, ru(r, 24)).align().bytes()
            _, s = run(d, x, lambda: d.decode(buff, j))
        c.eq((d.rc, d.dc), (rc, dc), 'class')
        match(c, d, x, f"dc {dc}")
        if d.monlevel > 0:
            c.ok(d.rc_m_t[rc] in s and d.dc_m_t[dc] in s, 'log class',
                 f"{dc}: {s[:80]}")
            logged(c, dc, x, s)
        if dc in (12, 14):
            g = d.gen_msg(dc)
            texts(c, dc, x, g)
        turn = 'year' if t.year != now.year else \
            'month' if t.month != now.month else ''
        ev = x.get('tb')
        et = ''
        if ev is not None and not isinstance(ev, list):
            et = 'ev year' if ev.year != t.year else \
                'ev month' if ev.month != t.month else ''
        c.seen(dc, turn or et, opt[:2] if dc == 5 else '')


def stamp(t, sec=False):
    return f"{t.month:2d}/{t.day:02d} {t.hour:2d}:{t.minute:02d}"


def logged(c, dc, x, s):
    """ texts of the log """
    c.ok(stamp(x['ta']) in s, 'log time', f"{dc} {x['ta']}: {s}")
    p = x['params']
    want = []
    if dc == 1:
        a, b = p[1][3:]
        c.eq(f"t9:{b}" in s, a != b, 'log intensity', s)
        want = [f"t10:{k}" for k in p[0]]+[f"t7:{p[1][2]}",
                                           f"t8:{p[1][3]}",
                                           f"depth={p[1][0]}km",
                                           f"mag={p[1][1]:.1f}"]
        c.eq(sorted(set(re.findall(r"\bt10:\d+", s))),
             sorted(f"t10:{k}" for k in p[0]), 'log prefectures')
    elif dc == 2:
        want = [f"t6:{k}" for k in p[0] if k]+[
            f"t7:{p[1][2]}", f"lat {x['pos'][0]:.4f}",
            f"lon {x['pos'][1]:.4f}"]
    elif dc == 3:
        c.eq(re.findall(r"t15:(\d+) t16:(\d+)", s),
             [(str(a), str(b)) for a, b in zip(*p)], 'log intensities')
    elif dc == 5:
        c.eq(re.findall(r"t23:(\d+) t24:(\d+)", s),
             [(str(a), str(b)) for a, b in p[2:]], 'log tsunami')
        want = [f"t6:{k}" for k in p[0] if k]
        if p[1][0]:
            want.append(f"t22:{p[1][0]}")
    elif dc == 8:
        want = [f"t31:{p[1]} t32:{p[2]}"]
        c.eq(re.findall(r"t33:(\d+)", s), [str(k) for k in p[3]],
             'log volcano')
    elif dc == 9:
        want = [f"t32:{p[1]}"]
        c.eq(re.findall(r"(\d)h t36:(\d+) t33:(\d+)", s),
             [tuple(map(str, k)) for k in p[2:]], 'log ash')
    elif dc == 10:
        want = ["issue" if p[0] == 1 else "cansellation"]
        c.eq(re.findall(r"t40:(\d+) t41:(\d+)", s),
             [tuple(map(str, k)) for k in p[1:]], 'log weather')
    elif dc == 11:
        c.eq(re.findall(r"t44:(\d+) t45:(\d+)", s),
             [tuple(map(str, k)) for k in p], 'log flood')
    elif dc == 12:
        want = [f"#{p[2]}", f"lat={x['pos'][0]:.4f}",
                f"lon={x['pos'][1]:.4f}", f"pr={p[5]}", f"w1={p[6]}",
                f"w2={p[7]}"]
    elif dc == 14:
        c.eq(re.findall(r"t52:(\d+) t53:(\d+)", s),
             [tuple(map(str, k)) for k in p], 'log marine')
    for k in want:
        c.ok(k in s, 'log text', f"{dc}: {k!r} not in {s!r}")
    if dc != 6:
        c.ok(('Issue' if x['it'] == 0 else 'Cancellation') in s,
             'log itype', f"{dc} {s}")


def texts(c, dc, x, s):
    p = x['params']
    t = x['ta']
    want = [f"{t.year:4d}-{t.month:02d}-{t.day:02d} "
            f"{t.hour:02d}:{t.minute:02d}:00"]
    if dc == 12:
        e = x['tb']
        want += [f"reference time: {e.year:4d}-{e.month:02d}-{e.day:02d} "
                 f"{e.hour:02d}:{e.minute:02d}:00", f"typhoon #{p[2]}\n",
                 {1: 'Analysis', 2: 'Estimate', 3: 'Forecast'}[p[0]],
                 f"elapsed time: {p[1]}h",
                 f"{x['pos'][0]:.4f}/{x['pos'][1]:.4f}",
                 f"central pressure: {p[5]} hPa",
                 f"maximum wind: {p[6]} m/s",
                 f"maximum instant wind: {p[7]} m/s"]
        c.eq(f"t48:{p[3]}\n" in s, p[3] > 0, 'text scale', s)
        c.eq(f"t49:{p[4]}\n" in s, p[4] > 0, 'text intensity', s)
    else:
        c.eq(re.findall(r"t52:(\d+)\t region: t53:(\d+)", s),
             [tuple(map(str, k)) for k in p], 'text marine', s)
    for k in want:
        c.ok(k in s, 'text', f"{dc}: {k!r} not in {s!r}")


@chk.case(300, 10000)
def unknown(c):
    """ other categories and classes are not decoded """
    r = c.rng
    d = dec(c, jmaDec)
    d.monlevel = ru(r, 1)
    d.time = gt(moment(r))
    d.ta = ta0 = gt(moment(r))
    p0 = d.params
    for _ in range(10):
        rc, dc = ru(r, 3), ru(r, 4)
        if rc in (1, 2, 3, 7) and dc in DC+(4,):
            continue
        buff = BW().u(3, rc).u(4, dc).u(240, ru(r, 240)).align().bytes()
        v, _ = run(d, None, lambda: d.decode(buff, 0))
        c.eq(v, -1, 'unknown', f"{rc} {dc}")
        c.ok(d.params is p0 and d.ta is ta0, 'unknown state')
        c.seen(rc, dc)


@chk.case(200, 6000)
def nankai(c):
    """ texts of several pages """
    r = c.rng
    d = ewss_tabs.build(c.tmp, jmaDec) if r.random() < .1 else dec(c, jmaDec)
    now = moment(r)
    for m in range(r.randint(1, 3)):
        now += dtm.timedelta(minutes=r.randint(2, 900))
        t = floor_min(now)
        pm = r.choice([1, 2, 3, 5, 20, 40, 63])
        txt = ''.join(r.choice('abc XYZ019\u5357\u6d77') for _ in range(900))
        txt = txt.encode()[:18*pm]
        while True:
            try:
                txt.decode()
                break
            except UnicodeDecodeError:
                txt = txt[:-1]
        full = txt
        txt = txt.ljust(18*pm, b'\0')
        it, is_ = r.choice([0, 2]), key(r, 4)
        order = list(range(pm))
        if r.random() < .6:
            r.shuffle(order)
        if r.random() < .3:
            order = order[:-1]      # a page is not received
        order += r.sample(order, min(len(order), 2))  # sent again
        done = set()
        for k in order:
            vn = ru(r, 6)
            w = head(BW().u(3, 3).u(4, 4), t).u(2, it).u(10, 0).u(4, is_)
            for y in txt[18*k:18*k+18]:
                w.u(8, y)
            w.u(6, k+1).u(6, pm).u(1, ru(r, 1))
            assert len(w) == 200
            w.u(6, vn).u(6, 0)
            d.time = gt(now)
            d.monlevel = ru(r, 1)
            buff = w.u(20, 0).align().bytes()
            _, s = run(d, None, lambda: d.decode(buff, 0))
            done.add(k)
            c.eq(bytes(d.params[0]), txt[18*k:18*k+18], 'page text')
            c.eq(list(d.params[1]), [k+1, pm], 'page number')
            c.eq((d.it, d.vn), (it, vn), 'page head')
            same(c, d.ta, t, 'page time')
            c.eq(d.pidx, sum(1 << q for q in done), 'pages received')
            if d.monlevel:
                c.ok(f"t19:{is_} " in s and f" {k+1}/{pm}" in s,
                     'page log', s)
                c.eq(full.decode() in s, len(done) == pm or not full,
                     'text complete', f"{sorted(done)} of {pm}")
        for k in done:
            c.eq(bytes(d.msg[18*k:18*k+18]), txt[18*k:18*k+18], 'text',
                 f"page {k} of {pm}")
        c.seen(pm, len(done) == pm, m)


# ---------------------------------------------------------------- CAMF
# the published values are rounded
SEMI = [.216*(2500/.216)**(k/31) for k in range(32)]
RS = 4e-3
# parameters of the hazards: (attribute, bits, number of values)
D = {'d1': (4, 9), 'd2': (3, 8), 'd3': (4, 16), 'd4': (4, 16), 'd5': (3, 8),
     'd6': (4, 16), 'd7': (3, 5), 'd8': (4, 13), 'd9': (3, 8), 'd10': (3, 6),
     'd11': (3, 6), 'd12': (3, 8), 'd13': (4, 10), 'd14': (5, 32),
     'd15': (2, 4), 'd16': (3, 6), 'd17': (3, 5), 'd18': (2, 4),
     'd19': (3, 5), 'd20': (3, 5), 'd21': (3, 5), 'd22': (3, 5),
     'd23': (3, 5), 'd24': (3, 6), 'd25': (4, 10), 'd26': (5, 21),
     'd27': (4, 12), 'd28': (3, 6), 'd29': (5, 14), 'd30': (4, 9),
     'd31': (4, 16), 'd32': (2, 4), 'd33': (2, 4), 'd34': (2, 4),
     'd35': (6, 64), 'd36': (3, 5)}
HAZ = {36: 'd1 d2 d3 d4', 43: 'd5', 44: 'd5', 63: 'd6', 71: 'd6',
       80: 'd7 d8 d9', 82: 'd36 d8 d9', 79: 'd8 d9 d11',
       77: 'd8 d9 d10 d16', 70: 'd12', 74: 'd9 d13', 76: 'd14 d13',
       68: 'd15', 72: 'd16', 81: 'd8 d6', 64: 'd8 d9 d16 d11', 69: 'd17 d13',
       75: 'd13 d8', 65: 'd18', 33: 'd19', 32: 'd20', 47: 'd8 d5',
       37: 'd21', 103: 'd22', 30: 'd23', 16: 'd24', 23: 'd25',
       51: 'd26 d35', 19: 'd27', 15: 'd28', 18: 'd24', 57: 'd29', 9: 'd30',
       5: 'd31', 4: 'd32 d33', 6: 'd34'}
D4 = (.25, .5, .75, 1, 2, 3, 5, 10, 20, 30, 40, 50, 70, 100, 150, 200)
D2 = ('2', '3', '4', '5 Weak', '5 Strong', '6 Weak', '6 Strong', '7')
SEV = ('unknown', 'moderate', 'severe', 'extreme')
DUR = ('unknown', 'duration<6h', '6h<duration<12h', '12h<duration<24h')
MTS = ('Test', 'Alert', 'Update', 'All Clear')
INST = ('(not specified)', 'stay', 'move to/toward', 'keep away from')
GUID = (0, 1, 2, 3, 4, 5, 6, 7, 127, 255)
GUID_J = (0, 1, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 255)


@chk.case(4, 4)
def tables(c):
    """ ranges in the texts of the details are in order """
    d = dec(c, camfDec)
    num = re.compile(r"(?<![\d.])-?\d+(?:\.\d+)?")
    for n in (1, 5, 6, 7, 8, 9, 12, 15, 20, 21, 23, 25, 26, 27, 28, 30, 32,
              34, 17, 18):
        t = getattr(d, f"d{n}_t")
        v = []
        for k in t:
            u = [float(y) for y in num.findall(k.replace('000 m', ''))]
            if n in (7, 17, 23, 32):
                u = u[:1]       # x of y
            elif n == 18:
                u = [-u[-1], -u[-2]] if len(u) > 2 else [-u[-1]]
            v.append(max(u) if u else None)
        v = [k for k in v if k is not None]
        c.ok(len(v) >= len(t)-2 or n == 15, 'numbers', f"d{n} {t}")
        c.ok(all(a <= b for a, b in zip(v, v[1:])), 'order', f"d{n} {v}")
        c.seen(n)
    c.eq(tuple(d.d15_t), tuple(f"{k} Flooding" for k in (
        'Minor', 'Moderate', 'Major', 'Record')), 'd15')
    c.eq(tuple(d.d11_t), ('Non-Threatening', 'Very Low', 'Low', 'Moderate',
                          'High', 'Extreme'), 'd11')
    c.eq(tuple(d.d19_t), ('Low', 'Moderate', 'Considerable', 'High',
                          'Very high'), 'd19')
    c.eq([k.split()[0] for k in d.d22_t],
         ['Very', 'Low', 'Medium', 'High', 'Critical'], 'd22')
    for k, (n, m) in D.items():
        if k not in ('d3', 'd14', 'd35', 'd12'):
            c.eq(len(getattr(d, k+'_t')), m, 'values', k)
    for k in range(32):
        c.close(d.r_t[k], SEMI[k], 0, 'semi-axis', f"{k}", rtol=RS)
    for t, w in ((d.guid_t, {0: 'not spec', 1: 'solid', 2: '3rd', 3: 'Undergr',
                             4: 'Mountain', 5: 'Water', 6: 'chemicals',
                             7: 'Cliffs', 127: 'best', 255: 'best'}),
                 (d.guid_la_t, {0: 'not spec', 1: 'best', 127: 'best',
                                128: 'launched', 129: 'Missile passed',
                                130: 'dropped in the sea',
                                131: 'will not come', 132: 'shelter',
                                133: 'intercepted', 134: 'Missile dropped',
                                135: 'will not drop', 136: 'test',
                                255: 'Take immediate action'})):
        c.eq(sorted(t), sorted(w), 'guidance')
        for k, v in w.items():
            c.ok(v in t.get(k, ''), 'guidance', f"{k} {t.get(k)}")
    c.eq(tuple(d.ed_t) if hasattr(d, 'ed_t') else None,
         None if not hasattr(d, 'ed_t') else
         ('Leave the additional target area range.',
          'Head to the additional target area range.'), 'evacuation')


def monday(t):
    """ start of the week (Monday) """
    return dtm.datetime(t.year, t.month, t.day)-dtm.timedelta(
        days=t.weekday())


@chk.case(1500, 70000)
def camf(c):
    """ common alert messages """
    r = c.rng
    via = r.random() < .4
    top = dec(c, dgpsDec) if via else None
    d = top.dcx if via else dec(c, camfDec)
    for _ in range(10):
        now = moment(r)
        q = r.random()
        if q < .4:     # around the turn of the week
            now = monday(now)+dtm.timedelta(minutes=r.randint(-2900, 2900))
        elif q < .5:
            now = monday(now)+dtm.timedelta(
                seconds=r.choice([-1, 0, 1, 6*86400, 6*86400-1]))
        mt, pid = ru(r, 2), ru(r, 5)
        regi = 111 if r.random() < .7 else ru(r, 9)
        q = r.random()
        hcat = r.choice(sorted(HAZ)) if q < .7 else r.randrange(128)
        sev, wn = ru(r, 2), ru(r, 1)
        tow = r.choice([1, 1440*6, 1440*6+1, 10080, r.randint(1, 10080)])
        dur = ru(r, 2)
        jp = regi == 111 and r.random() < .8
        ver = ru(r, 3)
        ia, ib = ru(r, 5), ru(r, 5)
        inst = ru(r, 2)
        info = r.choice(GUID_J if pid in (2, 3) else GUID)
        lati, loni = r.choice([0, 65535, ru(r, 16)]), \
            r.choice([0, 131071, ru(r, 17)])
        sa, sb, az = ru(r, 5), ru(r, 5), ru(r, 6)
        subj = ru(r, 2) if hcat not in HAZ else r.choice([0, 1, 2, 3, 3, 3])
        w = BW().u(2, mt).u(9, regi).u(5, pid).u(7, hcat).u(2, sev)
        w.u(1, wn).u(14, tow).u(2, dur).u(1, int(jp)).u(3, ver)
        if jp:
            w.u(2, inst).u(8, info)
        else:
            w.u(5, ia).u(5, ib)
        w.u(16, lati).u(17, loni).u(5, sa).u(5, sb).u(6, az).u(2, subj)
        la, lo = -90+lati*180/65535, -180+loni*360/131071
        LM, Lm = SEMI[sa], SEMI[sb]
        x = {'sel': int(jp), 'ver': ver+1, 'mt': MTS[mt], 'pid': pid,
             'regi': regi, 'region': f"region:{regi}",
             'hazard': f"hazard:{hcat}", 'severity': SEV[sev],
             'duration': DUR[dur]}
        if not jp:
            x.update(gmsg_a=f"list_a:{ia}", gmsg_b=f"list_b:{ib}")
        else:
            x['guid'] = (d.guid_la_t if pid in (2, 3) else d.guid_t)[info]
            x['inst'] = INST[inst]
        y = {'az': -90+az*180/64}
        if subj == 0:
            k = [ru(r, 3) for _ in range(4)]
            for v in k:
                w.u(3, v)
            w.u(3, ru(r, 3))
            # resolution of the main ellipse
            la += k[0]*180/65535/8
            lo += k[1]*360/131071/8
            LM -= k[2]/8*(SEMI[sa]-(SEMI[sa-1] if sa else 0))
            Lm -= k[3]/8*(SEMI[sb]-(SEMI[sb-1] if sb else 0))
        elif subj == 1:
            k = [ru(r, 7) for _ in range(2)]
            w.u(7, k[0]).u(7, k[1]).u(1, ru(r, 1))
            # +-10 deg without zero
            grid = [v for v in range(-64, 65) if v != 0]
            y.update(dlat=grid[k[0]]*10/64, dlon=grid[k[1]]*10/64)
        elif subj == 2:
            k = [ru(r, 2), ru(r, 3), ru(r, 5), ru(r, 5)]
            w.u(2, k[0]).u(3, k[1]).u(5, k[2]).u(5, k[3])
            y.update(dist=k[0]*LM, LMs=LM*(k[1]+1)/4, Lms=Lm*(k[1]+1)/4,
                     theta=k[2]*360/32)
        else:
            n = 0
            for a in HAZ.get(hcat, '').split():
                nb, nv = D[a]
                v = r.randrange(nv)
                w.u(nb, v)
                n += nb
                x[a] = v*22.5 if a == 'd3' else D4[v] if a == 'd4' else \
                    D2[v] if a == 'd2' else \
                    getattr(d, a+'_t')[v]
            w.u(15-n, ru(r, 15-n))
        assert len(w) == 122
        y.update(lat=la, lon=lo, LM=LM, Lm=Lm)
        mon = monday(now)
        th = mon+dtm.timedelta(days=7*wn, minutes=tow-1)
        lev = ru(r, 1)
        d.monlevel = lev
        for a in [a for a in D if a not in x and r.random() < .1]:
            setattr(d, a, None)
        other = {a: getattr(d, a, None) for a in D if a not in x}
        if via:
            top.time = gt(now)
            top.monlevel = 0
            body = BW().u(1, ru(r, 1)).u(9, ru(r, 9)).cat(w)
            # extension without target area
            body.u(74, 0).u(6, 0)
            buff = BW().u(8, 0x53).u(6, 44).cat(body).u(
                24, ru(r, 24)).align().bytes()
            i, s = run(d, None, lambda: top.decode_cssr(buff, 0))
        else:
            d.time = gt(now)
            j = r.choice([24, 0, 5])
            buff = BW().u(j, ru(r, j)).cat(w).u(
                24, ru(r, 24)).align().bytes()
            i, s = run(d, None, lambda: d.decode(buff, j))
            c.eq(i-j, 122, 'length', f"subj {subj} hcat {hcat}")
        for k, v in x.items():
            c.eq(getattr(d, k, '?'), v, 'camf '+k, f"hcat {hcat}")
        same(c, d.th, th, 'onset', f"received {now} week {wn} {tow}")
        c.eq([int(round(k)) for k in d.epoch], list(th.timetuple()[:6]),
             'onset date')
        for k, v in y.items():
            rt = RS if k in ('LM', 'Lm', 'dist', 'LMs', 'Lms') else 0
            c.close(getattr(d, k), v, 1e-5, 'camf '+k, f"{subj}", rtol=rt)
        for a, v in other.items():
            c.ok(getattr(d, a, None) is v or getattr(d, a, None) == v,
                 'other detail', f"{a} hcat {hcat} subj {subj}")
        if lev:
            want = [x['severity']+' '+x['hazard'], f"pid={pid}",
                    f"hcat={hcat}", f"subj={subj}",
                    f"{th.year:4d}-{th.month:02d}-{th.day:02d} "
                    f"{th.hour:02d}:{th.minute:02d}:00"]
            want += [x['guid']] if jp else [x['gmsg_a']+' '+x['gmsg_b']]
            if jp and pid not in (2, 3):
                want.append(x['inst']+' '+x['guid'])
            for k in want:
                c.ok(k in s, 'log', f"{k!r} not in {s!r}")
            c.eq(f"az={d.az}" in s, lati > 0 or loni > 0, 'log area', s)
        c.seen(hcat if subj == 3 else -1, subj, jp, wn,
               now.weekday() == 6, pid in (2, 3))


@chk.case(100, 3000)
def refused(c):
    """ unknown hazards and regions with own guidance """
    r = c.rng
    d = ewss_tabs.build(c.tmp, camfDec)
    gone = r.randrange(128)
    d.hazard_t.pop(gone)
    d.time = gt(moment(r))
    for _ in range(6):
        b = BW().u(16, ru(r, 16)).u(7, gone).u(99, ru(r, 99))
        d.hazard = 'before'
        i, s = run(d, None, lambda: d.decode(b.u(30, 0).align().bytes(), 0))
        c.eq(i, 122, 'unknown hazard')
        c.eq(d.hazard, 'before', 'unknown hazard')
        reg = r.choice([k for k in range(512) if k != 111])
        hc = r.choice([k for k in range(1, 128) if k != gone])
        b = BW().u(2, 1).u(9, reg).u(5, 1).u(7, hc).u(2, 1).u(17, 1).u(
            1, 1).u(3, 0).u(10, 0).u(66, ru(r, 66))
        assert len(b) == 122
        d.lat = 12.5
        i, s = run(d, None, lambda: d.decode(b.u(30, 0).align().bytes(), 0))
        c.eq(i, 122, 'unknown region')
        c.eq(d.lat, 12.5, 'unknown region')
        c.seen(gone % 8, reg % 8)


def city(code):
    k = (code-2)//1000
    if (code-2) % 1000 or not 0 < k < 60:
        return None
    return (f"ken{k}"+(f"shi{k}" if k % 2 else '')
            + (f"ku{k}" if k % 3 else '')+(f"cho{k}" if k % 5 else ''))


@chk.case(600, 20000)
def ext(c):
    """ extension of messages for Japan """
    r = c.rng
    via = r.random() < .4
    top = dec(c, dgpsDec) if via else None
    d = top.dcx if via else dec(c, camfDec)
    for _ in range(6):
        now = moment(r)
        pid = r.choice([1, 2, 3, 4])
        sel = int(r.random() < .85)
        w = BW().u(2, 1).u(9, 111).u(5, pid).u(7, 36).u(2, 1).u(1, 0).u(
            14, 77).u(2, 0).u(1, sel).u(3, 0)
        w.u(2, 0).u(8, 0) if sel else w.u(10, 0)
        w.u(51, 0).u(15, 0)
        assert len(w) == 122
        want, no = None, None
        if not sel or pid == 4:
            w.u(74, ru(r, 74))
            kind = 'none'
        elif pid == 1:
            code = r.choice([r.randrange(1, 60)*1000+2, 0,
                             r.randrange(1, 65536)])
            e2, e3, e4 = ru(r, 1), ru(r, 17), ru(r, 17)
            e5, e6, e7, vn = ru(r, 5), ru(r, 5), ru(r, 7), ru(r, 6)
            w.u(16, code).u(1, e2).u(17, e3).u(17, e4).u(5, e5).u(
                5, e6).u(7, e7).u(6, vn)
            n = city(code)
            kind = f"L {n is not None}"
            if n:
                want = (n, e2, -90+e3*180/131071, 45+e4*180/131071,
                        SEMI[e5], SEMI[e6], -90+e7*180/128, vn)
        else:
            e8 = ru(r, 1)
            w.u(1, e8)
            if e8 == 0:
                q = r.random()
                f = [1]*47 if q < .1 else flags(r, 47)
                if q > .9:
                    f = [1]*47
                    f[r.randrange(47)] = 0
                for k in f:
                    w.u(1, k)
                w.u(17, ru(r, 17))
                want = [f"pref{k+1}" for k in range(47) if f[k]]
                if len(want) == 47:
                    want = ['whole', 'Japan']
                kind = f"J pref {len(want)//10}"
            else:
                cs = [r.choice([0, r.randrange(1, 60)*1000+2, ru(r, 16)])
                      for _ in range(4)]
                for k in cs:
                    w.u(16, k)
                want = [city(k) for k in cs if city(k)]
                kind = f"J city {len(want)}"
            w.u(3, ru(r, 3)).u(6, ru(r, 6))
        assert len(w) == 122+74
        d.monlevel = 1
        if via:
            top.time = gt(now)
            top.monlevel = 0
            buff = BW().u(8, 0x53).u(6, 44).u(10, ru(r, 10)).cat(w).u(
                6, 0).u(24, ru(r, 24)).align().bytes()
            _, s = run(d, None, lambda: top.decode_cssr(buff, 0))
        else:
            d.time = gt(now)
            buff = w.u(24, 0).align().bytes()

            def go():
                i = d.decode(buff, 0)
                return d.decode_ext(buff, i)
            i, s = run(d, None, go)
            if kind not in ('none',) or pid != 4 or not sel:
                c.eq(i, 196, 'length of extension', kind)
        s = [k for k in s.split('\n') if k.startswith('[DCX-ext]')]
        if not sel or pid == 4 or want is None:
            c.eq(s, [], 'no extension', kind)
        else:
            c.eq(len(s), 1, 'extension', kind)
            s = s[0]
            if pid == 1:
                g = re.match(
                    r"\[DCX-ext\] pid=1 (\S+ \S+) (\S+) (.*\.) (\S+) (\S+) "
                    r"(\S+) (\S+) (\S+) (\d+)$", s)
                c.ok(g is not None, 'extension log', s)
                if g:
                    v = g.groups()
                    c.eq(v[0], now.strftime('%Y-%m-%d %H:%M:%S'), 'time')
                    c.eq(v[1], want[0], 'municipality')
                    c.eq(v[2].split()[0], ('Leave', 'Head')[want[1]],
                         'direction')
                    for a, b, rt in zip(v[3:8], want[2:7],
                                        (0, 0, RS, RS, 0)):
                        c.close(float(a), b, 1e-6, 'ellipse', s, rtol=rt)
                    c.eq(int(v[8]), want[7], 'ext version')
            else:
                v = s.split()
                c.eq(v[1:3], [str(pid), str(e8)], 'list type', s)
                c.eq(v[3:], want, 'areas', s)
        c.seen(kind, via)


if __name__ == '__main__':
    chk.main()
