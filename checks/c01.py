""" C01: time systems """
from common import Check
from fractions import Fraction
from datetime import datetime, timedelta
import math
from cssrlib import gnss as g
from cssrlib.gnss import (gtime_t, epoch2time, time2epoch, gpst2time,
                          time2gpst, gst2time, time2gst, bdt2time, time2bdt,
                          bdt2gpst, gpst2bdt, gpst2utc, utc2gpst, timeadd,
                          timediff, time2doy, adjtime, tod2tow, glo2time,
                          str2time, time2str)

chk = Check('C01', ['src/cssrlib/gnss.py'],
            rule='instants 1980-2099 drawn uniformly and around boundaries '
            '(leap seconds, day/week/year/leap-day ends, system epochs), with '
            'integral, sub-second and negative offsets; distinct by '
            'conversion and boundary class',
            assumptions=['leap second list of IERS Bulletin C up to 2017 '
                         '(no later leap second announced)'])

UNIX = datetime(1970, 1, 1)
E_GPS = int((datetime(1980, 1, 6)-UNIX).total_seconds())
E_GST = int((datetime(1999, 8, 22)-UNIX).total_seconds())
E_BDT = int((datetime(2006, 1, 1)-UNIX).total_seconds())
END = int((datetime(2099, 12, 31, 23, 59, 59)-UNIX).total_seconds())
# (UTC instant of the step, GPST-UTC after it)
LEAPS = [((1981, 7), 1), ((1982, 7), 2), ((1983, 7), 3), ((1985, 7), 4),
         ((1988, 1), 5), ((1990, 1), 6), ((1991, 1), 7), ((1992, 7), 8),
         ((1993, 7), 9), ((1994, 7), 10), ((1996, 1), 11), ((1997, 7), 12),
         ((1999, 1), 13), ((2006, 1), 14), ((2009, 1), 15), ((2012, 7), 16),
         ((2015, 7), 17), ((2017, 1), 18)]
LEAPS = [(int((datetime(y, m, 1)-UNIX).total_seconds()), n)
         for (y, m), n in LEAPS]


def leap_utc(ts):
    n = 0
    for t, k in LEAPS:
        if ts >= t:
            n = k
    return n


def pick(c, lo=E_GPS, hi=END):
    """ (integer seconds, fraction, class) of a gtime """
    r = c.rng
    k = r.randrange(7)
    if k == 0:
        s, cl = r.randint(lo, hi), 'uniform'
    elif k == 1:
        t, n = r.choice(LEAPS)
        s, cl = t+r.randint(-40, 40), 'leapsec'
    elif k == 2:
        w = r.randint(0, (hi-E_GPS)//604800)
        s, cl = E_GPS+w*604800+r.randint(-2, 2), 'week'
    elif k == 3:
        s, cl = r.randint(lo//86400, hi//86400)*86400+r.randint(-2, 2), 'day'
    elif k == 4:
        y = r.randint(1981, 2099)
        s = int((datetime(y, 1, 1)-UNIX).total_seconds())+r.randint(-2, 2)
        cl = 'year'
    elif k == 5:
        y = r.randint(1980, 2099)
        m = r.choice([2, 2, 3, r.randint(1, 12)])
        s = int((datetime(y, m, 28 if m == 2 else 1)-UNIX).total_seconds()) \
            + r.choice([0, 86399, 86400, 86401, 2*86400-1, -1])
        cl = 'month'
    else:
        s, cl = r.choice([E_GPS, E_GST, E_BDT])+r.randint(-20, 20), 'epoch'
    s = min(max(s, lo), hi)
    f = r.choice([0.0, 0.0, 0.5, r.random(), 1e-9, 0.999999, 0.25,
                  r.randrange(1000)/1000])
    return s, f, cl


def canon(c, t, sig):
    c.ok(0.0 <= t.sec < 1.0 and float(t.time).is_integer(), sig+':canonical',
         f"time={t.time} sec={t.sec}")


def val(t):
    return Fraction(int(t.time))+Fraction(float(t.sec))


@chk.case(30000, 600000)
def calendar(c):
    s, f, cl = pick(c)
    d = UNIX+timedelta(seconds=s)
    ep = [d.year, d.month, d.day, d.hour, d.minute, d.second+f]
    t = epoch2time(ep)
    c.seen(cl, d.month == 2 and d.day == 29, f == 0.0)
    canon(c, t, 'epoch2time')
    c.ok(abs(float(val(t)-s)-f) < 1e-9, 'epoch2time', f"{ep} -> {t.time} {t.sec}")
    t = gtime_t(s, f)
    e = time2epoch(t)
    c.ok(list(map(int, e[:5])) == [d.year, d.month, d.day, d.hour, d.minute]
         and abs(e[5]-d.second-f) < 1e-9, 'time2epoch', f"{s} {f}: {e} {d}")
    doy = time2doy(t)
    tt = d.timetuple()
    ref = tt.tm_yday+(d.hour*3600+d.minute*60+d.second+f)/86400.0
    c.ok(abs(doy-ref) < 1e-9*400, 'time2doy', f"{d}: {doy} {ref}")
    c.eq(time2str(t), d.strftime('%Y-%m-%d %H:%M:%S'), 'time2str')
    # text form with leading characters and two-digit years
    lead = ' '*c.rng.randint(0, 3)
    y4 = c.rng.random() < 0.5 or not (1980 <= d.year <= 2079)
    ys = f"{d.year:4d}" if y4 else f"{d.year % 100:4d}"
    txt = f"{ys} {d.month:2d} {d.day:2d} {d.hour:2d} {d.minute:2d}" \
          f"{d.second+round(f, 7):11.7f}"
    t2 = str2time(lead+txt+' 99', len(lead), len(txt))
    c.ok(isinstance(t2, gtime_t) and abs(float(val(t2)-s)-f) < 1.1e-7,
         'str2time', f"{txt!r}")
    if not y4:
        c.seen('2-digit year', d.year // 10)
    c.sample(f"{txt.strip()} <-> {s}+{f}")


@chk.case(30000, 600000)
def weeks(c):
    """ system week / time of week <-> instant """
    r = c.rng
    for name, e0, fwd, inv in (('gps', E_GPS, gpst2time, time2gpst),
                               ('gal', E_GST, gst2time, time2gst),
                               ('bds', E_BDT, bdt2time, time2bdt)):
        s, f, cl = pick(c, lo=e0)
        w, tow = inv(gtime_t(s, f))
        ref = Fraction(s-e0)+Fraction(f)
        c.ok(w == (s-e0)//604800 and abs(float(ref-w*604800)-tow) < 1e-9,
             f"time2{name}", f"{s} {f}: {w} {tow}")
        c.seen(name, cl, f == 0.0)
        week = r.randint(0, 4000)
        tow = r.choice([0, 0.0, 604799.5, 604800, 302400.25,
                        r.uniform(0, 604800), r.randint(0, 604799),
                        -r.randint(0, 700000), -r.uniform(0, 700000),
                        r.uniform(604800, 1300000), -0.5])
        t = fwd(week, tow)
        canon(c, t, f"{name}2time")
        c.ok(abs(float(val(t)-e0-week*604800)-tow) < 1e-9, f"{name}2time",
             f"{week} {tow}: {t.time} {t.sec}")
        if e0 <= t.time:
            w2, tow2 = inv(t)
            c.ok(abs((w2-week)*604800+tow2-tow) < 1e-9 and
                 0 <= tow2 < 604800+1e-9, f"{name}:roundtrip",
                 f"{week} {tow} -> {w2} {tow2}")
        c.seen(name, 'neg' if tow < 0 else 'over' if tow >= 604800 else 'in')


@chk.case(30000, 600000)
def leapseconds(c):
    s, f, cl = pick(c)
    n = leap_utc(s)
    t = gtime_t(s, f)
    tg = utc2gpst(t)
    canon(c, tg, 'utc2gpst')
    c.ok(abs(float(val(tg)-s-n)-f) < 1e-9, 'utc2gpst',
         f"utc {s}+{f}: {float(val(tg)-s)} expected {n}")
    tu = gpst2utc(tg)
    canon(c, tu, 'gpst2utc')
    c.ok(abs(float(val(tu)-s)-f) < 1e-9, 'gpst2utc',
         f"gpst {tg.time}+{tg.sec}: {tu.time} expected {s}")
    c.seen(cl, n)
    # any GPST instant outside an inserted second
    amb = any(lt+k-1 <= s < lt+k for lt, k in LEAPS)
    if not amb:
        tu = gpst2utc(t)
        k = 0
        for lt, m in LEAPS:
            if s >= lt+m:
                k = m
        c.ok(abs(float(val(tu)-s)-(f-k)) < 1e-9, 'gpst2utc2',
             f"gpst {s}: {float(val(tu)-s)} expected {-k}")
    # BeiDou time: constant 14 s
    b = gpst2bdt(t)
    c.ok(abs(float(val(b)-s)-(f-14)) < 1e-9, 'gpst2bdt', '')
    b2 = bdt2gpst(t)
    c.ok(abs(float(val(b2)-s)-(f+14)) < 1e-9, 'bdt2gpst', '')
    canon(c, b, 'gpst2bdt')
    canon(c, b2, 'bdt2gpst')
    c.ok(t.time == s and t.sec == f, 'input modified', '')


@chk.case(30000, 600000)
def arithmetic(c):
    r = c.rng
    s, f, cl = pick(c)
    t = gtime_t(s, f)
    dt = r.choice([0.0, r.uniform(-1, 1), r.uniform(-1e6, 1e6), 1.0, -1.0,
                   -0.5, r.randint(-10**7, 10**7), 86400.0, -604800.0,
                   1e-9, -1e-9])
    t2 = timeadd(t, dt)
    canon(c, t2, 'timeadd')
    c.ok(abs(float(val(t2)-val(t))-dt) < 2e-9, 'timeadd', f"{s} {f} {dt}")
    c.ok(t.time == s and t.sec == f, 'timeadd:input modified', '')
    c.ok(abs(timediff(t2, t)-dt) < 2e-9+1e-15*abs(dt), 'timediff', '')
    c.ok(timediff(t, t2) == -timediff(t2, t), 'timediff:antisymmetric', '')
    c.eq(t2 > t, val(t2) > val(t), 'order', f"{t2.time} {t2.sec} > {s} {f}")
    c.eq(t > t2, val(t) > val(t2), 'order', f"{s} {f} > {t2.time} {t2.sec}")
    c.eq(t > gtime_t(s, f), False, 'order:strict')
    c.seen(cl, 'sub' if abs(dt) < 1 else 'int' if dt == int(dt) else 'any',
           dt < 0)


@chk.case(30000, 600000)
def rollover(c):
    """ resolution of ambiguous (modulo) times against a reference """
    r = c.rng
    s, f, cl = pick(c, lo=E_GPS+4*604800)
    ref = gtime_t(s, f)
    per = r.choice([604800.0, 86400.0, 1024*604800.0])
    d = r.uniform(-0.499, 0.499)*per
    k = r.choice([-1, 0, 1])
    t = timeadd(timeadd(ref, d), k*per)
    a = adjtime(t, ref, per) if per != 604800.0 or r.random() < 0.5 \
        else adjtime(t, ref)
    c.ok(abs(timediff(a, ref)-d) < 1e-6, 'adjtime',
         f"ref {s} per {per} d {d} k {k}: {timediff(a, ref)}")
    c.seen('adj', per, k, d > 0, cl)

    # time of day -> nearest instant of the reference
    d = r.uniform(-43199, 43199)
    truth = timeadd(ref, d)
    _, tow = time2gpst(truth)
    tod = tow % 86400
    a = tod2tow(tod, ref)
    c.ok(abs(timediff(a, truth)) < 1e-6, 'tod2tow',
         f"ref {s}+{f} tod {tod}: off {timediff(a, truth)}")
    _, tw = time2gpst(ref)
    c.seen('tod', int((tw+d)//86400)-int(tw//86400), d > 0, tw+d < 0,
           tw+d >= 604800)

    # GLONASS time of day (UTC+3h) -> UTC, nearest to the reference GPST
    if all(abs(s-lt) > 90000 for lt, _ in LEAPS):
        tu = gpst2utc(truth)
        tod = float((val(tu)-E_GPS+10800) % 86400)
        a = glo2time(ref, tod)
        c.ok(abs(timediff(a, tu)) < 1e-6, 'glo2time',
             f"ref {s}+{f} tod {tod}: off {timediff(a, tu)}")
        c.seen('glo', d > 0, tod < 10800)
