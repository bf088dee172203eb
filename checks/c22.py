""" C22: broadcast ephemerides in RTCM 3 messages """
from common import Check
from bits import BW, rs, ru, rtcm3
import math
import os
import numpy as np
from cssrlib.gnss import gpst2time, sat2id, timediff, gtime_t, timeadd
from cssrlib.rtcm import rtcm

chk = Check('C22', ['src/cssrlib/rtcm.py'],
            rule='random ephemeris parameters over the full range of every '
            'field, encoded independently; distinct by message type, week '
            'situation and log mode')

SC = math.pi
P = [2.0**-k for k in range(70)]

# name, bits, kind, scale (attribute None: not checked)
KEP = {
    1019: ('G', 6, [
        ('#prn', 6, 'u', 1), ('#week', 10, 'u', 1), ('sva', 4, 'u', 1),
        ('code', 2, 'u', 1), ('idot', 14, 's', P[43]*SC),
        ('iode', 8, 'u', 1), ('#toc', 16, 'u', 16), ('af2', 8, 's', P[55]),
        ('af1', 16, 's', P[43]), ('af0', 22, 's', P[31]),
        ('iodc', 10, 'u', 1), ('crs', 16, 's', P[5]),
        ('deln', 16, 's', P[43]*SC), ('M0', 32, 's', P[31]*SC),
        ('cuc', 16, 's', P[29]), ('e', 32, 'u', P[33]),
        ('cus', 16, 's', P[29]), ('#sqrtA', 32, 'u', P[19]),
        ('#toe', 16, 'u', 16), ('cic', 16, 's', P[29]),
        ('OMG0', 32, 's', P[31]*SC), ('cis', 16, 's', P[29]),
        ('i0', 32, 's', P[31]*SC), ('crc', 16, 's', P[5]),
        ('omg', 32, 's', P[31]*SC), ('OMGd', 24, 's', P[43]*SC),
        ('tgd', 8, 's', P[31]), ('svh', 6, 'u', 1), ('flag', 1, 'u', 1),
        ('fit', 1, 'u', 1)]),
    1044: ('J', 4, [
        ('#prn', 4, 'u', 1), ('#toc', 16, 'u', 16), ('af2', 8, 's', P[55]),
        ('af1', 16, 's', P[43]), ('af0', 22, 's', P[31]),
        ('iode', 8, 'u', 1), ('crs', 16, 's', P[5]),
        ('deln', 16, 's', P[43]*SC), ('M0', 32, 's', P[31]*SC),
        ('cuc', 16, 's', P[29]), ('e', 32, 'u', P[33]),
        ('cus', 16, 's', P[29]), ('#sqrtA', 32, 'u', P[19]),
        ('#toe', 16, 'u', 16), ('cic', 16, 's', P[29]),
        ('OMG0', 32, 's', P[31]*SC), ('cis', 16, 's', P[29]),
        ('i0', 32, 's', P[31]*SC), ('crc', 16, 's', P[5]),
        ('omg', 32, 's', P[31]*SC), ('OMGd', 24, 's', P[43]*SC),
        ('idot', 14, 's', P[43]*SC), ('code', 2, 'u', 1),
        ('#week', 10, 'u', 1), ('sva', 4, 'u', 1), ('svh', 6, 'u', 1),
        ('tgd', 8, 's', P[31]), ('iodc', 10, 'u', 1), ('fit', 1, 'u', 1)]),
    1042: ('C', 6, [
        ('#prn', 6, 'u', 1), ('#week', 13, 'u', 1), ('sva', 4, 'u', 1),
        ('idot', 14, 's', P[43]*SC), ('iode', 5, 'u', 1),
        ('#toc', 17, 'u', 8), ('af2', 11, 's', P[66]),
        ('af1', 22, 's', P[50]), ('af0', 24, 's', P[33]),
        ('iodc', 5, 'u', 1), ('crs', 18, 's', P[6]),
        ('deln', 16, 's', P[43]*SC), ('M0', 32, 's', P[31]*SC),
        ('cuc', 18, 's', P[31]), ('e', 32, 'u', P[33]),
        ('cus', 18, 's', P[31]), ('#sqrtA', 32, 'u', P[19]),
        ('#toe', 17, 'u', 8), ('cic', 18, 's', P[31]),
        ('OMG0', 32, 's', P[31]*SC), ('cis', 18, 's', P[31]),
        ('i0', 32, 's', P[31]*SC), ('crc', 18, 's', P[6]),
        ('omg', 32, 's', P[31]*SC), ('OMGd', 24, 's', P[43]*SC),
        ('tgd', 10, 's', 1e-10), ('tgd_b', 10, 's', 1e-10),
        ('svh', 1, 'u', 1)]),
    1041: ('I', 6, [
        ('#prn', 6, 'u', 1), ('#week', 10, 'u', 1), ('af0', 22, 's', P[31]),
        ('af1', 16, 's', P[43]), ('af2', 8, 's', P[55]), ('sva', 4, 'u', 1),
        ('#toc', 16, 'u', 16), ('tgd', 8, 's', P[31]),
        ('deln', 22, 's', P[41]*SC), ('iode', 8, 'u', 1),
        ('#rsv', 10, 'u', 1), ('svh', 2, 'u', 1), ('cuc', 15, 's', P[28]),
        ('cus', 15, 's', P[28]), ('cic', 15, 's', P[28]),
        ('cis', 15, 's', P[28]), ('crc', 15, 's', P[4]),
        ('crs', 15, 's', P[4]), ('idot', 14, 's', P[43]*SC),
        ('M0', 32, 's', P[31]*SC), ('#toe', 16, 'u', 16),
        ('e', 32, 'u', P[33]), ('#sqrtA', 32, 'u', P[19]),
        ('OMG0', 32, 's', P[31]*SC), ('omg', 32, 's', P[31]*SC),
        ('OMGd', 22, 's', P[41]*SC), ('i0', 32, 's', P[31]*SC),
        ('#rsv', 2, 'u', 1), ('#rsv', 2, 'u', 1)]),
}
_gal = [
    ('#prn', 6, 'u', 1), ('#week', 12, 'u', 1), ('iode', 10, 'u', 1),
    ('sva', 8, 'u', 1), ('idot', 14, 's', P[43]*SC), ('#toc', 14, 'u', 60),
    ('af2', 6, 's', P[59]), ('af1', 21, 's', P[46]), ('af0', 31, 's', P[34]),
    ('crs', 16, 's', P[5]), ('deln', 16, 's', P[43]*SC),
    ('M0', 32, 's', P[31]*SC), ('cuc', 16, 's', P[29]), ('e', 32, 'u', P[33]),
    ('cus', 16, 's', P[29]), ('#sqrtA', 32, 'u', P[19]),
    ('#toe', 14, 'u', 60), ('cic', 16, 's', P[29]),
    ('OMG0', 32, 's', P[31]*SC), ('cis', 16, 's', P[29]),
    ('i0', 32, 's', P[31]*SC), ('crc', 16, 's', P[5]),
    ('omg', 32, 's', P[31]*SC), ('OMGd', 24, 's', P[43]*SC)]
KEP[1045] = ('E', 6, _gal+[('tgd', 10, 's', P[32]), ('#hs', 2, 'u', 1),
                           ('#dvs', 1, 'u', 1), ('#rsv', 7, 'u', 1)])
KEP[1046] = ('E', 6, _gal+[('tgd_b', 10, 's', P[32]), ('tgd', 10, 's', P[32]),
                           ('#hs', 2, 'u', 1), ('#dvs', 1, 'u', 1),
                           ('#hs1', 2, 'u', 1), ('#dvs1', 1, 'u', 1),
                           ('#rsv', 2, 'u', 1)])
NSAT = {'G': 32, 'J': 10, 'C': 63, 'E': 36, 'I': 14}
# attributes of transmitted group delays (I/NAV: E1-E5a first, then E1-E5b)
SWAP = {1046}


def new(c):
    log = os.path.join(c.tmp, 'rtcm.log') if c.idx % 5 == 0 else None
    dec = rtcm(log)
    dec.monlevel = c.rng.choice([1, 1, 2, 3, 4]) if log else 0
    return dec


@chk.case(500, 20000, cpu=60, minseen=12)
def kepler(c):
    """ Keplerian ephemerides """
    r = c.rng
    dec = new(c)
    mt = r.choice(sorted(KEP))
    sy, _, tab = KEP[mt]
    # receive time and reference times of the ephemeris
    week = r.choice([r.randint(1400, 3400), 2047, 2048, 3071, 3072])
    tow = r.choice([r.randrange(604800), r.randrange(7200),
                    604800-r.randrange(1, 7200)])
    now = gpst2time(week, tow)
    unit = dict((a, s) for a, _, _, s in tab)
    # time of ephemeris within 4 hours of the receive time
    tabs = week*604800+tow+r.randint(-14400, 14400)
    tsys = tabs-14 if sy == 'C' else tabs
    tsys = tsys//unit['#toe']*unit['#toe']
    wk, toe = tsys//604800, tsys % 604800
    # the week number of the message is the one of the transmission or, as
    # BeiDou, the one of the reference time
    wt = wk if sy == 'C' or r.random() < .5 else week
    if sy == 'C':
        wk -= 1356
        wt = wk
    elif sy == 'E':
        wt -= 1024
    w = BW().u(12, mt)
    d = {}
    for a, n, k, s in tab:
        if a == '#prn':
            v = r.randint(1, NSAT[sy])
        elif a == '#week':
            v = wt % (1 << n)
        elif a in ('#toc', '#toe'):
            v = toe//s
            if a == '#toc' and r.random() < .5:  # same week
                v = min(max(v+r.randint(-7200, 7200)//s, 0), 604799//s)
        elif k == 'u':
            v = ru(r, n)
        else:
            v = rs(r, n)
        d[a] = v
        (w.u if k == 'u' else w.s)(n, v)
    f = rtcm3(w.bytes())
    dec.week = week
    dec.time = now
    c.ok(dec.checksum(f, 0), 'frame', mt)
    i, obs, eph, geph, seph = dec.decode(f)
    c.ok(eph is not None and obs is None and geph is None and seph is None,
         'kind', mt)
    c.eq(i, 24+w_n(tab), 'consumed', mt)
    c.eq(sat2id(eph.sat), f"{sy}{d['#prn']:02d}", 'satellite', mt)
    for a, n, k, s in tab:
        if a[0] == '#':
            continue
        a_ = a
        c.close(getattr(eph, a_), d[a]*s, abs(s)*1e-9, 'field',
                f"{mt} {a}", rtol=1e-14)
    c.close(eph.A, (d['#sqrtA']*P[19])**2, 1e-6, 'field', f"{mt} A",
            rtol=1e-14)
    if sy == 'C':
        texp = gpst2time(wk+1356, toe+14)
    else:
        texp = gpst2time(wk, toe)
    toc = d['#toc']*unit['#toc']
    for nm, t, dt in (('toe', eph.toe, 0), ('toc', eph.toc, toc-toe)):
        c.ok(abs(timediff(t, texp)-dt) < 1e-6, 'time',
             lambda: f"{mt} {nm}: {timediff(t, texp)-dt} s off, week {week} "
             f"tow {tow} transmitted week {d['#week']} toe {toe} toc {toc}")
    c.close(eph.toes, toe, 1e-9, 'field', f"{mt} toes")
    if sy == 'E':
        h = (d['#hs'] << 4 | d['#dvs'] << 3) if mt == 1045 else \
            (d['#hs'] << 7 | d['#dvs'] << 6 | d['#hs1'] << 1 | d['#dvs1'])
        c.eq(eph.svh, h, 'health', mt)
        c.eq((eph.mode, eph.code), (1, 258) if mt == 1045 else (0, 517),
             'message', mt)
    else:
        c.eq(eph.mode, 0, 'message', mt)
    sit = 'mid' if 14400 < tow < 590400 else 'rollover'
    c.seen(mt, sit)
    c.sample(f"{mt} {sat2id(eph.sat)} week {week} tow {tow} toe {toe}")


def w_n(tab):
    return 12+sum(x[1] for x in tab)


@chk.case(200, 8000, cpu=60, minseen=2)
def glonass(c):
    """ GLONASS ephemeris, sign-magnitude state vector """
    r = c.rng
    dec = new(c)
    week = r.randint(1931, 2600)
    tow = r.choice([r.randrange(604800), r.randrange(20000),
                    604799-r.randrange(20000)])
    now = gpst2time(week, tow)
    dec.week, dec.time = week, now
    utc = week*604800+tow-18
    # reference time in steps of 15 minutes of the Moscow day
    tbt = (utc+10800+r.randint(-7200, 7200))//900*900
    tkt = (utc+10800-r.randint(0, 1800))//30*30
    prn, frq = r.randint(1, 24), r.randint(0, 13)
    bn, age = ru(r, 1), ru(r, 5)
    tk = tkt % 86400
    tb = tbt % 86400//900
    x = [[r.choice([rs(r, 24), rs(r, 23)]), rs(r, 27), rs(r, 5)]
         for _ in range(3)]
    gam, tau, dtau = rs(r, 11), rs(r, 22), rs(r, 5)
    P1, P2, P3, P4, Pv, M = (ru(r, 2), ru(r, 1), ru(r, 1), ru(r, 1), ru(r, 2),
                             ru(r, 2))
    w = BW().u(12, 1020).add('u6 u5 u1 u1 u2', prn, frq, ru(r, 1), ru(r, 1),
                             P1)
    w.add('u5 u6 u1', tk//3600, tk//60 % 60, tk % 60//30)
    w.add('u1 u1 u7', bn, P2, tb)
    for k in range(3):
        w.add('g24 g27 g5', *x[k])
    w.add('u1 g11 u2 u1 g22 g5', P3, gam, Pv, ru(r, 1), tau, dtau)
    w.add('u5 u1 u4 u11 u2 u1 u11 g32 u5 g22 u1 u7', age, P4, ru(r, 4),
          ru(r, 11), M, ru(r, 1), ru(r, 11), rs(r, 32), ru(r, 5), rs(r, 22),
          ru(r, 1), 0)
    f = rtcm3(w.bytes())
    c.ok(dec.checksum(f, 0), 'frame', 1020)
    i, obs, eph, g, seph = dec.decode(f)
    c.ok(g is not None and eph is None, 'kind', 1020)
    c.eq((i, sat2id(g.sat), g.frq, g.svh, g.age, g.iode),
         (24+w.n, f"R{prn:02d}", frq-7, bn, age, tb), 'field', '1020')
    v = np.array(x, dtype=float)
    c.close(g.vel, v[:, 0]*P[20]*1e3, 1e-9, 'state', '1020 velocity')
    c.close(g.pos, v[:, 1]*P[11]*1e3, 1e-6, 'state', '1020 position')
    c.close(g.acc, v[:, 2]*P[30]*1e3, 1e-15, 'state', '1020 acceleration')
    c.close([g.gamn, g.taun, g.dtaun],
            [gam*P[40], tau*P[30], dtau*P[30]], 1e-18, 'clock', '1020')
    for nm, t, e in (('toe', g.toe, tbt), ('tof', g.tof, tkt)):
        e = timeadd(gpst2time(week, 0), e-week*604800-10800+18)
        c.ok(abs(timediff(t, e)) < 1e-6, 'time', lambda:
             f"1020 {nm}: {timediff(t, e)} s off at {week} {tow}")
    c.seen(1020, 'rollover' if tow < 20000 or tow > 584800 else 'mid')
    c.sample(f"R{prn:02d} {x}")


@chk.case(80, 3000, cpu=60, minseen=2)
def sbas(c):
    """ SBAS ephemeris """
    r = c.rng
    dec = new(c)
    week = r.randint(1400, 2600)
    tow = r.choice([r.randrange(604800), r.randrange(20000),
                    r.randrange(7)*86400+r.choice([5, 86390])])
    dec.week, dec.time = week, gpst2time(week, tow)
    t0 = (week*604800+tow+r.randint(-1800, 1800))//16*16
    prn, iodn, ura = r.randint(1, 39), ru(r, 8), ru(r, 4)
    p = [rs(r, 30), rs(r, 30), rs(r, 25)]
    v = [rs(r, 17), rs(r, 17), rs(r, 18)]
    a = [rs(r, 10) for _ in range(3)]
    af = [rs(r, 12), rs(r, 8)]
    w = BW().u(12, 1043).add('u6 u8 u13 u4', prn, iodn, t0 % 86400//16, ura)
    w.add('s30 s30 s25 s17 s17 s18', *p, *v).add('s10 s10 s10', *a)
    w.add('s12 s8', *af)
    f = rtcm3(w.bytes())
    c.ok(dec.checksum(f, 0), 'frame', 1043)
    i, obs, eph, geph, s = dec.decode(f)
    c.ok(s is not None, 'kind', 1043)
    c.eq((i, sat2id(s.sat), s.iodn, s.sva),
         (24+230, f"S{prn+19:02d}", iodn, ura), 'field', '1043')
    c.close(s.pos, np.array(p)*[.08, .08, .4], 1e-6, 'state', '1043 pos')
    c.close(s.vel, np.array(v)*[.000625, .000625, .004], 1e-9, 'state',
            '1043 vel')
    c.close(s.acc, np.array(a)*[1.25e-5, 1.25e-5, 6.25e-5], 1e-12, 'state',
            '1043 acc')
    c.close([s.af0, s.af1], [af[0]*P[31], af[1]*P[40]], 1e-18, 'clock',
            '1043')
    e = timeadd(gpst2time(week, 0), t0-week*604800)
    c.ok(abs(timediff(s.t0, e)) < 1e-6, 'time',
         lambda: f"1043 t0 {timediff(s.t0, e)} s off at {week} {tow}")
    c.seen(1043, tow % 86400 < 100 or tow % 86400 > 86300)
    c.sample(f"S{prn+19}")
