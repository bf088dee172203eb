""" C21: RTCM 3 transport, MSM observations and station messages """
from common import Check
from bits import BW, rs, ru, rtcm3, crc24q
import math
import os
import numpy as np
from cssrlib.gnss import (gpst2time, time2gpst, sat2id, uGNSS, timediff,
                          uTYP, gtime_t)
from cssrlib.rtcm import rtcm

chk = Check('C21', ['src/cssrlib/rtcm.py'],
            rule='independently encoded RTCM3 streams: MSM1-7 of six systems '
            'with random masks, invalid values and lock histories, station '
            'messages, garbage and corruption; distinct by message type and '
            'situation')

CL = 299792458.0
RMS = CL*1e-3

# base message, prn offset, day rule, signal id -> RINEX code, carrier [MHz]
G1, G2, G5 = 1575.42e6, 1227.60e6, 1176.45e6
MSM = {
    'G': (1070, 0, {2: '1C', 3: '1P', 4: '1W', 8: '2C', 9: '2P', 10: '2W',
                    15: '2S', 16: '2L', 17: '2X', 22: '5I', 23: '5Q',
                    24: '5X', 30: '1S', 31: '1L', 32: '1X'}, 32),
    'R': (1080, 0, {2: '1C', 3: '1P', 8: '2C', 9: '2P', 15: '3I',
                    16: '3Q', 17: '3X'}, 24),
    'E': (1090, 0, {2: '1C', 3: '1A', 4: '1B', 5: '1X', 6: '1Z', 8: '6C',
                    9: '6A', 10: '6B', 11: '6X', 12: '6Z', 14: '7I',
                    15: '7Q', 16: '7X', 18: '8I', 19: '8Q', 20: '8X',
                    22: '5I', 23: '5Q', 24: '5X'}, 36),
    'S': (1100, 119, {2: '1C', 22: '5I', 23: '5Q', 24: '5X'}, 39),
    'J': (1110, 192, {2: '1C', 3: '1E', 9: '6S', 10: '6L', 11: '6X', 15: '2S',
                      16: '2L', 17: '2X', 22: '5I', 23: '5Q', 24: '5X',
                      30: '1S', 31: '1L', 32: '1X'}, 10),
    'C': (1120, 0, {2: '2I', 3: '2Q', 4: '2X', 8: '6I', 9: '6Q', 10: '6X',
                    14: '7I', 15: '7Q', 16: '7X', 22: '5D', 23: '5P',
                    24: '5X', 25: '7D', 30: '1D', 31: '1P', 32: '1X'}, 63),
}
FRQ = {'G': {'1': G1, '2': G2, '5': G5},
       'E': {'1': G1, '5': G5, '7': 1207.14e6, '8': 1191.795e6,
             '6': 1278.75e6},
       'S': {'1': G1, '5': G5},
       'J': {'1': G1, '2': G2, '5': G5, '6': 1278.75e6},
       'C': {'1': G1, '2': 1561.098e6, '5': G5, '7': 1207.14e6,
             '6': 1268.52e6}}


def carrier(sy, code, fcn):
    if sy != 'R':
        return FRQ[sy][code[0]]
    if code[0] == '3':
        return 1202.025e6
    if fcn is None:
        return None
    return (1602e6+fcn*562500.0 if code[0] == '1' else
            1246e6+fcn*437500.0)


def name(sy, p):
    """ satellite identifier of mask position p (1..64) """
    if sy == 'S':
        return f"S{p+19:02d}"
    return f"{sy}{p:02d}"


def epoch_bits(sy, tow_ms):
    """ 30 bit epoch field of a GPS time of week in ms """
    leap = 18000
    if sy == 'R':
        t = (tow_ms-leap+3*3600000) % 604800000
        return (t//86400000) << 27 | t % 86400000
    if sy == 'C':
        return (tow_ms-14000) % 604800000
    return tow_ms


def msm_bits(r, sy, k, tow_ms, prns, sigs, cells, d, hdr):
    """ encode one MSM message; d[cell] holds raw integers """
    base = MSM[sy][0]
    w = BW().u(12, base+k).u(12, hdr['ref']).u(30, epoch_bits(sy, tow_ms))
    w.u(1, hdr['mm']).u(3, hdr['iods']).u(7, ru(r, 7)).u(2, ru(r, 2))
    w.u(2, ru(r, 2)).u(1, ru(r, 1)).u(3, ru(r, 3))
    for p in range(1, 65):
        w.u(1, p in prns)
    for s in range(1, 33):
        w.u(1, s in sigs)
    for p in prns:
        for s in sigs:
            w.u(1, (p, s) in cells)
    order = [(p, s) for p in prns for s in sigs if (p, s) in cells]
    if k >= 4:
        for p in prns:
            w.u(8, d[p]['ms'])
    if k in (5, 7):
        for p in prns:
            w.u(4, d[p]['ex'])
    for p in prns:
        w.u(10, d[p]['mod'])
    if k in (5, 7):
        for p in prns:
            w.s(14, d[p]['rr'])
    if k != 2:
        for x in order:
            w.s(15 if k < 6 else 20, d[x]['pr'])
    if k > 1:
        for x in order:
            w.s(22 if k < 6 else 24, d[x]['cp'])
        for x in order:
            w.u(4 if k < 6 else 10, d[x]['lock'])
        for x in order:
            w.u(1, d[x]['half'])
    if k > 3:
        for x in order:
            w.u(6 if k < 6 else 10, d[x]['cnr'])
    if k in (5, 7):
        for x in order:
            w.s(15, d[x]['rrf'])
    return w


def inv_or(r, n, p):
    """ signed raw value, -2^(n-1) marks invalid data """
    return -(1 << (n-1)) if r.random() < p else rs(r, n)


@chk.case(320, 12000, cpu=120, minseen=30)
def msm(c):
    """ MSM histories against the encoded integers """
    r = c.rng
    log = os.path.join(c.tmp, 'rtcm.log') if c.idx % 5 == 0 else None
    dec = rtcm(log)
    dec.monlevel = c.rng.choice([1, 1, 2, 3, 4]) if log else 0
    week = r.randint(1931, 2600)
    dec.week = week
    dec.time = gpst2time(week, 0)
    tow = r.choice([0, r.randrange(604800000), r.randrange(604800)*1000,
                    604799000-r.randrange(40)*1000, r.randrange(20000)])
    sys_ = r.sample(list(MSM), r.choice([1, 2, 3]))
    cfg = {}
    for sy in sys_:
        tb = MSM[sy][2]
        ns = r.choice([1, 1, 2, 3, 4, 8])
        sigs = sorted(r.sample(sorted(tb), min(ns, len(tb))))
        nsat = min(64//len(sigs), r.choice([1, 2, 5, 12, 20, 64]), MSM[sy][3])
        pop = list(range(1, MSM[sy][3]+1))
        fcn = {p: r.randint(-7, 6) for p in pop}
        cfg[sy] = (sigs, nsat, pop, fcn,
                   r.choice([1, 2, 3, 4, 5, 6, 7, 7, 5, 4]))
    lock = {}
    known = {}
    for ep in range(r.choice([1, 3, 6])):
        for sy in sys_:
            sigs, nsat, pop, fcn, k = cfg[sy]
            tb = MSM[sy][2]
            if r.random() < 0.15:
                sigs = sorted(r.sample(sigs, r.randint(1, len(sigs))))
            if ep == 0 or r.random() < 0.4:
                prns = sorted(r.sample(pop, nsat))
                cfg[sy] = cfg[sy][:4]+(k,)
                prns0 = prns
                cfg[sy+'p'] = prns
            prns = cfg[sy+'p']
            full = r.random() < 0.5
            cells = {(p, s) for p in prns for s in sigs
                     if full or r.random() < 0.7}
            pinv = r.choice([0, 0.1])
            d = {}
            for p in prns:
                d[p] = dict(ms=255 if r.random() < pinv else
                            r.randint(0, 254),
                            mod=r.choice([0, 1023, r.randrange(1024)]),
                            ex=fcn[p]+7 if sy == 'R' else ru(r, 4),
                            rr=inv_or(r, 14, pinv))
            lmax = 15 if k < 6 else 704
            for x in cells:
                lp = lock.get((sy,)+x)
                q = r.random()
                if lp is None:
                    lk = r.choice([0, r.randint(0, lmax)])
                elif q < .2:
                    lk = 0
                elif q < .3:
                    lk = r.randint(0, lp)
                else:
                    lk = min(lmax, lp+r.choice([0, 0, 1, 3]))
                d[x] = dict(pr=inv_or(r, 15 if k < 6 else 20, pinv),
                            cp=inv_or(r, 22 if k < 6 else 24, pinv),
                            lock=lk, half=r.random() < .1,
                            cnr=ru(r, 6 if k < 6 else 10),
                            rrf=inv_or(r, 15, pinv))
            hdr = dict(ref=ru(r, 12), mm=ru(r, 1), iods=ru(r, 3))
            w = msm_bits(r, sy, k, tow, prns, sigs, cells, d, hdr)
            f = rtcm3(w.bytes(), ru(r, 6))
            c.ok(dec.sync(f, 0) and dec.checksum(f, 0, len(f)),
                 'frame', 'valid frame rejected')
            t0 = dec.decode_time(f)
            i, obs, eph, geph, seph = dec.decode(f)
            tag = f"{sy} MSM{k}"
            texp = gpst2time(week, tow//1000)
            c.ok(abs(timediff(obs.t, texp)-tow % 1000*1e-3) < 1e-6 and
                 abs(timediff(obs.time, obs.t)) < 1e-9 and
                 abs(timediff(t0, obs.t)) < 1e-9, 'epoch',
                 lambda: f"{tag}: {time2gpst(obs.t)} {time2gpst(t0)} expected "
                 f"{week} {tow*1e-3}")
            c.eq(i, w_bits(w, k, prns, cells)+24, 'consumed', tag)
            c.eq((dec.refid, int(dec.mi), dec.iods),
                 (hdr['ref'], hdr['mm'], hdr['iods']), 'header', tag)
            c.eq([sat2id(int(s)) for s in obs.sat],
                 [name(sy, p) for p in prns], 'satellites', tag)
            c.eq(len(obs.sig), 1, 'systems', tag)
            sg = list(obs.sig.values())[0]
            for ty, ch in ((uTYP.C, 'C'), (uTYP.L, 'L'), (uTYP.S, 'S')):
                c.eq([x.str() for x in sg[ty]], [ch+tb[s] for s in sigs],
                     'signals', tag)
            nz = 0
            for a, p in enumerate(prns):
                if k >= 4:
                    rho = math.nan if d[p]['ms'] == 255 else \
                        (d[p]['ms']+d[p]['mod']/1024.0)*RMS
                else:
                    rho = d[p]['mod']/1024.0*RMS
                if sy == 'R' and k in (5, 7):
                    known[p] = fcn[p]
                for b, s in enumerate(sigs):
                    P = L = S = 0.0
                    if (p, s) in cells:
                        x = d[p, s]
                        if k != 2 and x['pr'] != -(1 << (14 if k < 6
                                                         else 19)):
                            P = rho+x['pr']*RMS*(2**-24 if k < 6 else 2**-29)
                        fq = carrier(sy, tb[s], known.get(p))
                        if k > 1 and fq is not None and \
                                x['cp'] != -(1 << (21 if k < 6 else 23)):
                            L = (rho+x['cp']*RMS*(2**-29 if k < 6 else
                                                  2**-31))*fq/CL
                        if k > 3:
                            S = x['cnr']*(1.0 if k < 6 else 2**-4)
                        nz += 1
                        P = 0.0 if P != P else P
                        L = 0.0 if L != L else L
                    c.close(obs.P[a, b], P, 1e-6, 'pseudorange',
                            f"{tag} {name(sy, p)} {tb[s]}")
                    c.close(obs.L[a, b], L, 1e-6, 'phase',
                            f"{tag} {name(sy, p)} {tb[s]} {fcn[p]}")
                    c.close(obs.S[a, b], S, 1e-9, 'cnr',
                            f"{tag} {name(sy, p)} {tb[s]}")
                    li = int(obs.lli[a, b])
                    if (p, s) not in cells or k == 1:
                        c.eq(li, 0, 'lli-absent', tag)
                        continue
                    x = d[p, s]
                    lp = lock.get((sy, p, s))
                    lock[sy, p, s] = x['lock']
                    if lp is not None and x['lock'] < lp:
                        c.ok(li & 1, 'lli-missed', lambda: f"{tag} {lp} -> "
                             f"{x['lock']}: {li}")
                        c.seen('slip', k)
                    elif not x['half'] and (lp is not None or True):
                        c.eq(li & 1, 0, 'lli-false', f"{tag} {lp} -> "
                             f"{x['lock']}")
                    c.eq((li >> 1) & 1, int(x['half']), 'half-cycle', tag)
            c.seen(sy, k)
            c.sample(f"{tag} sats {len(prns)} sigs {sigs} cells {len(cells)}")
        tow += r.choice([1000, 30000, 500])
        if tow >= 604800000:
            break


def w_bits(w, k, prns, cells):
    """ number of bits of the message without byte alignment """
    ns, nc = len(prns), len(cells)
    nsig = 0
    # header 169 bits + cell mask, rebuilt from the satellite/cell counts
    sat = {1: 10, 2: 10, 3: 10, 4: 18, 5: 36, 6: 18, 7: 36}[k]
    cel = {1: 15, 2: 27, 3: 42, 4: 48, 5: 63, 6: 65, 7: 80}[k]
    mask = w.get(12+12+30+1+3+7+2+2+1+3+64, 32)
    nsig = bin(mask).count('1')
    return 169+ns*nsig+ns*sat+nc*cel


def ant(r):
    n = r.choice([0, 1, 5, 20, 31])
    return ''.join(r.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ._-+')
                   for _ in range(n))


@chk.case(150, 6000, cpu=60, minseen=12)
def station(c):
    """ station messages """
    r = c.rng
    log = os.path.join(c.tmp, 'rtcm.log') if c.idx % 5 == 0 else None
    dec = rtcm(log)
    dec.monlevel = c.rng.choice([1, 1, 2, 3, 4]) if log else 0
    week = r.randint(1931, 2600)
    dec.week = week
    dec.time = gpst2time(week, r.randrange(604800))
    for _ in range(6):
        mt = r.choice([1005, 1006, 1032, 1007, 1008, 1033, 1230, 1029, 1030,
                       1031, 1303, 1304, 1305])
        ref = ru(r, 12)
        w = BW().u(12, mt)
        scan = r.random() < .3 and mt in (1005, 1006, 1032, 1007, 1008, 1033,
                                          1230)
        if mt in (1005, 1006, 1032):
            x = [rs(r, 38) for _ in range(3)]
            if mt == 1032:
                w.u(12, ru(r, 12))
            w.u(12, ref).u(6, ru(r, 6))
            if mt != 1032:
                ind = ru(r, 4)
                w.u(4, ind).s(38, x[0]).u(2, ru(r, 2)).s(38, x[1])
                w.u(2, ru(r, 2)).s(38, x[2])
            else:
                for v in x:
                    w.s(38, v)
            h = ru(r, 16)
            if mt == 1006:
                w.u(16, h)
            f = rtcm3(w.bytes())
            dec.checksum(f, 0)
            dec.decode(f, scanmode=scan)
            c.close(dec.pos_arp, np.array(x)*1e-4, 1e-6, 'position', mt)
            c.eq(dec.refid, ref, 'station', mt)
            if mt == 1006:
                c.close(dec.ant_height, h*1e-4, 1e-9, 'height', mt)
            if mt != 1032:
                c.eq(dec.sti, ind & 1, 'physical', mt)
        elif mt in (1007, 1008, 1033):
            s = [ant(r) for _ in range(5)]
            aid = ru(r, 8)
            w.u(12, ref)

            def txt(v):
                w.u(8, len(v))
                for ch in v:
                    w.u(8, ord(ch))
            txt(s[0])
            w.u(8, aid)
            if mt != 1007:
                txt(s[1])
            if mt == 1033:
                for v in s[2:]:
                    txt(v)
            f = rtcm3(w.bytes())
            dec.checksum(f, 0)
            if len(f) < 12:
                continue
            dec.decode(f, scanmode=scan)
            c.eq((dec.refid, dec.ant_desc, dec.ant_id), (ref, s[0], aid),
                 'antenna', mt)
            if mt != 1007:
                c.eq(dec.ant_serial, s[1], 'serial', mt)
            if mt == 1033:
                c.eq((dec.rcv_type, dec.firm_ver, dec.rcv_serial),
                     tuple(s[2:]), 'receiver', mt)
        elif mt == 1230:
            m = ru(r, 4)
            v = [rs(r, 16) if m >> (3-k) & 1 else 0 for k in range(4)]
            w.u(12, ref).u(1, ru(r, 1)).u(3, 0).u(4, m)
            for k in range(4):
                if m >> (3-k) & 1:
                    w.s(16, v[k])
            f = rtcm3(w.bytes())
            dec.checksum(f, 0)
            dec.decode(f, scanmode=scan)
            c.close(dec.glo_bias, np.array(v)*0.02, 1e-9, 'glo-bias', m)
        elif mt == 1029:
            s = ant(r)+r.choice(['', 'é', '測位', '\U0001f6f0'])
            b = s.encode()
            w.u(12, ref).u(16, 59000).u(17, 86399).u(7, len(s)).u(8, len(b))
            for x in b:
                w.u(8, x)
            f = rtcm3(w.bytes())
            dec.checksum(f, 0)
            dec.decode(f)
            c.eq(dec.ustr, s, 'text', mt)
        else:
            sy = {1030: 'G', 1031: 'R', 1303: 'C', 1304: 'E', 1305: 'J'}[mt]
            t = r.randrange(604800-14)
            n = r.choice([0, 1, 5, 31])
            mx = {'G': 32, 'R': 24, 'C': 63, 'E': 36, 'J': 10}[sy]
            pr = r.sample(range(1, mx+1), min(n, mx))
            if sy == 'R':
                w.u(17, (t-18+10800) % 86400)
            elif sy == 'C':
                w.u(20, t)
            else:
                w.u(20, t)
            nr = ru(r, 7)
            w.u(12, ref).u(7, nr).u(5, len(pr))
            d = {}
            for p in pr:
                d[p] = [ru(r, 8), ru(r, 9), ru(r, 6), ru(r, 10), ru(r, 10)]
                w.u(4 if sy == 'J' else 6, p)
                for b, v in zip((8, 9, 6, 10, 10), d[p]):
                    w.u(b, v)
            f = rtcm3(w.bytes())
            dec.checksum(f, 0)
            dec.nrtk_r = {}
            dec.decode(f)
            c.eq((dec.refid, dec.nrefs, dec.nsat), (ref, nr, len(pr)),
                 'residual-header', mt)
            c.eq({sat2id(s) for s in dec.nrtk_r}, {name(sy, p) for p in pr},
                 'residual-sats', mt)
            for s, v in dec.nrtk_r.items():
                p = int(sat2id(s)[1:])
                c.close(v, np.array(d[p])*[5e-4, 1e-8, 1e-7, 5e-4, 1e-8],
                        1e-12, 'residual', mt)
        c.seen(mt, scan)
    c.sample(f"{mt}")


@chk.case(60, 2000, cpu=60, minseen=5)
def stream(c):
    """ frames in a byte stream with garbage, damage and unknown types """
    r = c.rng
    dec = rtcm()
    dec.monlevel = 0
    dec.week = 2300
    dec.time = gpst2time(2300, 1000)
    skip = r.random() < .3
    if skip:
        dec.mt_skip = [1005]
    buf, exp = b'', []
    for n in range(r.randint(5, 20)):
        if r.random() < .5:
            g = bytes(r.choice([0xd3, 0, r.randrange(256)])
                      for _ in range(r.randint(1, 30)))
            buf += g
        mt = r.choice([1005, 1005, 1013, 4094, 1029, 1230, 1004])
        w = BW().u(12, mt)
        ref = ru(r, 12)
        x = None
        if mt == 1005:
            x = [rs(r, 38) for _ in range(3)]
            w.u(12, ref).u(10, 0).s(38, x[0]).u(2, 0).s(38, x[1]).u(2, 0)
            w.s(38, x[2])
        elif mt == 1029:
            w.u(12, ref).u(33, 0).u(7, 3).u(8, 3).u(24, 0x414243)
        elif mt == 1230:
            w.u(12, ref).u(8, 15)
            for k in range(4):
                w.s(16, k)
        else:
            for k in range(r.choice([6, 40, 1000])):
                w.u(8, r.randrange(256))
        f = bytearray(rtcm3(w.bytes(), ru(r, 6)))
        q = r.random()
        if q < .3:  # damage behind the length field
            k = r.choice(['1', '2', 'odd', 'burst'])
            nb = len(f)*8
            if k == 'burst':
                ln = r.randint(2, 24)
                p0 = r.randrange(24, nb-ln)
                pos = {p0, p0+ln-1} | {p0+j for j in range(1, ln-1)
                                       if r.random() < .5}
            else:
                m = {'1': 1, '2': 2, 'odd': r.choice([3, 5, 7, 21])}[k]
                pos = set(r.sample(range(24, nb), m))
            for p in pos:
                f[p//8] ^= 0x80 >> (p % 8)
            c.ok(not dec.checksum(bytes(f), 0, len(f)), 'damage-undetected',
                 k)
            c.seen('damage', k)
        elif q < .4:  # loss of bytes
            f = f[:r.randrange(3, len(f))]
            c.seen('truncated')
        else:
            c.ok(dec.checksum(bytes(f), 0, len(f)), 'frame-rejected', mt)
            c.eq((dec.len, dec.dlen), (len(f)-6, len(f)), 'length', mt)
            exp.append((mt, bytes(f), x))
        buf += bytes(f)
    buf += bytes(8)
    # receive loop of the applications
    got, k = [], 0
    while k < len(buf)-6:
        if not dec.sync(buf, k) or not dec.checksum(buf, k, len(buf)):
            k += 1
            continue
        f = buf[k:k+dec.dlen]
        dec.pos_arp = None
        out = dec.decode(f)
        c.eq(len(out), 5, 'result', dec.msgtype)
        got.append((dec.msgtype, f, dec.pos_arp))
        k += dec.dlen
    c.eq([(a, b) for a, b, _ in got], [(a, b) for a, b, _ in exp], 'frames',
         'decoded frames')
    for (mt, f, p), (_, _, x) in zip(got, exp):
        if x is None or skip:
            c.ok(p is None, 'foreign', mt)
        else:
            c.close(p, np.array(x)*1e-4, 1e-6, 'payload', mt)
    c.seen('stream', len(exp) > 5)
    c.sample(f"{len(buf)} bytes, {len(exp)} frames")
