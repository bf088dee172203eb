""" C08: RINEX observation files """
from common import Check, snapshot
import gzip
import copy
import os
import numpy as np
from cssrlib.gnss import (uGNSS, uTYP, rSigRnx, Obs, prn2sat, epoch2time,
                          timediff, timeadd)
from cssrlib.rinex import rnxdec, rnxenc

chk = Check('C08', ['src/cssrlib/rinex.py'],
            rule='observation files written by an independent formatter with '
            'arbitrary constellations, signal lists (1..40 per '
            'constellation), blanks, loss-of-lock flags, event records and '
            'signal selections; files of the encoder read back; distinct by '
            'header layout, record kind and selection outcome')

COD = {'G': ['1C', '1W', '1L', '1X', '1P', '2W', '2L', '2X', '2C', '2S', '5Q',
             '5X', '5I'],
       'R': ['1C', '1P', '2C', '2P', '3Q', '3X', '4A', '6A'],
       'E': ['1C', '1X', '1B', '5Q', '5X', '7Q', '7X', '8Q', '8X', '6C', '6B'],
       'J': ['1C', '1L', '1X', '2L', '2X', '5Q', '5X', '6L', '6E'],
       'C': ['2I', '2X', '1P', '1X', '1D', '5P', '5X', '7I', '7D', '6I'],
       'I': ['5A', '5B', '1P', '9A'], 'S': ['1C', '5I', '5Q']}
SYS = {'G': (uGNSS.GPS, 32), 'R': (uGNSS.GLO, 27), 'E': (uGNSS.GAL, 36),
       'J': (uGNSS.QZS, 10), 'C': (uGNSS.BDS, 63), 'I': (uGNSS.IRN, 14),
       'S': (uGNSS.SBS, 58)}
T = {'C': uTYP.C, 'L': uTYP.L, 'D': uTYP.D, 'S': uTYP.S}


def sat_of(ch, n):
    s = SYS[ch][0]
    return prn2sat(s, n+(192 if ch == 'J' else 100 if ch == 'S' else 0))


def sats(r, ch, k):
    lo = 20 if ch == 'S' else 1
    return r.sample(range(lo, SYS[ch][1]+1), min(k, SYS[ch][1]+1-lo))


def hdr(s, lbl):
    return f"{s:<60.60s}{lbl:<20s}".rstrip()+'\n'


def epoch(r):
    return [r.randint(2000, 2079), r.randint(1, 12), r.randint(1, 28),
            r.randint(0, 23), r.randint(0, 59),
            r.choice([0, 0, r.randint(0, 59), r.randint(0, 599)/10,
                      r.randint(0, 59999)/1000])]


@chk.case(500, 15000, minseen=60)
def decode(c):
    r = c.rng
    chs = r.sample('GREJCIS', r.randint(1, 7))
    codes = {}
    for ch in chs:
        allc = [t+b for b in COD[ch] for t in 'CLDS']
        k = r.choice([1, 12, 13, 14, 26, 27, r.randint(1, len(allc))])
        codes[ch] = r.sample(allc, min(k, len(allc)))
        c.seen('nsig', ch, len(codes[ch]))
    out = []
    ver = r.choice(['3.02', '3.04', '3.05', '4.00', '4.02'])
    out.append(hdr(f"     {ver}           OBSERVATION DATA    M",
                   'RINEX VERSION / TYPE'))
    items = []
    rec, ant = 'REC '+str(r.randint(0, 999)), 'ANT.X%03d NONE' % r.randint(0, 9)
    pos = [round(r.uniform(-6e6, 6e6), 4) for _ in range(3)]
    ecc = [round(r.uniform(-9, 9), 4) for _ in range(3)]   # H, E, N
    items.append([hdr(f"{'123':20s}{rec:20s}{'1.0':20s}",
                      'REC # / TYPE / VERS')])
    items.append([hdr(f"{'77':20s}{ant:20s}", 'ANT # / TYPE')])
    items.append([hdr('%14.4f%14.4f%14.4f' % tuple(pos),
                      'APPROX POSITION XYZ')])
    items.append([hdr('%14.4f%14.4f%14.4f' % tuple(ecc),
                      'ANTENNA: DELTA H/E/N')])
    items.append([hdr(' text with SYS GPS', 'COMMENT')])
    ch_frq = {}
    if 'R' in chs:
        for n in sats(r, 'R', r.choice([1, 7, 8, 9, 16, 17, 24])):
            ch_frq[n] = r.randint(-7, 6)
        ls, ks = [], sorted(ch_frq)
        for j in range(0, len(ks), 8):
            s = ''.join(' R%02d %2d' % (n, ch_frq[n]) for n in ks[j:j+8])
            ls.append(hdr(('%3d' % len(ks) if j == 0 else '   ')+s,
                          'GLONASS SLOT / FRQ #'))
        items.append(ls)
    t0 = epoch(r)
    items.append([hdr('%6d%6d%6d%6d%6d%13.7f     GPS' % tuple(t0),
                      'TIME OF FIRST OBS')])
    for ch in chs:
        ls = []
        for j in range(0, len(codes[ch]), 13):
            s = ''.join(' '+x for x in codes[ch][j:j+13])
            ls.append(hdr((f"{ch}  {len(codes[ch]):3d}" if j == 0 else
                           ' '*6)+s, 'SYS / # / OBS TYPES'))
        items.append(ls)
    r.shuffle(items)
    for x in items:
        out += x
    out.append(hdr('', 'END OF HEADER'))
    # selection
    dec = rnxdec()
    sel, want = [], {}
    for ch in r.sample('GREJCIS', r.randint(1, 7)):
        allc = [t+b for b in COD[ch] for t in 'CLDS']
        inh = list(codes.get(ch, []))
        pick = r.sample(inh, r.randint(0, min(len(inh), 12))) + \
            r.sample(allc, r.randint(0, 4))
        pick = list(dict.fromkeys(pick))
        if not pick:
            continue
        want[ch] = pick
        sel += [(ch, x) for x in pick]
    r.shuffle(sel)
    dec.setSignals([rSigRnx(SYS[ch][0], x) for ch, x in sel])
    order = {ch: {t: [x for h, x in sel if h == ch and x[0] == t]
                  for t in 'CLDS'} for ch in want}
    nmax = {t: max([len(order[ch][t]) for ch in order] or [0])
            for t in 'CLDS'}
    # epochs
    exp = []
    tstart = epoch2time(t0)
    from_ep = [t0]
    for k in range(r.randint(0, 5)):
        ep = epoch(r)
        flag = r.choice([0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6])
        if flag > 1:
            n = r.randint(0, 4)
            if flag == 6:
                # cycle slips look like observations
                out.append('> %4d %02d %02d %02d %02d%11.7f  6%3d\n' % (*ep, n))
                for _ in range(n):
                    ch = r.choice(chs)
                    out.append('%s%02d' % (ch, sats(r, ch, 1)[0])+''.join(
                        '%14.3f  ' % (r.randint(-9, 9) if x[0] == 'L' else 0)
                        for x in codes[ch])+'\n')
                c.seen('event', flag)
                continue
            hd = '> %4d %02d %02d %02d %02d%11.7f  %1d%3d' % (*ep, flag, n)
            if r.random() < 0.3:
                hd = '>'+' '*30+'%1d%3d' % (flag, n)
            out.append(hd+'\n')
            for _ in range(n):
                out.append(r.choice([
                    hdr('event text', 'COMMENT'),
                    hdr('G12 marker', 'MARKER NAME'),
                    hdr('E NAME', 'MARKER NUMBER')]))
            c.seen('event', flag)
            continue
        rows = [(ch, n) for ch in chs for n in sats(r, ch, r.randint(0, 6))]
        r.shuffle(rows)
        clk = r.choice(['', '', '       0.123456789012'])
        out.append('> %4d %02d %02d %02d %02d%11.7f  %1d%3d%s\n' % (
            *ep, flag, len(rows), clk))
        E = []
        for ch, n in rows:
            line, rec_ = '%s%02d' % (ch, n), {}
            for x in codes[ch]:
                if r.random() < 0.2:
                    line += ' '*16
                    continue
                v = {'C': r.uniform(1.8e7, 4.5e7),
                     'L': r.uniform(-3e8, 3e8), 'D': r.uniform(-6e3, 6e3),
                     'S': r.uniform(10, 60)}[x[0]]
                lli = r.choice(' '*4+'0123457')
                ssi = r.choice(' 123456789')
                s = '%14.3f' % v
                line += s+lli+ssi
                rec_[x] = (float(s), int(lli) & 1 if lli != ' ' else 0)
            if r.random() < 0.7:
                line = line.rstrip()
            out.append(line+'\n')
            if ch in want:
                E.append((sat_of(ch, n), ch, rec_))
        exp.append((ep, E))
    gz = r.random() < 0.3
    path = os.path.join(c.tmp, 'x.rnx'+('.gz' if gz else ''))
    with (gzip.open if gz else open)(path, 'wt') as fh:
        fh.write(''.join(out))
    c.eq(dec.decode_obsh(path), 0, 'header')
    c.close(dec.pos, pos, 1e-9, 'position')
    c.close(dec.ecc, [ecc[1], ecc[2], ecc[0]], 1e-9, 'eccentricity')
    c.eq(dec.rcv.strip(), rec.upper(), 'receiver')
    c.eq(dec.ant.strip(), ant.upper(), 'antenna')
    c.ok(abs(timediff(dec.ts, tstart)) < 1e-6, 'first obs', '')
    c.eq({sat_of('R', k): v for k, v in ch_frq.items()}, dict(dec.glo_ch),
         'glonass channels')
    for ep, E in exp:
        o = dec.decode_obs()
        if not c.ok(abs(timediff(o.t, epoch2time(ep))) < 1e-6, 'epoch',
                    f"{ep}"):
            return
        c.eq([int(x) for x in o.sat], [e[0] for e in E], 'satellites')
        n = len(E)
        for t, a in (('C', o.P), ('L', o.L), ('D', o.D), ('S', o.S),
                     ('I', o.lli)):
            q = 'L' if t == 'I' else t
            X = np.zeros((n, nmax[q]))
            for i, (_, ch, rec_) in enumerate(E):
                for j, x in enumerate(order[ch][q]):
                    if x in rec_ and x in codes[ch]:
                        X[i, j] = rec_[x][1 if t == 'I' else 0]
                        c.seen('obs', ch, x)
            c.close(a, X, 0, f'values {t}', f"{ep}")
        q = copy.deepcopy(o)
        q.sort()
        k = sorted(range(n), key=lambda i: o.sat[i])
        for x in ('sat', 'P', 'L', 'D', 'S', 'lli'):
            c.close(getattr(q, x), getattr(o, x)[k], 0, 'sorted', x)
    o = dec.decode_obs()
    c.ok(o.t.time == 0 and len(o.sat) == 0, 'end of file', '')
    c.sample(f"v{ver} {len(exp)} epochs, {len(sel)} signals")
    dec.fobs.close()


@chk.case(400, 8000, minseen=20)
def roundtrip(c):
    """ encoder output is read back by the decoder """
    r = c.rng
    chs = r.sample('GREJCIS', r.randint(1, 7))
    typs = r.choice(['CL', 'CLS', 'CLD', 'CLDS', 'CLDS'])
    tab, sigs = {}, []
    for ch in chs:
        bands = r.sample(COD[ch], r.randint(1, min(len(COD[ch]), 9)))
        d = {T[t]: [rSigRnx(SYS[ch][0], t+b) for b in bands] for t in typs}
        tab[SYS[ch][0]] = d
        sigs += [s for t in d for s in d[t]]
        c.seen(ch, typs, len(bands))
    nmax = max(len(tab[s][uTYP.C]) for s in tab)
    path = os.path.join(c.tmp, 'y.rnx')
    enc = rnxenc(tab)
    enc.pos = np.round(c.np.uniform(-6e6, 6e6, 3), 4)
    enc.dant = np.round(c.np.uniform(-9, 9, 3), 4)
    t0 = epoch2time(epoch(r))
    eps = []
    with open(path, 'w') as fh:
        enc.rnx_obs_header(t0, fh)
        enc.rnx_obs_header(t0, fh)
        for k in range(r.randint(1, 4)):
            o = Obs()
            o.time = o.t = timeadd(t0, 30.0*k)
            rows = [(ch, n) for ch in chs
                    for n in sats(r, ch, r.randint(0, 5))]
            r.shuffle(rows)
            n = len(rows)
            o.sat = np.array([sat_of(*x) for x in rows], dtype=int)
            o.P, o.L, o.D, o.S = (np.zeros((n, nmax)) for _ in range(4))
            o.lli = np.zeros((n, nmax), dtype=int)
            for i, (ch, _) in enumerate(rows):
                m = len(tab[SYS[ch][0]][uTYP.C])
                for j in range(m):
                    if r.random() < 0.85:
                        o.P[i, j] = r.uniform(1.8e7, 4.5e7)
                    if r.random() < 0.85:
                        o.L[i, j] = r.uniform(-3e8, 3e8)
                        o.lli[i, j] = r.choice([0, 0, 0, 1])
                    if r.random() < 0.85:
                        o.D[i, j] = r.uniform(-6e3, 6e3)
                        o.S[i, j] = r.uniform(10, 60)
            s0 = snapshot(o)
            enc.rnx_obs_body(o, fh)
            c.ok(snapshot(o) == s0, 'observations modified', '')
            eps.append(o)
    dec = rnxdec()
    dec.setSignals(sigs)
    dec.decode_obsh(path)
    c.close(dec.pos, enc.pos, 1e-9, 'position')
    c.close(dec.ecc, [enc.dant[1], enc.dant[2], enc.dant[0]], 1e-9,
            'eccentricity')
    for s in tab:
        c.eq(sorted(x.str() for x in dec.sig_map.get(s, {}).values()),
             sorted(x.str() for t in tab[s] for x in tab[s][t]), 'signals')
    for o in eps:
        d = dec.decode_obs()
        c.ok(abs(timediff(d.t, o.t)) < 1e-6, 'epoch', '')
        c.eq([int(x) for x in d.sat], [int(x) for x in o.sat], 'satellites')
        if len(d.sat) != len(o.sat):
            return
        c.close(d.P, o.P, 5.1e-4, 'code')
        c.close(d.L, o.L, 5.1e-4, 'phase')
        c.close(d.lli, o.lli, 0, 'lock')
        if 'D' in typs:
            c.close(d.D, o.D, 5.1e-4, 'doppler')
        if 'S' in typs:
            c.close(d.S, o.S, 5.1e-4, 'cn0')
    c.eq(dec.decode_obs().t.time, 0, 'end of file')
    dec.fobs.close()


# interchangeable trackings of a signal
FAM = {'G': ['1C 1W', '2C 2W', '1S 1L 1X', '2S 2L 2X', '5I 5Q 5X'],
       'E': ['1B 1C 1X', '5I 5Q 5X', '6B 6C 6X', '7I 7Q 7X', '8I 8Q 8X'],
       'J': ['1S 1L 1X', '2S 2L 2X', '5I 5Q 5X', '6S 6L 6X'],
       'C': ['1P 1X', '5P 5X', '7P 7X']}
FAM = {k: [x.split() for x in v] for k, v in FAM.items()}


@chk.case(400, 4000, minseen=20)
def selection(c):
    """ substitution of unavailable signals """
    r = c.rng
    dec = rnxdec()
    avail, want = {}, []
    for ch in r.sample('GREJCIS', r.randint(1, 5)):
        bs = r.sample(COD[ch], r.randint(1, len(COD[ch])))
        avail[ch] = bs
        dec.sig_map[SYS[ch][0]] = {i: rSigRnx(SYS[ch][0], 'C'+b)
                                   for i, b in enumerate(bs)}
    for ch in r.sample('GREJCIS', r.randint(1, 5)):
        for b in sorted({x[0] for x in COD[ch]}):
            if r.random() < 0.6:
                want.append((ch, r.choice([x for x in COD[ch]
                                           if x[0] == b])))
    if not want:
        return
    sl = [rSigRnx(SYS[ch][0], 'C'+b) for ch, b in want]
    if r.random() < .5:
        # other observation types follow
        for y in dec.sig_map.values():
            n = len(y)
            y.update({n+i: z.toTyp(uTYP.L) for i, z in list(y.items())})
        sl += [z.toTyp(uTYP.L) for z in sl]
    dec.setSignals(sl)
    dec.autoSubstituteSignals()
    for ch in sorted({x[0] for x in want}):
        got = [s.str()[1:] for s in dec.getSignals(SYS[ch][0], uTYP.C)]
        req = [b for h, b in want if h == ch]
        if len(sl) > len(want):
            c.eq([s.str() for s in dec.getSignals(SYS[ch][0], uTYP.L)],
                 ['L'+x for x in got], 'substitutes of the phase')
        c.eq(len(got), len(req), 'number of signals')
        for g, q in zip(got, req):
            if ch not in avail or q in avail[ch]:
                c.eq(g, q, 'available signal replaced')
                c.seen('keep', ch, q)
            else:
                c.ok(g == q or (g in avail[ch] and g[0] == q[0]),
                     'substitute', f"{ch} {q} -> {g} of {avail[ch]}")
                c.seen('sub', ch, g != q)
                # an equivalent tracking of the same signal stands in
                c.ok(g != q or not any(q in f and x in f for f in FAM.get(
                    ch, []) for x in avail[ch]),
                     'equivalent signal not used',
                     lambda: f"{ch} {q} of {avail[ch]}")
    try:
        dec.setSignals([sl[0], sl[0]])
        c.ok(False, 'duplicate accepted', '')
    except ValueError:
        c.ok(True, '')
