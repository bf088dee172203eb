""" C42: integrity messages and text reports of RTCM streams """
import os
import re
import numpy as np
import c23
from common import Check
from bits import BW, rs, ru, rtcm3
from cssrlib.gnss import uGNSS, id2sat, sat2id, time2gpst, gpst2time
from cssrlib.rtcm import rtcm, rtcme

chk = Check('C42', ['src/cssrlib/rtcm.py'],
            rule='random integrity messages of every type and size built bit '
            'by bit; decoded parameters and the lines of the text report '
            'compared with the transmitted values; distinct by message, '
            'systems, options and sizes')

# constellations in order of the mask (DFi013)
SYS = ('G', 'R', 'E', 'C', 'J', 'I')
GN = dict(G=uGNSS.GPS, R=uGNSS.GLO, E=uGNSS.GAL, C=uGNSS.BDS, J=uGNSS.QZS,
          I=uGNSS.IRN)
NS = dict(G=32, R=24, E=36, C=63, J=10, I=14)
FRQ = dict(G=('L1', 'L2', 'L5'), R=('L1', 'L2', 'L3'),
           E=('E1', 'E5a', 'E5b', 'E5 AltBOC', 'E6'),
           C=('B1I', 'B2I', 'B3I', 'B1C', 'B2a', 'B2b'),
           J=('L1', 'L2', 'L5', 'L6'), I=('L1', 'L5', 'S'))
VP = (1, 2, 5, 10, 15, 30, 60, 120, 240, 300, 600, 900, 1800, 3600, 7200,
      10800)
# meaning of the indicators
MFDS = (5, 10, 30, 60, 120, 600, 900, 1800, 3600, 7200, 10800, 21600, 43200,
        86400, 604800, -1)
MFDC = (0, 5, 10, 30, 60, 90, 300, 600, 1800, 3600, 7200, 14400, 28800, 57600,
        115200, -1)
TAUC = (0, 5, 10, 20, 30, 45, 60, 120, 180, 300, 600, 1200, 3600, 7200, 14400,
        -1)
TAUP = (0, 2, 5, 10, 20, 30, 45, 60, 120, 180, 240, 300, 600, 1800, 7200, -1)
SOBC = tuple(round(.02*k, 2) for k in range(1, 11)) + (
    .25, .3, .35, .4, .45, .5, .6, .7, .8, .9, 1., 1.25, 1.5, 1.75, 2., 2.5,
    3., 4., 5., 7., -1, -1)
SOBP = tuple(round(.001*k, 3) for k in range(1, 21)) + (
    .022, .024, .026, .028, .03, .032, .034, .036, .04, .045, .05, -1)
BOBC = (0., .01, .02, .03, .04, .05, .075, .1, .2, .4, .6, .8, 1., 3., 7., -1)
BOBP = (.001, .002, .003, .004, .005, .006, .008, .01, .012, .014, .016, .018,
        .02, .025, .03, -1)
PT = tuple(10**-x for x in (11, 10, 9, 8, 7, 6.2, 6, 5.2, 5, 4.2, 4, 3.3, 3,
                            2.3, 2)) + (-1,)
SCD = (1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 3e-3, 6e-3, 1e-2, 3e-2, 6e-2, .1,
       .5, 5., 0, -1)
SPD = (1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 4e-4, 1e-3, 4e-3, .01, .04,
       .1, .5, 5., -1)
SBPD = (1e-3, 2e-3, 5e-3, 7.5e-3, .01, .014, .018, .025, .05, .1, .15, .2, .5,
        1., 20., -1)
BPD = (1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, .01, .1, 1.,
       10., 0, 0, -1)
B8 = (5e-4, 1e-3, 2e-3, 4e-3, .01, .02, .05, -1)
SION = (5e-3, 1e-2, 2e-2, 5e-2, .1, .25, 1., -1)
STRP = (.01, .02, .03, .05, .075, .1, .125, -1)
INTC = (0., .01, .02, .05, .1, .25, .5, -1)
INTF = (0., .04, .07, .1, .2, .3, .5, -1)
DFT = (.125, .25, .375, .5, .625, .75, 1, -1)
EXS = (1., 1.1, 1.3, 1.6, 2., 3., 5., -1)
FIR = (1., 10, 100., 1000.)
TTD = (1., 1.25, 2., 4.)
MUK = (0., .04, .07, .1, .2, .3, .5, 1, 2, 5, 10, 20, 50, 80, 100, -1)
SGK = (0., .04, .07, .1, .2, .25, .3, .4, .5, .7, 1, 2, 5, 7, 10, -1)
SOL = ('ARAIM', 'SBAS', 'GBAS', 'DGNSS', 'RTK', 'NRTK/VRS', 'PPP', 'PPP-AR',
       'PPP-RTK')
MOD = ('BPSK(1)', 'BPSK(5)', 'BPSK(10)', 'BOC(1,1)', 'CBOC(6,1,1/11)',
       'AltBOC(15,10)')
SRC = ('satellite orbit', 'satellite clock', 'atmospheric', 'other')


def sid(s, n):
    return f"{s}{n:02d}"


def mask(idx, n):
    """ mask of n bits, first index is 0 """
    return sum(1 << (n-1-k) for k in idx)


class Rep():
    """ lines expected in the report: label and list of values """

    def __init__(self):
        self.q = []

    def add(self, label, *val):
        self.q.append((label, list(val)))


class Dec():
    """ a decoder with its report """

    def __init__(self, c):
        self.c = c
        self.path = os.path.join(c.tmp, 'rep.txt')
        self.d = rtcm(self.path)
        self.d.monlevel = 1
        self.d.week = c.rng.randint(1931, 2600)
        self.pos = 0

    def __call__(self, f):
        self.c.ok(self.d.sync(f, 0) and self.d.checksum(f, 0, len(f)),
                  'frame')
        self.d.decode(f)
        self.d.fh.flush()
        with open(self.path) as g:
            g.seek(self.pos)
            t = g.read()
            self.pos = g.tell()
        return t.splitlines()


def same(tok, v):
    """ is the token the value? """
    if v is None:
        return True
    if isinstance(v, str):
        return tok == v
    try:
        x = float(tok)
    except ValueError:
        return tok in ('True', 'False') and bool(v) == (tok == 'True')
    if isinstance(v, tuple):        # value with printed resolution
        return abs(x-v[0]) <= v[1]
    return abs(x-v) <= 1e-12+1e-6*abs(v)


def report(c, L, rep, tag):
    """ the lines of the report in their order; a label of one system or
    an empty one belongs to the line that follows """
    k = 0
    L = [x.strip() for x in L]
    for label, val in rep.q:
        n = k
        if len(label) == 2:     # other systems may be left from before
            while n > 0 and L[n-1][1:2] == ':':
                n -= 1
            while n < len(L) and L[n][1:2] == ':' and \
                    not L[n].startswith(label):
                n += 1
        if len(label) > 2:
            while n < len(L) and not L[n].startswith(label):
                n += 1
        if not c.ok(n < len(L) and L[n].startswith(label), tag+':line',
                    f"{label!r} {L[k:k+4]}"):
            return
        k = n+1
        if val is None:
            continue
        t = L[n][len(label):]
        for x in ':()[]':
            t = t.replace(x, ' ')
        t = t.split()
        if val and isinstance(val[0], list):        # texts may hold blanks
            c.eq(' '.join(t), ' '.join(val[0]), tag+':text', label)
        else:
            c.ok(len(t) == len(val) and all(map(same, t, val)),
                 tag+':report', f"{label!r} {t} != {val}")


def head(c, w, d, mt, rep, aid=True):
    r = c.rng
    tow = r.choice([0, 604799999, r.randrange(604800000)])
    if d.last is not None and r.random() < .5:
        tow = min(d.last+r.randrange(2000), 604799999)
    d.last = tow
    pid, vp, udi = ru(r, 12), ru(r, 4), ru(r, 16)
    w.u(12, mt).u(30, tow).u(12, pid).u(4, vp).u(16, udi)
    h = dict(tow=tow*1e-3, pid=pid, vp=VP[vp], udi=udi*.1)
    if aid:
        h['aid'] = ru(r, 10)
        w.u(10, h['aid'])
    rep.add('ASP Id', pid)
    rep.add('Validity Period [s]', VP[vp])
    rep.add('Update Interval [s]', (udi*.1, .051))
    return h


def systems(c):
    return [s for s in SYS if c.rng.random() < .45] or [c.rng.choice(SYS)]


def sats(c, s, n=8):
    """ satellites of a mask """
    r = c.rng
    q = sorted(r.sample(range(1, NS[s]+1), r.randint(0, min(n, NS[s]))))
    k = r.random()
    if k < .15:
        q = sorted(set(q) | {1, NS[s]})
    return q


def smask(w, q, iod=None):
    w.u(64, mask([x-1 for x in q], 64))
    if iod is not None:
        w.u(2, iod)


def m2000(c, w, d, rep):
    r, S = c.rng, systems(c)
    h = head(c, w, d, 2000, rep, False)
    d.aid0 = True
    w.u(16, mask([SYS.index(s) for s in S], 16)).u(16, ru(r, 16))
    w.u(16, ru(r, 16))
    g = d.integ
    E = {k: {} for k in ('iod_sys', 'sts', 'mst', 'src', 'freq', 'iod_freq',
                         'ists', 'msts')}
    for s in S:
        y, q, iod = GN[s], sats(c, s, 6), ru(r, 2)
        smask(w, q, iod)
        sts, m, src = ru(r, 64), sats(c, s), r.randrange(4)
        w.u(64, sts)
        smask(w, m)
        w.u(3, src)
        E['iod_sys'][y], E['sts'][y], E['src'][y] = iod, sts, src
        E['mst'][y] = [x+192 if s == 'J' else x for x in m]
        for k in ('freq', 'iod_freq', 'ists', 'msts'):
            E[k][y] = {}
        for x in q:
            t = id2sat(sid(s, x))
            f = [k for k in range(len(FRQ[s])) if r.random() < .5]
            a, b, e = ru(r, 2), ru(r, 8), ru(r, 8)
            w.u(8, mask(f, 8)).u(2, a).u(8, b).u(8, e)
            E['freq'][y][t], E['iod_freq'][y][t] = f, a
            E['ists'][y][t], E['msts'][y][t] = b, e
    rep.add('Issue of Sat Mask', *[z for s in S for z in
                                   (s, E['iod_sys'][GN[s]])])
    rep.add('Integrity Status')
    for s in S:
        rep.add(s+':', [format(E['sts'][GN[s]], '064b')])
    rep.add('Monitoring Status')
    for s in S:
        rep.add(s+':', *[sid(s, x-192 if s == 'J' else x)
                         for x in E['mst'][GN[s]]])
    rep.add('Integrity Fault Source')
    for s in S:
        rep.add(s+':', SRC[E['src'][GN[s]]].split())
    rep.add('Frequency mask')
    for s in S:
        rep.add(s+':', [z for t, f in E['freq'][GN[s]].items() for z in
                        [sat2id(t)]+[FRQ[s][k] for k in f]])
    rep.add('IOD freq mask')
    for s in S:
        rep.add(s+':', *[z for t, f in E['iod_freq'][GN[s]].items()
                         for z in (sat2id(t), f)])
    for n, k in (('Integrity Status', 'ists'), ('Monitoring Status', 'msts')):
        rep.add(n)
        for s in S:
            rep.add(s+':', [z for t, f in E[k][GN[s]].items()
                            for z in (sat2id(t), format(f, '08b'))])
    h.update(E)
    c.seen(2000, len(S), S[0], len(E['freq'][GN[S[0]]]))
    return h


def persys(rep, label, tab, S, v):
    rep.add(label, *[z for s in S for z in (s, tab[v[GN[s]]])])


def persat(rep, label, tab, S, v):
    rep.add(label)
    for s in S:
        rep.add(s+':', *[z for t, k in v[GN[s]].items()
                         for z in (sat2id(t), tab[k])])


def m2005(c, w, d, rep):
    r, S = c.rng, systems(c)
    h = head(c, w, d, 2005, rep)
    ilvl, ttt = ru(r, 8), ru(r, 7)
    st = sorted(r.sample(range(9), r.randint(0, 4)))
    w.u(8, ilvl).u(7, ttt).u(15, mask(st, 15)).u(52, ru(r, 52))
    w.u(16, mask([SYS.index(s) for s in S], 16))
    pb = r.random() < .5
    w.u(1, pb)
    if pb:
        h['Paug'] = ru(r, 4)
        w.u(4, h['Paug'])
    fc, iod = ru(r, 1), ru(r, 6)
    w.u(1, fc).u(6, iod)
    h.update(ilvl=ilvl, ttt=(ttt+1)*.1, stype=mask(st, 15), fc=bool(fc),
             iod_p=iod)
    K = ('mfd_s', 'mfd_c', 'tau_c', 'sig_c', 'tau_p', 'sig_p', 'Pa_cc',
         'Pa_cp')
    KS = ('Pa_sc', 'sig_ob_c', 'Pa_sp', 'b_ob_c', 'sig_ob_p', 'b_ob_p')
    E = {k: {} for k in K+KS}
    for s in S:
        y = GN[s]
        for k, n in zip(K, (4, 4, 4, 5, 4, 5, 4, 4)):
            E[k][y] = ru(r, n)
            w.u(n, E[k][y])
        q = sats(c, s)
        smask(w, q)
        for k in KS:
            E[k][y] = {}
        for x in q:
            for k, n in zip(KS, (4, 5, 4, 4, 5, 4)):
                v = E[k][y][id2sat(sid(s, x))] = ru(r, n)
                w.u(n, v)
    rep.add('Service Area ID', h['aid'])
    rep.add('Integrity Level', ilvl)
    rep.add('TTT', h['ttt'])
    rep.add('Solution Type', [''.join(SOL[k] for k in st)])
    if pb:
        rep.add('Paug', h['Paug'])
    rep.add('IOD param', iod)
    rep.add('Integrity/Continuity Flag', fc)
    for k, t, n in (('mfd_s', MFDS, 'Mean Failure Duration (MFD) of a Single'
                     ' Satellite Fault'),
                    ('mfd_c', MFDC, 'Mean Failure Duration (MFD) of a '
                     'Constellation Fault'),
                    ('tau_c', TAUC, 'Correlation Time of Pseudorange '
                     'Augmentation Message Error'),
                    ('sig_c', SOBC, 'Pseudorange stdev'),
                    ('tau_p', TAUP, 'Correlation Time of Carrier Phase '
                     'Augmentation Message Error'),
                    ('sig_p', SOBP, 'Carrier Phase stdev'),
                    ('Pa_cc', PT, 'Multiple PR Augmentation Message Fault '
                     'Probability'),
                    ('Pa_cp', PT, 'Multiple CP Augmentation Message Fault '
                     'Probability')):
        persys(rep, n, t, S, E[k])
    F = ' under Fault-Free Scenario'
    for k, t, n in (('Pa_sc', PT, 'Single PR Augmentation Message Fault '
                     'Probability'),
                    ('sig_ob_c', SOBC, 'Overbounding stdev of PR Augmentation'
                     ' Message Error'+F),
                    ('Pa_sp', PT, 'Single CP Augmentation Message Fault '
                     'Probability'),
                    ('b_ob_c', BOBC, 'Overbounding Bias of the Long-Term PR '
                     'Augmentation Message Bias Error'+F),
                    ('sig_ob_p', SOBP, 'Overbounding stdev of CP Augmentation'
                     ' Message Error'+F),
                    ('b_ob_p', BOBP, 'Overbounding Bias of the Long-Term CP '
                     'Augmentation Message Bias Error'+F)):
        persat(rep, n, t, S, E[k])
    h.update(E)
    c.seen(2005, len(S), S[0], pb, len(E['Pa_sc'][GN[S[0]]]))
    return h


def m2006(c, w, d, rep):
    r, S = c.rng, systems(c)
    h = head(c, w, d, 2006, rep)
    iod, fc, b = ru(r, 6), ru(r, 1), [ru(r, 3), ru(r, 3)]
    w.u(6, iod).u(16, mask([SYS.index(s) for s in S], 16)).u(1, fc)
    w.u(3, b[0]).u(3, b[1])
    h.update(iod_ip=iod, fc=fc, bias=b)
    K = ('sig_pd', 'sig_cd', 'cbr', 'sig_dp', 'idx_dp', 'ocr', 'sig_ion',
         'idx_ion', 'sig_trp', 'idx_trp')
    # rate of change of the code (DFi120) goes first
    O = ('sig_cd', 'sig_pd')+K[2:]
    E = {k: {} for k in K+('iod_m',)}
    for s in S:
        y, q, iod = GN[s], sats(c, s), ru(r, 2)
        smask(w, q, iod)
        E['iod_m'][y] = iod
        for k in K:
            E[k][y] = {}
        for x in q:
            for k, n in zip(O, (4, 4, 3, 4, 4, 3, 3, 3, 3, 3)):
                v = E[k][y][id2sat(sid(s, x))] = ru(r, n)
                w.u(n, v)
    rep.add('Service Area ID', h['aid'])
    rep.add('IOD param', h['iod_ip'])
    rep.add('Time Correlation Integrity/Continuity Flag', fc)
    rep.add('Bounding inter-constellation bia', INTC[b[0]])
    rep.add('Bounding inter-frequency bias', INTF[b[1]])
    rep.add('Issue of GNSS Satellite Mask')
    rep.q.append(('', [z for s in S for z in (s, E['iod_m'][GN[s]])]
                  if d.fresh else None))
    for k, t, n in (('sig_cd', SCD, 'Bound on rate of change of PR'),
                    ('sig_pd', SPD, 'Bound on rate of change in phase'),
                    ('cbr', B8, 'Nominal pseudorange bias rate'),
                    ('sig_dp', SBPD, 'Bounding sigma on phase-range-rate'),
                    ('idx_dp', BPD, 'Phase-range-rate error rate integrity'),
                    ('ocr', B8, 'Orbit/clock error rate integrity'),
                    ('sig_ion', SION, 'Residual ionospheric error stdev'),
                    ('idx_ion', B8, 'Index of bounding parameter on change in '
                     'iono'),
                    ('sig_trp', STRP, 'Residual tropospheric error stdev'),
                    ('idx_trp', B8, 'Index of bounding parameter on change in '
                     'tropo')):
        rep.q.append((n, None))
        for s in S:
            rep.add(s+':', *[z for x, v in E[k][GN[s]].items()
                             for z in (sat2id(x), t[v])])
    h.update(E)
    c.seen(2006, len(S), S[0], len(E['cbr'][GN[S[0]]]))
    return h


def point(c, w, alt=False):
    """ area point: latitude and longitude in 1.1e-8 degrees """
    r = c.rng
    v = [r.randint(-8181818181, 8181818181),
         r.randint(-16363636363, 16363636363)]
    if r.random() < .1:
        v = [r.choice([-8181818181, 8181818181, 0]),
             r.choice([-16363636363, 16363636363, -1])]
    w.s(34, v[0]).s(35, v[1])
    p = [v[0]*1.1e-8, v[1]*1.1e-8]
    if alt:
        h = r.randint(-500, 8191)
        w.s(14, h)
        p.append(h)
    return p


def area(c, w, d, rep, ext):
    r = c.rng
    h = head(c, w, d, 2008 if ext else 2007, rep)
    at, iod, cf, seq, ft = ru(r, 1), ru(r, 6), ru(r, 1), ru(r, 5), ru(r, 3)
    w.u(2, at).u(6, iod).u(1, cf)
    h.update(atype=at, iod_sa=iod, cf=cf, seq=seq, f_t=ft)
    if ext:
        ir, tt, ex = ru(r, 2), ru(r, 2), ru(r, 3)
        w.u(5, seq).u(2, ir).u(2, tt).u(3, ft).u(3, ex)
        h.update(f_ir=ir, f_ttd=tt, f_exs=ex)
    else:
        w.u(3, ft).u(5, seq)
    rep.add('Service Area ID', h['aid'])
    rep.add('IOD area', iod)
    rep.add('Service Area Type', ['Area Points' if at else 'Validity Radius'])
    rep.add('Continuation Flag', cf)
    rep.add('Seq', seq)
    if ext:
        rep.add('Augmentation IR Degradation Factor', FIR[ir])
        rep.add('Augmentation TTD Degradation Factor', TTD[tt])
    rep.add('Time Parameter Degradation Factor', DFT[ft])
    if ext:
        rep.add('Extended Area Spatial Parameter Degradation Factor', EXS[ex])
    if at == 1:
        n = r.choice([0, 1, 2, 5, 80, 105])
        w.u(8, n)
        h['npnt'] = n
        p = [point(c, w) for _ in range(n)]
        h['pos_v'] = np.array([x+[0] for x in p]).reshape(n, 3)
        rep.add('Number of Area Points', n)
        rep.q.append(('Area Point', None))
        for x in p:
            rep.q.append(('', [(x[0], 6e-10), (x[1], 6e-10)]))
    else:
        p = point(c, w)
        rad = ru(r, 20)
        w.u(20, rad)
        h['pos_v'] = p+[rad]
        rep.q.append(('Area Point (lat, lon, radius)',
                      [(p[0], 6e-10), (p[1], 6e-10), rad]))
    c.seen(2007+ext, at, cf)
    return h


def m2007(c, w, d, rep):
    return area(c, w, d, rep, False)


def m2008(c, w, d, rep):
    return area(c, w, d, rep, True)


def m2051(c, w, d, rep):
    r = c.rng
    h = head(c, w, d, 2051, rep)
    nid = ru(r, 8)
    q = [ru(r, 8) for _ in range(r.randint(0, 8))]
    w.u(8, nid).u(8, mask(r.sample(range(8), len(q)), 8))
    for v in q:
        w.u(8, v)
    h.update(nid=nid, qi=np.array(q)*.1)
    rep.add('Service Area ID', h['aid'])
    rep.add('Network ID', nid)
    rep.add('Quality Indicator [m]', *[(v*.1, 1e-6) for v in q])
    c.seen(2051, len(q))
    return h


def cnl(k):
    """ carrier to noise density ratio of an indicator [dBHz] """
    if k == 0:
        return -1
    return k-1 if k < 20 else 19+(k-20)*.2 if k < 245 else 64+k-245


def m2091(c, w, d, rep):
    r, S = c.rng, systems(c)
    h = head(c, w, d, 2091, rep)
    w.u(16, mask([SYS.index(s) for s in S], 16))
    E = dict(cnr={}, agc_t={}, agc={})
    for s in S:
        y, q = GN[s], sats(c, s, 5)
        smask(w, q, ru(r, 2))
        for k in E:
            E[k][y] = {}
        for x in q:
            t = id2sat(sid(s, x))
            f = sorted(r.sample(range(8), r.randint(0, 4)))
            w.u(8, mask(f, 8)).u(2, ru(r, 2))
            for k in E:
                E[k][y][t] = {}
            for j in f:
                v = (r.choice([1, 19, 20, 244, 245, 255, ru(r, 8)]), ru(r, 1),
                     ru(r, 8))
                w.u(8, v[0]).u(1, v[1]).u(8, v[2])
                for k, z in zip(('cnr', 'agc_t', 'agc'), v):
                    E[k][y][t][j] = z
    rep.add('Service Area ID', h['aid'])
    for n, k, f in (('CNR [dB-Hz]', 'cnr', cnl),
                    ('AGC type', 'agc_t', int),
                    ('AGC [dB]', 'agc', lambda v: v-128 if v else 'N/A')):
        rep.q.append((n, None))
        for s in S:
            rep.add(s+':', *[z for t, v in E[k][GN[s]].items() for z in
                             [sat2id(t)]+[f(x) for x in v.values()]])
    h.update(E)
    c.seen(2091, len(S), S[0], sum(len(x) for v in E['cnr'].values()
                                   for x in v.values()))
    return h


def m2071(c, w, d, rep):
    r = c.rng
    mt = r.choice([2071, 54])
    if mt == 54:
        w.u(12, 54).u(4, ru(r, 4)).u(8, 9).u(4, ru(r, 4))
        x = BW()
        h = head(c, x, d, 0, rep)
        w.cat(BW().u(x.n-12, x.get(12, x.n-12)))
    else:
        h = head(c, w, d, 2071, rep)
    n, cf, seq = r.choice([0, 1, 2, 4]), ru(r, 1), ru(r, 5)
    w.u(8, n).u(1, cf).u(5, seq)
    h.update(narea=n, cf=cf, seq=seq)
    rep.add('Service Area ID', h['aid'])
    rep.add('Number of Area Points', n)
    rep.add('Continuation Flag', cf)
    rep.add('Seq', seq)
    rep.q.append(('Boundary Points', None))
    P, Z, A = [], [], {}
    for k in range(n):
        p = point(c, w, True)
        m = r.choice([0, 1, 4, 12, 63])
        w.u(6, m)
        P.append(p)
        Z.append(m)
        rep.q.append(('', [k+1, (p[0], 6e-10), (p[1], 6e-10), p[2], m]))
        rep.q.append(('Visibility mask', None))
        az, t = 0, []
        for j in range(m):
            da = r.randint(1, max(1, 359//m))
            el = r.randint(0, 90)
            w.u(9, da).u(7, el)
            az += da
            t.append([az, el])
            rep.q.append(('', [az, el]))
        A[k] = np.array(t, dtype=float).reshape(m, 2)
    h.update(pos=np.array(P, dtype=float).reshape(n, 3), naz=np.array(Z),
             azel=A)
    c.seen(mt, n, tuple(Z))
    return h


def m2072(c, w, d, rep):
    r = c.rng
    mt = r.choice([2072, 54])
    if mt == 54:
        w.u(12, 54).u(4, ru(r, 4)).u(8, 10).u(4, ru(r, 4))
        x = BW()
        h = head(c, x, d, 0, rep)
        w.cat(BW().u(x.n-12, x.get(12, x.n-12)))
    else:
        h = head(c, w, d, 2072, rep)
    n, cf, seq, m = r.choice([0, 1, 2, 6]), ru(r, 1), ru(r, 5), r.randrange(3)
    w.u(8, n).u(3, m).u(1, cf).u(5, seq)
    h.update(narea=n, cf=cf, seq=seq, mm_id=m)
    rep.add('Service Area ID', h['aid'])
    rep.q.append(('TOW (s)', [(h['tow'], 6e-4)]))
    rep.add('Number of Area Points', n)
    rep.add('Multipath Model ID', ('GMM', 'Mats Brenner', 'Jahn')[m].split())
    rep.add('Continuation Flag', cf)
    rep.add('Seq', seq)
    rep.q.append(('Boundary Points', None))
    P, N, M, late = [], [], {}, []
    for k in range(n):
        if m > 0:
            f = sorted(r.sample(range(6), r.randint(0, 4)))
            w.u(8, mask(f, 8))
        p = point(c, w, True)
        t = []
        if m == 0:
            for j in range(w.u(2, ru(r, 2)).get(w.n-2, 2)):
                a, b, e = ru(r, 4), ru(r, 4), ru(r, 4)
                w.u(4, a).u(4, b).u(4, e)
                t.append([a/16, MUK[b], SGK[e]])
                late.append([k+1, j+1, (a/16, 6e-5), (MUK[b], .0051),
                             (SGK[e], .0051)])
        else:
            for j, x in enumerate(f):
                a, b, e = ru(r, 4), rs(r, 5), rs(r, 5)
                w.u(4, a).s(5, b).s(5, e)
                v = [SGK[a], b*.25, e/16]
                if m == 2:
                    g = ru(r, 8)
                    w.u(8, g)
                    v.append(g*.3515625)
                t.append([x]+v)
                late.append([k+1, j+1, MOD[x].replace('(', ' ').replace(
                    ')', ' ').strip()]+[(z, 6e-7) for z in v])
        P.append(p)
        N.append(len(t))
        M[k] = np.array(t, dtype=float).reshape(len(t), (3, 4, 5)[m])
        rep.q.append(('', [k+1, (p[0], 6e-10), (p[1], 6e-10), p[2], len(t)]))
    rep.q.append(('Multipath' if m else 'Components', None))
    for x in late:
        y = []
        for z in x:
            y += z.split() if isinstance(z, str) else [z]
        rep.q.append(('', y))
    h.update(pos=np.array(P, dtype=float).reshape(n, 3), np=np.array(N),
             mm_param=M)
    c.seen(mt, n, m, tuple(N))
    return h


def m2011(c, w, d, rep):
    r, S = c.rng, systems(c)
    h = head(c, w, d, 2011, rep)
    v = ru(r, 16), ru(r, 4), ru(r, 4)
    w.u(16, v[0]).u(4, v[1]).u(4, v[2])
    m = mask([SYS.index(s) for s in S], 16)
    w.u(16, m)
    F, I, X = {}, {}, []
    for s in S:
        y, q = GN[s], sats(c, s)
        I[y] = ru(r, 2)
        smask(w, q, I[y])
        F[y] = {}
        for x in q:
            t = id2sat(sid(s, x))
            F[y][t] = ru(r, 2)
            w.u(2, F[y][t])
            if F[y][t] == 1:
                X.append(t)
    h.update(pidssr=v[0], sidssr=v[1], iodssr=v[2], sat_e=X, iod_sys=I, flag=F)
    rep.add('Service Area ID', h['aid'])
    rep.add('SSR Provider ID', v[0])
    rep.add('SSR Solution ID', v[1])
    rep.add('IOD SSR', v[2])
    rep.add('Constellation Mask', f"{m:04x}")
    N = dict(G='GPS', R='GLONASS', E='GALILEO', C='BEIDOU', J='QZSS',
             I='NAVIC')
    rep.q.append(('IOD GNSS Mask', [z for s in S for z in (None, I[GN[s]])]))
    for s in S:
        rep.add('NIntegrity Flag', *[z for t, f in F[GN[s]].items()
                                     for z in (sat2id(t), f)])
    c.seen(2011, len(S), S[0], len(X) > 0)
    return h


# systems of earlier messages may be kept
KEEP = ('cnr', 'agc_t', 'agc', 'iod_m', 'sig_pd', 'sig_cd', 'cbr', 'sig_dp',
        'idx_dp', 'ocr', 'sig_ion', 'idx_ion', 'sig_trp', 'idx_trp')
# numbers of the same messages during their tests
TEST = {m2005: 4, m2006: 5, m2007: 6, m2051: 7, m2091: 8, m2011: 11}

MSG = (m2000, m2005, m2006, m2007, m2008, m2051, m2091, m2071, m2072, m2011)


def equal(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and \
            all(equal(a[k], b[k]) for k in b)
    if isinstance(b, str):
        return a == b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a-b) <=
                                              1e-9*np.maximum(1, np.abs(b))))


@chk.case(2500, 60000, cpu=90, minseen=120)
def messages(c):
    """ a stream of integrity messages """
    r = c.rng
    D = Dec(c)
    D.d.integ.aid = 0
    D.d.last = None
    D.d.aid0 = False
    old = set()
    for _ in range(r.randint(1, 5)):
        w, rep = BW(), Rep()
        f = r.choice(MSG)
        D.d.fresh = f not in old
        old.add(f)
        h = f(c, w, D.d, rep)
        t = f in TEST and r.random() < .25
        if t:
            w.put(0, 12, TEST[f])
        w.align()
        if w.n > 1023*8:
            continue
        try:
            L = D(rtcm3(w.bytes())+bytes(r.randrange(3)))
        except Exception as e:
            if os.environ.get('TB'):
                raise
            c.fail(f.__name__+':crash', f"{type(e).__name__} {e}")
            return
        for k, v in h.items():
            g = getattr(D.d.integ, k, None)
            if k in KEEP and isinstance(g, dict):
                g = {y: g[y] for y in v if y in g}
            c.ok(g is not None and equal(g, v), f"{f.__name__}:{k}",
                 f"{g!r} != {v!r}"[:300])
        week, tow = time2gpst(D.d.time)
        c.close(tow, h['tow'], 1e-4, f.__name__+':time')
        c.eq(week, D.d.week, f.__name__+':week')
        if not t:
            report(c, L, rep, f.__name__)


@chk.case(400, 20000, minseen=40)
def encoder(c):
    """ SSR integrity messages that are encoded """
    r = c.rng
    e = rtcme()
    g = e.integ
    S = systems(c)
    tow, pid, vp, udi, aid = r.randrange(604800000), ru(r, 12), ru(r, 4), \
        ru(r, 16), ru(r, 10)
    g.tow, g.pid, g.vp, g.udi, g.aid = tow*1e-3, pid, VP[vp], udi*.1, aid
    e.pid, e.sid, e.iodssr = ru(r, 16), ru(r, 4), ru(r, 4)
    e.msgtype = r.choice([11, 12, 13])
    w = BW().u(12, e.msgtype).u(30, tow).u(12, pid).u(4, vp).u(16, udi)
    w.u(10, aid).u(16, e.pid).u(4, e.sid).u(4, e.iodssr)
    w.u(16, mask([SYS.index(s) for s in S], 16))
    F, I = {}, {}
    for s in S:
        q = sats(c, s)
        I[GN[s]] = ru(r, 2)
        smask(w, q, I[GN[s]])
        F[GN[s]] = {}
        for x in q:
            v = ru(r, 2)
            w.u(2, v)
            F[GN[s]][id2sat(sid(s, x))] = v
    # stored in any order
    for y in r.sample(list(F), len(F)):
        g.iod_sys[y] = I[y]
        g.flag[y] = dict(r.sample(list(F[y].items()), len(F[y])))
    b = bytearray(1200)
    i = e.encode(b)
    c.eq(i, 24+w.n, 'length')
    w.align()
    c.eq(bytes(b[3:3+w.n//8]), w.bytes(), 'bits')
    n = w.n//8
    e.set_sync(b, 0)
    e.set_len(b, 0, n)
    e.set_checksum(b, 0)
    f = bytes(b[:n+6])
    c.eq(f, rtcm3(w.bytes()), 'frame')
    d = rtcm()
    d.monlevel = 0
    d.week = r.randint(1931, 2600)
    d.decode(f)
    c.ok(equal(d.integ.flag, F) and equal(d.integ.iod_sys, I), 'decoded')
    c.eq((d.integ.pidssr, d.integ.sidssr, d.integ.iodssr),
         (e.pid, e.sid, e.iodssr), 'source')
    c.seen(e.msgtype, len(S), S[0])


UDI = (1, 2, 5, 10, 15, 30, 60, 120, 240, 300, 600, 900, 1800, 3600, 7200,
       10800)


def rows(L, head):
    """ lines of satellites after the header line of a table """
    for k, x in enumerate(L):
        if x.split()[:len(head)] == head:
            q = {}
            for y in L[k+1:]:
                t = y.split()
                if not t or len(t[0]) != 3 or not t[0][1:].isdigit():
                    break
                q[t[0]] = t[1:]
            return q
    return None


@chk.case(300, 10000, minseen=30)
def corrections(c):
    """ reports of SSR messages """
    r = c.rng
    D = Dec(c)
    d = D.d
    week, tow = r.randint(1931, 2600), r.randrange(500000)
    d.week, d.time = week, gpst2time(week, tow)
    S = c23.Stream(c, week)
    dia = r.choice(['rtcm', 'igs', 'tst'])
    ss = r.sample(sorted(c23.TST if dia == 'tst' else c23.RT), 2)
    iod = ru(r, 4)
    for _ in range(6):
        sy = r.choice(ss)
        kind = r.choice(['orb', 'clk', 'hclk', 'oc', 'ura', 'cb', 'pb'])
        if dia == 'tst' and sy == 'C' and kind == 'orb':
            continue
        mt, f, sats = S.make(dia, sy, kind, tow, iod)
        tag = f"{dia}:{kind}"
        try:
            L = [x.strip() for x in D(f)]
        except Exception as e:
            if os.environ.get('TB'):
                raise
            c.fail(tag+':crash', f"{mt} {type(e).__name__} {e}")
            return
        tow += r.randint(1, 30)
        st = S.st
        src = f"IODSSR:{iod} ProvID:{S.pid} SolID:"
        c.ok(any(x.startswith(src) and int(x[len(src):]) == S.sid for x in L),
             tag+':source', lambda: f"{src} {L[:6]}")
        E = {}
        if kind in ('orb', 'oc'):
            E['IODE'] = [(s, [st['orb'][s][0]]+[(x, 6e-5) for x in
                          st['orb'][s][1]]+[(x*1e3, 6e-5) for x in
                                            st['orb'][s][2]]) for s in sats]
        if kind in ('clk', 'oc'):
            E['dclk'] = [(s, [(st['clk'][s][0], 6e-5)]+[
                (x*1e3, 6e-5) for x in st['clk'][s][1:]]) for s in sats]
        if kind == 'hclk':
            E['hclk'] = [(s, [(st['hclk'][s], 6e-5)]) for s in sats]
        if kind == 'ura':
            E['ura'] = [(s, [(st['ura'][s], 6e-5)]) for s in sats]
        if kind == 'cb':
            E['SigID'] = [(s, [z for g, v in st['cb'][s].items()
                               for z in (g, (v, .006))]) for s in sats]
        if kind == 'pb':
            yw = bool(d.iyaw)
            E['Yaw' if yw else 'SigID'] = [
                (s, [(x, 6e-5) for x in (st['yaw'][s] if yw else [])] +
                 [z for g, v in st['pb'][s].items()
                  for z in (g, (v[0], 6e-5), v[1], v[2])]) for s in sats]
        for k, q in E.items():
            t = rows(L, ['SatID', k])
            if not c.ok(t is not None, tag+':table', lambda: f"{k} {L}"):
                continue
            for s, v in q:
                if c.ok(s in t, tag+':row', f"{mt} {s} {sorted(t)}"):
                    g = t[s]
                    c.ok(len(g) == len(v) and all(map(nsame, g, v)),
                         tag+':values', f"{mt} {s} {g} != {v}")
            c.eq([s for s in t if s[0] != sy], [], tag+':foreign')
        x = [y for y in L if y.startswith('Update Interval:')]
        if c.eq(len(x), 1, tag+':interval', lambda: f"{mt} {L[:5]}"):
            x = x[0].split(':')
            c.eq(float(x[1].split('[')[0]), UDI[S.udi],
                 tag+':interval', mt)
            c.ok(x[2].strip() in (str(bool(S.mi)), str(S.mi)), tag+':multiple', mt)
        c.seen(dia, kind, sy)


def nsame(t, v):
    if isinstance(v, tuple) and v[0] != v[0]:
        return t == 'nan'
    return same(t, v)


@chk.case(400, 12000, minseen=8)
def regional(c):
    """ reports of regional SSR messages """
    r = c.rng
    D = Dec(c)
    d = D.d
    week, tow = r.randint(1931, 2600), r.randrange(500000)
    d.week, d.time = week, gpst2time(week, tow)
    S = c23.Stream(c, week)
    gids = r.sample(range(1, 32), 2)
    iod = ru(r, 4)
    for _ in range(7):
        kind = r.choice(['grid', 'trop', 'stec', 'pb'])
        gid = r.choice(gids)
        mi, udi = ru(r, 1), ru(r, 4)
        iod = r.choice([iod, ru(r, 4)])
        pid, sid_ = ru(r, 16), ru(r, 4)
        w = BW()
        tow += r.randint(1, 30)
        sy = r.choice('GECJ')

        def head(mt):
            w.u(12, mt).u(20, tow).u(4, udi).u(1, mi).u(4, iod).u(
                16, pid).u(4, sid_)
        if kind == 'pb':
            mt, f, sats = S.make('rtcm', sy, 'pb', tow, iod)
        elif kind == 'grid':
            mt, ty = 61, r.randrange(2)
            of, n = r.choice([0, 0, 3]), r.randint(0, 6)
            p0 = (rs(r, 17), rs(r, 18), ru(r, 9))
            w.u(12, mt).u(16, pid).u(1, mi).u(10, gid).u(3, ty)
            w.s(18, p0[0]).s(19, p0[1])
            if ty == 0:
                w.u(10, p0[2])
            w.u(12, of).u(8, n)
            dp = []
            for _ in range(n):
                x = (rs(r, 13), rs(r, 14), rs(r, 9))
                x = tuple(max(v, 1-(1 << b)) for v, b in zip(x, (12, 13, 8)))
                dp.append(x)
                w.s(13, x[0]).s(14, x[1])
                if ty == 0:
                    w.s(9, x[2])
        elif kind == 'trop':
            mt = 95
            head(mt)
            rmi = ru(r, 1)
            m = [rs(r, n) for n in (11, 9, 9, 13, 6, 5)]
            t = [rs(r, n) for n in (13, 15, 15)*2]
            w.u(10, gid).u(1, rmi)
            w.add('s11 s9 s9 s13 s6 s5', *m)
            w.add('s13 s15 s15 s13 s15 s15', *t)
            res = []
            if rmi:
                of, n = r.choice([0, 0, 4]), r.randint(0, 5)
                nh, nw = r.choice([(0, 14), (9, 9), (15, 0), (4, 12)])
                w.u(12, of).u(12, n).u(4, nh).u(4, nw)
                for _ in range(n):
                    x = tuple(rs(r, b) if b else None for b in (nh, nw))
                    res.append(x)
                    for v, b in zip(x, (nh, nw)):
                        if b:
                            w.s(b, v)
        else:
            mt = 96+'GRECJ'.index(sy)
            head(mt)
            pmi, rmi, pgi = r.choice([(1, 1, 1), (1, 1, 0), (1, 0, 1),
                                      (1, 0, 0), (0, 1, 0), (0, 0, 0)])
            own = sorted(r.sample(range(1, min(NS[sy], 10 if sy == 'J' else
                                               63)+1), r.randint(1, 5)))
            w.u(10, gid).u(1, pmi).u(1, rmi)
            w.u(64, sum(1 << (64-k) for k in own))
            if pmi:
                w.u(1, pgi)
                co = []
                for _ in own:
                    x = [rs(r, 17)]+([rs(r, 18), rs(r, 18)] if pgi else [])
                    co.append(x)
                    w.add('s17 s18 s18' if pgi else 's17', *x)
            if rmi:
                of, n, nl = r.choice([0, 0, 4]), r.randint(1, 5), r.choice(
                    [2, 9, 16])
                sf = ru(r, 3)
                w.u(12, of).u(12, n).u(5, nl).u(3, sf)
                res = [[rs(r, nl) for _ in range(n)] for _ in own]
                for x in res:
                    for v in x:
                        w.s(nl, v)
        if kind != 'pb':
            f = rtcm3(w.bytes())
        tag = kind
        try:
            L = [x.strip() for x in D(f)]
        except Exception as e:
            if os.environ.get('TB'):
                raise
            c.fail(tag+':crash', f"{mt} {type(e).__name__} {e}")
            return
        t_ = [x for x in L if x.split()[:1] == [str(mt)]]
        c.eq(len(t_), 1, tag+':number', lambda: f"{mt} {L}")

        def near(tok, v, q, what):
            try:
                ok = v is None and tok is None or v != v and tok == 'nan' \
                    or abs(float(tok)-v) <= q/2*1.001+1e-9*abs(v)
            except (TypeError, ValueError):
                ok = False
            c.ok(ok, tag+':'+what, lambda: f"{mt} {tok} {v} {L}")

        def val(v, n, sc, o=0.):
            return float('nan') if v == -(1 << (n-1)) else v*sc+o
        if kind == 'pb':
            t = rows(L, ['SatID', 'Yaw' if d.iyaw else 'SigID'])
            c.eq(sorted(t or {}), sorted(sats), tag+':rows', mt)
            P = {s: {str(g)[-3:] if not hasattr(g, 'str') else g.str(): v
                     for g, v in d.lc[0].pbias.get(id2sat(s), {}).items()}
                 for s in sats}
            for s in sats:
                E = S.st['pb'][s]
                if c.eq(sorted(P[s]), sorted(E), tag+':stored', s):
                    for g, v in E.items():
                        c.close(P[s][g], v[0], 1e-9, tag+':stored', s)
        elif kind == 'grid':
            x = [y for y in L if y.startswith('ProvID:')]
            if c.eq(len(x), 1, tag+':head', lambda: str(L)):
                c.eq(x[0], f"ProvID:{pid} GridID:{gid} GridType:{ty} "
                     f"Ofst:{of}", tag+':head')
            x = [y.split()[0:] for y in L if y.startswith('RefPos:')]
            h0 = p0[2]*12.5-1000. if ty == 0 else 0.
            if c.eq(len(x), 1, tag+':position', lambda: str(L)):
                x = ' '.join(x[0]).split(':')[1].split()
                for a, b, q in zip(x, (p0[0]*1e-3, p0[1]*1e-3, h0),
                                   (1e-3, 1e-3, 1e-3)):
                    near(a, b, q, 'position')
            x = [y.split()[1:] for y in L if y.startswith('dpos:')]
            if c.eq(len(x), n, tag+':points', lambda: str(L)):
                for y, e in zip(x, dp):
                    e = (e[0]*1e-3, e[1]*1e-3, e[2]*12.5 if ty == 0 else 0.)
                    if c.eq(len(y), 3, tag+':points'):
                        for a, b in zip(y, e):
                            near(a, b, 1e-3, 'points')
        else:
            h = f"IODSSR:{iod} ProvID:{pid} SolID:{sid_} GridID:{gid}"
            c.eq([y for y in L if y.startswith('IODSSR')], [h], tag+':head')
            x = [y for y in L if y.startswith('Update Interval:')]
            for y in x:
                y = y.split(':')
                c.eq(float(y[1].split('[')[0]), UDI[udi], tag+':interval')
                c.ok(y[2].strip() in (str(bool(mi)), str(mi)),
                     tag+':multiple', lambda: str(L))

        def line(a):
            x = [y for y in L if y.startswith(a)]
            return x[0][len(a):].split() if len(x) == 1 else None
        if kind == 'trop':
            E = {'a(h/w):': (val(m[0], 11, 2.5e-7, .00118),
                             val(m[3], 13, 1e-6, .000104)),
                 'b(h/w):': (val(m[1], 9, 5e-6, .00298),
                             val(m[4], 6, 2.5e-5, .0015)),
                 'c(h/w):': (val(m[2], 9, 2e-4, .0682),
                             val(m[5], 5, 2e-3, .048)),
                 'c00(h/w)[m]:': (val(t[0], 13, 1e-4, 2.3),
                                  val(t[3], 13, 1e-4, .252)),
                 'c10(h/w)[mm/deg]:': (val(t[1], 15, .01),
                                       val(t[4], 15, .01)),
                 'c01(h/w)[mm/deg]:': (val(t[2], 15, .01),
                                       val(t[5], 15, .01))}
            for k, e in E.items():
                x = line(k)
                if c.ok(x is not None and len(x) == 2, tag+':line',
                        lambda: f"{k} {L}"):
                    near(x[0], e[0], 1e-4, k[:3].strip('('))
                    near(x[1], e[1], 1e-4, k[:3].strip('('))
            x = line('Residiaul Model Indicator:') or \
                line('Residual Model Indicator:')
            c.ok(x in ([str(bool(rmi))], [str(rmi)]), tag+':indicator', x)
            x = [y.split()[1:] for y in L if y.startswith('res(d/w)')]
            if c.eq(len(x), len(res), tag+':residuals', lambda: str(L)):
                for y, e in zip(x, res):
                    e = [val(v, b, 1e-4) for v, b in zip(e, (nh, nw))
                         if v is not None]
                    if c.eq(len(y), len(e), tag+':residual'):
                        for a, b in zip(y, e):
                            near(a, b, 1e-4, 'residual')
        if kind == 'stec':
            k = [j for j, y in enumerate(L) if y.startswith('Residual')]
            k0 = [j for j, y in enumerate(L) if y.startswith('Polynomial')]
            if not c.ok(len(k) == len(k0) == 1 and k0 < k, tag+':parts',
                        lambda: str(L)):
                continue
            A, B = L[k0[0]+1:k[0]], L[k[0]+1:]
            c.ok(L[k[0]].split(':')[1].strip() in (str(bool(rmi)), str(rmi)),
                 tag+':indicator', L[k[0]])
            x = re.match(r'Polynomial\[TECU\]: (\S+) \(Grad:(\S+)\)',
                         L[k0[0]])
            if c.ok(x, tag+':indicator', L[k0[0]]):
                c.eq(x.group(1) in ('True', '1'), bool(pmi),
                     tag+':indicator')
                if pmi:
                    c.eq(x.group(2) in ('True', '1'), bool(pgi),
                         tag+':gradients')
            names = [sid(sy, y) for y in own]
            c.eq([y.split()[0] for y in A], names if pmi else [],
                 tag+':satellites')
            c.eq([y.split()[0] for y in B], names if rmi else [],
                 tag+':satellites')
            if pmi and len(A) == len(own):
                for y, e in zip(A, co):
                    y = y.split()
                    n_ = ['c00']+(['c01', 'c10'] if pgi else [])
                    if c.eq(y[1::2], n_, tag+':names'):
                        for a, v, b, s_ in zip(y[2::2], e, (17, 18, 18), (
                                .01, 1e-3, 1e-3)):
                            near(a, val(v, b, s_), 1e-4, 'coefficient')
            if rmi and len(B) == len(own):
                for y, e in zip(B, res):
                    y = y.split()[1:]
                    if c.eq(len(y), n, tag+':residual'):
                        for a, v in zip(y, e):
                            near(a, val(v, nl, 1e-3*2**sf), 1e-4, 'residual')
        c.seen('regional', kind, sy if kind in ('stec', 'pb') else '')
