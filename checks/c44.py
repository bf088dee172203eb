""" C44: processing logs of the positioning engines """
from common import Check, snapshot
import copy
import math
import os
import re
import numpy as np
import sim
import ref_orbit as ro
import c20
import c38
from c20 import Setup, MODES, quiet
from cssrlib.gnss import timeadd, gtime_t, sat2id, id2sat, uTYP, rSigRnx
from cssrlib.rtk import rtkpos
from cssrlib.pppssr import pppos

chk = Check('C44', ['src/cssrlib/pppssr.py', 'src/cssrlib/rtk.py',
                    'src/cssrlib/ppprtk.py'],
            rule='twin engines, one with and one without a log; every log '
            'line against the state of the engine; distinct by engine, '
            'level and kind of line')
CL = 299792458.0
STAMP = re.compile(r'(\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)$')


class Log():
    """ takes the place of the log file """

    def __init__(self):
        self.s = []

    def write(self, x):
        self.s.append(x)

    def flush(self):
        pass

    def __deepcopy__(self, memo):
        return self

    def take(self):
        """ lines since the last call """
        t = ''.join(self.s)
        self.s = []
        return [x.strip() for x in t.splitlines()]


def stamp(t):
    """ calendar of the GPS time """
    import datetime
    d = datetime.datetime(1970, 1, 1)+datetime.timedelta(seconds=t.time)
    return d.strftime('%Y-%m-%d %H:%M:%S')


LINE = re.compile(
    r'(?P<t>\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)\s+(?:'
    r'(?P<edit>[A-Z]\d\d) - edit\s+(?P<why>.*)|'
    r'(?P<reset>[A-Z]\d\d) - reset (?P<rk>ambiguity|ionosphere)\s*(?P<rs>.*)|'
    r'(?P<init>[A-Z]\d\d) - init\s+(?P<ik>ambiguity|ionosphere)\s+'
    r'(?P<is>.*?)\s*(?P<iv>-?[0-9.]+|nan)|'
    r'Ps=(?P<ps>[0-9.]+|nan) nfix=(?P<nfix>\d+)|'
    r'ztd\s+\(\s*(?P<z1>\d+),\s*(?P<z2>\d+)\)(?P<zv>.*)|'
    r'(?P<a>[A-Z]\d\d)-(?P<b>[A-Z]\d\d) (?P<k>ion|res|amb) (?P<sig>\S+) '
    r'\((?P<idx>[ \d,]+)\)(?P<v>.*))$')
LARGE = re.compile(r'\s*(\d+) is large:\s*(-?[0-9.]+) \(\s*([0-9.]+)\)$')


def parse(c, lines, t, tag):
    """ every line has a known form and the time of the epoch """
    out = []
    for x in lines:
        if LARGE.match(x):
            continue
        m = LINE.match(x)
        if not c.ok(m is not None, 'form of a line', f"{tag} {x!r}"):
            continue
        c.eq(m['t'], stamp(t), 'time of a line', f"{tag} {x!r}")
        out.append(m)
        c.seen('line', next(k for k in ('edit', 'reset', 'init', 'nfix',
                                        'z1', 'k') if m[k] is not None))
    return out


SKIP = ('fout', 'monlevel')


def state(nav):
    return {k: snapshot(v) for k, v in vars(nav).items() if k not in SKIP}


def same(c, a, b, tag):
    """ the log has changed nothing """
    a, b = state(a), state(b)
    c.eq(sorted(a), sorted(b), 'attributes', tag)
    d = [k for k in a if a[k] != b.get(k)]
    c.ok(not d, 'state depends on the log', f"{tag} {d}")


def edits(c, ml, view, edt, sigs, els, tag):
    """ satellites of 'edit' lines are exactly those not used """
    got = {}
    for m in ml:
        if m['edit']:
            got.setdefault(m['edit'], []).append(m['why'])
            e = re.search(r'low elevation\s+(-?[0-9.]+) deg', m['why'])
            if e and m['edit'] in els:
                c.ok(abs(float(e[1])-els[m['edit']]) < .3, 'elevation',
                     f"{tag} {m['edit']} {e[1]} {els[m['edit']]}")
    want = {sat2id(int(s)) for s in view if edt[int(s)-1].any()}
    c.eq(sorted(set(got) & {sat2id(int(s)) for s in view}), sorted(want),
         'edited satellites', tag)
    for s, w in got.items():
        if any('excluded' in x for x in w) or not w:
            continue
        i = id2sat(s)-1
        part = [x for x in w if not x.startswith(
            ('- satellite', '- invalid eph', '- low elevation'))]
        if len(part) != len(w) or any('GF' in x for x in w):
            c.ok(edt[i, :2].all(), 'all signals edited', f"{tag} {s} {w}")
            continue
        lab = {x.split()[0][1:] for x in w}
        exp = {q[1:] for f, q in enumerate(sigs[s[0]]) if edt[i, f]}
        c.eq(sorted(lab), sorted(exp), 'edited signals', f"{tag} {s} {w}")


@chk.case(60, 1500, cpu=400, minseen=12)
def ppp(c):
    """ engine with and without log, any kind of corrections """
    r = c.rng
    mode = MODES[c.idx % len(MODES)]
    excl = ['G%02d' % r.randint(1, 30) for _ in range(r.choice([0, 3, 6]))]
    s = Setup(c, mode, armode=r.choice([0, 1, 3]), excl=excl)
    if 'R' in s.systems:
        s.cfg['nav']['armode'] = s.nav.armode = 0
    q = copy.deepcopy(s)
    q.orb, q.bsx = s.orb, s.bsx
    log = Log()
    nav = s.eng.nav
    nav.fout = log
    nav.monlevel = lev = r.choice([1, 1, 2, 3, 4])
    sigs = {x: ['L'+k for k in s.codes[x]] for x in s.systems}
    for k in range(6):
        if k == 3:
            o, info = None, None
            v = [x for x in s.w.sats() if r.random() < .25]
            z = r.choice(['weak', 'noP', 'drop', 'health', 'slip'])
            if z == 'weak':
                s.weak = v
            elif z == 'noP':
                s.noP = [(x, r.randint(0, 3)) for x in v]
            elif z == 'drop':
                s.drop = v
            elif z == 'health':
                for x in v:
                    for w in (s.w, q.w):
                        (w.eph.get(x) or w.geph.get(x)).svh = 1
            else:
                for x in v:
                    if (x, 0) in s.rx.N:
                        s.rx.N[x, 0] += r.choice([-60, 5, 1000])
            c.seen('event', z)
        o, info = s.epoch(30.0 if not s.nav.pmode else 1.0)
        if k == 4 and len(o.sat):
            o.lli[r.randrange(len(o.sat)), r.randrange(2)] = 1
        o2 = copy.deepcopy(o)
        tag = f"{mode} {s.systems} level {lev} epoch {k}"
        x0 = nav.x.copy()
        s.run(o)
        quiet(q.eng.process, o2, cs=q.cs, orb=q.orb, bsx=q.bsx)
        same(c, nav, q.eng.nav, tag)
        ml = parse(c, log.take(), o.t, tag)
        if len(o.sat) == 0:
            continue
        edits(c, ml, o.sat, nav.edt, sigs,
              {sat2id(x): math.degrees(info[x]['el']) for x in o.sat}, tag)
        if k == 0:
            # the first observation initialises every state there is
            na = nav.na
            got = {(m['init'], m['is'][-2:]) for m in ml
                   if m['init'] and m['ik'] == 'ambiguity'}
            want = {(sat2id(j), cd) for j in map(int, o.sat)
                    for f, cd in enumerate(s.codes[s.w.let(j)])
                    if x0[s.eng.IB(j, f, na)] == 0 and
                    nav.x[s.eng.IB(j, f, na)] != 0}
            c.eq(sorted(got), sorted(want), 'initialised', tag)
        n = sum(1 for m in ml if m['k'] == 'res')
        if lev == 1:
            c.ok(not any(m['k'] or m['z1'] for m in ml), 'detail', tag)
        elif nav.nsat[2] >= 6:
            c.ok(n > 0, 'residuals in the log', tag)
            us = {sat2id(int(x)) for x in nav.sat}
            for m in ml:
                if m['k']:
                    c.ok(m['a'] in us and m['b'] in us and
                         m['a'][0] == m['b'][0] and m['a'] != m['b'],
                         'pair', f"{tag} {m[0]}")
    c.seen('ppp', mode, lev, s.systems)


@chk.case(30, 800, cpu=300, minseen=5)
def rtk(c):
    """ base and rover, with and without log """
    r, g = c.rng, c.np
    systems = r.choice(['GE', 'GEJ', 'GC', 'GEC'])
    t0 = gtime_t(ro.gps(r.randint(2000, 2400), r.uniform(10, 604000)).time, 0)
    w = sim.World(c, t0, systems)
    rb = sim.xyz(math.asin(r.uniform(-.9, .9)), r.uniform(-3.1, 3.1), 100)
    rr = rb+g.normal(size=3)*r.choice([5, 500])
    cod = {'G': ['1C', '2W'], 'E': ['1C', '5Q'], 'J': ['1C', '2L'],
           'C': ['1P', '5P']}
    codes = {s: cod[s] for s in systems}
    rxu, rxb = sim.Rx(c, w, codes), sim.Rx(c, w, codes)
    cfg = copy.deepcopy(c20.default_config)
    cfg['nav'].update(trop_opt=r.choice([0, 0, 1]), phw_opt=0,
                      iono_opt=r.choice([0, 0, 1]),
                      armode=r.choice([0, 1, 3]), thresar=3.0,
                      parmode=r.choice([1, 2]),
                      excl_sat=['G%02d' % r.randint(1, 30)])
    pos0 = rr+g.normal(size=3)
    engs, path = [], os.path.join(c.tmp, 'rtk.txt')
    lev = r.choice([1, 2, 3])
    for p in (path, None):
        nav = w.nav(nf=2)
        nav.monlevel = lev
        eng = quiet(rtkpos, nav, pos0, p, cfg)
        nav.rb = np.array(rb)
        nav.t = gtime_t(t0.time, 0.0)
        engs.append(eng)
        c.eq(nav.monlevel, lev if p else 0, 'level')
    nt = 0
    for k in range(5):
        t = timeadd(t0, k)
        kw = dict(trop=sim.trop_saast, iono=None, sp=.3, sl=.003)
        ob, ib = rxb.observe(t, rb, 1e-7, **kw)
        ou, iu = rxu.observe(t, rr, 2e-4, **kw)
        if len(ou.sat) and r.random() < .5:
            o, i = r.choice([(ou, iu), (ob, ib)])
            j = r.randrange(len(o.sat))
            z = r.randrange(4)
            if z == 0:
                o.lli[j, 0] = 1
            elif z == 1:
                o.P[j, 1] = 0
            elif z == 2:
                o.L[j, 0] = 0
            else:
                o.S[j, 0] = 7
        for eng in engs:
            quiet(eng.process, copy.deepcopy(ou), obsb=copy.deepcopy(ob))
        tag = f"{systems} level {lev} epoch {k}"
        same(c, engs[0].nav, engs[1].nav, tag)
        nt += 1
    f = engs[0].nav.fout
    f.close()
    with open(path) as h:
        ls = [x.strip() for x in h]
    st = {stamp(timeadd(t0, k)) for k in range(nt)}
    for x in ls:
        if LARGE.match(x):
            continue
        m = LINE.match(x)
        if c.ok(m is not None, 'form of a line', x):
            c.ok(m['t'] in st, 'time of a line', x)
    c.ok(any(' - init ' in x for x in ls), 'log is empty', f"{len(ls)} lines")
    c.seen('rtk', lev, systems)


@chk.case(150, 5000, minseen=10)
def editing(c):
    """ reasons given for observations that are not used """
    c38.editing_(c, Log())


@chk.case(100, 4000, minseen=5)
def states(c):
    """ resets and initial values """
    c38.first_(c, Log())


@chk.case(60, 2000, minseen=6)
def residuals(c):
    """ residual lines repeat the residuals, their partial derivatives and
    the states """
    r, g = c.rng, c.np
    s = Setup(c, r.choice([None, 'precise']), armode=0)
    for k in range(2):
        o, info = s.epoch(1.0)
        s.run(o)
    eng, nav = s.eng, s.eng.nav
    if nav.nsat[2] < 6:
        return
    log = Log()
    nav.fout, nav.monlevel = log, r.choice([2, 3])
    sat = nav.sat
    x = nav.x.copy()
    x[nav.na:] += g.normal(size=nav.nx-nav.na)*(x[nav.na:] != 0)
    e = g.normal(size=(len(sat), 3))
    e /= np.linalg.norm(e, axis=1)[:, None]
    el = nav.el[sat-1]
    nav.P = nav.P+np.diag(g.uniform(0, 9, nav.nx))
    v, H, R = eng.sdres(o, x, nav.y, e, sat, el)
    ml = parse(c, log.take(), o.t, 'residuals')
    res = [m for m in ml if m['k'] == 'res']
    tag = f"{s.systems} {nav.monlevel}"
    if not c.eq(len(res), len(v), 'number of residuals', tag):
        return
    lab = {(int(j), cd): (k, f) for k, j in enumerate(sat)
           for f, cd in enumerate(s.codes[s.w.let(int(j))])}
    for k, m in enumerate(res):
        n = [float(z) for z in re.findall(r'-?\d+\.\d+', m['v'])]
        tg = f"{tag} {m[0]}"
        c.eq(int(m['idx']), k, 'row', tg)
        c.close(n[0], v[k], 6e-4, 'residual', tg)
        c.close(math.hypot(n[1], n[2]), math.sqrt(R[k, k]), 2e-3, 'sigma',
                tg)
        a, b = id2sat(m['a']), id2sat(m['b'])
        ka, kb = (list(sat).index(z) for z in (a, b))
        c.close(H[k, :3], e[kb]-e[ka], 1e-9, 'pair', tg)
        sg = re.search(r'([CL])(\d[A-Z])$', m['sig'].rstrip(')'))
        if c.ok(sg is not None, 'signal', tg):
            f = lab.get((a, sg[2]))
            if c.ok(f is not None, 'signal', tg):
                f = f[1]
                ph = sg[1] == 'L'
                idx = eng.IB(a, f, nav.na)
                c.eq(bool(H[k, idx] != 0), ph, 'kind of signal', tg)
                if ph:
                    c.seen('phase', m['a'][0])
    if nav.monlevel < 3:
        return
    it, ii = None, None
    amb = [m for m in ml if m['k'] == 'amb']
    c.eq(len(amb), sum('L' == re.search(
        r'([CL])\d[A-Z]\)?$', m['sig'])[1] for m in res), 'ambiguities', tag)
    for m in ml:
        if m['z1']:
            n = [float(z) for z in re.findall(r'-?\d+\.\d+', m['zv'])]
            it = eng.IT(nav.na)
            c.eq((int(m['z1']), int(m['z2'])), (it, it), 'ztd index', m[0])
            c.close(n[1:], [x[it], math.sqrt(nav.P[it, it])], 6e-4, 'ztd',
                    m[0])
        if m['k'] in ('ion', 'amb'):
            i, j = (int(z) for z in m['idx'].split(','))
            n = [float(z) for z in re.findall(r'-?\d+\.\d+', m['v'])]
            a, b = id2sat(m['a']), id2sat(m['b'])
            sg = re.search(r'([CL])(\d[A-Z])\)?$', m['sig'])
            if m['k'] == 'ion':
                c.eq((i, j), (eng.II(a, nav.na), eng.II(b, nav.na)),
                     'iono index', m[0])
            else:
                f = lab[a, sg[2]][1]
                c.eq((i, j), (eng.IB(a, f, nav.na), eng.IB(b, f, nav.na)),
                     'ambiguity index', m[0])
            c.close(n[-4:], [x[i], x[j], math.sqrt(nav.P[i, i]),
                             math.sqrt(nav.P[j, j])], 6e-4, m['k'], m[0])
    c.seen('residuals', s.systems, nav.monlevel)
