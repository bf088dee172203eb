""" C38: filter set-up, prediction, observation editing, integer constraints """
from common import Check
import math
import re
import numpy as np
import copy
import sim
from cssrlib.gnss import (Nav, Obs, default_config, uTideModel,
                          uTropoModel, uIonoModel, gtime_t, timeadd,
                          rSigRnx, uTYP, uGNSS, id2sat, char2sys)
from cssrlib.pppssr import pppos
from cssrlib.rtk import rtkpos
from cssrlib.ppprtk import ppprtkpos

chk = Check('C38', ['src/cssrlib/pppssr.py', 'src/cssrlib/rtk.py',
                    'src/cssrlib/ppprtk.py', 'src/cssrlib/gnss.py'],
            rule='random configurations of every engine; random filter '
            'states; histories of observations with every kind of defect; '
            'distinct by engine, configuration and defect')

CL = 299792458.0
NSAT = int(uGNSS.MAXSAT)
sat2 = id2sat


def rnd_config(c):
    """ configuration with random standard deviations """
    r = c.rng
    cfg = copy.deepcopy(default_config)
    n = cfg['nav']
    for k in ('sig_p0', 'sig_v0', 'sig_ztd0', 'sig_ion0', 'sig_n0', 'sig_qp',
              'sig_qv', 'sig_qztd', 'sig_qion', 'sig_qb', 'thresar'):
        n[k] = math.exp(r.uniform(-3, 3))
    n.update(trop_opt=r.randrange(3), iono_opt=r.randrange(3),
             phw_opt=r.randrange(3), ephopt=r.choice([0, 2, 4]),
             trop_model=r.choice(['', 'SAAST', 'HOPF', 'SBAS']),
             iono_model=r.choice(['', 'KLOBUCHAR', 'NEQUICK_G', 'SBAS']),
             armode=r.randrange(4), parmode=r.choice([1, 2]),
             par_P0=r.uniform(.9, .999), elmaskar=r.uniform(0, 40),
             elmin=r.uniform(0, 30), eratio=[r.uniform(10, 100)]*3,
             err=[0, r.uniform(.001, .01), r.uniform(.001, .01)],
             excl_sat=r.choice([[], ['G04', 'E11'], ['C30']]))
    if r.random() < .5:
        n['csmooth'] = r.random() < .5
    return cfg


def engine(c, kind=None):
    """ engine of any kind, and what its states must be """
    r = c.rng
    cfg = rnd_config(c)
    nf = r.choice([1, 2, 2, 3])
    nav = Nav(nf)
    nav.pmode = r.randrange(2)
    pos0 = c.np.normal(size=3)*6e6
    kind = kind or r.choice(['ppp', 'ppp', 'ppprtk', 'rtk'])
    if r.random() < .15:
        cfg['nav'].pop(r.choice(['elmin', 'csmooth']), None)
    give = None if r.random() < .15 else cfg
    if give is None:
        cfg = copy.deepcopy(default_config)
    before = copy.deepcopy(cfg)
    if kind == 'ppp':
        kw = {}
        for k in ('trop_opt', 'iono_opt', 'phw_opt'):
            if r.random() < .3:
                kw[k] = r.choice([1, 2])
                cfg['nav'][k] = before['nav'][k]
        eng = pppos(nav, pos0, config=give, **kw)
        opt = dict(before['nav'], **kw)
    else:
        eng = {'rtk': rtkpos, 'ppprtk': ppprtkpos}[kind](
            nav, pos0, config=give)
        opt = dict(before['nav'])
    if give is not None:
        c.eq(cfg, before, 'configuration', 'modified')
    return eng, nav, opt, pos0, nf, kind


def layout(nav, opt, nf):
    """ states: position (and velocity), ztd, slant ionosphere,
    ambiguities """
    n = 6 if nav.pmode else 3
    it = n if opt['trop_opt'] == 1 else None
    n += it is not None
    ii = n if opt['iono_opt'] == 1 else None
    n += NSAT if ii is not None else 0
    return it, ii, n, n+NSAT*nf


def noise(nav, opt, it, ii, na, keys):
    p, v, z, i = keys
    q = np.zeros(na)
    q[:3] = opt[p]**2
    if nav.pmode:
        q[3:6] = opt[v]**2
    if it is not None:
        q[it] = opt[z]**2
    if ii is not None and i:
        q[ii:ii+NSAT] = opt[i]**2
    return q


@chk.case(150, 5000, minseen=8)
def start(c):
    """ states and covariance of a new filter """
    eng, nav, opt, pos0, nf, kind = engine(c)
    it, ii, na, nx = layout(nav, opt, nf)
    c.eq((nav.na, nav.nx, nav.nq), (na, nx, na), 'sizes', kind)
    c.eq((len(nav.x), nav.P.shape, len(nav.xa), nav.Pa.shape, len(nav.q)),
         (nx, (nx, nx), na, (na, na), na), 'shapes', kind)
    x = np.zeros(nx)
    x[:3] = pos0
    c.close(nav.x, x, 0, 'x0')
    P = np.zeros(nx)
    P[:na] = noise(nav, opt, it, ii, na,
                   ('sig_p0', 'sig_v0', 'sig_ztd0', None))
    c.close(nav.P, np.diag(P), 1e-12, 'P0', f"{kind} {nav.pmode}",
            rtol=1e-12)
    c.close(nav.q, noise(nav, opt, it, ii, na,
                         ('sig_qp', 'sig_qv', 'sig_qztd', 'sig_qion')),
            1e-12, 'q', f"{kind} {nav.pmode}", rtol=1e-12)
    # indices of the states do not overlap
    idx = [eng.IB(s, f, na) for f in range(nf) for s in range(1, NSAT+1)]
    if ii is not None:
        idx += [eng.II(s, na) for s in range(1, NSAT+1)]
    if it is not None:
        c.eq(eng.IT(na), it, 'ztd index')
        idx.append(eng.IT(na))
    c.eq(sorted(idx), list(range(6 if nav.pmode else 3, nx)), 'indices')
    c.eq((nav.trop_opt, nav.iono_opt, nav.phw_opt, nav.ephopt),
         tuple(opt[k] for k in ('trop_opt', 'iono_opt', 'phw_opt',
                                'ephopt')), 'options', kind)
    c.eq(nav.trpModel, {'': uTropoModel.NONE, 'SAAST': uTropoModel.SAAST,
                        'HOPF': uTropoModel.HOPF,
                        'SBAS': uTropoModel.SBAS}[opt['trop_model']],
         'trop model')
    c.eq(nav.ionoModel, {'': uIonoModel.NONE,
                         'KLOBUCHAR': uIonoModel.KLOBUCHAR,
                         'NEQUICK_G': uIonoModel.GIM,
                         'SBAS': uIonoModel.SBAS}[opt['iono_model']],
         'iono model')
    c.eq((nav.parmode, nav.par_P0), (opt['parmode'], opt['par_P0']),
         'par options')
    for k in ('elmaskar', 'elmin'):
        if k in opt:
            c.close(getattr(nav, k), math.radians(opt[k]), 1e-12, k)
    if 'excl_sat' in opt:
        c.eq(list(nav.excl_sat), [sat2(s) for s in opt['excl_sat']],
             'excluded')
    if 'csmooth' in opt:
        c.eq(nav.csmooth, opt['csmooth'], 'csmooth')
    if kind != 'rtk':
        c.eq((nav.armode, nav.thresar), (opt['armode'], opt['thresar']),
             'ar options')
        # measurement noise
        el = c.rng.uniform(.05, 1.57)
        a, b = opt['err'][1], opt['err'][2]
        for f in range(2*min(nf, len(opt['eratio']))):
            fc = opt['eratio'][f-nf] if f >= nf else 1
            c.close(eng.varerr(nav, el, f),
                    fc**2*(a**2+b**2/math.sin(el)**2), 0, 'noise',
                    f"{f} of {nf}", rtol=1e-9)
    c.seen(kind, nav.pmode, it is not None, ii is not None)


@chk.case(120, 4000, minseen=8)
def predict(c):
    """ time update of the filter """
    r, g = c.rng, c.np
    eng, nav, opt, pos0, nf, kind = engine(c)
    it, ii, na, nx = layout(nav, opt, nf)
    # some states are in use
    act = [k for k in range(nx) if k < 6 or r.random() < .03]
    A = g.normal(size=(len(act), len(act)))
    P = np.zeros((nx, nx))
    P[np.ix_(act, act)] = A@A.T+np.eye(len(act))
    x = np.zeros(nx)
    x[act] = g.normal(size=len(act))*100
    nav.P[:] = P
    nav.x[:] = x
    tt = r.choice([0, .1, 1, 30, 300, r.uniform(0, 60)])
    nav.t = gtime_t(1700000000, r.choice([0, .5]))
    obs = Obs()
    obs.t = timeadd(nav.t, tt)
    obs.sat = np.array([], dtype=int)
    obs.sig = {}
    for k in ('P', 'L', 'S'):
        setattr(obs, k, np.zeros((0, nf)))
    eng.udstate(obs)
    if nav.pmode:
        x[:3] += x[3:6]*tt
        F = np.eye(nx)
        F[:3, 3:6] = np.eye(3)*tt
        P = F@P@F.T
    d = noise(nav, opt, it, ii, na,
              ('sig_qp', 'sig_qv', 'sig_qztd', 'sig_qion'))
    P[np.arange(na), np.arange(na)] += d*tt
    c.close(nav.x, x, 1e-6, 'predicted x')
    c.close(nav.P, P, 1e-9*np.abs(P).max(), 'predicted P', f"{kind} {tt}")
    c.seen(kind, nav.pmode, it is not None, ii is not None, tt > 0)


FRQ = {'G': (1575.42e6, 1227.6e6), 'E': (1575.42e6, 1176.45e6),
       'C': (1561.098e6, 1268.52e6), 'J': (1575.42e6, 1227.6e6)}
SGN = {'G': ('1C', '2W'), 'E': ('1C', '5Q'), 'C': ('2I', '6I'),
       'J': ('1C', '2L')}


def report(c, log, rst, ini, obs, tag):
    """ lines on states that are reset or initialised """
    import c44
    g = [set(), {}]
    for m in c44.parse(c, log.take(), obs.t, tag):
        for n, k, i in (('reset', 'rk', 'rs'), ('init', 'ik', 'is')):
            if m[n]:
                q = 'i'
                if m[k] == 'ambiguity':
                    q = SGN[m[n][0]].index(re.search(
                        r'L(\d[A-Z])', m[i])[1])
                if n == 'init':
                    g[1][m[n], q] = float(m['iv'])
                else:
                    g[0].add((m[n], q))
    # a new delay may be reset once more on behalf of the second signal
    g[0] -= {k for k in g[0] if k[1] == 'i' and k in ini and k not in rst and
             (k[0], 1) in rst}
    c.eq(sorted(map(str, g[0])), sorted(map(str, rst)), 'resets', tag)
    if c.eq(sorted(map(str, g[1])), sorted(map(str, ini)), 'inits', tag):
        for k, v in ini.items():
            c.close(g[1][k], v, 2e-2, 'init value', f"{tag} {k}")


@chk.case(120, 4000, minseen=6)
def first(c):
    """ initialisation of the states """
    first_(c)


def first_(c, log=None):
    """ states of ambiguities and ionosphere are initialised by the first
    observation and after an outage, and kept in between """
    r = c.rng
    eng, nav, opt, pos0, nf_, kind = engine(c)
    while nav.nf != 2:
        eng, nav, opt, pos0, nf_, kind = engine(c)
    nf = 2
    if log is not None:
        nav.fout, nav.monlevel = log, 1
    it, ii, na, nx = layout(nav, opt, nf)
    sats = r.sample([f"{s}{k:02d}" for s in 'GECJ' for k in range(1, 9)],
                    r.randint(1, 10))
    obs = Obs()
    obs.sat = np.array([sat2(s) for s in sats])
    obs.sig = {char2sys(s): {uTYP.C: [rSigRnx(s+'C'+k) for k in SGN[s]],
                             uTYP.L: [rSigRnx(s+'L'+k) for k in SGN[s]]}
               for s in sorted({s[0] for s in sats})}
    nav.t = gtime_t(1700000000, 0.0)
    want = {}

    def data(t):
        obs.t = t
        obs.P = np.zeros((len(sats), 2))
        obs.L = np.zeros((len(sats), 2))
        obs.S = np.zeros((len(sats), 2))
        new = {}
        for k, s in enumerate(sats):
            f = FRQ[s[0]]
            rho, ion = r.uniform(2e7, 3e7), r.uniform(-5, 80)
            amb = [r.uniform(-1e6, 1e6) for _ in f]
            for j in range(2):
                lam = CL/f[j]
                i_ = ion*(f[0]/f[j])**2
                obs.P[k, j] = rho+i_
                obs.L[k, j] = (rho-i_)/lam+amb[j]
                if ii is None:      # ionosphere is not known
                    new[s, j] = amb[j]-2*i_/lam
                else:
                    new[s, j] = amb[j]
            if ii is not None:
                new[s, 'i'] = ion
            if r.random() < .1:     # no observation of a signal
                j = r.randrange(2)
                r.choice([obs.P, obs.L])[k, j] = 0
                if obs.P[k, j] == 0 and ii is not None:
                    # no ionosphere, no ambiguity
                    for q in (0, 1, 'i'):
                        new.pop((s, q), None)
                else:
                    new.pop((s, j))
        return new

    def index(s, q):
        return eng.II(sat2(s), na) if q == 'i' else eng.IB(sat2(s), q, na)

    cnt = {(s, q): 0 for s in sats for q in (0, 1)}
    for k in range(r.choice([2, 7, 9, 14])):
        new = data(timeadd(nav.t, 0.0))
        bad = [s for s in sats if r.random() < .06]
        nav.edt[:] = 0
        for s in bad:
            nav.edt[sat2(s)-1, r.randrange(2)] = 1
        for s in sats:
            for q in (0, 1):
                if r.random() < .1:     # has been observed
                    nav.outc[sat2(s)-1, q] = 0
                    cnt[s, q] = 0
                cnt[s, q] += 1
        eng.udstate(obs)
        rst, ini = set(), {}
        for s in sats:
            out = [cnt[s, q] > nav.maxout or s in bad for q in (0, 1)]
            for q in (0, 1):
                if out[q] and (s, q) in want:
                    want.pop((s, q))
                    rst.add((s, q))
                    cnt[s, q] = 0
                    c.seen('edited' if s in bad else 'outage')
            if any(out) and want.pop((s, 'i'), None) is not None:
                rst.add((s, 'i'))
            for q in (0, 1, 'i') if s not in bad else ():
                if (s, q) not in want and (s, q) in new:
                    ini[s, q] = want[s, q] = new[s, q]
            for q in [0, 1]+(['i'] if ii is not None else []):
                j = index(s, q)
                v = want.get((s, q), 0.0)
                c.close(nav.x[j], v, 1e-3 if q == 'i' else 2e-2, 'state',
                        f"{s} {q} epoch {k} {kind}")
                sg = opt['sig_ion0' if q == 'i' else 'sig_n0']**2
                t = 0 if (s, q) not in want else sg
                c.close(nav.P[j, j], t, 1e-9, 'variance', f"{s} {q}",
                        rtol=1e-9)
        if log is not None:
            report(c, log, rst, ini, obs, f"epoch {k} {kind}")
        nav.t = obs.t
    rest = np.ones(nx, bool)
    rest[:na if ii is None else ii] = False
    for s in sats:
        for q in [0, 1]+(['i'] if ii is not None else []):
            rest[index(s, q)] = False
    c.ok(not nav.x[rest].any() and not nav.P[rest].any(), 'other states')
    c.seen(kind, ii is not None, len(sats) > 4)


CD = {'G': ('1C', '2W', '5Q'), 'E': ('1C', '5Q', '7Q'),
      'C': ('2I', '6I', '7I'), 'J': ('1C', '2L', '5Q'),
      'R': ('1C', '2C', '3Q')}
FQ = {'G': (1575.42e6, 1227.6e6), 'E': (1575.42e6, 1176.45e6),
      'C': (1561.098e6, 1268.52e6), 'J': (1575.42e6, 1227.6e6)}


TEXT = {'orbit': 'invalid eph', 'clock': 'invalid eph',
        'health': 'satellite unhealthy', 'excluded': 'satellite excluded',
        'low': 'low elevation', 'no code': 'invalid PR obs',
        'no phase': 'invalid CP obs', 'lli': 'LLI', 'weak': 'low C/N0'}


def reasons(c, log, o, text, good, maybe, nf, tag):
    """ lines on observations that are not used """
    import c44
    got = {}
    for m in c44.parse(c, log.take(), o.t, tag):
        if m['edit']:
            got.setdefault(m['edit'], []).append(m['why'])
    for s in good-maybe:
        c.ok(s not in got, 'used', f"{tag} {s} {got.get(s)}")
    for s, (w, f, cn, el) in text.items():
        x = [y for y in got.get(s, ()) if 'GF slip' not in y]
        if not c.ok(len(x) == 1 and w in x[0], 'reason',
                    f"{tag} {s} {w}: {got.get(s)}"):
            continue
        if f is not None:
            t = 'C' if w == 'invalid PR obs' else \
                'S' if w == 'low C/N0' else 'L'
            c.ok(x[0].startswith(t+CD[s[0]][f]+' '), 'signal',
                 f"{tag} {s} {x[0]} {CD[s[0]][f]}")
        v = [float(z) for z in re.findall(r'-?\d+\.\d+', x[0])]
        if w == 'low elevation':
            c.close(v, [el], .06, 'elevation', f"{tag} {s}")
        elif w == 'low C/N0':
            c.close(v, [cn], .06, 'C/N0', f"{tag} {s}")
    for s, x in got.items():
        if any('GF slip' in y for y in x):
            v = [float(z) for z in re.findall(r'-?\d+\.\d+', x[-1])]
            c.ok(len(v) == 3 and abs(abs(v[2])) > .149 and
                 abs(v[0]-v[1]-v[2]) < .002, 'slip', f"{tag} {x}")
            c.seen('slip')
    # satellites that are not received
    e = [s for s in got if sat2(s) not in set(map(int, o.sat))]
    c.eq(e, [], 'not received', tag)


@chk.case(250, 8000, minseen=12)
def editing(c):
    """ observations that must not be used """
    editing_(c)


def editing_(c, log=None):
    """ observations that must not be used, and the reasons in the log """
    r, g = c.rng, c.np
    nf = r.choice([1, 2, 2, 2, 3])
    nav = Nav(nf)
    nav.pmode = r.randrange(2)
    cfg = copy.deepcopy(default_config)
    lim = r.choice([0, 5, 10, 15, 25])
    cfg['nav']['elmin'] = lim
    sats = sorted(r.sample([f"{s}{k:02d}" for s in 'GECJR'
                            for k in range(1, 8)], r.randint(6, 16)))
    cfg['nav']['excl_sat'] = ex = r.sample(sats, r.choice([0, 0, 1, 2]))
    if r.random() < .5:
        ex = ex+['G31']
        cfg['nav']['excl_sat'] = ex
    glo = {sat2(s): r.randint(-7, 6) for s in sats if s[0] == 'R'}
    lat, lon = math.asin(r.uniform(-.95, .95)), r.uniform(-3.1, 3.1)
    rec = sim.xyz(lat, lon, r.uniform(0, 3000))
    base = r.random() < .3
    eng = (rtkpos if base else pppos)(nav, rec, config=cfg)
    nav.tidecorr = r.choice([uTideModel.NONE, uTideModel.SIMPLE,
                             uTideModel.IERS2010])
    if log is not None:
        nav.fout, nav.monlevel = log, 1
    nav.cnr_min, nav.cnr_min_gpy = r.choice([(25, 15), (35, 20), (20, 30)])
    nav.glo_ch = glo
    sigs = {char2sys(s): {y: [rSigRnx(s+x+k) for k in CD[s][:nf]]
                          for y, x in ((uTYP.C, 'C'), (uTYP.L, 'L'),
                                       (uTYP.S, 'S'))}
            for s in 'GECJR'}

    def wl(s, j):
        if s[0] == 'R':
            n = glo[sat2(s)]
            return CL/((1602e6+n*562.5e3) if j == 0
                       else (1246e6+n*437.5e3))
        return CL/FQ[s[0]][j]
    last = {}
    bias = {(s, j): r.uniform(-1e7, 1e7) for s in sats for j in range(nf)}
    open_ = set()
    t = gtime_t(1690000000+r.randrange(10**7), 0.0)
    nav.t = t
    for ep in range(r.randint(1, 6)):
        dt = r.choice([1, 30, 0.1])
        tt = timeadd(nav.t, dt)
        vel = g.normal(size=3)*r.choice([0, 3000])
        nav.x[:3] = rec
        if nav.pmode:
            nav.x[:3] = rec-vel*dt
            nav.x[3:6] = vel
        if base:    # the state of the rover does not matter
            nav.x[:3] = sim.xyz(-lat, lon+2, 0)
        view = [s for s in sats if r.random() < .9]
        r.shuffle(view)
        n = len(view)
        o = Obs()
        o.t = tt
        o.sat = np.array([sat2(s) for s in view])
        o.sig = sigs
        sh = (n, nf)
        o.P = g.uniform(2e7, 3e7, size=sh)
        o.L = np.zeros(sh)
        o.S = np.full(sh, 60.0)
        o.D = np.zeros(sh)
        o.lli = np.zeros(sh, int)
        rs, dts = np.zeros((n, 3)), g.normal(size=n)*1e-4
        svh = np.zeros(n, int)
        want = []
        maybe = set()
        why = {}
        text = {}
        for k, s in enumerate(view):
            sl = None
            if nf > 1 and r.random() < .1:
                sl = r.randrange(2)
                d = r.choice([-1, 1])*r.choice([2, 5, 40, 1000])
                bias[s, sl] += d
            gf = 0.0
            for j in range(nf):
                lam = wl(s, j) if j < 2 else .25
                bias[s, j] += r.uniform(-.01, .01)
                o.L[k, j] = bias[s, j]
                if j < 2:
                    gf += (1-2*j)*bias[s, j]*lam
            q = r.random()
            el = math.radians(lim)+r.choice([-1, 1])*math.radians(
                r.uniform(.05, .5))
            low = el < math.radians(lim)
            if r.random() < .6:
                el, low = r.uniform(math.radians(lim)+.01, 1.57), False
            az = r.uniform(0, 2*math.pi)
            a = sim.enu_axes(lat, lon)
            u = np.array([math.cos(el)*math.sin(az),
                          math.cos(el)*math.cos(az), math.sin(el)])
            rs[k] = rec+a.T@u*2.3e7
            bad = None
            if q < .05:
                rs[k, r.choice([0, 1, 2])] = np.nan
                if r.random() < .5:
                    rs[k] = np.nan
                bad = 'orbit'
            elif q < .08:
                dts[k] = np.nan
                bad = 'clock'
            elif q < .13:
                svh[k] = r.choice([1, 2, 63])
                bad = 'health'
            if s in ex:
                bad = 'excluded'
            elif bad is None and low:
                bad = 'low'
            early = bad is not None
            f = r.randrange(nf)
            q = r.random()
            if q < .06:
                o.P[k, f] = 0
                bad = bad or 'no code'
            elif q < .12:
                o.L[k, f] = 0
                bad = bad or 'no phase'
            elif q < .18:
                o.lli[k, f] = 1
                bad = bad or 'lli'
            elif q < .24:
                o.S[k, f] = 0       # not known
                why[s] = 'no snr'
            elif q < .4:
                m = nav.cnr_min_gpy if s[0] == 'G' and f == 1 \
                    else nav.cnr_min
                o.S[k, f] = m+r.choice([-1, 1])*r.choice([.5, 4])
                why[s] = 'snr'
                if o.S[k, f] < m:
                    bad = bad or 'weak'
            if nf > 1:
                if early:
                    # a slip now may be noticed now or later
                    if sl is not None:
                        open_.add(s)
                elif o.L[k, 0] != 0 and o.L[k, 1] != 0:
                    if s in last:
                        dg = abs(gf-last[s])
                        if dg > .151:
                            bad = bad or 'slip'
                        elif dg > .149:
                            maybe.add(s)
                    if s in open_:
                        maybe.add(s)
                        open_.discard(s)
                    last[s] = gf
                elif sl is not None:
                    open_.add(s)
            if bad is None:
                want.append(s)
            elif bad != 'slip':
                j = f if not early else None
                text[s] = TEXT[bad], j, o.S[k, f], math.degrees(el)
            c.seen(bad or why.get(s, 'good'), base)
        if base:
            got = eng.qcedit(o, rs, dts, svh, rr=rec)
        else:
            got = eng.qcedit(o, rs, dts, svh)
        if log is not None:
            reasons(c, log, o, text, set(want), maybe, nf, f"epoch {ep}")
        m = {sat2(s) for s in maybe}
        c.eq(sorted(set(map(int, got))-m),
             sorted({sat2(s) for s in want}-m), 'used', f"epoch {ep}")
        c.eq(len(set(map(int, got))), len(got), 'used twice')
        ed = {k+1 for k in range(NSAT) if nav.edt[k].any()}
        c.ok(ed == set(range(1, NSAT+1))-set(map(int, got)), 'edit table')
        nav.t = tt
    c.seen('mode', nav.pmode, nf)


@chk.case(250, 8000, minseen=8)
def integers(c):
    """ fixed solution = float solution under the integer constraints """
    r, g = c.rng, c.np
    nf = r.choice([1, 2, 2])
    nav = Nav(nf)
    nav.pmode = r.randrange(2)
    cfg = copy.deepcopy(default_config)
    lim = r.choice([0, 15, 30])
    cfg['nav'].update(trop_opt=r.choice([0, 1]), iono_opt=r.choice([0, 1]),
                      armode=1, elmaskar=lim, thresar=r.choice([2, 3]))
    eng = pppos(nav, np.array([3e6, 4e6, 4e6]), config=cfg)
    na, nx = nav.na, nav.nx
    sats = sorted(r.sample([f"{s}{k:02d}" for s in r.choice(
        ['G', 'GE', 'GEC']) for k in range(1, 10)], r.randint(2, 9)))
    amb = [(s, f) for s in sats for f in range(nf)]
    idx = [eng.IB(sat2(s), f, na) for s, f in amb]
    m = len(idx)
    act = [k for k in range(na) if k < 6 or r.random() < .05]
    if nav.pmode == 0:
        act = [k for k in act if k < 3 or k >= na-1 or k > 5]
    n = len(act)
    # position correlated with the ambiguities
    N = np.array([r.randint(-10**6, 10**6) for _ in idx], float)
    sig = r.choice([.01, .05, .3])
    J = g.normal(size=(m, n))*r.choice([.02, 1])
    S = np.eye(m)*sig**2
    nc = 1 if r.random() < .5 else 0      # common error of all ambiguities
    S = S+nc*np.ones((m, m))*4.0
    A = g.normal(size=(n, n))*.2
    Pa = A@A.T+np.eye(n)*.01
    B = np.linalg.pinv(J)*r.choice([.1, .5])
    ii = act+idx
    T = np.block([[np.eye(n), B], [np.zeros((m, n)), np.eye(m)]])
    Z = np.block([[Pa, np.zeros((n, m))], [np.zeros((m, n)), S]])
    Pf = T@Z@T.T
    P = np.zeros((nx, nx))
    P[np.ix_(ii, ii)] = Pf
    x = np.zeros(nx)
    x[act] = g.normal(size=n)*10
    half = r.random() < .25             # nothing to decide for
    e = g.normal(size=m)*sig*.3
    if half:
        e = np.array([.5*(k % 2) for k in range(m)])+g.normal(size=m)*1e-4
    x[idx] = N+e
    # without use
    gone = set()
    for k, (s, f) in enumerate(amb):
        q = r.random()
        if q < .07:
            x[idx[k]] = 0.0
            P[idx[k], :] = 0
            P[:, idx[k]] = 0
            gone.add(k)
            nav.vsat[sat2(s)-1, f] = r.randrange(2)
        elif q < .14:
            gone.add(k)
            nav.vsat[sat2(s)-1, f] = 0
        else:
            nav.vsat[sat2(s)-1, f] = 1
    el = {s: math.radians(lim)+r.choice([-1, 1, 1])*r.uniform(.01, .4)
          for s in sats}
    for s in sats:
        nav.el[sat2(s)-1] = el[s]
    now = [s for s in sats if r.random() < .9]
    sat = np.array([sat2(s) for s in now], dtype=int)
    use = {}
    for k, (s, f) in enumerate(amb):
        if k not in gone and s in now and el[s] >= math.radians(lim):
            use.setdefault((s[0], f), []).append(k)
    dd = [(u[0], k) for u in use.values() for k in u[1:]]
    nav.x[:], nav.P[:] = x, P
    nav.xa[:] = 0
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        nb, xa = eng.resamb_lambda(sat, 1, .995)
    c.ok(np.array_equal(nav.x, x) and np.array_equal(nav.P, P),
         'float solution altered')
    if not dd:
        c.ok(nb <= 0, 'nothing to fix', f"{nb}")
        c.seen('none')
        return
    D = np.zeros((len(dd), nx))
    for q, (i, j) in enumerate(dd):
        D[q, idx[i]], D[q, idx[j]] = 1, -1
    Q = D@P@D.T
    y = D@x
    z = np.round(D@np.where(np.isin(np.arange(nx), idx), x, 0)) * 0
    for q, (i, j) in enumerate(dd):
        z[q] = N[i]-N[j]
    W = np.linalg.inv(Q)
    best = (y-z)@W@(y-z)
    # is the decision clear: next best is at least far away
    lmin = np.linalg.eigvalsh(W)[0]
    clear = not half and sig < .3 and best < .05*lmin
    if half:
        same = all((i-j) % 2 == 0 for i, j in dd)
        if not same:
            # two equally good candidates at least
            c.ok(nb <= 0, 'fixed without decision', f"{nb}")
            c.seen('undecided')
        return
    if not clear:
        return
    c.eq(nb, len(dd), 'number fixed', f"{use}")
    if nb <= 0:
        return
    K = P[:na]@D.T@W
    c.close(nav.xa, x[:na]-K@(y-z), 1e-6, 'fixed position',
            f"{len(dd)} dd")
    c.close(nav.Pa, P[:na, :na]-K@D@P[:, :na], 1e-6, 'fixed covariance')
    c.close(xa[:na], nav.xa, 1e-9, 'fixed states')
    c.close(D@xa, z, 1e-6, 'integers', f"{dd}")
    c.seen(nf, len(use), min(len(dd), 4), bool(gone))
    # hold
    eng.holdamb(xa)
    c.close(D@nav.x, z, .1, 'held integers')
    v = np.diag(D@nav.P@D.T)
    c.ok(np.all(v < np.minimum(np.diag(Q)*(1+1e-9), .0011)),
         'held variance')
    c.ok(np.all(np.linalg.eigvalsh(nav.P[np.ix_(ii, ii)]) > -1e-7),
         'held psd')
    K = P@D.T@np.linalg.inv(Q+np.eye(len(dd))*.001)
    c.close(nav.x, x-K@(y-z), 2e-2*(1+np.abs(K@(y-z)).max()), 'held states')
    c.seen('hold', nf)
