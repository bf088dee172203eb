""" C39: a session processed from its files """
from common import Check
import copy
import io
import math
import os
import numpy as np
import yaml
import c20
import files as fl
import sim
import ref_orbit as ro
from cssrlib.gnss import (Nav, gtime_t, timeadd, timediff, default_config,
                          load_config, rSigRnx)
from cssrlib.peph import peph, biasdec, atxdec, searchpcv
from cssrlib.pntpos import stdpos
from cssrlib.pppssr import pppos
from cssrlib.rinex import rnxdec, sync_obs
from cssrlib.rtk import rtkpos
from cssrlib.utils import process
import cssrlib.utils

chk = Check('C39', ['src/cssrlib/utils.py', 'src/cssrlib/rinex.py',
                    'src/cssrlib/pntpos.py', 'src/cssrlib/rtk.py',
                    'src/cssrlib/pppssr.py', 'src/cssrlib/peph.py'],
            rule='sessions written to RINEX OBS/NAV/CLK, SP3, Bias-SINEX, '
            'ANTEX and YAML files by independent writers, processed with the '
            'driver class as in the tutorials; distinct by kind, '
            'constellations, substituted signals and events')

quiet = c20.quiet
cssrlib.utils.stdout = io.StringIO()     # progress line
LETNAME = {'G': 'GPS', 'E': 'GALILEO', 'J': 'QZSS', 'C': 'BEIDOU',
           'R': 'GLONASS'}
# signals asked for, and signals a receiver may have instead
ASK = {'G': ['1C', '2W'], 'E': ['1C', '5Q'], 'J': ['1C', '2L'],
       'C': ['1P', '5P'], 'R': ['1C', '2C']}
ALT = {'G': {'2W': ['2C']}, 'E': {'1C': ['1X', '1B'], '5Q': ['5X', '5I']},
       'J': {'2L': ['2X', '2S']}, 'C': {'1P': ['1X'], '5P': ['5X']}, 'R': {}}


def codes_of(r, systems, nf, p):
    out = {}
    for s in systems:
        out[s] = [r.choice(ALT[s][x]) if x in ALT[s] and r.random() < p
                  else x for x in ASK[s][:nf]]
    return out


def antenna(r, name, code, lets):
    k = 120 if not code else 2000
    return name, code, {
        s+b: tuple(round(r.uniform(-k, k), 2) for _ in range(3))
        for s in lets for b in {'G': '125', 'R': '12', 'E': '1567',
                                'C': '12567', 'J': '125'}[s]}


def rx_effect(ant, w, sat, code, axes, e):
    """ offset of the receiver antenna along the line of sight [m] """
    n, ea, u = ant[2][fl.sid(sat)[0]+code[0]]
    return -(axes@e)@np.array([ea, n, u])*1e-3


class Log():
    """ what the output file has to contain """

    def __init__(self, c, path):
        self.c, self.path, self.rows = c, path, []

    def check(self, obsfile, ant, rcv, ts, avail, sel, missing, tag):
        c = self.c
        tx = open(self.path).read()
        c.ok(f"FileName: {obsfile}\n" in tx, 'log-file', tag)
        c.ok(f"Start   : {fl.dt(ts).strftime('%Y-%m-%d %H:%M:%S')}" in tx,
             'log-start', tag)
        c.ok(f"Receiver: {rcv:<20}".rstrip() in tx, 'log-receiver', tag)
        c.ok(f"Antenna : {ant:<20}".rstrip() in tx, 'log-antenna', tag)
        c.eq('missing antenna type <' in tx, missing, 'log-missing', tag)
        for title, want in (('Available', avail), ('Selected', sel)):
            blk = tx.split(f"{title} signals\n")[1].split('\n\n')[0]
            got = {x.split()[0].upper(): sorted(x.split()[1:])
                   for x in blk.split('\n') if x.strip()}
            c.eq(got, want, 'log-'+title, tag)
        ln = [x for x in tx.split('\n') if ' ENU ' in x]
        if not c.eq(len(ln), len(self.rows), 'log-lines', tag):
            return
        for x, (t, sol, enu, mode) in zip(ln, self.rows):
            v = x.replace(',', ' ').split()
            c.eq(x[:19], fl.dt(t).strftime('%Y-%m-%d %H:%M:%S'), 'log-time',
                 tag)
            c.close([float(y) for y in v[2:5]], sol, 6e-5, 'log-xyz', tag)
            i = v.index('ENU')
            c.close([float(y) for y in v[i+1:i+4]], enu, 6e-4, 'log-enu', tag)
            c.close(float(v[v.index('2D')+1]), math.hypot(enu[0], enu[1]),
                    6e-4, 'log-2d', tag)
            c.eq(int(v[-1]), mode, 'log-mode', tag)


def yaml_config(c, path, atxfile, **k):
    cfg = copy.deepcopy(default_config)
    cfg['nav'].update(csmooth=False, monlevel=0)
    cfg['nav'].update(k)
    cfg['elmin'] = k.get('elmin', 10)
    cfg['atxfile'] = atxfile
    with open(path, 'w') as fh:
        yaml.safe_dump(cfg, fh)
    return load_config(path)


def zdop(es, lets, up, elmin):
    """ dilution of precision of the position, with the zenith delay and a
    receiver clock for each constellation estimated """
    ls = sorted(set(lets))
    H = np.array([np.r_[-e, 1/max(e@up, .1), [q == y for y in ls]]
                  for e, q in zip(es, lets) if math.asin(e@up) > elmin])
    if len(H) < 4+len(ls):
        return 99.0
    return math.sqrt(max(np.trace(np.linalg.pinv(H.T@H)[:3, :3]), 0.0))


@chk.case(70, 2500, cpu=400, minseen=20)
def session(c):
    r, g = c.rng, c.np
    kind = ['spp', 'rtk', 'ppp'][c.idx % 3]
    systems = r.choice({'spp': ['G', 'GE', 'GEJ', 'GR', 'EC', 'GEC'],
                        'rtk': ['GE', 'GEJ', 'GEC', 'GER', 'GR'],
                        'ppp': ['GE', 'GEJ', 'GC', 'GEC', 'EC']}[kind])
    nf = 1 if kind == 'spp' else 2
    psub = r.choice([0, .5, 1])
    step = r.choice([1.0, 5.0, 30.0])
    if kind == 'ppp':
        step = 30.0
    pmode = r.choice([0, 0, 1])
    if pmode:
        step = 1.0
    # whole seconds, some sessions start between two multiples of 30 s, some
    # shortly before the turn of a week
    tow = r.choice([r.randint(7200, 590000), 604800-r.randint(1, 20),
                    86400*r.randint(1, 6)-r.randint(1, 40)])
    t0 = ro.gps(r.randint(2000, 2400), tow)
    # receivers that measure between the full seconds
    t0 = gtime_t(t0.time, r.choice([0.0]*4+[.1, .25, .5]) if kind != 'ppp'
                 else 0.0)
    ion = [[float('%12.4E' % (x*r.uniform(.5, 1.5))) for x in y] for y in (
        [.1118e-07, -.7451e-08, -.5961e-07, .1192e-06],
        [.1167e+06, -.2294e+06, -.1311e+06, .1049e+07])]
    files = {k: os.path.join(c.tmp, k) for k in (
        'nav.rnx', 'rover.obs', 'base.obs', 'orb.sp3', 'sat.clk', 'osb.bia',
        'x.atx', 'out.log', 'config.yml')}
    s = None
    if kind == 'ppp':
        s = c20.Setup(c, 'precise', systems, pmode=pmode)
        w, t0 = s.w, s.t0
        rr, vel = s.rr, s.vel
    else:
        w = sim.World(c, t0, systems)
        lat, lon = math.asin(r.uniform(-.9, .9)), r.uniform(-3.1, 3.1)
        rr = sim.xyz(lat, lon, r.uniform(0, 500))
        vel = g.normal(size=3)*r.choice([0, 1, 4])*np.array([1, 1, .3]) \
            if pmode else np.zeros(3)
    for x in w.geph.values():
        x.toe = gtime_t((x.toe.time-18)//900*900+18, 0.0)
    ne = {'spp': 16 if pmode else 9, 'rtk': 12, 'ppp': 14}[kind]
    codes = codes_of(r, systems, nf, psub)
    codesb = codes_of(r, systems, nf, psub)
    ants = {k: antenna(r, f"{k.upper()}{r.randint(0, 999):<10d}  NONE"[:20],
                       '', systems) for k in ('rover', 'base')}
    known = r.random() < .8        # antenna listed in the calibration file
    ch = {fl.sid(q): x.frq for q, x in w.geph.items()}
    rcv = f"RCV {r.randint(1, 99)}"
    pos0 = rr+g.normal(size=3)*r.choice([.1, 2, 5])
    fl.nav(files['nav.rnx'], w, r, ion)
    # ---- rover (and base) observations
    fu = fl.ObsFile(files['rover.obs'], r, codes, t0, pos0, rcv,
                    ants['rover'][0], ch)
    truth, epochs = {}, []
    rx = sim.Rx(c, w, codes, mask=5)
    ax = None
    if kind == 'rtk':
        ax = sim.enu_axes(*sim.llh(rr)[:2])
        rb = np.round(rr+ax.T@(g.normal(size=3)*np.array([800, 800, 30])), 4)
        fb = fl.ObsFile(files['base.obs'], r, codesb, t0, rb, rcv,
                        ants['base'][0], ch)
        rxb = sim.Rx(c, w, codesb, mask=5)
        lost_u = r.sample(range(1, ne), 2)
        lost_b = r.sample(range(1, ne), 2)
    clk = r.choice([0.0, r.uniform(-3e-7, 3e-7), r.uniform(-1e-3, 1e-3)])
    if kind == 'ppp':
        s.ant = known
        s.rx = sim.Rx(c, w, codes, mask=4)
        if known:
            o = ants['rover'][2]
            p = c20.antenna(c, 'X', 1)
            for q in o:
                p.off[rSigRnx(q[0]+'L'+q[1])] = np.array(
                    [o[q][1], o[q][0], o[q][2]])
            s.nav.rcv_ant = p
        for p in s.satant.values():
            for q in p.off:
                p.off[q] = np.round(p.off[q], 2)
    for k in range(ne):
        t = timeadd(t0, k*step)
        x = rr+vel*k*step
        if kind == 'ppp':
            ob, info = s.epoch(step)
            x = s.x
        elif kind == 'spp':
            ob, info = rx.observe(t, x, clk, sim.trop_mops, sim.iono_klob(
                np.array(ion)), tgd=True)
        else:
            def eff(ant):
                def f(sat, code):
                    if not known:
                        return 0.0
                    # direction to a satellite: same for all codes
                    return rx_effect(ant, w, sat, code, ax, eff.e[sat])
                return f
            e0 = {}
            for q in w.sats():
                e0[q] = w.geom(q, t, x, clk)[2]
            eff.e = e0
            fa, fb_ = eff(ants['rover']), eff(ants['base'])
            ob, info = rx.observe(t, x, clk, sim.trop_saast, None, cbias=fa,
                                  pbias=fa)
            if k not in lost_b:
                eff.e = {q: w.geom(q, t, rb, 1e-7)[2] for q in w.sats()}
                oo, _ = rxb.observe(t, rb, 1e-7, sim.trop_saast, None,
                                    cbias=fb_, pbias=fb_)
                fb.add(oo, .1)
            if k in lost_u:
                continue
        up = [q for q in ob.sat if info[q]['el'] > math.radians(15)]
        if len(up) < 7 or kind != 'spp' and any(
                sum(fl.sid(q)[0] == y for q in up) < 3 for y in systems):
            return
        fu.add(ob, .1)
        if kind != 'rtk' or k not in lost_b:
            truth[int(ob.t.time)] = x
            epochs.append(k)
    fu.close()
    if kind == 'rtk':
        fb.close()
    # ---- products
    al = [(ants[k][0], '', ants[k][2]) for k in ants if known]
    al.append(antenna(r, 'OTHER           NONE', '', 'G'))
    if kind == 'ppp':
        for q, p in s.satant.items():
            al.append(('BLOCK', fl.sid(q), {
                fl.sid(q)[0]+z.str()[1]: tuple(v) for z, v in p.off.items()
                if fl.sid(q)[0] == ro.LET[z.sys]}))
        ts = timeadd(t0, -3600-t0.time % 300)

        def prod(q, t):
            p, ck = w.state(q, t)
            h = .5
            v = (w.state(q, timeadd(t, h))[0] -
                 w.state(q, timeadd(t, -h))[0])/(2*h)
            return p, ck+2*p@v/sim.CL**2
        sats = w.sats()
        fl.sp3(files['orb.sp3'], prod, sats, ts, 27, 300)
        tc = timeadd(t0, -60-t0.time % 30)
        fl.clk(files['sat.clk'], lambda q, t: prod(q, t)[1], sats, tc,
               int(ne*step/30)+6, 30)
        fl.bia(files['osb.bia'], {(q, y+z): s.rnd_bias(q, z, y)/sim.CL*1e9
                                  for q in sats for z in codes[fl.sid(q)[0]]
                                  for y in 'CL'}, ts)
    fl.atx(files['x.atx'], al, r)
    kw = dict(pmode=pmode, armode=r.choice([0, 1, 3]) if 'R' not in systems
              else 0, thresar=3.0, parmode=r.choice([1, 2]))
    if kind == 'rtk':
        kw.update(trop_opt=0, iono_opt=0, phw_opt=0)
    elif kind == 'ppp':
        kw.update(ephopt=4, phw_opt=s.cfg['nav']['phw_opt'])
    elmin = r.choice([10, 8, 15])
    cfg = yaml_config(c, files['config.yml'], files['x.atx'], **kw)
    cfg['elmin'] = cfg['nav']['elmin'] = elmin
    # ---- processing, as in the tutorials
    tag = f"{kind} {systems} pmode {pmode} {codes} step {step} {kw}"
    rnx, nav = rnxdec(), Nav()
    nav.pmode = pmode
    nep = ne
    proc = process(nav, rnx, cfg, nep=nep, xyz_ref=rr)
    sig_t = {q: ASK[q][:nf] for q in systems}
    sigs, nav.nf = proc.init_sig(sig_t)
    c.eq(sorted(q.str() for q in sigs if ro.LET[q.sys] == systems[0]),
         sorted(y+z for y in 'CLS' for z in sig_t[systems[0]]), 'init-sig')
    c.eq(nav.nf, nf, 'init-nf')
    rnx.setSignals(sigs)
    nav = rnx.decode_nav(files['nav.rnx'], nav)
    c.eq(len(nav.eph), len(w.eph), 'ephemerides')
    c.eq(len(nav.geph), len(w.geph), 'glonass-ephemerides')
    c.close(nav.ion, np.array(ion), 1e-9, 'ion', rtol=1e-6)
    orb = bsx = None
    if kind == 'ppp':
        orb = peph()
        nav = orb.parse_sp3(files['orb.sp3'], nav)
        nav = rnx.decode_clk(files['sat.clk'], nav)
        bsx = biasdec()
        bsx.parse(files['osb.bia'])
    if not c.eq(rnx.decode_obsh(files['rover.obs']), 0, 'header'):
        return
    log = files['out.log']
    if kind == 'spp':
        eng = stdpos(nav, rnx.pos, log)
    elif kind == 'rtk':
        dec = rnxdec()
        dec.setSignals(proc.init_sig(sig_t)[0])
        dec.decode_obsh(files['base.obs'])
        dec.autoSubstituteSignals()
        nav.rb = list(dec.pos) if r.random() < .5 else dec.pos
        eng = quiet(rtkpos, nav, rnx.pos, log, cfg)
        nav.armode = kw['armode']
    else:
        eng = quiet(pppos, nav, rnx.pos, log, config=cfg)
    quiet(proc.prepare_signal, files['rover.obs'])
    if kind == 'rtk':
        atx = atxdec()
        atx.readpcv(files['x.atx'])
        nav.rcv_ant_b = searchpcv(atx.pcvr, dec.ant, dec.ts)
    c.close(nav.elmin, math.radians(elmin), 1e-12, 'elevation mask')
    c.eq(nav.rcv_ant is not None, known, 'antenna', tag)
    out = Log(c, log)
    errs, fixed, dops = [], [], []
    n = 0
    while n < nep:
        if kind == 'rtk':
            obs, obsb = sync_obs(rnx, dec)
            if obsb.t.time == 0:
                break
        else:
            obs, obsb = rnx.decode_obs(), None
        if obs.t.time == 0:
            break
        if n == 0:
            proc.init_time(obs.t)
            tf = proc.t0
            c.eq((tf.time % 30, tf.time <= t0.time < tf.time+30, tf.sec),
                 (0, True, 0), 'reference time')
        x = truth.get(int(obs.t.time))
        if not c.ok(x is not None, 'epoch', f"{tag} {obs.t.time}"):
            return
        if kind == 'rtk':
            quiet(eng.process, obs, obsb=obsb)
        elif kind == 'ppp':
            quiet(eng.process, obs, orb=orb, bsx=bsx)
        else:
            quiet(eng.process, obs, cs=None)
        quiet(proc.save_output, obs.t, n, eng if kind == 'ppp' else None)
        sol = (nav.xa if nav.smode == 4 else nav.x)[:3].copy()
        enu = sim.enu_axes(*sim.llh(rr)[:2])@(sol-rr)
        out.rows.append((obs.t, sol, enu, nav.smode))
        c.close(proc.enu[n], enu, 1e-6, 'enu', tag)
        c.close(proc.t[n]*86400, timediff(obs.t, tf), 1e-6, 'time', tag)
        c.eq(int(proc.smode[n]), nav.smode, 'mode', tag)
        if kind == 'ppp':
            z = (nav.xa if nav.smode == 4 else nav.x)[3 if not pmode else 6]
            c.close(proc.ztd[n, 0], z, 1e-12, 'ztd', tag)
        gd = 0.0
        if kind == 'ppp':
            gd = zdop([w.geom(q, obs.t, x, 1e-7)[2] for q in obs.sat],
                      [fl.sid(q)[0] for q in obs.sat],
                      sim.enu_axes(*sim.llh(x)[:2])[2], math.radians(elmin))
        dops.append(gd)
        errs.append(round(float(np.linalg.norm(sol-x)), 4))
        fixed.append(int(nav.smode == 4))
        n += 1
    c.eq(n, len(epochs), 'epochs', tag)
    inf = f"{tag} known {known} err {errs} fix {fixed}"
    dop = None
    if kind == 'spp':
        dop = eng.dop
    for k in range(n):
        if fixed[k]:
            c.ok(errs[k] < (.05 if kind == 'rtk' else max(.15, .1*dops[k])),
                 'fixed', f"{inf} dop {dops[k]:.2f}")
        if kind == 'spp' and dop is not None and dop[0] < 4:
            if k >= (12 if pmode else 5):
                c.ok(errs[k] < (3.0 if pmode else .35), 'position', inf)
        elif kind == 'rtk' and k >= 3:
            c.ok(errs[k] < 1.0, 'position', inf)
        elif kind == 'ppp' and k >= 6:
            a, b = (.8, .2) if pmode else (.3, .2) if k < 10 else (.2, .12)
            c.ok(errs[k] < a+b*errs[0], 'position', inf)
    if kind == 'rtk' and kw['armode']:
        c.ok(sum(fixed) >= n//2, 'never fixed', inf)
    if r.random() < .15:
        ttl = os.path.join(c.tmp, 'fig')
        ft = r.choice([1, 2])
        quiet(proc.plot, ttl, ft, dpi=40)
        c.ok(os.path.getsize(ttl+'.png') > 1000, 'figure', tag)
        import matplotlib.pyplot as plt
        plt.close('all')
    quiet(proc.close)
    c.ok(rnx.fobs.closed and nav.fout.closed, 'closed')
    av = {}
    for q in systems:
        a = [x+y for x, y in fu.cols[q]]
        av[LETNAME[q]] = sorted(a)
    se = {LETNAME[q]: sorted(x+y for y in codes[q] for x in 'CLS')
          for q in systems}
    out.check(files['rover.obs'], ants['rover'][0], rcv, t0, av, se,
              not known, tag)
    c.seen(kind, systems, pmode, known, codes == {
        q: ASK[q][:nf] for q in systems}, bool(sum(fixed)))
    c.sample(inf)
