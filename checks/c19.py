""" C19: real-time kinematic positioning """
from common import Check, snapshot
import copy
import math
import numpy as np
import sim
import ref_orbit as ro
from cssrlib.gnss import timeadd, gtime_t, default_config, sat2id
from cssrlib.rtk import rtkpos

chk = Check('C19', ['src/cssrlib/rtk.py', 'src/cssrlib/pppssr.py',
                    'src/cssrlib/mlambda.py'],
            rule='simulated base/rover pairs (exact light time, common '
            'atmosphere), cycle slips of either receiver with and without '
            'loss-of-lock flags, outages, rising satellites, static and '
            'moving rovers, all state configurations; distinct by '
            'constellation, configuration and fault')

CODES = {'G': ['1C', '2W'], 'E': ['1C', '5Q'], 'J': ['1C', '2L'],
         'C': ['1P', '5P'], 'R': ['1C', '2C']}
PRE = 'rtk'


def quiet(f, *a, **k):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def config(trop, iono, armode=1, **k):
    cfg = copy.deepcopy(default_config)
    cfg['nav'].update(trop_opt=trop, iono_opt=iono, phw_opt=0, armode=armode)
    cfg['nav'].update(k)
    return cfg


@chk.case(64, 2000, cpu=400, minseen=20)
def rtk(c):
    r, g = c.rng, c.np
    systems = r.choice(['GE', 'GEJ', 'GC', 'GEC', 'GER', 'EC', 'GR'])
    t0 = gtime_t(ro.gps(r.randint(2000, 2400), r.uniform(10, 604000)).time, 0)
    w = sim.World(c, t0, systems)
    nav = w.nav(nf=2)
    nav.pmode = r.choice([0, 0, 1])
    lat, lon = math.asin(r.uniform(-.9, .9)), r.uniform(-3.1, 3.1)
    rb = sim.xyz(lat, lon, r.uniform(0, 500))
    enu = g.normal(size=3)*r.choice([5, 500, 2000])*np.array([1, 1, .05])
    rr = rb+sim.enu_axes(lat, lon).T@enu
    vel = np.zeros(3)
    if nav.pmode:
        vel = g.normal(size=3)*r.choice([0, 1, 4])*np.array([1, 1, .3])
    trop, iono = r.choice([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1)])
    glo = 'R' in systems
    armode = 0 if glo else r.choice([1, 1, 3])
    noise = r.choice([0.0, 0.3])
    cfg = config(trop, iono, armode)
    nav.monlevel = 0
    pos0 = rr+g.normal(size=3)*r.choice([.1, 3, 10])
    eng = quiet(rtkpos, nav, pos0, None, cfg)
    eng.nav.parmode = 1 if r.random() < .7 else 2
    nav.trop_opt, nav.iono_opt = trop, iono
    nav.armode = armode
    # the position of the base is an array or a list
    nav.rb = np.array(rb) if r.random() < .7 else list(rb)
    rb0 = snapshot(np.array(nav.rb))
    nav.thresar = 3.0
    codes = {s: CODES[s] for s in systems}
    rxu, rxb = sim.Rx(c, w, codes), sim.Rx(c, w, codes)
    scen = r.choice(['none', 'lli_u', 'lli_b', 'gf_u', 'gf_b', 'drop_u',
                     'drop_b', 'unhealthy', 'few_u', 'few_b', 'no_u',
                     'no_b'])
    dt = r.choice([1.0, 1.0, 10.0]) if not nav.pmode else 1.0
    ne = 14 if (trop, iono) == (0, 0) else 10
    nav.t = gtime_t(t0.time, 0.0)
    ev = ne//2
    vic, other = None, None
    err, mode, fix = [], [], 0
    dgnss = {}
    for k in range(ne):
        t = timeadd(t0, k*dt)
        xu = rr+vel*k*dt
        du = db = ()
        if k == ev and vic is not None:
            for s in vic:
                # a slip that changes the geometry free combination by > 15 cm
                rx = rxu if scen.endswith('_u') else rxb
                if scen[:3] in ('lli', 'gf_'):
                    rx.N[s, 0] += r.choice([-50, 3, 9, 1000])
                    if r.random() < .5 and scen[:3] == 'lli':
                        rx.N[s, 1] += r.choice([-7, 3, 100])
                elif scen[:4] == 'drop':
                    if rx is rxu:
                        du = vic
                    else:
                        db = vic
                    for f in (0, 1):
                        rx.N[s, f] += r.randint(-10**5, 10**5)
                elif scen[:3] == 'few':
                    # slips while too few satellites are received
                    rx.N[s, 0] += r.choice([-50, 3, 9, 1000])
                    if r.random() < .5:
                        rx.N[s, 1] += r.choice([-7, 3, 100])
                    left = r.randint(len(vic), 5)
                    gone = [q for q in r.sample(com, len(com))
                            if q not in vic][:max(0, len(com)-left)]
                    gone += [q for q in w.sats() if q not in com]
                    if rx is rxu:
                        du = gone
                    else:
                        db = gone
                elif scen == 'no_u':
                    du = w.sats()
                elif scen == 'no_b':
                    db = w.sats()
                elif scen == 'unhealthy':
                    (w.eph[s] if s in w.eph else w.geph[s]).svh = 1
        kw = dict(trop=sim.trop_saast, iono=None, sp=noise, sl=noise/100)
        if iono:
            kw['iono'] = lambda t_, p, a, e, s: 3/math.sin(max(e, .2))
        ob, ib = rxb.observe(t, rb, 1e-7, drop=db, **kw)
        ou, iu = rxu.observe(t, xu, 2e-4, drop=du, **kw)
        if k == 1:
            com = [s for s in ou.sat if s in ob.sat and
                   iu[s]['el'] > math.radians(20)]
            if len(com) < 8:
                return
            vic = r.sample(com, r.choice([1, 1, 2]))
        if k == ev and scen[:3] in ('lli', 'few'):
            o = ou if scen[-1] == 'u' else ob
            for s in vic:
                o.lli[list(o.sat).index(s), :] = 1
        s0 = snapshot([ou.P, ou.L, ou.sat, ob.P, ob.L, ob.sat])
        quiet(eng.process, ou, obsb=ob)
        c.ok(snapshot([ou.P, ou.L, ou.sat, ob.P, ob.L, ob.sat]) == s0,
             'observations altered')
        c.ok(snapshot(np.array(nav.rb)) == rb0, 'base moved',
             lambda: f"{np.array(nav.rb)-rb}")
        if k == ev and scen[:2] in ('fe', 'no') and scen != 'none':
            c.ok(nav.smode != 4, 'fixed without satellites')
        x = nav.xa[:3] if nav.smode == 4 else nav.x[:3]
        e = np.linalg.norm(x-xu)
        err.append(round(float(e), 4))
        mode.append(nav.smode)
        if scen == 'unhealthy' and k >= ev:
            c.ok(not any(s in nav.sat for s in vic), 'unhealthy used')
        if nav.smode == 4:
            fix += 1
            c.ok(e < (.05 if noise == 0 else .8), 'fixed', f"{systems} pmode {nav.pmode} trop "
                 f"{trop} iono {iono} {scen} parmode {nav.parmode} noise "
                 f"{noise} epoch {k} err {err} mode {mode}")
        c.ok(np.all(np.linalg.eigvalsh(nav.P[:6, :6]) > -1e-6), 'psd')
    info = f"{systems} pmode {nav.pmode} trop {trop} iono {iono} {scen} " \
        f"noise {noise} err {err} mode {mode} arm {armode}"
    lim = 1.0+8*noise
    for k in range(3, ne):
        c.ok(err[k] < lim or k == ev and scen == 'no_u', 'float', info)
    if armode and noise == 0.0 and (trop, iono) == (0, 0):
        c.ok(fix >= ne//2, 'never fixed', info)
    c.seen(systems, nav.pmode, trop, iono, scen)
    c.sample(info)
