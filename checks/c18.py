""" C18: standalone positioning """
from common import Check, snapshot
import math
import numpy as np
import sim
import ref_orbit as ro
from cssrlib.gnss import timeadd, uGNSS, dops, Obs, gtime_t
from cssrlib.pntpos import stdpos

chk = Check('C18', ['src/cssrlib/pntpos.py', 'src/cssrlib/ephemeris.py',
                    'src/cssrlib/pppssr.py'],
            rule='simulated multi-GNSS pseudoranges and phases (exact light '
            'time, published atmosphere models), receiver clock jumps, '
            'outages, unhealthy satellites, static and moving receivers; '
            'distinct by constellation, combination, scenario')


def place(c):
    r = c.rng
    lat = math.asin(r.uniform(-.95, .95))
    return sim.xyz(lat, r.uniform(-math.pi, math.pi), r.uniform(0, 3000))


CODES2 = {'G': ['5Q', '2W', '1C'], 'E': ['5Q', '7Q', '1C'], 'J': ['5Q', '2L'],
          'R': ['2C'], 'C': ['2I', '5P', '6I']}
CODES1 = {'G': ['1C'], 'E': ['1C'], 'J': ['1C'], 'R': ['1C'], 'C': ['1P']}


@chk.case(24, 800, cpu=200, minseen=8)
def single(c):
    """ single frequency, broadcast ionosphere, clock jumps """
    r = c.rng
    systems = r.choice(['G', 'GE', 'GEJ', 'GR', 'EC', 'GEC', 'ER'])
    t0 = ro.gps(r.randint(2000, 2400), r.uniform(10, 604000))
    t0 = gtime_t(t0.time, 0.0)
    w = sim.World(c, t0, systems)
    codes = {s: CODES1[s] for s in systems}
    if r.random() < .4:     # other signals than the reference
        codes = {s: [r.choice(CODES2[s])] for s in systems}
        for e in w.eph.values():
            e.tgd = 0.0
    nav = w.nav(nf=1)
    nav.pmode = r.choice([0, 0, 1])
    rr = place(c)
    vel = np.zeros(3)
    if nav.pmode:
        vel = c.np.normal(size=3)*r.choice([0, 1, 5])
    # biases of the prior position
    p0 = rr+c.np.normal(size=3)*r.choice([1, 30, 300])
    rx = sim.Rx(c, w, codes, mask=5)
    std = stdpos(nav, p0.copy())
    nav.elmin = math.radians(r.choice([10, 10, 15, 5]))
    dt = r.choice([1.0, 5.0, 30.0]) if not nav.pmode else 1.0
    rec = []
    kf = std.kfupdate

    def watch(x, P, H, v, R):
        rec[:] = [np.diag(R).copy(), H.copy()]
        return kf(x, P, H, v, R)
    std.kfupdate = watch
    clk = r.choice([0.0, r.uniform(-3e-7, 3e-7), r.uniform(-1e-3, 1e-3)])
    bad = None
    ne = 8 if nav.pmode == 0 else 14
    # the state of the first epoch
    nav.t = gtime_t(t0.time, 0.0)
    jumps = r.sample(range(3, ne), 2) if r.random() < .7 else []
    errs, cerr = [], []
    hidden = ()
    for k in range(ne):
        t = timeadd(t0, k*dt)
        if k in jumps:
            clk += r.choice([-1e-3, 1e-3, 1e-6, -2e-6])
        o, info = rx.observe(t, rr+vel*k*dt, clk, sim.trop_mops,
                             sim.iono_klob(nav.ion), tgd=True, drop=hidden)
        if k == 2:
            # a satellite turns unhealthy with a gross error
            up = [s for s in o.sat if s in w.eph]
            if r.random() < .5 and len(o.sat) > 7:
                bad = r.choice(up)
                w.eph[bad].svh = r.choice([1, 63])
        if bad is not None and bad in o.sat:
            o.P[list(o.sat).index(bad), 0] += 5e4
        s0 = snapshot([o.P, o.L, o.sat, o.lli])
        if len(o.sat)-(bad is not None) < 7:
            return
        std.process(o)
        c.ok(snapshot([o.P, o.L, o.sat, o.lli]) == s0, 'observations altered')
        errs.append(np.linalg.norm(nav.x[:3]-rr-vel*k*dt))
        cerr.append(nav.x[3 if nav.pmode == 0 else 6]-sim.CL*clk)
        used = [s for s in o.sat if s != bad and
                info[s]['el'] >= nav.elmin+1e-4]
        amb = [s for s in o.sat if abs(info[s]['el']-nav.elmin) < 1e-4]
        if not amb:
            c.eq(sorted(int(x) for x in nav.sat), sorted(used), 'satellites',
                 f"epoch {k}")
            d = dops(np.array([info[s]['az'] for s in used]),
                     np.array([info[s]['el'] for s in used]))
            c.close(std.dop, d, 1e-3 if k > 2 else .1, 'dop', rtol=1e-3)
            if k > 2 and rec:
                v = [.5**2+(.25/math.sin(info[s]['el']))**2 for s in used]
                c.close(np.sort(rec[0]), np.sort(v), 1e-3, 'weights',
                        rtol=1e-2)
    if std.dop is None or std.dop[0] > 4:
        return
    lim = .35 if nav.pmode == 0 else 3.0
    k1 = 5 if nav.pmode == 0 else 12
    for k in range(k1, ne):
        c.ok(errs[k] < lim, 'position', f"{systems} pmode {nav.pmode} epoch "
             f"{k} jumps {jumps} clk {clk} err {errs} gdop {std.dop}")
        c.ok(abs(cerr[k]) < lim, 'clock', f"{systems} pmode {nav.pmode} "
             f"epoch {k} jumps {jumps} {cerr}")
    c.seen(systems, nav.pmode, bool(jumps), bad is not None)
    c.sample(f"{systems} errors [m] {[round(x, 4) for x in errs]}")


@chk.case(16, 400, cpu=200, minseen=4)
def ionfree(c):
    """ ionosphere-free combination removes any first order ionosphere, with
    and without carrier smoothing """
    r = c.rng
    rmode = r.choice([1, 2])
    systems = 'G' if rmode == 1 else r.choice(['G', 'GE', 'E'])
    codes = {'G': ['1C', '2W' if rmode == 1 else '5Q'], 'E': ['1C', '5Q']}
    t0 = gtime_t(ro.gps(r.randint(2000, 2400), r.uniform(10, 604000)).time, 0)
    w = sim.World(c, t0, systems)
    nav = w.nav(nf=2)
    nav.pmode = 0
    rr = place(c)
    rx = sim.Rx(c, w, {s: codes[s] for s in systems})
    smooth = r.random() < .6
    std = stdpos(nav, rr+c.np.normal(size=3)*r.choice([1, 100]),
                 csmooth=smooth, rmode=rmode)
    nav.t = gtime_t(t0.time, 0.0)
    delay = {s: r.uniform(0, 80) for s in w.sats()}
    rate = {s: r.uniform(-.01, .01) for s in w.sats()}
    clk = r.uniform(-1e-6, 1e-6)
    slip = r.random() < .5
    ne = 12
    errs = []
    for k in range(ne):
        t = timeadd(t0, float(k))
        o, info = rx.observe(
            t, rr, clk, sim.trop_mops,
            lambda t_, p, a, e, s: (delay[s]+rate[s]*k)/math.sin(max(e, .1)))
        if len(o.sat) < 7:
            return
        if slip and k == 6:
            s = r.choice(list(o.sat))
            for f in range(2):
                rx.N[s, f] += r.choice([-300, 7, 1, 10**5])
            o, info = rx.observe(
                t, rr, clk, sim.trop_mops, lambda t_, p, a, e, s:
                (delay[s]+rate[s]*k)/math.sin(max(e, .1)))
            o.lli[list(o.sat).index(s), :] = 1
        std.process(o)
        errs.append(np.linalg.norm(nav.x[:3]-rr))
    if std.dop is None or std.dop[0] > 4:
        return
    for k in range(9, ne):
        c.ok(errs[k] < .2, 'ionfree.position', f"{systems} rmode {rmode} "
             f"smooth {smooth} slip {slip} err {errs}")
    c.seen('if', systems, rmode, smooth)


@chk.case(300, 10000, minseen=4)
def hatch(c):
    """ carrier smoothing: average over the arc, restart after slips,
    outages and invalid data, satellites independent """
    r, g = c.rng, c.np
    nav = sim.Nav(nf=1)
    nav.pmode = 0
    std = stdpos(nav, np.array([-3962108.7, 3381309.5, 3668678.6]),
                 csmooth=True)
    t0 = gtime_t(1700000000, 0.0)
    sats = r.sample(range(1, 200), 3)
    arcs = {s: [] for s in sats}
    last = {s: None for s in sats}
    N = {s: r.uniform(-1e6, 1e6) for s in sats}
    dt = r.choice([.1, .2, .5, 1.0])
    t = t0
    for k in range(r.choice([20, 60, 95])):
        t = timeadd(t, dt if r.random() < .95 else r.choice([3*dt+1, 30.0]))
        o = Obs()
        o.t = t
        for s in sats:
            if r.random() < .05:
                continue
            rng = 2.2e7+500*ro.tsub(t, t0)
            P, L = rng+g.normal()*.5, rng+N[s]+g.normal()*.002
            if r.random() < .03:        # slip
                d = r.choice([-1, 1])*r.uniform(30, 1e5)
                N[s] += d
                L += d
                arcs[s] = []
            if last[s] is not None and ro.tsub(t, last[s]) > 1.0:
                arcs[s] = []
            if r.random() < .04:
                v = std.csmooth(o, s, 0.0, L) if r.random() < .5 else \
                    std.csmooth(o, s, P, 0.0)
                c.ok(v in (0.0, P), 'invalid', f"{v}")
                arcs[s] = []
                last[s] = None
                continue
            v = std.csmooth(o, s, P, L)
            arcs[s].append(P-L)
            last[s] = t
            c.close(v, L+np.mean(arcs[s]), 1e-5, 'mean', f"arc "
                    f"{len(arcs[s])} dt {dt}")
    c.seen(dt, len(arcs[sats[0]])//20)


@chk.case(40, 1000, minseen=2)
def few(c):
    """ too few satellites: no solution, the state is not altered """
    r = c.rng
    t0 = gtime_t(ro.gps(2200, r.uniform(10, 604000)).time, 0)
    w = sim.World(c, t0, 'G')
    nav = w.nav(nf=1)
    nav.pmode = 0
    rr = place(c)
    rx = sim.Rx(c, w, {'G': ['1C']}, mask=10.5)
    std = stdpos(nav, rr.copy())
    nav.t = gtime_t(t0.time, 0.0)
    o, info = rx.observe(t0, rr, 0.0, sim.trop_mops, sim.iono_klob(nav.ion))
    k = r.choice([0, 1, 2, 3])
    o.sat, o.P, o.L = o.sat[:k], o.P[:k], o.L[:k]
    o.S, o.lli = o.S[:k], o.lli[:k]
    x = nav.x.copy()
    std.process(o)
    c.close(nav.x, x, 0, 'few', f"{k} satellites")
    c.eq(nav.smode, 0, 'mode without solution', f"{k} satellites")
    c.seen('few', k)


@chk.case(12, 300, cpu=200, minseen=4)
def outage(c):
    """ moving receiver with too few satellites for some time """
    r = c.rng
    systems = r.choice(['G', 'GE', 'GEJ', 'EC'])
    t0 = gtime_t(ro.gps(r.randint(2000, 2400), r.uniform(10, 604000)).time, 0)
    w = sim.World(c, t0, systems)
    nav = w.nav(nf=1)
    nav.pmode = r.choice([1, 1, 0])
    rr = place(c)
    v = c.np.normal(size=3)
    up = rr/np.linalg.norm(rr)
    v -= up*(up@v)
    vel = v/np.linalg.norm(v)*r.choice([5, 15, 30]) if nav.pmode else v*0
    rx = sim.Rx(c, w, {s: CODES1[s] for s in systems}, mask=5)
    std = stdpos(nav, rr+c.np.normal(size=3)*10)
    nav.elmin = math.radians(10)
    nav.t = gtime_t(t0.time, 0.0)
    n1 = 20
    n2 = n1+r.choice([3, 10, 20])
    kind = r.choice(['snr', 'health', 'absent', 'empty'])
    left = r.choice([0, 1, 2, 3])
    errs = []
    for k in range(n2+8):
        t = timeadd(t0, float(k))
        o, info = rx.observe(t, rr+vel*k, 1e-5, sim.trop_mops,
                             sim.iono_klob(nav.ion), tgd=True)
        if sum(info[s]['el'] > nav.elmin+.02 for s in o.sat) < 7:
            return
        svh = {s: w.eph[s].svh for s in w.eph}
        if n1 <= k < n2:
            keep = [s for s in o.sat if info[s]['el'] > nav.elmin][:left]
            idx = [i for i, s in enumerate(o.sat) if s in keep]
            if kind == 'snr':
                for i, s in enumerate(o.sat):
                    if s not in keep:
                        o.S[i] = 20.0
            elif kind == 'health':
                for s in o.sat:
                    if s not in keep and s in w.eph:
                        w.eph[s].svh = 1
            else:
                if kind == 'empty':
                    idx = []
                for x in ('sat', 'P', 'L', 'S', 'lli'):
                    setattr(o, x, getattr(o, x)[idx])
        std.process(o)
        for s in svh:
            w.eph[s].svh = svh[s]
        if n1 <= k < n2:
            c.eq(nav.smode, 0, 'mode without solution', kind)
            continue
        errs.append(np.linalg.norm(nav.x[:3]-rr-vel*k))
    if std.dop is None or std.dop[0] > 4:
        return
    e = errs[n1-1]
    c.ok(all(x < 4 for x in errs[n1+2:]), 'position after an outage',
         f"{systems} pmode {nav.pmode} {kind} {n2-n1} s {left} left, "
         f"before {e}, after {errs[n1:]}")
    c.seen(systems, nav.pmode, kind, n2-n1)


@chk.case(200, 5000, minseen=4)
def predict(c):
    """ time update of position, velocity, clock and drift """
    r = c.rng
    nav = sim.Nav(nf=1)
    nav.pmode = r.choice([0, 1])
    std = stdpos(nav, c.np.normal(size=3)*4e6)
    n = nav.nx
    x = c.np.normal(size=n)*100
    A = c.np.normal(size=(n, n))
    P = A@A.T
    nav.x, nav.P = x.copy(), P.copy()
    nav.t = gtime_t(1700000000, 0.0)
    dt = r.choice([.1, .2, 1.0, 5.0, 30.0])
    o = Obs()
    o.t = timeadd(nav.t, dt)
    o.sat = np.array([1, 2, 3])
    std.udstate(o)
    F = np.eye(n)
    if nav.pmode:
        F[:3, 3:6] = np.eye(3)*dt
        F[6, 7] = dt
        q = [.01**2]*3+[1.0]*3+[.1**2, .01**2]
    else:
        q = [1.0]*3+[.1**2]
    c.close(nav.x, F@x, 1e-8, 'state', f"pmode {nav.pmode} dt {dt}")
    c.close(nav.P, F@P@F.T+np.diag(q)*dt, 1e-6, 'covariance',
            f"pmode {nav.pmode} dt {dt}", rtol=1e-9)
    c.seen(nav.pmode, dt)
