""" C41: figures and two-line element orbits """
import math
import os
import datetime as dt
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt        # noqa: E402
import matplotlib.colors as mc         # noqa: E402
import sim                             # noqa: E402
from common import Check               # noqa: E402
from cssrlib import plot as pl         # noqa: E402
from cssrlib import tlesim             # noqa: E402
from cssrlib.gnss import uGNSS, sat2id, sat2prn   # noqa: E402

chk = Check('C41', ['src/cssrlib/plot.py', 'src/cssrlib/tlesim.py'],
            rule='drawn artists of every figure compared with the data given '
            'to it, and visibility from two-line elements with an independent '
            'orbit; distinct by figure, options, modes and constellation')

MODE = {0: 'none', 1: 'single', 2: 'dgps', 4: 'fix', 5: 'float'}


def rows(*a):
    """ multiset of rows without the ones that cannot be drawn """
    q = np.column_stack([np.asarray(x, dtype=float) for x in a])
    q = q[~np.any(np.isnan(q), axis=1)]
    return sorted(map(tuple, np.round(q, 9)+0.0))


def lines(ax):
    return [(x.get_label(), x.get_color(), x.get_xdata(), x.get_ydata())
            for x in ax.get_lines()]


@chk.case(30, 1500, cpu=120, minseen=15)
def enu(c):
    """ position figure """
    r, g = c.rng, c.np
    plt.close('all')
    n = r.choice([1, 2, 10, 300])
    ft = r.choice([1, 1, 2])
    t = g.uniform(0, 1)+np.arange(n)/86400*r.choice([1, 30])
    p = g.normal(size=(n, 3))*r.choice([.1, 3])
    mode = None
    if r.random() < .85:
        ms = r.sample(sorted(MODE), r.randint(1, 5))
        mode = np.array([r.choice(ms) for _ in range(n)])
    ztd = g.uniform(.05, .3, n) if ft == 1 and r.random() < .5 else None
    if r.random() < .3:
        for k in range(n):
            if r.random() < .1:
                p[k] = np.nan
    lim, lv = r.choice([.3, 1.0, 5.0]), r.choice([None, 2.0, 7.0])
    kw = dict(ylim=lim, figtype=ft)
    if lv is not None:
        kw['ylim_v'] = lv
    t0, p0 = t.copy(), p.copy()
    pl.plot_enu(t, p, mode, ztd, **kw)
    c.ok(np.array_equal(t, t0) and np.array_equal(p, p0, equal_nan=True),
         'data altered')
    ax = plt.gcf().axes
    tag = f"{ft} {n} {None if mode is None else sorted(set(mode))} {ztd is None}"
    if ft == 1:
        pan = [(t, p[:, k]) for k in range(3)]
        if ztd is not None:
            pan.append((t, ztd*100))
        c.eq(len(ax), len(pan), 'panels', tag)
    else:
        pan = [(p[:, 0], p[:, 1])]
    used = {}
    for k, (x, y) in enumerate(pan):
        got = lines(ax[k])
        if mode is None:
            a = np.concatenate([q[2] for q in got])
            b = np.concatenate([q[3] for q in got])
            c.eq(rows(a, b), rows(x, y), 'points', f"{tag} panel {k}")
        else:
            a = np.concatenate([q[2] for q in got]) if got else []
            b = np.concatenate([q[3] for q in got]) if got else []
            l_ = np.concatenate([[hash(q[0]) % 10**6]*len(q[2])
                                 for q in got]) if got else []
            m = [hash(MODE[v]) % 10**6 for v in mode]
            c.eq(rows(a, b, l_), rows(x, y, m), 'points and modes',
                 f"{tag} panel {k}")
            for q in got:
                used.setdefault(q[0], set()).add(mc.to_hex(q[1]))
        if ft == 1:
            e = (0, 40) if k == 3 else (-(lv or lim), lv or lim) if k == 2 \
                else (-lim, lim)
            c.close(ax[k].get_ylim(), e, 1e-9, 'limits', f"{tag} panel {k}")
        else:
            c.close(ax[k].get_xlim()+ax[k].get_ylim(), (-lim, lim)*2, 1e-9,
                    'limits', tag)
        if ft == 1:
            w = ['east', 'north', 'up', 'ztd'][k]
            c.ok(w in ax[k].get_ylabel().lower(), 'label', tag)
    for k, v in used.items():
        c.eq(len(v), 1, 'one color per mode', k)
    if {'fix', 'float'} <= set(used):
        c.ok(used['fix'] != used['float'], 'color of fix and float')
    if mode is not None:
        g_ = ax[-1].get_legend()
        if g_ is not None:
            h = [x.get_text() for x in g_.get_texts()]
            c.ok({MODE[v] for v in mode if not np.all(
                np.isnan(p[mode == v]))} <= set(h), 'legend', tag)
    plt.close('all')
    c.seen(ft, mode is None, ztd is None, len(used), lv)


@chk.case(30, 1500, cpu=120, minseen=10)
def sky(c):
    """ elevation plot, sky plot """
    r, g = c.rng, c.np
    plt.close('all')
    plt.show = lambda *a, **k: None
    n = r.choice([1, 2, 20])
    every = list(range(1, uGNSS.MAXSAT+1))
    lst = None
    if r.random() < .6:
        lst = r.sample(every, r.randint(1, 40))
        if r.random() < .3:
            lst[-1] = uGNSS.MAXSAT
            lst = sorted(set(lst))
    sats = every if lst is None else lst
    el = np.full((n, len(sats)), np.nan)
    az = np.full((n, len(sats)), np.nan)
    for k in range(len(sats)):
        if lst is None and r.random() < .8 and k < len(sats)-1:
            continue
        y = g.random(n) < r.choice([.1, .7, 1.0])
        el[y, k] = g.uniform(-.2, math.pi/2, y.sum())
        az[y, k] = g.uniform(0, 2*math.pi, y.sum())
    mask = r.choice([0, math.radians(10), math.radians(30)])
    kw = {}
    if lst is not None:
        kw['satlist'] = lst
    if mask:
        kw['elmask'] = mask
    t = np.sort(g.uniform(0, 86400, n))
    nsat = pl.plot_elv(t, el, **kw)
    exp = np.zeros((n, uGNSS.GNSSMAX), dtype=int)
    for k, s in enumerate(sats):
        y, _ = sat2prn(s)
        for i in range(n):
            exp[i, y] += el[i, k] > mask
    c.eq(nsat.tolist(), exp.tolist(), 'number of satellites')
    got = lines(plt.gca())
    ks = [k for k in range(len(sats)) if not np.all(np.isnan(el[:, k]))]
    if c.eq(len(got), len(ks), 'curves', f"{len(sats)}"):
        for q, k in zip(got, ks):
            c.eq(rows(q[2], q[3]), rows(t/60, el[:, k]*180/math.pi),
                 'elevation', sat2id(sats[k]))
    col = {}
    for q, k in zip(got, ks):
        col.setdefault(sat2prn(sats[k])[0], set()).add(mc.to_hex(q[1]))
    c.ok(all(len(v) == 1 for v in col.values()), 'color per system')
    plt.close('all')
    ns = pl.skyplot(az, el, **kw)
    ax = plt.gcf().axes[0]
    ks = [k for k in range(len(sats)) if np.any(el[:, k] > mask)]
    c.eq(ns, len(ks), 'satellites shown')
    d = ax.collections
    tx = [x for x in ax.texts]
    ang = ax.transAxes
    if c.eq((len(d), len(tx)), (len(ks), len(ks)), 'markers'):
        for a, b, k in zip(d, tx, ks):
            y = el[:, k] > mask
            q = np.asarray(a.get_offsets())
            c.eq(rows(q[:, 0], q[:, 1]), rows(
                az[y, k], 90-el[y, k]*180/math.pi), 'sky', sat2id(sats[k]))
            c.eq(b.get_text(), sat2id(sats[k]), 'name')
            c.ok(tuple(np.round(b.get_position(), 9)) in rows(
                q[:, 0], q[:, 1]), 'name at the track')
    # north is up, east to the right, zenith in the middle
    def at(p, z):
        return ang.inverted().transform(ax.transData.transform(
            (math.radians(p), z)))
    c.close(at(0, 90), (.5, 1), 1e-6, 'north')
    c.close(at(90, 90), (1, .5), 1e-6, 'east')
    c.close(at(0, 0), (.5, .5), 1e-6, 'zenith')
    lab = {round(math.degrees(x)): y.get_text() for x, y in zip(
        ax.get_xticks(), ax.get_xticklabels())}
    c.ok(all(lab.get(x) == y for x, y in (
        (0, 'N'), (90, 'E'), (180, 'S'), (270, 'W'))), 'directions', str(lab))
    plt.close('all')
    c.seen(lst is None, mask, n, len(ks) > 3)


@chk.case(20, 800, cpu=120, minseen=2)
def area(c):
    """ stacked numbers, areas of warnings """
    r, g = c.rng, c.np
    plt.close('all')
    plt.show = lambda *a, **k: None
    n = r.choice([2, 30])
    t = np.sort(g.uniform(0, 86400, n))
    ns = g.integers(0, 12, (n, uGNSS.GNSSMAX))
    ns[:, [uGNSS.SBS, uGNSS.IRN]] = 0
    pl.plot_nsat(t, ns)
    ax = plt.gca()
    order = {'GPS': 0, 'Galileo': 1, 'QZSS': 2, 'BeiDou': 3, 'GLONASS': 4}
    lo = np.zeros(n)
    seen = []
    for a in ax.collections:
        v = a.get_paths()[0].vertices
        y = ns[:, order[a.get_label()]]
        seen.append(a.get_label())
        for i in range(n):
            q = v[np.abs(v[:, 0]-t[i]/3600) < 1e-9][:, 1]
            c.close((min(q), max(q)), (lo[i], lo[i]+y[i]), 1e-9, 'stack',
                    a.get_label())
        lo = lo+y
    c.eq(sorted(seen), sorted(order), 'systems')
    plt.close('all')

    class P():
        latr, lonr = r.uniform(-65, 65), r.uniform(-170, 170)
        lats, lons = r.uniform(.1, 5), r.uniform(.1, 5)
        rng = r.choice([1.0, 30.0, 200.0])
    fig, ax = plt.subplots()
    pl.draw_rect(ax, ax.transData, P, 'r')
    v = ax.patches[0].get_path().vertices
    c.close(v[:, 0].min(), P.lonr-P.lons, 1e-9, 'rect')
    c.close(v[:, 0].max(), P.lonr+P.lons, 1e-9, 'rect')
    c.close(v[:, 1].min(), P.latr-P.lats, 1e-9, 'rect')
    c.close(v[:, 1].max(), P.latr+P.lats, 1e-9, 'rect')
    cor = {(round(x, 6), round(y, 6)) for x, y in v}
    c.eq(len(cor), 4, 'rect')
    x, y = v[:, 0], v[:, 1]
    s = .5*abs(float(np.sum(x[:-1]*y[1:]-x[1:]*y[:-1])))
    c.close(s, 4*P.lats*P.lons, 1e-6, 'rect is not twisted')
    nc = r.choice([10, 33])
    pl.draw_circle(ax, ax.transData, P, 'b', nc)
    v = ax.patches[1].get_path().vertices
    c.ok(len({(round(a, 9), round(b, 9)) for a, b in v}) >= nc-1, 'circle')
    la, lo = math.radians(P.latr), math.radians(P.lonr)
    az = []
    for x, y in v:
        x, y = math.radians(x), math.radians(y)
        d = 2*math.asin(math.sqrt(math.sin((y-la)/2)**2+math.cos(la) *
                                  math.cos(y)*math.sin((x-lo)/2)**2))*6371.0
        c.ok(abs(d/P.rng-1) < .07, 'radius', lambda: f"{P.rng} {d} {P.latr}")
        az.append(math.atan2((x-lo)*math.cos(la), y-la) % (2*math.pi))
    az = sorted(set(round(a, 6) for a in az))
    gap = [b-a for a, b in zip(az, az[1:]+[az[0]+2*math.pi])]
    c.ok(max(gap) < 2*math.pi/(nc-1)*1.3, 'round')
    plt.close('all')
    c.seen(n, P.rng)


def tle_line(k, sno, ep, q):
    """ two-line elements """
    d0 = dt.datetime(ep.year, 1, 1)
    day = (ep-d0).total_seconds()/86400+1
    a = f"1 {sno:05d}U 11036A   {ep.year % 100:02d}{day:012.8f}  .00000000" \
        "  00000-0  00000-0 0  999"
    b = f"2 {sno:05d} {q['i']:8.4f} {q['O']:8.4f} {round(q['e']*1e7):07d} " \
        f"{q['w']:8.4f} {q['M']:8.4f} {q['n']:11.8f} 1000"

    def ck(s):
        return s+str(sum(int(x) if x.isdigit() else x == '-' for x in s) % 10)
    return ck(a), ck(b)


def gmst(t):
    """ Greenwich sidereal angle """
    d = (t-dt.datetime(2000, 1, 1, 12)).total_seconds()/86400
    return math.radians((280.46061837+360.98564736629*d) % 360)


def place(q, ep, t):
    """ mean motion with the secular effect of the oblateness """
    x = (t-ep).total_seconds()
    n = q['n']*2*math.pi/86400
    a = (398600.8/n**2)**(1/3)
    i, e = math.radians(q['i']), q['e']
    k = 1.5*1.0826e-3*(6378.137/a)**2/(1-e*e)**2*n
    O = math.radians(q['O'])-k*math.cos(i)*x
    w = math.radians(q['w'])+k*(2-2.5*math.sin(i)**2)*x
    M = math.radians(q['M'])+n*x
    E = M
    for _ in range(30):
        E = M+e*math.sin(E)
    f = math.atan2(math.sqrt(1-e*e)*math.sin(E), math.cos(E)-e)
    r = a*(1-e*math.cos(E))
    u = f+w
    p = np.array([math.cos(u)*math.cos(O)-math.sin(u)*math.cos(i)*math.sin(O),
                  math.cos(u)*math.sin(O)+math.sin(u)*math.cos(i)*math.cos(O),
                  math.sin(u)*math.sin(i)])*r*1e3
    g = gmst(t)
    return np.array([p[0]*math.cos(g)+p[1]*math.sin(g),
                     -p[0]*math.sin(g)+p[1]*math.cos(g), p[2]])


@chk.case(30, 1500, cpu=120, minseen=8)
def tle(c):
    """ visibility from two-line elements """
    import ephem
    r = c.rng
    ep = dt.datetime(r.randint(2010, 2035), r.randint(1, 12), r.randint(1, 28),
                     r.randrange(24), r.randrange(60), r.randrange(60))
    n = r.randint(1, 12)
    q, names, cat = [], [], {}
    for k in range(n):
        m = r.choice('GGEECRJ')
        nm = m+f"{r.randint(1, 24 if m != 'J' else 4):02d}"
        if m == 'J':
            nm = f"J{r.randint(1, 7):02d}"
        if nm in names:
            continue
        geo = m == 'J' or m == 'C' and r.random() < .5
        q.append(dict(i=r.uniform(1, 45) if geo else r.uniform(53, 65),
                      O=r.uniform(0, 360), e=r.uniform(0, .02),
                      w=r.uniform(0, 360), M=r.uniform(0, 360),
                      n=1.0027 if geo else dict(
                          G=2.0056, E=1.7047, C=1.8623, R=2.1310)[m]))
        names.append(nm)
    nos = r.sample(range(20000, 60000), len(names)+3)
    f1, f2 = os.path.join(c.tmp, 'name.txt'), os.path.join(c.tmp, 'tle.txt')
    with open(f1, 'w') as f:
        f.write('# satellites\n')
        for k in r.sample(range(len(names)), len(names)):
            f.write(f"{names[k]} {nos[k]:05d}U{' comment' * (k % 2)}\n")
            if r.random() < .2:
                f.write("#X99 00000U\n\n")
    blk = []
    for k in range(len(names)):
        blk.append((k, f"SAT {nos[k]}", *tle_line(k, nos[k], ep, q[k])))
    for k in range(r.randint(0, 3)):
        blk.append((-1, 'OTHER', *tle_line(k, nos[len(names)+k], ep, dict(
            i=50, O=1, e=.001, w=1, M=1, n=2.0))))
    r.shuffle(blk)
    with open(f2, 'w') as f:
        for b in blk:
            f.write('\n'.join(b[1:])+'\n')
    tab = tlesim.loadname(f1)
    c.eq(dict(tab), {f"{nos[k]:05d}U": names[k] for k in range(len(names))},
         'names')
    sv = tlesim.loadTLE(f2, tab)
    od = [b[0] for b in blk if b[0] >= 0]
    c.eq([x.name for x in sv], [names[k] for k in od], 'satellites')
    dates = [ep+dt.timedelta(seconds=r.uniform(-40000, 40000))
             for _ in range(r.randint(1, 12))]
    obs = None
    if r.random() < .8:
        obs = ephem.Observer()
        la, lo, h = r.uniform(-80, 80), r.uniform(-180, 180), r.uniform(0, 3e3)
        obs.lat, obs.lon, obs.elevation = math.radians(la), math.radians(lo), h
        obs.pressure = 0
    a = tlesim.tleorb(sv, dates, obs)
    c.eq([x.shape for x in a], [(len(dates), len(od))]*4+[(len(od),)],
         'shape')
    c.eq([sat2id(x) for x in a[4]], [names[k] for k in od], 'numbers')
    for j, k in enumerate(od):
        for i, t in enumerate(dates):
            x = place(q[k], ep, t)
            p = sim.llh(x)
            # geodetic or geocentric latitude
            d = [abs(math.degrees(a[0][i, j])-y) for y in (
                math.degrees(p[0]), math.degrees(math.asin(
                    x[2]/np.linalg.norm(x))))]
            c.ok(min(d) < .5, 'latitude', lambda: f"{names[k]} {t} {d}")
            d = math.degrees(a[1][i, j]-p[1])
            d = (d+180) % 360-180
            c.ok(abs(d)*math.cos(p[0]) < .5, 'longitude',
                 lambda: f"{names[k]} {t} {d}")
            if obs is None:
                c.eq((a[2][i, j], a[3][i, j]), (0.0, 0.0), 'no observer')
                continue
            s = sim.xyz(math.radians(la), math.radians(lo), h)
            e = np.array(sim.enu_axes(math.radians(la), math.radians(lo))) \
                @ (x-s)
            y = math.atan2(e[2], math.hypot(e[0], e[1]))
            z = math.atan2(e[0], e[1])
            c.ok(abs(math.degrees(a[3][i, j]-y)) < .7, 'elevation',
                 lambda: f"{names[k]} {t} {math.degrees(a[3][i, j]-y)}")
            d = (math.degrees(a[2][i, j]-z)+180) % 360-180
            c.ok(abs(d)*math.cos(y) < .7, 'azimuth',
                 lambda: f"{names[k]} {t} {d}")
            c.seen(names[k][0], y > 0)
    c.seen(len(od), obs is None)


@chk.case(4, 60, cpu=120)
def saved(c):
    """ figure of a processed session """
    from cssrlib.utils import process
    r, g = c.rng, c.np
    plt.close('all')
    p = object.__new__(process)
    n = r.choice([1, 20])
    p.t = g.uniform(0, 1)+np.arange(n)/86400
    p.enu, p.ztd = g.normal(size=(n, 3)), g.uniform(.1, .3, n)
    p.smode = np.array([r.choice(sorted(MODE)) for _ in range(n)])
    ft, fm = r.choice([1, 2]), r.choice(['png', 'svg'])
    fn = os.path.join(c.tmp, 'fig.x')
    p.plot(ttl=fn, fig_type=ft, ylim=2, ylim_v=3, gfmt=fm, dpi=40)
    d = open(fn+'.'+fm, 'rb').read()
    c.ok(d[:4] == b'\x89PNG' if fm == 'png' else b'<svg' in d[:2000],
         'file', fm)
    ax = plt.gcf().axes
    c.eq(len(ax), 4 if ft == 1 else 1, 'panels')
    pan = [(p.t, p.enu[:, 0]), (p.t, p.enu[:, 1]), (p.t, p.enu[:, 2]),
           (p.t, p.ztd*100)] if ft == 1 else [(p.enu[:, 0], p.enu[:, 1])]
    for a, q in zip(ax, pan):
        x = lines(a)
        c.eq(rows(np.concatenate([y[2] for y in x]),
                  np.concatenate([y[3] for y in x])), rows(*q), 'points')
    c.close(ax[0].get_ylim(), (-2, 2), 1e-9, 'limits')
    if ft == 1:
        c.close(ax[2].get_ylim(), (-3, 3), 1e-9, 'limits')
    plt.close('all')
    c.seen(ft, fm)
