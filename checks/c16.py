""" C16: dilution of precision and Kalman measurement update """
from common import Check, snapshot
import math
import numpy as np
from cssrlib.gnss import dops, dops_h, kfupdate, Nav
from cssrlib.pppssr import pppos

chk = Check('C16', ['src/cssrlib/gnss.py', 'src/cssrlib/pppssr.py'],
            rule='random constellations and random linear-Gaussian systems '
            '(inactive states, correlated noise, any condition); covariance '
            'of an independent least-squares / information-form solution; '
            'distinct by size and regime')


@chk.case(600, 20000, minseen=6)
def dop(c):
    r = c.rng
    n = r.randint(0, 14)
    az = np.array([r.uniform(-math.pi, 2*math.pi) for _ in range(n)])
    el = np.array([r.choice([math.asin(r.uniform(0, 1)), math.pi/2])
                   for _ in range(n)])
    elmin = r.choice([0, 0, math.radians(10), math.radians(25)])
    use = [k for k in range(n) if el[k] >= elmin]
    snap = snapshot([az, el])
    if len(use) < 4:
        c.ok(dops(az, el, elmin) is None, 'few', f"{n} satellites")
        c.seen('few', elmin > 0)
        return
    H = np.array([[math.cos(el[k])*math.sin(az[k]),
                   math.cos(el[k])*math.cos(az[k]), math.sin(el[k]), 1]
                  for k in use])
    s = np.linalg.svd(H, compute_uv=False)
    if s[-1] < 1e-3:
        return
    # covariance from the pseudo-inverse (QR free form)
    Pi = np.linalg.pinv(H)
    q = (Pi**2).sum(1)
    ref = [math.sqrt(q.sum()), math.sqrt(q[:3].sum()),
           math.sqrt(q[0]+q[1]), math.sqrt(q[2])]
    d = dops(az, el, elmin)
    c.close(d, ref, 1e-6, 'dops', f"{az} {el} {elmin}", rtol=1e-6)
    c.close(dops_h(H), ref, 1e-6, 'dops_h', rtol=1e-6)
    c.close(d[1]**2, d[2]**2+d[3]**2, 1e-6, 'pdop', rtol=1e-6)
    c.ok(d[0] >= d[1]-1e-9, 'gdop')
    # an additional satellite never degrades the geometry
    k = r.randrange(n)
    az2, el2 = np.append(az, az[k]+1), np.append(el, max(el[k], elmin))
    d2 = dops(az2, el2, elmin)
    c.ok(np.all(d2 <= d*(1+1e-6)), 'monotone', f"{d} {d2}")
    # rotation about the vertical
    d3 = dops(az+1.2345, el, elmin)
    c.close(d3, d, 1e-5, 'rotation', rtol=1e-5)
    c.ok(snapshot([az, el]) == snap, 'mutation')
    c.seen(min(len(use), 9), elmin > 0)
    c.sample(f"{len(use)} satellites DOP {d}")


@chk.case(500, 15000, minseen=8)
def update(c):
    """ measurement update = weighted least squares of prior and data """
    r, g = c.rng, c.np
    n, m = r.randint(1, 12), r.randint(1, 14)
    A = g.normal(size=(n, n))*np.exp(g.normal(size=n)*r.choice([0, 1]))
    P = A@A.T+np.eye(n)*1e-2
    act = np.ones(n, bool)
    if r.random() < .5:
        act = g.random(n) < .7
        if not act.any():
            act[0] = True
        P[~act, :] = 0
        P[:, ~act] = 0
    H = g.normal(size=(m, n))
    B = g.normal(size=(m, m))
    R = B@B.T+np.eye(m)*r.choice([1e-2, 1])
    if r.random() < .4:
        R = np.diag(np.diag(R))
    x0 = g.normal(size=n)*10
    v = g.normal(size=m)*r.choice([1, 100])
    # information form on the active states
    ia = np.where(act)[0]
    Ha = H[:, ia]
    Ri = np.linalg.inv(R)
    I = np.linalg.inv(P[np.ix_(ia, ia)])+Ha.T@Ri@Ha
    Pr = np.zeros((n, n))
    Pr[np.ix_(ia, ia)] = np.linalg.inv(I)
    xr = x0.copy()
    xr[ia] += np.linalg.inv(I)@Ha.T@Ri@v
    Sr = H@P@H.T+R
    sc = np.abs(xr).max()+1
    ps = np.abs(P).max()

    def judge(name, x, Pn, S):
        c.close(x, xr, 1e-7*sc, name+'.x', f"n {n} m {m}")
        c.close(Pn, Pr, 1e-8*ps, name+'.P')
        c.close(S, Sr, 1e-9*np.abs(Sr).max(), name+'.S')
        ev = np.linalg.eigvalsh((Pn+Pn.T)/2)
        c.ok(ev.min() > -1e-9*ps, name+'.psd', f"{ev.min()}")
        c.close(Pn, Pn.T, 1e-9*ps, name+'.sym')
        d = np.diag(P)-np.diag(Pn)
        c.ok(d.min() > -1e-9*ps, name+'.decrease')
        c.close(x[~act], x0[~act], 1e-12,
                name+'.inactive')
    # the unit of a state does not matter
    D = 10**g.uniform(-6, 3, n) if r.random() < .4 else np.ones(n)
    P_, H_, x_ = P*np.outer(D, D), H/D, x0*D
    snap = snapshot([H_, v, R])
    x, Pn, S = kfupdate(x_.copy(), P_.copy(), H_, v, R)
    judge('gnss', x/D, Pn/np.outer(D, D), S)
    pos = pppos(Nav(), np.array([-3962108.7, 3381309.5, 3668678.6]))
    x, Pn, S = pos.kfupdate(x_.copy(), P_.copy(), H_, v, R)
    judge('ppp', x/D, Pn/np.outer(D, D), S)
    H = H_
    c.ok(snapshot([H, v, R]) == snap, 'mutation', 'inputs altered')
    c.seen(n > m, act.all(), min(n, 4))


@chk.case(100, 3000, minseen=4)
def sequence(c):
    """ sequential processing equals batch processing, information is never
    lost """
    r, g = c.rng, c.np
    n = r.randint(2, 6)
    P0 = np.diag(np.exp(g.uniform(-2, 6, size=n)))
    xt = g.normal(size=n)*np.sqrt(np.diag(P0))
    x, P = np.zeros(n), P0.copy()
    N, b = np.linalg.inv(P0), np.zeros(n)
    pos = pppos(Nav(), np.array([-3962108.7, 3381309.5, 3668678.6]))
    x2, P2 = x.copy(), P.copy()
    ne = r.randint(2, 12)
    for _ in range(ne):
        m = r.randint(1, 5)
        H = g.normal(size=(m, n))
        R = np.diag(np.exp(g.uniform(-3, 1, size=m)))
        z = H@xt+g.normal(size=m)*np.sqrt(np.diag(R))
        x, P, _ = kfupdate(x, P, H, z-H@x, R)
        x2, P2, _ = pos.kfupdate(x2, P2, H, z-H@x2, R)
        N = N+H.T@np.linalg.inv(R)@H
        b = b+H.T@np.linalg.inv(R)@z
    Pb = np.linalg.inv(N)
    sc = np.abs(Pb).max()+1e-6*np.abs(P0).max()
    c.close(P, Pb, 1e-6*sc, 'batch.P')
    c.close(P2, Pb, 1e-6*sc, 'batch.P2')
    c.close(x, Pb@b, 1e-5*(1+np.abs(xt).max()), 'batch.x')
    c.close(x2, Pb@b, 1e-5*(1+np.abs(xt).max()), 'batch.x2')
    c.seen(n, ne > 6)
