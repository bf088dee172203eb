""" C17: integer ambiguity resolution (LAMBDA) """
from common import Check, snapshot
import math
import itertools
import numpy as np
import ref_ils
from cssrlib.mlambda import mlambda

chk = Check('C17', ['src/cssrlib/mlambda.py'],
            rule='float ambiguities of simulated double-difference GNSS '
            'models and random positive definite covariances, dimensions 1 '
            'to 16, large integer offsets, half-integer ties; oracle is an '
            'independent LLL/enumeration solver and brute force; distinct by '
            'dimension, mode and outcome')


def gnss_cov(c, ns):
    """ float ambiguity covariance of a short baseline """
    r, g = c.rng, c.np
    nf = r.choice([1, 1, 2])
    ns = max(ns//nf, 1)
    ne = r.choice([1, 2, 5, 20]) if nf == 1 else r.choice([1, 2])
    lam = [0.1903, 0.2442][:nf]
    sp, sc = r.choice([.15, .3, .6]), r.choice([.002, .003])
    m = ns+1
    az0, el0 = g.uniform(0, 6.28, m), np.arcsin(g.uniform(.2, 1, m))
    rate = g.normal(size=(m, 2))*1e-4*30
    N = np.zeros((3*ne+ns*nf,)*2)
    D = np.c_[np.ones((ns, 1)), -np.eye(ns)]
    W = np.linalg.inv(D@D.T)
    for k in range(ne):
        az, el = az0+rate[:, 0]*k, np.clip(el0+rate[:, 1]*k, .1, 1.57)
        e = np.c_[np.cos(el)*np.sin(az), np.cos(el)*np.cos(az), np.sin(el)]
        G = D@e
        for f in range(nf):
            A = np.zeros((ns, N.shape[0]))
            A[:, 3*k:3*k+3] = G
            N += A.T@W@A/sp**2
            A[:, 3*ne+ns*f:3*ne+ns*(f+1)] = lam[f]*np.eye(ns)
            N += A.T@W@A/sc**2
    for k in range(3*ne):
        N[k, k] += 1/30.0**2
    Q = np.linalg.inv(N)[3*ne:, 3*ne:]
    return (Q+Q.T)/2


def cov(c, n):
    r, g = c.rng, c.np
    if r.random() < .7:
        return gnss_cov(c, n)
    A = g.normal(size=(n, n))
    return A@A.T*r.choice([.01, .3, 2])+np.eye(n)*1e-3


def qn(Q, a, z):
    d = np.asarray(a)-np.asarray(z, float)
    return d@np.linalg.solve(Q, d)


def judge(c, a, Q, ref, tag):
    n = len(a)
    # loss of significance of large ambiguities (double precision)
    num = np.abs(a).max()*1e-12
    snap = snapshot([a, Q])
    z, s, nfix, Ps = mlambda(a, Q, parmode=1)
    c.ok(snapshot([a, Q]) == snap, 'mutation', 'inputs altered')
    c.eq(nfix, n, 'nfix')
    c.eq(z.shape, (n, 2), 'shape')
    c.close(z, np.round(z), 1e-6, tag+'.integer', 'not integer')
    for k in range(2):
        c.close(s[k], ref[k][0], 1e-6+num, f"{tag}.norm{k}", f"n {n}",
                rtol=1e-5+num)
        c.close(qn(Q, a, z[:, k]), s[k], 1e-5+num, tag+'.consistent',
                rtol=1e-4+num)
    if ref[1][0]-ref[0][0] > (1e-5+num)*(1+ref[0][0]):
        c.eq([int(round(x)) for x in z[:, 0]], list(ref[0][1]),
             tag+'.best', f"n {n}")
    c.ok(s[0] <= s[1], tag+'.order')
    # bootstrapped success rate never exceeds its ADOP bound
    adop = math.exp(np.linalg.slogdet(Q)[1]/2/n)
    ub = math.erf(0.5/adop/math.sqrt(2))**n
    c.ok(0 <= Ps <= ub*(1+1e-6)+1e-12, tag+'.Ps', f"{Ps} bound {ub}")
    return z, s, Ps


@chk.case(250, 12000, cpu=120, minseen=12)
def best(c):
    r = c.rng
    Q = cov(c, r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, 16]))
    n = len(Q)
    off = np.array([float(r.choice([0, r.randint(-9, 9),
                                    r.randint(-10**6, 10**6),
                                    r.randint(-3*10**8, 3*10**8)]))
                    for _ in range(n)])
    a = np.linalg.cholesky(Q)@c.np.normal(size=n)*r.choice([.5, 1, 1])+off
    if r.random() < .05:
        a = off.copy()      # float solution is an integer
    ref = ref_ils.ils(a, Q)
    judge(c, a, Q, ref, 'best')
    big = np.abs(off).max()
    c.seen(n, 'large' if big > 1e7 else 'mid' if big > 1e3 else 'small')
    c.sample(f"n {n} best norms {ref[0][0]:.3f} {ref[1][0]:.3f}")


@chk.case(80, 3000, minseen=3)
def brute(c):
    """ small dimensions against exhaustive search in a box """
    r, g = c.rng, c.np
    n = r.choice([1, 2, 2, 3])
    A = g.normal(size=(n, n))
    Q = A@A.T*r.choice([.05, .3, 1])+np.eye(n)*.02
    a = g.uniform(-5, 5, n)
    if r.random() < .2:
        a[0] = math.floor(a[0])+.5
    # box that certainly contains both solutions
    z0 = np.round(a)
    lim = max(qn(Q, a, z0+np.eye(n)[0]*s) for s in (-1, 0, 1))
    w = np.sqrt(np.diag(Q)*lim)+1
    rng = [range(math.floor(x-y), math.ceil(x+y)+1) for x, y in zip(a, w)]
    if np.prod([len(x) for x in rng]) > 60000:
        return
    Z = np.array(list(itertools.product(*rng)))
    d = a-Z
    q = np.einsum('ij,ij->i', d, np.linalg.solve(Q, d.T).T)
    o = np.argsort(q)[:2]
    judge(c, a, Q, [(q[k], [int(x) for x in Z[k]]) for k in o], 'brute')
    c.seen(n, len(Z) > 1000)


@chk.case(120, 5000, cpu=120, minseen=3)
def shift(c):
    """ adding integers to the float solution shifts the fixed one """
    r = c.rng
    Q = cov(c, r.choice([2, 4, 6, 10]))
    n = len(Q)
    a = np.linalg.cholesky(Q)@c.np.normal(size=n)
    k = np.array([float(r.randint(-2**20, 2**20)) for _ in range(n)])
    z, s, _, p = mlambda(a, Q)
    z2, s2, _, p2 = mlambda(a+k, Q)
    c.close(s2, s, 1e-5, 'shift.norm', rtol=1e-4)
    if s[1]-s[0] > 1e-3:
        c.close(z2[:, 0], z[:, 0]+k, 1e-6, 'shift.best')
    c.close(p2, p, 1e-9, 'shift.Ps')
    o = list(range(n))
    r.shuffle(o)
    z3, s3, _, _ = mlambda(a[o], Q[np.ix_(o, o)])
    c.close(s3, s, 1e-5, 'perm.norm', rtol=1e-4)
    if s[1]-s[0] > 1e-3:
        c.close(z3[:, 0], z[o, 0], 1e-6, 'perm.best')
    c.seen(n)


@chk.case(250, 10000, cpu=120, minseen=3)
def partial(c):
    """ partial ambiguity resolution """
    r = c.rng
    Q = cov(c, r.choice([2, 3, 4, 6, 8, 12]))
    n = len(Q)
    a = np.linalg.cholesky(Q)@c.np.normal(size=n)
    P0 = r.choice([.5, .9, .995, .999])
    z, s, nfix, Ps = mlambda(a, Q, parmode=2, P0=P0)
    z1, s1, _, Pf = mlambda(a, Q, parmode=1)
    if nfix == 0:
        c.ok(Pf < P0, 'par.none', f"success rate {Pf} with P0 {P0}")
        c.close(z, a, 1e-6*(1+np.abs(a).max()), 'par.float',
                'float solution is not kept')
        c.seen('none')
        return
    c.ok(Ps > P0, 'par.Ps', f"{Ps} {P0}")
    if Pf >= P0:
        c.eq(nfix, n, 'par.full', f"Ps {Pf} P0 {P0}")
    if nfix == n:
        c.close(s, s1, 1e-9, 'par.s', rtol=1e-9)
        c.close(z, z1, 1e-9, 'par.z')
        c.seen('full')
        return
    c.eq(nfix, n-1, 'par.n')
    for k in range(2):
        c.close(qn(Q, a, z[:, k]), s[k], 1e-5, 'par.norm', rtol=1e-4)
    c.ok(s[0] <= s[1], 'par.order')
    # a subspace fixed to integers is never farther than the full fix
    c.ok(s[0] <= s1[0]*(1+1e-6)+1e-9, 'par.closer', f"{s} {s1}")
    # n-1 independent integer combinations: the difference of the two
    # candidates and the direction left free span the non integer part
    c.ok(s[0] > -1e-12, 'par.pos')
    c.seen('part', n)
