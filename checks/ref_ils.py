""" independent integer least squares: LLL reduction of the Cholesky basis
(Lenstra-Lenstra-Lovasz) and depth-first enumeration """
import math
import numpy as np


def lll(B, delta=0.99):
    """ reduce the columns of B, return the reduced basis and integer T """
    B = B.copy()
    n = B.shape[1]
    T = [[int(i == j) for j in range(n)] for i in range(n)]   # columns

    def gso():
        Bs = np.zeros_like(B)
        mu = np.zeros((n, n))
        for i in range(n):
            v = B[:, i].copy()
            for j in range(i):
                mu[i, j] = B[:, i]@Bs[:, j]/(Bs[:, j]@Bs[:, j])
                v -= mu[i, j]*Bs[:, j]
            Bs[:, i] = v
        return Bs, mu
    Bs, mu = gso()
    k, it = 1, 0
    while k < n:
        it += 1
        if it > 4000:
            break
        for j in range(k-1, -1, -1):
            q = round(mu[k, j])
            if q:
                B[:, k] -= q*B[:, j]
                for r in range(n):
                    T[r][k] -= q*T[r][j]
                mu[k, :j] -= q*mu[j, :j]
                mu[k, j] -= q
        if Bs[:, k]@Bs[:, k] >= (delta-mu[k, k-1]**2)*(
                Bs[:, k-1]@Bs[:, k-1]):
            k += 1
        else:
            B[:, [k-1, k]] = B[:, [k, k-1]]
            for r in range(n):
                T[r][k-1], T[r][k] = T[r][k], T[r][k-1]
            Bs, mu = gso()
            k = max(k-1, 1)
    return B, T


def ils(a, Q, nc=2):
    """ nc best integer vectors of min (a-z)' Q^-1 (a-z) """
    n = len(a)
    z0 = [int(round(x)) for x in a]
    f = np.array([x-y for x, y in zip(a, z0)])
    W = np.linalg.cholesky(np.linalg.inv(Q)).T    # |W (f-z)|^2
    B, T = lll(W)
    q, R = np.linalg.qr(B)
    y = q.T@(W@f)
    best = []      # (norm, u)
    u = [0]*n

    def rec(k, d):
        s = y[k]-sum(R[k, j]*u[j] for j in range(k+1, n))
        c = s/R[k, k]
        r = R[k, k]**2
        m = round(c)
        step = 1 if c >= m else -1
        i = 0
        while True:
            off = ((i+1)//2)*(step if i % 2 else -step)
            v = m+off
            e = d+r*(c-v)**2
            lim = best[-1][0] if len(best) >= nc else math.inf
            if e >= lim:
                break
            u[k] = v
            if k == 0:
                best.append((e, list(u)))
                best.sort(key=lambda x: x[0])
                del best[nc:]
            else:
                rec(k-1, e)
            i += 1
        u[k] = 0
    rec(n-1, 0.0)
    out = []
    for e, v in best:
        z = [z0[r]+sum(T[r][j]*v[j] for j in range(n)) for r in range(n)]
        out.append((e, z))
    return out
