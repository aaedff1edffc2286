"""Independent reference mathematics: nodes, Lagrange bases, differentiation, quadrature (mpmath, 40 digits)."""
import functools
import numpy as np
import mpmath as mpm
mpm.mp.dps = 40

@functools.lru_cache(None)
def nodes_mp(scheme, p, t0, t1):
    """p+1 nodes: zeros of the defining polynomials, refined to 40 digits."""
    def P(n, x):   # Legendre and derivative by recurrence
        a, b = mpm.mpf(1), x
        if n == 0: return a, mpm.mpf(0)
        for k in range(2, n + 1): a, b = b, ((2 * k - 1) * x * b - (k - 1) * a) / k
        d = n * (x * b - a) / (x * x - 1) if abs(x) != 1 else mpm.mpf(n * (n + 1)) / 2 * (1 if x > 0 else (-1) ** (n - 1))
        return b, d
    if p == 1: r = [mpm.mpf(-1), mpm.mpf(1)]
    elif scheme == "CGL": r = [-mpm.cos(mpm.pi * k / p) for k in range(p + 1)]
    else:
        if scheme == "LGL":      # zeros of P_p'
            f = lambda x: P(p, x)[1]
            n = p - 1
        elif scheme == "LGR":    # zeros of (P_{p-1}(x) - P_p(x)) / (1 - x): Radau points that include +1
            f = lambda x: (P(p - 1, x)[0] - P(p, x)[0]) / (1 - x)
            n = p - 1
        else: raise ValueError(scheme)
        # bracket sign changes on a fine grid, then bisection/secant
        M = 400 + 60 * p
        g = [-mpm.cos(mpm.pi * (k + mpm.mpf(1) / 3) / M) for k in range(M)]
        v = [f(x) for x in g]
        r = []
        for k in range(M - 1):
            if v[k] * v[k + 1] < 0: r.append(mpm.findroot(f, (g[k], g[k + 1]), solver="anderson", tol=1e-60, maxsteps=200, verify=False))
        assert len(r) == n, (scheme, p, len(r))
        r = [mpm.mpf(-1)] + r + [mpm.mpf(1)]
    t0, t1 = mpm.mpf(t0), mpm.mpf(t1)
    return tuple(t0 + (t1 - t0) * (x + 1) / 2 for x in r)

def nodes(scheme, p, t0=-1, t1=1): return np.array([float(x) for x in nodes_mp(scheme, p, t0, t1)])

def _basis(nd, j):
    """monomial coefficients (ascending) of Lagrange basis polynomial j"""
    c = [mpm.mpf(1)]
    for i, x in enumerate(nd):
        if i == j: continue
        d = nd[j] - x
        n = [mpm.mpf(0)] * (len(c) + 1)
        for k, a in enumerate(c):
            n[k + 1] += a / d; n[k] -= a * x / d
        c = n
    return c
@functools.lru_cache(None)
def bases(nd): return [_basis(nd, j) for j in range(len(nd))]
def _ev(c, x, order):
    for _ in range(order): c = [k * a for k, a in enumerate(c)][1:]
    s = mpm.mpf(0)
    for a in reversed(c): s = s * x + a
    return s
def _key(nd): return tuple(mpm.mpf(x) for x in nd)
def matrix(nd, at, order=0):
    """[basis_j^{(order)}(at_i)]"""
    B = bases(_key(nd))
    return np.array([[float(_ev(c, mpm.mpf(x), order)) for c in B] for x in at]).reshape(len(at), len(nd))
def integral(nd, a, b):
    B = bases(_key(nd))
    a, b = mpm.mpf(a), mpm.mpf(b)
    return np.array([float(sum(c * (b ** (k + 1) - a ** (k + 1)) / (k + 1) for k, c in enumerate(p))) for p in B])
def D(scheme, p, t0, t1, order=1): return matrix(nodes_mp(scheme, p, t0, t1), nodes_mp(scheme, p, t0, t1), order)
def W(scheme, p, t0, t1): return integral(nodes_mp(scheme, p, t0, t1), t0, t1)
