"""K01-K05: nodes, differentiation, quadrature and interpolation matrices, and the time grid."""
import numpy as np, itertools
from fractions import Fraction
from lib import symcore as sc, ref
from lib import poly as P
from lib.symcore import ca, mp, z3, sxof, flat, INF
from lib.runner import Check
from props import nlp

def C(**k): return k
class settings(nlp.settings):
    def __init__(self, cfg): self.c = {"tau": -1, "method": "symbolic", **cfg}

# ------------------------------------------------------------------ K01
def defining(scheme, p):
    """Integer/rational coefficients (ascending) of a polynomial whose zeros on [-1, 1] are the interior nodes."""
    F = Fraction
    def add(a, b, s=F(1)):
        n = max(len(a), len(b)); a = a + [F(0)] * (n - len(a)); b = b + [F(0)] * (n - len(b))
        return [x + s * y for x, y in zip(a, b)]
    def leg(n):
        a, b = [F(1)], [F(0), F(1)]
        if n == 0: return a
        for k in range(2, n + 1): a, b = b, [x / k for x in add([F(0)] + [(2 * k - 1) * c for c in b], a, F(-(k - 1)))]
        return b
    def der(a): return [k * c for k, c in enumerate(a)][1:]
    if scheme == "LGL": return der(leg(p))
    if scheme == "LGR":       # (P_{p-1} - P_p) / (1 - x): flipped Radau
        a = add(leg(p - 1), leg(p), F(-1))
        q, c = [F(0)] * (len(a) - 1), F(0)
        for k in range(len(a) - 1): c = c + a[k]; q[k] = c      # division by (1 - x), ascending
        return q
    if scheme == "CGL":       # U_{p-1}
        a, b = [F(1)], [F(0), F(2)]
        if p - 1 == 0: return a
        for _ in range(p - 2): a, b = b, add([F(0)] + [2 * c for c in b], a, F(-1))
        return b
    if scheme == "CGL0": raise ValueError

def h_K01(ctx, cfg):
    """For all interval ends: nodes are affine images of the standard ones; the solver certifies those as the zeros."""
    sch, p = cfg["scheme"], cfg["p"]
    with settings(cfg), sc.patched(ctx):
        cr = mp.CollocationRoots(sch)
        taus = list(np.ravel(cr._taus_fn(p)))
        t0, t1 = float(cfg.get("tau", -1)), 1.0
        ctx.check("count", len(taus) == p + 1, "%d nodes for degree %d" % (len(taus), p))
        if len(taus) != p + 1: return
        ctx.close("first node", taus[0], t0, 1e-15); ctx.close("last node", taus[-1], t1, 1e-15)
        for k in range(p): ctx.check("increasing", bool(taus[k] < taus[k + 1]), "node %d" % k)
        r = [(float(v) - t0) / (t1 - t0) * 2 - 1 for v in taus]
        # any interval
        lo = ctx.real("tmin", -5, 5); w = ctx.real("width", 0.1, 10)
        fn = {"LGR": mp.CollocationRoots.roots_legendre_gauss_radau, "LGL": mp.CollocationRoots.roots_legendre_gauss_lobatto, "CGL": mp.CollocationRoots.roots_chebyshev_gauss_lobatto}[sch]
        got = flat(fn(lo, lo + w)(p))
        ctx.check("count on any interval", len(got) == p + 1)
        if len(got) == p + 1:
            ctx.close_many([("node %d on [tmin, tmin+width]" % k, got[k], lo + w * ((r[k] + 1) / 2)) for k in range(p + 1)], 1e-12)
        if p == 1: return
        co = defining(sch, p)
        eps = 1e-9
        if not ctx.sym:
            rr = np.array([float(v) for v in ref.nodes(sch, p)])
            ctx.close("zeros of the defining polynomial", np.array(r), rr, eps)
            return
        x = z3.Real("x")
        den = 1
        for c in co: den = den * c.denominator // _gcd(den, c.denominator)
        ico = [int(c * den) for c in co]
        def ev(v):
            q = Fraction(0)
            for c in reversed(ico): q = q * v + c
            return q
        q = z3.RealVal(ico[-1])
        for c in reversed(ico[:-1]): q = q * x + c
        s = z3.SolverFor("QF_NRA"); s.set("timeout", ctx.timeout)
        def ask(cond, want, lab):
            res, m = ctx.query(*cond, solver=s, kind="assert")
            ctx.ncheck += 1; ctx.stats.asserts += 1
            if res == z3.unknown: ctx.incon.append("unknown: " + lab)
            elif res != want: ctx.fail(lab, "x = %s" % (m[x] if m is not None else "none"), {})
        # brackets of width < 1e-9 around the interior nodes, with short dyadic ends
        K = 2 ** 31
        br = [(Fraction(round(v * K) - 1, K), Fraction(round(v * K) + 1, K)) for v in r[1:-1]]
        for k, (a, b) in enumerate(br):
            # q changes sign in the bracket: a zero lies within 1e-9 of the node
            ask([q * (1 if ev(a) > 0 else -1) <= 0, x == sc._q(a)], z3.unsat, "node %d is not a zero of the defining polynomial" % (k + 1))
            ask([q * (1 if ev(a) > 0 else -1) >= 0, x == sc._q(b)], z3.unsat, "node %d is not a zero of the defining polynomial" % (k + 1))
        ends = [Fraction(-1)] + [e for ab in br for e in ab] + [Fraction(1)]
        for k in range(0, len(ends), 2):
            a, b = ends[k], ends[k + 1]
            if a >= b: continue
            ask([x >= sc._q(a), x <= sc._q(b), q * (1 if ev((a + b) / 2) > 0 else -1) <= 0], z3.unsat, "zero of the defining polynomial between nodes %d and %d" % (k // 2, k // 2 + 1))

from math import gcd as _gcd
# ------------------------------------------------------------------ polynomials with symbolic coefficients
class Piecewise:
    """Continuous piecewise polynomial of the segment degrees with symbolic coefficients."""
    def __init__(self, ctx, cfg, orders, t0, t1, custom=None):
        self.t0, self.t1, self.orders = t0, t1, orders
        self.c = []
        v0 = ctx.real("c0_0", -1, 1)
        for s, p in enumerate(orders):
            c = [v0] + [ctx.real("c%d_%d" % (s, k), -1, 1) for k in range(1, p + 1)]
            self.c.append(c)
            v0 = self.ev(s, t1)
    def ev(self, s, x, order=0):
        c = self.c[s]
        for _ in range(order): c = [k * c[k] for k in range(1, len(c))]
        if isinstance(x, sc.Sym): y = (x - self.t0) / (self.t1 - self.t0)
        else: y = (float(x) - self.t0) / (self.t1 - self.t0)
        r = 0.0
        for a in reversed(c): r = r * y + a
        return r / (self.t1 - self.t0) ** order
    def integral(self, s, a, b):
        f = lambda y: sum((c * (_pow(y, k + 1) / float(k + 1)) for k, c in enumerate(self.c[s])), 0.0)
        L = self.t1 - self.t0
        return (f((b - self.t0) / L) - f((a - self.t0) / L)) * L
    def nodal(self, scheme):
        v = [self.c[0][0]]
        for s, p in enumerate(self.orders): v += [self.ev(s, x) for x in ref.nodes(scheme, p, self.t0, self.t1)[1:]]
        return v
def _pow(y, n):
    r = y
    for _ in range(n - 1): r = r * y
    return r

def mat(A):
    """matrix returned by the code -> 2-D object array"""
    if isinstance(A, (ca.DM, ca.SX)): return np.array(flat(A), dtype=object).reshape(A.shape)
    A = np.asarray(A)
    return A.reshape(A.shape) if A.ndim == 2 else A.reshape(-1, 1)

def apply(A, v):
    r = []
    for row in A:
        t = 0.0
        for a, x in zip(row, v):
            if isinstance(a, sc.NUM) and float(a) == 0: continue
            t = x * a + t if isinstance(x, sc.Sym) else a * x + t
        r.append(t)
    return r

def points(ctx, cfg, orders, t0, t1):
    """evaluation points per segment: symbolic reals in the interval, or fixed ones"""
    n = cfg["pts"]
    out = []
    for s in range(len(orders)):
        k = n[s % len(n)]
        v = [ctx.real("tau%d_%d" % (s, i), t0, t1) for i in range(k)]
        out.append(np.array(v, dtype=object if ctx.sym else float))
    return out

def coll(cfg):
    o = list(cfg["orders"])
    c = mp.Collocation(o, cfg["scheme"]) if not cfg.get("late") else mp.Collocation([cfg["late"]], cfg["scheme"])
    if cfg.get("seen"):                  # the same object was asked about other meshes and points before
        t0 = float(cfg.get("tau", -1))
        for oo in (o[::-1] + [o[0], 2], [o[-1]], o):
            n = cfg["pts"] if oo is o and cfg.get("pts") else [1 + s % 3 for s in range(len(oo))]
            tt = [np.array([t0 + (1 - t0) * (0.2 + 0.1 * j + 0.05 * s) for j in range(n[s])]) for s in range(len(oo))]
            c.get_composite_interpolation_matrix(tt, oo)
            for d in (1, 2):
                c.get_composite_interpolation_Dmatrix_at(tt, poly_orders=oo, order=d)
                c.get_composite_differentiation_matrix(oo, order=d)
            c.get_composite_quadrature_weights(oo)
            c.get_composite_quadrature_weights(oo, tau0=t0 + 0.25, tau1=0.5)
    return c, o

def shape(ctx, A, n, m, what):
    ok = tuple(A.shape) == (n, m)
    ctx.check("shape of " + what, ok, "%s instead of %s" % (A.shape, (n, m)))
    return ok

def h_K02(ctx, cfg):
    t0, t1 = cfg.get("tau", -1), 1
    tol = cfg.get("tol", 1e-6)
    with settings(cfg), sc.patched(ctx, True, dm_zeros=bool(cfg.get("pts"))):
        c, o = coll(cfg)
        pw = Piecewise(ctx, cfg, o, t0, t1)
        v = pw.nodal(cfg["scheme"])
        st = [sum(o[:s]) for s in range(len(o))]
        for order in cfg.get("der", (1, 2)):
            items = []
            if cfg.get("pts"):
                taus = points(ctx, cfg, o, t0, t1)
                A = mat(c.get_composite_interpolation_Dmatrix_at(taus, poly_orders=o if cfg.get("late") else None, order=order))
                if not shape(ctx, A, sum(len(x) for x in taus), sum(o) + 1, "derivative matrix at points"): continue
                r = apply(A, v); k = 0
                for s in range(len(o)):
                    for x in taus[s]:
                        items.append(("derivative %d at point %d of segment %d" % (order, k, s), r[k], pw.ev(s, x, order))); k += 1
            else:
                A = mat(c.get_composite_differentiation_matrix(o if cfg.get("late") else None, order=order))
                if not shape(ctx, A, sum(o) + 1, sum(o) + 1, "differentiation matrix"): continue
                r = apply(A, v)
                nd = [ref.nodes(cfg["scheme"], p, t0, t1) for p in o]
                for s, p in enumerate(o):
                    for j in range(0 if s == 0 else 1, p + 1):
                        items.append(("derivative %d at node %d of segment %d" % (order, j, s), r[st[s] + j], pw.ev(s, nd[s][j], order)))
                # each degree's own matrix, nodes and requested points
                for p in sorted(set(o)):
                    s = o.index(p)
                    r = apply(mat(c.get_diff_matrix(p, order=order)), v[st[s]: st[s] + p + 1])
                    for j in range(min(len(r), p + 1)): items.append(("degree-%d matrix, derivative %d, node %d" % (p, order, j), r[j], pw.ev(s, nd[s][j], order)))
                    ctx.check("rows", len(r) == p + 1)
            ctx.close_many(items, tol * (1 if order == 1 else 10))

def h_K03(ctx, cfg):
    """cfg: deg = list of polynomial degrees integrated exactly per segment"""
    t0, t1 = cfg.get("tau", -1), 1
    tol = cfg.get("tol", 1e-4)
    with settings(cfg), sc.patched(ctx, True, dm_zeros=cfg.get("iv") == "sym"):
        c, o = coll(cfg)
        kw, (a, b) = {}, (float(t0), float(t1))
        if cfg.get("iv") == "sym":
            a, b = ctx.real("a", t0, t1), ctx.real("b", t0, t1); kw = dict(tau0=a, tau1=b)
        elif cfg.get("iv"):
            a, b = cfg["iv"]; kw = dict(tau0=a, tau1=b)
        exact = {"LGR": lambda p: max(p, 2 * p - 2), "LGL": lambda p: max(p, 2 * p - 1), "CGL": lambda p: p if p % 2 else p + 1}[cfg["scheme"]] if not kw else (lambda p: p)
        degs = [exact(p) for p in o]
        pw = Piecewise(ctx, cfg, degs, t0, t1)
        items = []
        nd = [ref.nodes(cfg["scheme"], p, t0, t1) for p in o]
        v = [pw.c[0][0]]
        for s in range(len(o)): v += [pw.ev(s, x) for x in nd[s][1:]]
        st = [sum(o[:s]) for s in range(len(o))]
        W = mat(c.get_composite_quadrature_weights(o if cfg.get("late") else None, **kw))
        ctx.check("shape of weights", sorted(W.shape) == sorted((1, sum(o) + 1)), str(W.shape))
        W = W.reshape(1, -1)
        want = 0.0
        for s in range(len(o)): want = want + pw.integral(s, a, b)
        items.append(("composite quadrature", apply(W, v)[0], want))
        for p in sorted(set(o)):
            s = o.index(p)
            w = mat(c.get_quadrature_weights(p, **kw)).reshape(1, -1)
            ctx.check("length of weights", w.shape[1] == p + 1)
            items.append(("degree-%d quadrature" % p, apply(w, v[st[s]: st[s] + p + 1])[0], pw.integral(s, a, b)))
        ctx.close_many(items, tol)

def h_K04(ctx, cfg):
    t0, t1 = cfg.get("tau", -1), 1
    tol = cfg.get("tol", 1e-6)
    with settings(cfg), sc.patched(ctx, True, dm_zeros=True):
        c, o = coll(cfg)
        pw = Piecewise(ctx, cfg, o, t0, t1)
        v = pw.nodal(cfg["scheme"])
        taus = points(ctx, cfg, o, t0, t1)
        nd = [ref.nodes(cfg["scheme"], p, t0, t1) for p in o]
        if cfg.get("nodes"): taus = nd
        A = mat(c.get_composite_interpolation_matrix(taus, o if cfg.get("late") else None))
        if not shape(ctx, A, sum(len(x) for x in taus), sum(o) + 1, "interpolation matrix"): return
        items, k = [], 0
        r, one = apply(A, v), apply(A, [1.0] * len(v))
        for s in range(len(o)):
            for x in taus[s]:
                items.append(("value at point %d of segment %d" % (k, s), r[k], pw.ev(s, x)))
                items.append(("row sum of point %d" % k, one[k], 1.0))
                used = [j for j in range(len(v)) if not (isinstance(A[k][j], sc.NUM) and float(A[k][j]) == 0)]
                ctx.check("only nodes of its own segment", all(sum(o[:s]) <= j <= sum(o[:s + 1]) for j in used), "point %d of segment %d uses nodes %s" % (k, s, used))
                k += 1
        ctx.close_many(items, tol)

# ------------------------------------------------------------------ K05
def h_K05(ctx, cfg):
    cfg = {**nlp.DEF, "bnd": "default", "dyn": False, "rc": False, "mayer": False, **cfg}
    with settings(cfg), sc.patched(ctx):
        cfg, pg = nlp.setup(ctx, cfg)
        M = nlp.refmats(cfg, pg.orders)
        items = []
        for ph in range(cfg["nph"]):
            g = nlp.Geo(pg, ph, M)
            ctx.check("number of times", len(pg.t[ph]) == pg.N, "%d" % len(pg.t[ph]))
            for i, (s, j) in enumerate(g.loc[:len(pg.t[ph])]): items.append(("time of node %d phase %d" % (i, ph), pg.t[ph][i], g.time(s, M["nd"][s][j])))
            # end points and segment shares
            items.append(("first time phase %d" % ph, pg.t[ph][0], pg.t0[ph]))
            tot = nlp.S([(1.0, pg.wt[s, ph]) for s in range(pg.ns)])
            items.append(("final time phase %d" % ph, pg.t[ph][-1], pg.t0[ph] + (pg.tf[ph] - pg.t0[ph]) * tot))
            for q, e in ((pg.t0, "t0"), (pg.tf, "tf")):
                z = pg.idx[e, ph, 0, 0]
                items.append(("%s of phase %d in user units" % (e, ph), q[ph] * pg.s["t"], flat(pg.Z)[z]))
            # interpolated times
            for npts in cfg.get("pts", [[2, 0, 1]]):
                taus = [np.array([ctx.real("q%d_%d_%d" % (ph, s, i), cfg["tau"], 1) for i in range(npts[s % len(npts)])], dtype=object if ctx.sym else float) for s in range(pg.ns)]
                if cfg["cls"] == "post":
                    pass
                tg = [pg.t[ph][k] for k in range(pg.N)]
                for fn in (mp.mpopt.get_interpolated_time_grid, mp.post_process.get_interpolated_time_grid):
                    got = flat(_tgrid(ctx, fn, tg, taus, pg.orders, cfg["tau"], 1))
                    exp = [g.time(s, 0) + g.h[s] * x for s in range(pg.ns) for x in taus[s]]
                    ctx.check("number of interpolated times", len(got) == len(exp), "%d instead of %d" % (len(got), len(exp)))
                    items += [("interpolated time %d phase %d" % (k, ph), a, b) for k, (a, b) in enumerate(zip(got, exp))]
        ctx.close_many(items, 1e-7)

def _tgrid(ctx, fn, tg, taus, orders, t0, t1):
    t = np.array(tg, dtype=object if ctx.sym else float)
    return fn(t, taus, orders, t0, t1)

def checks():
    sch = ("LGR", "LGL", "CGL")
    k01 = lambda ps: [C(scheme=s, p=p, tau=t) for s in sch for p in ps for t in (-1, 0)]
    os1 = [[1], [2, 3], [1, 4, 2], [5, 1]]
    k02 = [C(scheme=s, orders=o, tau=t, method=m) for s in sch for o in os1 for t, m in ((-1, "symbolic"), (0, "numerical"))]
    k02 += [C(scheme=s, orders=o, tau=t, method=m, pts=n) for s in sch for o, n in (([2, 3], [2, 1]), ([1, 2, 3], [1, 0, 2]), ([4], [2])) for t, m in ((-1, "symbolic"), (0, "numerical"), (0, "symbolic"))]
    k02 += [C(scheme="LGR", orders=[3, 2], late=4), C(scheme="LGL", orders=[2, 3], late=2, pts=[1, 2], method="numerical"), C(scheme="LGR", orders=[2, 2, 2], pts=[0, 1, 1])]
    k02 += [C(scheme=s, orders=o, tau=t, method=m, seen=True, **k) for s, t, m in (("LGR", -1, "numerical"), ("LGL", 0, "symbolic"), ("CGL", 0, "numerical")) for o, k in (([2, 3], {}), ([3, 2, 1], dict(pts=[1, 0, 2])), ([3, 2], dict(late=4, pts=[2, 1])))]
    t02 = [C(scheme=s, orders=o, tau=t, method=m, tol=1e-4) for s in sch for o in ([6], [8, 3], [10], [1, 2, 3, 4, 5], [12, 7]) for t in (-1, 0) for m in ("symbolic", "numerical")]
    t02 += [C(scheme=s, orders=o, tau=t, method=m, pts=n, tol=1e-4) for s in sch for o, n in (([6, 2], [2, 1]), ([5, 5, 1, 2], [1, 2, 0, 2])) for t in (-1, 0) for m in ("symbolic", "numerical")]
    k03 = [C(scheme=s, orders=o, tau=t, method=m) for s in sch for o in os1 + [[2, 2, 2]] for t, m in ((-1, "symbolic"), (0, "numerical"))]
    k03 += [C(scheme=s, orders=o, tau=t, method=m, iv=(t + 0.125, 0.75)) for s in sch for o in ([2, 3], [4]) for t, m in ((-1, "symbolic"), (0, "symbolic"))]
    k03 += [C(scheme=s, orders=o, tau=t, method="numerical", iv="sym") for s in sch for o in ([2, 3], [4], [1, 2]) for t in (-1, 0)]
    k03 += [C(scheme="LGR", orders=[3, 2], late=4)]
    k03 += [C(scheme=s, orders=o, tau=t, method=m, seen=True, **k) for s, t, m in (("LGR", -1, "numerical"), ("LGL", 0, "symbolic"), ("CGL", 0, "numerical")) for o, k in (([2, 3], {}), ([3, 2], dict(late=4)))] + [C(scheme="LGR", orders=[3, 1], tau=0, method="numerical", iv="sym", seen=True), C(scheme="LGL", orders=[3, 1], tau=-1, method="symbolic", iv=(-0.875, 0.75), seen=True)]
    t03 = [C(scheme=s, orders=o, tau=t, method=m) for s in sch for o in ([6], [8, 3], [10], [1, 2, 3, 4, 5], [7, 7]) for t in (-1, 0) for m in ("symbolic", "numerical")]
    t03 += [C(scheme=s, orders=o, tau=t, method="numerical", iv="sym") for s in sch for o in ([5], [6, 2], [8]) for t in (-1, 0)]
    k04 = [C(scheme=s, orders=o, tau=t, method=m, pts=n) for s in sch for o, n in (([2, 3], [2, 1]), ([1, 2, 3], [1, 0, 2]), ([4], [2]), ([3, 1], [0, 2])) for t, m in ((-1, "symbolic"), (0, "numerical"), (0, "symbolic"))]
    k04 += [C(scheme=s, orders=[2, 4, 1], tau=t, method=m, pts=[1], nodes=True) for s in sch for t, m in ((-1, "symbolic"), (0, "numerical"))] + [C(scheme="LGR", orders=[3, 2], late=4, pts=[1, 1]), C(scheme="CGL", orders=[2, 2], pts=[0, 0])]
    k04 += [C(scheme=s, orders=o, tau=t, method=m, seen=True, **k) for s, t, m in (("LGR", -1, "numerical"), ("LGL", 0, "symbolic"), ("CGL", 0, "numerical")) for o, k in (([2, 3], dict(pts=[2, 1])), ([3, 2, 1], dict(pts=[1, 0, 2])), ([3, 2], dict(late=4, pts=[2, 1])))]
    t04 = [C(scheme=s, orders=o, tau=t, method=m, pts=n, tol=1e-4) for s in sch for o, n in (([6, 2], [2, 1]), ([5, 5, 1, 2], [1, 2, 0, 2]), ([8], [3]), ([10], [1])) for t in (-1, 0) for m in ("symbolic", "numerical")]
    k05 = [C(orders=[[2, 3]]), C(orders=[[1, 2, 1]], scheme="LGL", tau=0, nph=2), C(orders=[[3, 1]], scheme="CGL", nph=2, cls="adaptive"), C(orders=[[2, 1]], cls="h", nph=3), C(orders=[[4]], tau=0), C(orders=[[1, 1]], cls="adaptive", tau=0, nph=2, scheme="LGL")]
    t05 = [C(orders=[o], scheme=s, tau=t, cls=c, nph=n, pts=[[1, 2, 0], [0, 3]]) for o in ([5, 2], [1, 2, 3, 4], [8], [1] * 6) for s in sch for t in (-1, 0) for c in ("mpopt", "h", "adaptive") for n in (1, 3)]
    b = "degrees <= 5 (thorough <= 12), up to 3 segments (thorough 6); all polynomial coefficients in [-1,1], all evaluation points and sub-interval ends in the interval; tolerance 1e-6 (1e-4 for quadrature and high degrees)"
    return {
        "K01": Check(h_K01, lambda: k01(range(1, 10)), lambda: k01(range(1, 21)), bounds="degrees 1..9 (thorough 1..20), interval [-1,1] and [0,1] plus every interval with ends in [-5,15]; node accuracy 1e-9"),
        "K02": Check(h_K02, lambda: k02 + t02[::7], lambda: k02 + t02, bounds=b),
        "K03": Check(h_K03, lambda: k03 + t03[::5], lambda: k03 + t03, bounds=b),
        "K04": Check(h_K04, lambda: k04 + t04[::7], lambda: k04 + t04, bounds=b),
        "K05": Check(h_K05, lambda: k05 + t05[::19], lambda: k05 + t05, bounds="up to 3 phases, 3 segments, degrees <= 4 (thorough 6 segments, degrees <= 8); all times, widths, time scales and points symbolic; tolerance 1e-7"),
    }
CHECKS = checks()
