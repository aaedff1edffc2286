"""C01-C11: the nonlinear program built by the real create_nlp() against an independent reference."""
import numpy as np
from fractions import Fraction
from lib import symcore as sc, ref, env
from lib import poly as P
from lib.symcore import ca, mp, sxof, flat, INF
from lib.runner import Check

# ------------------------------------------------------------------ problems
DEF = dict(cls="mpopt", nx=1, nu=1, na=0, orders=[[2, 3]], scheme="LGR", tau=-1, method="symbolic", nph=1,
           path=None, term=None, rc=True, mayer=True, links=None, diffu=None, duc=None, midu=None, bnd="mix", scale="sym", midres=True, dyn=True)

class settings:
    """Class-level switches of the library used by a configuration, restored afterwards."""
    def __init__(self, cfg): self.c = cfg
    def __enter__(self):
        self.s = (mp.CollocationRoots._TAU_MIN, mp.Collocation.D_MATRIX_METHOD)
        mp.CollocationRoots._TAU_MIN = self.c["tau"]
        mp.Collocation.D_MATRIX_METHOD = self.c["method"]
    def __exit__(self, *a):
        mp.CollocationRoots._TAU_MIN, mp.Collocation.D_MATRIX_METHOD = self.s
        return False

def user(ctx, name, nout, vec=True, nargs=None):
    """A user function: uninterpreted in symbolic mode, a fixed generic function in concrete mode."""
    def f(*args):
        if nargs is not None and len(args) != nargs: raise TypeError("%s takes %d arguments but %d were given" % (name, nargs, len(args)))
        if ctx.sym:
            out = [sxof(v) for v in ctx.uf(name, args, nout)]
        else:
            fl = []
            for a in args:
                if isinstance(a, (ca.SX, ca.DM, ca.MX)): fl += [a[i] for i in range(a.numel())]
                elif isinstance(a, (list, tuple, np.ndarray)): fl += list(np.ravel(a))
                else: fl.append(a)
            out = sc.concrete_fn_ca(name, fl, nout)
        return out if vec else out[0]
    return f

def bound(ctx, name, kind, k, lo=True):
    """kind: fin (symbolic value), inf, mix (by position), fix (equal bounds)."""
    if kind == "mix": kind = ["fin", "inf", "lo", "hi"][k % 4]
    if kind == "inf" or (kind == "lo" and not lo) or (kind == "hi" and lo): return -INF if lo else INF
    return ctx.real(name, -3.0, 3.0)

def build_ocp(ctx, cfg, unit=False, pre=""):
    nx, nu, na, nph = cfg["nx"], cfg["nu"], cfg["na"], cfg["nph"]
    o = mp.OCP(n_states=nx, n_controls=nu, n_phases=nph, n_params=na)
    ob = object if ctx.sym else float
    arr = lambda f, n: np.zeros((nph, 0)) if n == 0 else np.array([[f(i, k) for k in range(n)] for i in range(nph)], dtype=ob).reshape(nph, n)
    k3, k4 = 3 + (na > 0), 4 + (na > 0)  # parameters are an argument only when there are any
    for i in range(nph):
        if cfg["dyn"]: o.dynamics[i] = user(ctx, "f%d" % i, nx, nargs=k3)
        if cfg["path"] and cfg["path"][i]: o.path_constraints[i] = user(ctx, "c%d" % i, cfg["path"][i], nargs=k3)
        if cfg["term"] and cfg["term"][i]: o.terminal_constraints[i] = user(ctx, "b%d" % i, cfg["term"][i], nargs=k4)
        if cfg["rc"]: o.running_costs[i] = user(ctx, "q%d" % i, 1, False, k3)
        if cfg["mayer"]: o.terminal_costs[i] = user(ctx, "m%d" % i, 1, False, k4)
    if cfg["links"] is not None: o.phase_links = [tuple(l) for l in cfg["links"]]
    nl = len(o.phase_links)
    s = {}
    if cfg["scale"] in ("sym", "symx") and not unit:
        s["x"] = np.array([ctx.real("sx%d" % k, 0.1, 10) for k in range(nx)], dtype=ob)
        s["u"] = np.array([ctx.real("su%d" % k, 0.1, 10) for k in range(nu)], dtype=ob)
        s["a"] = np.array([ctx.real("sa%d" % k, 0.1, 10) for k in range(na)], dtype=ob) if na else np.ones(0)
        s["t"] = ctx.real("st", 0.1, 10) if cfg["scale"] == "sym" else 2.0
        o.scale_x, o.scale_u, o.scale_a, o.scale_t = s["x"], s["u"], s["a"], s["t"]
    else:
        s["x"], s["u"], s["a"], s["t"] = np.ones(nx), np.ones(nu), np.ones(na), 1.0
    if cfg["bnd"] != "default":
        b = cfg["bnd"]
        o.lbx, o.ubx = arr(lambda i, k: bound(ctx, "lbx%d_%d" % (i, k), b, i + k, True), nx), arr(lambda i, k: bound(ctx, "ubx%d_%d" % (i, k), b, i + k, False), nx)
        o.lbu, o.ubu = arr(lambda i, k: bound(ctx, "lbu%d_%d" % (i, k), b, i + k, True), nu), arr(lambda i, k: bound(ctx, "ubu%d_%d" % (i, k), b, i + k, False), nu)
        o.lba, o.uba = arr(lambda i, k: bound(ctx, "lba%d_%d" % (i, k), b, i + k, True), na), arr(lambda i, k: bound(ctx, "uba%d_%d" % (i, k), b, i + k, False), na)
        o.lbt0, o.ubt0 = arr(lambda i, k: bound(ctx, "lbt0%d" % i, b, i, True), 1), arr(lambda i, k: bound(ctx, "ubt0%d" % i, b, i, False), 1)
        o.lbtf, o.ubtf = arr(lambda i, k: bound(ctx, "lbtf%d" % i, b, i + 2, True), 1), arr(lambda i, k: bound(ctx, "ubtf%d" % i, b, i + 2, False), 1)
        g = lambda n: (lambda i, k: ctx.real("%s%d_%d" % (n, i, k)))
        o.x00, o.xf0 = arr(g("x00"), nx), arr(g("xf0"), nx)
        o.u00, o.uf0 = arr(g("u00"), nu), arr(g("uf0"), nu)
        o.a0 = arr(g("a0"), na)
        o.t00, o.tf0 = arr(g("t00"), 1), arr(g("tf0"), 1)
        if nl:
            o.lbe = np.array([[ctx.real("lbe%d_%d" % (n, k)) for k in range(nx)] for n in range(nl)], dtype=ob)
            o.ube = np.array([[ctx.real("ube%d_%d" % (n, k)) for k in range(nx)] for n in range(nl)], dtype=ob)
    elif nl and nl != nph - 1:
        o.lbe = np.zeros((nl, nx)); o.ube = np.zeros((nl, nx))
    if cfg["diffu"]:
        o.diff_u = np.array(cfg["diffu"])
        di = cfg.get("duinf", "")
        o.lbdu = np.array([-INF if "l" in di else ctx.real("lbdu%d" % i) for i in range(nph)], dtype=ob)
        o.ubdu = np.array([INF if "u" in di else ctx.real("ubdu%d" % i) for i in range(nph)], dtype=ob)
    if cfg["duc"]: o.du_continuity = np.array(cfg["duc"])
    if cfg["midu"] is not None: o.midu = np.array(cfg["midu"])
    return o, s

CLS = {"mpopt": lambda: mp.mpopt, "h": lambda: mp.mpopt_h_adaptive, "adaptive": lambda: mp.mpopt_adaptive}

class Prog:
    """The program of one optimiser plus the user-level view of its decision vector."""
    def __init__(self, ctx, cfg, ocp, s, tag=""):
        self.ctx, self.cfg, self.ocp, self.s = ctx, cfg, ocp, s
        orders = list(cfg["orders"][0]) if isinstance(cfg["orders"][0], (list, tuple)) else list(cfg["orders"])
        self.orders = orders; self.ns = len(orders); self.N = sum(orders) + 1
        self.mpo = m = CLS[cfg["cls"]]()(ocp, n_segments=self.ns, poly_orders=list(orders), scheme=cfg["scheme"])
        self.adaptive = cfg["cls"] == "adaptive"
        self.s = s
        if self.adaptive:
            m.mid_residuals = bool(cfg["midres"])
            self.tol = [ctx.real("tol%d" % i, 1e-6, 1) for i in range(cfg["nph"])]
            self.lbh = [ctx.real("lbh%d" % i, 1e-6, 0.2) for i in range(cfg["nph"])]
            self.ubh = [ctx.real("ubh%d" % i, 0.2, 1) for i in range(cfg["nph"])]
            m.tol_residual, m.lbh, m.ubh = list(self.tol), list(self.lbh), list(self.ubh)
        self.nlp, self.bounds = m.create_nlp()
    def finish(self, pw=None):
        """Make the decision vector and the widths symbolic (or give them values) and read the user view."""
        ctx, cfg, m, nlp = self.ctx, self.cfg, self.mpo, self.nlp
        nph, ns = cfg["nph"], self.ns
        zs = ca.vec(ca.densify(nlp["x"]))
        hs = ca.vec(ca.densify(m.seg_widths))
        self.nz = zs.numel(); rng = cfg.get("rng", 3.0)
        wh = {hs[k].element_hash() for k in range(hs.numel())}
        lo = [0.05 if self.adaptive and zs[k].element_hash() in wh else -rng for k in range(self.nz)]
        hi = [1.0 if l > 0 else rng for l in lo]
        self.zs, self.hs = zs, hs
        self.G, self.J = ca.vec(ca.densify(ca.SX(nlp["g"]))), nlp["f"]
        if ctx.sym:
            Z = ctx.adopt(zs, "Z", lo, hi)
            Pv = hs if self.adaptive else ctx.adopt(hs, "P", 0.05, 1.0)
            self.Z, self.Pv = Z, Pv
            sub = ctx.unify_calls()
            if sub is not None:
                self.G = ca.substitute(self.G, *sub); self.J = ca.substitute(ca.SX(self.J), *sub)
            self.g, self.f, self.w = self.G, self.J, hs
        else:
            Z = ctx.adopt(ca.DM.zeros(self.nz), "Z", lo, hi)
            if self.adaptive:
                self.w = ca.Function("w", [zs], [hs])(Z)
                F = ca.Function("F", [zs], [self.G, self.J])
                self.g, self.f = F(Z)
                Pv = self.w
            else:
                Pv = ctx.adopt(ca.DM.zeros(hs.numel()), "P", 0.05, 1.0)
                self.w = Pv
                F = ca.Function("F", [zs, hs], [self.G, self.J])
                self.g, self.f = F(Z, Pv)
            self.Z, self.Pv = Z, Pv
        self.x, self.u, self.t, self.t0, self.tf, self.a = [], [], [], [], [], []
        self.idx = {}
        el = lambda M: np.array(flat(M), dtype=object).reshape(M.shape)
        pos = {zs[k].element_hash(): k for k in range(self.nz)}
        for ph in range(nph):
            traj = m.init_trajectories(ph)
            x, u, t, t0, tf, a = traj(self.Z, self.Pv)
            self.x.append(el(x)); self.u.append(el(u)); self.t.append(el(t)[:, 0])
            self.t0.append(el(t0)[0, 0]); self.tf.append(el(tf)[0, 0]); self.a.append(el(a)[:, 0] if a.numel() else np.zeros(0))
            X, U, _, T0, TF, A = traj(zs, hs)
            for nm, M in (("x", X), ("u", U), ("t0", T0), ("tf", TF), ("a", A)):
                for i in range(M.size1()):
                    for k in range(M.size2()):
                        sy = [v for v in ca.symvar(M[i, k]) if v.element_hash() in pos]
                        self.idx[nm, ph, i, k] = pos[sy[0].element_hash()] if len(sy) == 1 else None
        for k in range(hs.numel()):
            if self.adaptive: self.idx["h", k // ns, k % ns, 0] = pos.get(hs[k].element_hash())
        self.wt = np.array(flat(ca.reshape(self.w, ns, nph)), dtype=object).reshape(ns, nph)
        return self

# ------------------------------------------------------------------ the reference
def refmats(cfg, orders):
    t0, t1 = cfg["tau"], 1
    nd = [ref.nodes(cfg["scheme"], p, t0, t1) for p in orders]
    return dict(t0=t0, t1=t1, nd=nd, D=[ref.D(cfg["scheme"], p, t0, t1) for p in orders], W=[ref.W(cfg["scheme"], p, t0, t1) for p in orders],
                mid=[(n[:-1] + n[1:]) / 2 for n in nd],
                I=[ref.matrix(ref.nodes_mp(cfg["scheme"], p, t0, t1), (n[:-1] + n[1:]) / 2) for p, n in zip(orders, nd)],
                DI=[ref.matrix(ref.nodes_mp(cfg["scheme"], p, t0, t1), (n[:-1] + n[1:]) / 2, 1) for p, n in zip(orders, nd)],
                E=[ref.matrix(ref.nodes_mp(cfg["scheme"], p, t0, t1), [t0, t1], 1) for p in orders])

def S(terms):
    """sum of products of scalars (Sym/float) as SX or float"""
    r = 0.0
    for c, v in terms:
        if isinstance(c, (float, int, np.floating)) and c == 0: continue
        r = c * v + r
    return r

def user_point(pg, ph, i):
    s = pg.s
    return ([pg.x[ph][i, k] / s["x"][k] for k in range(pg.x[ph].shape[1])], [pg.u[ph][i, k] / s["u"][k] for k in range(pg.u[ph].shape[1])],
            [pg.a[ph][k] / s["a"][k] for k in range(len(pg.a[ph]))])

def args4(cfg, x, u, t, a):
    return [x, u, t] + ([a] if cfg["na"] else [])

class Geo:
    """node -> (segment, local index), segment starts and durations of one phase, in user units"""
    def __init__(self, pg, ph, M):
        self.T = pg.tf[ph] - pg.t0[ph]
        L = M["t1"] - M["t0"]
        self.h, self.ts = [], []
        acc = pg.t0[ph]
        for s in range(pg.ns):
            d = self.T * pg.wt[s, ph]
            self.ts.append(acc); self.h.append(d / L)
            acc = acc + d
        self.start = [sum(pg.orders[:s]) for s in range(pg.ns)]
        self.loc = [(0, 0)] + [(s, j) for s in range(pg.ns) for j in range(1, pg.orders[s] + 1)]
        self.M = M
    def time(self, s, tau):
        return self.ts[s] + self.h[s] * (float(tau) - self.M["t0"])

def expected(pg, cfg, want=None):
    """-> list of (category, label, expr, lo, hi), and the objective"""
    ctx, ocp, sc_ = pg.ctx, pg.ocp, pg.s
    nx, nu, nph = cfg["nx"], cfg["nu"], cfg["nph"]
    M = refmats(cfg, pg.orders)
    rows, J, Jm, Jq = [], 0.0, 0.0, 0.0
    on = lambda c: want is None or c in want
    for ph in range(nph):
        g = Geo(pg, ph, M)
        L = M["t1"] - M["t0"]
        qv = [None] * pg.N
        for i, (s, j) in enumerate(g.loc):
            xu = user_point(pg, ph, i)
            t = g.time(s, M["nd"][s][j])
            av = args4(cfg, xu[0], xu[1], t, xu[2])
            if on("dyn"):
                fv = ctx.uf_at("f%d" % ph, av, nx) if cfg["dyn"] else [0.0] * nx
                for k in range(nx):
                    lhs = S([(float(M["D"][s][j, l]), pg.x[ph][g.start[s] + l, k]) for l in range(pg.orders[s] + 1)])
                    rows.append(("dyn", "dynamics phase %d node %d state %d" % (ph, i, k), lhs - g.h[s] * sc_["x"][k] * fv[k], 0.0, 0.0))
            nc = cfg["path"][ph] if cfg["path"] else 0
            if nc and on("path"):
                cv = ctx.uf_at("c%d" % ph, av, nc)
                rows += [("path", "path constraint phase %d node %d no %d" % (ph, i, k), cv[k], -INF, 0.0) for k in range(nc)]
            if cfg["rc"] and on("J"):
                qv[i] = ctx.uf_at("q%d" % ph, av, 1)[0]
        x0, _, a = user_point(pg, ph, 0); xf, _, _ = user_point(pg, ph, pg.N - 1)
        av = [xf, pg.tf[ph], x0, pg.t0[ph]] + ([a] if cfg["na"] else [])
        nt = cfg["term"][ph] if cfg["term"] else 0
        if nt and on("term"):
            bv = ctx.uf_at("b%d" % ph, av, nt)
            rows += [("term", "terminal constraint phase %d no %d" % (ph, k), bv[k], 0.0, 0.0) for k in range(nt)]
        if on("J"):
            if cfg["mayer"]: J = J + ctx.uf_at("m%d" % ph, av, 1)[0]
            if cfg["rc"]:
                for s in range(pg.ns):
                    for j in range(pg.orders[s] + 1):
                        J = J + float(M["W"][s][j]) * (g.h[s] * qv[g.start[s] + j])
        if cfg["diffu"] and cfg["diffu"][ph] and on("slope"):
            for i, (s, j) in enumerate(g.loc):
                for k in range(nu):
                    du = S([(float(M["D"][s][j, l]), pg.u[ph][g.start[s] + l, k]) for l in range(pg.orders[s] + 1)])
                    # lbdu <= du/dt <= ubdu with dt = h dtau, multiplied by the (non-negative) h and the scale
                    if sc_isfin(ocp.lbdu[ph]): rows.append(("slope", "slope lower bound phase %d node %d control %d" % (ph, i, k), du - ocp.lbdu[ph] * g.h[s] * sc_["u"][k], 0.0, INF))
                    if sc_isfin(ocp.ubdu[ph]): rows.append(("slope", "slope upper bound phase %d node %d control %d" % (ph, i, k), du - ocp.ubdu[ph] * g.h[s] * sc_["u"][k], -INF, 0.0))
        if cfg["duc"] and cfg["duc"][ph] and on("duc"):
            for s in range(pg.ns - 1):
                for k in range(nu):
                    a1 = S([(float(M["E"][s][1, l]), pg.u[ph][g.start[s] + l, k]) for l in range(pg.orders[s] + 1)])
                    a2 = S([(float(M["E"][s + 1][0, l]), pg.u[ph][g.start[s + 1] + l, k]) for l in range(pg.orders[s + 1] + 1)])
                    rows.append(("duc", "slope continuity phase %d boundary %d control %d" % (ph, s, k), a1 * pg.wt[s + 1, ph] - a2 * pg.wt[s, ph], 0.0, 0.0))
        midu = True if pg.adaptive else bool(ocp.midu[ph])
        lb = lambda b, sc, k: b[ph][k] * sc[k] if sc_isfin(b[ph][k]) else b[ph][k]
        for s in range(pg.ns):
            for i in range(pg.orders[s]):
                xm = [S([(float(M["I"][s][i, l]), pg.x[ph][g.start[s] + l, k]) for l in range(pg.orders[s] + 1)]) for k in range(nx)]
                um = [S([(float(M["I"][s][i, l]), pg.u[ph][g.start[s] + l, k]) for l in range(pg.orders[s] + 1)]) for k in range(nu)]
                if midu and on("midu"):
                    rows += [("midu", "mid-point control phase %d seg %d point %d control %d" % (ph, s, i, k), um[k], lb(ocp.lbu, sc_["u"], k), lb(ocp.ubu, sc_["u"], k)) for k in range(nu)]
                if pg.adaptive and on("ad"):
                    rows += [("ad", "mid-point state phase %d seg %d point %d state %d" % (ph, s, i, k), xm[k], lb(ocp.lbx, sc_["x"], k), lb(ocp.ubx, sc_["x"], k)) for k in range(nx)]
                    if cfg["midres"]:
                        t = g.time(s, M["mid"][s][i])
                        av = args4(cfg, [xm[k] / sc_["x"][k] for k in range(nx)], [um[k] / sc_["u"][k] for k in range(nu)], t, user_point(pg, ph, 0)[2])
                        fv = ctx.uf_at("f%d" % ph, av, nx) if cfg["dyn"] else [0.0] * nx
                        for k in range(nx):
                            dx = S([(float(M["DI"][s][i, l]), pg.x[ph][g.start[s] + l, k]) for l in range(pg.orders[s] + 1)])
                            rows.append(("ad", "mid-point residual phase %d seg %d point %d state %d" % (ph, s, i, k), pg.wt[s, ph] * (dx - g.h[s] * sc_["x"][k] * fv[k]), -pg.tol[ph], pg.tol[ph]))
        if pg.adaptive and on("ad"):
            rows.append(("ad", "widths of phase %d sum to one" % ph, S([(1.0, pg.wt[s, ph]) for s in range(pg.ns)]) - 1.0, 0.0, 0.0))
    if nph > 1 and on("link"):
        for n, (i, j) in enumerate(ocp.phase_links):
            rows += [("link", "state link %d state %d" % (n, k), pg.x[j][0, k] - pg.x[i][-1, k], ocp.lbe[n][k] * sc_["x"][k], ocp.ube[n][k] * sc_["x"][k]) for k in range(nx)]
            rows += [("link", "control link %d control %d" % (n, k), pg.u[j][0, k] - pg.u[i][-1, k], 0.0, 0.0) for k in range(nu)]
            rows.append(("link", "time link %d" % n, (pg.t0[j] - pg.tf[i]) * sc_["t"], 0.0, 0.0))
    return rows, J

def same(a, b):
    """Identical values: the same symbolic expression, or equal numbers."""
    if isinstance(a, sc.Sym) or isinstance(b, sc.Sym):
        return isinstance(a, sc.Sym) and isinstance(b, sc.Sym) and ca.is_equal(sxof(a), sxof(b), 4)
    return float(a) == float(b)

def sc_isfin(v): return isinstance(v, sc.Sym) or abs(float(v)) != INF

# ------------------------------------------------------------------ matching of rows
class Row:
    __slots__ = ("lab", "cat", "e", "lo", "hi", "fp", "free")

def prep(ctx, rows):
    """rows: (cat, label, expr, lo, hi). Residual forms expr-lo / expr-hi with two fingerprint values each."""
    out = []
    allx = []
    for cat, lab, e, lo, hi in rows:
        r = Row(); r.cat, r.lab = cat, lab
        fl, fh = sc_isfin(lo), sc_isfin(hi)
        r.free = not fl and not fh
        r.lo = e - lo if fl else None
        r.hi = e - hi if fh else None
        out.append(r)
        allx += [v for v in (r.lo, r.hi) if v is not None]
    if ctx.sym:
        ps = iter(P.polys([sxof(v) for v in allx], ctx.V)) if allx else iter(())
        pts = [ctx.randpoint(11), ctx.randpoint(12), ctx.randpoint(13)]
        for r in out:
            for n in ("lo", "hi"):
                if getattr(r, n) is not None:
                    p = next(ps); setattr(r, n, (p, [P.evalp(p, pt) for pt in pts]))
    else:
        for r in out:
            for n in ("lo", "hi"):
                v = getattr(r, n)
                if v is not None: setattr(r, n, (float(v), [float(v)]))
    return out

def compat(e, r):
    """scale s>0 (or <0 with sides swapped) such that code row r == s * expected row e, judged on fingerprints; None otherwise"""
    def ratio(pairs, sgn):
        vals = [(x, y) for a, b in pairs for x, y in zip(a[1], b[1]) if abs(x) >= 1e-9 or abs(y) >= 1e-9]      # a expected, b code: both (x, [v1, v2])
        if not vals: return float(sgn)
        X, Y = max(vals, key=lambda v: abs(v[0]))       # the largest value gives the most accurate factor
        if abs(X) < 1e-12: return None
        s = Y / X
        if s * sgn <= 0: return None
        for x, y in vals:
            if abs(y - s * x) > 1e-6 * abs(s) * max(abs(x), 1e-3 * abs(X)): return None
        return float(sgn) if abs(s - sgn) < 1e-7 else s
    if (e.lo is None) == (r.lo is None) and (e.hi is None) == (r.hi is None):
        s = ratio([(a, b) for a, b in ((e.lo, r.lo), (e.hi, r.hi)) if a is not None], 1)
        if s is not None: return s
    if (e.lo is None) == (r.hi is None) and (e.hi is None) == (r.lo is None):
        s = ratio([(a, b) for a, b in ((e.lo, r.hi), (e.hi, r.lo)) if a is not None], -1)
        if s is not None: return s
    return None

def match(ctx, exp, code, conc_scale_ok=True):
    """Pairs expected rows with code rows; proves each pair equal. Returns (unmatched expected, unmatched code)."""
    used = set()
    items, missing = [], []
    for e in exp:
        if e.free: continue
        best = None
        for k, r in enumerate(code):
            if k in used or r.free: continue
            s = compat(e, r)
            if s is None: continue
            if not ctx.sym and abs(s - 1) > 1e-9 and not near(e, r, s): continue
            if best is None or abs(abs(s) - 1) < abs(abs(best[1]) - 1): best = (k, s)
            if abs(s - 1) < 1e-9: break
        if best is None or (not ctx.sym and not near(e, code[best[0]], best[1])):
            missing.append(e); continue
        used.add(best[0])
        if ctx.sym:
            r, s = code[best[0]], best[1]
            fs = Fraction(round(s)) if abs(abs(s) - 1) < 1e-7 else Fraction(s).limit_denominator(10 ** 9)
            sw = s < 0
            for a, b in ((e.lo, r.hi if sw else r.lo), (e.hi, r.lo if sw else r.hi)):
                if a is not None: items.append((e.lab, b[0], P.scale(a[0], fs)))
    if items: ctx.close_many(items, 1e-6)
    extra = [r for k, r in enumerate(code) if k not in used and not r.free]
    return missing, extra

def near(e, r, s):
    # in concrete mode only exact (unscaled) equality of the values counts
    if abs(s - 1) < 1e-9: return True
    if s < 0: pairs = ((e.lo, r.hi), (e.hi, r.lo)); s = abs(s)
    else: pairs = ((e.lo, r.lo), (e.hi, r.hi))
    for a, b in pairs:
        if a is None: continue
        if not sc.close(abs(a[0]), abs(b[0]), 1e-6): return False
    return True

def code_rows(pg):
    gl, gu = list(pg.bounds["lbg"]), list(pg.bounds["ubg"])
    n = pg.G.numel()
    g = flat(pg.g)
    if not (len(gl) == len(gu) == n): return None
    return [("code", "constraint row %d" % i, g[i], gl[i], gu[i]) for i in range(n)]

# ------------------------------------------------------------------ harnesses
def setup(ctx, cfg):
    cfg = {**DEF, **cfg}
    ocp, s = build_ocp(ctx, cfg)
    pg = Prog(ctx, cfg, ocp, s).finish()
    return cfg, pg

def rows_harness(cats, extra_check=False):
    def harness(ctx, cfg):
        cfg = {**DEF, **cfg}
        with settings(cfg), sc.patched(ctx):
            cfg, pg = setup(ctx, cfg)
            cr = code_rows(pg)
            ctx.check("shape", cr is not None, "constraint vector and its bounds differ in length")
            if cr is None: return
            want = None if extra_check else cats
            rows, _ = expected(pg, cfg, want)
            code = prep(ctx, cr)
            exp = prep(ctx, rows)
            if extra_check:
                n0 = len(ctx.problems)
                missing, extra = match(ctx, exp, code)
                del ctx.problems[n0:]
                for r in extra: report_missing(ctx, r, exp, "undeclared constraint")
                ctx.check("rows", True)
                # each decision variable is exactly one quantity
                vals = list(pg.idx.values())
                ctx.check("decision variables", None not in vals and sorted(vals) == list(range(pg.nz)), "the %d decision variables are not one-to-one with the %d states, controls, times, parameters and widths" % (pg.nz, len(vals)))
            else:
                missing, extra = match(ctx, exp, code)
                if not rows: ctx.check("none expected", True)
                for e in missing: report_missing(ctx, e, extra, "missing")
                if cats is None or cats & {"slope", "duc", "midu"}:
                    # nothing that was switched off is imposed
                    old, pg.ocp.midu = pg.ocp.midu, [True] * cfg["nph"]
                    allon, _ = expected(pg, dict(cfg, diffu=[1] * cfg["nph"], duc=[1] * cfg["nph"]), cats)
                    pg.ocp.midu = old
                    have = {r[1] for r in rows}
                    for e in prep(ctx, [r for r in allon if r[1] not in have]):
                        if e.free: continue
                        hit = [r for r in extra if (ctx.sym or max(abs(v[0]) for v in (e.lo, e.hi) if v is not None) > 1e-4) and compat(e, r) is not None and (ctx.sym or near(e, r, compat(e, r)))]
                        ctx.check("not requested: " + e.lab, not hit, "imposed by %s although it is switched off" % (hit[0].lab if hit else ""))
    return harness

def report_missing(ctx, e, cands, what):
    """No partner row has the same value: the solver exhibits values that tell it apart from the closest candidate."""
    if not ctx.sym:
        v = (e.lo or e.hi)[0]
        ctx.check(what + ": " + e.lab, False, "no counterpart; value %.9g" % v)
        return
    v = (e.lo or e.hi)
    n = len(ctx.problems)
    near_ = min(cands, key=lambda r: abs(((r.lo or r.hi)[1][0]) - v[1][0]) if (r.lo or r.hi) else 1e9) if cands else None
    if near_ is not None and (near_.lo or near_.hi):
        items = []
        for a, b in ((e.lo, near_.lo), (e.hi, near_.hi)):
            if a is not None and b is not None: items.append((what + ": " + e.lab, b[0], a[0]))
        if items: ctx.close_many(items, 1e-6)
    if len(ctx.problems) == n:
        r, m = ctx.query(sc.z3.BoolVal(True), kind="assert")
        ctx.fail(what + ": " + e.lab, "no counterpart", {})

def objective_harness(ctx, cfg):
    cfg = {**DEF, **cfg}
    with settings(cfg), sc.patched(ctx):
        cfg, pg = setup(ctx, cfg)
        _, J = expected(pg, cfg, {"J"})
        ctx.close("objective", pg.f, J, 1e-2, 1e-5)

def h_C03(ctx, cfg):
    cfg = {**DEF, **cfg}
    if cfg.get("part") == "cost":
        return objective_harness(ctx, cfg)
    return rows_harness({"term"})(ctx, cfg)

def h_C04(ctx, cfg):
    cfg = {**DEF, **cfg}
    if cfg.get("part") != "exact":
        return objective_harness(ctx, cfg)
    # running cost = polynomial in time with symbolic coefficients: the objective must be its exact integral
    deg = cfg["deg"]
    with settings(cfg), sc.patched(ctx):
        cfg["scale"] = None; cfg["rng"] = 1.0
        ocp, s = build_ocp(ctx, {**cfg, "rc": False, "mayer": False, "dyn": False})
        nph = cfg["nph"]
        cf = [[ctx.real("k%d_%d" % (i, d)) for d in range(deg + 1)] for i in range(nph)]
        def mk(i):
            def rc(x, u, t, *a):
                v = 0.0
                for d in range(deg, -1, -1): v = v * t + (cf[i][d].sx if ctx.sym else float(cf[i][d]))
                return v
            return rc
        for i in range(nph): ocp.running_costs[i] = mk(i)
        pg = Prog(ctx, {**cfg, "rc": False}, ocp, s).finish()
        # widths that sum to one: substitute the last one
        ns = pg.ns
        want = 0.0
        f = pg.f
        if ctx.sym:
            last = [ns * (i + 1) - 1 for i in range(nph)]
            w2 = [pg.hs[k] if k not in last else 1 - sum(([pg.hs[j] for j in range(k - ns + 1, k)]), ca.SX(0)) for k in range(ns * nph)]
            f = ca.substitute(ca.SX(f), pg.hs, ca.vertcat(*w2))
            f = sc._wrap(ca.densify(f))
        else:
            wv = np.array(pg.w.full()).ravel()
            for i in range(nph): wv[ns * (i + 1) - 1] = 1 - sum(wv[ns * i: ns * (i + 1) - 1])
            if pg.adaptive: return
            f = float(ca.Function("F", [pg.zs, pg.hs], [pg.J])(pg.Z, wv))
        for i in range(nph):
            t0, tf = pg.t0[i], pg.tf[i]
            for d in range(deg + 1):
                want = want + cf[i][d] * (_pw(tf, d + 1) - _pw(t0, d + 1)) / float(d + 1)
        ctx.close("integral of a degree-%d running cost" % deg, f, want, cfg.get("tol", 1e-3))
def _pw(v, n):
    r = v
    for _ in range(n - 1): r = r * v
    return r

def h_C06(ctx, cfg):
    cfg = {**DEF, **cfg}
    with settings(cfg), sc.patched(ctx):
        cfg, pg = setup(ctx, cfg)
        lb, ub = list(pg.bounds["lbx"]), list(pg.bounds["ubx"])
        ctx.check("shape", len(lb) == len(ub) == pg.nz, "bounds and decision vector differ in length")
        o, s = pg.ocp, pg.s
        items = []
        mul = lambda b, q: b * q if sc_isfin(b) else b
        for (nm, ph, i, k), z in sorted(pg.idx.items()):
            if z is None or z >= len(lb):
                ctx.check("variable", False, "%s has no decision variable" % ((nm, ph, i, k),)); continue
            if nm == "x":
                if ph == 0 and i == 0: l = h = o.x00[0][k] * s["x"][k]
                else: l, h = mul(o.lbx[ph][k], s["x"][k]), mul(o.ubx[ph][k], s["x"][k])
            elif nm == "u": l, h = mul(o.lbu[ph][k], s["u"][k]), mul(o.ubu[ph][k], s["u"][k])
            elif nm == "t0": l, h = mul(o.lbt0[ph][0], s["t"]), mul(o.ubt0[ph][0], s["t"])
            elif nm == "tf": l, h = mul(o.lbtf[ph][0], s["t"]), mul(o.ubtf[ph][0], s["t"])
            elif nm == "a": l, h = mul(o.lba[ph][i], s["a"][i]), mul(o.uba[ph][i], s["a"][i])
            else: l, h = pg.lbh[ph], pg.ubh[ph]
            lab = "%s phase %d (%d,%d)" % (nm, ph, i, k)
            items += [("lower bound of " + lab, lb[z], l), ("upper bound of " + lab, ub[z], h)]
        ctx.close_many(items, 1e-9)

def h_C10(ctx, cfg):
    cfg = {**DEF, **cfg}
    with settings(cfg), sc.patched(ctx):
        cfg, pg = setup(ctx, cfg)
        o, s = pg.ocp, pg.s
        z0 = list(pg.mpo.initialize_solution())
        ctx.check("size", len(z0) == pg.nz, "guess has %d entries for %d variables" % (len(z0), pg.nz))
        if len(z0) != pg.nz: return
        items = []
        for (nm, ph, i, k), z in sorted(pg.idx.items()):
            if z is None: ctx.check("variable", False, "no decision variable"); continue
            fr = i / (pg.N - 1.0)
            if nm == "x": v = (o.x00[ph][k] + (o.xf0[ph][k] - o.x00[ph][k]) * fr) * s["x"][k]
            elif nm == "u": v = (o.u00[ph][k] + (o.uf0[ph][k] - o.u00[ph][k]) * fr) * s["u"][k]
            elif nm == "t0": v = o.t00[ph][0] * s["t"]
            elif nm == "tf": v = o.tf0[ph][0] * s["t"]
            elif nm == "a": v = o.a0[ph][i] * s["a"][i]
            else: v = 1.0 / pg.ns
            items.append(("guess of %s phase %d (%d,%d)" % (nm, ph, i, k), z0[z], v))
        ctx.close_many(items, 1e-7)

def h_C11(ctx, cfg):
    """The same problem with unit scales and with arbitrary scales, at the same trajectory in user units."""
    cfg = {**DEF, **cfg}
    with settings(cfg), sc.patched(ctx):
        ocp1, s = build_ocp(ctx, cfg)
        ocp0 = mp.OCP(n_states=cfg["nx"], n_controls=cfg["nu"], n_phases=cfg["nph"], n_params=cfg["na"])
        for k, v in ocp1.__dict__.items():
            if not k.startswith("scale_"): setattr(ocp0, k, v)
        pg0 = Prog(ctx, {**cfg, "cls": cfg["cls"]}, ocp0, {"x": np.ones(cfg["nx"]), "u": np.ones(cfg["nu"]), "a": np.ones(cfg["na"]), "t": 1.0})
        pg0.finish()
        pg1 = Prog.__new__(Prog)
        pg1.__init__(_Retol(ctx, pg0), cfg, ocp1, s)
        pg1.ctx = ctx
        zs1, hs1 = ca.vec(ca.densify(pg1.nlp["x"])), ca.vec(ca.densify(pg1.mpo.seg_widths))
        ctx.check("sizes", zs1.numel() == pg0.nz and ca.SX(pg1.nlp["g"]).numel() == pg0.G.numel(), "program size depends on the scaling")
        # scale factor of every decision variable, from the unit-scaled program's user view
        q = [1.0] * pg0.nz
        for (nm, ph, i, k), z in pg0.idx.items():
            if z is None: ctx.check("variable", False, "no decision variable"); return
            q[z] = s["x"][k] if nm == "x" else s["u"][k] if nm == "u" else s["a"][i] if nm == "a" else s["t"] if nm in ("t0", "tf") else 1.0
        qs = ca.vertcat(*[sxof(v) for v in q]) if ctx.sym else ca.DM([float(v) for v in q])
        Zs = pg0.Z * qs
        ins = [zs1] if pg1.adaptive else [zs1, hs1]
        arg = [Zs] if pg1.adaptive else [Zs, pg0.Pv]
        g1e, f1e = ca.vec(ca.densify(ca.SX(pg1.nlp["g"]))), ca.SX(pg1.nlp["f"])
        if ctx.sym:
            # calls whose arguments agree once the change of variables is applied have the same results
            sub = ca.vertcat(*ins), ca.vertcat(*arg)
            g1, f1 = ca.substitute(g1e, *sub), ca.substitute(f1e, *sub)
            us = ctx.unify_calls(sub)
            if us is not None: g1, f1 = ca.substitute(g1, *us), ca.substitute(f1, *us)
        else:
            g1, f1 = ca.Function("F1", ins, [g1e, f1e])(*arg)
        ctx.close("objective", f1, pg0.f, 1e-3, 1e-6)
        g0, g1 = flat(pg0.g), flat(g1)
        l0, u0, l1, u1 = [list(b) for b in (pg0.bounds["lbg"], pg0.bounds["ubg"], pg1.bounds["lbg"], pg1.bounds["ubg"])]
        allrows, fac, items = [], [], []
        # constraint rows: g1 = r * g0 with r a positive product of scale factors, and bounds scaled by the same r
        cand = [("1", 1.0)] + [("sx%d" % k, s["x"][k]) for k in range(cfg["nx"])] + [("su%d" % k, s["u"][k]) for k in range(cfg["nu"])] + [("sa%d" % k, s["a"][k]) for k in range(cfg["na"])] + [("st", s["t"])]
        cand += [(a + "*" + b, x * y) for n, (a, x) in enumerate(cand[1:], 1) for b, y in cand[n:]]
        if ctx.sym:
            p0, p1 = P.polys([sxof(v) for v in g0], ctx.V), P.polys([sxof(v) for v in g1], ctx.V)
            pc = P.polys([sxof(v) for _, v in cand], ctx.V)
            pts = [ctx.randpoint(21), ctx.randpoint(22)]
            cv = [[P.evalp(c, pt) for pt in pts] for c in pc]
            for i in range(len(g0)):
                a, b = [P.evalp(p0[i], pt) for pt in pts], [P.evalp(p1[i], pt) for pt in pts]
                r = next((n for n in range(len(cand)) if all(abs(y - c * x) <= 1e-6 * (1 + abs(y)) for x, y, c in zip(a, b, cv[n]))), 0)
                items.append(("constraint row %d" % i, p1[i], P.mul(p0[i], pc[r])))
                fac.append(cand[r][1])
        else:
            for i in range(len(g0)):
                r = next((n for n in range(len(cand)) if sc.close(float(g1[i]), float(cand[n][1]) * float(g0[i]), 1e-6)), None)
                ctx.check("constraint row %d" % i, r is not None, "value %.9g in unit scaling becomes %.9g" % (float(g0[i]), float(g1[i])))
                fac.append(cand[r or 0][1])
        if items: ctx.close_many(items, 1e-5)
        bi = []
        # the tolerance of mid-point residual rows is stated in scaled units (C08 checks it); their rows still have to agree
        tolrow = [any(same(a, -t) and same(b, t) for t in pg0.tol) for a, b in zip(l0, u0)] if pg0.adaptive else [False] * len(g0)
        for i in range(len(g0)):
            if tolrow[i]: continue
            for nm, a, b in (("lower", l0[i], l1[i]), ("upper", u0[i], u1[i])):
                bi.append(("%s bound of row %d" % (nm, i), b, a * fac[i] if sc_isfin(a) else a))
        for z in range(pg0.nz):
            for nm, a, b in (("lower", pg0.bounds["lbx"][z], pg1.bounds["lbx"][z]), ("upper", pg0.bounds["ubx"][z], pg1.bounds["ubx"][z])):
                bi.append(("%s bound of variable %d" % (nm, z), b, a * q[z] if sc_isfin(a) else a))
        z0, z1 = list(pg0.mpo.initialize_solution()), list(pg1.mpo.initialize_solution())
        ctx.check("guess size", len(z0) == len(z1))
        for z in range(min(len(z0), len(z1))):
            bi.append(("guess of variable %d" % z, z1[z], z0[z] * q[z] if sc_isfin(z0[z]) else z0[z]))
        if ctx.sym:
            ctx.close_many(bi, 1e-7)
        else:
            # the row factor is only determined up to coincidences at one point: accept any candidate that fits the bounds too
            for lab, a, b in bi:
                if lab.split(" of ")[1].startswith("row"): continue
                ctx.close(lab, a, b, 1e-7)
            for i in range(len(g0)):
                ok = any(sc.close(float(g1[i]), float(c) * float(g0[i]), 1e-6) and all((not sc_isfin(a) and a == b) or (sc_isfin(a) and sc.close(float(b), float(a) * float(c), 1e-6))
                         for a, b in ((l0[i], l1[i]), (u0[i], u1[i])) if not tolrow[i]) for _, c in cand)
                ctx.check("row %d with bounds" % i, ok, "row is not a positive multiple of the unit-scaled row with its bounds")

class _Retol:
    """Hands the second optimiser the same tolerance/width-limit values as the first."""
    def __init__(self, ctx, pg0): self.__dict__.update(c=ctx, p=pg0)
    def real(self, n, *a):
        i = int(n[3:])
        return {"tol": lambda: self.p.tol[i], "lbh": lambda: self.p.lbh[i], "ubh": lambda: self.p.ubh[i]}[n[:3]]()
    def __getattr__(self, n): return getattr(self.c, n)

# ------------------------------------------------------------------ C12
def stated(nx, nu, na, nph):
    """What a problem says when nothing but its sizes is given."""
    full = lambda v, n: np.full((nph, n), float(v))
    none = lambda *k: None
    zero = lambda *k: 0
    d = dict(dynamics=[lambda *k: [0.0] * nx] * nph, path_constraints=[none] * nph, terminal_constraints=[none] * nph, running_costs=[zero] * nph, terminal_costs=[zero] * nph,
             phase_links=[(i, i + 1) for i in range(nph - 1)], lbe=np.zeros((nph - 1, nx)), ube=np.zeros((nph - 1, nx)),
             scale_x=np.ones(nx), scale_u=np.ones(nu), scale_a=np.ones(na), scale_t=1.0,
             x00=full(0, nx), xf0=full(0, nx), u00=full(0, nu), uf0=full(0, nu), a0=full(0, na), t00=full(0, 1), tf0=full(1, 1),
             lbx=full(-INF, nx), ubx=full(INF, nx), lbu=full(-INF, nu), ubu=full(INF, nu), lba=full(-INF, na), uba=full(INF, na),
             lbt0=full(0, 1), ubt0=full(INF, 1), lbtf=full(0, 1), ubtf=full(INF, 1),
             diff_u=np.zeros(nph, int), lbdu=np.full(nph, -15.0), ubdu=np.full(nph, 15.0), midu=np.ones(nph, int), du_continuity=np.zeros(nph, int))
    d["ubt0"][0] = 0.0
    return d

def h_C12(ctx, cfg):
    """A problem that leaves items out against one that states all of them."""
    cfg = {**DEF, **cfg}
    nx, nu, na, nph = cfg["nx"], cfg["nu"], cfg["na"], cfg["nph"]
    size = dict(n_states=nx, n_controls=nu, n_phases=nph, n_params=na)
    if cfg.get("short"): size = {k: v for k, v in size.items() if v != {"n_states": 1, "n_controls": 1, "n_phases": 1, "n_params": 0}[k]}
    with settings(cfg), sc.patched(ctx):
        src, _ = build_ocp(ctx, cfg)
        base = stated(nx, nu, na, nph)
        before = mp.OCP(**size)
        some, every = mp.OCP(**size), mp.OCP(**size)
        for k, v in base.items(): setattr(every, k, v)
        for k in cfg["decl"]:
            if cfg.get("inplace"):       # item by item, for the last phase only, next to a problem whose items all change
                v = cfg["inplace"] + 0.1 * list(base).index(k)
                for o in (some, every):
                    getattr(o, k)[-1] = [v + n for n in range(base[k].shape[1])] if np.ndim(base[k]) == 2 else v
                b = getattr(before, k)
                b[:] = 7.0 if isinstance(b, np.ndarray) else b
            else:
                for o in (some, every): setattr(o, k, getattr(src, k))
        s = {q: getattr(every, "scale_" + q) for q in "xuat"}
        p1 = Prog(ctx, cfg, every, s).finish()
        p0 = Prog.__new__(Prog)
        p0.__init__(_Retol(ctx, p1), {**cfg}, some, s)
        if cfg.get("opt"):               # optimiser defaults
            kw = {k: v for k, v in (("n_segments", p1.ns), ("poly_orders", cfg["opt"].get("p")), ("scheme", cfg["scheme"])) if k in cfg["opt"].get("give", ()) or (k == "poly_orders" and v)}
            p0.mpo = CLS[cfg["cls"]]()(some, **kw)
            if p1.adaptive: p0.mpo.mid_residuals, p0.mpo.tol_residual, p0.mpo.lbh, p0.mpo.ubh = p1.mpo.mid_residuals, list(p1.tol), list(p1.lbh), list(p1.ubh)
            p0.nlp, p0.bounds = p0.mpo.create_nlp()
        ad = p1.adaptive
        z0, h0 = ca.vec(ca.densify(p0.nlp["x"])), ca.vec(ca.densify(p0.mpo.seg_widths))
        g0, f0 = ca.vec(ca.densify(ca.SX(p0.nlp["g"]))), ca.SX(p0.nlp["f"])
        ok = z0.numel() == p1.nz and g0.numel() == ca.SX(p1.g if ctx.sym else p1.G).numel()
        ctx.check("size of the program", ok, "%d variables and %d constraints instead of %d and %d" % (z0.numel(), g0.numel(), p1.nz, p1.G.numel()))
        if not ok: return
        ins, arg = ([z0], [p1.Z]) if ad else ([z0, h0], [p1.Z, p1.Pv])
        if ctx.sym:
            sub = ca.vertcat(*ins), ca.vertcat(*arg)
            g0, f0 = ca.substitute(g0, *sub), ca.substitute(f0, *sub)
            us = ctx.unify_calls(sub)
            if us is not None: g0, f0 = ca.substitute(g0, *us), ca.substitute(f0, *us)
        else: g0, f0 = ca.Function("F0", ins, [g0, f0])(*arg)
        items = [("objective", f0, p1.f)] + [("constraint row %d" % i, a, b) for i, (a, b) in enumerate(zip(flat(g0), flat(p1.g)))]
        ctx.close_many(items, 1e-7)
        bi = []
        for k in ("lbx", "ubx", "lbg", "ubg"):
            a, b = list(p0.bounds[k]), list(p1.bounds[k])
            ctx.check("number of bounds", len(a) == len(b), k)
            if len(a) != len(b): return
            bi += [("%s of the program, entry %d" % (k, i), x, y) for i, (x, y) in enumerate(zip(a, b))]
        a, b = list(p0.mpo.initialize_solution()), list(p1.mpo.initialize_solution())
        ctx.check("size of the guess", len(a) == len(b))
        bi += [("guess of variable %d" % i, x, y) for i, (x, y) in enumerate(zip(a, b))]
        fin = [q for q in bi if sc_isfin(q[1]) and sc_isfin(q[2])]
        for q in bi:
            if not (sc_isfin(q[1]) and sc_isfin(q[2])): ctx.check(q[0], not sc_isfin(q[1]) and not sc_isfin(q[2]) and q[1] == q[2], "%s instead of %s" % (q[1], q[2]))
        ctx.close_many(fin, 1e-9)

# ------------------------------------------------------------------ configurations
def C(**k): return k
def checks():
    """Configurations: every feature of the transcription at small sizes, crossed with schemes / node intervals / meshes."""
    two = dict(nx=2, nu=2, na=2)
    base = [
        C(orders=[[2, 3]], nx=2, nu=1, na=1, path=[1], term=[1]),
        C(orders=[[1, 2]], scheme="LGL", tau=0, nx=1, nu=2, na=0, path=[2], term=[2], bnd="fin"),
        C(orders=[[3, 1, 2]], scheme="CGL", nx=2, nu=1, na=2, path=[1], term=[1], method="numerical"),
        C(orders=[[2, 1]], nph=2, nx=2, nu=1, na=1, path=[2, 0], term=[0, 2]),
        C(orders=[[2, 2]], nph=2, nx=1, nu=2, na=2, path=[0, 1], term=[1, 1], links=[[0, 1]], scheme="LGL"),
        C(orders=[[2, 1]], cls="h", nx=2, nu=2, na=0, path=[1], term=[1], tau=0),
        C(orders=[[2, 1]], cls="adaptive", nx=2, nu=1, na=1, path=[1], term=[1]),
        C(orders=[[1, 2]], cls="adaptive", nph=2, nx=1, nu=1, na=2, path=[1, 1], term=[1, 0], scheme="LGL", tau=0),
        C(orders=[[4]], nx=1, nu=1, path=[1], term=[1], scale=None, bnd="default"),
    ]
    th = [C(orders=[o], scheme=sch, tau=t, cls=c, nph=n, path=[1] * n, term=[1] * n, nx=2, nu=2, na=1)
          for o in ([2, 3], [3, 2, 1], [1, 1, 1], [5], [2, 4, 3]) for sch in ("LGR", "LGL", "CGL") for t in (-1, 0) for c in ("mpopt", "adaptive") for n in (1, 2)]
    th2 = [C(orders=[o], scheme=sch, tau=t, cls=c, nph=n, path=[2] * n, term=[2] * n, nx=x, nu=u, na=a, method=m)
           for o in ([6, 1, 4, 2], [8], [1, 1, 1, 1, 1]) for sch, t, m in (("LGR", 0, "numerical"), ("LGL", -1, "symbolic"), ("CGL", 0, "numerical")) for c in ("mpopt", "h", "adaptive") for n in (1, 3) for x, u, a in ((3, 1, 2), (1, 3, 0))]
    links = [
        C(orders=[[2, 1]], nph=2, nx=2, nu=2, na=1, bnd="fin"), C(orders=[[2, 1]], nph=3, nx=2, nu=1, bnd="mix"),
        C(orders=[[2]], nph=3, nx=1, nu=2, na=1, links=[[0, 2]]), C(orders=[[1, 1]], nph=3, nx=2, nu=1, links=[[2, 0], [0, 1]], scheme="LGL"),
        C(orders=[[1]], nph=4, nx=1, nu=1, links=[[0, 1], [1, 3], [0, 2], [2, 3]]), C(orders=[[1, 2]], cls="adaptive", nph=3, nx=2, nu=1, links=[[0, 1], [1, 2]]),
        C(orders=[[2]], cls="h", nph=2, nx=2, nu=2, links=[[1, 0]]), C(orders=[[1, 1]], nph=3, links=[]), C(orders=[[2]], nph=2, nx=1, nu=1, bnd="default", scale=None), C(orders=[[2]], nph=1),
    ]
    thl = [C(orders=[[2, 1]], nph=n, nx=x, nu=u, links=l, cls=c) for c in ("mpopt", "adaptive") for x in (1, 2, 3) for u in (1, 2)
           for n, l in ((2, None), (3, None), (4, None), (3, [[0, 2]]), (3, [[1, 0], [2, 1]]), (4, [[3, 1], [0, 3], [2, 2]]), (3, []))]
    opt = [
        C(orders=[[2, 3]], nu=2, diffu=[1]), C(orders=[[2, 3]], nu=2, duc=[1]), C(orders=[[2, 3]], nu=2, midu=[True]), C(orders=[[2, 3]], nu=2, midu=[False]),
        C(orders=[[1, 2, 1]], nu=1, diffu=[1], duc=[1], midu=[True], scheme="LGL", tau=0), C(orders=[[2, 2, 3]], nu=1, diffu=[1], duc=[1], scheme="CGL", bnd="fin"),
        C(orders=[[2, 1]], nph=2, nu=2, diffu=[1, 0], duc=[0, 1], midu=[False, True]), C(orders=[[1, 2]], nu=1, midu=[True], bnd="lo"), C(orders=[[1, 2]], nu=1, midu=[True], bnd="hi"), C(orders=[[2, 1]], nph=2, nu=1, diffu=[0, 1], duc=[1, 0], midu=[True, False]),
        C(orders=[[3]], nu=2, diffu=[1], duc=[1], midu=[True]), C(orders=[[2, 2]], nph=2, nu=1, diffu=[1, 1], duc=[1, 1], midu=[True, True], bnd="inf"),
        C(orders=[[2, 1]], cls="h", nu=2, diffu=[1], duc=[1], midu=[True]), C(orders=[[1]], nu=2, diffu=[1], duc=[1], midu=[True], bnd="fin"),
        C(orders=[[1, 1]], nu=2, nx=2, diffu=[1], duc=[1], duinf="l"), C(orders=[[2, 1]], nu=1, diffu=[1], duinf="u"), C(orders=[[2, 1]], nu=1, diffu=[1], duinf="lu"),
        C(orders=[[2, 1]], cls="adaptive", nu=2, diffu=[1], duc=[1]), C(orders=[[1, 2]], cls="adaptive", nph=2, nu=1, diffu=[0, 1], duc=[1, 0], scheme="LGL"),
    ]
    opt += [C(orders=[[2, 1]], nph=3, nu=3, diffu=[1, 0, 1], duc=[0, 1, 1], midu=[True, False, True]), C(orders=[[1, 2, 1, 3]], nu=1, nx=1, diffu=[1], duc=[1], midu=[True])]
    tho = [C(orders=[o], cls=c, nu=u, nph=n, diffu=list(d)[:n], duc=list(d)[::-1][:n], midu=[bool(v) for v in d][:n], scheme=sch, tau=t)
           for o in ([2, 3], [1, 2, 3]) for c in ("mpopt", "adaptive") for u in (1, 2) for n in (1, 2) for d in ((1, 1), (1, 0), (0, 1)) for sch, t in (("LGR", -1), ("LGL", 0), ("CGL", -1))]
    ada = [C(orders=[[2, 1]], cls="adaptive", nx=2, nu=1, na=1, bnd="fin"), C(orders=[[1, 2]], cls="adaptive", nx=1, nu=2, bnd="mix", scheme="LGL", tau=0),
           C(orders=[[2, 2]], cls="adaptive", nx=1, nu=1, bnd="inf"), C(orders=[[2, 1]], cls="adaptive", nx=2, nu=1, midres=False, bnd="fin"),
           C(orders=[[1, 2, 1]], cls="adaptive", nx=1, nu=1, nph=2, na=1, bnd="mix"), C(orders=[[3]], cls="adaptive", nx=1, nu=1, scheme="CGL", bnd="fin"),
           C(orders=[[2, 1]], cls="adaptive", nx=1, nu=1, nph=2, path=[1, 0], term=[0, 1], diffu=[1, 0], duc=[0, 1], bnd="fin"),
           C(orders=[[1, 1]], cls="adaptive", nx=1, nu=1, bnd="default", scale=None), C(orders=[[1, 1]], cls="adaptive", nx=2, nu=2, bnd="fin"), C(orders=[[1]], cls="adaptive", nx=2, nu=2, bnd="mix")] + [C(orders=[[1, 2]], cls="adaptive", nx=1, nu=1, bnd=b, midres=False) for b in ("lo", "hi")]
    ada += [C(orders=[[1, 2]], cls="adaptive", nph=3, nx=1, nu=1, na=1, path=[0, 1, 0], bnd="fin"), C(orders=[[1, 2, 1, 1]], cls="adaptive", nx=1, nu=1, bnd="mix")]
    tha = ada + [C(orders=[o], cls="adaptive", nx=x, nu=u, na=a, nph=n, bnd=b, scheme=s, tau=t) for o in ([2, 1], [3, 2], [1, 1, 2]) for x, u, a in ((2, 2, 0), (1, 1, 2))
           for n in (1, 2) for b in ("fin", "mix") for s, t in (("LGR", -1), ("LGL", 0), ("CGL", -1), ("LGR", 0))]
    # larger in one direction each: many segments, a high degree, many phases, many variables
    def big(pt=True, **k):
        def one(n, **q):
            r = dict(q, nph=n)
            if pt: r.update(path=[2] * n, term=[2] * n)
            for f in ("diffu", "duc", "midu"):
                if k.get(f): r[f] = [bool(k[f]) if f == "midu" else 1] * n
            return C(**{**r, **{f: v for f, v in k.items() if f not in ("diffu", "duc", "midu")}})
        return [one(1, orders=[[1, 1, 2, 1, 1, 1, 1]], nx=1, nu=1), one(1, orders=[[9]], nx=1, nu=1), one(1, orders=[[11, 2]], nx=1, nu=1, scheme="LGL"), one(6, orders=[[1]], nx=1, nu=1), one(1, orders=[[1, 2]], nx=6, nu=5)]
    cost = lambda l: [dict(c, part="cost") for c in l]
    exact = [C(orders=[o], scheme=s, tau=t, nph=n, deg=d, part="exact") for s, o, d in (("LGR", [2, 3], 2), ("LGR", [1, 2], 0), ("LGR", [4], 4), ("LGL", [2, 3], 3), ("LGL", [2, 2, 2], 3), ("LGL", [1, 2], 1), ("CGL", [3, 2], 2), ("CGL", [2, 2, 2], 2), ("CGL", [1, 1], 1))
             for t, n in ((-1, 1), (0, 2))]
    exact += [C(orders=[[2, 2]], cls="h", deg=2, part="exact")]
    bq = "n_segments<=3 per phase, degrees<=4 (thorough <=8), phases<=4, states/controls/parameters<=2 (thorough <=3), and single configurations beyond (7 segments; degree 11; 6 phases; 6 states, 5 controls, 4 parameters); all decision variables, widths, scales, bounds, guesses symbolic in [-3,3] / [0.05,1] / [0.1,10]; user functions uninterpreted; tolerance 1e-6 (1e-2 objective, of a range of about 400: the quadrature weights come from a numerical integrator)."
    allf = base + opt[4:8] + ada[:4] + links[:3]
    c11 = [C(orders=[[2, 1]], nx=2, nu=1, na=1, path=[1], term=[1], diffu=[1], duc=[1], midu=[True]), C(orders=[[1, 2]], nph=2, nx=1, nu=2, na=1, path=[1, 1], term=[1, 1], links=[[0, 1]], scheme="LGL", tau=0),
           C(orders=[[2, 1]], cls="adaptive", nx=1, nu=1, na=1, path=[1], term=[1], midres=False), C(orders=[[2, 2]], cls="h", nx=1, nu=1, bnd="default"),
           C(orders=[[1, 2]], cls="adaptive", nph=2, nx=2, nu=1, bnd="fin", midres=False, diffu=[1, 0], duc=[0, 1]),
           C(orders=[[2, 1]], cls="adaptive", nx=2, nu=1, na=2, bnd="fin"), C(orders=[[1, 2]], cls="adaptive", nph=2, nx=1, nu=2, na=1, bnd="mix", scheme="LGL", tau=0)]
    fs, gs = ["dynamics", "running_costs", "terminal_costs"], ["path_constraints", "terminal_constraints"]
    sep = [["dynamics"], ["running_costs"], ["terminal_costs"], gs, ["scale_x", "scale_u", "scale_t"], ["x00"], ["xf0", "tf0"], ["u00", "t00"], ["uf0"], ["lbx"], ["ubx"], ["lbu"], ["ubu"], ["lbt0"], ["ubt0"], ["lbtf"], ["ubtf"], ["diff_u"], ["diff_u", "ubdu"], ["du_continuity"], ["midu"]]
    pair = [["lbe"], ["ube"], ["phase_links"]]
    params = [["a0"], ["lba"], ["uba"], ["scale_a"], ["scale_x", "uba"]]
    full2 = dict(nph=2, nx=2, nu=1, path=[1, 1], term=[1, 0], diffu=[0, 1], duc=[1, 0], midu=[0, 1], bnd="fin")
    c12 = [C(orders=[[1, 2]], decl=[], nph=n, nx=x, nu=u, na=a, cls=c) for n, x, u, a, c in ((1, 1, 1, 0, "mpopt"), (2, 2, 1, 1, "mpopt"), (3, 1, 2, 0, "h"), (2, 1, 2, 2, "adaptive"))]
    c12 += [C(orders=[[2, 1]], decl=fs + (d if d[0] not in fs else []), **full2) for d in sep + pair] + [C(orders=[[1, 1]], decl=d, **full2) for d in sep[:4]]
    c12 += [C(orders=[[2, 1]], decl=fs + gs + d, na=2, **full2) for d in params] + [C(orders=[[2, 1]], decl=fs + d, cls="adaptive", **full2) for d in (["lbx", "ubu"], ["tf0"], ["ubtf", "lbe"], ["diff_u"])]
    num = ["x00", "xf0", "u00", "uf0", "a0", "t00", "tf0", "lbx", "ubx", "lbu", "ubu", "lba", "uba", "lbt0", "ubt0", "lbtf", "ubtf", "lbe", "ube", "lbdu", "ubdu", "midu", "du_continuity"]
    c12 += [C(orders=[[2, 1]], decl=[k], inplace=2.0 if k not in ("midu", "du_continuity") else 1, nph=3, nx=2, nu=2, na=2) for k in num] + [C(orders=[[1, 2]], decl=["diff_u", "lbdu"], inplace=1.0, nph=2), C(orders=[[1, 2]], decl=num[:9], inplace=1.0, nph=2, na=1, cls="adaptive")]
    c12 += [C(orders=[[1, 1]], decl=fs, short=True), C(orders=[[1, 1]], decl=fs, short=True, nx=2), C(orders=[[1, 1]], decl=fs, short=True, na=1, nph=2),
            C(orders=[[2, 2, 2]], decl=fs, opt=dict(give=("n_segments",), p=2)), C(orders=[[9]], decl=["dynamics"], opt=dict(give=()), scheme="LGR"), C(orders=[[2]], decl=fs, opt=dict(give=("scheme",), p=[2]), scheme="LGL"),
            C(orders=[[2]], decl=fs, cls="h", opt=dict(give=("scheme",), p=[2]), scheme="CGL"), C(orders=[[3, 3]], decl=fs, cls="adaptive", opt=dict(give=("n_segments", "scheme"), p=3), scheme="LGL")]
    c12 += [C(orders=[[1]], decl=[], nph=6, nx=2, nu=3, na=2), C(orders=[[1, 1, 1, 1, 1]], decl=["xf0", "ubu"], nph=4, nx=4, nu=3, na=4)]
    c11 += [c for c in big(na=2, diffu=1, midu=1) if c["orders"] != [[9]]]
    c12t = [C(orders=[[2, 1]], decl=fs + list(a) + list(b), cls=c, **full2) for a in sep[3:] for b in sep[3:] if a < b for c in ("mpopt", "adaptive")]
    K = lambda h, q, t, B=[]: Check(h, lambda: q + B + [x for x in t[::4] if x not in q], lambda: q + B + t, bounds=bq)
    return {
        "C01": K(rows_harness({"dyn"}), base, th + th2, big(na=4)),
        "C02": K(rows_harness({"path"}), base + [C(orders=[[1, 1]], nph=3, nx=1, nu=1, path=[1, 0, 2])], th + th2, big(na=1)),
        "C03": K(h_C03, base + [C(orders=[[1, 1]], nph=3, nx=2, nu=1, na=1, term=[1, 0, 2])] + [dict(c, rc=False, part="cost") for c in base + [C(orders=[[2]], nph=3, nx=1, na=1)]], th + th2, big(na=3)),
        "C04": K(h_C04, cost(base + [C(orders=[[2, 1]], nph=3, na=1)]) + exact, cost(th + th2), cost(big(na=2))),
        "C05": K(rows_harness({"link"}), links, thl, big(False)[3:] + [C(orders=[[1, 1]], nph=6, nx=2, nu=2, links=[[0, 3], [3, 1], [5, 2], [1, 4], [4, 5], [0, 5]])]),
        "C06": K(h_C06, base + links + ada[:4], th + thl + th2, big(False, na=4, bnd="mix")),
        "C07": K(rows_harness({"slope", "duc", "midu"}), opt, tho, big(False, diffu=1, duc=1, midu=1)),
        "C08": K(rows_harness(None), ada, tha, big(False, cls="adaptive", bnd="fin")),
        "C09": K(rows_harness(None, True), allf + [C(orders=[[2, 1]], dyn=False, rc=False, mayer=False), C(orders=[[2]], nph=2, dyn=False, links=[])], th[::4] + thl[::3] + tho[::4] + th2[::3], big(na=1, diffu=1, midu=1)),
        "C10": K(h_C10, base + links + ada[:4], th + thl + th2, big(False, na=4) + big(False, na=1, cls="adaptive")),
        "C12": Check(h_C12, lambda: c12, lambda: c12 + c12t, bounds=bq),
        "C11": K(h_C11, c11, [dict(c, midres=i % 2 == 0) for i, c in enumerate(th[::3])]),
    }
CHECKS = checks()
