"""P01-P06: retrieved, interpolated and derived data of a solution."""
from fractions import Fraction as F
import numpy as np
from lib import symcore as sc, ref
from lib.symcore import ca, mp, flat, INF
from lib.runner import Check
from props import nlp
from props.adapt import arr, total, widths
from props.colloc import settings
from props.logic import OR

def C(**k): return k
BASE = dict(nlp.DEF, nx=2, nu=1, na=0, orders=[1, 2], scheme="LGR", nph=1, rc=False, mayer=False, bnd="default", midres=False)

class View:
    """A problem, an optimiser holding a solution with arbitrary values, and the user-level reading of that solution."""
    def __init__(self, ctx, cfg, w=None):
        self.ctx, self.cfg = ctx, cfg
        self.ocp, self.s = nlp.build_ocp(ctx, cfg)
        self.pg = pg = nlp.Prog(ctx, cfg, self.ocp, self.s)
        if cfg["links"] is None: pass
        pg.finish()
        self.m = m = pg.mpo
        if cfg.get("pin"): self.pin(cfg["pin"])
        m._MUTE_ = True
        self.ns, self.nph, self.orders = pg.ns, cfg["nph"], pg.orders
        if w is not None or cfg.get("wfix"):
            fw = cfg["wfix"]
            w = [float(x) for i in range(self.nph) for x in fw[i % len(fw)]]
        elif not pg.adaptive:
            w = sum([widths(ctx, self.ns, "w%d_" % i, 0.05) for i in range(self.nph)], [])
        else: w = None
        if pg.adaptive:
            self.w = np.array(pg.wt, dtype=object)
            self.sw = arr(ctx, [self.w[s, p] for p in range(self.nph) for s in range(self.ns)])
        else:
            self.w = np.array(w, dtype=object).reshape(self.nph, self.ns).T
            self.sw = arr(ctx, w) if cfg.get("arr", True) else list(w)
        m._nlp_sw_params = self.sw
        pg.wt = self.w
        self.sol = {"x": pg.Z}
        self.M = nlp.refmats({**cfg, "method": "x"}, self.orders)
        self.geo = [nlp.Geo(pg, p, self.M) for p in range(self.nph)]
        self.L = self.M["t1"] - self.M["t0"]
    def pin(self, t):
        """prescribed start and final times in the solution vector (keeps the relative residuals bilinear)"""
        pg = self.pg
        Z = ca.SX(pg.Z) if self.ctx.sym else ca.DM(pg.Z)
        for ph in range(self.cfg["nph"]):
            for nm, v in (("t0", t[0] + ph), ("tf", t[1] + ph)): Z[pg.idx[nm, ph, 0, 0]] = v * float(self.s["t"])
            pg.t0[ph], pg.tf[ph] = t[0] + ph, t[1] + ph
        pg.Z = Z
    # nodal data of one phase in user units (or scaled)
    def data(self, ph, scaled=False):
        pg, s = self.pg, self.s
        dv = lambda k, q: s[k][q] if not scaled else 1.0
        N = pg.N
        x = [[pg.x[ph][i, k] / dv("x", k) for k in range(pg.x[ph].shape[1])] for i in range(N)]
        u = [[pg.u[ph][i, k] / dv("u", k) for k in range(pg.u[ph].shape[1])] for i in range(N)]
        g = self.geo[ph]
        t = [g.time(q, self.M["nd"][q][j]) for q, j in g.loc]
        a = [pg.a[ph][k] / dv("a", k) for k in range(len(pg.a[ph]))]
        return x, u, t, a
    def lag(self, s, tau, order=0):
        """values of the segment's Lagrange basis (or derivatives) at tau (a number or a Sym)"""
        nd = ref.nodes_mp(self.cfg["scheme"], self.orders[s], self.M["t0"], self.M["t1"])
        if not isinstance(tau, sc.Sym): return list(ref.matrix(nd, [float(tau)], order)[0])
        out = []
        for c in ref.bases(tuple(nd)):
            for _ in range(order): c = [k * v for k, v in enumerate(c)][1:]
            r = 0.0
            for v in reversed(c): r = r * tau + float(v)
            out.append(r)
        return out
    def poly(self, ph, s, tau, what="x", order=0, k=0):
        """(scaled) value at tau of the polynomial of segment s through the solution"""
        b = self.lag(s, tau, order)
        V = self.pg.x[ph] if what == "x" else self.pg.u[ph]
        st = self.geo[ph].start[s]
        r = 0.0
        for l, c in enumerate(b):
            if not isinstance(c, sc.Sym) and c == 0: continue
            r = c * V[st + l, k] + r
        return r
    def time(self, ph, s, tau):
        g = self.geo[ph]
        if isinstance(tau, sc.Sym): return g.ts[s] + g.h[s] * (tau - self.M["t0"])
        return g.time(s, tau)
    def dyn(self, ph, s, tau):
        """(scaled interpolated state, dynamics at the unscaled interpolated point, time)"""
        c, sc_ = self.cfg, self.s
        xs = [self.poly(ph, s, tau, "x", 0, k) for k in range(c["nx"])]
        us = [self.poly(ph, s, tau, "u", 0, k) for k in range(c["nu"])]
        t = self.time(ph, s, tau)
        a = [self.pg.a[ph][k] / sc_["a"][k] for k in range(len(self.pg.a[ph]))]
        av = nlp.args4(c, [v / sc_["x"][k] for k, v in enumerate(xs)], [v / sc_["u"][k] for k, v in enumerate(us)], t, a)
        f = self.ctx.uf_at("f%d" % ph, av, c["nx"]) if c["dyn"] else [0.0] * c["nx"]
        return xs, f, t
    # requested points of a phase, per segment
    def grid(self, kind, ph):
        m, t0, t1 = self.m, self.M["t0"], self.M["t1"]
        if kind == "mid-points": return [[float(v) for v in q] for q in self.M["mid"]]
        if kind == "spectral":
            n = ref.nodes(self.cfg["scheme"], self.cfg["ngrid"] + 2, t0, t1)[1:-1]
            return [[float(v) for v in n] for _ in range(self.ns)]
        if kind == "fixed":
            n = max(sum(self.orders) + 2, self.cfg["ngrid"] + 2)
            out = [[] for _ in range(self.ns)]
            for q in range(1, n - 1):
                z = q / (n - 1.0)
                acc = 0.0
                for s in range(self.ns):
                    nx = acc + self.w[s, ph]
                    if s < self.ns - 1 and isinstance(nx, sc.Sym): self.ctx.assume(OR(nx > z + 1e-6, nx < z - 1e-6))
                    if s == self.ns - 1 or bool(z <= nx):
                        out[s].append(t0 + (t1 - t0) * ((z - acc) / self.w[s, ph])); break
                    acc = nx
            return out
        raise ValueError(kind)
    def explicit(self, kind, ph):
        """explicit points: 'sym' symbolic, 'conc' numbers, with optional segments without points"""
        ctx, t0, t1 = self.ctx, self.M["t0"], self.M["t1"]
        out = []
        for s in range(self.ns):
            n = kind[1][s % len(kind[1])]
            if kind[0] == "sym": out.append([ctx.real("tau%d_%d_%d" % (ph, s, q), t0, t1) for q in range(n)])
            else: out.append([t0 + (t1 - t0) * (q + 1 + 0.25 * s + 0.125 * ph) / (n + 1.0) for q in range(n)])
        return out
    def nodes(self, grid):
        return [arr(self.ctx, g) if len(g) else np.zeros(0) for g in grid]

class limits(settings):
    """settings plus the library's grid sizes"""
    def __init__(self, cfg): super().__init__(cfg); self.cfg = cfg
    def __enter__(self):
        super().__enter__()
        self.g = (mp.mpopt._MAX_GRID_POINTS, mp.mpopt._MUTE_, mp.post_process._INTERPOLATION_NODES_PER_SEG)
        mp.mpopt._MAX_GRID_POINTS = self.cfg["ngrid"]
        mp.mpopt._MUTE_ = True
        if self.cfg.get("nint"): mp.post_process._INTERPOLATION_NODES_PER_SEG = self.cfg["nint"]
    def __exit__(self, *a):
        mp.mpopt._MAX_GRID_POINTS, mp.mpopt._MUTE_, mp.post_process._INTERPOLATION_NODES_PER_SEG = self.g
        return super().__exit__(*a)

def eqm(ctx, label, got, want, shape, tol=1e-7):
    """matrix comparison, entry by entry, with shape (None: any shape with the right number of entries)"""
    g = np.asarray(got, dtype=object) if not isinstance(got, (ca.SX, ca.DM)) else np.array(flat(got), dtype=object).reshape(got.shape)
    if shape is not None:
        ctx.check(label + ": shape", tuple(g.shape) == tuple(shape), "%s instead of %s" % (g.shape, shape))
        if tuple(g.shape) != tuple(shape): return
    ctx.close(label, flat(g), flat(want), tol)

def symgrid(cfg):
    """points are symbolic: matrices evaluated at them must be able to hold symbolic entries"""
    g = cfg.get("taus") or cfg.get("grid")
    return (isinstance(g, (tuple, list)) and g[0] == "sym") or (g == "fixed" and not cfg.get("wfix"))

def setup(ctx, cfg): return {**BASE, "ngrid": 2, **cfg}

def earlier(V, ctx, gr):
    """Another solution, on other widths and points, was processed by the same optimiser before;
    so was this one, at equally many other points."""
    m, n = V.m, ca.SX(V.pg.Z).numel() if ctx.sym else ca.DM(V.pg.Z).numel()
    z0 = {"x": (ca.SX if ctx.sym else ca.DM)(ca.DM([0.6 + 0.35 * np.sin(1.0 + q * q) for q in range(n)]))}
    old = m._nlp_sw_params
    m._nlp_sw_params = np.array([(1.0 + s) / sum(1.0 + q for q in range(V.ns)) for _ in range(V.nph) for s in range(V.ns)])
    for k in ([2, 1, 3], [1, 2]):
        nd = [V.nodes(V.explicit(("conc", k), p)) for p in range(V.nph)]
        m.get_dynamics_residuals(z0, nodes=nd)
        m.get_states_residuals(z0, nodes=nd)
        m.get_state_second_derivative(z0, nodes=nd)
    for g in ("mid-points", "fixed"): m.get_dynamics_residuals(z0, grid_type=[g] * V.nph)
    m.get_state_second_derivative(z0, grid_type="mid-points")
    m.process_results(z0, plot=False, scaling=True, residual_dx=False)
    mid, L = (V.M["t0"] + V.M["t1"]) / 2.0, float(V.M["t1"] - V.M["t0"])
    twin = [V.nodes([[mid + 0.6 * (t - mid) + 0.07 * L for t in seg] for seg in g]) for g in gr]
    for sol, sw in ((z0, m._nlp_sw_params), (V.sol, old)):
        m._nlp_sw_params = sw
        for p in reversed(range(V.nph)):
            m.get_states_residuals(sol, nodes=twin, phases=[p])
            m.get_dynamics_residuals_single_phase(sol, p, twin[p])
            m.get_state_second_derivative_single_phase(sol, p, twin[p])

# ------------------------------------------------------------------ P01
def h_P01(ctx, cfg):
    cfg = setup(ctx, cfg)
    with limits(cfg), sc.patched(ctx, True, dm_zeros=symgrid(cfg)):
        V = View(ctx, cfg)
        if cfg.get("plotph") is not None: V.ocp.phases_to_plot = V.m._ocp.phases_to_plot = cfg["plotph"]
        sel = cfg.get("sel", [])
        post = V.m.process_results(V.sol, plot=False, scaling=bool(cfg.get("scaled")), residual_dx=False)
        # factors that are not given count as one
        if cfg.get("strip"): post.options = {k: v for k, v in post.options.items() if not k.startswith("scale_")}
        if cfg.get("seen"):              # other selections were asked for before
            every = list(range(cfg["nph"]))
            for q in (every + every[:1], every[::-1] + every, every[-1:]): post.get_data(phases=q, interpolate=False); post.get_original_data(q)
        outs = [post.get_data(phases=list(sel), interpolate=False) if sel else post.get_data()]
        outs.append(post.get_original_data(list(sel)) if sel else post.get_original_data())
        if len(sel) == 1: outs.append(post.get_trajectories(sel[0]))
    phs = sel or list(V.ocp.phases_to_plot[0])
    D = [V.data(p, bool(cfg.get("scaled") or cfg.get("strip"))) for p in phs]
    n, nx, nu, na = len(phs) * V.pg.N, cfg["nx"], cfg["nu"], cfg["na"]
    for x, u, t, a in outs:
        eqm(ctx, "states", x, [d[0] for d in D], (n, nx))
        eqm(ctx, "controls", u, [d[1] for d in D], (n, nu))
        eqm(ctx, "times", t, [d[2] for d in D], (n, 1))
        eqm(ctx, "parameters", a, [d[3] for d in D], (len(phs) * na, 1) if na else None)

# ------------------------------------------------------------------ P02
def h_P02(ctx, cfg):
    cfg = setup(ctx, cfg)
    with limits(cfg), sc.patched(ctx, True, dm_zeros=symgrid(cfg)):
        V = View(ctx, cfg)
        sel = cfg.get("sel", [])
        scaled = bool(cfg.get("scaled"))
        post = V.m.process_results(V.sol, plot=False, scaling=scaled, residual_dx=False)
        if cfg.get("seen"):              # other selections and points were asked for before
            every, lo, hi = list(range(cfg["nph"])), float(V.M["t0"]), float(V.M["t1"])
            for j, q in enumerate((every + every[:1], every[::-1] + every, every[-1:])):
                post.get_interpolated_data(q, taus=[np.array([lo + (hi - lo) * (0.3 + 0.2 * i + 0.01 * s) for i in range(1 + (s + j) % 2)]) for s in range(V.ns)])
                if j: post.get_data(phases=q, interpolate=True)
            cnt = [len(g) for g in V.explicit(("conc", cfg["taus"][1]), 0)] if cfg.get("taus") else [mp.post_process._INTERPOLATION_NODES_PER_SEG - (s > 0) for s in range(V.ns)]
            for q in every[::-1]:        # equally many points, elsewhere
                post.get_interpolated_data([q], taus=[np.array([lo + (hi - lo) * (0.07 + 0.8 * i / (c + 1.0)) for i in range(c)]) for c in cnt])
        if cfg.get("taus"):
            gr = [V.explicit(cfg["taus"], 0) for _ in [0]][0]
            x, u, t, a = post.get_interpolated_data(list(sel) or [0], taus=V.nodes(gr))
        else:
            n = mp.post_process._INTERPOLATION_NODES_PER_SEG
            t0, t1 = V.M["t0"], V.M["t1"]
            un = [t0 + (t1 - t0) * q / (n - 1.0) for q in range(n)]
            gr = [un if s == 0 else un[1:] for s in range(V.ns)]
            x, u, t, a = post.get_data(phases=list(sel), interpolate=True)
    phs = sel or ([0] if cfg.get("taus") else list(V.ocp.phases_to_plot[0]))
    ex, eu, et, ea = [], [], [], []
    dv = lambda k, q: 1.0 if scaled else V.s[k][q]
    for p in phs:
        for s in range(V.ns):
            for tau in gr[s]:
                ex += [V.poly(p, s, tau, "x", 0, k) / dv("x", k) for k in range(cfg["nx"])]
                eu += [V.poly(p, s, tau, "u", 0, k) / dv("u", k) for k in range(cfg["nu"])]
                et.append(V.time(p, s, tau))
        ea += V.data(p, scaled)[3]
    n = len(et)
    eqm(ctx, "interpolated states", x, ex, (n, cfg["nx"]))
    eqm(ctx, "interpolated controls", u, eu, (n, cfg["nu"]))
    eqm(ctx, "interpolated times", t, et, None)
    eqm(ctx, "parameters", a, ea, (len(phs) * cfg["na"], 1) if cfg["na"] else None)
    if not cfg.get("taus"):
        tt = flat(t)
        if len(tt) == n:
            for q, p in enumerate(phs):
                k = n // len(phs)
                ctx.close("first time is the start", tt[q * k], V.geo[p].ts[0], 1e-9)
                ctx.close("last time is the end", tt[(q + 1) * k - 1], V.geo[p].ts[0] + V.geo[p].T * total(list(V.w[:, p])), 1e-7)

# ------------------------------------------------------------------ residual data
def request(V, cfg):
    """-> keyword arguments of the residual call, and the requested grid per phase"""
    kind = cfg["grid"]
    if isinstance(kind, str): return {"grid_type": kind}, [V.grid(kind, p) for p in range(V.nph)]
    if isinstance(kind, (tuple, list)) and kind[0] == "default":       # optimiser's own grid types per phase
        V.m.grid_type = [kind[1 + p % (len(kind) - 1)] for p in range(V.nph)]
        return {}, [V.grid(V.m.grid_type[p], p) for p in range(V.nph)]
    g = [V.explicit(kind, p) for p in range(V.nph)]
    return {"nodes": [V.nodes(q) for q in g]}, g

def refmax(vals):
    """largest magnitude, decided on the path"""
    m = 0.0
    for v in vals:
        a = abs(v)
        if bool(a > m): m = a
    return m

def per_segment(ctx, label, got, want, width, tol=1e-6, rel=None):
    """got[seg] holds len(want[seg]) rows of `width` entries; rel[k]: divisor of column k"""
    ctx.check(label + ": one entry per segment", len(got) == len(want), "%d entries" % len(got))
    if len(got) != len(want): return
    for s, (g, w) in enumerate(zip(got, want)):
        fl = flat(g) if g is not None else []
        ctx.check(label + ": size", len(fl) == len(w) * width, "segment %d has %d values instead of %d" % (s, len(fl), len(w) * width))
        if len(fl) != len(w) * width: continue
        wf = [v for row in w for v in (row if isinstance(row, (list, tuple)) else [row])]
        if rel is None: ctx.close("%s segment %d" % (label, s), fl, wf, tol)
        else: ctx.close("%s segment %d" % (label, s), [v * rel[i % width] for i, v in enumerate(fl)], wf, tol)

def dyn_ref(V, ph, gr):
    cfg = V.cfg
    R, F, T = [], [], []
    for s in range(V.ns):
        r_, f_, t_ = [], [], []
        for tau in gr[s]:
            xs, f, t = V.dyn(ph, s, tau)
            hs = V.geo[ph].h[s]
            fs = [hs * (f[k] * V.s["x"][k]) for k in range(cfg["nx"])]
            f_.append(fs); t_.append(t)
            r_.append([V.poly(ph, s, tau, "x", 1, k) - fs[k] for k in range(cfg["nx"])])
        R.append(r_); F.append(f_); T.append(t_)
    return R, F, T

def relcheck(ctx, V, label, got, R, F):
    nx = V.cfg["nx"]
    mx = [refmax([row[k] for seg in F for row in seg]) for k in range(nx)]
    if not any(F): return
    for m in mx:
        ctx.assume(m >= 1e-3)
    ctx.assume_feasible()
    per_segment(ctx, label, got, R, nx, rel=mx)

def h_P03(ctx, cfg):
    cfg = setup(ctx, cfg)
    with limits(cfg), sc.patched(ctx, True, dm_zeros=symgrid(cfg)):
        V = View(ctx, cfg)
        kw, gr = request(V, cfg)
        if cfg.get("seen"): earlier(V, ctx, gr)
        if cfg.get("rel"): kw["residual_type"] = "relative"
        t, r = V.m.get_dynamics_residuals(V.sol, **kw)
        if cfg.get("again"): t, r = V.m.get_dynamics_residuals(V.sol, **kw)
    ctx.check("one entry per phase", len(r) == V.nph and len(t) == V.nph)
    if len(r) != V.nph or len(t) != V.nph: return
    for p in range(V.nph):
        R, F, T = dyn_ref(V, p, gr[p])
        per_segment(ctx, "times of phase %d" % p, t[p], T, 1)
        if cfg.get("rel"): relcheck(ctx, V, "relative residual of phase %d" % p, r[p], R, F)
        else: per_segment(ctx, "residual of phase %d" % p, r[p], R, cfg["nx"])

QT = 5e-3      # the library integrates with a tolerance of 1e-7 or so; values reach 1e3
def state_ref(V, ph, gr):
    cfg = V.cfg
    nx = cfg["nx"]
    R, X, T, U = [], [], [], []
    for s in range(V.ns):
        r_, x_, t_, u_, fv = [], [], [], [], []
        for tau in gr[s]:
            xs, f, t = V.dyn(ph, s, tau)
            fv.append((xs, f)); t_.append(t)
            u_.append([V.poly(ph, s, tau, "u", 0, k) for k in range(cfg["nu"])])
        hs, st = V.geo[ph].h[s], V.geo[ph].start[s]
        for i, tau in enumerate(gr[s]):
            c = ref.integral([float(v) for v in gr[s]], V.M["t0"], float(tau))
            xi = [V.pg.x[ph][st, k] + hs * (V.s["x"][k] * nlp.S([(float(c[q]), fv[q][1][k]) for q in range(len(fv))])) for k in range(nx)]
            x_.append(xi)
            r_.append([fv[i][0][k] - xi[k] for k in range(nx)])
        R.append(r_); X.append(x_); T.append(t_); U.append(u_)
    return R, X, T, U

def h_P04(ctx, cfg):
    cfg = setup(ctx, cfg)
    with limits(cfg), sc.patched(ctx, True, dm_zeros=symgrid(cfg)):
        V = View(ctx, cfg)
        kw, gr = request(V, cfg)
        if "grid_type" in kw:
            V.m.grid_type = [kw.pop("grid_type")] * V.nph
        if cfg.get("seen"): earlier(V, ctx, gr)
        phs = cfg.get("phases")
        if phs is not None: kw["phases"] = list(phs)
        if cfg.get("rel"): kw["residual_type"] = "relative"
        if cfg.get("again"):                       # another grid first
            V.m.get_states_residuals(V.sol, nodes=[V.nodes(V.explicit(("conc", [3, 1, 2]), p)) for p in range(V.nph)])
        xi, ui, t, r = V.m.get_states_residuals(V.sol, **kw)
        if cfg.get("rel"): r1 = V.m.get_states_residuals(V.sol, **{k: v for k, v in kw.items() if k != "residual_type"})[3]
        if cfg.get("again"): t2, r2 = V.m.get_dynamics_residuals(V.sol, **{k: v for k, v in kw.items() if k == "nodes"})
    ctx.check("one entry per phase", all(len(q) == V.nph for q in (xi, ui, t, r)))
    for p in range(V.nph):
        if phs is not None and p not in phs:
            ctx.check("phase not requested", r[p] is None); continue
        R, X, T, U = state_ref(V, p, gr[p])
        per_segment(ctx, "times of phase %d" % p, t[p], T, 1)
        per_segment(ctx, "integrated states of phase %d" % p, xi[p], X, cfg["nx"], QT)
        per_segment(ctx, "controls of phase %d" % p, ui[p], U, cfg["nu"])
        if cfg.get("rel"):       # the absolute residual (checked above) divided by the largest integrated magnitude
            rows = lambda q: [[] if g is None else [flat(v) for v in g] for g in q]
            relcheck(ctx, V, "relative residual of phase %d" % p, r[p], rows(r1[p]), rows(xi[p]))
            per_segment(ctx, "residual of phase %d" % p, r1[p], R, cfg["nx"], QT)
        else: per_segment(ctx, "residual of phase %d" % p, r[p], R, cfg["nx"], QT)
        if cfg.get("again"):
            R2, _, T2 = dyn_ref(V, p, gr[p])
            per_segment(ctx, "dynamics residual after the state residual, phase %d" % p, r2[p], R2, cfg["nx"])

def h_P05(ctx, cfg):
    cfg = setup(ctx, cfg)
    with limits(cfg), sc.patched(ctx, True, dm_zeros=symgrid(cfg)):
        V = View(ctx, cfg)
        if cfg["grid"] is None: kw, gr = {}, [V.grid("spectral", p) for p in range(V.nph)]
        else:
            kw, gr = request(V, cfg)
        if cfg.get("seen"): earlier(V, ctx, gr)
        if cfg["grid"] is not None and not isinstance(cfg["grid"], str) and cfg["grid"][0] == "default":
            out = [V.m.get_state_second_derivative_single_phase(V.sol, p) for p in range(V.nph)]
            t, dx, du = [o[0] for o in out], [o[1] for o in out], [o[2] for o in out]
        else: t, dx, du = V.m.get_state_second_derivative(V.sol, **kw)
    for p in range(V.nph):
        T = [[V.time(p, s, tau) for tau in gr[p][s]] for s in range(V.ns)]
        X = [[[V.poly(p, s, tau, "x", 2, k) for k in range(cfg["nx"])] for tau in gr[p][s]] for s in range(V.ns)]
        U = [[[V.poly(p, s, tau, "u", 2, k) for k in range(cfg["nu"])] for tau in gr[p][s]] for s in range(V.ns)]
        per_segment(ctx, "times of phase %d" % p, t[p], T, 1)
        per_segment(ctx, "second derivative of the states, phase %d" % p, dx[p], X, cfg["nx"], 1e-5)
        per_segment(ctx, "second derivative of the controls, phase %d" % p, du[p], U, cfg["nu"], 1e-5)

def h_P06(ctx, cfg):
    cfg = setup(ctx, cfg)
    with limits(cfg), sc.patched(ctx, True, dm_zeros=symgrid(cfg)):
        V = View(ctx, cfg)
        V.m.grid_type = [cfg["grid"]] * V.nph
        gr = [V.grid(cfg["grid"], p) for p in range(V.nph)]
        rx, rdx = ctx.choose("residual_x", [False, True]), ctx.choose("residual_dx", [False, True])
        scaling = ctx.choose("scaling", [False, True])
        if cfg.get("seen"): earlier(V, ctx, gr)
        if V.pg.adaptive and ctx.choose("another solve in between", [False, True]):
            V.m._nlp_sw_params = np.array([1.0 / V.ns] * (V.ns * V.nph))
        post = V.m.process_results(V.sol, plot=False, scaling=scaling, residual_x=rx, residual_dx=rdx)
    R = post.residuals
    ctx.check("no residuals unless requested", (R is None or R == {}) if not (rx or rdx) else True, str(R)[:80])
    R = R or {}
    ctx.check("state residuals exactly when requested", ("t_x" in R) == rx)
    ctx.check("dynamics residuals exactly when requested", ("t_dx" in R) == rdx)
    ctx.check("solution", post.solution is V.sol and post.scaling == scaling and len(post.trajectories) == V.nph)
    for k, name in (("scale_x", "x"), ("scale_u", "u"), ("scale_t", "t")) + ((("scale_a", "a"),) if cfg["na"] else ()):
        ctx.close("scale factor " + k, flat(post.options[k]), flat(V.s[name]), 1e-12)
    ctx.close("widths", flat(post.options["seg_widths"]), flat(V.sw), 1e-12)
    for p in range(V.nph):
        if rx and "t_x" in R:
            Rr, _, T, _ = state_ref(V, p, gr[p])
            per_segment(ctx, "times of the state residual, phase %d" % p, R["t_x"][0][p], T, 1)
            per_segment(ctx, "state residual of phase %d" % p, R["t_x"][1][p], Rr, cfg["nx"], QT)
        if rdx and "t_dx" in R:
            Rr, _, T = dyn_ref(V, p, gr[p])
            per_segment(ctx, "times of the dynamics residual, phase %d" % p, R["t_dx"][0][p], T, 1)
            per_segment(ctx, "dynamics residual of phase %d" % p, R["t_dx"][1][p], Rr, cfg["nx"])

# ------------------------------------------------------------------ P08
def h_P08(ctx, cfg):
    """interpolation grids: uniform over the interval, or the given grid refined by halving"""
    cfg = setup(ctx, cfg)
    n, k = cfg.get("n"), cfg["k"]
    t0, t1 = cfg.get("lim", (-1.0, 1.0))
    with sc.patched(ctx, True):
        post = mp.post_process(options={"tau0": t0, "tau1": t1})
        pts = [ctx.real("p%d" % i, t0, t1) for i in range(k)]
        for a, b in zip(pts, pts[1:]): ctx.assume(b - a >= 0.01)
        og = arr(ctx, pts) if k else None
        kw = {} if n is None else {"n": n}
        if k: kw["taus_orig"] = og
        if cfg.get("method"): kw["method"] = cfg["method"]
        g = post.get_interpolation_taus(**kw)
        if k: ctx.close("the original grid is not modified", flat(og), pts, 1e-12)
    g = flat(g)
    N = 75 if n is None else n
    if cfg.get("method", "uniform") == "uniform" or not k:
        ctx.check("number of points", len(g) == N, "%d" % len(g))
        if len(g) == N: ctx.close("equally spaced from end to end", g, [t0 + (t1 - t0) * i / (N - 1.0) for i in range(N)], 1e-9)
        return
    m, h = k, 1
    while m < N and h < 64: m, h = 2 * m - 1, 2 * h
    ctx.check("number of points", len(g) == m, "%d instead of %d" % (len(g), m))
    want = [pts[i] + (pts[i + 1] - pts[i]) * (j / float(h)) for i in range(k - 1) for j in range(h)] + [pts[-1]]
    if len(g) == len(want): ctx.close("original points and equal subdivisions, in order", g, want, 1e-9)

# ------------------------------------------------------------------ P07
class Axes:
    """Records what is drawn."""
    def __init__(self): self.curves = []
    def plot(self, *a, **k):
        pos = [v for v in a if not isinstance(v, str)]
        if len(pos) == 1: pos = [list(range(len(flat(pos[0])))), pos[0]]
        while pos:
            t, y, pos = pos[0], pos[1], pos[2:]
            y = np.asarray(y, dtype=object) if not isinstance(y, (ca.SX, ca.DM)) else np.array(flat(y), dtype=object).reshape(y.shape)
            if y.ndim == 1: y = y.reshape(-1, 1)
            y = y.reshape(y.shape[0], -1)
            for c in range(y.shape[1]): self.curves.append((flat(t), flat(y[:, c])))
        return [None]
    scatter = step = plot
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return lambda *a, **k: None
class Figure:
    """Axes by their cell in the grid of the figure; the same cell gives the same axes, as in matplotlib."""
    def __init__(self, plt): self.plt, self.at, self.cur = plt, {}, None
    def add_subplot(self, *a, **k):
        if not a: a = (1, 1, 1)
        if len(a) == 1 and isinstance(a[0], Axes): self.cur = a[0]; return a[0]
        if len(a) == 1: a = tuple(int(c) for c in str(a[0]))
        r, c, i = a
        lo, hi = (i if isinstance(i, (tuple, list)) else (i, i))
        q = [divmod(int(n) - 1, int(c)) for n in (lo, hi)]
        if not all(0 <= y < r for y, _ in q): raise ValueError("num must be an integer with 1 <= num <= %d" % (r * c))
        box = (F(q[0][0], r), F(q[1][0] + 1, r), F(min(x for _, x in q), c), F(max(x for _, x in q) + 1, c))
        if box not in self.at: self.at[box] = self.plt.ax()
        self.cur = self.at[box]
        return self.cur
    def subplots(self, nrows=1, ncols=1, **k):
        r = np.empty((nrows, ncols), dtype=object)
        for i in np.ndindex(nrows, ncols): r[i] = self.add_subplot(nrows, ncols, 1 + i[0] * ncols + i[1])
        return r if k.get("squeeze") is False else r[0, 0] if nrows * ncols == 1 else r.ravel() if 1 in (nrows, ncols) else r
    def gca(self, *a, **k): return self.cur or self.add_subplot()
    @property
    def axes(self): return list(self.at.values())
    def overlaps(self):
        b = [k for k, a in self.at.items() if a.curves]
        return [(p, q) for n, p in enumerate(b) for q in b[n + 1:] if max(p[0], q[0]) < min(p[1], q[1]) and max(p[2], q[2]) < min(p[3], q[3])]
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return lambda *a, **k: None
class Plt:
    """Stands in for matplotlib.pyplot."""
    def __init__(self): self.axes, self.figs = [], []
    def ax(self):
        a = Axes(); self.axes.append(a)
        return a
    def figure(self, num=None, *a, **k):
        if isinstance(num, Figure): return num
        self.figs.append(Figure(self))
        return self.figs[-1]
    def gcf(self): return self.figs[-1] if self.figs else self.figure()
    def gca(self, *a, **k): return self.gcf().gca()
    def subplot(self, *a, **k): return self.gcf().add_subplot(*a, **k)
    def subplots(self, nrows=1, ncols=1, **k):
        f = self.figure()
        return f, f.subplots(nrows, ncols, **k)
    def plot(self, *a, **k): return self.gca().plot(*a, **k)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return lambda *a, **k: None
class plotting:
    def __enter__(self): self.p, mp.plt = mp.plt, Plt(); return mp.plt
    def __exit__(self, *a): mp.plt = self.p; return False

def curves(ctx, label, drawn, want):
    """the drawn curves are the wanted ones, in any order"""
    ctx.check(label + ": number of curves", len(drawn) == len(want), "%d instead of %d" % (len(drawn), len(want)))
    if len(drawn) != len(want): return
    if ctx.sym:
        al = [v for c in drawn + want for q in c for v in q]
        ps = iter(sc.P.polys([sc.sxof(v) for v in al], ctx.V)) if al else iter(())
        pt = ctx.randpoint(5)
        ev = lambda v: sc.P.evalp(next(ps), pt)
    else: ev = float
    fp = [[[ev(v) for v in q] for q in c] for c in drawn + want]
    fd, fw = fp[:len(drawn)], fp[len(drawn):]
    used = set()
    for k, w in enumerate(fw):
        def dist(d): return INF if len(d[0]) != len(w[0]) or len(d[1]) != len(w[1]) else max([abs(a - b) for q, r in zip(d, w) for a, b in zip(q, r)] + [0.0])
        j = min((i for i in range(len(fd)) if i not in used), key=lambda i: dist(fd[i]))
        used.add(j)
        ctx.close("%s: curve %d, abscissae" % (label, k), drawn[j][0], want[k][0], 1e-7)
        ctx.close("%s: curve %d, ordinates" % (label, k), drawn[j][1], want[k][1], 1e-7)

def cols(M, t, dims=None):
    M = np.array(flat(M), dtype=object).reshape(np.shape(M))
    return [(flat(t), list(M[:, d])) for d in (range(M.shape[1]) if dims is None else dims)]

def h_P07(ctx, cfg):
    cfg = setup(ctx, cfg)
    with limits(cfg), sc.patched(ctx, True, dm_zeros=symgrid(cfg)), plotting() as plt:
        V = View(ctx, cfg)
        kind, ip, sel = cfg["kind"], bool(cfg.get("ip", True)), cfg.get("sel")
        flags = cfg.get("flags", (False, False))
        if cfg.get("plotph") is not None: V.ocp.phases_to_plot = V.m._ocp.phases_to_plot = cfg["plotph"]
        g = cfg.get("grid", "mid-points")
        V.m.grid_type = [g] * V.nph
        if kind == "evolution":          # one curve per refinement step, all in one plot
            m, draws, want = V.m, cfg["n"], []
            m.plot_residual_evolution = True
            lims = lambda j: (-1e-4, 1e-4) if cfg.get("free") else sorted((-1) ** j * 1e-5 * v for v in (j + 1, j + 1.5))
            for it in range(draws):
                T = [[np.array([0.25 + s + 0.5 * k + 2 * p + 0.125 * it for k in range(2)]) for s in range(V.ns)] for p in range(V.nph)]
                R = [[np.array([[ctx.real("r%d_%d_%d_%d" % (it, p, s, k), *lims(2 * s + k))] for k in range(2)]) for s in range(V.ns)] for p in range(V.nph)]
                m.iter_count, m.get_dynamics_residuals = it, (lambda *a, T=T, R=R, **k: (T, R))
                m.get_segment_width_parameters(V.sol, options=cfg["opt"])
                ph = sorted({p for q in V.ocp.phases_to_plot for p in q})
                want.append(([float(t) for p in ph for s in range(V.ns) for t in T[p][s]], [abs(R[p][s][k, 0]) for p in ph for s in range(V.ns) for k in range(2)]))
            ax = [a for a in plt.axes if a.curves]
            ctx.check("one plot for all steps", len(ax) == 1 and len(plt.figs) == 1, "%d plots, %d figures" % (len(ax), len(plt.figs)))
            if len(ax) != 1: return
            n = len(ax[0].curves)
            ctx.check("every step is drawn equally often", n >= draws and n % draws == 0, "%d curves for %d steps" % (n, draws))
            if n < draws or n % draws: return
            curves(ctx, "evolution", ax[0].curves, [w for w in want for _ in range(n // draws)])
            return
        if kind == "residual":
            call = {"dx": V.m.get_dynamics_residuals, "x": V.m.get_states_residuals, "ddx": V.m.get_state_second_derivative}[cfg["what"]]
            kw = {"nodes": [V.nodes(V.explicit(g, p)) for p in range(V.nph)]} if not isinstance(g, str) else {} if cfg["what"] == "x" else {"grid_type": g}
            groups = cfg.get("groups")       # residual plot of selected groups of phases
            out = call(V.sol, plot=not groups, **kw)
            if groups: mp.post_process.plot_residuals(out[0], out[1], phases=groups)
            if cfg.get("twice"):         # into the plot which is there already
                f, a = plt.figs[-1], [b for b in plt.axes if b.curves][-1]
                if groups: mp.post_process.plot_residuals(out[0], out[1], phases=groups, fig=f, axs=a)
                else: call(V.sol, plot=True, fig=f, axs=a, **kw)
            t, r = (out[2], out[3]) if cfg["what"] == "x" else (out[0], out[1])
            T, N = [], []
            for p in (sorted({p for q in groups for p in q}) if groups else range(V.nph)):
                for s in range(V.ns):
                    rr = [] if r[p][s] is None else [flat(row) for row in r[p][s]]
                    T += flat(t[p][s])
                    N += [_norm(row) for row in rr]
            ax = [a for a in plt.axes if a.curves]
            ctx.check("one residual plot", len(ax) == 1, "%d plots" % len(ax))
            if len(ax) != 1: return
            ctx.check("something is drawn", len(ax[0].curves) >= 1)
            curves(ctx, "residual norms", ax[0].curves, [(T, N)] * len(ax[0].curves))
            return
        post = V.m.process_results(V.sol, plot=(kind == "process"), scaling=bool(cfg.get("scaled")), residual_x=flags[0], residual_dx=flags[1])
        if cfg.get("noopt"): post = mp.post_process(post.solution, post.trajectories, {k: v for k, v in post.options.items() if k != "phases_to_plot"})
        ret = None
        for rep in range(2 if cfg.get("twice") else 1):      # the second time into the plots of the first
            into = dict(fig=ret[0], axs=ret[1]) if rep else {}
            if kind == "phases": ret = post.plot_phases(sel, interpolate=ip, residuals=False, **into)
            elif kind == "phase": ret = post.plot_phase(sel[0], interpolate=ip, **into)
            elif kind == "x": ret = post.plot_x(dims=cfg.get("dims"), phases=sel, interpolate=ip, axis=cfg.get("axis", 1), **into)
            elif kind == "u": ret = post.plot_u(dims=cfg.get("dims"), phases=sel, interpolate=ip, axis=cfg.get("axis", 1), **into)
            nfig = len(plt.figs) if not rep else nfig
        groups = list(V.ocp.phases_to_plot) if kind == "process" else [sel or ([0] if cfg.get("noopt") else list(V.ocp.phases_to_plot[0]))]
        want = []
        if kind != "process": ctx.check("plot handles are returned", isinstance(ret, tuple) and len(ret) == 2 and all(r is not None for r in ret), "returned %r" % (type(ret),))
        for ph in groups:
            D = post.get_data(phases=list(ph), interpolate=False)
            E = post.get_data(phases=list(ph), interpolate=True) if ip else None
            if kind in ("phases", "phase", "process"):
                for q in (0, 1): want.append(cols(D[q], D[2]) + (cols(E[q], E[2]) if E else []))
                if kind == "process":
                    for f, key in ((flags[0], "t_x"), (flags[1], "t_dx")):
                        if not f: continue
                        t, r = post.residuals[key]
                        T = [v for p in range(V.nph) for s in range(V.ns) for v in flat(t[p][s])]
                        R = [flat(row) for p in range(V.nph) for s in range(V.ns) if r[p][s] is not None for row in r[p][s]]
                        want.append([(T, [row[k] for row in R]) for k in range(cfg["nx"])])
            else:
                q = 0 if kind == "x" else 1
                dims = cfg.get("dims") or list(range(cfg["nx"] if kind == "x" else cfg["nu"]))
                for d in (dims if isinstance(dims[0], list) else [dims]):
                    if kind == "x": want.append(cols((E or D)[q], (E or D)[2], d))
                    else: want.append(cols(D[q], D[2], d) + (cols(E[q], E[2], d) if E else []))
    ax = [a for a in plt.axes if a.curves]
    if cfg.get("twice"):
        want = [w * 2 for w in want]
        ctx.check("the given plots are used", len(plt.figs) == nfig, "%d figures instead of %d" % (len(plt.figs), nfig))
    ctx.check("no two plots lie over each other", not any(f.overlaps() for f in plt.figs))
    ctx.check("number of plots", len(ax) == len(want), "%d plots with data instead of %d" % (len(ax), len(want)))
    if len(ax) != len(want): return
    for k, (a, w) in enumerate(zip(ax, want)): curves(ctx, "plot %d" % k, a.curves, w)

def _norm(row):
    if len(row) == 1: return abs(row[0])
    q = 0.0
    for v in row: q = v * v + q
    return q.sqrt() if isinstance(q, sc.Sym) else float(q) ** 0.5

REL = dict(scale="symx", wfix=[[0.375, 0.625], [0.5, 0.5]], pin=(0.25, 1.75))
def some(q, t, k):
    """Quick configurations: those of the quick list and every k-th of the further thorough ones that are not costly."""
    return q + [c for c in t[len(q):] if c.get("cost", 0) < 20][::k]

def large(per=None, top=9, **k):
    """larger in one direction each: many segments, a high degree, many phases, many variables"""
    sizes = [dict(nph=1, orders=[1, 1, 2, 1, 1, 1], nx=1), dict(nph=1, orders=[top], nx=1), dict(nph=1, orders=[2, top - 1], nx=1, scheme="LGL"), dict(nph=5, orders=[1, 2], nx=1), dict(nph=1, orders=[1, 2], nx=5, nu=4, na=4)]
    return [C(**{**k, **q, **(per(q) if per else {})}) for q in sizes]

def checks():
    p01 = [C(sel=[]), C(sel=[0], na=2, nu=2, strip=True), C(nph=2, sel=[1, 0], strip=True), C(sel=[0], na=1), C(nph=2, na=2, sel=[1, 0]), C(nph=2, sel=[1], nu=2, scaled=True), C(nph=3, nx=1, orders=[1, 1], sel=[2, 0, 1], na=1), C(nph=2, sel=[], plotph=[[0, 1], [1]]), C(nph=2, sel=[], plotph=[[1]], na=1, scaled=True),
           C(cls="adaptive", na=1, sel=[0]), C(cls="adaptive", nph=2, nx=1, orders=[2, 1], sel=[1, 0], na=1, scaled=True), C(cls="h", orders=[2, 2], sel=[0]), C(sel=[0], orders=[3], scheme="CGL", tau=0, nu=2, na=1), C(nph=2, sel=[0, 1], orders=[2, 1], scheme="LGL", na=3), C(nph=2, sel=[0, 0], arr=False)]
    p01 += [C(nph=2, nx=2, sel=q, na=1, seen=True, scaled=b, cls=c) for q, b, c in (([0, 1], False, "mpopt"), ([1], True, "mpopt"), ([1, 0], False, "adaptive"), ([], False, "mpopt"))] + [C(nph=3, nx=1, orders=[1, 1], sel=[2, 0, 1], na=1, seen=True)]
    p01 += large(lambda q: dict(sel=list(range(q["nph"]))[::-1]), na=1)
    p01t = p01 + [C(nph=3, nx=3, nu=2, na=2, orders=[2, 3, 1], scheme=s, tau=t, sel=q, cls=c, scaled=b) for s in ("LGR", "LGL", "CGL") for t in (-1, 0) for q in ([0, 1, 2], [2, 1]) for c, b in (("mpopt", False), ("mpopt", True), ("adaptive", False))]
    p02 = [C(sel=[0], nint=4, na=1), C(sel=[0], orders=[2, 1, 3], nint=3, tau=0), C(nph=2, orders=[2, 2], nint=3, sel=[1, 0], na=1), C(nph=2, sel=[], nint=4, scaled=True, na=2), C(sel=[0], taus=("sym", [2, 1])), C(sel=[0], orders=[2, 1, 2], taus=("sym", [1, 0, 2]), scheme="CGL"), C(nph=2, sel=[0, 1], taus=("sym", [1, 2]), na=1, scaled=True),
           C(cls="adaptive", sel=[0], nint=3, na=1), C(cls="adaptive", nph=2, orders=[1, 1], nint=3, sel=[1]), C(sel=[0], nint=None, orders=[1, 2]), C(cls="h", orders=[3, 1], nint=4, sel=[0], scheme="LGL"), C(sel=[0], nint=2, orders=[2, 2, 2]), C(orders=[4], nint=6, scheme="LGL", method="num", tau=0)]
    p02 += [C(nph=2, sel=q, na=1, nint=3, seen=True, orders=o, cls=c) for q, o, c in (([0, 1], [2, 1], "mpopt"), ([1, 0], [1, 2], "adaptive"), ([1], [2, 2], "h"))] + [C(nph=2, sel=[1, 0], taus=("sym", [1, 2]), na=1, seen=True), C(sel=[0], orders=[2, 1, 2], taus=("conc", [1, 0, 2]), seen=True)]
    p02 += large(lambda q: dict(sel=list(range(q["nph"]))[::-1]), na=1, nint=4) + large(lambda q: dict(sel=[q["nph"] - 1], taus=("conc", [1, 2, 0])))
    p02t = p02 + [C(nph=3, nx=2, nu=2, na=2, orders=o, scheme=s, tau=t, sel=q, nint=5, cls=c) for s in ("LGR", "LGL", "CGL") for t in (-1, 0) for q, o in (([0, 1, 2], [2, 3, 1]), ([2, 1], [4, 2])) for c in ("mpopt", "adaptive")] + [C(nph=2, orders=[3, 2, 4], taus=("sym", [2, 1, 1]), scheme=s, sel=[1, 0]) for s in ("LGR", "LGL", "CGL")]
    p03 = [C(grid="mid-points"), C(grid="mid-points", orders=[2, 1], na=1, nph=2, scheme="LGL"), C(grid="spectral", na=1), C(grid=("sym", [1, 1]), nx=1), C(grid=("sym", [1, 0, 1]), orders=[1, 1, 1], nx=1, na=1), C(grid=("conc", [2, 1]), nph=2, tau=0, nu=2), C(grid=("conc", [0, 2]), nph=2, again=True),
           C(grid="fixed", orders=[1, 1], nx=1, ngrid=2, cost=5), C(grid="fixed", orders=[2, 1], ngrid=3, wfix=[[0.5, 0.5], [0.25, 0.75]], nph=2, na=1), C(grid="fixed", orders=[1, 1, 1], ngrid=1, wfix=[[0.9, 0.05, 0.05]]),
           C(grid=("default", "mid-points", "spectral"), nph=2), C(grid="mid-points", rel=True, **REL, nx=1, orders=[1, 2]), C(grid=("conc", [1, 1]), rel=True, **REL, nx=1, nph=2, orders=[1, 1]), C(grid=("conc", [1, 1]), rel=True, **REL, nx=2, orders=[1, 1]), C(grid=("conc", [1, 0]), rel=True, **REL, nx=2, orders=[1, 1]),
           C(grid="mid-points", cls="adaptive", na=1), C(grid="mid-points", cls="adaptive", nph=2, orders=[1, 1], tau=0), C(grid="mid-points", cls="h", scale="unit", arr=False, scheme="CGL", orders=[3, 1])]
    p03 += [C(grid="mid-points", nph=2, orders=[1, 2], na=1, seen=True), C(grid=("conc", [2, 1]), nph=2, orders=[2, 2], tau=0, seen=True), C(grid="spectral", nph=1, orders=[2, 1], cls="adaptive", seen=True), C(grid="fixed", orders=[2, 1], ngrid=3, wfix=[[0.5, 0.5], [0.25, 0.75]], nph=2, seen=True)]
    p03 += large(grid="mid-points") + large(grid=("conc", [1, 0, 2]), cls="adaptive", na=1)
    p03t = p03 + [C(grid=g, nph=2, nx=2, nu=2, na=1, orders=o, scheme=s, tau=t, cls=c) for g in ("mid-points", "spectral") for s in ("LGR", "LGL", "CGL") for t in (-1, 0) for o in ([2, 3, 1], [3, 3]) for c in ("mpopt", "adaptive")] + [C(grid="fixed", orders=[1, 2], nx=1, ngrid=4, cost=20), C(grid="fixed", orders=[1, 1, 1], nx=1, ngrid=3, cost=20), C(grid=("sym", [2, 2]), orders=[2, 3], na=1), C(grid=("conc", [2, 2]), rel=True, **REL, nx=1, orders=[1, 2], cost=40), C(grid="mid-points", rel=True, **REL, nx=1, orders=[2, 2], cost=40)]
    p04 = [C(grid="mid-points"), C(grid="mid-points", orders=[2, 1], na=1, nph=2, scheme="LGL"), C(grid="spectral", na=1), C(grid=("conc", [2, 1]), nph=2, tau=0, nu=2), C(grid=("conc", [0, 2]), nph=2, again=True), C(grid=("conc", [3, 1, 2]), orders=[1, 2, 1], again=True, na=1),
           C(grid="fixed", orders=[2, 1], ngrid=3, wfix=[[0.5, 0.5], [0.25, 0.75]], nph=2, na=1), C(grid="fixed", orders=[1, 1, 1], ngrid=1, wfix=[[0.9, 0.05, 0.05]]), C(grid=("default", "mid-points", "spectral"), nph=2, phases=[1]), C(grid=("conc", [2, 2]), nph=3, phases=[2, 0], nx=1, orders=[1, 1]),
           C(grid="mid-points", rel=True, **REL, nx=1, orders=[1, 2]), C(grid=("conc", [1, 1]), rel=True, **REL, nx=2, orders=[1, 1]), C(grid=("conc", [1, 1]), rel=True, **REL, nx=1, nph=2, orders=[1, 1]),
           C(grid="mid-points", cls="adaptive", na=1), C(grid="mid-points", cls="adaptive", nph=2, orders=[1, 1], tau=0), C(grid="mid-points", cls="h", scale="unit", arr=False, scheme="CGL", orders=[3, 1])]
    p04 += [C(grid="mid-points", nph=2, orders=[1, 2], na=1, seen=True), C(grid=("conc", [2, 1]), nph=2, orders=[2, 2], tau=0, seen=True), C(grid="spectral", nph=1, orders=[2, 1], cls="adaptive", seen=True), C(grid="fixed", orders=[2, 1], ngrid=3, wfix=[[0.5, 0.5], [0.25, 0.75]], nph=2, seen=True)]
    p04 += [C(grid=("conc", q), rel=True, **REL, nx=1, orders=[1, 1]) for q in ([1, 0], [0, 1])]
    p04 += large(top=5, grid="mid-points") + large(top=5, grid=("conc", [1, 0, 2]), cls="adaptive", na=1)
    p04t = p04 + [C(grid=g, nph=2, nx=2, nu=2, na=1, orders=o, scheme=s, tau=t, cls=c) for g in ("mid-points", "spectral") for s in ("LGR", "LGL", "CGL") for t in (-1, 0) for o in ([2, 3, 1], [3, 3]) for c in ("mpopt", "adaptive")] + [C(grid=("conc", [2, 2]), rel=True, **REL, nx=1, orders=[1, 2], cost=40), C(grid="mid-points", rel=True, **REL, nx=1, orders=[2, 2], cost=40)]
    p05 = [C(grid=None), C(grid=None, nph=2, orders=[2, 3], tau=0, nu=2), C(grid="mid-points", orders=[2, 3], na=1), C(grid="spectral", orders=[3, 2], scheme="LGL"), C(grid=("sym", [1, 2]), orders=[2, 3]), C(grid=("sym", [1, 0, 1]), orders=[3, 1, 2], nph=2, nx=1), C(grid=("conc", [2, 0]), orders=[4, 2], nph=2, scheme="CGL"),
           C(grid="fixed", orders=[2, 2], nx=1, ngrid=3, cost=5), C(grid="fixed", orders=[2, 3], ngrid=4, wfix=[[0.5, 0.5], [0.25, 0.75]], nph=2), C(grid=("default", "mid-points", "spectral"), nph=2, orders=[2, 2]), C(grid=None, cls="adaptive", orders=[2, 3], na=1), C(grid="mid-points", cls="h", orders=[3, 3], scale="unit", arr=False, method="num")]
    p05 += [C(grid="mid-points", nph=2, orders=[3, 2], na=1, seen=True), C(grid=("conc", [2, 1]), nph=2, orders=[3, 4], tau=0, seen=True), C(grid="fixed", orders=[2, 3], ngrid=3, wfix=[[0.5, 0.5], [0.25, 0.75]], nph=2, seen=True)]
    p05 += [C(grid="mid-points", nph=2, orders=[1, 2], na=1, seen=True), C(grid=("conc", [2, 1]), nph=2, orders=[2, 2], tau=0, seen=True), C(grid="spectral", nph=1, orders=[2, 1], cls="adaptive", seen=True), C(grid="fixed", orders=[2, 1], ngrid=3, wfix=[[0.5, 0.5], [0.25, 0.75]], nph=2, seen=True)]
    p05 += large(grid="mid-points") + large(grid=("conc", [1, 0, 2]), cls="adaptive")
    p05t = p05 + [C(grid=g, nph=2, nx=3, nu=2, na=1, orders=o, scheme=s, tau=t, cls=c, ngrid=4) for g in (None, "mid-points") for s in ("LGR", "LGL", "CGL") for t in (-1, 0) for o in ([2, 3, 1], [4, 5]) for c in ("mpopt", "adaptive")] + [C(grid="fixed", orders=[2, 3], nx=1, ngrid=5, cost=20), C(grid=("sym", [2, 2, 2]), orders=[3, 4, 2], nph=2)]
    p06 = [C(cls=c, nph=n, grid=g, na=a, orders=o) for c in ("mpopt", "adaptive", "h") for n, g, a, o in ((1, "mid-points", 1, [1, 2]), (2, "spectral", 0, [1, 1]))] + [C(cls=c, nph=2, grid="fixed", wfix=[[0.5, 0.5], [0.3, 0.7]], orders=[1, 2], na=1) for c in ("mpopt", "h")]
    p06 += [C(cls=c, nph=2, grid="mid-points", na=1, orders=[1, 2], seen=True) for c in ("mpopt", "adaptive")]
    p06 += large(top=5, grid="mid-points", cls="mpopt") + large(top=5, grid="spectral", cls="adaptive")
    p06t = p06 + [C(cls=c, nph=2, grid=g, na=1, orders=[2, 3, 1], nx=2, nu=2, scheme=s) for c in ("mpopt", "adaptive", "h") for g in ("mid-points", "spectral") for s in ("LGR", "LGL", "CGL")] + [C(cls="mpopt", nph=3, grid="fixed", wfix=[[0.5, 0.5], [0.3, 0.7], [0.8, 0.2]], orders=[3, 2], na=2)]
    p07 = [C(kind="phases", sel=[0]), C(kind="phases", sel=[1, 0], nph=2, ip=False, na=1), C(kind="phases", sel=None, nph=2, plotph=[[0, 1], [1]], scaled=True), C(kind="phase", sel=[1], nph=2), C(kind="phase", sel=[0], ip=False, cls="adaptive"),
           C(kind="x", sel=None), C(kind="x", sel=[1], nph=2, dims=[1], ip=False), C(kind="x", sel=[0, 1], nph=2, nx=3, dims=[[0, 2], [1]], axis=0), C(kind="x", sel=[0], nx=3, dims=[2, 0]), C(kind="x", sel=[0], dims=[[1], [0]], ip=False), C(kind="x", sel=[0], dims=[[0, 1]]),
           C(kind="u", sel=None, nu=2), C(kind="u", sel=[1, 0], nph=2, nu=2, dims=[1]), C(kind="u", sel=[0], nu=3, dims=[[0], [1, 2]], axis=0), C(kind="u", sel=[0], ip=False, nu=2, dims=[[1], [0]])]
    p07 += [C(kind="process", plotph=[[0, 1]], nph=2, flags=f, orders=o, grid=g, nx=2, **k) for f in ((False, False), (True, False), (False, True), (True, True)) for o, g, k in (([1, 1], "mid-points", {}), ([1, 2], "mid-points", {}), ([1, 1, 1], "fixed", dict(wfix=[[0.8, 0.1, 0.1], [0.3, 0.3, 0.4]], ngrid=2)))]
    p07 += [C(kind=k, sel=[0], twice=True, ip=i, nx=2, nu=2, orders=[1, 2]) for k in ("phases", "phase", "x", "u") for i in (True, False)] + [C(kind="u", sel=[0], nu=3, dims=[[0], [1, 2]], axis=0, twice=True)]
    p07 += [C(kind="residual", what=w, nph=2, groups=g, orders=[1, 2], nx=1, twice=True) for w, g in (("dx", None), ("x", None), ("ddx", None), ("dx", [(1,)]))]
    p07 += [C(kind="residual", what="dx", nph=2, groups=g, orders=[1, 2], grid="mid-points") for g in ([(0,)], [(1,)], [(0, 1)], [(0,), (1,)])] + [C(kind=k, sel=None, noopt=True, nph=n, ip=i) for k, n, i in (("phases", 1, True), ("x", 2, True), ("u", 2, False))]
    p07 += [C(kind="process", plotph=[[0], [1, 0]], nph=2, flags=(False, True), cls="adaptive"), C(kind="process", plotph=[[0]], flags=(True, True), orders=[2], scaled=True)]
    p07 += [C(kind="residual", what=w, nph=n, orders=o, grid=g, nx=x, **k) for w in ("dx", "x", "ddx") for n, o, g, x, k in ((1, [1, 2], "mid-points", 1, {}), (2, [1, 1], "mid-points", 2, {}), (2, [1, 2], "mid-points", 1, {}), (2, [1, 1, 1], ("conc", [1, 0, 2]), 1, {}), (2, [1, 1, 1], "fixed", 1, dict(wfix=[[0.8, 0.1, 0.1], [0.3, 0.3, 0.4]], ngrid=2)))]
    p07 += [C(kind="evolution", cls="h", nph=n, nx=1, orders=[1, 1], plotph=pp, n=k, opt=o) for n, pp, k in ((1, [(0,)], 2), (2, [(0, 1)], 3), (2, [(1,)], 4)) for o in (dict(method="residual", sub_method="merge_split"), dict(method="control_slope"), dict(method="residual"))]
    p07 += [C(kind="evolution", cls="h", free=True, nx=1, orders=[1, 1], plotph=[(0,)], n=1, opt=dict(method="residual"))]
    p07 += large(lambda q: dict(sel=list(range(q["nph"]))[::-1]), kind="phases") + large(lambda q: dict(sel=list(range(q["nph"])), dims=list(range(q["nx"]))[::-1]), kind="x", ip=False) + large(lambda q: dict(sel=[q["nph"] - 1]), kind="u") + large(kind="residual", what="dx", grid="mid-points")[:4]
    b = "1-3 segments of degree 1-3 (thorough: up to 5), 1-3 phases, 1-2 states (thorough: 3), 1-2 controls, 0-3 parameters, and single configurations beyond (6 segments; degree 9, for the integrated residuals 5; 5 phases; 5 states, 4 controls, 4 parameters); all solution entries, scale factors and widths symbolic; "
    for c in p07: c["nint"] = 3
    p08 = [C(k=0), C(k=0, n=2), C(k=3, n=7), C(k=0, n=9, method="other")] + [C(k=k, n=n, method="other", lim=l) for k in (2, 3, 4) for n in (2, 3, 5, 6, 20) for l in ((-1.0, 1.0), (0.0, 1.0))] + [C(k=2, n=None, method="other"), C(k=5, n=40, method="other"), C(k=2, n=70, method="other")]
    p08t = p08 + [C(k=k, n=n, method="other", lim=(0.0, 3.0)) for k in (2, 3, 5, 7) for n in (4, 8, 9, 10, 17, 33, 60, 130, 300)]
    p07t = p07 + [dict(c, nph=3, scheme=sch, na=1, nint=4) for c in p07 for sch in ("LGL", "CGL") if c["kind"] != "process" or len(c["plotph"]) > 1]
    return {
        "P08": Check(h_P08, lambda: p08, lambda: p08t, "original grids of 2-5 (thorough: 7) arbitrary increasing points at least 0.01 apart, up to 75 (thorough: 300) requested points"),
        "P07": Check(h_P07, lambda: p07, lambda: p07t, b + "state, control and phase plots with every listed selection, residual plots on 1-3 points per segment, also the evolution of the residuals over 2-3 refinement steps; matplotlib replaced by a recorder of the drawn curves"),
        "P01": Check(h_P01, lambda: some(p01, p01t, 5), lambda: p01t, b + "every listed phase selection, scaled and unscaled"),
        "P02": Check(h_P02, lambda: some(p02, p02t, 5), lambda: p02t, b + "2-6 or 50 uniform points per segment, or 1-3 arbitrary points per segment"),
        "P03": Check(h_P03, lambda: some(p03, p03t, 7), lambda: p03t, b + "1-4 points per segment on mid-point, spectral, fixed (also with arbitrary widths) or arbitrary grids; dynamics uninterpreted; relative form with up to 4 points"),
        "P04": Check(h_P04, lambda: some(p04, p04t, 7), lambda: p04t, b + "1-4 points per segment on mid-point, spectral, fixed (prescribed widths) or prescribed explicit grids; dynamics uninterpreted; relative form with up to 3 points"),
        "P05": Check(h_P05, lambda: some(p05, p05t, 7), lambda: p05t, b + "1-4 points per segment on mid-point, spectral, fixed (also with arbitrary widths) or arbitrary grids"),
        "P06": Check(h_P06, lambda: some(p06, p06t, 3), lambda: p06t, b + "all eight combinations of residual and scaling flags; mid-point, spectral and fixed grids of 1-3 points per segment"),
    }
CHECKS = checks()
