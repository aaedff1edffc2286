"""A01-A05: mesh refinement and the residual grids."""
import math, itertools, numpy as np
from lib import symcore as sc, ref, poly as P
from lib.symcore import ca, mp, flat, INF
from lib.runner import Check
from props import nlp
from props.colloc import settings
from props.logic import AND, OR, NOT, IMP, NEAR

def C(**k): return k
def arr(ctx, v): return np.array(v, dtype=object if ctx.sym else float)
def total(v):
    s = 0.0
    for x in v: s = x + s
    return s
def hobj(**k):
    o = mp.mpopt_h_adaptive.__new__(mp.mpopt_h_adaptive)
    for n, v in k.items(): setattr(o, n, v)
    return o
def widths(ctx, n, name="w", lo=0.02):
    """positive widths summing to one"""
    w = [ctx.real("%s%d" % (name, i), lo, 1.0) for i in range(n - 1)]
    last = 1.0 - total(w)
    ctx.assume(last >= lo); ctx.assume_feasible()
    return w + [last]

# ------------------------------------------------------------------ A01
def h_A01(ctx, cfg):
    n = cfg["n"]
    w = [ctx.real("w%d" % i, 0.01, 1.0) for i in range(n)]
    tol = ctx.real("tol", 1e-3, 1.0)
    if cfg.get("mat"):
        R = []
        for i in range(n):
            k = cfg["mat"][i % len(cfg["mat"])]
            R.append(None if k is None else arr(ctx, [[ctx.real("r%d_%d_%d" % (i, a, b), -2, 2) for b in range(k[1])] for a in range(k[0])]))
        r = [None if x is None else [v if bool(v >= 0) else -v for v in x.ravel()] for x in R]
        exc = [False if v is None else OR([a > tol for a in v]) for v in r]
        for v in r:
            for a in v or []: ctx.assume(OR(a > tol + 1e-6, a < tol - 1e-6))
    else:
        r = [ctx.real("r%d" % i, 0.0, 2.0) for i in range(n)]
        for a in r: ctx.assume(OR(a > tol + 1e-6, a < tol - 1e-6))
        exc = [a > tol for a in r]
    ctx.assume_feasible()
    with sc.patched(ctx):
        W = arr(ctx, w) if cfg.get("arr", True) else list(w)
        if cfg.get("mat"):
            new = hobj(n_segments=n).refine_segment_widths_based_on_residuals(R, W, ERR_TOL=tol, method="merge_split")
        else:
            new = mp.mpopt_h_adaptive.merge_split_segments_based_on_residuals(list(r), W, ERR_TOL=tol)
    new = flat(new)
    ctx.check("number of widths", len(new) == n, "%d widths instead of %d" % (len(new), n))
    if len(new) != n: return
    for i in range(n): ctx.check("positive width", new[i] > 0, "width %d" % i)
    ctx.close("total of the widths", total(new), total(w), 1e-9)
    ex = [bool(e) for e in exc]          # decided on this path
    merge_split_checks(ctx, ex, w, new)

def merge_split_checks(ctx, ex, w, new, when=True, label=""):
    """`ex`: which segments exceed the tolerance"""
    n = len(w)
    groups = [(k, [i for i, _ in g]) for k, g in itertools.groupby(enumerate(ex), lambda t: t[1])]
    bad = [g for g in groups if g[0]]
    if len(groups) == n or not bad:
        if when is True: ctx.close_many([("width unchanged" + label, new[i], w[i]) for i in range(n)], 1e-9)
        else: ctx.check("width unchanged" + label, IMP(when, AND([NEAR(a, b, 1e-9) for a, b in zip(new, w)])))
        return
    free = n - len(groups)
    alts = []
    for parts in itertools.product(range(1, free + 2), repeat=len(bad)):
        if sum(parts) - len(bad) != free: continue
        e, it = [], iter(parts)
        for k, g in groups:
            s = total([w[i] for i in g])
            m = next(it) if k else 1
            e += [s / float(m)] * m
        alts.append(AND([NEAR(a, b, 1e-9) for a, b in zip(new, e)]))
    ctx.check("converged groups become one segment, the others are divided equally" + label, IMP(when, OR(alts)) if when is not True else OR(alts), "mask %s" % ex)

# ------------------------------------------------------------------ A02
def area_checks(ctx, r, n, new, tol=1e-7, lo={}, hi={}):
    m = len(r)
    A = [0.0]
    for i in range(m - 1): A.append(A[-1] + 0.5 * (r[i] + r[i + 1]))
    b = 0.0
    for k in range(n - 1):
        b = b + new[k]
        x = b * float(m - 1)
        for j in range(m - 1):
            if k + 1 in lo and k + 1 in hi and j != lo[k + 1]: continue        # proved to lie in another interval
            inside = AND(x >= j, x <= j + 1)
            d = A[j] + (x - j) * (A[j + 1] - A[j]) - A[m - 1] * ((k + 1.0) / n)
            ctx.check("equal areas", IMP(inside, AND(d <= tol, d >= -tol)), "boundary %d in sample interval %d" % (k + 1, j))

def h_A02(ctx, cfg):
    m, n = cfg["m"], cfg["n"]
    r = [0.0 if i in cfg.get("zero", ()) else ctx.real("r%d" % i, 0.0, 2.0) for i in range(m)]
    live = [i for i in range(m) if i not in cfg.get("zero", ())]
    ctx.assume(total([r[i] for i in live]) >= 0.1)
    with sc.patched(ctx):
        if cfg.get("segs"):
            # through the refinement, from signed residual matrices (one state), with missing segments
            segs, k = [], 0
            for c in cfg["segs"]:
                if c is None: segs.append(None); k += 1; continue
                segs.append(arr(ctx, [[r[k + i] * (-1.0 if (k + i) % 2 else 1.0)] for i in range(c)])); k += c
            new = hobj(n_segments=n).refine_segment_widths_based_on_residuals(segs, [1.0 / n] * n, ERR_TOL=1e-3, method="equal_area")
        else:
            new = mp.mpopt_h_adaptive.get_roots_wrt_equal_area(arr(ctx, r), n)
    new = flat(new)
    ctx.check("number of widths", len(new) == n)
    if len(new) != n: return
    lo, hi = {}, {0: 0}          # what is proved about boundary k: above lo, at most hi
    if ctx.sym:
        # lemmas: which sample interval each boundary lies in on this path
        mdl = ctx.query(sc.z3.BoolVal(True))[1]
        for k in range(1, n):
            x = total(new[:k]) * float(m - 1)
            if mdl is None or not isinstance(x, sc.Sym): continue
            j = sum(1 for q in range(1, m) if sc.z3.is_true(mdl.eval((x > q).z, model_completion=True)))
            if ctx.lemma(x > j): lo[k] = j
            if ctx.lemma(x <= j + 1): hi[k] = j + 1
    for i in range(n):
        if i in hi and i + 1 in lo and lo[i + 1] >= hi[i]:
            # boundaries in different intervals: the width is positive because of the two lemmas
            a, b = sc.z3.Reals("boundary next")
            ctx.check("positive width", sc.z3.Implies(sc.z3.And(a <= hi[i], b > lo[i + 1]), b - a > 0), "width %d" % i)
        else: ctx.check("positive width", new[i] > 0, "width %d" % i)
    ctx.close("total of the widths", total(new), 1.0, 1e-8)
    area_checks(ctx, r, n, new, lo=lo, hi=hi)

# ------------------------------------------------------------------ A03
def h_A03(ctx, cfg):
    N, n, nu = cfg["N"], cfg["n"], cfg.get("nu", 1)
    t = [ctx.real("t0", -1, 1)]
    for i in range(1, N): t.append(t[-1] + ctx.real("dt%d" % i, 0.05, 1))
    du = [[ctx.real("du%d_%d" % (i, k), 0.0, 2) for k in range(nu)] for i in range(N)]
    thr = ctx.real("thr", 0.01, 2) if cfg.get("thr", True) else 0.0
    sq = [total([v * v for v in row]) for row in du]
    with sc.patched(ctx):
        grid = arr(ctx, [t[0], t[-1]])
        kw = dict(threshold=thr) if cfg.get("thr", True) else {}
        times = mp.mpopt_h_adaptive.compute_time_at_max_values(grid, arr(ctx, t), arr(ctx, du), **kw)
        got = list(flat(times)) if len(times) else []
        # which node each time is: nodes are distinct
        idx = []
        for q in got:
            k = next((i for i in range(N) if bool(NEAR(q, t[i], 1e-9))), None)
            ctx.check("returned time is a node", k is not None)
            if k is None: return
            idx.append(k)
        ctx.check("only interior times", all(0 < k < N - 1 for k in idx), str(idx))
        ctx.check("each time once", len(set(idx)) == len(idx), str(idx))
        eps = 1e-9
        for i in range(1, N - 1):
            v = sq[i] - thr * thr
            if i in idx: ctx.check("slope at or above the threshold", v >= -eps, "node %d" % i)
            else: ctx.check("no steep time is dropped", v <= eps, "node %d" % i)
        for a, b in zip(idx, idx[1:]): ctx.check("steepest first", sq[a] >= sq[b] - eps, "nodes %d, %d" % (a, b))
        if not idx: return
        w = mp.mpopt_h_adaptive.compute_segment_widths_at_times(arr(ctx, got), n, t[0], t[-1])
        w = flat(w)
    ctx.check("number of widths", len(w) == n, str(len(w)))
    if len(w) != n: return
    for i in range(n): ctx.check("positive width", w[i] > 0, "width %d" % i)
    ctx.close("total of the widths", total(w), 1.0, 1e-8)
    b, bd = t[0], []
    for i in range(n - 1):
        b = b + w[i] * (t[-1] - t[0]); bd.append(b)
    for k in idx[:n - 1]:
        ctx.check("boundary at a preferred time", OR([NEAR(x, t[k], 1e-7) for x in bd]), "node %d" % k)

# ------------------------------------------------------------------ A04
def h_A04(ctx, cfg):
    nph, n = cfg["nph"], cfg["n"]
    o = mp.OCP(n_states=cfg.get("nx", 1), n_controls=1, n_phases=nph)
    orders = cfg.get("orders", [2] * n)
    opts = cfg["opts"]
    with settings(cfg), sc.patched(ctx, True):
        m = mp.mpopt_h_adaptive(o, n_segments=n, poly_orders=list(orders))
        m.tol_residual = [ctx.real("tol%d" % i, 1e-3, 1.0) for i in range(nph)]
        if "lim" in cfg: m.lbh, m.ubh = [list(v) for v in zip(*cfg["lim"])]
        old = [list(cfg["fixw"][i % len(cfg["fixw"])]) if cfg.get("fixw") else widths(ctx, n, "w%d_" % i) for i in range(nph)]
        if cfg.get("have", True): m._nlp_sw_params = arr(ctx, sum(old, []))
        else:
            if hasattr(m, "_nlp_sw_params"): del m._nlp_sw_params
            old = [[1.0 / n] * n for _ in range(nph)]
        R, mag = [], []
        for i in range(nph):
            segs, mm = [], []
            for s in range(n):
                k = cfg["res"][i % len(cfg["res"])][s]
                if k is None: segs.append(None); continue
                a = arr(ctx, [[ctx.real("r%d_%d_%d_%d" % (i, s, j, c), -2, 2) for c in range(cfg.get("nx", 1))] for j in range(k)])
                segs.append(a); mm += list(a.ravel())
            R.append(segs); mag.append(mm)
        if cfg.get("pos"):
            for mm in mag:
                for v in mm: ctx.assume(v >= 0.001)
        if "conv" in cfg:
            for v in mag[cfg["conv"]]: ctx.assume(AND(v < m.tol_residual[cfg["conv"]] - 1e-4, -v < m.tol_residual[cfg["conv"]] - 1e-4))
            ctx.assume_feasible()
        calls, geo = [], []
        def stub(solution, *a, **k):
            calls.append(solution)
            return [[[] for _ in range(n)] for _ in range(nph)], R
        m.get_dynamics_residuals = stub
        sol = {"x": None}
        if opts.get("method") == "control_slope":
            nlpx = m.create_nlp()[0]["x"]
            if ctx.sym:
                z = ctx.adopt(nlpx, "Z", [-2.0] * nlpx.numel(), [2.0] * nlpx.numel())
            else: z = ctx.adopt(ca.DM.zeros(nlpx.numel()), "Z", -2.0, 2.0)
            if cfg.get("fixt"):
                zz = (ca.SX if ctx.sym else ca.DM)(z)
                ix = ca.Function("ix", [nlpx], [ca.jacobian(ca.vertcat(m.t0, m.tf), nlpx)])(0).full().argmax(axis=1)
                for q, k in enumerate(ix): zz[int(k)] = cfg["fixt"][q // nph] + (q % nph) * (cfg["fixt"][1] - cfg["fixt"][0])
                z = zz
            sol = {"x": z}
            for i in range(nph):
                _, UU, _, T0, TF, _ = m.init_trajectories(i)(z, m._nlp_sw_params)
                t0, tf = flat(T0)[0], flat(TF)[0]
                if cfg.get("fixt"): geo.append(node_slopes(cfg, orders, old[i], flat(UU[:, 0])) + (m._THRESHOLD_SLOPE,))
                if not cfg.get("fixt"): ctx.assume(tf - t0 >= 0.1)
            ctx.assume_feasible()
        if cfg.get("nosol"): sol = None
        if cfg.get("again"):             # an earlier refinement of another solution leaves nothing behind
            first = {"x": None}
            if sol["x"] is not None:
                z0 = ca.DM([math.sin(1 + q * q) for q in range(nlpx.numel())])
                for q, k in enumerate(ix): z0[int(k)] = 0.3 + q % nph + 2.5 * (q // nph)
                first = {"x": (ca.SX if ctx.sym else ca.DM)(z0)}
            m.get_dynamics_residuals = lambda *a, **k: ([[[] for _ in range(n)] for _ in range(nph)], [[None if g is None else np.array([[1.5 + 0.25 * s - 0.4 * j] * cfg.get("nx", 1) for j in range(len(g))]) for s, g in enumerate(G)] for G in R])
            m.get_segment_width_parameters(first, options=dict(opts))
            m.get_dynamics_residuals = stub
        w, err = m.get_segment_width_parameters(sol, options=dict(opts))
    w = flat(w)
    ctx.check("one width per segment and phase", len(w) == n * nph, str(len(w)))
    if len(w) != n * nph: return
    for i in range(nph):
        b = w[i * n:(i + 1) * n]
        for x in b: ctx.check("positive width", x > 0, "phase %d" % i)
        ctx.close("total of the widths phase %d" % i, total(b), 1.0, 1e-7)
    plain = cfg.get("nosol") or n == 1 or opts.get("method") not in ("residual", "control_slope")
    if plain:
        ctx.check("no error is reported", err is None)
        ctx.close_many([("equal width", x, 1.0 / n) for x in w], 1e-12)
        return
    ctx.check("residuals of the given solution", len(calls) == 1 and calls[0] is sol)
    allm = [v for mm in mag for v in mm]
    ctx.check("error bounds every residual", AND([AND(v <= err + 1e-9, -v <= err + 1e-9) for v in allm]))
    ctx.check("error is one of the residuals", OR([OR(NEAR(v, err, 1e-9), NEAR(-v, err, 1e-9)) for v in allm]))
    for i in range(nph):
        conv = AND([AND(v < m.tol_residual[i] - 1e-7, -v < m.tol_residual[i] - 1e-7) for v in mag[i]])
        same = AND([NEAR(a, b, 1e-9) for a, b in zip(w[i * n:(i + 1) * n], old[i])])
        ctx.check("converged phase keeps its widths", IMP(conv, same), "phase %d" % i)
        refined(ctx, cfg, m, i, n, opts, R[i], mag[i], old[i], w[i * n:(i + 1) * n], geo[i] if geo else None)

def node_slopes(cfg, orders, w, u):
    """times of the nodes (fractions of the phase) and slopes of the control in collocation units"""
    M = nlp.refmats({"tau": -1, **cfg, "scheme": "LGR", "method": "x"}, orders)
    t, sl, c, k = [], [], 0.0, 0
    for s, p in enumerate(orders):
        for j in range(0 if s == 0 else 1, p + 1):
            t.append(c + w[s] * ((float(M["nd"][s][j]) - M["t0"]) / (M["t1"] - M["t0"])))
            sl.append(total([float(M["D"][s][j][q]) * u[k + q] for q in range(p + 1)]))
        c, k = c + w[s], k + p
    return t, sl

def refined(ctx, cfg, m, i, n, opts, R, mag, old, new, geo):
    """a phase that exceeds its tolerance is refined as the method says"""
    tol, lab = m.tol_residual[i], ", phase %d" % i
    below = lambda vs, e: AND([AND(v < tol - e, -v < tol - e) for v in vs])
    clear = AND([AND(OR(v > tol + 1e-6, v < tol - 1e-6), OR(v > 1e-6 - tol, v < -tol - 1e-6)) for v in mag])
    if opts.get("sub_method") == "merge_split":
        segs = [[] if x is None else list(np.ravel(x)) for x in R]
        if bool(below(mag, 0.0)): return
        ex = [not bool(below(v, 0.0)) if v else False for v in segs]
        merge_split_checks(ctx, ex, old, new, clear, lab)
    elif opts.get("method") == "residual" and opts.get("sub_method", "equal_area") == "equal_area" and cfg.get("nx", 1) == 1:
        if bool(below(mag, 0.0)): return
        r = [abs(v) for x in R for v in ([0.0] if x is None else list(np.ravel(x)))]
        with sc.patched(ctx): eq = flat(mp.mpopt_h_adaptive.get_roots_wrt_equal_area(arr(ctx, r), n))
        # new = old + lam (eq - old) with one fraction lam: guessed at a point, then shown everywhere
        pt = ctx.randpoint(21) if ctx.sym else None
        num = lambda v: v if isinstance(v, float) else (P.evalp(P.polys([sc.sxof(v)], ctx.V)[0], pt) if ctx.sym else float(v))
        d = [(num(new[k] - old[k]), num(eq[k] - old[k])) for k in range(n)]
        k = max(range(n), key=lambda q: abs(d[q][1]))
        if abs(d[k][1]) < 1e-9: return
        lam = round(d[k][0] / d[k][1], 6)
        ctx.check("widths move towards equal areas" + lab, 0.02 <= lam <= 1, "fraction %g" % lam)
        if 0.02 <= lam <= 1: ctx.close_many([("widths move towards equal areas" + lab, new[q], old[q] * (1 - lam) + eq[q] * lam) for q in range(n)], 1e-7)
    elif opts.get("method") == "control_slope" and n == 2 and geo:
        if bool(below(mag, 0.0)): return
        t, sl, thr = geo                 # node times as fractions of the phase, slopes
        ins = range(1, len(t) - 1)
        lo, hi = cfg.get("lim", [(0.0, 1.0)] * (i + 1))[i]
        def first(f):                    # limits on the widths, then a total of one
            a, b = min(max(f, lo), hi), min(max(1 - f, lo), hi)
            return a / (a + b)
        if "lim" not in cfg: first = lambda f: f
        gt = lambda a, b, e: OR(AND(a >= b + e, a >= e - b), AND(-a >= b + e, -a >= e - b))          # |a| >= |b| + e
        for j in ins:
            top = AND([clear, gt(sl[j], thr, 1e-6)] + [gt(sl[j], sl[k], 1e-6) for k in ins if k != j])
            ctx.check("the boundary is at the steepest node" + lab, IMP(top, NEAR(new[0], first(t[j]), 1e-3)), "node %d" % j)
        none = AND([clear] + [gt(thr, sl[j], 1e-6) for j in ins])
        ctx.check("nothing steep, nothing changes" + lab, IMP(none, AND([NEAR(a, b, 1e-9) for a, b in zip(new, old)])))

# ------------------------------------------------------------------ A05
def place(ctx, cfg, w, pts, t0, t1, got, label):
    """got[s]: local coordinates; every point must be in exactly the right segment, in order"""
    n = len(w)
    cum = [0.0]
    for x in w: cum.append(cum[-1] + x)
    k, items = 0, []
    L = float(t1) - float(t0); lt = 1e-4 if cfg.get("eps") else 1e-6
    for s in range(n):
        for q in flat(got[s]):
            if k >= len(pts):
                ctx.check(label + ": number of points", False, "more than %d" % len(pts)); return
            ctx.check(label + ": local coordinate inside the segment", AND(q >= t0 - lt, q <= t1 + lt), "segment %d" % s)
            items.append((label + ": point %d maps back" % k, (cum[s] + w[s] * ((q - t0) / L)) * L + t0, pts[k]))
            k += 1
    ctx.check(label + ": number of points", k == len(pts), "%d instead of %d" % (k, len(pts)))
    ctx.close_many(items, 1e-7)

def h_A05(ctx, cfg):
    n, t0, t1 = cfg["n"], cfg.get("tau", -1), 1
    w = widths(ctx, n)
    eps = 0.0
    if cfg.get("eps"):           # widths whose sum is off by rounding
        eps = ctx.real("eps", -4e-7, 4e-7)
        w[0] = w[0] + eps
    if cfg.get("grid"):
        o = mp.OCP(n_states=1, n_controls=1, n_phases=cfg.get("nph", 1))
        with settings(cfg), sc.patched(ctx, True):
            oo = [2, 3, 1] if cfg.get("again") else list(cfg["orders"])
            m = mp.mpopt_h_adaptive(o, n_segments=len(oo), poly_orders=oo, scheme=cfg.get("scheme", "LGR"))
            m._MAX_GRID_POINTS = cfg.get("npts", 4)
            if cfg.get("again"):         # the grids of another mesh were asked for before
                m._MAX_GRID_POINTS += 3
                m.create_nlp()
                m._nlp_sw_params = np.array([0.2, 0.5, 0.3] * o.n_phases)
                for q in range(o.n_phases):
                    for g in ("fixed", "mid-points", "spectral"): m.get_residual_grid_taus(q, g)
                m._MAX_GRID_POINTS -= 3
                m.n_segments, m.poly_orders = n, list(cfg["orders"])
                m.reset_mpopt()
                m.create_nlp()           # and those of this one, with other widths
                m._nlp_sw_params = np.array([(1.0 + q) / sum(range(n + 1)) for q in range(n)] * o.n_phases)
                for q in range(o.n_phases):
                    for g in ("fixed", "mid-points", "spectral"): m.get_residual_grid_taus(q, g)
            m.create_nlp()
            ph = cfg.get("phase", 0)
            other = [1.0 / n] * n
            m._nlp_sw_params = arr(ctx, sum([w if i == ph else other for i in range(o.n_phases)], []))
            if cfg.get("bytype"): m.grid_type = [cfg["grid"] if i == ph else "none" for i in range(o.n_phases)]; got = m.get_residual_grid_taus(ph)
            else: got = m.get_residual_grid_taus(ph, cfg["grid"])
        if cfg["grid"] not in ("fixed", "mid-points", "spectral"):
            ctx.check("unknown grid gives no points", got is None); return
        ctx.check("one list per segment", len(got) == n)
        if cfg["grid"] == "fixed":
            N = max(sum(cfg["orders"]) + 2, cfg.get("npts", 4) + 2)
            pts = [t0 + (t1 - t0) * k / (N - 1.0) for k in range(1, N - 1)]
            place(ctx, cfg, w, pts, t0, t1, got, "fixed grid")
            return
        for s in range(n):
            nd = ref.nodes(cfg.get("scheme", "LGR"), cfg["orders"][s], t0, t1) if cfg["grid"] == "mid-points" else ref.nodes(cfg.get("scheme", "LGR"), cfg.get("npts", 4) + 2, t0, t1)
            e = (nd[:-1] + nd[1:]) / 2 if cfg["grid"] == "mid-points" else nd[1:-1]
            ctx.close("%s grid segment %d" % (cfg["grid"], s), np.array([float(v) for v in flat(got[s])]), e, 1e-9)
            ctx.check("inside the segment", all(t0 < float(v) < t1 for v in flat(got[s])))
        return
    k = cfg["pts"]
    p = [ctx.real("p%d" % i, 1e-5, 1.0) for i in range(k)]
    for a, b in zip(p, p[1:]): ctx.assume(b - a >= 0.01)
    if cfg.get("end"): p[-1] = 1.0
    if cfg.get("end") and k > 1: ctx.assume(p[-2] <= 0.99)
    ctx.assume_feasible()
    pts = [t0 + (t1 - t0) * v for v in p]
    if cfg.get("start"): pts = [float(t0)] + pts
    with sc.patched(ctx):
        got = mp.mpopt.compute_interpolation_taus_corresponding_to_original_grid(arr(ctx, pts), arr(ctx, w), tau0=t0, tau1=t1)
    ctx.check("one list per segment", len(got) == n)
    if cfg.get("start"): pts = pts[1:]
    place(ctx, cfg, w, pts, t0, t1, got, "points")

def checks():
    rs = dict(method="residual", sub_method="merge_split"); re = dict(method="residual", sub_method="equal_area"); cs = dict(method="control_slope")
    a01 = lambda ns: [C(n=n, cost=2 ** n) for n in ns] + [C(n=3, arr=False)] + [C(n=3, mat=[[1, 2], None, [2, 1]], cost=20), C(n=3, mat=[[1, 1], [1, 1], [1, 1]])]
    a02q = [C(m=m, n=n, cost=m * n) for m, n in ((2, 2), (3, 2), (3, 3), (4, 2), (4, 3), (5, 2), (5, 3), (5, 4))] + [C(m=4, n=2, zero=(1, 2)), C(m=5, n=3, zero=(0, 1)), C(m=5, n=2, zero=(3, 4)), C(m=4, n=2, segs=[2, 2]), C(m=4, n=3, segs=[2, None, 1], zero=(2,))]
    a02t = a02q + [C(m=m, n=n, cost=m * n) for m, n in ((6, 2), (6, 3), (4, 4), (3, 5), (7, 2), (7, 3), (8, 4), (6, 5), (9, 3))] + [C(m=6, n=3, zero=(1, 2, 4)), C(m=6, n=4, segs=[2, None, 2, 1], zero=(2,))]
    a03q = [C(N=3, n=2), C(N=4, n=2), C(N=4, n=3), C(N=4, n=4), C(N=4, n=5), C(N=5, n=2), C(N=5, n=3, cost=5), C(N=5, n=5, cost=5), C(N=4, n=3, thr=False), C(N=4, n=2, nu=2, cost=9)]
    a03t = a03q + [C(N=5, n=6, cost=9), C(N=5, n=7, cost=9), C(N=6, n=3, cost=99), C(N=6, n=4, cost=99), C(N=6, n=2, cost=99), C(N=4, n=4, nu=2, cost=20), C(N=4, n=8)]
    a04q = [C(nph=1, n=2, opts=rs, res=[[1, 1]]), C(nph=1, n=3, opts=rs, res=[[1, None, 1]]), C(nph=2, n=2, opts=rs, res=[[1, 1], [1, None]], cost=9),
            C(nph=1, n=2, opts=re, res=[[1, 2]]), C(nph=2, n=2, opts=re, res=[[1, 1], [1, None]], cost=9), C(nph=1, n=3, opts=re, res=[[1, 1, 1]], cost=9),
            C(nph=1, n=2, opts=dict(method="residual"), res=[[1, 1]]), C(nph=1, n=2, opts=dict(method="residual", sub_method="none"), res=[[1, 1]]),
            C(nph=1, n=2, opts=cs, res=[[1, 1]], pos=True, cost=9), C(nph=2, n=2, opts=cs, res=[[None, 1], [1, None]], orders=[1, 1], conv=0, cost=20), C(nph=2, n=2, opts=cs, res=[[None, 1], [1, None]], orders=[1, 1], conv=1, cost=20), C(nph=1, n=2, opts=rs, res=[[1, 1]], have=False), C(nph=1, n=2, opts=cs, res=[[1, 1]], orders=[2, 1], tau=0),
            C(nph=1, n=2, opts=cs, res=[[None, 1]], fixw=[[0.3, 0.7]], fixt=[0.0, 2.0], orders=[2, 1], pos=True), C(nph=2, n=2, opts=cs, res=[[1, None], [None, 1]], fixw=[[0.3, 0.7], [0.6, 0.4]], fixt=[1.0, 2.0], orders=[1, 1], tau=0), C(nph=1, n=2, opts=cs, res=[[None, 1]], fixw=[[0.5, 0.5]], fixt=[0.0, 1.0], orders=[2, 2], pos=True, cost=9),
            C(nph=2, n=2, opts=cs, res=[[1, None], [None, 1]], fixw=[[0.3, 0.7], [0.6, 0.4]], fixt=[1.0, 2.0], orders=[2, 1], pos=True, tau=0, lim=[(0.1, 0.6), (0.45, 1.0)]),
            C(nph=1, n=2, opts=cs, res=[[None, 1]], fixw=[[0.3, 0.7]], fixt=[0.0, 2.0], orders=[2, 1], pos=True, again=True), C(nph=2, n=2, opts=cs, res=[[1, None], [None, 1]], fixw=[[0.3, 0.7], [0.6, 0.4]], fixt=[1.0, 2.0], orders=[2, 1], pos=True, conv=0, again=True), C(nph=2, n=2, opts=rs, res=[[1, 1], [1, None]], again=True, cost=9), C(nph=1, n=2, opts=re, res=[[1, 2]], again=True, cost=9), C(nph=2, n=2, opts=re, res=[[None, 1], [1, 2]], conv=0, again=True, cost=9),
            C(nph=2, n=2, opts=cs, res=[[None, 1], [1, None]], fixw=[[0.3, 0.7], [0.6, 0.4]], fixt=[1.0, 2.0], orders=[2, 1], pos=True, conv=0, lim=[(0.1, 1.0), (0.05, 0.55)]),
            C(nph=2, n=3, opts=rs, res=[[1, 1, 1]], nosol=True), C(nph=2, n=1, opts=rs, res=[[1]]), C(nph=2, n=2, opts={}, res=[[1, 1]]), C(nph=2, n=2, opts=dict(method="?"), res=[[1, 1]])]
    a04t = a04q + [C(nph=2, n=3, opts=rs, res=[[1, 1, 1], [None, 1, 1]], cost=99), C(nph=1, n=4, opts=rs, res=[[1, 1, 1, 1]], cost=50), C(nph=1, n=2, opts=re, res=[[2, 2]], cost=9), C(nph=1, n=3, opts=re, res=[[2, None, 1]], cost=20),
                   C(nph=1, n=3, opts=cs, res=[[None, 1, None]], orders=[1, 2, 1], cost=50), C(nph=1, n=2, opts=cs, res=[[1, 1]], cost=90), C(nph=2, n=2, opts=cs, res=[[None, 1], [1, None]], orders=[1, 1], cost=90), C(nph=3, n=2, opts=rs, res=[[1, 1]], cost=50), C(nph=1, n=2, opts=rs, res=[[1, 1]], nx=2, cost=30), C(nph=1, n=2, opts=cs, res=[[1, 1]], orders=[3, 2], cost=50)]
    a05q = [C(n=n, pts=k, tau=t, cost=k * n) for n in (1, 2, 3) for k in (1, 2, 3) for t in (-1, 0)] + [C(n=3, pts=3, end=True), C(n=3, pts=3, end=True, eps=True), C(n=2, pts=2, eps=True, tau=0, end=True), C(n=2, pts=3, start=True, tau=0)]
    a05q += [C(n=2, grid="fixed", orders=[2, 2], npts=3), C(n=3, grid="fixed", orders=[1, 2, 1], npts=5, tau=0), C(n=2, grid="fixed", orders=[1, 1], npts=2, nph=2, phase=1), C(n=2, grid="fixed", orders=[1, 1], npts=3, nph=2, phase=1, bytype=True), C(n=2, grid="fixed", orders=[2, 1], npts=3, eps=True)]
    a05q += [C(n=2, grid=g, orders=[2, 3], npts=4, tau=t, scheme=s) for g in ("mid-points", "spectral") for t in (-1, 0) for s in ("LGR", "LGL", "CGL")] + [C(n=2, grid="other", orders=[2, 2])]
    a05q += [C(n=len(o), grid=g, orders=o, npts=3, nph=h, phase=h - 1, again=True, tau=t) for g, o, h, t in (("fixed", [1, 2], 1, -1), ("fixed", [2, 2, 1], 2, 0), ("mid-points", [3, 1], 2, -1), ("spectral", [2, 2, 3], 1, 0), ("spectral", [2], 2, -1))]
    a05t = a05q + [C(n=4, pts=4, tau=-1, cost=50), C(n=3, pts=5, tau=0, cost=50), C(n=4, pts=3, eps=True, end=True, cost=20), C(n=4, grid="fixed", orders=[2, 1, 2, 3], npts=8, cost=30), C(n=3, grid="fixed", orders=[3, 3, 3], npts=20, cost=50), C(n=5, pts=3, cost=30)]
    return {
        "A01": Check(h_A01, lambda: a01((2, 3, 4, 5)), lambda: a01((2, 3, 4, 5, 6, 7, 8)), "2-5 segments (thorough: to 8), widths in [0.01,1], residuals in [0,2] (signed matrices up to 2x2 through the refinement entry), tolerance in [1e-3,1]; a residual within 1e-6 of the tolerance is excluded"),
        "A02": Check(h_A02, lambda: a02q, lambda: a02t, "2-5 residual samples (thorough: 9), 2-4 segments (thorough: 5), samples in [0,2] with total at least 0.1, fixed zero stretches, missing segments"),
        "A03": Check(h_A03, lambda: a03q, lambda: a03t, "3-5 nodes (thorough: 6), 1-2 controls with slopes in [0,2], 2-5 segments (thorough: 8), node spacing at least 0.05"),
        "A04": Check(h_A04, lambda: a04q, lambda: a04t, "1-2 phases (thorough: 3), 1-3 segments (thorough: 4), 0-2 residual samples per segment in [-2,2], tolerances in [1e-3,1], old widths at least 0.02; also after the refinement of another solution; residual computation replaced by arbitrary values (it is P03's subject)"),
        "A05": Check(h_A05, lambda: a05q, lambda: a05t, "1-3 segments (thorough: 5) of width at least 0.02, 1-3 points (thorough: 5) at least 0.01 apart, widths off by up to 4e-7 in sum, both interval conventions, grids of 3-8 points"),
    }
CHECKS = checks()
