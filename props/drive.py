"""A06, A07, S01-S03: the solve drivers around a stand-in for the NLP solver, and problem validation."""
import copy, inspect, numpy as np
from lib import symcore as sc
from lib.symcore import ca, mp, sxof, flat, INF
from lib.runner import Check
from props import nlp
from props.adapt import arr, total, widths
from props.colloc import settings
from props.logic import AND, OR, NOT, IMP, NEAR

def C(**k): return k

class Stub:
    """Stands in for casadi.nlpsol: records what it is given, answers with arbitrary values."""
    def __init__(self, ctx, zero=()): self.ctx, self.made, self.calls, self.zero = ctx, [], [], zero
    def __call__(self, name, solver, prob, opts=None, *a):
        k = len(self.made)
        self.made.append(dict(solver=solver, nlp=dict(prob), opts=dict(opts or {})))
        def run(**kw):
            n, g = ca.SX(prob["x"]).numel(), ca.SX(prob["g"]).numel()
            j = len(self.calls)
            sol = dict(x=self.ctx.vector("sol%d.x" % j, n), f=self.ctx.vector("sol%d.f" % j, 1), g=self.ctx.vector("sol%d.g" % j, g),
                       lam_x=self.ctx.vector("sol%d.lx" % j, n), lam_g=self.ctx.vector("sol%d.lg" % j, g), lam_p=self.ctx.vector("sol%d.lp" % j, 1))
            self.calls.append(dict(made=k, kw=kw, sol=sol))
            return sol
        return run

def eqv(ctx, label, a, b, tol=1e-9):
    """values received by the solver equal the expected ones"""
    ctx.close(label, np.array(flat(a), dtype=object) if a is not None else [], np.array(flat(b), dtype=object) if b is not None else [], tol)

CLS = {"mpopt": lambda: mp.mpopt, "h": lambda: mp.mpopt_h_adaptive, "adaptive": lambda: mp.mpopt_adaptive, "ph": lambda: mp.mpopt_ph_adaptive}
def opti(cfg, ocp):
    return CLS[cfg["cls"]]()(ocp, n_segments=len(cfg["orders"]), poly_orders=list(cfg["orders"]), scheme=cfg.get("scheme", "LGR"))

class RefProg:
    """The program of a fresh optimiser of the same class for the same problem."""
    def __init__(self, ctx, cfg, ocp, tag=""):
        self.ctx, self.cfg = ctx, cfg
        self.m = opti(cfg, ocp)
        self.nlp, self.bounds = self.m.create_nlp()
        self.x0 = list(flat(self.m.initialize_solution()))
        self.zs, self.hs = ca.vec(ca.densify(self.nlp["x"])), ca.vec(ca.densify(self.m.seg_widths))
        self.adaptive = cfg["cls"] == "adaptive"
        n, h = self.zs.numel(), self.hs.numel()
        if ctx.sym:
            lo = [0.05 if self.adaptive and any(ca.is_equal(self.zs[i], self.hs[k]) for k in range(h)) else -3.0 for i in range(n)]
            self.Z = ctx.adopt(self.zs, tag + "Z", lo, 3.0 if False else [3.0] * n)
            self.P = None if self.adaptive else ctx.adopt(self.hs, tag + "P", [0.05] * h, [1.0] * h)
            sub = ctx.unify_calls()
            ex = [ca.vec(ca.densify(ca.SX(self.nlp["g"]))), ca.SX(self.nlp["f"])]
            self.g, self.f = ex if sub is None else [ca.substitute(e, *sub) for e in ex]
        else:
            self.Z = ctx.adopt(ca.DM.zeros(n), tag + "Z", 0.05, 3.0)
            self.P = None if self.adaptive else ctx.adopt(ca.DM.zeros(h), tag + "P", 0.05, 1.0)
            self.g, self.f = self.values(self.nlp)
    def values(self, nl):
        ins = [ca.vec(ca.densify(nl["x"]))] + ([] if self.adaptive else [ca.vec(ca.densify(nl["p"]))])
        F = ca.Function("F", ins, [ca.vec(ca.densify(ca.SX(nl["g"]))), ca.SX(nl["f"])])
        return F(*([self.Z] + ([] if self.adaptive else [self.P])))
    def same(self, nl, label):
        ctx = self.ctx
        ctx.check(label + ": size", ca.SX(nl["x"]).numel() == self.zs.numel() and ca.SX(nl["g"]).numel() == self.g.numel())
        if not self.adaptive:
            ctx.check(label + ": width parameters", "p" in nl and ca.SX(nl["p"]).numel() == self.hs.numel())
            if "p" not in nl or ca.SX(nl["p"]).numel() != self.hs.numel(): return
        if ca.SX(nl["x"]).numel() != self.zs.numel() or ca.SX(nl["g"]).numel() != self.g.numel(): return
        if ctx.sym:
            fr = [ca.vec(ca.densify(nl["x"]))] + ([] if self.adaptive else [ca.vec(ca.densify(nl["p"]))])
            to = [self.zs] + ([] if self.adaptive else [self.hs])
            sub = (ca.vertcat(*fr), ca.vertcat(*to))
            ex = [ca.vec(ca.densify(ca.SX(nl["g"]))), ca.SX(nl["f"])]
            ex = [ca.substitute(e, *sub) for e in ex]
            us = ctx.unify_calls(sub)
            if us is not None: ex = [ca.substitute(e, *us) for e in ex]
        else: ex = self.values(nl)
        eqv(ctx, label + ": constraints", ex[0], self.g, 1e-6)
        eqv(ctx, label + ": objective", ex[1], self.f, 1e-6)

def warm(ctx, kind, n, g, tag):
    v = lambda nm, k: ctx.vector("%s.%s" % (tag, nm), k)
    full = dict(x=lambda: v("x", n), x0=lambda: v("x0", n), lam_x=lambda: v("lx", n), lam_g=lambda: v("lg", g), lam_x0=lambda: v("lx0", n), lam_g0=lambda: v("lg0", g), f=lambda: v("f", 1), lam_p=lambda: v("lp", 1))
    return None if kind is None else {k: full[k]() for k in kind}

OPTS = [None, {"ipopt.max_iter": 7}, {"ipopt.print_level": 5, "verbose": True, "ipopt.tol": "sym"}]
def mkopts(ctx, o, tag):
    if o is None: return None
    return {k: (ctx.real("opt." + tag, 1e-9, 1e-3) if v == "sym" else v) for k, v in o.items()}

BUILD = dict(nlp.DEF, nx=1, nu=1, na=0, orders=[1, 2], dyn=True, rc=True, mayer=True, path=None, term=None, bnd="mix", scale="sym")

def h_S01(ctx, cfg):
    """cfg: cls, orders, calls=[{ini, opts, reinit, sw, solver, reset}]; reinit='?' explores both"""
    cfg = {**BUILD, **cfg}
    ns = len(cfg["orders"])
    stub = Stub(ctx)
    with settings(cfg), sc.patched(ctx, nlpsol=stub):
        bcfg = {**cfg, "cls": "mpopt"}
        ocp, _ = nlp.build_ocp(ctx, bcfg)
        R = RefProg(ctx, cfg, ocp)
        base = {}
        for sv in sorted({c.get("solver", "ipopt") for c in cfg["calls"]}):
            m0 = opti(cfg, ocp)
            m0.create_solver(solver=sv)
            base[sv] = stub.made.pop()["opts"]
        del stub.made[:], stub.calls[:]
        m = opti(cfg, ocp)
        n, g = R.zs.numel(), R.g.numel()
        made, prev, cur = 0, None, None
        for j, c in enumerate(cfg["calls"]):
            tag = "call%d" % j
            reinit = ctx.choose("reinit%d" % j, [False, True]) if c.get("reinit") == "?" else bool(c.get("reinit"))
            oc = ctx.choose("opts%d" % j, OPTS) if c.get("opts") == "?" else OPTS[c.get("opts", 0)]
            ik = ctx.choose("ini%d" % j, [None, "prev", ("x0", "lam_g0")]) if c.get("ini") == "?" else c.get("ini")
            ini = prev if ik == "prev" else warm(ctx, ik, n, g, tag)
            opts, kw, sv = mkopts(ctx, oc, tag), {}, c.get("solver", "ipopt")
            if opts is not None: kw["nlp_solver_options"] = opts
            if ini is not None: kw["initial_solution"] = ini
            if reinit: kw["reinitialize_nlp"] = True
            if "solver" in c: kw["solver"] = sv
            if cfg["cls"] == "h": kw["max_iter"] = 1
            sw = None
            if c.get("sw"):
                sw = sum([widths(ctx, ns, "%s.w%d_" % (tag, i)) for i in range(cfg["nph"])], [])
                kw["mpopt_options"] = {"nlp_sw_params": arr(ctx, sw) if c["sw"] == "arr" else list(sw)}
            if c.get("reset"): m.reset_mpopt()
            nc = len(stub.calls)
            sol = m.solve(**kw)
            build = made == 0 or reinit or bool(c.get("reset"))
            if build:
                made += 1
                ctx.check(tag + ": program is built", len(stub.made) == made, "%d solver objects, expected %d" % (len(stub.made), made))
                if len(stub.made) != made: return
                cur = stub.made[-1]
                ctx.check(tag + ": solver name", cur["solver"] == sv)
                want = {**base[sv], **(opts or {})}
                ctx.check(tag + ": options", set(cur["opts"]) == set(want) and all(cur["opts"][k] is want[k] or (not isinstance(want[k], sc.Sym) and cur["opts"][k] == want[k]) for k in want), "%s" % (cur["opts"],))
                R.same(cur["nlp"], tag + ": program")
                if R.adaptive: ctx.check(tag + ": no parameters", "p" not in cur["nlp"])
            else:
                ctx.check(tag + ": program is reused", len(stub.made) == made, "%d solver objects, expected %d" % (len(stub.made), made))
            ctx.check(tag + ": one solver call", len(stub.calls) == nc + 1, "%d calls" % (len(stub.calls) - nc))
            if len(stub.calls) != nc + 1: return
            call = stub.calls[-1]
            ctx.check(tag + ": newest solver is used", call["made"] == made - 1)
            k = call["kw"]
            ctx.check(tag + ": arguments", set(k) <= {"x0", "p", "lam_x0", "lam_g0", "lbx", "ubx", "lbg", "ubg"}, str(sorted(k)))
            for b in ("lbx", "ubx", "lbg", "ubg"):
                ctx.check(tag + ": " + b + " given", b in k)
                eqv(ctx, tag + ": " + b, k.get(b), R.bounds[b])
            src = ini or {}
            eqv(ctx, tag + ": starting point", k.get("x0"), src.get("x", src.get("x0", R.x0)))
            for q in ("lam_x", "lam_g"):
                w = src.get(q, src.get(q + "0"))
                ctx.check(tag + ": " + q, (w is None) == (q + "0" not in k), "multipliers %s" % ("dropped" if w is not None else "invented"))
                if w is not None and q + "0" in k: eqv(ctx, tag + ": " + q, k[q + "0"], w)
            if not R.adaptive:
                ctx.check(tag + ": widths given", "p" in k)
                w = sw if sw is not None else [1.0 / ns] * (ns * cfg["nph"])
                eqv(ctx, tag + ": widths", k.get("p"), w)
                eqv(ctx, tag + ": widths remembered", m._nlp_sw_params, k.get("p"))
            else:
                ctx.check(tag + ": no widths given", "p" not in k)
                wv = ca.substitute(ca.vec(ca.densify(m.seg_widths)), ca.vec(ca.densify(cur["nlp"]["x"])), sol["x"]) if ctx.sym else ca.Function("w", [cur["nlp"]["x"]], [ca.vec(ca.densify(m.seg_widths))])(sol["x"])
                eqv(ctx, tag + ": widths of the solution", m._nlp_sw_params, wv)
            ctx.check(tag + ": answer of the solver", sol is call["sol"] or (set(sol) == set(call["sol"]) and all(ca.is_equal(ca.SX(sol[q]), ca.SX(call["sol"][q])) for q in sol)))
            prev = sol

# ------------------------------------------------------------------ S02
def freeze(v, seen=None):
    """value snapshot"""
    if isinstance(v, dict): return ("d", [(k, freeze(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)): return (type(v).__name__, [freeze(x) for x in v])
    if isinstance(v, np.ndarray): return ("a", v.shape, [freeze(x) for x in v.ravel()])
    if isinstance(v, (ca.SX, ca.DM)): return ("m", v.shape, list(flat(v)))
    return ("v", v)
def differs(ctx, a, b):
    """list of leaf pairs to compare, or None when the structure changed"""
    if a[0] != b[0]: return None
    if a[0] == "v": return [(a[1], b[1])]
    if a[0] in ("a", "m") and a[1] != b[1]: return None
    if a[0] == "m": return list(zip(a[2], b[2]))
    x, y = a[-1], b[-1]
    if len(x) != len(y): return None
    out = []
    for p, q in zip(x, y):
        if a[0] == "d":
            if p[0] != q[0]: return None
            p, q = p[1], q[1]
        r = differs(ctx, p, q)
        if r is None: return None
        out += r
    return out
def unchanged(ctx, label, before, obj):
    d = differs(ctx, before, freeze(obj))
    ctx.check(label + " is not modified", d is not None, "its structure changed")
    if d is None: return
    num = [(x, y) for x, y in d if isinstance(x, sc.NUM + (sc.Sym, ca.SX)) and isinstance(y, sc.NUM + (sc.Sym, ca.SX)) and not isinstance(x, bool)]
    oth = [(x, y) for x, y in d if not (isinstance(x, sc.NUM + (sc.Sym, ca.SX)) and isinstance(y, sc.NUM + (sc.Sym, ca.SX))) or isinstance(x, bool)]
    ctx.check(label + " is not modified", all(x is y or (not isinstance(x, (sc.Sym, ca.SX)) and not isinstance(y, (sc.Sym, ca.SX)) and x == y) for x, y in oth), "an entry changed")
    ctx.close_many([(label + " is not modified: entry %d" % i, x, y) for i, (x, y) in enumerate(num)], 1e-12)

def h_S02(ctx, cfg):
    cfg = {**BUILD, **cfg}
    stub = Stub(ctx)
    ns, nph = len(cfg["orders"]), cfg["nph"]
    with settings(cfg), sc.patched(ctx, True, nlpsol=stub):
        ocp, _ = nlp.build_ocp(ctx, {**cfg, "cls": "mpopt"})
        R = RefProg(ctx, cfg, ocp)
        m0 = opti(cfg, ocp); m0.create_solver(); base = stub.made.pop()["opts"]
        snap = freeze({k: v for k, v in vars(ocp).items()})
        orders = list(cfg["orders"]); osnap = freeze(orders)
        mk = lambda o: CLS[cfg["cls"]]()(o, n_segments=ns, poly_orders=orders, scheme=cfg["scheme"])
        A = mk(ocp); B = mk(ocp)
        unchanged(ctx, "problem after construction", snap, vars(ocp))
        seen = []
        if cfg["cls"] == "h":
            for o in (A, B): _spy(ctx, o, seen, ns, nph)
        opts = {"ipopt.max_iter": 11, "ipopt.tol": ctx.real("opt.tol", 1e-9, 1e-3), "expand": True}
        mopt = {"method": "control_slope"} if cfg["cls"] == "h" else {"nlp_sw_params": arr(ctx, sum([widths(ctx, ns, "w%d_" % i) for i in range(nph)], []))}
        ini = warm(ctx, cfg.get("ini", ("x", "lam_x", "f")), R.zs.numel(), R.g.numel(), "ini")
        fo, fm, fi = freeze(opts), freeze(mopt), freeze(ini)
        kw = dict(max_iter=2) if cfg["cls"] == "h" else {}
        nm = len(stub.made)
        s1 = A.solve(initial_solution=ini, nlp_solver_options=opts, mpopt_options=mopt, **kw)
        for lab, b, o in (("solver options", fo, opts), ("optimiser options", fm, mopt), ("starting solution", fi, ini), ("list of degrees", osnap, orders)): unchanged(ctx, lab, b, o)
        unchanged(ctx, "problem after solving", snap, vars(ocp))
        fs1 = freeze(s1)
        first = list(seen); del seen[:]
        # a second optimiser without options
        s2 = B.solve(**kw)
        ctx.check("options of another optimiser are not remembered", stub.made[-1]["opts"] == base, str(stub.made[-1]["opts"]))
        if cfg["cls"] == "h":
            ctx.check("method of the first call", all(o.get("method") == "control_slope" for _, o in first))
            ctx.check("default method of the second", all(o.get("method") == "residual" for _, o in seen), str([o for _, o in seen]))
        elif cfg["cls"] == "mpopt": eqv(ctx, "default widths of the second", stub.calls[-1]["kw"].get("p"), [1.0 / ns] * (ns * nph))
        eqv(ctx, "default start of the second", stub.calls[-1]["kw"].get("x0") if cfg["cls"] != "h" else [c for c in stub.calls if c["made"] == len(stub.made) - 1][0]["kw"]["x0"], R.x0)
        # the same optimiser again, rebuilt without options
        del seen[:]
        s3 = A.solve(reinitialize_nlp=True, **kw)
        ctx.check("options of an earlier call are not remembered", stub.made[-1]["opts"] == base, str(stub.made[-1]["opts"]))
        if cfg["cls"] == "h": ctx.check("method of an earlier call is not remembered", all(o.get("method") == "residual" for _, o in seen))
        unchanged(ctx, "earlier answer", fs1, s1)
        if cfg["cls"] != "h" or True:
            unchanged(ctx, "problem after solving again", snap, vars(ocp))
        # later changes of the caller's problem
        ocp.ubx = ocp.ubx + 1.0
        for nme in ("lbx", "x00", "xf0", "u00", "lbtf", "a0"):
            q = getattr(ocp, nme)
            if q.size: q[0, 0] = 1.25 if nme != "lbx" else -7.5
        ocp.scale_x[0] = 3.25 if not cfg["scale"] == "sym" else ocp.scale_x[0] * 2.0
        ocp.dynamics[0] = lambda *a: [0.0] * ocp.nx
        ocp.phase_links[:] = []
        if cfg.get("hooks", True):
            ocp.midu[0] = 1 - ocp.midu[0]
            ocp.diff_u[0] = 1 - ocp.diff_u[0]
        orders.append(2) if cfg.get("orders_too") else None
        A.solve(reinitialize_nlp=True, **kw)
        R.same(stub.made[-1]["nlp"], "program after the caller changed the problem")
        k = [c for c in stub.calls if c["made"] == len(stub.made) - 1][0]["kw"]
        for b in ("lbx", "ubx", "lbg", "ubg"): eqv(ctx, "bounds after the caller changed the problem", k[b], R.bounds[b])
        eqv(ctx, "start after the caller changed the problem", k["x0"], R.x0)

def _spy(ctx, o, seen, ns, nph):
    """records the options the refinement is asked to use"""
    def f(solution, options=None, *a, **k):
        if solution is None or "x" not in solution: return orig(solution, options) if options is not None else orig(solution)
        seen.append((solution, dict(options or {})))
        w = []
        for i in range(nph): w += [1.0 / ns] * ns
        return w, 1.0
    orig = o.get_segment_width_parameters
    o.get_segment_width_parameters = f

# ------------------------------------------------------------------ S04
def h_S04(ctx, cfg):
    """the one-call solve(): optimiser on the requested mesh, one solve with the given arguments, post-processor of its answer"""
    from props import post as pp
    cfg = {**BUILD, **cfg, "cls": "mpopt", "ngrid": 2}
    ns, nph = len(cfg["orders"]), cfg["nph"]
    stub = Stub(ctx)
    with pp.limits(cfg), sc.patched(ctx, True, nlpsol=stub), pp.plotting() as plt:
        ocp, s = nlp.build_ocp(ctx, cfg)
        R = RefProg(ctx, cfg, ocp)
        m0 = opti(cfg, ocp); m0.create_solver(); base = stub.made.pop()["opts"]
        kw, sd = {}, {}
        if not cfg.get("defmesh"): kw = dict(n_segments=ns, poly_orders=cfg.get("porder", list(cfg["orders"])))
        if cfg.get("scheme_given", True): kw["scheme"] = cfg["scheme"]
        ini = warm(ctx, cfg.get("ini"), R.zs.numel(), R.g.numel(), "ini")
        sw = [1.0 / ns] * (ns * nph)
        if ini is not None: sd["initial_solution"] = ini
        if cfg.get("opts"): sd["nlp_solver_options"] = dict(cfg["opts"])
        if cfg.get("sw"):
            sw = sum([widths(ctx, ns, "w%d_" % i) for i in range(nph)], []) if cfg["sw"] != "conc" else [(2.0 + (i + j) % 2) / sum(2.0 + (i + q) % 2 for q in range(ns)) for i in range(nph) for j in range(ns)]
            sd["mpopt_options"] = {"nlp_sw_params": arr(ctx, sw)}
        if sd: kw["solve_dict"] = sd
        fl = {k: ctx.choose(k, [None, False, True]) if cfg.get("flags") else False for k in ("residual_x", "residual_dx")}
        fl["plot"] = ctx.choose("plot", [False, True]) if cfg.get("flags") else False
        kw.update({k: v for k, v in fl.items() if v is not None})
        before, snap = freeze(sd), freeze(dict(vars(ocp)))
        out = mp.solve(ocp, **kw)
        unchanged(ctx, "arguments", before, sd)
        unchanged(ctx, "problem", snap, dict(vars(ocp)))
        ctx.check("returns optimiser and post-processor", isinstance(out, tuple) and len(out) == 2 and isinstance(out[0], mp.mpopt) and isinstance(out[1], mp.post_process))
        m, post = out
        ctx.check("one program, one solve", len(stub.made) == 1 and len(stub.calls) == 1, "%d programs, %d solves" % (len(stub.made), len(stub.calls)))
        if len(stub.calls) != 1: return
        c = stub.calls[0]
        k = c["kw"]
        want = {**base, **(cfg.get("opts") or {})}
        ctx.check("solver options", stub.made[0]["opts"] == want, str(stub.made[0]["opts"]))
        R.same(stub.made[0]["nlp"], "program")
        for b in ("lbx", "ubx", "lbg", "ubg"): eqv(ctx, b, k.get(b), R.bounds[b])
        src = ini or {}
        eqv(ctx, "starting point", k.get("x0"), src.get("x", src.get("x0", R.x0)))
        for q in ("lam_x", "lam_g"):
            if q in src: eqv(ctx, q, k.get(q + "0"), src[q])
            else: ctx.check("no multipliers invented", q + "0" not in k)
        eqv(ctx, "widths", k.get("p"), sw)
        if ini is not None or cfg.get("opts"):      # nothing of this call is remembered by the next
            mp.solve(ocp, **{k_: v for k_, v in kw.items() if k_ != "solve_dict"})
            ctx.check("a later call is independent", len(stub.made) == 2 and len(stub.calls) == 2 and stub.made[1]["opts"] == base, "options of an earlier call")
            if len(stub.calls) == 2:
                eqv(ctx, "starting point of a later call", stub.calls[1]["kw"].get("x0"), R.x0)
                eqv(ctx, "widths of a later call", stub.calls[1]["kw"].get("p"), [1.0 / ns] * (ns * nph))
        ctx.check("the solution is processed", post.solution is c["sol"] and len(post.trajectories) == nph)
        eqv(ctx, "widths of the results", post.options["seg_widths"], sw)
        ctx.check("results in user units", not post.scaling)
        rx, rdx = bool(fl["residual_x"]), fl["residual_dx"] is not False
        res = post.residuals or {}
        ctx.check("state residuals exactly when requested", ("t_x" in res) == rx)
        ctx.check("dynamics residuals unless declined", ("t_dx" in res) == rdx)
        drawn = sum(len(a.curves) for a in plt.axes)
        ctx.check("plots exactly when requested", (drawn > 0) == bool(fl["plot"]), "%d curves" % drawn)
        D = [post.get_trajectories(ph) for ph in range(nph)]
        # the same optimiser class, asked directly about the same solution
        M = R.m
        M._nlp_sw_params = arr(ctx, sw)
        p2 = M.process_results(c["sol"], plot=False, residual_x=rx, residual_dx=rdx)
        for ph in range(nph):
            for nm, a, b in zip(("states", "controls", "times", "parameters"), D[ph], p2.get_trajectories(ph)): eqv(ctx, "%s of phase %d" % (nm, ph), a, b, 1e-7)
            for q in ("t_x", "t_dx"):
                if q in res and q in (p2.residuals or {}):
                    for a, b in zip(res[q], p2.residuals[q]):
                        fa, fb = [flat(v) for v in a[ph] if v is not None], [flat(v) for v in b[ph] if v is not None]
                        eqv(ctx, "residuals of phase %d" % ph, sum(fa, []), sum(fb, []), 1e-6)

# ------------------------------------------------------------------ S05
def h_S05(ctx, cfg):
    """an optimiser given another mesh and reset, against a new optimiser on that mesh"""
    from props import post as pp
    cfg = {**BUILD, "ngrid": 2, **cfg}
    stub = Stub(ctx)
    nph = cfg["nph"]
    with pp.limits(cfg), sc.patched(ctx, True, nlpsol=stub):
        ocp, _ = nlp.build_ocp(ctx, {**cfg, "cls": "mpopt", "orders": cfg["meshes"][0][0]})
        m = None
        for j, (orders, scheme) in enumerate(cfg["meshes"]):
            c = {**cfg, "orders": list(orders), "scheme": scheme}
            tag, ns = "mesh %d" % j, len(orders)
            R = RefProg(ctx, c, ocp, "m%d" % j)
            if m is None: m = opti(c, ocp)
            else:
                m.n_segments, m.poly_orders, m.colloc_scheme = ns, list(orders), scheme
                m.reset_mpopt()
            if cfg["cls"] == "h":       # the refinement of the answer is A04's and A06's subject
                width = type(m).get_segment_width_parameters
                m.get_segment_width_parameters = lambda s, *a, **k: width(m, s, *a, **k) if s is None else (np.array([1.0 / ns] * (ns * nph)), 0.0)
            made, calls = len(stub.made), len(stub.calls)
            ini = warm(ctx, cfg.get("ini"), R.zs.numel(), R.g.numel(), "ini%d" % j) if cfg["cls"] != "h" else None
            sol = m.solve(**({"initial_solution": ini} if ini else {}), **({"max_iter": 1} if cfg["cls"] == "h" else {}))
            ctx.check(tag + ": one program, one solve", len(stub.made) == made + 1 and len(stub.calls) == calls + 1, "%d programs, %d solves" % (len(stub.made) - made, len(stub.calls) - calls))
            if len(stub.made) != made + 1 or len(stub.calls) != calls + 1: return
            k = stub.calls[-1]["kw"]
            R.same(stub.made[-1]["nlp"], tag + ": program")
            for b in ("lbx", "ubx", "lbg", "ubg"): eqv(ctx, tag + ": " + b, k.get(b), R.bounds[b])
            eqv(ctx, tag + ": starting point", k.get("x0"), (ini or {}).get("x", R.x0))
            if not R.adaptive: eqv(ctx, tag + ": widths", k.get("p"), [1.0 / ns] * (ns * nph))
            g = cfg.get("grid", "mid-points")
            m.grid_type = R.m.grid_type = [g] * nph
            p1 = m.process_results(sol, plot=False, residual_x=True, residual_dx=True)
            if not R.adaptive: R.m._nlp_sw_params = np.array([1.0 / ns] * (ns * nph))
            p2 = R.m.process_results(sol, plot=False, residual_x=True, residual_dx=True)
            d1, d2 = (q.get_state_second_derivative(sol, grid_type="mid-points") for q in (m, R.m))
            for nm, a, b in zip(("points", "states", "controls"), d1, d2):
                for ph in range(nph):
                    fa, fb = [flat(v) for v in a[ph]], [flat(v) for v in b[ph]]
                    eqv(ctx, "%s: second derivatives, %s of phase %d" % (tag, nm, ph), sum(fa, []), sum(fb, []), 1e-6)
            for ph in range(nph):
                for ip in (False, True):
                    for nm, a, b in zip(("states", "controls", "times", "parameters"), p1.get_data([ph], ip), p2.get_data([ph], ip)): eqv(ctx, "%s: %s of phase %d" % (tag, nm, ph), a, b, 1e-7)
                for q in ("t_x", "t_dx"):
                    for a, b in zip(p1.residuals[q], p2.residuals[q]):
                        fa, fb = [flat(v) for v in a[ph] if v is not None], [flat(v) for v in b[ph] if v is not None]
                        eqv(ctx, "%s: residuals of phase %d" % (tag, ph), sum(fa, []), sum(fb, []), 1e-6)

# ------------------------------------------------------------------ S03
def h_S03(ctx, cfg):
    nx, nu, na, nph = cfg["nx"], cfg["nu"], cfg["na"], cfg["nph"]
    with sc.patched(ctx):
        o, _ = nlp.build_ocp(ctx, {**nlp.DEF, "nx": nx, "nu": nu, "na": na, "nph": nph, "bnd": "default", "path": [1] * nph if cfg.get("con") else None, "term": [1] * nph if cfg.get("con") else None, "scale": "sym"})
        pairs = []
        for nm, k in (("x", nx), ("u", nu), ("a", na), ("t0", 1), ("tf", 1), ("e", nx)):
            rows = nph if nm != "e" else nph - 1
            L, U = np.empty((rows, k), dtype=object), np.empty((rows, k), dtype=object)
            for i in range(rows):
                for j in range(k):
                    kind = cfg["pat"][(i * 3 + j + len(nm)) % len(cfg["pat"])]
                    lo = -INF if kind in "lb" else INF if kind == "I" else ctx.real("lb%s%d_%d" % (nm, i, j))
                    hi = INF if kind in "ub" else -INF if kind == "J" else ctx.real("ub%s%d_%d" % (nm, i, j))
                    L[i, j], U[i, j] = lo, hi
                    pairs.append((nm, i, j, True if kind in "lub" else False if kind in "IJ" else lo <= hi))
            if k: setattr(o, "lb" + nm, L if ctx.sym else L.astype(float)); setattr(o, "ub" + nm, U if ctx.sym else U.astype(float))
        if not cfg.get("mut"):           # functions that insist on the declared dimensions of what they are given
            def strict(f, dims):
                def g(*args):
                    got = [v.numel() if isinstance(v, (ca.SX, ca.DM, ca.MX)) else np.size(v) for v in args]
                    if got != dims: raise ValueError("called with %s values instead of %s" % (got, dims))
                    return f(*args)
                return g
            for q in ("dynamics", "path_constraints", "running_costs", "terminal_constraints", "terminal_costs"):
                F = getattr(o, q)
                dims = ([nx, 1, nx, 1] if q[:4] == "term" else [nx, nu, 1]) + ([na] if na else [])
                for i in range(nph): F[i] = strict(F[i], dims)
        mut = None
        if cfg.get("mut"):
            mut = ctx.choose("mutation", mutations(nx, nu, na, nph))
            for p in pairs: ctx.assume(p[3])
            mutate(o, mut)
        err = None
        try: o.validate()
        except (sc.PathEnd, sc.Budget, sc.Inconclusive, sc.Unsupported, sc.AssumptionFailed): raise
        except Exception as e: err = e
    if mut is not None:
        ctx.check("inconsistent problem is rejected", err is not None, "accepted although %s is wrong" % (mut,))
        return
    ok = AND([p[3] for p in pairs])
    if err is None: ctx.check("accepted only with ordered bounds", ok, "accepted with a lower bound above its upper bound")
    else: ctx.check("rejected only for unordered bounds", NOT(ok), "rejected a consistent problem: %s" % type(err).__name__)

def mutations(nx, nu, na, nph):
    out = []
    for q in ("x00", "xf0", "u00", "uf0", "a0", "t00", "tf0", "lbx", "ubx", "lbu", "ubu", "lba", "uba", "lbt0", "ubt0", "lbtf", "ubtf"):
        out += [("rows+", q), ("cols+", q)] + ([("rows-", q)] if nph > 1 else []) + ([("cols-", q)] if {"x": nx, "u": nu, "a": na, "t": 1}[q[2] if q[0] in "lu" and q[1] == "b" else q[0]] > 0 else [])
    for q in ("lbe", "ube"):
        out += [("rows+", q)] + ([("rows-", q), ("cols+", q)] if nph > 1 else [])
    out += [("len+", "scale_x"), ("len-", "scale_x"), ("len+", "scale_u"), ("len-", "scale_u"), ("len+", "scale_a")] + ([("len-", "scale_a")] if na else [])
    for f in ("dynamics", "running_costs", "terminal_costs", "path_constraints", "terminal_constraints"): out += [("fn+", f), ("fn-", f)]
    for p in range(nph): out += [("dyn+", p), ("dyn-", p), ("cost", p), ("mayer", p), ("path", p), ("term", p)]
    return out
def mutate(o, m):
    k, q = m
    if k == "len+": setattr(o, q, np.append(getattr(o, q), 1.0))
    elif k == "len-": setattr(o, q, getattr(o, q)[:-1])
    elif k[:4] in ("rows", "cols"):
        a = getattr(o, q); ax = 0 if k[:4] == "rows" else 1
        if k[4] == "+":
            e = np.zeros((1, a.shape[1]) if ax == 0 else (a.shape[0], 1), dtype=a.dtype)
            a = np.concatenate([a, e], axis=ax)
        else: a = a[:-1] if ax == 0 else a[:, :-1]
        setattr(o, q, a)
    elif k == "fn+": setattr(o, q, list(getattr(o, q)) + [getattr(o, q)[0]])
    elif k == "fn-": setattr(o, q, list(getattr(o, q))[:-1])
    elif k == "dyn+": o.dynamics[q] = lambda *a: [0.0] * (o.nx + 1)
    elif k == "dyn-": o.dynamics[q] = lambda *a: [0.0] * (o.nx - 1)
    elif k == "cost": o.running_costs[q] = lambda *a: None
    elif k == "mayer": o.terminal_costs[q] = lambda *a: None
    elif k == "path": o.path_constraints[q] = lambda *a: []
    elif k == "term": o.terminal_constraints[q] = lambda *a: []

# ------------------------------------------------------------------ A06
def h_A06(ctx, cfg):
    """The refinement is replaced by arbitrary widths and errors (or, with real=True, only the residuals are)."""
    n, nph, itmax = cfg["n"], cfg.get("nph", 1), cfg["iters"]
    stub = Stub(ctx)
    o = mp.OCP(n_states=1, n_controls=1, n_phases=nph)
    with settings(cfg), sc.patched(ctx, True, nlpsol=stub):
        m = mp.mpopt_h_adaptive(o, n_segments=cfg.get("pre", n), poly_orders=[1] * cfg.get("pre", n))
        if cfg.get("pre"):               # an earlier run, on another mesh
            n0, old = cfg["pre"], m.get_segment_width_parameters
            m.get_segment_width_parameters = lambda s, *a, **k: old(s, *a, **k) if s is None else (np.array([(q % n0 + len(stub.calls)) / sum(v + len(stub.calls) for v in range(n0)) for q in range(n0 * nph)]), 0.9 + 0.1 * (len(stub.calls) % 2))
            m.solve(max_iter=cfg.get("preit", 2))
            ctx.check("something was solved before", len(stub.calls) >= 1)
            m.get_segment_width_parameters = old
            m.n_segments, m.poly_orders = n, [1] * n
            m.reset_mpopt()
            del stub.calls[:], stub.made[:]
        tols = [ctx.real("tol%d" % i, 1e-3, 0.5) for i in range(nph)] if cfg.get("symtol", True) else [0.01] * nph
        m.tol_residual = list(tols)
        hist, asked = [], []
        orig = m.get_segment_width_parameters
        if cfg.get("real"):
            def resid(solution, *a, **k):
                j = len(asked); asked.append(solution)
                r = [[arr(ctx, [[ctx.real("r%d_%d_%d" % (j, i, s), 0.0, 1.0)]]) for s in range(n)] for i in range(nph)]
                hist.append((None, [x[0, 0] for ph in r for x in ph]))
                return [[[] for _ in range(n)] for _ in range(nph)], r
            m.get_dynamics_residuals = resid
        else:
            def refine(solution, *a, **k):
                if n == 1 or solution is None or (isinstance(solution, dict) and "x" not in solution): return orig(solution, *a, **k)
                j = len(asked); asked.append(solution)
                w = []
                for i in range(nph):
                    if cfg.get("keep") and len(hist): w += [hist[0][0][q + i * n] for q in range(n)]; continue
                    v = widths(ctx, n, "w%d_%d_" % (j, i), 0.1) if not cfg.get("fixw") else [(1.0 + (0.5 if (j + q) % 2 else 0.0)) for q in range(n)]
                    if cfg.get("fixw"): v = [x / sum(v) for x in v]
                    w += v
                e = ctx.real("e%d" % j, 0.0, 1.0)
                if cfg.get("big"): ctx.assume(e >= 0.51)
                hist.append((w, e))
                return arr(ctx, w), e
            m.get_segment_width_parameters = refine
        kw = {}
        ini = None
        z = None
        nz = None
        if cfg.get("ini"):
            nz = m.create_nlp()[0]["x"].numel()
            m.reset_mpopt()
            ini = warm(ctx, cfg["ini"], nz, 0, "ini")
            ini.pop("lam_g", None)
            kw["initial_solution"] = ini
        if cfg.get("opts"): kw["mpopt_options"] = dict(cfg["opts"])
        sol = m.solve(max_iter=itmax, **kw)
    calls = stub.calls
    ctx.check("iteration limit", len(calls) <= itmax, "%d solves with max_iter=%d" % (len(calls), itmax))
    ctx.check("one solver object", len(stub.made) <= 1)
    mt = tols[0]
    for t in tols[1:]: mt = t if bool(t <= mt) else mt
    hasx = bool(ini) and "x" in ini
    e0 = hist[0][1] if hasx and n > 1 else None
    hs = hist[1:] if e0 is not None else hist
    low = lambda e: AND([v < mt for v in e]) if isinstance(e, list) else e < mt
    if not calls:
        ctx.check("solved without iterating only when the given solution meets the tolerance", e0 is not None and low(e0))
        ctx.check("given solution is returned", sol is ini)
        return
    if e0 is not None: ctx.check("given solution below tolerance is returned at once", NOT(low(e0)))
    ctx.check("last answer is returned", sol is calls[-1]["sol"])
    eqv(ctx, "stored widths are those of the returned solution", m._nlp_sw_params, calls[-1]["kw"].get("p"))
    prev = ini
    eq = [1.0 / n] * (n * nph)
    for k, c in enumerate(calls):
        kwd = c["kw"]
        src = prev or {}
        if prev is None or ("x" not in src and "x0" not in src): eqv(ctx, "first start is the default guess", kwd.get("x0"), m.initialize_solution())
        else: eqv(ctx, "solve %d starts from the previous solution" % k, kwd.get("x0"), src.get("x", src.get("x0")))
        for q in ("lam_x", "lam_g"):
            if q in src: eqv(ctx, "solve %d gets the previous multipliers" % k, kwd.get(q + "0"), src[q])
        p = flat(kwd["p"])
        ctx.check("one width per segment", len(p) == n * nph)
        for i in range(nph):
            ctx.close("widths of solve %d sum to one" % k, total(p[i * n:(i + 1) * n]), 1.0, 1e-7)
        for v in p: ctx.check("positive widths", v > 0)
        if not cfg.get("real"):
            w = eq if (k == 0 and e0 is None) else hist[k - 1 + (1 if e0 is not None else 0)][0]
            if n > 1: eqv(ctx, "solve %d uses the current widths" % k, p, w)
        elif k == 0 and e0 is None: eqv(ctx, "first solve uses equal widths", p, eq)
        if n > 1: ctx.check("refinement sees the latest solution", len(asked) > k + (1 if e0 is not None else 0) and asked[k + (1 if e0 is not None else 0)] is c["sol"])
        prev = c["sol"]
    if n == 1:
        ctx.check("nothing to refine: one solve", len(calls) == 1); return
    # stopping
    K = len(calls)
    for k in range(K - 1): ctx.check("stops as soon as the error is below the tolerance", NOT(low(hs[k][1])), "solve %d" % k)
    if cfg.get("real"): return
    def stagn(k):            # after k solves, before the next
        w_new, w_old = hs[k - 1][0], flat(calls[k - 1]["kw"]["p"])
        small = AND([AND(a - b <= 0.05 * a, b - a <= 0.05 * a) for a, b in zip(w_new, w_old)])
        r = [small]
        if k > 4:
            e = [hs[j][1] for j in range(k - 4, k)]
            d = e[-1] - total(e) * 0.25
            r.append(AND(d < 0.05 * e[-1], -d < 0.05 * e[-1]))
        return OR(r)
    for k in range(1, K): ctx.check("continues only while widths and error still change", NOT(stagn(k)), "after solve %d" % k)
    if K < itmax: ctx.check("stops early only for a reason", OR(low(hs[K - 1][1]), stagn(K)), "after %d of %d solves" % (K, itmax))
    info = m.iter_info
    ctx.check("every solve is recorded", sorted(info) == list(range(1, K + 1)) and m.iter_count == K, "records %s" % sorted(info))
    if sorted(info) == list(range(1, K + 1)): ctx.close_many([("error recorded for solve %d" % k, info[k], hs[k - 1][1]) for k in range(1, K + 1)], 1e-9)

# ------------------------------------------------------------------ A07
NEG = {None: lambda p, q: False, "all": lambda p, q: True, "first": lambda p, q: p == 0, "diag": lambda p, q: p == q}
def h_A07(ctx, cfg):
    n, nph, itmax, nx = cfg["n"], cfg.get("nph", 1), cfg["iters"], cfg.get("nx", 1)
    stub = Stub(ctx)
    o = mp.OCP(n_states=nx, n_controls=1, n_phases=nph)
    orders = cfg.get("orders", [2] * n)
    with settings(cfg), sc.patched(ctx, True, nlpsol=stub):
        tol = ctx.real("tol", 1e-3, 0.5)
        m = mp.mpopt_ph_adaptive(o, n_segments=n, poly_orders=list(orders), max_residual=tol, poly_order_max=cfg.get("pmax", 16), poly_order_min=cfg.get("pmin", 3), non_smooth_threshold=1.05, **({"grid_type": cfg["grid"]} if cfg.get("grid") else {}))
        lo, hi = m.poly_order_min, m.poly_order_max
        sig = inspect.signature(m.get_states_residuals)
        if cfg.get("pre"):               # an earlier run, on another mesh, that refined it
            n0, half = cfg["pre"], iter(range(99))
            const = lambda v: [[np.full((1, nx), v, dtype=float) for _ in range(m.n_segments)] for _ in range(nph)]
            t0 = lambda: [[np.zeros(1) for _ in range(m.n_segments)] for _ in range(nph)]
            three = lambda v: [[np.full((1, nx, 1), v) for _ in range(m.n_segments)] for _ in range(nph)]
            m.n_segments, m.poly_orders = n0, [2] * n0
            m.reset_mpopt()
            m.get_states_residuals = lambda *a, **k: (t0(), t0(), t0(), const(0.9))
            def grow(*a, **k):
                v = 1.0 + next(half) % 2
                return t0(), three(v), three(v)
            m.get_state_second_derivative = grow
            m.solve_ph(max_iter=cfg.get("preit", 1))
            ctx.check("something was solved before", len(stub.calls) >= 1)
            m.n_segments, m.poly_orders = n, list(orders)
            m.reset_mpopt()
            del stub.calls[:], stub.made[:]
        evs, kinds = [], []
        def states(*a, **k):
            asked = sig.bind(*a, **k).arguments
            solution, j, S = asked["solution"], len(evs), m.n_segments
            kinds.append(asked.get("residual_type"))
            if cfg.get("grid") and asked.get("nodes") is None:
                g = asked.get("grid_type") or m.grid_type
                ctx.check("residuals are assessed on the requested kind of grid", [g] * nph == [cfg["grid"]] * nph or list(g) == [cfg["grid"]] * nph, str(g))
            ctx.check("all phases are assessed", asked.get("phases") is None or sorted(asked["phases"]) == list(range(nph)), str(asked.get("phases")))
            live = cfg["late"] if j >= 2 and "late" in cfg else cfg.get("live")
            r = [[arr(ctx, [[ctx.real("r%d_%d_%d_%d" % (j, i, s, c), 0.0, 1.0) if (live is None or (i, s) in live or (s >= n and "late" not in cfg)) and c < cfg.get("rnx", nx) else 0.0 for c in range(nx)]]) for s in range(S)] for i in range(nph)]
            evs.append((solution, [x for ph in r for seg in ph for x in seg.ravel()], r, [int(q) for q in m.poly_orders]))
            ctx.check("refinement sees the latest solution", stub.calls and solution is stub.calls[-1]["sol"])
            t = [[np.zeros(1) for _ in range(S)] for _ in range(nph)]
            return t, t, t, [[seg.copy() for seg in ph] for ph in r]
        curv = {}
        def second(solution, *a, nodes=None, **k):
            j = next((q for q, c in enumerate(stub.calls) if c["sol"] is solution), None)
            ctx.check("curvature of one of the solutions", j is not None)
            if j is None: j = -1
            for e in evs:
                if e[0] is solution: ctx.check("curvature is computed on the mesh of its solution", e[3] == [int(q) for q in m.poly_orders], "%s instead of %s" % (m.poly_orders, e[3]))
            S = m.n_segments
            npt, neg = cfg.get("npt", 1), NEG[cfg.get("neg")]     # points per segment, which of the values are negative
            v = lambda i, s, q, p: (-1.0 if neg(p, q) else 1.0) * (ctx.real("d%d_%d_%d_%d_%d" % (j, i, s, q, p), 0.1, 2.0) if cfg.get("symd") else (2.0 if (j % 2 and (cfg.get("rough", "all") == "all" or (i, s) in cfg["rough"])) else 1.0))
            d = [[np.array([[[v(i, s, q, p)] for q in range(nx)] for p in range(npt)], dtype=object if ctx.sym else float) for s in range(S)] for i in range(nph)]
            curv[j] = d
            return [[np.zeros(1)] * S] * nph, [[seg.copy() for seg in ph] for ph in d], d
        m.get_states_residuals, m.get_state_second_derivative = states, second
        opts = {"nlp_solver_options": {"verbose": True}}
        fo = freeze(opts)
        sol = m.solve_ph(max_iter=itmax, **({"solve_dict": opts} if cfg.get("given") else {}))
        if cfg.get("given"): unchanged(ctx, "options", fo, opts)
    K = len(stub.calls)
    ctx.check("something is solved", K >= 1)
    ctx.check("at most two solves per iteration", K <= 2 * itmax, "%d solves" % K)
    ctx.check("last answer is returned", sol is stub.calls[-1]["sol"])
    ctx.check("relative residuals are assessed", all(q == "relative" for q in kinds), str(kinds))
    ctx.check("every solution is assessed", len(evs) == K and all(e[0] is c["sol"] for e, c in zip(evs, stub.calls)))
    if len(evs) != K: return
    okk = [AND([v <= tol for v in e[1]]) for e in evs]
    for k in range(K - 1): ctx.check("stops when every phase meets the tolerance", NOT(okk[k]), "solve %d" % k)
    if K < 2 * itmax: ctx.check("gives up only at the iteration limit", okk[-1], "after %d solves of %d iterations" % (K, itmax))
    mesh = [(e[3], flat(c["kw"]["p"])) for e, c in zip(evs, stub.calls)]
    for k in range(K - 1):
        (P0, w0), (P1, w1), r = mesh[k], mesh[k + 1], evs[k][2]
        bad = [OR([v > tol for i in range(nph) for v in r[i][s].ravel()]) for s in range(len(P0))]
        if k % 2 == 0:
            # finer solve: higher degrees (within the limits) where some phase is above the tolerance
            ctx.check("same segments in the finer solve", len(P1) == len(P0) and len(w1) == len(w0), "%s after %s" % (P1, P0))
            if len(P1) != len(P0) or len(w1) != len(w0): return
            ctx.close("same widths in the finer solve", w1, w0, 1e-9)
            for s, b in enumerate(bad):
                up, keep = P1[s] > P0[s] or P1[s] == hi, P1[s] == min(max(P0[s], lo), hi)
                ctx.check("degree is raised where the residual is too large", up or NOT(b), "solve %d: degrees %s after %s" % (k + 1, P1, P0))
                ctx.check("degree is kept elsewhere", keep or b, "solve %d: degrees %s after %s" % (k + 1, P1, P0))
        else:
            # next mesh: segments still above the tolerance whose curvature grew are split, in all phases alike
            j = k // 2
            S0, S1 = len(P0), len(P1)
            if 2 * j not in curv or 2 * j + 1 not in curv or len(w0) != S0 * nph or len(w1) != S1 * nph: ctx.check("curvatures are assessed, one width per phase and segment", False); return
            a = 0
            for s in range(S0):
                b = a + 1
                hit, miss = [], []
                for i in range(nph):
                    big = OR([v > tol for v in r[i][s].ravel()])
                    # grows: somewhere in the segment the magnitude exceeds 1.05 times every earlier one
                    mag = lambda d, c: [-v if NEG[cfg.get("neg")](p, c) else v for p, v in enumerate(d[i][s][:, c, 0])]
                    q = [(x, mag(curv[2 * j], c)) for c in range(nx) for x in mag(curv[2 * j + 1], c)]
                    hit.append(AND(big, OR([AND([x >= (1.05 + 1e-6) * y for y in ys]) for x, ys in q])))
                    miss.append(OR(NOT(big), AND([OR([x <= (1.05 - 1e-6) * y for y in ys]) for x, ys in q])))
                # whether this segment was split follows from the widths: a kept one has its old width
                split = not bool(NEAR(w1[a], w0[s], 1e-9))
                ctx.check("segments above the tolerance with growing curvature are split", split or NOT(OR(hit)), "segment %d of mesh %d" % (s, k))
                ctx.check("other segments are kept", (not split) or NOT(AND(miss)), "segment %d of mesh %d" % (s, k))
                n2 = 2 if split else 1
                if a + n2 > S1: ctx.check("number of segments", False, "%d after %d" % (S1, S0)); return
                for i in range(nph): ctx.close("pieces cover the segment", total(w1[i * S1 + a:i * S1 + a + n2]), w0[i * S0 + s], 1e-9)
                ctx.check("degrees of the pieces", all(q == P0[s] for q in P1[a:a + n2]), "%s after %s" % (P1, P0))
                a += n2
            ctx.check("number of segments", a == S1, "%d after %d" % (S1, S0))
    ctx.check("degrees within the limits", all(lo <= int(p) <= hi for p in m.poly_orders), "%s not in [%s, %s]" % (m.poly_orders, lo, hi))
    ctx.check("one degree per segment", len(m.poly_orders) == m.n_segments)
    for k, c in enumerate(stub.calls):
        p = flat(c["kw"]["p"])
        ctx.check("widths for every phase", len(p) % nph == 0)
        S = len(p) // nph
        for i in range(nph): ctx.close("widths of solve %d sum to one" % k, total(p[i * S:(i + 1) * S]), 1.0, 1e-9)
        for v in p: ctx.check("positive widths", v > 0)
        ctx.check("program and widths belong together", ca.SX(stub.made[c["made"]]["nlp"]["p"]).numel() == len(p) and c["made"] == len(stub.made) - 1 - (K - 1 - k))
        if cfg.get("given"): ctx.check("given options are used", stub.made[c["made"]]["opts"].get("verbose") is True)
    p = flat(stub.calls[-1]["kw"]["p"])
    ctx.check("mesh of the returned solution", len(p) == m.n_segments * nph)
    eqv(ctx, "stored widths are those of the returned solution", m._nlp_sw_params, p)
    npt = sum(int(q) for q in m.poly_orders) + 1
    ctx.check("degrees of the returned solution", ca.SX(stub.made[-1]["nlp"]["x"]).numel() == nph * (npt * (nx + 1) + 2), "%d variables for degrees %s" % (ca.SX(stub.made[-1]["nlp"]["x"]).numel(), m.poly_orders))

def checks():
    one = lambda cls, orders, nph=1, **k: C(cls=cls, orders=orders, nph=nph, **k)
    kinds = [None, ("x",), ("x0",), ("x", "lam_x", "lam_g", "f", "lam_p"), ("x0", "lam_x0", "lam_g0"), ("lam_x",), ("lam_g0", "f"), ("x", "lam_g"), ("x0", "lam_x")]
    s01 = [one(cls, o, calls=[dict(ini=k)]) for cls, o in (("mpopt", [1, 2]), ("adaptive", [1, 2]), ("h", [2])) for k in kinds]
    s01 += [one("mpopt", [1, 2], calls=[dict(sw="list")]), one("mpopt", [1, 1, 2], nph=2, calls=[dict(sw="arr", ini=("x",))]), one("mpopt", [2, 1], calls=[dict(sw="arr"), dict(), dict(sw="list")])]
    s01 += [one(cls, o, calls=[dict(opts=k), dict(reinit="?", opts="?", ini="?")], cost=5) for cls, o in (("mpopt", [1, 1]), ("adaptive", [1, 1]), ("h", [1])) for k in (0, 1, 2)]
    s01 += [one(cls, o, calls=[dict(solver="sqpmethod", opts=k), dict(reset=True, opts=1), dict()]) for cls, o in (("mpopt", [1, 1]), ("adaptive", [1, 1]), ("h", [1])) for k in (0, 2)]
    s01 += [one("ph", [2, 2], calls=[dict(ini=("x",)), dict(reinit="?", ini="?")]), one("mpopt", [1, 1], nph=2, na=1, path=[1, 0], term=[1, 1], calls=[dict(), dict(reinit=True)]), one("adaptive", [1, 1], nph=2, calls=[dict(), dict(reinit=True)])]
    s01 += [one(c, [1, 1, 2, 1, 1, 1], nph=4, na=1, calls=[dict(ini=("x", "lam_g")), dict(reinit=True), dict()]) for c in ("mpopt", "adaptive")] + [one("mpopt", [9], nph=1, calls=[dict(sw="list"), dict(ini=("x0",))])]
    s01t = s01 + [one(cls, o, calls=[dict(opts=1), dict(reinit="?", opts="?", ini="?"), dict(reinit="?", opts="?", ini="?")], cost=30) for cls, o in (("mpopt", [1, 1]), ("adaptive", [1, 1]), ("h", [1]), ("ph", [1, 1]))]
    s01t += [one(cls, o, nph=2, nx=2, nu=2, na=1, path=[1, 1], term=[1, 1], calls=[dict(ini=k), dict(reinit=True)], cost=9) for cls, o in (("mpopt", [2, 3]), ("adaptive", [2, 2]), ("h", [3])) for k in kinds]
    s02 = [one(c, o, nph=p, **k) for c, o in (("mpopt", [1, 2]), ("adaptive", [1, 1]), ("h", [1, 2]), ("ph", [2, 2])) for p in (1, 2) for k in (dict(), dict(na=1, scale="unit", ini=("x0", "lam_g0")))]
    s02 = [c for c in s02 if not (c["cls"] == "h" and c.get("ini"))] + [one("h", [2, 1], ini=("x", "lam_g"), scale="unit")]
    s02t = s02 + [one(c, o, nph=2, nx=2, nu=2, na=1, path=[1, 1], term=[1, 0], cost=9) for c, o in (("mpopt", [2, 3]), ("adaptive", [2, 2]), ("h", [2, 3]), ("ph", [3, 3]))] + [one(c, [1, 1, 1], nph=3, cost=9) for c in ("mpopt", "adaptive", "h")]
    d3 = lambda **k: C(nx=k.pop("nx", 1), nu=k.pop("nu", 1), na=k.pop("na", 1), nph=k.pop("nph", 1), **k)
    s03 = [d3(pat="fl", nx=a, nu=b, na=c, nph=2, con=w) for a, b, c in ((3, 2, 4), (2, 3, 0)) for w in (True, False)] + [d3(pat=p, nph=h) for p in ("f", "flub", "uflb", "fI", "fJf", "b") for h in (1, 2)] + [d3(pat="fl", nx=2, nu=2, na=2), d3(pat="f", na=0, con=True), d3(pat="f", nph=3), d3(pat="f", nx=2, nu=1, na=0, nph=2, con=True)]
    s03 += [d3(pat="flub", mut=True, nx=2, nu=1, na=1, nph=2, cost=9), d3(pat="f", mut=True, nx=1, nu=2, na=0, nph=1, con=True), d3(pat="f", mut=True, nx=1, nu=1, na=2, nph=3, cost=9)]
    s03 += [d3(pat="flub", nph=6), d3(pat="fl", nx=6, nu=5, na=5), d3(pat="f", mut=True, nx=5, nu=4, na=4, nph=5, con=True, cost=30)]
    s03t = s03 + [d3(pat="f", nx=3, nu=2, na=2, nph=2, cost=9), d3(pat="fflub", nx=2, nu=2, na=2, nph=3, cost=9), d3(pat="f", mut=True, nx=3, nu=2, na=2, nph=2, con=True, cost=20)]
    a06 = [C(n=n, iters=i, nph=p, cost=i * n) for n, i, p in ((2, 1, 1), (2, 2, 1), (2, 3, 1), (3, 2, 1), (2, 2, 2), (1, 3, 1), (1, 2, 2))]
    a06 += [C(n=2, iters=2, ini=("x",)), C(n=2, iters=1, ini=("x", "lam_x", "lam_g")), C(n=1, iters=2, ini=("x", "f")), C(n=2, iters=2, ini=("x0",)), C(n=2, iters=1, ini=("lam_x",))]
    a06 += [C(n=2, iters=7, fixw=True, big=True, cost=20), C(n=2, iters=6, fixw=True, symtol=False, cost=20), C(n=2, iters=4, keep=True)]
    a06 += [C(n=2, iters=2, real=True, opts=dict(method="residual", sub_method=q), cost=9) for q in ("merge_split", "equal_area")] + [C(n=2, iters=3, real=True, nph=2, opts=dict(method="residual", sub_method="merge_split"), cost=30), C(n=2, iters=2, real=True), C(n=2, iters=2, real=True, ini=("x",))]
    a06 += [C(n=2, iters=3, pre=3), C(n=3, iters=2, pre=2), C(n=1, iters=2, pre=2, nph=2), C(n=2, iters=6, pre=3, preit=7, fixw=True, big=True, cost=20), C(n=2, iters=2, pre=2, nph=2, ini=("x",))]
    a06t = a06 + [C(n=2, iters=4, cost=50), C(n=3, iters=3, cost=50), C(n=2, iters=3, nph=2, cost=50), C(n=2, iters=9, fixw=True, big=True, cost=50), C(n=2, iters=3, ini=("x", "lam_g"), cost=20), C(n=3, iters=2, real=True, opts=dict(method="residual", sub_method="merge_split"), cost=30), C(n=2, iters=3, real=True, opts=dict(method="residual", sub_method="equal_area"), cost=30)]
    a07 = [C(n=1, iters=1), C(n=2, iters=1), C(n=1, iters=2), C(n=2, iters=1, nph=2, live=[(0, 0), (1, 1)], cost=9), C(n=2, iters=1, nph=2, live=[(1, 0), (1, 1)], cost=9), C(n=2, iters=2, live=[(0, 0)], cost=9), C(n=2, iters=2, nph=2, live=[(1, 1)], late=[(0, 0), (1, 2)], cost=9), C(n=1, iters=2, nph=2, live=[(0, 0)], late=[(0, 0), (1, 1)], cost=20), C(n=1, iters=2, nph=2, live=[(1, 0)], late=[(1, 0)], cost=20), C(n=1, iters=1, nph=2), C(n=1, iters=2, rough=[], cost=3), C(n=2, iters=2, rough=[(0, 1)], live=[(0, 1)], cost=9),
           C(n=1, iters=2, orders=[4], pmax=6), C(n=2, iters=1, orders=[3, 4], pmax=5), C(n=2, iters=2, orders=[3, 4], pmax=5, live=[(0, 0)], cost=9), C(n=1, iters=1, symd=True, nx=2), C(n=1, iters=2, symd=True, nx=2, rnx=1, late=[], cost=9), C(n=1, iters=2, symd=True, cost=9), C(n=1, iters=2, symd=True, late=[], neg="all", cost=9), C(n=1, iters=2, symd=True, late=[], npt=2, neg="first", cost=9), C(n=1, iters=2, symd=True, nx=2, rnx=1, late=[], neg="diag", cost=20), C(n=1, iters=2, given=True), C(n=2, iters=1, given=True, tau=0), C(n=2, iters=1, orders=[1, 4])]
    a07 += [C(n=1, iters=1, grid="mid-points"), C(n=1, iters=2, grid="fixed", nph=2, live=[(1, 0)], late=[(0, 0)]), C(n=1, iters=1, grid="spectral", pre=2)]
    a07 += [C(n=3, iters=2, live=[(0, 1)], late=[(0, 2)], cost=20), C(n=1, iters=2, nph=3, live=[(2, 0)], late=[(1, 0)], cost=20), C(n=1, iters=2, pre=2, late=[(0, 0)]), C(n=2, iters=1, pre=1, preit=2), C(n=1, iters=1, nph=2, pre=3, live=[(1, 0)]), C(n=2, iters=2, pre=2, orders=[3, 4], pmax=5, live=[(0, 1)], late=[])]
    a07t = a07 + [C(n=2, iters=2, nph=2, live=[(1, 1)], late=[(1, 1), (1, 2)], cost=60), C(n=2, iters=2, symd=True, nx=2, rnx=1, live=[(0, 1)], late=[], cost=50), C(n=2, iters=1, nph=2, cost=50, max_paths=20000), C(n=1, iters=2, nph=2, live=[(0, 0), (1, 0)], late=[(1, 0)], rough=[(0, 0)], cost=90, max_paths=20000), C(n=2, iters=2, live=[(0, 0), (0, 1)], late=[(0, 1)], cost=90, max_paths=20000), C(n=1, iters=3, late=[(0, 1)], cost=60), C(n=2, iters=2, nph=2, live=[(0, 0), (1, 0)], late=[(1, 1)], cost=90), C(n=3, iters=1, cost=9), C(n=2, iters=1, nph=3, live=[(0, 0), (1, 1), (2, 0)], cost=40)]
    s04 = [C(orders=o, scheme=q, **k) for o, q, k in (([2], "LGR", {}), ([1, 2], "LGL", {}), ([2, 2], "CGL", dict(porder=2)), ([1, 1, 1], "LGR", dict(porder=1, scheme_given=False)), ([9], "LGR", dict(defmesh=True, scheme_given=False, cost=5)))]
    s04 += [C(orders=[1, 2], nph=2, nx=2, na=1, path=[1, 0], term=[1, 1]), C(orders=[2, 1], nph=2, ini=("x",), sw=True), C(orders=[1, 1], ini=("x", "lam_x", "lam_g"), opts={"ipopt.max_iter": 3, "verbose": True}), C(orders=[1, 1], ini=("x0",)),
            C(orders=[1, 1], flags=True, cost=9), C(orders=[2], flags=True, sw=True, cost=9), C(orders=[1, 2], nph=2, flags=True, na=1, cost=9)]
    s04t = s04 + [C(orders=o, scheme=q, nph=p, nx=2, nu=2, na=1, path=[1] * p, term=[1] * p, flags=True, sw="conc", ini=("x", "lam_g"), cost=20) for o, q in (([2, 3], "LGR"), ([3, 2], "CGL"), ([1, 2, 2], "LGL")) for p in (1, 2)]
    L, B, G = "LGR", "LGL", "CGL"
    s05 = [C(cls=c, meshes=ms, nph=p, nint=3, **k) for c in ("mpopt", "adaptive", "h") for ms, p, k in (([([1, 2], L), ([2, 1], L)], 1, {}), ([([2], L), ([1, 1, 1], L)], 2, {}), ([([2, 2], L), ([2], B)], 1, dict(na=1, path=[1], term=[1])), ([([1, 2], B), ([1, 2], G), ([1, 2], L)], 1, {}))]
    s05 += [C(cls=c, meshes=[([1, 2], L), ([2, 1], L), ([3], B)], nph=2, nint=3, diffu=[1, 0], duc=[0, 1], midu=[True, False], path=[0, 1], term=[1, 0]) for c in ("mpopt", "adaptive", "h")] + [C(cls="mpopt", meshes=[([1, 2], L), ([2, 1], L)], nph=1, nu=2, nint=3, diffu=[1], duc=[1], midu=[True])]
    s05 += [C(cls=c, meshes=[([1] * 6, L), ([7], B), ([2, 1], L)], nph=1, nint=3) for c in ("mpopt", "adaptive")] + [C(cls=c, meshes=[([1, 2], L), ([2, 1], L)], nph=4, nint=3) for c in ("mpopt", "h")]
    s05 += [C(cls="mpopt", meshes=[([1, 2], L), ([3, 1], B)], nph=2, ini=("x", "lam_x"), grid="spectral", nint=3), C(cls="ph", meshes=[([1, 2], L), ([3], L), ([2, 1], L)], nph=1, nint=3), C(cls="adaptive", meshes=[([2, 1], L), ([1, 1, 1], B)], nph=2, ini=("x",), nint=3)]
    s05t = s05 + [C(cls=c, meshes=[([2, 3], a), ([1, 2, 4], b), ([5], a)], nph=p, na=1, nx=2, nu=2, path=[1] * p, term=[1] * p, nint=3, cost=20) for c in ("mpopt", "adaptive", "h") for a, b in ((L, B), (B, G), (G, L)) for p in (1, 2)]
    return {
        "S05": Check(h_S05, lambda: s05 + s05t[len(s05)::4], lambda: s05t, "2-3 successive meshes of 1-3 segments with degrees 1-3 (thorough: 5), three schemes, 1-2 phases; the NLP solver is replaced by a recorder with arbitrary answers; a new optimiser on the same mesh (decided by C*, S01, P*) is the reference"),
        "S04": Check(h_S04, lambda: s04 + s04t[len(s04)::4], lambda: s04t, "1-3 segments, degrees 1-3 and the default 9, 1-2 phases, degrees as list or as one number, 4 kinds of warm start, all combinations of residual and plot flags; the NLP solver is replaced by a recorder with arbitrary answers, plotting by a recorder of curves; what the optimiser builds and what processing returns are compared with a directly built optimiser (decided by C*, S01, P*)"),
        "A06": Check(h_A06, lambda: a06, lambda: a06t, "1-3 segments, 1-2 phases, up to 3 iterations with arbitrary widths (thorough: 4), up to 7 with prescribed widths and arbitrary errors (thorough: 9); errors in [0,1], widths at least 0.1; also after an earlier run on another mesh; the NLP solver and the residuals (or the whole refinement) are replaced by arbitrary answers"),
        "A07": Check(h_A07, lambda: a07, lambda: a07t, "1-2 initial segments (thorough: 3), 1-2 phases (thorough: 3), up to 2 iterations (thorough: 3), residuals in [0,1], tolerance in [1e-3,0.5], curvatures 1/2 or arbitrary in [0.1,2]; also after an earlier run on another mesh; the NLP solver, state residuals and curvatures are replaced by arbitrary answers"),
        "S01": Check(h_S01, lambda: s01, lambda: s01t, "up to 3 solve calls on one optimiser, 3 option dictionaries, 9 kinds of warm start, 1-3 segments, 1-2 phases; the NLP solver is replaced by a recorder with arbitrary answers"),
        "S02": Check(h_S02, lambda: s02 + s02t[len(s02)::4], lambda: s02t, "two optimisers and three solves, then edits of the caller's problem and a fourth solve; 1-2 phases (thorough: 3); the NLP solver is replaced by a recorder with arbitrary answers"),
        "S03": Check(h_S03, lambda: s03, lambda: s03t, "1-2 states, controls, parameters (thorough: 3), 1-3 phases, default links; every bound pair finite or infinite in fixed patterns; every single size error of the listed kinds"),
    }
CHECKS = checks()
