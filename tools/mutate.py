#!/usr/bin/env python3
"""Mutation sweep: small automatic changes of the library, each run against the checks whose evidence names the
changed function, to find behaviour the checks do not constrain. A development aid; no check uses it.

  mutate.py list                      number of mutants per function
  mutate.py run OUT [seed] [n] [workers] [function-regex]
"""
import ast, json, os, random, re, shutil, subprocess, sys, time, glob, multiprocessing as mpc
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/mpopt/mpopt.py"
BASE = open(SRC, "rb").read()
W = os.environ.get("MUT_DIR", "/tmp/mut")
SWAP = {"lbx": "ubx", "ubx": "lbx", "lbu": "ubu", "ubu": "lbu", "lba": "uba", "uba": "lba", "x00": "xf0", "xf0": "x00", "u00": "uf0", "uf0": "u00", "t00": "tf0", "tf0": "t00",
        "scale_x": "scale_u", "scale_u": "scale_x", "lbt0": "lbtf", "ubt0": "ubtf", "lbtf": "lbt0", "ubtf": "ubt0", "lbe": "ube", "ube": "lbe", "t0": "tf", "tf": "t0", "tau0": "tau1", "tau1": "tau0",
        "lbdu": "ubdu", "ubdu": "lbdu", "lbh": "ubh", "ubh": "lbh", "X": "U", "nx": "nu", "nu": "nx", "xmin": "xmax", "xmax": "xmin", "Gmin": "Gmax", "Gmax": "Gmin", "hstack": "vstack", "vstack": "hstack", "min": "max", "max": "min", "repeat": "tile", "tile": "repeat"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
class M(ast.NodeVisitor):
    def __init__(s, src):
        s.src, s.lines, s.out, s.stack, s.fn, s.lam = src, src.split("\n"), [], [], [], 0
        s.off = [0]
        for l in s.lines: s.off.append(s.off[-1] + len(l.encode()) + 1)
        s.b = src.encode()
    def pos(s, n): return s.off[n.lineno - 1] + n.col_offset, s.off[n.end_lineno - 1] + n.end_col_offset
    def txt(s, n): a, b = s.pos(n); return s.b[a:b].decode()
    def add(s, n, new, kind):
        fn = ".".join(s.stack[:2])
        if not s.stack: return
        a, b = s.pos(n)
        if s.b[a:b].decode() != new: s.out.append((fn, n.lineno, a, b, new, kind))
    def visit_FunctionDef(s, n):
        s.stack.append(n.name)
        s.fn.append((n, {a.arg for a in n.args.args}, sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in n.args.args} - {"self", "cls"})))
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]: s.visit(d)
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str): body = body[1:]
        for x in body: s.visit(x)
        s.fn.pop(); s.stack.pop()
    def memo(s, n):
        """A stale cache on the object: the value computed first, or first for the phase, is kept."""
        if not s.fn or "self" not in s.fn[0][1] or s.lam: return
        a = s.pos(n)[0]
        s.add(n, 'self.__dict__.setdefault("_m%d", %s)' % (a, s.txt(n)), "memo")
        for v in ("phase", "seg"):
            if v in s.fn[-1][2]: s.add(n, 'self.__dict__.setdefault(("_m%d", %s), %s)' % (a, v, s.txt(n)), "memo-" + v)
    def visit_Lambda(s, n): s.lam += 1; s.generic_visit(n); s.lam -= 1
    def visit_For(s, n):
        it = s.txt(n.iter)
        if isinstance(n.iter, (ast.Name, ast.Attribute)) or it.startswith("range"): s.add(n.iter, "reversed(list(%s))" % it, "reverse"); s.add(n.iter, "list(%s)[:-1]" % it, "skip-last")
        for x in n.body:
            if isinstance(x, ast.Assign) and (isinstance(x.value, (ast.List, ast.Dict)) or s.txt(x.value) in ("None", "0", "1", "False")):
                t = s.txt(x.targets[0])
                if isinstance(x.targets[0], ast.Name): s.add(x, '%s = locals().get(%r, %s)' % (t, t, s.txt(x.value)), "init-once")
        s.generic_visit(n)
    def visit_Subscript(s, n):
        if isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            lo, hi = (s.txt(x) if x else "" for x in (n.slice.lower, n.slice.upper))
            if lo: s.add(n, "%s[:%s]" % (s.txt(n.value), hi), "slice")
            if hi: s.add(n, "%s[%s:]" % (s.txt(n.value), lo), "slice")
        s.generic_visit(n)
    def visit_ClassDef(s, n):
        s.stack.append(n.name)
        for x in n.body:
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)): s.visit(x)
            elif isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                s.stack.append("__class__"); s.visit(x.value); s.stack.pop()
        s.stack.pop()
    def visit_Call(s, n):
        if isinstance(n.func, ast.Name) and n.func.id == "print": return
        s.memo(n)
        f, A = s.txt(n.func), [s.txt(a) for a in n.args]
        K = ["%s=%s" % (k.arg, s.txt(k.value)) if k.arg else "**" + s.txt(k.value) for k in n.keywords]
        call = lambda a, k: "%s(%s)" % (f, ", ".join(a + k))
        if f == "range" and len(A) == 1: s.add(n, "range(1, %s)" % A[0], "range+1"); s.add(n, "range(%s - 1)" % A[0], "range-1"); s.add(n, "range(1)", "range1")
        if f in ("copy.deepcopy", "copy.copy", "list", "dict", "np.array", "copy.deepcopy", "abs", "np.abs", "sorted", "set") and len(A) == 1: s.add(n, A[0], "unwrap")
        if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not A: s.add(n, s.txt(n.func.value), "unwrap")
        for j in range(len(A) - 1): s.add(n, call(A[:j] + [A[j + 1], A[j]] + A[j + 2:], K), "arg-swap")
        for j in range(len(K)): s.add(n, call(A, K[:j] + K[j + 1:]), "drop-kw")
        s.generic_visit(n)
    def visit_BinOp(s, n):
        L, R = s.txt(n.left), s.txt(n.right)
        if isinstance(n.op, (ast.Mult, ast.Div)): s.add(n, "(%s)" % L, "drop-right")
        if isinstance(n.op, ast.Mult): s.add(n, "(%s)" % R, "drop-left"); s.add(n, "((%s) / (%s))" % (L, R), "mul-div")
        if isinstance(n.op, ast.Div): s.add(n, "((%s) * (%s))" % (L, R), "div-mul")
        if isinstance(n.op, ast.Add): s.add(n, "((%s) - (%s))" % (L, R), "add-sub"); s.add(n, "(%s)" % L, "drop-right")
        if isinstance(n.op, ast.Sub): s.add(n, "((%s) + (%s))" % (L, R), "sub-add"); s.add(n, "(%s)" % L, "drop-right")
        s.generic_visit(n)
    def visit_Constant(s, n):
        if isinstance(n.value, bool): s.add(n, str(not n.value), "flip")
        elif isinstance(n.value, int): s.add(n, str(n.value + 1), "const+1"); s.add(n, "(%d)" % (n.value - 1), "const-1")
        elif isinstance(n.value, float): s.add(n, "%r" % (n.value * 1.5 + (0.1 if n.value == 0 else 0)), "const*1.5")
    def visit_JoinedStr(s, n): pass
    def visit_Compare(s, n):
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and s.txt(n.comparators[0]) == "None": s.add(n, ("(not %s)" if isinstance(n.ops[0], ast.Is) else "bool(%s)") % s.txt(n.left), "falsy")
        if len(n.ops) == 1 and type(n.ops[0]) in CMP: s.add(n, "%s %s %s" % (s.txt(n.left), CMP[type(n.ops[0])], s.txt(n.comparators[0])), "cmp")
        s.generic_visit(n)
    def visit_If(s, n):
        s.add(n.test, "True", "if-true"); s.add(n.test, "False", "if-false")
        s.generic_visit(n)
    def visit_IfExp(s, n):
        s.add(n.test, "True", "if-true"); s.add(n.test, "False", "if-false")
        s.generic_visit(n)
    def visit_Name(s, n):
        if isinstance(n.ctx, ast.Load):
            if n.id in ("phase", "phase_j", "seg", "i"): s.add(n, "0", "index-0")
            if s.fn and n.id in s.fn[-1][2]:
                near = [v for v in s.fn[-1][2] if v != n.id and (v[:3] == n.id[:3] or v[-3:] == n.id[-3:] or len(v) == len(n.id) <= 2)]
                for v in near: s.add(n, v, "name")
            if n.id in SWAP: s.add(n, SWAP[n.id], "swap")
    def visit_Attribute(s, n):
        if isinstance(n.ctx, ast.Load) and n.attr in SWAP: s.add(n, s.txt(n.value) + "." + SWAP[n.attr], "swap")
        s.generic_visit(n)
    def visit_BoolOp(s, n):
        V = ["(%s)" % s.txt(v) for v in n.values]
        s.add(n, (" or " if isinstance(n.op, ast.And) else " and ").join(V), "and-or")
        for j in range(len(V)): s.add(n, "(%s)" % (" and " if isinstance(n.op, ast.And) else " or ").join(V[:j] + V[j + 1:]), "drop-term")
        s.generic_visit(n)
    def visit_UnaryOp(s, n): s.add(n, "(%s)" % s.txt(n.operand), "drop-sign"); s.generic_visit(n)
    def visit_Continue(s, n): s.add(n, "pass", "delete")
    def visit_Break(s, n): s.add(n, "pass", "delete")
    def visit_comprehension(s, n):
        for c in n.ifs: s.add(c, "True", "if-true")
        s.generic_visit(n)
    def visit_Assign(s, n):
        if all(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets): s.add(n, "pass", "delete")
        s.generic_visit(n)
    def visit_AugAssign(s, n): s.add(n, s.txt(n.target) + " = " + s.txt(n.value), "aug-assign"); s.add(n, "pass", "delete"); s.generic_visit(n)
    def visit_Expr(s, n):
        if isinstance(n.value, ast.Call) and not (isinstance(n.value.func, ast.Name) and n.value.func.id == "print"): s.add(n, "pass", "delete")
        s.generic_visit(n)
    def visit_Assert(s, n): s.add(n, "pass", "delete"); s.generic_visit(n)
    def visit_Raise(s, n): pass
def mutants():
    src = BASE.decode()
    m = M(src); m.visit(ast.parse(src))
    return src, sorted(set(m.out))
def plan():
    fn = {}
    anch = {json.loads(l)["id"]: l for l in open(V + "/properties.jsonl")}
    cost = {}
    for f in glob.glob(V + "/evidence/*.json"):
        e = json.load(open(f)); p = e["property"]; cost[p] = e["wall_s"]
        for q in e["coverage"]["functions_encoded"]: fn.setdefault(q.split(".<locals>")[0], set()).add(p)
    def order(name):
        ps = fn.get(name, set())
        short = name.split(".")[-1]
        return sorted(ps, key=lambda p: (0 if re.search(r"\b%s\b" % re.escape(short), anch[p]) else 1, cost.get(p, 9)))
    return order
def run1(a):
    k, mu, order = a
    fn, ln, s, e, new, kind = mu
    w = "%s/w%d" % (W, os.getpid())
    if not os.path.exists(w):
        os.makedirs(w); shutil.copytree("/repo/mpopt", w + "/repo/mpopt"); shutil.copytree(V, w + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
    b = BASE
    try: ast.parse(b[:s] + new.encode() + b[e:])
    except SyntaxError: return k, mu, "syntax", []
    open(w + "/repo/mpopt/mpopt.py", "wb").write(b[:s] + new.encode() + b[e:])
    env = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_JOBS="2", VERIF_STOP="1")
    tried = []
    for p in order:
        try: r = subprocess.run(["./check.py", p, "quick"], cwd=w + "/verif", env=env, capture_output=True, text=True, timeout=400); rc = r.returncode
        except subprocess.TimeoutExpired: rc = 99
        tried.append((p, rc))
        if rc == 1: return k, mu, "killed " + p, tried
    return k, mu, "survived", tried
if __name__ == "__main__":
    src, ms = mutants()
    order = plan()
    if sys.argv[1] == "list":
        c = {}
        for m in ms: c[m[0]] = c.get(m[0], 0) + 1
        for f, n in sorted(c.items()): print(n, f, order(f))
        print(len(ms)); sys.exit()
    out, seed, n, wk = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    if os.environ.get("MUT_KINDS"): ms = [m for m in ms if re.search(os.environ["MUT_KINDS"], m[5])]
    if len(sys.argv) > 6: ms = [m for m in ms if re.search(sys.argv[6], m[0])]
    r = random.Random(seed); r.shuffle(ms); ms = ms[:n]
    todo = [(k, m, order(m[0])) for k, m in enumerate(ms) if order(m[0])]
    for k, m in enumerate(ms):
        if not order(m[0]): print("no check encodes", m[0], m[1], m[4][:60], flush=True)
    b = BASE
    with mpc.Pool(wk) as pool, open(out, "a") as f:
        for k, mu, st, tried in pool.imap_unordered(run1, todo):
            f.write("%s\t%s:%d\t%s\t%s -> %s\t%s\n" % (st, mu[0], mu[1], mu[5], b[mu[2]:mu[3]].decode().replace("\n", " ")[:120], mu[4].replace("\n", " ")[:120], tried)); f.flush()
    shutil.rmtree(W, ignore_errors=True)
