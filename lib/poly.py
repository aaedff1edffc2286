"""Polynomial normal form (exact rationals, Laurent monomials) of CasADi SX expressions."""
from fractions import Fraction
import casadi as ca

class Unsupported(Exception):
    """The encoding cannot represent this operation."""
class Unregistered(Unsupported):
    """An expression mentions a symbol without declared bounds."""

# ---------------------------------------------------------------- variables
class Vars:
    """Registry of the symbolic reals: SX symbol <-> index, with bounds."""
    def __init__(self):
        self.byhash = {}
        self.sx, self.name, self.lo, self.hi = [], [], [], []
        self.atoms = {}          # key -> index, for opaque sub-terms
        self.atomdef = {}        # index -> (kind, polys)
    def add(self, sx, name, lo, hi):
        h = sx.element_hash()
        if h in self.byhash:
            return self.byhash[h]
        i = len(self.sx)
        self.byhash[h] = i
        self.sx.append(sx); self.name.append(name); self.lo.append(lo); self.hi.append(hi)
        return i
    def atom(self, kind, args, lo, hi):
        key = (kind,) + tuple(args_key(a) for a in args)
        if key in self.atoms:
            return self.atoms[key]
        i = self.add(ca.SX.sym("atom%d" % len(self.sx)), "%s#%d" % (kind, len(self.sx)), lo, hi)
        self.atoms[key] = i
        self.atomdef[i] = (kind, args)
        return i

def args_key(p):
    return frozenset(p.items()) if isinstance(p, dict) else p

ONE = ()
def const(c):
    c = Fraction(c)
    return {ONE: c} if c else {}
def var(i):
    return {((i, 1),): Fraction(1)}
def is_const(p):
    return not p or (len(p) == 1 and ONE in p)
def cval(p):
    return p.get(ONE, Fraction(0))
def add(p, q, s=1):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r
def scale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}
def mono_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for i, e in b:
        n = d.get(i, 0) + e
        if n: d[i] = n
        else: del d[i]
    return tuple(sorted(d.items()))
MAXTERMS = 200000
def mul(p, q):
    if len(p) > len(q): p, q = q, p
    r = {}
    if len(p) * len(q) > MAXTERMS:
        raise Unsupported("polynomial too large")
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r
def powi(p, n):
    r = const(1)
    for _ in range(n):
        r = mul(r, p)
    return r

def imul(a, b):
    c = [_m(x, y) for x in a for y in b]
    return min(c), max(c)
def _m(x, y):
    if x == 0 or y == 0: return 0.0
    return x * y
def mono_interval(m, V):
    lo, hi = 1.0, 1.0
    for i, e in m:
        l, h = float(V.lo[i]), float(V.hi[i])
        if e < 0:
            if l > 0 or h < 0:
                l, h = 1 / h, 1 / l
            else:
                return float("-inf"), float("inf")
            e = -e
        if e % 2 == 0:
            c = [abs(l), abs(h)]
            pl, ph = (0.0 if l <= 0 <= h else min(c)) ** e, max(c) ** e
        else:
            pl, ph = l ** e, h ** e
        lo, hi = imul((lo, hi), (pl, ph))
    return lo, hi
def interval(p, V):
    lo = hi = 0.0
    for m, c in p.items():
        l, h = mono_interval(m, V)
        l, h = imul((l, h), (float(c), float(c)))
        lo += l; hi += h
    return lo, hi

def inv(p, V):
    if not p:
        raise Unsupported("division by zero")
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((i, -e) for i, e in m): 1 / c}
    # normalise by the leading coefficient so that equal reciprocals share an atom
    lead = p[min(p)]
    q = scale(p, 1 / lead)
    lo, hi = interval(q, V)
    if lo > 0 or hi < 0:
        b = (min(1 / lo if lo else 1e30, 1 / hi if hi else 1e30), max(1 / lo if lo else 1e30, 1 / hi if hi else 1e30))
        alo, ahi = b
    else:
        alo, ahi = float("-inf"), float("inf")
    i = V.atom("inv", (q,), alo, ahi)
    return scale(var(i), 1 / lead)

def sqrt(p, V):
    if is_const(p):
        c = cval(p)
        n, d = _isq(c.numerator), _isq(c.denominator)
        if n is not None and d is not None:
            return const(Fraction(n, d))
        return const(Fraction(float(c) ** 0.5))
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(e % 2 == 0 for _, e in m):
            n, d = _isq(c.numerator), _isq(c.denominator)
            if n is not None and d is not None:
                return fabs({tuple((i, e // 2) for i, e in m): Fraction(n, d)}, V)
    lo, hi = interval(p, V)
    i = V.atom("sqrt", (p,), max(lo, 0) ** 0.5, max(hi, 0) ** 0.5)
    return var(i)
def _isq(n):
    from math import isqrt
    r = isqrt(n)
    return r if r * r == n else None
def positive_content(p, V):
    """Largest monomial of variables known to be positive that divides every term: (monomial, cofactor)."""
    com = None
    for m in p:
        if com is None: com = {i: e for i, e in m if V.lo[i] > 0}
        else:
            d = dict(m)
            com = {i: (min(e, d[i]) if e > 0 else max(e, d[i])) for i, e in com.items() if i in d and (d[i] > 0) == (e > 0)}
        if not com: return (), p
    g = tuple(sorted(com.items()))
    inv_ = tuple((i, -e) for i, e in g)
    return g, {mono_mul(m, inv_): c for m, c in p.items()}
def fabs(p, V):
    if is_const(p):
        return const(abs(cval(p)))
    lo, hi = interval(p, V)
    if lo >= 0: return p
    if hi <= 0: return scale(p, -1)
    g, q = positive_content(p, V)
    if g: return mul({g: Fraction(1)}, fabs(q, V))
    if p[min(p)] < 0:
        p = scale(p, -1)
    i = V.atom("fabs", (p,), 0.0, max(abs(lo), abs(hi)))
    return var(i)

OPN = {getattr(ca, n): n for n in dir(ca) if n.startswith("OP_")}
def sx_apply(exprs, V, alg):
    """Interpret the scalar operation list CasADi generates for `exprs` in the algebra `alg`."""
    e = ca.densify(ca.vertcat(*[x for x in exprs])) if isinstance(exprs, (list, tuple)) else ca.densify(exprs)[:]
    if e.numel() == 0:
        return []
    syms = ca.symvar(e)
    f = ca.Function("f", [ca.vertcat(*syms)] if syms else [ca.SX.sym("dummy__")], [e])
    ids = []
    for s in syms:
        h = s.element_hash()
        if h not in V.byhash:
            raise Unregistered("unregistered symbol " + s.name())
        ids.append(V.byhash[h])
    w = [None] * f.sz_w()
    out = [None] * e.numel()
    for k in range(f.n_instructions()):
        op = f.instruction_id(k)
        o, i = f.instruction_output(k), f.instruction_input(k)
        if op == ca.OP_CONST:
            w[o[0]] = alg.const(f.instruction_constant(k))
        elif op == ca.OP_INPUT:
            w[o[0]] = alg.var(ids[i[1]])
        elif op == ca.OP_OUTPUT:
            out[o[1]] = w[i[0]]
        else:
            w[o[0]] = alg.op(op, *[w[j] for j in i])
    return out

class PolyAlg:
    def __init__(self, V): self.V = V
    def const(self, c):
        if c != c or c in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        return const(c)
    def var(self, i): return var(i)
    def op(self, op, a, b=None):
        V = self.V
        if op == ca.OP_ASSIGN: return a
        if op == ca.OP_ADD: return add(a, b)
        if op == ca.OP_SUB: return add(a, b, -1)
        if op == ca.OP_MUL: return mul(a, b)
        if op == ca.OP_DIV:
            if is_const(b): return scale(a, 1 / cval(b))
            return mul(a, inv(b, V))
        if op == ca.OP_NEG: return scale(a, -1)
        if op == ca.OP_SQ: return mul(a, a)
        if op == ca.OP_TWICE: return scale(a, 2)
        if op == ca.OP_INV: return inv(a, V)
        if op in (ca.OP_POW, ca.OP_CONSTPOW):
            if is_const(b):
                e = cval(b)
                if e.denominator == 1:
                    return powi(a, int(e)) if e >= 0 else inv(powi(a, -int(e)), V)
                if e == Fraction(1, 2): return sqrt(a, V)
            raise Unsupported("general power")
        if op == ca.OP_SQRT: return sqrt(a, V)
        if op == ca.OP_FABS: return fabs(a, V)
        if op in (ca.OP_FMIN, ca.OP_FMAX, ca.OP_LT, ca.OP_LE, ca.OP_EQ, ca.OP_NE, ca.OP_AND, ca.OP_OR, ca.OP_NOT, ca.OP_IF_ELSE_ZERO, ca.OP_SIGN):
            args = (a,) if b is None else (a, b)
            i = V.atom(OPN[op], args, float("-inf"), float("inf"))
            return var(i)
        raise Unsupported("operation " + OPN.get(op, str(op)))

def polys(exprs, V):
    return sx_apply(exprs, V, PolyAlg(V))
def clear(p, V, sign, maxterms=4000):
    """p * (positive factor) without reciprocals: same sign as p wherever the returned denominators are non-zero.
    -> (polynomial, [denominator polynomials that must be non-zero]) or None when it grows too much."""
    dens = []
    for _ in range(12):
        need = {}
        for m in p:
            for i, e in m:
                if e < 0: need[i] = max(need.get(i, 0), -e)
                elif i in V.atomdef and V.atomdef[i][0] == "inv": need[i] = max(need.get(i, 0), e)
        if not need: return p, dens
        i = max(need)
        e = need[i]
        isinv = i in V.atomdef and V.atomdef[i][0] == "inv"
        q = V.atomdef[i][1][0] if isinv else var(i)
        n, sg = e, sign(q)
        if sg == 0:
            dens.append(q)
            if n % 2: n += 1
        elif sg < 0 and n % 2: p = scale(p, -1)
        r = {}
        pw = [const(1)]
        for _k in range(n + e if not isinv else n): pw.append(mul(pw[-1], q))
        for m, c in p.items():
            k = next((b for a, b in m if a == i), 0)
            rest = tuple((a, b) for a, b in m if a != i)
            d = n - k if isinv else n + k
            while d >= len(pw): pw.append(mul(pw[-1], q))
            if d < 0: return None
            t = mul({rest: c}, pw[d])
            r = add(r, t)
            if len(r) > maxterms: return None
        p = r
    return None
def evalp(p, vals):
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for i, e in m:
            t *= vals[i] ** e
        s += t
    return s
