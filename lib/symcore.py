"""Symbolic execution of the real Python code over exact reals.

A `Sym` is a scalar holding a CasADi SX expression; it flows through numpy object arrays and CasADi.
Branching on a comparison of Syms asks z3 which sides are feasible and forks the execution
(re-execution with decision prefixes).  Every harness also runs in concrete mode (plain floats, no
patches), which is how counterexamples are replayed.
"""
import os, sys, time, json, random, traceback, hashlib, copy, math
from fractions import Fraction
from . import env
from .env import np, ca, z3, mp, SEED
from . import poly as P
from .poly import Unsupported

INF = float("inf")
NUM = (int, float, np.integer, np.floating, np.bool_)

class Inconclusive(Exception):
    pass
class PathEnd(BaseException):
    """Assumption made the path infeasible."""
class Budget(BaseException):
    pass

CUR = None   # current context

# ------------------------------------------------------------------ scalars
def _wrap(sx):
    if sx.is_constant():
        return np.float64(float(sx))
    return Sym(sx)

def _coerce(o):
    """-> float | SX | None(not a scalar we know)"""
    if isinstance(o, Sym):
        return o.sx
    if isinstance(o, NUM):
        return float(o)
    if isinstance(o, Fraction):
        return float(o)
    if isinstance(o, ca.SX) and o.numel() == 1:
        return float(o) if o.is_constant() else ca.densify(o)
    if isinstance(o, ca.DM) and o.numel() == 1:
        return float(o)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return _coerce(o.item())
    return None

def _sgn(sx):
    """Sign of a symbolic scalar by forking: -1, 0, 1."""
    if CUR.decide_cmp(sx, ">"):
        return 1
    if CUR.decide_cmp(sx, "<"):
        return -1
    return 0

class SymBool:
    __slots__ = ("z",)
    def __init__(self, z): self.z = z
    def __bool__(self): return CUR.fork(self.z)
    def __and__(self, o): return SymBool(z3.And(self.z, _zb(o)))
    __rand__ = __and__
    def __or__(self, o): return SymBool(z3.Or(self.z, _zb(o)))
    __ror__ = __or__
    def __invert__(self): return SymBool(z3.Not(self.z))
    def __eq__(self, o): return bool(self) == bool(o)
    def __ne__(self, o): return bool(self) != bool(o)
    def __lt__(self, o): return int(self) < int(o)
    def __gt__(self, o): return int(self) > int(o)
    def __hash__(self): return hash(bool(self))
    def __int__(self): return int(bool(self))
    __index__ = __int__
    def __add__(self, o): return int(self) + o
    __radd__ = __add__
    def __mul__(self, o): return int(self) * o
    __rmul__ = __mul__
    def any(self, *a, **k): return bool(self)
    all = any
def _zb(o):
    if isinstance(o, SymBool): return o.z
    return z3.BoolVal(bool(o))

class Sym:
    """Symbolic real scalar."""
    __slots__ = ("sx",)
    __array_ufunc__ = None if False else None
    def __init__(self, sx): self.sx = sx
    # casadi / copy protocol
    def __SX__(self): return self.sx
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __repr__(self): return "Sym(%s)" % str(self.sx)[:80]
    def __hash__(self): return hash(self.sx.element_hash())
    shape, ndim, size = (), 0, 1
    def item(self): return self
    def __float__(self):
        raise Unsupported("float() of a symbolic value")
    def __int__(self):
        return CUR.to_int(self.sx)
    def __index__(self): raise TypeError("symbolic value used as an index")
    def __trunc__(self): return CUR.to_int(self.sx)
    def __floor__(self): return CUR.to_int(self.sx, "floor")
    def __ceil__(self): return CUR.to_int(self.sx, "ceil")
    def floor(self): return float(CUR.to_int(self.sx, "floor"))
    def ceil(self): return float(CUR.to_int(self.sx, "ceil"))
    def __round__(self, n=None):         # halves go up: they are met on a set of measure zero only
        m = 10.0 ** (n or 0)
        k = CUR.to_int(self.sx * m + 0.5, "floor")
        return k if n is None else k / m
    def rint(self): return float(self.__round__())
    def round(self, decimals=0): return float(self.__round__(decimals))
    def __bool__(self): return CUR.decide_cmp(self.sx, "!=")
    def _bin(self, o, f, swap=False):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if isinstance(o, (ca.SX, ca.DM)) and o.numel() != 1:
            r = f(ca.SX(o), self.sx) if swap else f(self.sx, ca.SX(o))
            return r
        c = _coerce(o)
        if c is None:
            return NotImplemented
        isca = isinstance(o, (ca.SX,))
        a, b = (c, self.sx) if swap else (self.sx, c)
        r = f(a, b)
        if isca:
            return r if isinstance(r, ca.SX) else ca.SX(r)
        if isinstance(r, ca.SX):
            return _wrap(r)
        return r
    def __add__(self, o): return self._bin(o, _add)
    def __radd__(self, o): return self._bin(o, _add, True)
    def __sub__(self, o): return self._bin(o, _sub)
    def __rsub__(self, o): return self._bin(o, _sub, True)
    def __mul__(self, o): return self._bin(o, _mul)
    def __rmul__(self, o): return self._bin(o, _mul, True)
    def __truediv__(self, o): return self._bin(o, _div)
    def __rtruediv__(self, o): return self._bin(o, _div, True)
    def __mod__(self, o):
        q = self / o
        return self - math.floor(q) * o if isinstance(q, Sym) else float(q) - math.floor(q)
    def __floordiv__(self, o):
        q = self / o
        return math.floor(q)
    def __neg__(self): return _wrap(-self.sx)
    def __pos__(self): return self
    def __abs__(self):
        s = CUR.quick_sign(self.sx)
        if s is not None and s >= 0: return self
        if s is not None and s <= 0: return -self
        return _wrap(ca.fabs(self.sx))
    fabs = __abs__
    absolute = __abs__
    def __pow__(self, n):
        if isinstance(n, Sym): raise Unsupported("symbolic exponent")
        n = float(n)
        if n == 2: return _wrap(self.sx * self.sx)
        if n == 0.5: return self.sqrt()
        if n == int(n) and abs(n) < 12:
            r = 1.0
            for _ in range(abs(int(n))): r = r * self
            return r if n >= 0 else 1.0 / r
        raise Unsupported("power %r" % n)
    def __rpow__(self, o): raise Unsupported("symbolic exponent")
    def square(self): return self * self
    def sqrt(self):
        s = self.sx
        if s.n_dep() and s.op() == ca.OP_SQ:
            return abs(_wrap(s.dep(0)))
        if s.n_dep() == 2 and s.op() == ca.OP_MUL and ca.is_equal(s.dep(0), s.dep(1), 5):
            return abs(_wrap(s.dep(0)))
        if CUR.decide_cmp(s, "<"):
            return np.float64("nan")
        return _wrap(ca.sqrt(s))
    def conjugate(self): return self
    conj = conjugate
    @property
    def real(self): return self
    @property
    def imag(self): return 0.0
    @property
    def T(self): return self
    def sign(self): return float(_sgn(self.sx))
    def isfinite(self): return True
    def isnan(self): return False
    def isinf(self): return False
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray) and o.ndim: return NotImplemented
        if isinstance(o, (ca.SX, ca.DM)) and o.numel() != 1: return NotImplemented
        c = _coerce(o)
        if c is None: return NotImplemented
        if isinstance(c, float):
            if c != c: return op == "!="
            if c == INF: return op in ("<", "<=", "!=")
            if c == -INF: return op in (">", ">=", "!=")
        return CUR.cmp(self.sx - c, op)
    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")
    def __eq__(self, o):
        if o is None: return False
        return self._cmp(o, "==")
    def __ne__(self, o):
        if o is None: return True
        return self._cmp(o, "!=")
del Sym.__array_ufunc__

def _fin(x): return not isinstance(x, float) or (x == x and abs(x) != INF)
def _add(a, b):
    if not _fin(a): return np.float64(a)
    if not _fin(b): return np.float64(b)
    return a + b
def _sub(a, b):
    if not _fin(a): return np.float64(a)
    if not _fin(b): return np.float64(-b)
    return a - b
def _infmul(c, s):
    if c != c: return np.float64("nan")
    g = _sgn(s)
    return np.float64("nan") if g == 0 else np.float64(c * g)
def _mul(a, b):
    if not _fin(a): return _infmul(a, b) if isinstance(b, ca.SX) else np.float64(a) * b
    if not _fin(b): return _infmul(b, a)
    return a * b
def _div(a, b):
    if not _fin(b): return np.float64("nan") if b != b else np.float64(0.0)
    if isinstance(b, ca.SX):
        if CUR.decide_cmp(b, "=="):
            if not isinstance(a, ca.SX):
                s = 0 if a == 0 or a != a else (1 if a > 0 else -1)
            else:
                s = _sgn(a)
            return np.float64("nan") if s == 0 else np.float64(s * INF)
        if not _fin(a): return _infmul(a, b)
        return a / b
    if b == 0:
        s = _sgn(a)
        return np.float64("nan") if s == 0 else np.float64(s * INF)
    return a / b

def sxof(v):
    if isinstance(v, Sym): return v.sx
    if isinstance(v, ca.SX): return v
    return ca.SX(float(v))

# ------------------------------------------------------------------ statistics
class Stats:
    def __init__(self):
        self.queries = 0; self.qtime = 0.0; self.unknown = 0; self.asserts = 0
        self.decisions = 0; self.paths = 0; self.forced = 0; self.cross = 0; self.cross_lost = 0.0; self.kinds = {}
    def asdict(self): return dict(self.__dict__)

# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, mode, values=None, prefix=(), stats=None, timeout_ms=20000, seed=SEED, choices=None):
        self.mode = mode
        self.sym = mode == "sym"
        self.values = values or {}
        self.choices = choices or {}
        self.stats = stats or Stats()
        self.V = P.Vars()
        self.zv = {}
        self.prefix = list(prefix); self.taken = []; self.alts = []
        self.pc = []
        self.timeout = timeout_ms
        self.problems = []       # violations  {label, detail, model}
        self.incon = []
        self.choice_log = {}
        self.rng = random.Random(seed)
        self.ncheck = 0
        self.calls = {}          # uninterpreted functions
        self.defs_done = set()
        self.pending_same = []
        self.namecount = {}
        self.signs = {}
        if self.sym:
            self.solver = z3.Solver()
            self.solver.set("timeout", timeout_ms)
        self.basevals = {}
        self.deadline = None
    # -- variables
    def _val(self, name, lo, hi):
        if name in self.values:
            v = float(self.values[name])
            return min(max(v, lo), hi)
        r = random.Random("%s|%d" % (name, SEED))
        l, h = max(lo, -3.0), min(hi, 3.0)
        if l > h: l, h = lo, hi
        return l + (h - l) * (0.15 + 0.7 * r.random())
    def real(self, name, lo=-3.0, hi=3.0):
        if not self.sym:
            return np.float64(self._val(name, lo, hi))
        s = ca.SX.sym(name)
        i = self.V.add(s, name, lo, hi)
        self._declare(i)
        return Sym(s)
    def reals(self, name, n, lo=-3.0, hi=3.0):
        r = np.empty(n, dtype=object if self.sym else float)
        for idx in np.ndindex(*r.shape):
            r[idx] = self.real(name + "_" + "_".join(map(str, idx)), lo, hi)
        return r
    def adopt(self, sx, name, lo=-3.0, hi=3.0):
        """Register existing SX symbols (sym) / give values for them (conc: returns DM)."""
        n = sx.numel()
        lo = [lo] * n if not isinstance(lo, (list, tuple)) else lo
        hi = [hi] * n if not isinstance(hi, (list, tuple)) else hi
        if not self.sym:
            return ca.DM([self._val("%s[%d]" % (name, i), lo[i], hi[i]) for i in range(n)])
        v = ca.densify(sx)[:]
        for k in range(n):
            i = self.V.add(v[k], "%s[%d]" % (name, k), lo[k], hi[k])
            self._declare(i)
        return v
    def vector(self, name, n, lo=-3.0, hi=3.0):
        """A casadi column of fresh reals (SX in sym mode, DM in conc mode)."""
        if not self.sym:
            return ca.DM([self._val("%s[%d]" % (name, i), lo, hi) for i in range(n)])
        return ca.vertcat(*[self.real("%s[%d]" % (name, i), lo, hi).sx for i in range(n)]) if n else ca.SX(0, 1)
    def choose(self, name, options):
        """Finite choice, explored exhaustively."""
        options = list(options)
        if not self.sym:
            return options[self.choices.get(name, 0)]
        k = len(options)
        pos = len(self.taken)
        c = self.prefix[pos] if pos < len(self.prefix) else 0
        if pos >= len(self.prefix):
            for alt in range(1, k):
                self.alts.append(self.taken + [alt])
        self.taken.append(c)
        self.stats.decisions += 1
        self.choice_log[name] = c
        return options[c]
    # -- z3 plumbing
    def z(self, i):
        v = self.zv.get(i)
        if v is None:
            v = self.zv[i] = z3.Real("v%d" % i)
        return v
    def _declare(self, i):
        v = self.z(i)
        if self.V.lo[i] > -INF: self.solver.add(v >= _q(self.V.lo[i]))
        if self.V.hi[i] < INF: self.solver.add(v <= _q(self.V.hi[i]))
    def zpoly(self, p, out=None):
        """z3 term of a polynomial; definitions of atoms are added to `out` (or the solver)."""
        terms = []
        for m, c in p.items():
            t = None
            for i, e in m:
                x = self.zterm(i, out) if e > 0 else self.zinv(i, out)
                for _ in range(abs(e)):
                    t = x if t is None else t * x
            if t is None: terms.append(_q(c))
            elif c == 1: terms.append(t)
            else: terms.append(_q(c) * t)
        if not terms: return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)
    def zinv(self, i, out=None):
        key = ("inv", i)
        r = z3.Real("vinv%d" % i)
        if key not in self.defs_done:
            self.defs_done.add(key)
            self.solver.add(r * self.zterm(i, out) == 1)
        return r
    def zterm(self, i, out=None):
        if i in self.V.atomdef and i not in self.defs_done:
            self.defs_done.add(i)
            kind, args = self.V.atomdef[i]
            a = self.z(i)
            zs = [self.zpoly(x) for x in args]
            one = lambda c: z3.If(c, z3.RealVal(1), z3.RealVal(0))
            if kind == "inv": self.solver.add(a * zs[0] == 1)
            elif kind == "sqrt": self.solver.add(a >= 0, a * a == zs[0])
            elif kind == "fabs": self.solver.add(a == z3.If(zs[0] >= 0, zs[0], -zs[0]))
            elif kind == "OP_FMIN": self.solver.add(a == z3.If(zs[0] <= zs[1], zs[0], zs[1]))
            elif kind == "OP_FMAX": self.solver.add(a == z3.If(zs[0] >= zs[1], zs[0], zs[1]))
            elif kind == "OP_LT": self.solver.add(a == one(zs[0] < zs[1]))
            elif kind == "OP_LE": self.solver.add(a == one(zs[0] <= zs[1]))
            elif kind == "OP_EQ": self.solver.add(a == one(zs[0] == zs[1]))
            elif kind == "OP_NE": self.solver.add(a == one(zs[0] != zs[1]))
            elif kind == "OP_AND": self.solver.add(a == one(z3.And(zs[0] != 0, zs[1] != 0)))
            elif kind == "OP_OR": self.solver.add(a == one(z3.Or(zs[0] != 0, zs[1] != 0)))
            elif kind == "OP_NOT": self.solver.add(a == one(zs[0] == 0))
            elif kind == "OP_IF_ELSE_ZERO": self.solver.add(a == z3.If(zs[0] != 0, zs[1], z3.RealVal(0)))
            elif kind == "OP_SIGN": self.solver.add(a == z3.If(zs[0] > 0, z3.RealVal(1), z3.If(zs[0] < 0, z3.RealVal(-1), z3.RealVal(0))))
            else: raise Unsupported(kind)
        return self.z(i)
    def query(self, *conds, solver=None, kind="branch"):
        s = solver or self.solver
        t0 = time.monotonic()
        if self.deadline and t0 > self.deadline:
            raise Budget()
        s.push()
        s.add(*conds)
        r = s.check()
        m = s.model() if r == z3.sat else None
        if r == z3.unsat and kind == "assert" and CROSS and solver is None:
            self._cross(s)
        s.pop()
        self.stats.queries += 1
        self.stats.kinds[kind] = self.stats.kinds.get(kind, 0) + 1
        self.stats.qtime += time.monotonic() - t0
        if r == z3.unknown: self.stats.unknown += 1
        return r, m
    def _cross(self, s):
        """Second opinion from cvc5 on an `unsat` answer (thorough tier)."""
        from . import cross
        if self.stats.cross_lost > 30: return          # cvc5 has spent that many seconds without an answer here
        t0 = time.monotonic()
        r = cross.check(s)
        if r == "unknown": self.stats.cross_lost += time.monotonic() - t0
        if r == "sat":
            self.incon.append("cvc5 disagrees with z3 (sat vs unsat)")
        elif r == "unsat":
            self.stats.cross += 1
    # -- comparisons and forking
    def poly1(self, sx):
        return P.polys([sx], self.V)[0]
    def quick_sign(self, sx):
        try:
            lo, hi = P.interval(self.poly1(sx), self.V)
        except Unsupported:
            return None
        if lo > 0: return 1
        if hi < 0: return -1
        if lo == 0 == hi: return 0
        if lo >= 0: return 0.5
        if hi <= 0: return -0.5
        return None
    def cmp(self, sx, op):
        p = self.poly1(sx)
        lo, hi = P.interval(p, self.V)
        if P.is_const(p): lo = hi = float(P.cval(p))
        tests = {"<": (hi < 0, lo >= 0), "<=": (hi <= 0, lo > 0), ">": (lo > 0, hi <= 0), ">=": (lo >= 0, hi < 0),
                 "==": (lo == hi == 0, lo > 0 or hi < 0), "!=": (lo > 0 or hi < 0, lo == hi == 0)}
        t, f = tests[op]
        if t: return True
        if f: return False
        return SymBool(self.zcmp(p, op))
    def _sign(self, q):
        """Sign of a denominator on this path (0: not known), by intervals or by the solver."""
        lo, hi = P.interval(q, self.V)
        if lo > 0: return 1
        if hi < 0: return -1
        key = P.args_key(q)
        if key not in self.signs:
            z = self.zpoly(q)
            g = 0
            if self.query(z <= 0, kind="sign")[0] == z3.unsat: g = 1
            elif self.query(z >= 0, kind="sign")[0] == z3.unsat: g = -1
            if g == 0: return 0
            self.signs[key] = g
        return self.signs[key]
    def zcmp(self, p, op):
        """z3 condition `p op 0`; reciprocals are cleared by multiplying with non-negative powers of the denominators."""
        p = P.positive_content(p, self.V)[1] if p else p
        try: c = P.clear(p, self.V, self._sign)
        except Unsupported: c = None
        if c is not None and (c[1] or c[0] is not p):
            p = c[0]
            for q in c[1]:
                key = ("nz", P.args_key(q))
                if key not in self.defs_done:
                    self.defs_done.add(key); self.solver.add(self.zpoly(q) != 0)
        z = self.zpoly(p)
        return {"<": z < 0, "<=": z <= 0, ">": z > 0, ">=": z >= 0, "==": z == 0, "!=": z != 0}[op]
    def decide_cmp(self, sx, op):
        r = self.cmp(sx, op)
        return r if isinstance(r, bool) else self.fork(r.z)
    def fork(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        pos = len(self.taken)
        if pos < len(self.prefix):
            c = self.prefix[pos]
            self.taken.append(c)
        else:
            rt, _ = self.query(cond)
            rf, _ = self.query(z3.Not(cond))
            if rt == z3.unsat and rf == z3.unsat:
                raise PathEnd()
            if rt == z3.unsat: c = False; self.stats.forced += 1
            elif rf == z3.unsat: c = True; self.stats.forced += 1
            else:
                c = True
                self.alts.append(self.taken + [False])
                self.stats.decisions += 1
            self.taken.append(c)
        lit = cond if c else z3.Not(cond)
        self.pc.append(lit)
        self.solver.add(lit)
        return bool(c)
    def to_int(self, sx, how="trunc"):
        p = self.poly1(sx)
        lo, hi = P.interval(p, self.V)
        if not (lo > -INF and hi < INF) or hi - lo > 1e6:
            raise Unsupported("int() of an unbounded symbolic value")
        # tighten with the solver, then fork over integer values
        z = self.zpoly(p)
        lo, hi = math.floor(lo), math.floor(hi)
        if hi - lo > 64:
            lo2 = lo
            while lo2 < hi and self.query(z < lo2 + 1)[0] == z3.unsat: lo2 += 1
            lo = lo2
        for k in range(lo, hi + 1):
            if how == "floor": c = z3.And(z >= k, z < k + 1)
            elif how == "ceil": c = z3.And(z > k - 1, z <= k)
            else:
                c = z3.And(z >= k, z < k + 1) if k > 0 else (z3.And(z > -1, z < 1) if k == 0 else z3.And(z > k - 1, z <= k))
            if self.fork(c): return k
        if how == "ceil" and self.fork(z3.And(z > hi, z <= hi + 1)): return hi + 1
        raise PathEnd()
    def zexpr(self, v):
        """z3 term for a Sym / number / SX scalar."""
        if isinstance(v, Sym): return self.zpoly(self.poly1(v.sx))
        if isinstance(v, ca.SX): return self.zpoly(self.poly1(v))
        return _q(float(v) if isinstance(v, (np.floating, np.integer)) else v)
    def assume(self, cond):
        """cond: bool/SymBool"""
        if isinstance(cond, SymBool):
            self.pc.append(cond.z); self.solver.add(cond.z)
            return
        if not cond:
            if self.sym: raise PathEnd()
            raise AssumptionFailed()

    def lemma(self, cond):
        """A fact the solver proves on this path is added to it (so that later queries are easier); nothing happens otherwise."""
        if not self.sym: return True
        if isinstance(cond, SymBool): cond = cond.z
        if not z3.is_expr(cond): return bool(cond)
        if self.query(z3.Not(cond))[0] != z3.unsat: return False
        self.pc.append(cond); self.solver.add(cond)
        return True
    def assume_feasible(self):
        if self.sym and self.query(z3.BoolVal(True))[0] == z3.unsat:
            raise PathEnd()
    # -- assertions
    def fail(self, label, detail, model=None):
        self.problems.append({"label": label, "detail": detail, "model": model, "choices": dict(self.choice_log)})
    def check(self, label, cond, detail=""):
        """Assert a condition (bool / SymBool / z3 Bool) for all values on this path."""
        self.ncheck += 1
        self.stats.asserts += 1
        if isinstance(cond, SymBool): cond = cond.z
        if not self.sym or not z3.is_expr(cond):
            if not bool(cond):
                if self.sym:
                    r, m = self.query(z3.BoolVal(True), kind="assert")
                    if r == z3.unsat: return True
                    self.fail(label, detail or "assertion is false on this path", self.model_values(m) if m is not None else {})
                else:
                    self.fail(label, detail or "assertion is false")
                return False
            return True
        r, m = self.query(z3.Not(cond), kind="assert")
        if r == z3.unsat: return True
        if r == z3.unknown:
            self.incon.append("solver gave unknown on %s" % label)
            return None
        self.fail(label, detail or "counterexample found", self.model_values(m))
        return False
    def model_values(self, m):
        out = {}
        for i, n in enumerate(self.V.name):
            if i in self.V.atomdef: continue
            if i not in self.zv: continue
            v = m.eval(self.zv[i], model_completion=True)
            out[n] = _num(v)
        return out
    def valuation(self, base):
        """Float values of all variables incl. atoms from base values by index."""
        vals = {}
        V = self.V
        for i in range(len(V.sx)):
            if i in V.atomdef:
                kind, args = V.atomdef[i]
                a = [P.evalp(p, vals) for p in args]
                vals[i] = {"inv": lambda: 1 / a[0] if a[0] else float("nan"), "sqrt": lambda: math.sqrt(max(a[0], 0)), "fabs": lambda: abs(a[0]),
                           "OP_FMIN": lambda: min(a), "OP_FMAX": lambda: max(a), "OP_LT": lambda: float(a[0] < a[1]), "OP_LE": lambda: float(a[0] <= a[1]),
                           "OP_EQ": lambda: float(a[0] == a[1]), "OP_NE": lambda: float(a[0] != a[1]), "OP_AND": lambda: float(bool(a[0] and a[1])),
                           "OP_OR": lambda: float(bool(a[0] or a[1])), "OP_NOT": lambda: float(not a[0]), "OP_IF_ELSE_ZERO": lambda: a[1] if a[0] else 0.0,
                           "OP_SIGN": lambda: float((a[0] > 0) - (a[0] < 0))}[kind]()
            else:
                vals[i] = base(i)
        return vals
    def randpoint(self, k):
        V = self.V
        def base(i):
            r = random.Random("%d|%d|%d" % (SEED, k, i))
            lo, hi = max(V.lo[i], -3.0), min(V.hi[i], 3.0)
            if lo > hi: lo, hi = V.lo[i], V.hi[i]
            return lo + (hi - lo) * (0.1 + 0.8 * r.random())
        return self.valuation(base)
    def close_many(self, items, tol=1e-6, kind="assert", rel=1e-9):
        """items: list of (label, a, b) with a, b scalars (Sym/SX/float) or polynomials (dict).
        Proves |a-b| <= tol*(1) for all values within the variable bounds; returns list of failing indices."""
        self.ncheck += len(items)
        self.stats.asserts += len(items)
        if not self.sym:
            bad = []
            for k, (lab, a, b) in enumerate(items):
                a, b = float(a), float(b)
                if not close(a, b, tol, rel): bad.append((k, a, b))
            for k, a, b in bad:
                self.fail(items[k][0], "got %.10g, expected %.10g" % (a, b))
            return [k for k, _, _ in bad]
        polys = [None] * len(items)
        todo, bad = [], []
        for k, (lab, a, b) in enumerate(items):
            if isinstance(a, dict): polys[k] = P.add(a, b, -1); continue
            fa, fb = _isfloat(a), _isfloat(b)
            if (fa and not _fin(float(a))) or (fb and not _fin(float(b))):
                same = fa and fb and (float(a) == float(b) or (a != a and b != b))
                if not same:
                    r, m = self.query(z3.BoolVal(True), kind=kind)
                    if r != z3.unsat:
                        bad.append(k)
                        self.fail(lab, "got %s, expected %s" % (a, b), self.model_values(m) if m is not None else {})
                polys[k] = {}
                continue
            todo.append(k)
        if todo:
            ps = P.polys([sxof(items[k][1]) for k in todo] + [sxof(items[k][2]) for k in todo], self.V)
            for n, k in enumerate(todo):
                polys[k] = P.add(ps[n], ps[len(todo) + n], -1)
        # stage 1: each monomial a free real in its interval (over-approximation)
        s = z3.SolverFor("QF_LRA"); s.set("timeout", self.timeout)
        mv, disj = {}, []
        for k, d in enumerate(polys):
            t = []
            for m, c in d.items():
                if m == P.ONE: t.append(_q(c)); continue
                x = mv.get(m)
                if x is None:
                    x = mv[m] = z3.Real("m%d" % len(mv))
                    lo, hi = P.mono_interval(m, self.V)
                    if lo > -INF: s.add(x >= _q(lo))
                    if hi < INF: s.add(x <= _q(hi))
                t.append(_q(c) * x)
            e = z3.Sum(t) if t else z3.RealVal(0)
            b = z3.Bool("b%d" % k)
            disj.append(b)
            s.add(b == z3.Or(e > _q(tol), e < -_q(tol)))
        alive = [k for k in range(len(items)) if k not in bad]
        suspects = []
        while alive:
            r, m = self.query(z3.Or([disj[k] for k in alive]), solver=s, kind=kind)
            if r == z3.unsat: break
            if r == z3.unknown:
                suspects += alive; break
            hit = [k for k in alive if z3.is_true(m.eval(disj[k], model_completion=True))]
            suspects += hit
            alive = [k for k in alive if k not in hit]
        # stage 2: exact
        for k in suspects:
            lab, a, b = items[k]
            d = polys[k]
            verdict, model = self._exact(d, tol)
            if verdict == "unsat": continue
            if verdict == "unknown":
                self.incon.append("undecided: " + lab); continue
            bad.append(k)
            self.fail(lab, "solver: differs from the expected value by more than %g" % tol, model)
        return sorted(bad)
    def _exact(self, d, tol):
        # witness points first: the solver decides the query with all variables pinned
        if not self.pc:
            for t in range(6):
                pt = self.randpoint(1000 + t)
                v = P.evalp(d, pt)
                if abs(v) > 10 * tol:
                    pins = [self.z(i) == _q(Fraction(pt[i])) for i in self._basevars(d)]
                    z = self.zpoly(d)
                    r, m = self.query(z3.Or(z > _q(tol), z < -_q(tol)), *pins, kind="assert")
                    if r == z3.sat:
                        mvals = {self.V.name[i]: pt[i] for i in range(len(self.V.sx)) if i not in self.V.atomdef}
                        return "sat", mvals
        t = P.const(Fraction(tol))
        cond = z3.Or(self.zcmp(P.add(d, t, -1), ">"), self.zcmp(P.add(d, t), "<"))
        r, m = self.query(cond, kind="assert")
        if r == z3.sat: return "sat", self.model_values(m)
        return ("unsat" if r == z3.unsat else "unknown"), None
    def _basevars(self, d, seen=None):
        seen = set() if seen is None else seen
        for m in d:
            for i, _ in m:
                if i in seen: continue
                if i in self.V.atomdef:
                    for p in self.V.atomdef[i][1]: self._basevars(p, seen)
                else: seen.add(i)
        return seen
    def close(self, label, a, b, tol=1e-6, rel=1e-9):
        """Compare arrays / scalars entry by entry (shapes must agree)."""
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb):
            self.ncheck += 1
            self.check(label, False, "size %d instead of %d" % (len(fa), len(fb)))
            return False
        lab = lambda k: label if len(fa) == 1 else "%s[%d]" % (label, k)
        return not self.close_many([(lab(k), x, y) for k, (x, y) in enumerate(zip(fa, fb))], tol, rel=rel)
    # -- uninterpreted user functions
    def uf(self, name, args, nout, grid=None):
        """Call of the user function `name`; args: flat list of scalars. Returns list of nout scalars.
        Arguments may contain symbols that are registered only later (adopt)."""
        args = [x for a in args for x in flat(a)]
        if not self.sym:
            return concrete_fn(name, [float(a) for a in args], nout)
        rec = self.calls.setdefault(name, [])
        try:
            polys = P.polys([sxof(a) for a in args], self.V) if args else []
            hit = self._find(name, polys, nout)
            if hit is not None: return hit["out"]
        except P.Unregistered:
            polys = None
        n = len(rec)
        out = [self.real("%s@%d.%d" % (name, n, k), -3.0, 3.0) for k in range(nout)]
        rec.append({"polys": polys, "out": out, "fp": None, "args": args, "used": 0})
        return out
    def unify_calls(self, subst=None):
        """Resolve the calls recorded before their symbols were registered; calls with equal arguments get equal
        results.  subst = (from, to): change of variables applied to the arguments.  Returns the (from, to)
        substitution of result symbols, to be applied to expressions."""
        fr, to = [], []
        for name, recs in self.calls.items():
            if name.endswith("?"): continue
            keep = []
            for rec in recs:
                if rec["polys"] is None:
                    e = [sxof(a) for a in rec["args"]]
                    if e:
                        e = ca.vertcat(*e)
                        if subst is not None: e = ca.substitute(e, *subst)
                        try: rec["polys"] = P.polys(e, self.V)
                        except P.Unregistered:
                            keep.append(rec); continue
                    else: rec["polys"] = []
                    hit = self._find(name, rec["polys"], len(rec["out"]), keep)
                    if hit is not None:
                        fr += [o.sx for o in rec["out"]]; to += [o.sx for o in hit["out"]]
                        continue
                keep.append(rec)
            recs[:] = keep
        return (ca.vertcat(*fr), ca.vertcat(*to)) if fr else None
    def _fp(self, polys):
        out = []
        for k in (1, 2):
            key = (k, len(self.V.sx))
            if getattr(self, "_fpkey%d" % k, None) != key[1]:
                setattr(self, "_fpkey%d" % k, key[1]); setattr(self, "_fpval%d" % k, self.randpoint(k))
            pt = getattr(self, "_fpval%d" % k)
            out += [P.evalp(p, pt) for p in polys]
        return out
    def _find(self, name, polys, nout, recs=None):
        fp = self._fp(polys)
        for rec in (self.calls.get(name, []) if recs is None else recs):
            if rec["polys"] is None or len(rec["polys"]) != len(polys) or len(rec["out"]) != nout: continue
            if rec["fp"] is None:
                rec["fp"] = self._fp(rec["polys"])
            if all(abs(x - y) <= 1e-6 * (1 + abs(x)) for x, y in zip(rec["fp"], fp)):
                self.pending_same += [("args of " + name, p, q) for p, q in zip(rec["polys"], polys) if p != q]
                return rec
        return None
    def uf_at(self, name, args, nout):
        """Value of the user function at the reference's arguments (must be one of the recorded calls)."""
        args = [x for a in args for x in flat(a)]
        if not self.sym:
            return concrete_fn(name, [float(a) for a in args], nout)
        polys = P.polys([sxof(a) for a in args], self.V) if args else []
        hit = self._find(name, polys, nout)
        if hit is not None:
            hit["used"] += 1
            return hit["out"]
        # never evaluated at these arguments: a fresh value nothing else equals
        n = len(self.calls.setdefault(name + "?", []))
        out = [self.real("%s?%d.%d" % (name, n, k), -3.0, 3.0) for k in range(nout)]
        self.calls[name + "?"].append(1)
        self.calls.setdefault(name, []).append({"polys": polys, "out": out, "fp": None, "args": args, "used": 1})
        return out
    def discharge_same(self):
        """Prove that calls identified by fingerprint really have equal arguments."""
        if self.sym and self.pending_same:
            n = len(self.problems)
            todo, self.pending_same = self.pending_same, []
            self.close_many(todo, 1e-5, kind="congruence")
            if len(self.problems) > n:
                del self.problems[n:]
                self.incon.append("call identification by fingerprint was refuted by the solver")

class AssumptionFailed(Exception):
    pass
CROSS = False

def _isfloat(v): return isinstance(v, NUM)
def _q(v):
    if isinstance(v, Fraction): return z3.RealVal("%d/%d" % (v.numerator, v.denominator)) if v.denominator != 1 else z3.RealVal(v.numerator)
    f = Fraction(v)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)
def _num(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0.0
def close(a, b, tol, rel=1e-9):
    if a != a or b != b: return a != a and b != b
    if abs(a) == INF or abs(b) == INF: return a == b
    return abs(a - b) <= tol * (1 + 1e-6) + rel * max(abs(a), abs(b))

def flat(a):
    """Flatten arrays / casadi matrices / nested lists to a list of scalars, row-major."""
    if a is None: return []
    if isinstance(a, (Sym, SymBool)) or isinstance(a, NUM): return [a]
    if isinstance(a, ca.DM): return [float(x) for x in a.full().ravel()]
    if isinstance(a, ca.SX):
        d = ca.densify(a)
        return [_wrap(d[i, j]) for i in range(d.size1()) for j in range(d.size2())]
    if isinstance(a, np.ndarray):
        if a.dtype == object: return [y for x in a.ravel() for y in flat(x)]
        return [float(x) for x in a.ravel()]
    if isinstance(a, (list, tuple)): return [y for x in a for y in flat(x)]
    if isinstance(a, Fraction): return [float(a)]
    raise Unsupported("cannot flatten %r" % type(a))

def concrete_fn(name, args, nout):
    """A fixed generic function of its arguments (used in replays; differs for every name)."""
    out = []
    for k in range(nout):
        r = random.Random("fn|%s|%d" % (name, k))
        v = r.uniform(-1, 1)
        for j, a in enumerate(args):
            v += r.uniform(0.3, 1.3) * a * (1 if r.random() < .5 else -1) + 0.17 * (j + 1) * a * a / (1 + j) * r.uniform(.5, 1)
        out.append(v)
    return out
def concrete_fn_ca(name, args, nout):
    """As concrete_fn, on CasADi / numpy scalars."""
    out = []
    for k in range(nout):
        r = random.Random("fn|%s|%d" % (name, k))
        v = r.uniform(-1, 1)
        for j, a in enumerate(args):
            v = v + r.uniform(0.3, 1.3) * a * (1 if r.random() < .5 else -1) + 0.17 * (j + 1) * a * a / (1 + j) * r.uniform(.5, 1)
        out.append(v)
    return out

# ------------------------------------------------------------------ patches of numpy / casadi as seen by the code under test
def _obj(a): return isinstance(a, Sym) or (isinstance(a, np.ndarray) and a.dtype == object) or (isinstance(a, (list, tuple)) and any(_obj(x) for x in a))
def _elem(f, dtype=object):
    def g(*args, **kw):
        bs = np.broadcast_arrays(*[_oarr(a) for a in args])
        r = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(*bs[0].shape): r[i] = f(*[b[i] for b in bs])
        if dtype is bool: r = r.astype(bool)
        return r if r.ndim else r.item()
    return g
def _oarr(a):
    if isinstance(a, np.ndarray): return a.astype(object) if a.dtype != object else a
    if isinstance(a, Sym):
        r = np.empty((), dtype=object); r[()] = a
        return r
    return np.array(a, dtype=object)
def _isfin(x): return True if isinstance(x, Sym) else bool(np.isfinite(float(x)))
def _isnan(x): return False if isinstance(x, Sym) else bool(np.isnan(float(x)))
def _isinf(x): return False if isinstance(x, Sym) else bool(np.isinf(float(x)))
_OV = {
    "isfinite": _elem(_isfin, bool), "isnan": _elem(_isnan, bool), "isinf": _elem(_isinf, bool),
    "sqrt": _elem(lambda x: x.sqrt() if isinstance(x, Sym) else np.sqrt(float(x))),
    "sign": _elem(lambda x: x.sign() if isinstance(x, Sym) else np.sign(float(x))),
    "floor": _elem(lambda x: x.floor() if isinstance(x, Sym) else np.floor(float(x))),
    "ceil": _elem(lambda x: x.ceil() if isinstance(x, Sym) else np.ceil(float(x))),
    "maximum": _elem(lambda x, y: x if x >= y else y), "minimum": _elem(lambda x, y: x if x <= y else y),
    "fmax": _elem(lambda x, y: x if x >= y else y), "fmin": _elem(lambda x, y: x if x <= y else y),
    "clip": _elem(lambda x, l, h: l if x < l else (h if x > h else x)),
    "mod": _elem(lambda x, y: x % y), "absolute": _elem(abs), "fabs": _elem(abs),
    "hypot": _elem(lambda x, y: (x * x + y * y) ** 0.5),
    "isclose": _elem(lambda x, y, *a: bool(abs(x - y) <= 1e-8 + 1e-5 * abs(y))),
    "allclose": lambda x, y, *a, **k: bool(np.all(_OV["isclose"](x, y))),
    "searchsorted": lambda a, v, side="left", sorter=None: _searchsorted(a, v, side),
    "interp": lambda x, xp, fp, *a, **k: _interp(x, xp, fp),
}
class _Ufunc:
    """A two-argument ufunc over symbolic values, with the attributes numpy's has."""
    def __init__(self, real, f): self.real, self.f = real, f
    def __call__(self, *a, **k):
        if not any(_obj(x) for x in a): return self.real(*a, **k)
        out = k.pop("out", None)
        if k: raise Unsupported("ufunc options %s" % sorted(k))
        r = self.f(*a)
        if out is None: return r
        out = out[0] if isinstance(out, tuple) else out
        out[...] = r
        return out
    def _fold(self, x, init=None):
        r = init
        for v in x: r = v if r is None else self.f(r, v)
        return r
    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None):
        if not _obj(a): return self.real.reduce(a, axis=axis, keepdims=keepdims, **({} if initial is None else {"initial": initial}))
        a = _oarr(a)
        if axis is None: a, axis = a.ravel(), 0
        if isinstance(axis, tuple): raise Unsupported("several axes")
        r = self._fold([_item(v) for v in np.moveaxis(a, axis, 0)], initial)
        return np.expand_dims(r, axis) if keepdims else r
    def accumulate(self, a, axis=0, **k):
        if not _obj(a): return self.real.accumulate(a, axis=axis, **k)
        a = np.moveaxis(_oarr(a), axis, 0)
        r = np.empty(a.shape, dtype=object)
        for i in range(len(a)): r[i] = a[0] if i == 0 else self.f(_item(r[i - 1]), _item(a[i]))
        return np.moveaxis(r, 0, axis)
    def outer(self, a, b):
        if not (_obj(a) or _obj(b)): return self.real.outer(a, b)
        a, b = _oarr(a), _oarr(b)
        return self.f(a.reshape(a.shape + (1,) * b.ndim), b)
    def __getattr__(self, n): return getattr(self.real, n)
def _item(v): return v.item() if isinstance(v, np.ndarray) and v.ndim == 0 else v
def _einsum(spec, *ops, **k):
    """Plain einsum by explicit sums (numpy refuses arrays of objects unless told otherwise)."""
    ops = [_oarr(o) for o in ops]
    spec = spec.replace(" ", "")
    if "." in spec: raise Unsupported("einsum ellipsis")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec: out = "".join(c for c in sorted(set("".join(ins))) if "".join(ins).count(c) == 1)
    size = {}
    for t, o in zip(ins, ops):
        for c, d in zip(t, o.shape): size[c] = max(d, size.get(c, 1))
    rest = [c for c in size if c not in out]
    r = np.empty([size[c] for c in out], dtype=object)
    for i in np.ndindex(*r.shape):
        s = 0.0
        for j in np.ndindex(*[size[c] for c in rest]):
            at = dict(zip(out, i)); at.update(zip(rest, j))
            v = 1.0
            for t, o in zip(ins, ops): v = v * o[tuple(at[c] for c in t)]
            s = s + v
        r[i] = s
    return r if r.ndim else r.item()
def _digitize(x, bins, right=False):
    side = "left" if right else "right"
    r = _searchsorted(bins, np.ravel(np.asarray(x, dtype=object)), side)
    return r.reshape(np.shape(x)) if isinstance(x, (np.ndarray, list, tuple)) else r.item()
def _bincount(x, weights=None, minlength=0):
    x = np.asarray(x).ravel()
    r = np.full(max(int(x.max()) + 1 if len(x) else 0, minlength), 0.0, dtype=object)
    for i, w in zip(x, np.ravel(weights)): r[i] = r[i] + w
    return r
for _n in ("maximum", "minimum", "fmax", "fmin"): _OV[_n] = _Ufunc(getattr(np, _n), _OV[_n])
_OV.update(einsum=_einsum, digitize=_digitize, bincount=_bincount)
def _ss1(a, v, side):
    n = 0
    for x in a:
        if (x < v) if side == "left" else (x <= v): n += 1
        else: break
    return n
def _searchsorted(a, v, side):
    a = list(np.asarray(a, dtype=object))
    if isinstance(v, (np.ndarray, list, tuple)):
        return np.array([_ss1(a, x, side) for x in v])
    return _ss1(a, v, side)
def _interp1(x, xp, fp):
    if x <= xp[0]: return fp[0]
    for i in range(len(xp) - 1):
        if x <= xp[i + 1]:
            return fp[i] + (fp[i + 1] - fp[i]) * ((x - xp[i]) / (xp[i + 1] - xp[i]))
    return fp[-1]
def _interp(x, xp, fp):
    if isinstance(x, (np.ndarray, list, tuple)): return np.array([_interp1(v, xp, fp) for v in x], dtype=object)
    return _interp1(x, xp, fp)

class LinalgProxy:
    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        if n != "norm": return f
        def norm(x, ord=None, axis=None, keepdims=False):
            if not _obj(x): return f(x, ord, axis, keepdims)
            x = np.asarray(x, dtype=object)
            if axis is None and x.ndim > 1: raise Unsupported("matrix norm")
            if ord in (None, 2): r = np.sum(x * x, axis=axis, keepdims=keepdims); return _OV["sqrt"](r)
            if ord == 1: return np.sum(abs(x), axis=axis, keepdims=keepdims)
            if ord in (INF, np.inf): return np.max(abs(x), axis=axis, keepdims=keepdims)
            raise Unsupported("norm")
        return norm

class _FloatMeta(type):
    def __instancecheck__(c, o): return isinstance(o, float)
    def __call__(c, *a):
        if a and isinstance(a[0], Sym): return a[0]
        if a and isinstance(a[0], ca.SX): return _wrap(ca.densify(a[0])[0]) if a[0].numel() == 1 else float(a[0])
        if a and isinstance(a[0], np.ndarray) and a[0].dtype == object and a[0].size == 1: return c(a[0].ravel()[0])
        return float(*a)
class FloatShim(float, metaclass=_FloatMeta):
    """float() as seen by the code under test: symbolic values are kept."""
class MathProxy:
    """math as seen by the code under test, should it be imported there"""
    _OVM = {"sqrt": "sqrt", "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite", "fabs": "fabs", "hypot": "hypot", "isclose": "isclose"}
    def __getattr__(self, n):
        f = getattr(math, n)
        if n in ("fsum", "prod"):
            def g(x, **k):
                x = list(x)
                if not _obj(x): return f(x, **k)
                r = 0.0 if n == "fsum" else k.get("start", 1)
                for v in x: r = r + v if n == "fsum" else r * v
                return r
            return g
        if n in ("floor", "ceil", "trunc"): return f        # __floor__, __ceil__ and __trunc__ of the value
        if n not in self._OVM: return f
        return lambda *a, **k: _OV[self._OVM[n]](*a) if any(_obj(x) for x in a) else f(*a, **k)

class NpProxy:
    """numpy as seen by the code under test: functions numpy lacks for object arrays get an elementwise version."""
    def __init__(self, zeros_object=False):
        self._zo = zeros_object
    def __getattr__(self, n):
        f = getattr(np, n)
        if n == "linalg": return LinalgProxy()
        if n in _OV:
            ov = _OV[n]
            if isinstance(ov, _Ufunc): return ov
            def g(*a, **k):
                if any(_obj(x) for x in a) or _obj(k.get("weights")): return ov(*a, **k)
                return f(*a, **k)
            return g
        if n in ("array", "asarray", "asanyarray", "fromiter", "ascontiguousarray"):
            def c(x, *a, **k):
                if n == "fromiter": x = list(x)
                dt = a[0] if a else k.get("dtype")
                if dt in (float, np.float64, "float", "f8", "d", FloatShim) and _obj(x):
                    if a: a = (object,) + a[1:]
                    else: k["dtype"] = object
                elif dt is FloatShim:
                    if a: a = (float,) + a[1:]
                    else: k["dtype"] = float
                return f(x, *a, **k)
            return c
        if n in ("float64", "float_"): return FloatShim
        if self._zo and n in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "full_like", "empty_like", "tile", "repeat"):
            def h(*a, **k):
                a = tuple(float if v is FloatShim else v for v in a)
                if k.get("dtype") is FloatShim: k["dtype"] = float
                r = f(*a, **k)
                return r.astype(object) if isinstance(r, np.ndarray) and r.dtype == float else r
            return h
        return f

class DMProxy:
    """casadi.DM: a matrix of symbolic values stays an SX."""
    def __init__(self, zeros=False):
        self._z = zeros
    def zeros(self, *a): return (ca.SX if self._z else ca.DM).zeros(*a)
    def ones(self, *a): return (ca.SX if self._z else ca.DM).ones(*a)
    def __call__(self, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, ca.SX): return ca.DM(x) if x.is_constant() else x
            if isinstance(x, Sym): return x.sx
            if isinstance(x, np.ndarray) and x.dtype == object: return _todmsx(ca.SX(x) if False else _obj2sx(x))
            if isinstance(x, (list, tuple)) and any(isinstance(y, (Sym, ca.SX)) or _obj(y) for y in x):
                if any(isinstance(y, (list, tuple)) for y in x):
                    return ca.vertcat(*[ca.horzcat(*[sxof(z) for z in y]) for y in x])
                return ca.vertcat(*[y.sx if isinstance(y, Sym) else ca.SX(y) for y in x])
        return ca.DM(*a, **k)
    def __getattr__(self, n): return getattr(ca.DM, n)
    def __instancecheck__(self, o): return isinstance(o, (ca.DM, ca.SX))
def _obj2sx(x):
    x2 = x if x.ndim == 2 else x.reshape(-1, 1)
    return ca.vertcat(*[ca.horzcat(*[sxof(v) for v in row]) for row in x2])
def _todmsx(s): return ca.DM(s) if s.is_constant() else s

class FunctionShim:
    """casadi.Function whose expressions may also mention symbolic problem data (free symbols)."""
    def __init__(self, name, ins, outs=None, *rest):
        if not isinstance(ins, (list, tuple)):
            self.f, self.free = ca.Function(name, ins, outs, *rest), None
            return
        known = {v.element_hash() for e in ins if isinstance(e, ca.SX) for v in ca.symvar(e)}
        free = []
        for e in outs:
            if isinstance(e, ca.SX):
                for v in ca.symvar(e):
                    if v.element_hash() not in known: known.add(v.element_hash()); free.append(v)
        rest = list(rest)
        self.free = ca.vertcat(*free) if free else None
        if free:
            ins = list(ins) + [self.free]
            if rest and isinstance(rest[0], (list, tuple)): rest[0] = list(rest[0]) + ["free__"]
        self.f = ca.Function(name, list(ins), list(outs), *rest)
    def __call__(self, *a, **k):
        if self.free is None: return self.f(*[_fa(x) for x in a], **{n: _fa(x) for n, x in k.items()})
        if k:
            return self.f(**{n: _fa(x) for n, x in k.items()}, free__=self.free)
        if len(a) == 1 and isinstance(a[0], (list, tuple)) and self.f.n_in() > 2:
            return self.f.call([_fa(x) for x in a[0]] + [self.free])
        return self.f(*[_fa(x) for x in a], self.free)
    def call(self, a): return self.f.call([_fa(x) for x in a] + ([self.free] if self.free is not None else []))
    def __getattr__(self, n): return getattr(self.f, n)
def _fa(x):
    if isinstance(x, Sym): return x.sx
    if isinstance(x, np.ndarray) and x.dtype == object: return _obj2sx(x)
    if isinstance(x, (list, tuple)) and any(isinstance(y, (Sym, ca.SX)) for y in x): return ca.vertcat(*[sxof(y) for y in x])
    return x

class CaProxy:
    def __init__(self, **over):
        self.__dict__["DM"] = DMProxy(over.pop("dm_zeros", False))
        self.__dict__["Function"] = FunctionShim
        self.__dict__["_o"] = dict(over)
    def __getattr__(self, n):
        o = self.__dict__["_o"]
        if n in o: return o[n]
        return getattr(ca, n)

class CaOver:
    """casadi with a few names replaced (concrete runs: only recording stand-ins)."""
    def __init__(self, **over): self.__dict__["_o"] = {k: v for k, v in over.items() if k != "dm_zeros"}
    def __getattr__(self, n):
        return self._o[n] if n in self._o else getattr(ca, n)

def _sx_full(self):
    d = ca.densify(self)
    r = np.empty(d.shape, dtype=object)
    for i in range(d.size1()):
        for j in range(d.size2()): r[i, j] = _wrap(d[i, j])
    return r
def _sx_array_custom(self, *a, **k):
    return _sx_full(self)
_orig_bool = ca.SX.__bool__
def _sx_bool(self):
    if self.numel() == 1 and not self.is_constant() and CUR is not None and CUR.sym:
        c = self
        return CUR.decide_cmp(c, "!=")
    return _orig_bool(self)
def _sx_float(self):
    if not self.is_constant(): raise Unsupported("float() of a symbolic value")
    return _ORIG_FLOAT(self)
_ORIG_FLOAT = ca.SX.__float__

class patched:
    """Install the symbolic shims for the duration of one symbolic run."""
    def __init__(self, ctx, zeros_object=True, **ca_over):
        self.ctx, self.zo, self.over = ctx, zeros_object, ca_over
    def __enter__(self):
        self.saved = (mp.np, mp.ca)
        if self.ctx.sym:
            mp.np = NpProxy(self.zo)
            mp.float = FloatShim
            if mp.__dict__.get("math") is math: mp.math = MathProxy()
            mp.ca = CaProxy(**self.over)
            ca.SX.full = _sx_full
            ca.SX.__array_custom__ = _sx_array_custom
            ca.SX.__bool__ = _sx_bool
        elif any(k != "dm_zeros" for k in self.over):
            mp.ca = CaOver(**self.over)
        return self
    def __exit__(self, *a):
        mp.np, mp.ca = self.saved
        if self.ctx.sym:
            mp.__dict__.pop("float", None)
            if isinstance(mp.__dict__.get("math"), MathProxy): mp.math = math
            for n in ("full", "__array_custom__"):
                if n in ca.SX.__dict__: delattr(ca.SX, n)
            ca.SX.__bool__ = _orig_bool
        return False

# ------------------------------------------------------------------ exploration
class FnTrace:
    """Records which functions of the code under test were executed."""
    def __init__(self): self.names = set()
    def _p(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename == env.SRC or event == "call" and frame.f_code.co_filename.startswith(env.REPO + "/mpopt"):
            self.names.add(frame.f_code.co_qualname)
    def __enter__(self): sys.setprofile(self._p); return self
    def __exit__(self, *a): sys.setprofile(None); return False

def run_one(harness, cfg, ctx):
    """One execution of the harness in ctx. Exceptions of the code under test become candidate problems."""
    global CUR
    old, CUR = CUR, ctx
    try:
        harness(ctx, cfg)
        ctx.discharge_same()
        return "ok"
    except PathEnd:
        return "infeasible"
    except AssumptionFailed:
        return "assumption"
    except Budget:
        ctx.incon.append("time budget exhausted")
        return "budget"
    except Inconclusive as e:
        ctx.incon.append(str(e))
        return "inconclusive"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(env.REPO)]
        loc = "%s:%s" % (where[-1].name, where[-1].lineno) if where else "harness"
        model = {}
        if ctx.sym:
            try:
                r, m = ctx.query(z3.BoolVal(True))
                model = ctx.model_values(m) if m is not None else {}
            except BaseException:
                pass
        ctx.exc = "".join(traceback.format_exception(e))[-3000:]
        if isinstance(e, AttributeError) and str(getattr(e, "name", "")).startswith("_") and tb and not tb[-1].filename.startswith(env.REPO):
            # the harness reads a private attribute which the code does not have (any more): no answer, not a failure
            ctx.incon.append("private attribute missing: " + str(e)[:200])
            return "inconclusive"
        ctx.fail("exception", "%s: %s at %s" % (type(e).__name__, str(e)[:200], loc), model)
        return "exception"
    finally:
        CUR = old

def explore(harness, cfg, max_paths=2000, deadline=None, timeout_ms=20000, replays=1):
    """Explore all paths of harness(ctx, cfg). Returns a result dictionary."""
    st = Stats()
    stack = [[]]
    res = {"violations": [], "inconclusive": [], "functions": [], "validated": 0, "asserts_on_paths": 0, "samples": [], "exceptions": []}
    fns = set()
    npaths = 0
    done_ok = 0
    while stack:
        if npaths >= max_paths or (deadline and time.monotonic() > deadline):
            res["inconclusive"].append("path or time limit reached with %d paths pending" % len(stack))
            break
        prefix = stack.pop()
        ctx = Ctx("sym", prefix=prefix, stats=st, timeout_ms=timeout_ms)
        ctx.deadline = deadline
        if npaths < 2:
            with FnTrace() as tr:
                status = run_one(harness, cfg, ctx)
            fns |= tr.names
        else:
            status = run_one(harness, cfg, ctx)
        stack.extend(ctx.alts)
        if status == "infeasible":
            continue
        npaths += 1
        st.paths += 1
        res["asserts_on_paths"] += ctx.ncheck
        res["inconclusive"] += ctx.incon[:3]
        # replay: counterexamples must reproduce on the unpatched code
        pend = ctx.problems
        if pend:
            ok = False
            tried = []
            for pb in pend[:4]:
                for attempt in range(3):
                    vals = dict(pb["model"] or {}) if attempt == 0 else ({k: v for i, (k, v) in enumerate(sorted((pb["model"] or {}).items())) if not k.startswith(("Z[", "P["))} if attempt == 1 else {})
                    c2, s2 = conc_run(harness, cfg, vals, pb["choices"])
                    tried.append((s2, [p["label"] for p in c2.problems][:3]))
                    if c2.problems and s2 != "assumption":
                        ok = True
                        res["violations"].append({"label": c2.problems[0]["label"], "detail": c2.problems[0]["detail"], "sym_label": pb["label"],
                                                  "sym_detail": pb["detail"], "values": vals, "choices": pb["choices"], "cfg": cfg,
                                                  "all": [p["label"] + ": " + p["detail"] for p in c2.problems][:12], "exc": getattr(c2, "exc", None)})
                        break
                if ok: break
            if not ok:
                res["inconclusive"].append("counterexample did not reproduce: %s: %s (replays %s) %s" % (pend[0]["label"], pend[0]["detail"], tried[:2], cfg))
                if getattr(ctx, "exc", None): res["exceptions"].append(ctx.exc)
            if len(res["violations"]) >= 3: break
        elif status != "ok" or ctx.incon:
            # the path left the encodable fragment: the inputs the solver finds for the part that was encoded
            # are still run on the real code, and a failure there is a counterexample
            try:
                r, m = ctx.query(z3.BoolVal(True), kind="witness")
                vals = ctx.model_values(m) if r == z3.sat else {}
            except BaseException:
                vals = {}
            for v in ([vals, {}] if vals else [{}]):
                c2, s2 = confirmed(harness, cfg, v, ctx.choice_log)
                if c2 is not None:
                    res["violations"].append(_viol(c2, cfg, v, ctx.choice_log, "not encoded: " + str((ctx.incon or [status])[0])[:200]))
                    break
            if len(res["violations"]) >= 3: break
        else:
            done_ok += 1
            # witness: one concrete run along this path's model
            if status == "ok" and (res["validated"] < replays or (npaths % 50 == 0 and res["validated"] < 3 * replays)):
                vals = {}
                try:
                    r, m = ctx.query(z3.BoolVal(True), kind="witness")
                    if r == z3.sat: vals = ctx.model_values(m)
                    elif r == z3.unsat:
                        continue
                except BaseException:
                    pass
                vals = {k: v for k, v in vals.items()} if ctx.pc else {}
                c2, s2 = conc_run(harness, cfg, vals, ctx.choice_log)
                if s2 == "ok" and not c2.problems and not c2.incon:
                    res["validated"] += 1
                    if len(res["samples"]) < 2:
                        res["samples"].append({"cfg": _short(cfg), "values": {k: round(v, 6) for k, v in list(vals.items())[:8]}, "asserts": c2.ncheck})
                elif s2 != "assumption" and c2.problems and s2 == "ok" and ctx.pc and borderline(harness, cfg, vals, ctx.choice_log):
                    pass
                elif s2 != "assumption" and c2.problems:
                    # the concrete code disagrees with the symbolic verdict: a violation if it persists around the
                    # point, otherwise float effects
                    c3, _ = confirmed(harness, cfg, vals, ctx.choice_log)
                    if c3 is not None:
                        res["violations"].append(_viol(c3, cfg, vals, ctx.choice_log, "replay of a path"))
                    else: res["inconclusive"].append("concrete witness run fails where the solver holds: %s %s %s" % (c2.problems[0]["label"], c2.problems[0]["detail"], _short(cfg)))
    res["paths"] = npaths
    res["stats"] = st.asdict()
    res["functions"] = sorted(fns)
    res["vacuous"] = (res["asserts_on_paths"] == 0 or npaths == 0)
    return res

def _viol(c, cfg, vals, choices, why):
    return {"label": c.problems[0]["label"], "detail": c.problems[0]["detail"], "sym_label": why, "sym_detail": "", "values": vals, "choices": choices, "cfg": cfg,
            "all": [p["label"] + ": " + p["detail"] for p in c.problems][:12], "exc": getattr(c, "exc", None)}

def confirmed(harness, cfg, vals, choices):
    """A concrete run that fails, and keeps failing at nearby points (not a tie decided by rounding)."""
    c, s = conc_run(harness, cfg, vals, choices)
    if not c.problems or s == "assumption" or c.incon: return None, s
    for t in range(4):
        r = random.Random("cf%d" % t)
        v2 = {k: v + (r.random() - .5) * 2e-6 for k, v in vals.items()}
        c2, s2 = conc_run(harness, cfg, v2, choices)
        if s2 != "assumption" and not c2.problems: return None, s
    return c, s

def borderline(harness, cfg, vals, choices):
    """A solver model may sit exactly on a branch boundary (a tie), where rounding flips the branch:
    accept when a slightly perturbed point agrees."""
    ok = 0
    for t in range(4):
        r = random.Random("bl%d" % t)
        v2 = {k: v + (r.random() - .5) * 2e-6 for k, v in vals.items()}
        c, s = conc_run(harness, cfg, v2, choices)
        if not c.problems: ok += 1
    return ok >= 1

def conc_run(harness, cfg, vals, choices=None):
    c = Ctx("conc", values=vals, choices=choices)
    s = run_one(harness, cfg, c)
    return c, s

def _short(cfg):
    return {k: (v if not callable(v) else getattr(v, "__name__", "fn")) for k, v in cfg.items()} if isinstance(cfg, dict) else cfg
