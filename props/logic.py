"""Boolean combinations that work on solver terms and on plain booleans alike."""
from lib import symcore as sc
from lib.symcore import z3

def _b(x):
    if isinstance(x, sc.SymBool): return x.z
    return x if z3.is_expr(x) else bool(x)
def AND(*xs):
    xs = [_b(x) for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    if any(x is False for x in xs): return False
    xs = [x for x in xs if x is not True]
    return True if not xs else sc.SymBool(z3.And(*xs) if len(xs) > 1 else xs[0])
def OR(*xs):
    xs = [_b(x) for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    if any(x is True for x in xs): return True
    xs = [x for x in xs if x is not False]
    return False if not xs else sc.SymBool(z3.Or(*xs) if len(xs) > 1 else xs[0])
def NOT(x):
    x = _b(x)
    return (not x) if isinstance(x, bool) else sc.SymBool(z3.Not(x))
def IMP(a, b): return OR(NOT(a), b)
def NEAR(a, b, tol=1e-7): return AND(a - b <= tol, a - b >= -tol)
def LE(a, b, tol=0.0): return a <= b + tol
