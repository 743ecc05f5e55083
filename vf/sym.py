"""Symbolic scalars over z3 and the path explorer.

The real Python source of /repo is *executed* on these values (see loader.py and
snp.py); every data-dependent branch asks the solver which sides are feasible and
the explorer re-runs the code once per feasible path.
"""
import math
import random
import time
from fractions import Fraction

import z3

from . import poly

z3.set_param("memory_max_size", 3500)


class Unsupported(Exception):
    """The code used an operation the encoding does not model."""


class BoundExceeded(Exception):
    """A stated bound (paths, values of a concretised integer) was exceeded."""


class PathInfeasible(BaseException):
    pass


# --------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0

    def as_dict(self):
        return dict(queries=self.queries, solver_s=round(self.solver_s, 3), paths=self.paths,
                    unsat=self.unsat, sat=self.sat, unknown=self.unknown)


STATS = Stats()


def _check(solver, *assumps):
    t = time.time()
    r = solver.check(*assumps)
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
    elif r == z3.sat:
        STATS.sat += 1
    else:
        STATS.unknown += 1
    return r


_vars_cache = {}


def vars_of(e):
    k = e.get_id()
    v = _vars_cache.get(k)
    if v is not None and v[0].eq(e):
        return v[1]
    seen, out, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    out = frozenset(out)
    if len(_vars_cache) > 200000:
        _vars_cache.clear()
    _vars_cache[k] = (e, out)
    return out


def nonlinear(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_mul(x) and sum(1 for c in x.children() if not _const(c)) > 1:
            return True
        if z3.is_div(x) and not _const(x.arg(1)):
            return True
        st.extend(x.children())
    return False


class Ctx:
    """State of one path."""

    def __init__(self, prefix, branch_timeout=4000, max_values=64):
        self.prefix = list(prefix)
        self.pos = 0
        self.pending = []          # prefixes still to explore
        self.solver = z3.Solver()
        self.solver.set("timeout", branch_timeout)
        self.pc = []               # path condition incl. axioms
        self.fresh_n = 0
        self.max_values = max_values
        self.angles = {}           # name -> (cos, sin) of base angle units
        self.memo = {}
        self.notes = []
        self.unknown_branches = 0
        self.nonlinear = False
        self.nl_seen = 0
        self.decided = {}
        self.known = {}
        self.keep = []
        self.rules = {}            # atom -> polynomial its square rewrites to (poly.py)

    # ---- constraints
    def add(self, c):
        c = tobool(c)
        self.pc.append(c)
        self.solver.add(c)

    def fresh(self, name):
        self.fresh_n += 1
        return "%s!%d" % (name, self.fresh_n)

    def feasible(self, cond):
        """sat/unsat/unknown of path condition and cond; cheap slices of the path condition first"""
        if not self.nonlinear:
            self.nonlinear = nonlinear(cond) or any(nonlinear(c) for c in self.pc[self.nl_seen:])
            self.nl_seen = len(self.pc)
        if self.nonlinear:
            gv = vars_of(cond) | {"pi"}
            prev = -1
            for lvl in (0, 1):
                sub = [c for c in self.pc if (vars_of(c) <= gv if lvl == 0 else vars_of(c) & gv - {"pi"} or vars_of(c) <= gv)]
                if len(sub) == prev:
                    continue
                prev = len(sub)
                s = z3.Solver()
                s.set("timeout", 400 if lvl == 0 else 1000)
                r = _check(s, *(sub + [cond]))
                if r == z3.unsat:
                    return r
                if r == z3.unknown:
                    break
        return _check(self.solver, cond)

    def _key(self, cond):
        self.keep.append(cond)          # keeps the hash-consed id alive
        return cond.get_id()

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if UFMODE:                      # uninterpreted scalar functions: conditions are free, equal conditions agree
            k = self._key(cond)
            if k in self.decided:
                return self.decided[k]
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
            else:
                self.pending.append(self.prefix[: self.pos] + [False])
                self.prefix.append(True)
                d = True
            self.pos += 1
            self.decided[k] = d
            if z3.is_not(cond):
                self.decided[self._key(cond.arg(0))] = not d
            else:
                self.decided[self._key(z3.simplify(z3.Not(cond)))] = not d
            self.add(cond if d else z3.Not(cond))
            return d
        k = cond.get_id()
        if k in self.known:             # the same condition again on this path
            return self.known[k][0]
        d = self._branch(cond)
        self.known[k] = (d, cond)
        return d

    def _branch(self, cond):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.add(cond if d else z3.Not(cond))
            return d
        if POLYNF and POLYMAX < 10 ** 9:
            n = dagsize(cond)
            if n > DAGMAX:
                raise Swollen(n)
        rt = self.feasible(cond)
        if rt == z3.unsat:
            self.prefix.append(False)
            self.pos += 1
            self.add(z3.Not(cond))
            return False
        rf = self.feasible(z3.Not(cond))
        if rf == z3.unsat:
            self.prefix.append(True)
            self.pos += 1
            self.add(cond)
            return True
        if rt == z3.unknown or rf == z3.unknown:
            self.unknown_branches += 1
        self.pending.append(self.prefix[: self.pos] + [False])
        self.prefix.append(True)
        self.pos += 1
        self.add(cond)
        return True

    def pick(self, value_of, cond_of, dep, what=""):
        """Fork over the discrete values value_of(model) with meaning cond_of(value); dep: expression they depend on"""
        for k in range(self.max_values):
            if self.pos < len(self.prefix):
                kind, val = self.prefix[self.pos]
                self.pos += 1
                self.add(cond_of(val) if kind == "eq" else z3.Not(cond_of(val)))
                if kind == "eq":
                    return val
                continue
            gv = vars_of(dep) | {"pi"}
            val = None
            for lvl in (0, 1, 2):
                sub = self.pc if lvl == 2 else [c for c in self.pc if (vars_of(c) <= gv if lvl == 0 else vars_of(c) & gv - {"pi"} or vars_of(c) <= gv)]
                s = z3.Solver()
                s.set("timeout", 3000)
                r = _check(s, *sub)
                if r == z3.unsat:
                    raise PathInfeasible()
                if r == z3.sat:
                    val = value_of(s.model())
                    if lvl > 0 or not self.nonlinear:
                        break
                elif val is not None:
                    break
            if val is None:
                raise BoundExceeded("cannot enumerate %s" % what)
            if self.feasible(z3.Not(cond_of(val))) != z3.unsat:
                self.pending.append(self.prefix[: self.pos] + [("ne", val)])
            self.prefix.append(("eq", val))
            self.pos += 1
            self.add(cond_of(val))
            return val
        raise BoundExceeded("more than %d values for %s" % (self.max_values, what))

    def concretize(self, expr):
        """Fork over the feasible values of an integer expression."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        for k in range(self.max_values):
            # a value from the solver (or a replayed one)
            key = ("conc", self.pos)
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                if isinstance(v, tuple):
                    self.pos += 1
                    kind, val = v
                    if kind == "eq":
                        self.add(expr == val)
                        return val
                    self.add(expr != val)
                    continue
                raise RuntimeError("nondeterministic replay")
            r = _check(self.solver)
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.unknown:
                raise BoundExceeded("cannot concretise %s" % expr)
            val = self.solver.model().eval(expr, model_completion=True).as_long()
            if _check(self.solver, expr != val) != z3.unsat:
                self.pending.append(self.prefix[: self.pos] + [("ne", val)])
            self.prefix.append(("eq", val))
            self.pos += 1
            self.add(expr == val)
            return val
        raise BoundExceeded("more than %d values for %s" % (self.max_values, expr))


CTX = None
UFMODE = False
SHUFFLE = None         # seed: explore paths in a spread-out (deterministic) order instead of depth first


def ctx():
    if CTX is None:
        raise RuntimeError("symbolic value used outside explore()")
    return CTX


class PathResult:
    def __init__(self, ctx, value, exc):
        self.ctx = ctx
        self.value = value
        self.exc = exc
        self.pc = list(ctx.pc)


def explore(fn, max_paths=2000, branch_timeout=4000, max_values=64, deadline=None):
    """Run fn() once per feasible path; yields PathResult."""
    global CTX
    stack = [[]]
    n = 0
    rnd = random.Random(SHUFFLE) if SHUFFLE is not None else None
    while stack:
        if rnd is not None:
            k = rnd.randrange(len(stack))
            stack[k], stack[-1] = stack[-1], stack[k]
        prefix = stack.pop()
        n += 1
        if n > max_paths:
            raise BoundExceeded("more than %d paths" % max_paths)
        if deadline is not None and time.time() > deadline:
            raise BoundExceeded("path exploration out of time after %d paths" % n)
        c = Ctx(prefix, branch_timeout, max_values)
        old, CTX = CTX, c
        value = exc = None
        try:
            try:
                value = fn()
            except PathInfeasible:
                stack.extend(c.pending)
                continue
            except BoundExceeded as e:
                exc = e
            except Exception as e:  # behaviour of the code under test (or Unsupported)
                exc = e
            stack.extend(c.pending)
            STATS.paths += 1
            yield PathResult(c, value, exc)
        finally:
            CTX = old


# --------------------------------------------------------------------------
def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported("non-finite constant in a formula")
    return Fraction(repr(x))


PI = z3.Real("pi")
PI_AX = [PI > z3.Q(31415926535, 10 ** 10), PI < z3.Q(31415926536, 10 ** 10)]

# when True, a float constant that is recognisably k*pi/n becomes the symbol pi*k/n
EXACT_PI = True
TINY_ZERO = True


def realval(x):
    f = frac(x)
    if TINY_ZERO and f != 0 and abs(f) < Fraction(1, 10 ** 30):
        return z3.RealVal(0)          # guards like 1e-35: below one ulp of anything they are added to
    if EXACT_PI and isinstance(x, float) and x != 0.0 and not float(x).is_integer():
        r = x / math.pi
        for den in (1, 2, 3, 4, 6, 12, 90, 180, 360):
            num = r * den
            if abs(num) < 1000 and abs(num - round(num)) < 1e-13 * max(1, abs(num)) and round(num) != 0:
                return PI * z3.Q(int(round(num)), den)
        r = x * math.pi        # degrees-per-radian style constants
        for num in (180, 360, 90, 1):
            if abs(r - num) < 1e-11:
                return z3.Q(num, 1) / PI
    return z3.Q(f.numerator, f.denominator)


def is_num(x):
    import numpy as np
    return isinstance(x, (bool, int, float, Fraction, np.generic))


def lift(x, like=None):
    """Python number / Sym -> z3 arithmetic expression."""
    import numpy as np
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating, Fraction)):
        return realval(float(x) if isinstance(x, np.floating) else x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if z3.is_expr(x):
        return x
    raise Unsupported("cannot lift %r" % type(x))


def isint(e):
    return z3.is_int(e)


def toreal(e):
    return z3.ToReal(e) if z3.is_int(e) else e


def tobool(x):
    import numpy as np
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, Sym):
        return x.e != 0
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if is_num(x):
        return z3.BoolVal(bool(x))
    if z3.is_expr(x):
        if z3.is_bool(x):
            return x
        return x != 0
    import numpy as np
    if isinstance(x, np.ndarray) and x.size == 1:
        return tobool(x.reshape(-1)[0])
    raise Unsupported("cannot use %r as a condition" % type(x))


def _isinf(x):
    import numpy as np
    return isinstance(x, (float, np.floating)) and (math.isinf(x) or math.isnan(x))


def _arr(x):
    import numpy as np
    return isinstance(x, np.ndarray) and x.ndim > 0


def val(e):
    """simplify to a Python number if constant."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return f
    return None


FORMAT = None      # text written for a value: hook (value, format spec) -> str


class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o):
        if _arr(o):
            return NotImplemented
        return mkbool(z3.And(self.e, tobool(o)))
    __rand__ = __and__

    def __or__(self, o):
        if _arr(o):
            return NotImplemented
        return mkbool(z3.Or(self.e, tobool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, tobool(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return mkbool(z3.Not(self.e))

    def _n(self):
        return Sym(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)) or (hasattr(o, "dtype") and getattr(o, "dtype", None) == bool):
            return mkbool(self.e == tobool(o))
        return self._n() == o

    def __ne__(self, o):
        r = self == o
        return (~r) if isinstance(r, SymBool) else (not r)

    def __hash__(self):
        return id(self)

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.And(self.e, o.e))
        if _arr(o):
            return NotImplemented
        if isinstance(o, Sym) or is_num(o):
            oe = lift(o)
            return mk(z3.If(self.e, oe, z3.IntVal(0) if isint(oe) else z3.RealVal(0)))
        return self._n() * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._n() / o

    def __neg__(self):
        return -self._n()

    def __index__(self):
        return 1 if bool(self) else 0

    def __int__(self):
        return 1 if bool(self) else 0

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __gt__(self, o):
        return self._n() > o

    def __lt__(self, o):
        return self._n() < o

    def __ge__(self, o):
        return self._n() >= o

    def __le__(self, o):
        return self._n() <= o

    def __repr__(self):
        return "SymBool(%s)" % self.e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mk(e):
    """z3 arithmetic expr -> python number when constant, else Sym"""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return fnum(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    return Sym(e)


def fnum(f):
    """Fraction -> float when exactly representable by a short decimal, else Sym const."""
    fl = f.numerator / f.denominator
    if Fraction(repr(fl)) == f:
        return fl
    return Sym(z3.Q(f.numerator, f.denominator))


def _bin(op):
    def f(self, o):
        if _arr(o):
            return NotImplemented
        if not (isinstance(o, (Sym, SymBool)) or is_num(o)):
            return NotImplemented
        if _isinf(o):
            return _infarith(op, self, o, False)
        return _arith(op, self.e, lift(o))

    def r(self, o):
        if _arr(o):
            return NotImplemented
        if not (isinstance(o, (Sym, SymBool)) or is_num(o)):
            return NotImplemented
        if _isinf(o):
            return _infarith(op, self, o, True)
        return _arith(op, lift(o), self.e)
    return f, r


def _infarith(op, s, inf, rev):
    if inf != inf:
        return inf
    if op == "mul" or (op == "div" and rev):
        if ctx().branch(s.e > 0):
            return inf
        if ctx().branch(s.e < 0):
            return -inf
        return math.nan if op == "mul" else inf
    if op in ("add",) or (op == "sub" and rev):
        return inf
    if op == "sub":
        return -inf
    if op == "div" and not rev:
        return 0.0
    raise Unsupported("arithmetic with inf/nan: %s" % op)


def _iszero(e):
    return (z3.is_int_value(e) and e.as_long() == 0) or (z3.is_rational_value(e) and e.numerator_as_long() == 0)


def _isone(e):
    return (z3.is_int_value(e) and e.as_long() == 1) or \
        (z3.is_rational_value(e) and e.numerator_as_long() == 1 and e.denominator_as_long() == 1)


# fork on "divisor is zero" for symbolic divisors (IEEE inf/nan result)
DIVZERO = True


class Swollen(Exception):
    """a term that should have cancelled did not"""


POLYMAX = 10 ** 9
DAGMAX = 150


def dagsize(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
    return len(seen)

POLYNF = False          # keep real terms in polynomial normal form (set by checks whose code cancels exactly)


def _arith(op, a, b):
    r = _arith0(op, a, b)
    if not POLYNF or not isinstance(r, Sym) or isint(r.e) or CTX is None:
        return r
    c = ctx()
    cache = c.__dict__.setdefault("polycache", {})
    try:
        p = poly.of(r.e, c.rules, cache)
    except poly.TooBig:
        if POLYMAX < 10 ** 9:
            raise Swollen(0)
        return r
    if len(p) > POLYMAX:
        raise Swollen(len(p))
    e = poly.expr(p)
    if z3.is_rational_value(e):
        return fnum(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    cache[e.get_id()] = (p, e)
    return mk(e)


def _arith0(op, a, b):
    if op in ("add", "sub", "mul"):
        if isint(a) != isint(b):
            a, b = toreal(a), toreal(b)
        if op == "add":
            if _iszero(a):
                return mk(b)
            if _iszero(b):
                return mk(a)
            e = a + b
        elif op == "sub":
            if _iszero(b):
                return mk(a)
            if a.eq(b):
                return 0 if isint(a) else 0.0
            e = a - b
        else:
            if _iszero(a) or _iszero(b):
                return 0 if isint(a) else 0.0
            if _isone(a):
                return mk(b)
            if _isone(b):
                return mk(a)
            e = a * b
        if z3.is_const(a) and z3.is_const(b) and a.num_args() == 0:
            e = z3.simplify(e) if _const(a) and _const(b) else e
        return mk(e)
    if op == "div":
        a, b = toreal(a), toreal(b)
        if _iszero(b):
            raise Unsupported("division by the constant zero")
        if UFMODE and not _const(b):
            from . import snp
            return snp.uf("div", mk(a), mk(b))
        if not _const(b) and not b.eq(PI) and DIVZERO and CTX is not None and ctx().branch(b == 0):
            from . import snp
            return snp.s_div(mk(a), 0.0)
        if _const(b) and _const(a):
            return mk(z3.simplify(a / b))
        if _isone(b):
            return mk(a)
        if z3.is_rational_value(b):
            return mk(a * z3.simplify(1 / b))
        return mk(a / b)
    if op in ("floordiv", "mod"):
        if isint(a) and isint(b):
            # Python floor semantics; z3 div is Euclidean: equal for b>0
            if z3.is_int_value(b):
                if b.as_long() > 0:
                    return mk(z3.simplify(a / b if op == "floordiv" else a % b))
                if b.as_long() == 0:
                    raise ZeroDivisionError("integer division or modulo by zero")
            if not ctx().branch(b > 0):
                raise Unsupported("floor division by a non-positive symbolic integer")
            return mk(a / b if op == "floordiv" else a % b)
        a, b = toreal(a), toreal(b)
        q = z3.ToInt(a / b)
        if op == "floordiv":
            return mk(z3.ToReal(q))
        return mk(a - b * z3.ToReal(q))
    raise Unsupported(op)


def _const(e):
    return z3.is_int_value(e) or z3.is_rational_value(e)


def _cmp(op):
    def f(self, o):
        if _arr(o):
            return NotImplemented
        if not (isinstance(o, (Sym, SymBool)) or is_num(o)):
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        if _isinf(o):
            o = float(o)
            if math.isnan(o):
                return op == "ne"
            return {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0, "eq": False, "ne": True}[op]
        a, b = self.e, lift(o)
        if isint(a) != isint(b):
            a, b = toreal(a), toreal(b)
        e = {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b,
             "eq": lambda: a == b, "ne": lambda: a != b}[op]()
        return mkbool(e)
    return f


class Sym:
    """Symbolic number (mathematical integer or real)."""
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    __add__, __radd__ = _bin("add")
    __sub__, __rsub__ = _bin("sub")
    __mul__, __rmul__ = _bin("mul")
    __truediv__, __rtruediv__ = _bin("div")
    __floordiv__, __rfloordiv__ = _bin("floordiv")
    __mod__, __rmod__ = _bin("mod")
    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")
    __eq__ = _cmp("eq")
    __ne__ = _cmp("ne")

    def __hash__(self):
        return self.e.hash()

    def __neg__(self):
        return mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, n):
        if isinstance(n, Sym):
            v = val(n.e)
            if v is None:
                raise Unsupported("symbolic exponent")
            n = v
        import numpy as np
        n = frac(n)
        if n == Fraction(1, 2):
            from . import snp
            return snp.s_sqrt(self)
        if n.denominator == 1 and 0 <= n <= 8:
            n = int(n)
            if n == 0:
                return 1
            r = self.e
            for _ in range(n - 1):
                r = r * self.e
            return Sym(r)
        if n.denominator == 1 and -4 <= n < 0:
            return 1 / (self ** (-n))
        from . import snp
        if UFMODE:
            return snp.uf("pow", self, fnum(n))
        return snp.s_pow(self, n)

    def __rpow__(self, b):
        v = ctx().concretize(self.e) if isint(self.e) else None
        if v is None:
            raise Unsupported("symbolic exponent")
        return b ** v

    def __lshift__(self, n):
        n = int(n)
        return self * (1 << n)

    def __rshift__(self, n):
        return self // (1 << int(n))

    def __and__(self, o):
        if is_num(o) and int(o) >= 0 and ((int(o) + 1) & int(o)) == 0 and isint(self.e):
            return self % (int(o) + 1)
        if isinstance(o, SymBool):
            return NotImplemented
        raise Unsupported("bitwise and")

    def __rand__(self, o):
        return self & o

    def __or__(self, o):
        raise Unsupported("bitwise or")

    def __invert__(self):
        return -self - 1

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __index__(self):
        if not isint(self.e):
            raise TypeError("real used as index")
        return ctx().concretize(self.e)

    def __int__(self):
        return ctx().concretize(trunc(self).e if isinstance(trunc(self), Sym) else z3.IntVal(trunc(self)))

    def __float__(self):
        v = val(self.e)
        if v is not None:
            return float(v)
        if isint(self.e):
            return float(ctx().concretize(self.e))
        raise Unsupported("float() of a symbolic real")

    def __round__(self, nd=None):
        if nd not in (None, 0):
            raise Unsupported("round to digits")
        return rint(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __trunc__(self):
        return trunc(self)

    def __repr__(self):
        return "Sym(%s)" % self.e

    def __str__(self):
        return repr(self) if FORMAT is None else FORMAT(self, None)

    def __format__(self, spec):
        return repr(self) if FORMAT is None else FORMAT(self, spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy scalar look-alikes
    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, copy=True):
        from . import snp
        return snp.cast(self, snp.np_dtype(dt))

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def squeeze(self):
        return self

    def clip(self, lo=None, hi=None):
        r = self
        if lo is not None:
            r = smax(r, lo)
        if hi is not None:
            r = smin(r, hi)
        return r

    def conjugate(self):
        return self

    def sum(self):
        return self

    def max(self):
        return self

    def min(self):
        return self

    # unary ufuncs on object arrays call these
    def sqrt(self):
        from . import snp
        return snp.s_sqrt(self)

    def cos(self):
        from . import snp
        return snp.s_cos(self)

    def sin(self):
        from . import snp
        return snp.s_sin(self)

    def rint(self):
        return rint(self)


def floor(x):
    if not isinstance(x, Sym):
        return math.floor(x)
    return x if isint(x.e) else mk(z3.ToInt(x.e))


def ceil(x):
    if not isinstance(x, Sym):
        return math.ceil(x)
    return x if isint(x.e) else mk(-z3.ToInt(-x.e))


def trunc(x):
    if not isinstance(x, Sym):
        return int(x)
    if isint(x.e):
        return x
    return mk(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))


def rint(x):
    """round half to even"""
    if not isinstance(x, Sym):
        return round(x)
    if isint(x.e):
        return x
    f = z3.ToInt(x.e)
    d = x.e - z3.ToReal(f)
    return mk(z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1))))


def ite(c, a, b):
    if isinstance(c, SymBool):
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
            return mkbool(z3.If(c.e, tobool(a), tobool(b)))
        if _isinf(a) or _isinf(b):
            return a if bool(c) else b
        ea, eb = lift(a), lift(b)
        if ea.eq(eb):
            return a
        if isint(ea) != isint(eb):
            ea, eb = toreal(ea), toreal(eb)
        return mk(z3.If(c.e, ea, eb))
    return a if c else b


def smax(*xs):
    if len(xs) == 1:
        xs = list(xs[0])
    r = xs[0]
    for x in xs[1:]:
        if isinstance(r, Sym) or isinstance(x, Sym):
            r = ite(x > r, x, r)
        else:
            r = x if x > r else r
    return r


def smin(*xs):
    if len(xs) == 1:
        xs = list(xs[0])
    r = xs[0]
    for x in xs[1:]:
        if isinstance(r, Sym) or isinstance(x, Sym):
            r = ite(x < r, x, r)
        else:
            r = x if x < r else r
    return r


def Int(name):
    return Sym(z3.Int(name))


def Real(name):
    return Sym(z3.Real(name))


def Bool(name):
    return SymBool(z3.Bool(name))


def assume(c):
    ctx().add(tobool(c))


def model_value(m, x):
    """Concrete Python number of x in model m."""
    import numpy as np
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.e, model_completion=True))
    if isinstance(x, Sym):
        x = x.e
    if z3.is_expr(x):
        v = m.eval(x, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return v.numerator_as_long() / v.denominator_as_long()
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return a.numerator_as_long() / a.denominator_as_long()
        s = v.as_decimal(17) if hasattr(v, "as_decimal") else str(v)
        return float(str(s).rstrip("?"))
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = model_value(m, x[i])
        return out.tolist()
    if isinstance(x, (list, tuple)):
        return [model_value(m, y) for y in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, Fraction):
        return float(x)
    return x
