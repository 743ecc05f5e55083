"""A numpy stand-in whose arrays may hold symbolic scalars (sym.Sym / SymBool).

SymArr is a real numpy object array (so views, strides, slicing, reshape, fancy
indexing and aliasing are numpy's own); only element arithmetic, casts and the
data-dependent functions are modelled here.
"""
import builtins
import math
from fractions import Fraction

import numpy as rnp
import z3

from . import sym, poly
from .sym import (Sym, SymBool, Unsupported, ctx, floor, ceil, trunc, rint, ite, smax, smin, lift, mk, mkbool,
                  tobool, toreal, isint, frac)


# ------------------------------------------------------------------ dtypes
class DT:
    """np.float32 etc.: usable as a dtype and as a conversion function."""

    def __init__(self, t):
        self.t = t
        self.dtype = rnp.dtype(t)
        self.__name__ = t.__name__

    def __call__(self, x=0, *a, **k):
        if isinstance(x, rnp.ndarray) and x.ndim > 0:
            return array(x, dtype=self)
        if isinstance(x, rnp.ndarray):
            x = x.item()
        if isinstance(x, (Sym, SymBool)):
            return cast(x, self.dtype)
        if isinstance(x, (list, tuple)):
            return array(x, dtype=self)
        if isinstance(x, Fraction):
            x = float(x)
        v = self.t(x)
        if self.dtype.kind == "f":
            return float(x) if not isinstance(x, str) else float(v)
        return v

    def __eq__(self, o):
        if isinstance(o, DT):
            return self.t is o.t
        return self.t is o

    def __hash__(self):
        return hash(self.t)

    def __instancecheck__(self, x):
        return isinstance(x, self.t)

    def __repr__(self):
        return "DT(%s)" % self.__name__


_DTS = {n: DT(getattr(rnp, n)) for n in
        ("float16", "float32", "float64", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
         "bool_", "longdouble", "intp", "uintp", "longlong", "ulonglong")}
_DTS["double"] = _DTS["float64"]
_DTS["single"] = _DTS["float32"]


def np_dtype(d):
    if d is None:
        return None
    if isinstance(d, DT):
        return d.dtype
    if isinstance(d, rnp.dtype):
        return d
    if isinstance(d, (list, tuple)) and d and isinstance(d, list):
        return rnp.dtype([tuple([f[0], np_dtype(f[1])] + list(f[2:])) for f in d])
    if callable(getattr(d, "_as_dtype", None)):
        return rnp.dtype(d._as_dtype())
    if isinstance(d, type) and issubclass(d, Sym):
        return rnp.dtype(float)
    return rnp.dtype(d)


def objdtype(dt):
    """same structure, object leaves"""
    if dt.names is None:
        if dt.subdtype is not None:
            return rnp.dtype((object, dt.shape))
        return rnp.dtype(object)
    out = []
    for n in dt.names:
        f = dt.fields[n][0]
        if f.subdtype is not None:
            out.append((n, object, f.shape))
        elif f.names is not None:
            out.append((n, objdtype(f)))
        else:
            out.append((n, object))
    return rnp.dtype(out)


def zero_of(dt):
    k = dt.kind
    return {"f": 0.0, "i": 0, "u": 0, "b": False, "S": b"", "U": "", "O": None}.get(k, 0)


# ------------------------------------------------------------------ casts
def cast(x, dt):
    """model of a C cast of one scalar into dtype dt"""
    if dt is None:
        return x
    k = dt.kind
    if k == "f":
        if isinstance(x, SymBool):
            return ite(x, 1.0, 0.0)
        if isinstance(x, Sym):
            return Sym(toreal(x.e)) if isint(x.e) else x
        if isinstance(x, (bool, rnp.bool_)):
            return float(x)
        if isinstance(x, Fraction):
            return x
        if isinstance(x, (int, rnp.integer)):
            return float(x) if abs(int(x)) < 2 ** 53 else int(x)
        return float(x)
    if k in "iu":
        if isinstance(x, SymBool):
            return x._n()
        if isinstance(x, Sym):
            r = trunc(x)
        elif isinstance(x, (float, rnp.floating)) and (math.isnan(x) or math.isinf(x)):
            r = 0
        else:
            r = int(x)
        if dt.itemsize <= 4:
            n = 1 << (8 * dt.itemsize)
            if isinstance(r, Sym):
                # wrap-around only if it can happen
                lo, hi = (0, n - 1) if k == "u" else (-(n // 2), n // 2 - 1)
                out = z3.Or(r.e < lo, r.e > hi)
                if WRAP and sym._check(ctx().solver, out) != z3.unsat:
                    if k == "u":
                        return mk(r.e % n)
                    return mk((r.e + n // 2) % n - n // 2)
                return r
            return int(rnp.array(r).astype(dt)) if not (-(1 << 63) <= r < (1 << 63)) else \
                int(rnp.array(r, dtype=rnp.int64).astype(dt))
        if k == "u" and not isinstance(r, Sym) and r < 0:
            return int(r) + (1 << 64)
        return r
    if k == "b":
        if isinstance(x, SymBool):
            return x
        if isinstance(x, Sym):
            return x != 0
        return bool(x)
    return x


WRAP = True
_vcast_cache = {}


def vcast(a, dt):
    if dt.names is not None:
        return a
    f = rnp.frompyfunc(lambda x: cast(x, dt), 1, 1)
    r = f(a)
    return r if isinstance(r, rnp.ndarray) else rnp.array(r, dtype=object)


def plain(x):
    """SymArr -> base-class object ndarray sharing memory"""
    if isinstance(x, SymArr):
        return x.view(rnp.ndarray)
    return x


def to_object(a):
    if a.dtype == object:
        return a
    if a.dtype.names is not None:
        out = rnp.empty(a.shape, dtype=objdtype(a.dtype))
        for n in a.dtype.names:
            out[n] = a[n].astype(object)
        return out
    return a.astype(object)


def wrap(x, sdt=None):
    if isinstance(x, SymArr):
        if sdt is not None and x._sdt is not sdt:
            x = x.view(SymArr)
            x._sdt = sdt
        return x
    if isinstance(x, rnp.ndarray):
        d = sdt if sdt is not None else (x.dtype if x.dtype != object else None)
        r = to_object(x).view(SymArr)
        r._sdt = d
        return r
    return x


def elem_kind(x):
    if isinstance(x, (SymBool, bool, rnp.bool_)):
        return "b"
    if isinstance(x, Sym):
        return "i" if isint(x.e) else "f"
    if isinstance(x, (int, rnp.integer)):
        return "i"
    if isinstance(x, (float, rnp.floating, Fraction)):
        return "f"
    if isinstance(x, (str, bytes)):
        return "U"
    return "O"


def infer(a):
    ks = set(elem_kind(x) for x in plain(a).reshape(-1)) if a.size else {"f"}
    if "O" in ks:
        return rnp.dtype(object)
    if "U" in ks:
        return rnp.dtype("U")
    if "f" in ks:
        return rnp.dtype(float)
    if "i" in ks:
        return rnp.dtype(int)
    return rnp.dtype(bool)


def is_symbolic(a):
    if isinstance(a, (Sym, SymBool)):
        return True
    if isinstance(a, rnp.ndarray) and plain(a).dtype == object:
        return any(isinstance(x, (Sym, SymBool)) for x in plain(a).reshape(-1))
    if isinstance(a, rnp.ndarray) and a.dtype.names is not None:
        return any(is_symbolic(a[n]) for n in a.dtype.names)
    if isinstance(a, (list, tuple)):
        return any(is_symbolic(x) for x in a)
    return False


def concrete(a):
    """SymArr without symbols -> typed real ndarray"""
    if isinstance(a, SymArr):
        d = a._sdt
        if d is None or d == object:
            d = infer(a)
        if d.names is not None:
            out = rnp.zeros(a.shape, dtype=d)
            for n in d.names:
                out[n] = plain(a)[n].astype(d[n].base)
            return out
        if d.kind in "iub" and infer(a).kind == "f":
            d = rnp.dtype(float)
        return plain(a).astype(d) if d.kind != "O" else plain(a)
    if isinstance(a, (list, tuple)):
        t = [concrete(x) for x in a]
        return type(a)(t) if type(a) in (list, tuple) else a
    if isinstance(a, Fraction):
        return float(a)
    if isinstance(a, DT):
        return a.t
    return a


# ------------------------------------------------------------------ index keys
def _keyelem(k):
    if isinstance(k, SymArr):
        d = k._sdt
        kind = d.kind if d is not None and d != object else infer(k).kind
        if k.size == 0:
            kk = "b" if kind == "b" else "i"
        else:
            kk = infer(k).kind
            if kind == "b":
                kk = "b"
        if kk == "b":
            out = rnp.empty(k.shape, dtype=bool)
            for i in rnp.ndindex(*k.shape):
                out[i] = bool(plain(k)[i])
            return out
        if kk == "f":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        out = rnp.empty(k.shape, dtype=rnp.intp)
        for i in rnp.ndindex(*k.shape):
            out[i] = plain(k)[i].__index__() if isinstance(plain(k)[i], Sym) else int(plain(k)[i])
        return out
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, rnp.ndarray) and k.dtype == object:
        return _keyelem(wrap(k))
    if isinstance(k, list):
        return _keyelem(wrap(array(k))) if len(k) else k
    if isinstance(k, tuple):                     # numpy reads a tuple inside an index tuple as an array
        return _keyelem(wrap(array(list(k)))) if len(k) else k
    if isinstance(k, slice):
        f = lambda v: None if v is None else (v.__index__() if isinstance(v, Sym) else int(v) if isinstance(v, rnp.integer) else v)
        return slice(f(k.start), f(k.stop), f(k.step))
    return k


def _key(k):
    if isinstance(k, tuple):
        return tuple(_keyelem(x) for x in k)
    return _keyelem(k)


# ------------------------------------------------------------------ scalar functions
_UFS = {}


def uf(name, *args):
    """scalar function as an uninterpreted function (sym.UFMODE)"""
    n = len(args)
    if (name, n) not in _UFS:
        _UFS[(name, n)] = z3.Function("uf_%s_%d" % (name, n), *([z3.RealSort()] * (n + 1)))
    return Sym(_UFS[(name, n)](*[z3.simplify(toreal(lift(a))) for a in args]))


def _ufwrap(name):
    def deco(f):
        def g(*a):
            if sym.UFMODE and any(isinstance(x, Sym) for x in a):
                return uf(name, *a)
            return f(*a)
        g.__name__ = f.__name__
        return g
    return deco


def s_abs(x):
    return abs(x)


@_ufwrap("sqrt")
def s_sqrt(x):
    if not isinstance(x, Sym):
        if isinstance(x, SymBool):
            return x
        f = frac(x) if not (isinstance(x, float) and (math.isinf(x) or math.isnan(x))) else None
        if f is None:
            return math.sqrt(x) if x == x and x > 0 else float("nan")
        if f < 0:
            return float("nan")
        p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if p * p == f.numerator and q * q == f.denominator:
            return float(Fraction(p, q)) if Fraction(repr(p / q)) == Fraction(p, q) else sym.fnum(Fraction(p, q))
        if EXACT_SQRT and sym.CTX is not None and f.denominator < 100000 and f.numerator < 10 ** 9:
            # p*sqrt(k): factor out squares
            return _sqrt_expr(z3.Q(f.numerator, f.denominator))
        return math.sqrt(x)
    e = z3.simplify(x.e) if z3.is_int(x.e) else x.e
    e = toreal(e)
    neg = z3.simplify(e < 0)
    if not z3.is_false(neg):
        if not sos(e) and ctx().branch(e < 0):
            return float("nan")
    return _sqrt_expr(e)


def sos(e):
    """syntactically a sum of squares?"""
    e = z3.simplify(e)
    def term(t):
        if z3.is_rational_value(t):
            return t.numerator_as_long() >= 0
        if z3.is_mul(t):
            ch = t.children()
            if z3.is_rational_value(ch[0]):
                if ch[0].numerator_as_long() < 0:
                    return False
                ch = ch[1:]
            ids = sorted(c.get_id() for c in ch)
            return len(ids) % 2 == 0 and all(ids[i] == ids[i + 1] for i in range(0, len(ids), 2))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_POWER:
            n = t.arg(1)
            return z3.is_rational_value(n) and n.numerator_as_long() % 2 == 0 or z3.is_int_value(n) and n.as_long() % 2 == 0
        return False
    return all(term(t) for t in (e.children() if z3.is_add(e) else [e]))


EXACT_SQRT = True


def canon(e):
    return z3.simplify(e, som=True, sort_sums=True, hoist_mul=False, mul_to_power=True)


def _sqrt_expr(e):
    c = ctx()
    if z3.is_mul(e) and e.num_args() == 2 and not any(sym._const(q) for q in e.children()) and \
            all(sos(q) for q in e.children()):
        return _sqrt_expr(e.arg(0)) * _sqrt_expr(e.arg(1))
    try:
        v = poly.const_value(e, c.rules)
    except poly.TooBig:
        v = None
    if v is not None and not z3.is_rational_value(e):
        return s_sqrt(sym.fnum(v)) if v >= 0 else float("nan")
    key = ("sqrt", canon(e).sexpr())
    if key in c.memo:
        return c.memo[key]
    s = z3.Real(c.fresh("sqrt"))
    c.add(s >= 0)
    c.add(s * s == e)
    try:
        c.rules[poly.key(s)] = poly.of(e, c.rules)
    except poly.TooBig:
        pass
    if z3.is_rational_value(e):
        f = math.sqrt(e.numerator_as_long() / e.denominator_as_long())
        c.add(s > z3.RealVal(Fraction(repr(f * (1 - 1e-12)))))
        c.add(s < z3.RealVal(Fraction(repr(f * (1 + 1e-12)))))
    r = Sym(s)
    c.memo[key] = r
    return r


def s_pow(x, n):
    raise Unsupported("pow %s" % n)


# ---- angles: value = D * unit, (cos unit, sin unit) symbols
def angle(name, D=2, rng=None):
    """fresh angle with base unit angle/D; cos/sin of multiples of the unit expand exactly."""
    c = ctx()
    t = z3.Real(name)
    cu, su = z3.Real("c_" + name), z3.Real("s_" + name)
    if name not in c.angles:
        c.angles[name] = (D, cu, su)
        c.add(cu * cu + su * su == 1)
        c.rules[poly.key(cu)] = poly.of(1 - su * su)
    return Sym(t)


def _lin(e):
    """z3 real expr -> {var name or '': Fraction}; PI under key 'pi'. None when not linear."""
    e = z3.simplify(e, som=True)
    out = {}

    def addterm(t, k):
        if z3.is_rational_value(t):
            out[""] = out.get("", Fraction(0)) + k * Fraction(t.numerator_as_long(), t.denominator_as_long())
            return True
        if z3.is_app(t) and t.num_args() == 0:
            n = t.decl().name()
            out[n] = out.get(n, Fraction(0)) + k
            return True
        if z3.is_mul(t):
            ch = t.children()
            if len(ch) == 2 and z3.is_rational_value(ch[0]):
                return addterm(ch[1], k * Fraction(ch[0].numerator_as_long(), ch[0].denominator_as_long()))
            # (1/pi)*pi*x patterns
            coef = Fraction(1)
            rest = []
            npi = 0
            for q in ch:
                if z3.is_rational_value(q):
                    coef *= Fraction(q.numerator_as_long(), q.denominator_as_long())
                elif q.eq(sym.PI):
                    npi += 1
                elif z3.is_div(q) and z3.is_rational_value(q.arg(0)) and q.arg(1).eq(sym.PI):
                    coef *= Fraction(q.arg(0).numerator_as_long(), q.arg(0).denominator_as_long())
                    npi -= 1
                else:
                    rest.append(q)
            if len(rest) == 1 and npi == 0:
                return addterm(rest[0], k * coef)
            if len(rest) == 0 and npi == 1:
                return addterm(sym.PI, k * coef)
            return False
        if z3.is_add(t):
            return all(addterm(q, k) for q in t.children())
        if z3.is_sub(t):
            ch = t.children()
            return addterm(ch[0], k) and all(addterm(q, -k) for q in ch[1:])
        if t.decl().kind() == z3.Z3_OP_UMINUS:
            return addterm(t.arg(0), -k)
        if z3.is_to_real(t):
            return False
        return False

    if not addterm(e, Fraction(1)):
        return None
    return {k: v for k, v in out.items() if v != 0}


def _cs_mult(cu, su, n):
    """(cos, sin)(n*u) as polynomials"""
    if n == 0:
        return z3.RealVal(1), z3.RealVal(0)
    if n < 0:
        c, s = _cs_mult(cu, su, -n)
        return c, -s
    c, s = cu, su
    for _ in range(n - 1):
        c, s = c * cu - s * su, s * cu + c * su
    return c, s


def _cs_pi(q):
    """(cos, sin)(q*pi) for rational q, exactly"""
    q = q % 2
    # use multiples of pi/12 at most
    r2 = lambda: lift(s_sqrt(2.0))
    r3 = lambda: lift(s_sqrt(3.0))
    H = z3.Q(1, 2)
    Z, O = z3.RealVal(0), z3.RealVal(1)
    def first(q):
        if q == 0:
            return O, Z
        if q == Fraction(1, 6):
            return r3() * H, H
        if q == Fraction(1, 4):
            return r2() * H, r2() * H
        if q == Fraction(1, 3):
            return H, r3() * H
        if q == Fraction(1, 2):
            return Z, O
        return None
    k = int(q // Fraction(1, 2))
    b = first(q - k * Fraction(1, 2))
    if b is None:
        v = math.cos(float(q) * math.pi), math.sin(float(q) * math.pi)
        raise Unsupported("cos of %s pi" % q)
    c, s = b
    for _ in range(k):
        c, s = -s, c
    return c, s


def s_cossin(x):
    if not isinstance(x, Sym):
        if isinstance(x, (float, rnp.floating)) and (math.isinf(x) or math.isnan(x)):
            return float("nan"), float("nan")
        if sym.CTX is None:
            return math.cos(x), math.sin(x)
        q = Fraction(x / math.pi).limit_denominator(12)
        if abs(float(q) * math.pi - x) < 1e-14 and q.denominator in (1, 2, 3, 4, 6):
            c, s = _cs_pi(q)
            return mk(z3.simplify(c)), mk(z3.simplify(s))
        return math.cos(x), math.sin(x)
    e = toreal(x.e)
    e = z3.simplify(e)
    cx = ctx()
    key = ("cs", e.sexpr())
    if key in cx.memo:
        return cx.memo[key]
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        a, b = s_cossin(mk(e.arg(1))), s_cossin(mk(e.arg(2)))
        c = SymBool(e.arg(0))
        r = ite(c, a[0], b[0]), ite(c, a[1], b[1])
        cx.memo[key] = r
        return r
    lin = _lin(e)
    if lin is None:
        try:
            lin = _lin(poly.expr(poly.of(e)))        # cancels pi/pi
        except poly.TooBig:
            pass
    if lin is not None and "" not in lin:
        ok = True
        cc, ss = z3.RealVal(1), z3.RealVal(0)
        for n, k in sorted(lin.items()):
            if n == "pi":
                if k.denominator not in (1, 2, 3, 4, 6):
                    ok = False
                    break
                c1, s1 = _cs_pi(k)
            elif n in cx.angles:
                D, cu, su = cx.angles[n][:3]
                m = k * D
                if m.denominator == 2 and len(cx.angles[n]) > 3:
                    D, cu, su = _half(n)
                    m = k * D
                if m.denominator != 1 or abs(m) > 12:
                    ok = False
                    break
                c1, s1 = _cs_mult(cu, su, int(m))
            else:
                ok = False
                break
            cc, ss = cc * c1 - ss * s1, ss * c1 + cc * s1
        if ok:
            r = mk(z3.simplify(cc)), mk(z3.simplify(ss))
            cx.memo[key] = r
            return r
    c, s = z3.Real(cx.fresh("cos")), z3.Real(cx.fresh("sin"))
    cx.add(c * c + s * s == 1)
    cx.notes.append("uninterpreted cos/sin(%s)" % e)
    r = Sym(c), Sym(s)
    cx.memo[key] = r
    return r


@_ufwrap("cos")
def s_cos(x):
    return s_cossin(x)[0]


@_ufwrap("sin")
def s_sin(x):
    return s_cossin(x)[1]


@_ufwrap("tan")
def s_tan(x):
    c, s = s_cossin(x)
    return s_div(s, c)


def _new_angle(tag, cu, su):
    """angle in (-pi, pi] whose cosine/sine are the given terms"""
    c = ctx()
    n = c.fresh(tag)
    c.angles[n] = (1, toreal(lift(cu)), toreal(lift(su)), True)
    return Sym(z3.Real(n))


def _half(n):
    """half-angle units of an inverse-trigonometric angle, created on demand"""
    c = ctx()
    if ("half", n) in c.memo:
        return c.memo[("half", n)]
    D, cu, su = c.angles[n][:3]
    ch, sh = z3.Real(c.fresh("ch")), z3.Real(c.fresh("sh"))
    c.add(ch * ch + sh * sh == 1)
    c.add(ch * ch - sh * sh == cu)
    c.add(2 * ch * sh == su)
    c.add(z3.And(ch >= 0, z3.Implies(ch == 0, sh == 1)))
    try:
        c.rules[poly.key(ch)] = poly.of((1 + cu) / 2, c.rules)
        c.rules[poly.key(sh)] = poly.of((1 - cu) / 2, c.rules)
    except poly.TooBig:
        pass
    c.memo[("half", n)] = (2, ch, sh)
    return c.memo[("half", n)]


def _pi():
    c = ctx()
    if "pi_ax" not in c.memo:
        c.memo["pi_ax"] = True
        for a in sym.PI_AX:
            c.add(a)
    return sym.PI


@_ufwrap("arctan2")
def s_arctan2(y, x):
    if not isinstance(y, Sym) and not isinstance(x, Sym):
        r = math.atan2(y, x)
        return r
    c = ctx()
    ye, xe = toreal(lift(y)), toreal(lift(x))
    key = ("atan2", canon(ye).sexpr(), canon(xe).sexpr())
    if key in c.memo:
        return c.memo[key]
    pi = _pi()
    r = lift(s_sqrt(mk(xe * xe + ye * ye)))
    if ctx().branch(z3.And(xe == 0, ye == 0)):
        return 0.0
    if isint(r):
        r = toreal(r)
    one = z3.is_rational_value(r) and r.numerator_as_long() == 1 and r.denominator_as_long() == 1
    a = _new_angle("atan2", xe if one else xe / r, ye if one else ye / r)
    t = a.e
    c.add(z3.And(t > -pi, t <= pi))
    c.add((t > 0) == z3.Or(ye > 0, z3.And(ye == 0, xe < 0)))
    c.add((t == 0) == z3.And(ye == 0, xe > 0))
    c.add((t == pi) == z3.And(ye == 0, xe < 0))
    c.add(z3.And(z3.Implies(ye >= 0, (t < pi / 2) == (xe > 0)), z3.Implies(ye < 0, (t > -pi / 2) == (xe > 0))))
    c.add(z3.Implies(ye >= 0, z3.And(r * t >= ye, r * (pi - t) >= ye)))      # sin x <= x
    c.add(z3.Implies(ye <= 0, z3.And(r * t <= ye, r * (pi + t) >= -ye)))
    c.add((t == pi / 2) == z3.And(xe == 0, ye > 0))
    c.add((t == -pi / 2) == z3.And(xe == 0, ye < 0))
    c.memo[key] = a
    return a


@_ufwrap("arctan")
def s_arctan(x):
    return s_arctan2(x, 1.0)


@_ufwrap("arccos")
def s_arccos(x):
    if not isinstance(x, Sym):
        return math.acos(x) if -1 <= x <= 1 else float("nan")
    c = ctx()
    e = toreal(x.e)
    key = ("acos", canon(e).sexpr())
    if key in c.memo:
        return c.memo[key]
    if ctx().branch(z3.Or(e > 1, e < -1)):
        return float("nan")
    pi = _pi()
    sn = s_sqrt(mk(1 - e * e)) if z3.is_rational_value(e) else _sqrt_expr(1 - e * e)
    a = _new_angle("acos", e, sn)
    t = a.e
    c.add(z3.And(t >= 0, t <= pi, (t == 0) == (e == 1), (t == pi) == (e == -1), (t < pi / 2) == (e > 0),
                 (t == pi / 2) == (e == 0)))
    c.add(z3.And(t >= Sym_e(sn), pi - t >= Sym_e(sn)))
    # monotone w.r.t. other arccos values
    for (k, o) in list(c.memo.items()):
        if isinstance(k, tuple) and k[0] == "acosv":
            oe = k[2]
            c.add(z3.And((e < oe) == (t > o.e), (e == oe) == (t == o.e)))
    c.memo[key] = a
    c.memo[("acosv", key[1], e)] = a
    return a


def Sym_e(x):
    return toreal(lift(x))


@_ufwrap("arcsin")
def s_arcsin(x):
    if not isinstance(x, Sym):
        return math.asin(x) if -1 <= x <= 1 else float("nan")
    r = s_arccos(x)
    if isinstance(r, float):
        return r
    return Sym(_pi() / 2) - r


EXP_SIMPLE = False      # exp is any positive function


@_ufwrap("exp")
def s_exp(x):
    if not isinstance(x, Sym):
        return math.exp(x)
    c = ctx()
    e = toreal(x.e)
    e = z3.simplify(e)
    try:
        key = ("exp", poly.canon(e).sexpr())
    except poly.TooBig:
        key = ("exp", e.sexpr())
    if key in c.memo:
        return c.memo[key]
    r = z3.Real(c.fresh("exp"))
    c.add(r > 0)
    if not EXP_SIMPLE:
        c.add(z3.And((e == 0) == (r == 1), (e < 0) == (r < 1), r >= 1 + e))
    for (k, o) in list(c.memo.items()) if not EXP_SIMPLE else ():
        if isinstance(k, tuple) and k[0] == "expv":
            c.add(z3.And((e < k[2]) == (r < o.e), (e == k[2]) == (r == o.e)))
    v = Sym(r)
    c.memo[key] = v
    c.memo[("expv", key[1], e)] = v
    return v


@_ufwrap("log")
def s_log(x):
    if not isinstance(x, Sym):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
    raise Unsupported("log")


def s_sign(x):
    if isinstance(x, Sym):
        return ite(x > 0, 1, ite(x < 0, -1, 0)) if isint(x.e) else ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0))
    return (x > 0) - (x < 0)


def s_isnan(x):
    if isinstance(x, (Sym, SymBool)):
        return False
    return isinstance(x, (float, rnp.floating)) and math.isnan(x)


def s_isfinite(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    return math.isfinite(x)


def s_div(a, b):
    if sym.UFMODE and isinstance(b, Sym):
        return uf("div", a, b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        if not isinstance(b, Sym) and not (isinstance(b, SymBool)) and b == 0:
            if isinstance(a, Sym):
                if ctx().branch(a.e > 0):
                    return math.inf
                if ctx().branch(a.e < 0):
                    return -math.inf
                return math.nan
        if isinstance(b, Sym) and sym.DIVZERO:
            if ctx().branch(b.e == 0):
                return s_div(a, 0)
        return a / b
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return a / b
    if b == 0:
        if a != a or a == 0:
            return math.nan
        return math.inf if a > 0 else -math.inf
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        f = Fraction(a) / Fraction(b)
        return sym.fnum(f) if sym.CTX is not None else float(f)
    return a / b




def _mod_pi(a, b, trunc_):
    """a mod b for b a rational multiple of pi (None otherwise): fork over the integer quotient"""
    bl, ae = toreal(lift(b)), toreal(lift(a))
    lin = _lin(bl)
    if lin is None or set(lin) - {"pi", ""} or not lin:
        return None
    _pi()
    bf = float(lin.get("pi", 0)) * math.pi + float(lin.get("", 0))

    def value_of(m):
        xa, xb = m.eval(ae, model_completion=True), m.eval(bl, model_completion=True)
        if z3.is_rational_value(xa) and z3.is_rational_value(xb):
            q = xa.as_fraction() / xb.as_fraction()        # exact: boundary values must not be rounded
        else:
            q = sym.model_value(m, Sym(ae)) / bf
        return int(q) if trunc_ else math.floor(q)

    def cond_of(k):
        lo, hi = z3.simplify(k * bl), z3.simplify((k + 1) * bl)
        if not trunc_ or k > 0:
            return z3.And(ae >= lo, ae < hi)
        if k == 0:
            return z3.And(ae > -bl, ae < bl)
        return z3.And(ae <= lo, ae > z3.simplify((k - 1) * bl))
    k = ctx().pick(value_of, cond_of, ae, "quotient by pi")
    return mk(z3.simplify(ae - k * bl))


@_ufwrap("fmod")
def s_fmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        r = _mod_pi(a, b, True)
        if r is not None:
            return r
        q = trunc(s_div(a, b)) if not (isinstance(a, Sym) and isint(a.e)) else None
        if q is None:
            raise Unsupported("fmod of symbolic integers")
        return a - b * q
    r = math.fmod(a, b)
    k = b / math.pi
    if isinstance(a, float) and b and abs(k - round(k)) < 1e-12 and k:      # exact semantics: n*pi mod m*pi
        n = a / math.pi
        if abs(n - round(n)) < 1e-12 * max(1.0, abs(n)):
            return math.fmod(round(n), round(k)) * math.pi
    return r


@_ufwrap("mod")
def s_mod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if not (isint(lift(a)) and isint(lift(b))):
            r = _mod_pi(a, b, False)
            if r is not None:
                return r
        return a % b
    if b == 0:
        return math.nan if isinstance(a, float) or isinstance(b, float) else 0
    return a % b


def s_fdiv(a, b):
    if not isinstance(b, (Sym, SymBool)) and b == 0 and not isinstance(a, Sym):
        return 0 if isinstance(a, int) and isinstance(b, int) else math.nan
    return a // b


def _and(a, b):
    if isinstance(a, (SymBool,)) or isinstance(b, (SymBool,)) or isinstance(a, Sym) or isinstance(b, Sym):
        return mkbool(z3.And(tobool(a), tobool(b)))
    return bool(a) and bool(b)


def _or(a, b):
    if isinstance(a, (SymBool,)) or isinstance(b, (SymBool,)) or isinstance(a, Sym) or isinstance(b, Sym):
        return mkbool(z3.Or(tobool(a), tobool(b)))
    return bool(a) or bool(b)


def _not(a):
    if isinstance(a, (Sym, SymBool)):
        return mkbool(z3.Not(tobool(a)))
    return not a


def _band(a, b):
    if isinstance(a, (SymBool, bool, rnp.bool_)) and isinstance(b, (SymBool, bool, rnp.bool_)):
        return _and(a, b)
    return a & b


def _bor(a, b):
    if isinstance(a, (SymBool, bool, rnp.bool_)) and isinstance(b, (SymBool, bool, rnp.bool_)):
        return _or(a, b)
    return a | b


def _inv(a):
    if isinstance(a, (SymBool, bool, rnp.bool_)):
        return _not(a)
    return ~a


def _pow(a, n):
    if isinstance(n, (Sym, rnp.ndarray)):
        return a ** n
    if isinstance(a, Sym):
        return a ** n
    if frac(n) == Fraction(1, 2):
        return s_sqrt(a)
    return a ** n


def s_hypot(a, b):
    return s_sqrt(a * a + b * b)


def s_sub(a, b):
    if isinstance(a, (bool, rnp.bool_)) and isinstance(b, (bool, rnp.bool_)):
        raise TypeError("numpy boolean subtract")
    return a - b


def s_rint(x):
    if isinstance(x, Sym):
        r = rint(x)
        return Sym(toreal(r.e)) if isinstance(r, Sym) else float(r)
    if isinstance(x, float) and not math.isfinite(x):
        return x
    return float(round(x)) if not isinstance(x, int) else x


def _ffloor(f):
    def g(x):
        if isinstance(x, Sym):
            r = f(x)
            return cast(r, rnp.dtype(float))
        if isinstance(x, int):
            return x
        if not math.isfinite(x):
            return x
        return float(f(x))
    return g


def eq(a, b):
    if isinstance(b, (Sym, SymBool)) and not isinstance(a, (Sym, SymBool)):
        return b == a
    return a == b


UF = {
    "add": (lambda a, b: a + b), "subtract": s_sub, "multiply": (lambda a, b: a * b),
    "divide": s_div, "true_divide": s_div, "floor_divide": s_fdiv, "remainder": s_mod, "mod": s_mod, "fmod": s_fmod,
    "negative": (lambda a: -a), "positive": (lambda a: a), "absolute": abs, "fabs": abs,
    "power": _pow, "float_power": _pow, "square": (lambda a: a * a), "sqrt": s_sqrt,
    "cos": s_cos, "sin": s_sin, "tan": s_tan, "arccos": s_arccos, "arcsin": s_arcsin, "arctan": s_arctan,
    "arctan2": s_arctan2, "exp": s_exp, "log": s_log, "sign": s_sign, "hypot": s_hypot,
    "floor": _ffloor(floor), "ceil": _ffloor(ceil), "trunc": _ffloor(trunc), "rint": s_rint,
    "maximum": smax, "minimum": smin, "fmax": smax, "fmin": smin,
    "less": (lambda a, b: a < b), "less_equal": (lambda a, b: a <= b), "greater": (lambda a, b: a > b),
    "greater_equal": (lambda a, b: a >= b), "equal": eq, "not_equal": (lambda a, b: _not(eq(a, b))),
    "logical_and": _and, "logical_or": _or, "logical_not": _not,
    "logical_xor": (lambda a, b: mkbool(z3.Xor(tobool(a), tobool(b)))),
    "bitwise_and": _band, "bitwise_or": _bor, "invert": _inv, "bitwise_xor": (lambda a, b: a ^ b),
    "left_shift": (lambda a, b: a << b), "right_shift": (lambda a, b: a >> b),
    "isnan": s_isnan, "isfinite": s_isfinite, "isinf": (lambda x: not isinstance(x, (Sym, SymBool)) and math.isinf(x)),
    "conjugate": (lambda a: a), "reciprocal": (lambda a: s_div(1.0, a)),
    "deg2rad": (lambda a: a * lift_pi() / 180.0), "radians": (lambda a: a * lift_pi() / 180.0),
    "rad2deg": (lambda a: a * 180.0 / lift_pi()), "degrees": (lambda a: a * 180.0 / lift_pi()),
}
BOOLU = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
         "logical_not", "logical_xor", "isnan", "isfinite", "isinf"}
FLOATU = {"divide", "true_divide", "sqrt", "cos", "sin", "tan", "arccos", "arcsin", "arctan", "arctan2", "exp", "log",
          "hypot"}
IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def lift_pi():
    _pi()
    return Sym(sym.PI)


def _py(x):
    """numpy scalar -> python scalar"""
    if isinstance(x, (rnp.floating, rnp.integer, rnp.bool_)):
        return x.item()
    return x


_pyufunc = {}


def pyfunc(name):
    if name not in _pyufunc:
        f = UF[name]
        nin = getattr(rnp, name).nin if hasattr(rnp, name) else 2
        if nin == 1:
            g = lambda a: f(_py(a))
        else:
            g = lambda a, b: f(_py(a), _py(b))
        _pyufunc[name] = rnp.frompyfunc(g, nin, 1)
    return _pyufunc[name]


def _objin(x):
    if isinstance(x, SymArr):
        return x.view(rnp.ndarray)
    if isinstance(x, rnp.ndarray):
        return x.astype(object) if x.dtype != object else x
    if isinstance(x, (list, tuple)):
        return plain(array(x))
    return x


def _declared(x):
    if isinstance(x, SymArr):
        return x._sdt if x._sdt is not None and x._sdt != object else infer(x)
    if isinstance(x, rnp.ndarray):
        return x.dtype
    return None


def _result_sdt(name, inputs, r):
    if name in BOOLU:
        return rnp.dtype(bool)
    ds = [d for d in (_declared(x) for x in inputs) if d is not None and d.names is None]
    sc = [elem_kind(x) for x in inputs if not isinstance(x, rnp.ndarray)]
    if not ds:
        return None
    try:
        d = rnp.result_type(*ds)
    except TypeError:
        return None
    if "f" in sc and d.kind in "iub":
        d = rnp.dtype(float)
    if "i" in sc and d.kind == "b":
        d = rnp.dtype(int)
    if name in FLOATU and d.kind in "iub":
        d = rnp.dtype(float)
    return d


class SymArr(rnp.ndarray):
    _sdt = None

    def __array_finalize__(self, obj):
        if obj is not None:
            self._sdt = getattr(obj, "_sdt", None)

    @property
    def dtype(self):
        if self._sdt is not None and self._sdt != object:
            return self._sdt
        return infer(self)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize * self.size

    def _inplace(op):
        def f(self, o):
            if isinstance(o, (Sym, SymBool)):        # ndarray's own in-place operators refuse scalar objects
                b = rnp.empty((), dtype=object)
                b[()] = o
                o = b.view(SymArr)
            elif isinstance(o, (type, DT)) and op in ("__eq__", "__ne__"):
                return wrap(rnp.full(self.shape, op == "__ne__"))
            return getattr(rnp.ndarray, op)(self, o)
        return f
    for _op in ("__iadd__", "__isub__", "__imul__", "__itruediv__", "__add__", "__sub__", "__mul__", "__truediv__",
                "__floordiv__", "__mod__", "__pow__", "__radd__", "__rsub__", "__rmul__", "__rtruediv__", "__rfloordiv__",
                "__rmod__", "__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__", "__and__", "__or__", "__rand__",
                "__ror__"):
        locals()[_op] = _inplace(_op)
    del _inplace, _op

    # ---------------------------------------------------------------- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        if any(getattr(x, "_is_farr", False) for x in inputs):
            return NotImplemented
        if name == "matmul":
            r = rnp.matmul(*[_objin(x) for x in inputs])
            res = wrap(r) if isinstance(r, rnp.ndarray) else r
        elif method == "__call__":
            if name not in UF:
                raise Unsupported("ufunc %s" % name)
            where = kw.pop("where", True)
            ins = [_objin(x) for x in inputs]
            r = pyfunc(name)(*ins)
            sdt = _result_sdt(name, inputs, r)
            dt = kw.pop("dtype", None)
            if dt is not None:
                sdt = np_dtype(dt)
            kw.pop("casting", None)
            if kw:
                raise Unsupported("ufunc keyword %s" % list(kw))
            if isinstance(r, rnp.ndarray):
                if dt is not None:
                    r = vcast(r, sdt)
                res = r.view(SymArr)
                res._sdt = sdt
            else:
                res = r
            if where is not True:
                if out is None:
                    raise Unsupported("where= without out")
                o = out[0]
                o[...] = where3(where, res, o)
                return o
        elif method == "reduce":
            res = reduce_(name, inputs[0], **{k: v for k, v in kw.items()})
        elif method == "accumulate":
            a = _objin(inputs[0])
            res = wrap(pyfunc(name).accumulate(a, axis=kw.get("axis", 0)))
        elif method == "outer":
            res = wrap(pyfunc(name).outer(_objin(inputs[0]), _objin(inputs[1])))
        elif method == "at":
            a, idx = inputs[0], _key(inputs[1])
            b = _objin(inputs[2]) if len(inputs) > 2 else None
            pyfunc(name).at(plain(a), idx, *([b] if b is not None else []))
            return None
        else:
            raise Unsupported("ufunc method %s.%s" % (name, method))
        if out is not None:
            o = out[0]
            if isinstance(o, SymArr):
                o[...] = res
                return o
            raise Unsupported("ufunc out= into a non-symbolic array")
        return res

    # ---------------------------------------------------------------- indexing
    def __getitem__(self, k):
        if isinstance(k, str) or (isinstance(k, list) and k and isinstance(k[0], str)):
            r = rnp.ndarray.__getitem__(self, k)
            d = self._sdt
            if isinstance(r, SymArr) and d is not None and d.names is not None:
                r._sdt = d[k].base if isinstance(k, str) else d[k]
            return r
        r = rnp.ndarray.__getitem__(self, _key(k))
        return r

    def __setitem__(self, k, v):
        d = self._sdt
        if isinstance(k, str) or (isinstance(k, list) and k and isinstance(k[0], str)):
            self[k][...] = v
            return
        k = _key(k)
        if d is not None and d.names is None and d.kind in "iub":
            if isinstance(v, rnp.ndarray):
                vd = _declared(v)
                if vd != d:
                    v = vcast(_objin(v), d)
            elif isinstance(v, (list, tuple)):
                v = vcast(plain(array(v)), d)
            else:
                v = cast(_py(v), d)
        elif d is not None and d.names is None and d.kind == "f":
            if isinstance(v, (list, tuple)):
                v = array(v)
            if isinstance(v, rnp.ndarray):
                v = vcast(_objin(v), d) if _declared(v) != d else v
            else:
                v = cast(_py(v), d)
        if isinstance(v, rnp.ndarray) and v.dtype.names is not None and not isinstance(v, SymArr):
            v = wrap(v)
        if isinstance(v, rnp.ndarray) and v.ndim and v.size == 1 and d is not None and d.names is None:
            t = rnp.ndarray.__getitem__(plain(self), k)
            if not isinstance(t, rnp.ndarray):
                v = plain(v).reshape(-1)[0]
        rnp.ndarray.__setitem__(self, k, plain(v) if isinstance(v, SymArr) else v)

    # ---------------------------------------------------------------- methods
    def astype(self, dt=None, copy=True, dtype=None, **kw):
        d = np_dtype(dt if dt is not None else dtype)
        if d.names is not None or d == object:
            return self.copy()
        r = vcast(plain(self), d).view(SymArr)
        r._sdt = d
        return r

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_("add", self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_("multiply", self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_("maximum", self, axis=axis, keepdims=keepdims, **kw)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_("minimum", self, axis=axis, keepdims=keepdims, **kw)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_("logical_or", self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_("logical_and", self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return mean(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return s_elem(s_sqrt, var(self, axis=axis, ddof=ddof, keepdims=keepdims))

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        return var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def clip(self, min=None, max=None, out=None, **kw):
        return clip(self, min, max, out=out)

    def round(self, decimals=0, out=None):
        return around(self, decimals)

    def argmax(self, axis=None, out=None, **kw):
        return argmax(self, axis)

    def argmin(self, axis=None, out=None, **kw):
        return argmin(self, axis)

    def take(self, indices, axis=None, out=None, mode="raise"):
        if axis is None:
            return self.reshape(-1)[indices]
        return self[(slice(None),) * (axis % self.ndim) + (indices,)]

    def argsort(self, axis=-1, kind=None, order=None, **kw):
        return argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, **kw):
        self[...] = sort(self, axis)

    def nonzero(self):
        return nonzero(self)

    def cumsum(self, axis=None, dtype=None, out=None):
        return cumsum(self, axis)

    def dot(self, b, out=None):
        return dot(self, b)

    def choose(self, choices, out=None, mode="raise"):
        r = choose(self, list(choices))
        if out is not None:
            out[...] = r
            return out
        return r

    def item(self, *a):
        return rnp.ndarray.item(self, *a)

    def tobytes(self, *a, **k):
        if is_symbolic(self):
            raise Unsupported("tobytes of symbolic data")
        return concrete(self).tobytes(*a, **k)

    def tofile(self, f, sep="", format="%s"):
        if hasattr(f, "_sym_write_array"):
            return f._sym_write_array(self)
        raise Unsupported("tofile to a real file")

    def view(self, *a, **k):
        if a and isinstance(a[0], (DT, rnp.dtype)) and not isinstance(a[0], type):
            raise Unsupported("dtype view")
        return rnp.ndarray.view(self, *a, **k)

    def __bool__(self):
        if self.size == 1:
            return bool(plain(self).reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __index__(self):
        if self.size == 1 and self.ndim == 0:
            x = plain(self).reshape(-1)[0]
            return x.__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __int__(self):
        return int(plain(self).reshape(-1)[0])

    def __float__(self):
        return float(plain(self).reshape(-1)[0])

    def __reduce__(self):
        raise Unsupported("pickling symbolic arrays")

    def __deepcopy__(self, memo):
        return self.copy()


# ------------------------------------------------------------------ functions
def s_elem(f, x):
    if isinstance(x, rnp.ndarray):
        sdt = x._sdt if isinstance(x, SymArr) else None
        r = rnp.frompyfunc(f, 1, 1)(plain(x))
        r = r.view(SymArr) if isinstance(r, rnp.ndarray) else r
        return r
    return f(x)


def array(x, dtype=None, copy=True, ndmin=0, order=None, **kw):
    d = np_dtype(dtype)
    if getattr(x, "_is_farr", False):
        return x.copy() if copy else x
    if isinstance(x, SymArr):
        r = x.copy() if copy or (d is not None and d != x.dtype) else x
    elif isinstance(x, rnp.ndarray):
        r = wrap(x.copy() if copy and x.dtype == object else x)
    elif isinstance(x, rnp.void):
        raise Unsupported("array of void")
    elif hasattr(x, "__array__") and not isinstance(x, (rnp.generic, Sym, SymBool)):
        r = wrap(rnp.asarray(x))
    else:
        o = _nested(x)
        r = o.view(SymArr)
        r._sdt = infer(r) if r.size else rnp.dtype(float)
    if d is not None and d != object:
        r = r.astype(d)
    while r.ndim < ndmin:
        r = r[None, ...]
    return r


def _nested(x):
    """list/tuple nest (possibly containing arrays) -> object ndarray"""
    if isinstance(x, rnp.ndarray):
        return plain(x) if x.dtype == object else x.astype(object)
    if isinstance(x, (list, tuple, range)):
        parts = [_nested(y) for y in x]
        if not parts:
            return rnp.empty((0,), dtype=object)
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        out = rnp.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            out[i, ...] = p if p.ndim else p.item()
        return out
    o = rnp.empty((), dtype=object)
    o[()] = _py(x) if not isinstance(x, rnp.void) else x
    return o


def asarray(x, dtype=None, **kw):
    d = np_dtype(dtype)
    if getattr(x, "_is_farr", False):
        return x
    if isinstance(x, SymArr):
        if d is None or d == x.dtype:
            return x
        return x.astype(d)
    return array(x, dtype=dtype, copy=False)


def _symshape(shape):
    if isinstance(shape, Sym):
        return True
    if isinstance(shape, (list, tuple)):
        return any(isinstance(s, Sym) for s in shape)
    if isinstance(shape, SymArr):
        return is_symbolic(shape)
    return False


def _shape(shape):
    if isinstance(shape, (int, rnp.integer, Sym)):
        return (shape.__index__(),)
    if isinstance(shape, SymArr) and shape.ndim == 0:
        return (int(shape),)
    return tuple(s.__index__() if not isinstance(s, SymArr) else int(s) for s in shape)


FARR_FACTORY = None   # set by farr.py


def full(shape, fill_value, dtype=None, order="C", **kw):
    d = np_dtype(dtype)
    if d is None:
        d = rnp.dtype({"f": float, "i": int, "b": bool}.get(elem_kind(fill_value), object))
    if _symshape(shape) and FARR_FACTORY is not None:
        return FARR_FACTORY(shape, d, fill_value)
    r = rnp.empty(_shape(shape), dtype=objdtype(d))
    if d.names is None:
        r[...] = _py(fill_value) if not isinstance(fill_value, rnp.ndarray) else _objin(fill_value)
    else:
        for n in d.names:
            r[n] = zero_of(d[n].base)
    r = r.view(SymArr)
    r._sdt = d if d.subdtype is None else d.base
    return r


def zeros(shape, dtype=float, order="C", **kw):
    d = np_dtype(dtype) or rnp.dtype(float)
    return full(shape, zero_of(d.base), d)


def ones(shape, dtype=float, order="C", **kw):
    d = np_dtype(dtype) or rnp.dtype(float)
    return full(shape, cast(1, d), d)


EMPTY_FILL = None    # None -> zeros; otherwise callable() giving arbitrary contents


def empty(shape, dtype=float, order="C", **kw):
    d = np_dtype(dtype) or rnp.dtype(float)
    r = full(shape, zero_of(d.base), d)
    if EMPTY_FILL is not None and isinstance(r, SymArr) and d.names is None:
        for i in rnp.ndindex(*r.shape):
            rnp.ndarray.__setitem__(r, i, EMPTY_FILL(d))
    return r


def _like(f, npos=0):
    def g(a, *args, dtype=None, **kw):
        kw.pop("subok", None)
        shape = kw.pop("shape", None)
        a = asarray(a)
        if len(args) > npos:
            args, dtype = args[:npos], args[npos]
        return f(a.shape if shape is None else shape, *args, dtype=dtype if dtype is not None else a.dtype, **kw)
    return g


zeros_like = _like(zeros)
ones_like = _like(ones)
empty_like = _like(empty)
full_like = _like(full, 1)


def arange(*a, dtype=None, **kw):
    if any(isinstance(x, (Sym)) for x in a):
        if all(not isinstance(x, Sym) or isint(x.e) for x in a):
            if FARR_FACTORY is not None and len(a) == 1 and hasattr(FARR_FACTORY, "arange"):
                return FARR_FACTORY.arange(a[0], np_dtype(dtype) or rnp.dtype(int))
            if len(a) == 2 and FARR_FACTORY is None or len(a) == 2:
                n = a[1] - a[0]
                n = n.__index__()
                return array([a[0] + i for i in range(max(0, n))], dtype=dtype or int)
            a = [x.__index__() for x in a]
        else:
            raise Unsupported("arange over symbolic reals")
    a = [concrete(x) if not isinstance(x, rnp.ndarray) else x.item() for x in a]
    r = rnp.arange(*a, dtype=np_dtype(dtype))
    return wrap(r)


MAX_FRESH = False       # extrema of reals as fresh constants instead of nested conditionals


def reduce_(name, a, axis=0, keepdims=False, initial=None, where=True, dtype=None, out=None, **kw):
    if initial is not None and not isinstance(initial, (int, float, Sym)):
        initial = None
    a = asarray(a)
    o = plain(a)
    if where is not True:
        raise Unsupported("reduce where=")
    f = UF[name]
    nd = o.ndim
    if axis is None:
        axes = tuple(range(nd))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(x % nd for x in axis)
    else:
        if not -nd <= axis < nd:
            raise ValueError("axis out of range")
        axes = (axis % nd,) if nd else ()
    keep = [i for i in range(nd) if i not in axes]
    t = o.transpose(keep + list(axes))
    kshape = tuple(o.shape[i] for i in keep)
    t = t.reshape(kshape + (-1,)) if t.size else t.reshape(kshape + (int(rnp.prod([o.shape[i] for i in axes], dtype=int)),))
    res = rnp.empty(kshape, dtype=object)
    for i in rnp.ndindex(*kshape):
        row = list(t[i])
        if initial is not None:
            row = [initial] + row
        if not row:
            if name in IDENT:
                res[i] = cast(IDENT[name], a.dtype) if name in ("add", "multiply") else IDENT[name]
                continue
            raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
        acc = _py(row[0])
        if name in ("logical_or", "logical_and"):
            acc = mkbool(tobool(acc)) if isinstance(acc, (Sym, SymBool)) else bool(acc)
        elif name == "add" and isinstance(acc, (bool, SymBool)):
            acc = acc._n() if isinstance(acc, SymBool) else int(acc)
        if MAX_FRESH and name in ("maximum", "minimum") and len(row) > 2 and any(isinstance(x, Sym) for x in row) and \
                not any(isinstance(x, Sym) and (isint(x.e) or x.e.num_args()) for x in row):
            m = z3.Real(ctx().fresh("ext"))
            es = [toreal(lift(_py(x))) for x in row]
            ctx().add(z3.And(z3.Or([m == e for e in es]), *[(m >= e) if name == "maximum" else (m <= e) for e in es]))
            acc = Sym(m)
        elif name in ("add", "multiply") and len(row) > 2:
            for x in row[1:]:
                acc = f(acc, _py(x))
        else:
            for x in row[1:]:
                acc = f(acc, _py(x))
        res[i] = acc
    d = a.dtype
    if name in BOOLU:
        d = rnp.dtype(bool)
    elif name in ("add", "multiply") and d.kind in "bu" and d.itemsize < 8:
        d = rnp.dtype(int) if d.kind == "b" else rnp.dtype(rnp.uint64)
    elif name in ("add", "multiply") and d.kind == "i":
        d = rnp.dtype(int)
    if keepdims:
        res = res.reshape(tuple(1 if i in axes else o.shape[i] for i in range(nd)))
    if res.ndim == 0:
        return res[()]
    r = res.view(SymArr)
    r._sdt = d
    return r


def mean(a, axis=None, dtype=None, keepdims=False, **kw):
    a = asarray(a)
    s = reduce_("add", a, axis=axis, keepdims=keepdims)
    if axis is None:
        n = a.size
    else:
        n = 1
        for x in (axis if isinstance(axis, (tuple, list)) else (axis,)):
            n *= a.shape[x]
    if n == 0:
        return s_elem(lambda x: math.nan, s)
    return s_elem(lambda x: s_div(x, n), s)


def var(a, axis=None, ddof=0, keepdims=False, **kw):
    a = asarray(a)
    m = mean(a, axis=axis, keepdims=True)
    d = a - m
    d = d * d
    s = reduce_("add", d, axis=axis, keepdims=keepdims)
    n = a.size if axis is None else a.shape[axis]
    return s_elem(lambda x: s_div(x, n - ddof), s)


def clip(a, lo=None, hi=None, out=None, **kw):
    lo = kw.pop("a_min", lo)
    hi = kw.pop("a_max", hi)
    lo = kw.pop("min", lo)
    hi = kw.pop("max", hi)
    if getattr(a, "_is_farr", False):
        return a.clip(lo, hi)
    scalar = not isinstance(a, (rnp.ndarray, list, tuple))
    r = a
    if lo is not None:
        r = call_ufunc("maximum", r, lo) if not scalar or isinstance(lo, rnp.ndarray) else smax(r, lo)
    if hi is not None:
        r = call_ufunc("minimum", r, hi) if not scalar or isinstance(hi, rnp.ndarray) else smin(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def call_ufunc(name, *ins, out=None, where=True, dtype=None, **kw):
    if any(getattr(x, "_is_farr", False) for x in ins):
        from . import farr
        return farr.ufunc(name, *ins, out=out)
    ins2 = [asarray(x) if isinstance(x, (list, tuple)) or (isinstance(x, rnp.ndarray) and not isinstance(x, SymArr)) else x
            for x in ins]
    arrs = [x for x in ins2 if isinstance(x, rnp.ndarray)]
    if not arrs:
        r = UF[name](*[_py(x) for x in ins2]) if name in UF else getattr(rnp, name)(*ins2)
        if dtype is not None:
            r = cast(r, np_dtype(dtype))
        if out is not None:
            out[...] = r
            return out
        if type(r) is float:
            r = rnp.float64(r)
        elif type(r) is int and name in ("ceil", "floor", "rint", "trunc") and -2 ** 62 < r < 2 ** 62:
            r = rnp.int64(r)
        return r
    k = dict(kw)
    if out is not None:
        k["out"] = (out,) if not isinstance(out, tuple) else out
    if where is not True:
        k["where"] = where
    if dtype is not None:
        k["dtype"] = dtype
    return arrs[0].__array_ufunc__(getattr(rnp, name), "__call__", *ins2, **k)


class UFuncShim:
    def __init__(self, name):
        self.name = name
        self.__name__ = name

    def __call__(self, *a, **k):
        if self.name not in UF and self.name != "matmul":
            return generic(getattr(rnp, self.name))(*a, **k)
        if len(a) == 3:
            k["out"] = a[2]
            a = a[:2]
        return call_ufunc(self.name, *a, **k)

    def reduce(self, a, axis=0, **k):
        return reduce_(self.name, a, axis=axis, **k)

    def at(self, a, idx, b=None):
        return a.__array_ufunc__(getattr(rnp, self.name), "at", a, idx, *([b] if b is not None else []))

    def outer(self, a, b):
        return asarray(a).__array_ufunc__(getattr(rnp, self.name), "outer", asarray(a), asarray(b))

    def accumulate(self, a, axis=0):
        return asarray(a).__array_ufunc__(getattr(rnp, self.name), "accumulate", asarray(a), axis=axis)


def where3(c, a, b):
    if getattr(c, "_is_farr", False) or getattr(a, "_is_farr", False) or getattr(b, "_is_farr", False):
        from . import farr
        return farr.where(c, a, b)
    f = rnp.frompyfunc(lambda c, a, b: ite(c if isinstance(c, SymBool) else (c != 0 if isinstance(c, Sym) else bool(c)),
                                           _py(a), _py(b)), 3, 1)
    r = f(_objin(c), _objin(a), _objin(b))
    if isinstance(r, rnp.ndarray):
        sdt = _result_sdt("add", [x for x in (a, b)], r)
        r = r.view(SymArr)
        r._sdt = sdt
    return r


def where(c, *ab, **kw):
    if ab:
        return where3(c, *ab)
    return nonzero(asarray(c))


def nonzero(a):
    if getattr(a, "_is_farr", False):
        return a.nonzero()
    a = asarray(a)
    if a.ndim == 0:
        a = a.reshape(1)
    out = rnp.empty(a.shape, dtype=bool)
    for i in rnp.ndindex(*a.shape):
        x = plain(a)[i]
        out[i] = bool(x)
    return tuple(wrap(x) for x in rnp.nonzero(out))


def flatnonzero(a):
    return nonzero(asarray(a).reshape(-1))[0]


def argwhere(a):
    return wrap(rnp.transpose([concrete(x) for x in nonzero(a)]))


def _argx(better):
    def g(a, axis=None, **kw):
        a = asarray(a)
        if axis is None:
            o = plain(a).reshape(-1)
            if o.size == 0:
                raise ValueError("attempt to get argmax of an empty sequence")
            bi = 0
            for i in range(1, o.size):
                if better(o[i], o[bi]):
                    bi = i
            return bi
        o = rnp.moveaxis(plain(a), axis, -1)
        r = rnp.empty(o.shape[:-1], dtype=object)
        for i in rnp.ndindex(*o.shape[:-1]):
            r[i] = g(o[i])
        r = r.view(SymArr)
        r._sdt = rnp.dtype(int)
        return r
    return g


argmax = _argx(lambda x, y: bool(x > y))
argmin = _argx(lambda x, y: bool(x < y))


def argsort(a, axis=-1, kind=None, **kw):
    a = asarray(a)
    if not is_symbolic(a):
        return wrap(rnp.argsort(concrete(a), axis=axis, kind=kind))
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    o = rnp.moveaxis(plain(a), axis, -1)
    r = rnp.empty(o.shape, dtype=object)
    for i in rnp.ndindex(*o.shape[:-1]):
        row = o[i]
        idx = []
        for j in range(len(row)):      # stable insertion
            p = len(idx)
            while p > 0 and bool(row[j] < row[idx[p - 1]]):
                p -= 1
            idx.insert(p, j)
        r[i] = idx
    r = rnp.moveaxis(r, -1, axis).view(SymArr)
    r._sdt = rnp.dtype(int)
    return r


def sort(a, axis=-1, kind=None, **kw):
    a = asarray(a)
    if not is_symbolic(a):
        return wrap(rnp.sort(concrete(a), axis=axis))
    d = a._sdt
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    o = rnp.moveaxis(plain(a), axis, -1).copy()
    n = o.shape[-1]
    for i in rnp.ndindex(*o.shape[:-1]):
        row = list(o[i])
        for p in range(n):             # merge network: no path forks
            for q in range(n - 1 - p):
                x, y = row[q], row[q + 1]
                row[q], row[q + 1] = smin(x, y), smax(x, y)
        o[i] = row
    r = rnp.moveaxis(o, -1, axis).view(SymArr)
    r._sdt = d
    return r


def cumsum(a, axis=None, **kw):
    a = asarray(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    o = rnp.moveaxis(plain(a), axis, -1).copy()
    for i in rnp.ndindex(*o.shape[:-1]):
        for j in range(1, o.shape[-1]):
            o[i + (j,)] = o[i + (j - 1,)] + o[i + (j,)]
    r = rnp.moveaxis(o, -1, axis).view(SymArr)
    r._sdt = a.dtype
    return r


def dot(a, b, out=None):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    r = rnp.dot(plain(a), plain(b))
    r = wrap(r) if isinstance(r, rnp.ndarray) else r
    if out is not None:
        out[...] = r
        return out
    return r


def matmul(a, b, **kw):
    r = rnp.matmul(plain(asarray(a)), plain(asarray(b)))
    return wrap(r) if isinstance(r, rnp.ndarray) else r


def norm(a, ord=None, axis=None, keepdims=False):
    a = asarray(a)
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    return s_elem(s_sqrt, reduce_("add", a * a, axis=axis, keepdims=keepdims))


def cross(a, b, axis=-1, **kw):
    a, b = asarray(a), asarray(b)
    a0, a1, a2 = a[..., 0], a[..., 1], a[..., 2]
    b0, b1, b2 = b[..., 0], b[..., 1], b[..., 2]
    return stack([a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0], axis=-1)


def stack(xs, axis=0, **kw):
    xs = [asarray(x) for x in xs]
    sdt = rnp.result_type(*[x.dtype for x in xs])
    r = rnp.stack([plain(x) for x in xs], axis=axis).view(SymArr)
    r._sdt = sdt
    return r


def concatenate(xs, axis=0, **kw):
    xs = [asarray(x) for x in xs]
    if any(x.dtype.names is not None for x in xs):
        sdt = xs[0].dtype
    else:
        sdt = rnp.result_type(*[x.dtype for x in xs])
    r = rnp.concatenate([plain(x) for x in xs], axis=axis).view(SymArr)
    r._sdt = sdt
    return r


def around(a, decimals=0, **kw):
    if getattr(a, "_is_farr", False):
        return a.map(s_rint)
    k = 10 ** decimals

    def f(x):
        if isinstance(x, Sym):
            if isint(x.e):
                return x
            if decimals == 0:
                return s_rint(x)
            return s_rint(x * k) / k
        return round(x, decimals) if not isinstance(x, (int, Fraction)) else x
    if isinstance(a, (rnp.ndarray, list, tuple)):
        a = asarray(a)
        r = rnp.frompyfunc(f, 1, 1)(plain(a))
        r = r.view(SymArr) if isinstance(r, rnp.ndarray) else r
        if isinstance(r, SymArr):
            r._sdt = a.dtype
        return r
    return f(_py(a))


def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    return call_ufunc("less_equal", call_ufunc("absolute", call_ufunc("subtract", a, b)),
                      call_ufunc("add", atol, call_ufunc("multiply", rtol, call_ufunc("absolute", b))))


def allclose(a, b, **kw):
    r = isclose(a, b, **kw)
    return all_(r)


def all_(a, axis=None, **kw):
    return reduce_("logical_and", asarray(a), axis=axis, **kw)


def any_(a, axis=None, **kw):
    return reduce_("logical_or", asarray(a), axis=axis, **kw)


def sum_(a, axis=None, keepdims=False, **kw):
    if getattr(a, "_is_farr", False):
        raise Unsupported("sum of FArr")
    return reduce_("add", asarray(a), axis=axis, keepdims=keepdims)


def prod_(a, axis=None, keepdims=False, **kw):
    return reduce_("multiply", asarray(a), axis=axis, keepdims=keepdims)


def max_(a, axis=None, keepdims=False, **kw):
    return reduce_("maximum", asarray(a), axis=axis, keepdims=keepdims, **kw)


def min_(a, axis=None, keepdims=False, **kw):
    return reduce_("minimum", asarray(a), axis=axis, keepdims=keepdims, **kw)


def std_(a, axis=None, ddof=0, keepdims=False, **kw):
    return s_elem(s_sqrt, var(a, axis=axis, ddof=ddof, keepdims=keepdims))


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all_(call_ufunc("equal", a, b))


def diff(a, n=1, axis=-1):
    a = asarray(a)
    s1 = [slice(None)] * a.ndim
    s2 = [slice(None)] * a.ndim
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    return a[tuple(s1)] - a[tuple(s2)]


def einsum(spec, *ops, **kw):
    ops = [plain(asarray(o)) for o in ops]
    r = rnp.einsum(spec, *ops)
    return wrap(r) if isinstance(r, rnp.ndarray) else r


def atleast_2d(a):
    a = asarray(a)
    return wrap(rnp.atleast_2d(a))


def atleast_1d(a):
    if isinstance(a, (Sym, SymBool)):
        return array([a])
    return wrap(rnp.atleast_1d(asarray(a)))


def ndim(a):
    return 0 if isinstance(a, (Sym, SymBool)) else (a.ndim if isinstance(a, rnp.ndarray) else rnp.ndim(a))


def shape(a):
    return () if isinstance(a, (Sym, SymBool)) else (a.shape if hasattr(a, "shape") else rnp.shape(a))


def size(a, axis=None):
    if isinstance(a, (Sym, SymBool)):
        return 1
    if isinstance(a, rnp.ndarray):
        return a.size if axis is None else a.shape[axis]
    return rnp.size(a, axis)


def choose(a, choices, **kw):
    a = asarray(a)
    ch = [asarray(c) for c in choices]
    bc = rnp.broadcast(*([plain(a)] + [plain(c) for c in ch]))
    aa = rnp.broadcast_to(plain(a), bc.shape)
    cc = [rnp.broadcast_to(plain(c), bc.shape) for c in ch]
    out = rnp.empty(bc.shape, dtype=object)
    for i in rnp.ndindex(*bc.shape):
        if isinstance(aa[i], Sym):
            if (aa[i] < 0) | (aa[i] > len(ch) - 1):
                raise ValueError("invalid entry in choice array")
            v = cc[-1][i]
            for k in range(len(ch) - 2, -1, -1):
                v = ite(aa[i] == k, _py(cc[k][i]), _py(v))
            out[i] = v
            continue
        j = int(aa[i])
        if not 0 <= j < len(ch):
            raise ValueError("invalid entry in choice array")
        out[i] = cc[j][i]
    r = out.view(SymArr)
    r._sdt = ch[0].dtype
    return r


def require(a, dtype=None, requirements=None):
    return asarray(a, dtype=dtype)


def searchsorted(a, v, side="left", **kw):
    a = asarray(a)
    o = list(plain(a))
    def one(x):
        for i, y in enumerate(o):
            if (bool(y >= x) if side == "left" else bool(y > x)):
                return i
        return len(o)
    if isinstance(v, rnp.ndarray):
        return s_elem(one, v)
    return one(v)


def generic(f):
    """fallback: a numpy function not modelled above"""
    def g(*a, **k):
        if "dtype" in k:
            k["dtype"] = np_dtype(k["dtype"])
        if is_symbolic(list(a)) or is_symbolic(list(k.values())):
            try:
                r = f(*a, **k)
            except (Unsupported, sym.BoundExceeded):
                raise
            except (TypeError, AttributeError) as e:
                raise Unsupported("numpy.%s on symbolic data: %s" % (getattr(f, "__name__", f), e))
            return _wrapres(r)
        # concrete: keep views working for pure shape functions
        if getattr(f, "__name__", "") in SHAPEF:
            return _wrapres(f(*a, **k))
        r = f(*[concrete(x) for x in a], **{kk: concrete(v) for kk, v in k.items()})
        return _wrapres(r)
    g.__name__ = getattr(f, "__name__", "generic")
    return g


SHAPEF = {"reshape", "squeeze", "expand_dims", "transpose", "swapaxes", "moveaxis", "ravel", "flip", "fliplr", "flipud",
          "roll", "broadcast_to", "tile", "repeat", "split", "array_split", "rot90", "hstack", "vstack", "copy",
          "append", "delete", "insert", "take", "diagonal", "diag", "rollaxis", "pad", "atleast_3d", "column_stack",
          "dstack", "resize", "copyto", "trace", "kron", "outer", "inner"}


def _wrapres(r):
    if isinstance(r, rnp.ndarray):
        return wrap(r)
    if isinstance(r, tuple):
        return tuple(_wrapres(x) for x in r) if type(r) is tuple else r
    if isinstance(r, list):
        return [_wrapres(x) for x in r]
    if isinstance(r, (rnp.floating, rnp.integer, rnp.bool_)):
        return r.item()
    return r


def unravel_index(indices, shape, order="C"):
    shape = [s if isinstance(s, Sym) else int(s) for s in shape]
    if len(shape) != 2:
        raise Unsupported("unravel_index of %d dimensions" % len(shape))
    a = asarray(indices)
    f = plain(a).reshape(-1)
    for x in f:
        if bool(_or(x < 0, x >= shape[0] * shape[1])):
            raise ValueError("index is out of bounds for array with given shape")

    def part(g):
        r = array([g(x) for x in f], dtype=rnp.int64).reshape(a.shape)
        return r if a.ndim else r[()]
    return part(lambda x: x // shape[1]), part(lambda x: x % shape[1])


def copyto(dst, src, where=True, **kw):
    if where is True:
        dst[...] = src
    else:
        dst[...] = where3(where, src, dst)


def frombuffer(*a, **k):
    raise Unsupported("frombuffer")


def fromfile(f, dtype=float, count=-1, sep="", offset=0, **kw):
    if hasattr(f, "_sym_read_array"):
        return f._sym_read_array(np_dtype(dtype), count, offset)
    raise Unsupported("fromfile of a real file in symbolic mode")


def det(a):
    a = asarray(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1] or not is_symbolic(a):
        return generic(rnp.linalg.det)(a)

    def minor(rows, cols):
        if not rows:
            return 1.0
        t = 0.0
        for j, c in enumerate(cols):
            t = t + (-1) ** j * a[rows[0], c] * minor(rows[1:], cols[:j] + cols[j + 1:])
        return t
    n = list(range(a.shape[0]))
    return minor(n, n)


class _Linalg:
    norm = staticmethod(norm)
    det = staticmethod(det)

    def __getattr__(self, n):
        return generic(getattr(rnp.linalg, n))


class _RandomStub:
    """environment stub: arbitrary values of the documented range"""

    def __init__(self):
        self.n = 0

    def _fresh(self, shape, lo=None, hi=None, tag="rnd"):
        if shape is None:
            v = Sym(z3.Real(ctx().fresh(tag)))
            if lo is not None:
                ctx().add(tobool(v >= lo))
                ctx().add(tobool(v <= hi))
            return v
        shape = _shape(shape)
        out = rnp.empty(shape, dtype=object)
        for i in rnp.ndindex(*shape):
            l = lo[i[-1]] if isinstance(lo, rnp.ndarray) and lo.ndim else lo
            h = hi[i[-1]] if isinstance(hi, rnp.ndarray) and hi.ndim else hi
            out[i] = self._fresh(None, l, h, tag)
        r = out.view(SymArr)
        r._sdt = rnp.dtype(float)
        return r

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._fresh(size, low, high, "uniform")

    def random(self, size=None):
        return self._fresh(size, 0, 1, "random")

    random_sample = random

    def rand(self, *s):
        return self._fresh(s or None, 0, 1, "random")

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fresh(size, None, None, "normal")

    def __getattr__(self, n):
        raise Unsupported("numpy.random.%s" % n)


class NP:
    """module-like object handed to the code under test as `numpy`"""

    def __init__(self):
        self.__dict__["_o"] = {}
        self.__dict__["pi_symbolic"] = True

    def __getattr__(self, n):
        o = self.__dict__["_o"]
        if n in o:
            return o[n]
        if n in OVER:
            return OVER[n]
        if n in _DTS:
            return _DTS[n]
        v = getattr(rnp, n)
        if isinstance(v, rnp.ufunc):
            r = UFuncShim(n)
        elif isinstance(v, type):
            return v
        elif callable(v):
            r = generic(v)
        else:
            return v
        o[n] = r
        return r

    def __setattr__(self, n, v):
        self.__dict__["_o"][n] = v


class AbstractT:
    """np.floating, np.integer: Python scalars stand for numpy ones here"""

    def __init__(self, real, py, isz):
        self.real, self.py, self.isz = real, py, isz

    def __instancecheck__(self, x):
        if isinstance(x, Sym):
            return self.isz is None or isint(x.e) == self.isz
        if isinstance(x, (bool, rnp.bool_)):
            return False
        return isinstance(x, (self.real,) + self.py)


def issubdtype(a, b):
    def norm(x):
        if isinstance(x, AbstractT):
            return x.real
        return np_dtype(x) if isinstance(x, DT) else x
    return rnp.issubdtype(norm(a), norm(b))


def interp(x, xp, fp, left=None, right=None, period=None):
    """piecewise linear; the sample points are given numbers"""
    if period is not None:
        raise Unsupported("periodic interp")
    xp, fp = plain(asarray(xp)).reshape(-1), plain(asarray(fp)).reshape(-1)
    n = len(xp)

    def one(v):
        if v < xp[0]:
            return fp[0] if left is None else left
        if v > xp[n - 1]:
            return fp[n - 1] if right is None else right
        for k in range(n - 1):
            if v <= xp[k + 1] if k < n - 2 else True:
                if not isinstance(v, Sym) and v == xp[k]:
                    return fp[k]
                if n == 1:
                    return fp[0]
                return fp[k] + (v - xp[k]) * ((fp[k + 1] - fp[k]) / (xp[k + 1] - xp[k]))
        return fp[n - 1]
    a = plain(asarray(x))
    if a.ndim == 0:
        return one(a.item() if isinstance(a, rnp.ndarray) else a)
    out = rnp.empty(a.shape, dtype=object)
    for i in rnp.ndindex(*a.shape):
        out[i] = one(a[i])
    r = out.view(SymArr)
    r._sdt = rnp.dtype(float)
    return r


OVER = dict(
    floating=AbstractT(rnp.floating, (float, Fraction), False), integer=AbstractT(rnp.integer, (int,), True),
    inexact=AbstractT(rnp.inexact, (float, Fraction), False), issubdtype=issubdtype,
    array=array, asarray=asarray, ascontiguousarray=asarray, asanyarray=asarray, asfortranarray=asarray,
    zeros=zeros, ones=ones, empty=empty, full=full,
    zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like, arange=arange,
    sum=sum_, prod=prod_, max=max_, min=min_, amax=max_, amin=min_, mean=mean, average=mean, std=std_, var=var, any=any_, all=all_,
    clip=clip, where=where, nonzero=nonzero, flatnonzero=flatnonzero, argwhere=argwhere, argmax=argmax, argmin=argmin,
    interp=interp, take=lambda a, i, axis=None, **k: asarray(a).take(i, axis), argsort=argsort, sort=sort, cumsum=cumsum, dot=dot, matmul=matmul, cross=cross, stack=stack,
    concatenate=concatenate, around=around, round=around, round_=around, isclose=isclose, allclose=allclose,
    array_equal=array_equal, diff=diff, einsum=einsum, atleast_2d=atleast_2d, atleast_1d=atleast_1d, ndim=ndim,
    shape=shape, size=size, choose=choose, require=require, searchsorted=searchsorted, copyto=copyto,
    unravel_index=unravel_index, fromfile=fromfile, frombuffer=frombuffer, linalg=_Linalg(), ndarray=rnp.ndarray, abs=UFuncShim("absolute"),
    random=_RandomStub(), newaxis=None, inf=math.inf, nan=math.nan, pi=math.pi,
    dtype=lambda d, *a, **k: np_dtype(d), bool=bool,
)
np = NP()
