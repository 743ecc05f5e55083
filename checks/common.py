"""shared helpers of the checks"""
import os
import sys

import numpy as np

from vf import sym, snp, poly
from vf.core import Check, Claim, conj, thorough, TIER
from vf.sym import Sym, SymBool, Real, Int, Bool, assume, tobool, toreal, lift
import z3


def reals(prefix, *shape):
    """SymArr of fresh reals"""
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = Real(prefix + "_".join(str(k) for k in i))
    r = out.view(snp.SymArr)
    r._sdt = np.dtype(float)
    return r


def ints(prefix, *shape, lo=None, hi=None):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = Int(prefix + "_".join(str(k) for k in i))
        if lo is not None:
            assume(out[i] >= lo)
        if hi is not None:
            assume(out[i] <= hi)
    r = out.view(snp.SymArr)
    r._sdt = np.dtype(np.int64)
    return r


def Z(x):
    """z3 real expr of a scalar"""
    return toreal(lift(x))


def sumsq(v):
    s = z3.RealVal(0)
    for x in snp.plain(snp.asarray(v)).reshape(-1):
        e = Z(x)
        s = s + e * e
    return s


def eqs(a, b):
    """elementwise equality of two array-likes as list of z3 bools"""
    a = snp.plain(snp.asarray(a)).reshape(-1)
    b = snp.plain(snp.asarray(b)).reshape(-1)
    if len(a) != len(b):
        return [z3.BoolVal(False)]
    return [poly_eq(Z(x), Z(y)) for x, y in zip(a, b)]


def ctx_rules(extra=None):
    """square-rewriting rules known on this path (sqrt symbols, cos/sin units, unit vectors)"""
    r = dict(getattr(sym.ctx(), "rules", {})) if sym.CTX is not None else {}
    if extra:
        r.update(extra)
    return r


def nf(e, extra=None):
    """exact polynomial normal form modulo the square rules of this path"""
    try:
        return poly.expr(poly.of(Z(e), ctx_rules(extra)))
    except poly.TooBig:
        return Z(e)


def poly_eq(x, y, extra=None):
    if z3.is_expr(x) and z3.is_expr(y) and x.eq(y):
        return z3.BoolVal(True)
    try:
        ru = ctx_rules(extra)
        d = poly.expr(poly.clear(poly.of(Z(x) - Z(y), ru), ru))
    except poly.TooBig:
        d = Z(x) - Z(y)
    if z3.is_rational_value(d):
        return z3.BoolVal(d.numerator_as_long() == 0)
    return d == 0


def within(x, y, tol):
    x, y = Z(x), Z(y)
    return z3.And(x - y <= tol, y - x <= tol)


def withins(a, b, tol):
    a = snp.plain(snp.asarray(a)).reshape(-1)
    b = snp.plain(snp.asarray(b)).reshape(-1)
    if len(a) != len(b):
        return [z3.BoolVal(False)]
    return [within(x, y, tol) for x, y in zip(a, b)]


def hamilton(a, b):
    """reference Hamilton product of two 4-sequences"""
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] + a[2] * b[0] + a[3] * b[1] - a[1] * b[3],
            a[0] * b[3] + a[3] * b[0] + a[1] * b[2] - a[2] * b[1]]


def box(v, lim):
    for x in snp.plain(snp.asarray(v)).reshape(-1):
        assume(x <= lim)
        assume(x >= -lim)


def unit_rule(q, norm2=1):
    """q[0]**2 -> norm2 - rest"""
    return {poly.key(Z(q[0])): poly.of(Z(norm2) - z3.Sum([Z(x) * Z(x) for x in list(q)[1:]]))}


def ctx_unit(q):
    c = sym.ctx()
    c.add(sumsq(q) == 1)
    c.rules.update(unit_rule(q))


def mod_unit(d, *qs):
    return elim(d, qs) == 0


def elim(d, qs, norm2=1):
    ex = {}
    for q in qs:
        ex.update(unit_rule(q, norm2))
    if isinstance(norm2, int):
        return nf(d, ex)
    try:                       # the norm is itself a root symbol: its own rule would undo this one
        return poly.expr(poly.of(Z(d), ex))
    except poly.TooBig:
        return Z(d)


def concretely(fn, *a, **k):
    """run fn in plain arithmetic (no symbols involved)"""
    was, sym.CTX = sym.CTX, None
    try:
        return fn(*a, **k)
    finally:
        sym.CTX = was
