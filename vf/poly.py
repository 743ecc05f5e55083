"""Exact polynomial normal form of z3 real terms (sound rewriting used before a query reaches the solver).

p: {monomial: Fraction}; monomial = tuple of (atom key, exponent) sorted.  Anything that is not
+,-,*,integer power or division by a constant is an opaque atom.
"""
from fractions import Fraction
import z3


class TooBig(Exception):
    pass


MAXT = 60000
_atoms = {}


def _atom(e):
    k = e.sexpr() if e.num_args() else e.decl().name()
    if k not in _atoms:
        _atoms[k] = e
    return {((k, 1),): Fraction(1)}


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(m, n):
    d = dict(m)
    for k, e in n:
        v = d.get(k, 0) + e
        if v:
            d[k] = v
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def mul(a, b):
    if len(a) * len(b) > 40 * MAXT:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    if len(r) > MAXT:
        raise TooBig()
    return r


def const(f):
    return {(): Fraction(f)} if f != 0 else {}


def of(e, rules=None, cache=None):
    """normal form of a z3 arithmetic expression, reduced by rules as it is built"""
    cache = {} if cache is None else cache
    i = e.get_id()
    if i in cache:
        return cache[i][0]
    k = e.decl().kind() if z3.is_app(e) else None
    if z3.is_rational_value(e):
        r = const(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    elif z3.is_int_value(e):
        r = const(e.as_long())
    elif k == z3.Z3_OP_ADD:
        r = {}
        for c in e.children():
            r = add(r, of(c, rules, cache))
    elif k == z3.Z3_OP_SUB:
        ch = e.children()
        r = of(ch[0], rules, cache)
        for c in ch[1:]:
            r = add(r, of(c, rules, cache), -1)
    elif k == z3.Z3_OP_UMINUS:
        r = add({}, of(e.arg(0), rules, cache), -1)
    elif k == z3.Z3_OP_MUL:
        r = const(1)
        for c in e.children():
            r = reduce(mul(r, of(c, rules, cache)), rules)
    elif k == z3.Z3_OP_DIV:
        n, d = of(e.arg(0), rules, cache), of(e.arg(1), rules, cache)
        if not d:
            r = _atom(e)
        else:
            r = reduce(mul(n, inv(d)), rules)
    elif k == z3.Z3_OP_POWER and (z3.is_int_value(e.arg(1)) or z3.is_rational_value(e.arg(1))) and \
            Fraction(str(e.arg(1))) == int(Fraction(str(e.arg(1)))) and 0 <= int(Fraction(str(e.arg(1)))) <= 12:
        b = of(e.arg(0), rules, cache)
        r = const(1)
        for _ in range(int(Fraction(str(e.arg(1))))):
            r = reduce(mul(r, b), rules)
    elif k == z3.Z3_OP_TO_REAL and z3.is_int_value(e.arg(0)):
        r = const(e.arg(0).as_long())
    else:
        r = _atom(e)
    r = reduce(r, rules)
    cache[i] = (r, e)
    return r


_den = {}


def inv(d):
    """1/d as a Laurent monomial (d is non-zero on the path: a zero divisor was forked away)"""
    if len(d) == 1:
        (m, c), = d.items()
        return {tuple(sorted((k, -e) for k, e in m)): 1 / c}
    lead = d[min(d)]
    nd = {m: c / lead for m, c in d.items()}
    k = "B:" + repr(sorted(nd.items()))
    if k not in _den:
        _den[k] = nd
        _atoms[k] = expr(nd)
    return {((k, -1),): 1 / lead}


def clear(p, rules=None):
    """p == 0 iff result == 0 (multiplied by non-zero denominators)"""
    p = dict(p)
    for _ in range(12):
        neg = {}
        for m in p:
            for k, e in m:
                if e < 0:
                    neg[k] = min(neg.get(k, 0), e)
        if neg:
            f = {tuple(sorted((k, -e) for k, e in neg.items())): Fraction(1)}
            p = mul(p, f)
        pos = [k for m in p for k, e in m if k in _den and e > 0]
        if not neg and not pos:
            break
        for k in set(pos):
            out = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(k, 0)
                t = {tuple(sorted(d.items())): c}
                for _i in range(e):
                    t = mul(t, _den[k])
                out = add(out, t)
            p = out
        p = reduce(p, rules)
    return reduce(p, rules)


def const_value(e, rules):
    """Fraction when the term equals a constant modulo the rules, else None"""
    p = of(e, rules)
    if not p:
        return Fraction(0)
    if list(p) == [()]:
        return p[()]
    neg = {}
    for m in p:
        for k, x in m:
            if x < 0:
                neg[k] = min(neg.get(k, 0), x)
    if not neg:
        return None
    den = {tuple(sorted((k, -x) for k, x in neg.items())): Fraction(1)}
    n, d = clear_pos(mul(p, den), rules), clear_pos(den, rules)
    if any(x < 0 for m in list(n) + list(d) for _, x in m):
        return None
    if not n:
        return Fraction(0)
    m0 = min(n)
    if m0 in d:
        c = n[m0] / d[m0]
        if not add(n, d, -c):
            return c
    return None


def clear_pos(p, rules):
    for _ in range(8):
        pos = [k for m in p for k, e in m if k in _den and e > 0]
        if not pos:
            break
        for k in set(pos):
            out = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(k, 0)
                if e > 0:
                    d.pop(k)
                t = {tuple(sorted(d.items())): c}
                for _i in range(max(e, 0)):
                    t = mul(t, _den[k])
                out = add(out, t)
            p = out
    return reduce(p, rules)


def reduce(p, rules):
    """rules: {atom key: poly} meaning atom**2 -> poly"""
    if not rules:
        return p
    for _ in range(200):
        hit = None
        for m in p:
            for k, e in m:
                if e >= 2 and k in rules:
                    hit = (m, k, e)
                    break
            if hit:
                break
        if not hit:
            return p
        # rewrite all monomials containing that atom squared
        k = hit[1]
        out = {}
        for m, c in p.items():
            d = dict(m)
            e = d.get(k, 0)
            if e >= 2:
                d.pop(k)
                if e % 2:
                    d[k] = 1
                t = {tuple(sorted(d.items())): c}
                for _i in range(e // 2):
                    t = mul(t, rules[k])
                out = add(out, t)
            else:
                out = add(out, {m: c})
        p = out
    raise TooBig()


def expr(p):
    ts = []
    for m, c in p.items():
        fs = [z3.Q(c.numerator, c.denominator)] if c != 1 or not m else []
        for k, e in m:
            fs += [_atoms[k]] * e if e > 0 else [1 / _atoms[k]] * -e
        ts.append(fs[0] if len(fs) == 1 else z3.Product(fs))
    if not ts:
        return z3.RealVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def key(e):
    if e.num_args():
        k = e.sexpr()
    else:
        k = e.decl().name()
    _atoms.setdefault(k, e)
    return k


_CMP = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=", z3.Z3_OP_DISTINCT: "!="}


def canon(e, cache=None):
    """equal term with every arithmetic subterm in sorted polynomial form (also inside conditionals)"""
    cache = {} if cache is None else cache
    i = e.get_id()
    if i in cache:
        return cache[i][0]
    k = e.decl().kind() if z3.is_app(e) else None
    if not e.num_args():
        r = e
    elif k in _CMP and z3.is_arith(e.arg(0)) and e.num_args() == 2 and not z3.is_int(e.arg(0)):
        d = of(canon(e.arg(0), cache) - canon(e.arg(1), cache))
        x = expr(dict(sorted(d.items())))
        r = {"<=": x <= 0, "<": x < 0, ">=": x >= 0, ">": x > 0, "=": x == 0, "!=": x != 0}[_CMP[k]]
    else:
        ch = [canon(c, cache) for c in e.children()]
        r = None
        if k == z3.Z3_OP_ITE and z3.is_real(e) and z3.is_app(e.arg(0)) and e.arg(0).decl().kind() in _CMP:
            r = _minmax(_CMP[e.arg(0).decl().kind()], e.arg(0), ch[1], ch[2], cache)
        if r is None:
            r = e.decl()(*ch)
        if z3.is_real(e) and k != z3.Z3_OP_ITE:
            r = expr(dict(sorted(of(r).items())))
    cache[i] = (r, e)
    return r



def _minmax(op, c, a, b, cache):
    """If(a > b, a, b) and its variants, in one form"""
    if op not in ("<", "<=", ">", ">=") or z3.is_int(c.arg(0)):
        return None
    d = of(canon(c.arg(0), cache) - canon(c.arg(1), cache))
    ab = of(a - b)
    if not d or set(d) != set(ab):
        return None
    f = next(iter(d.values())) / ab[next(iter(d))]
    if any(v != f * ab[m] for m, v in d.items()):
        return None
    sg = 1 if f > 0 else -1
    mx = (op in (">", ">=")) == (sg == 1)
    if b.sexpr() < a.sexpr():
        a, b = b, a
    x = expr(dict(sorted(of(a - b).items())))
    return z3.If(x >= 0, a, b) if mx else z3.If(x >= 0, b, a)
