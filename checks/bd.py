"""harness for band detection (B03, B04): the real BandDetect with small paddings; smoothing is a small stencil with the
same shape of behaviour (linear, per image), the dilation is a true window maximum"""
import time
import types
from fractions import Fraction
from .common import *

H, W = 5, 5
BASE = np.random.default_rng(11).integers(0, 40, (8, H, W)).astype(float)
SINO = np.random.default_rng(12).integers(1, 60, (8, 8, 8)).astype(float)


def _edge(n, k):
    return -k - 1 if k < 0 else (2 * n - k - 1 if k >= n else k)


def gaussian_filter(x, sigma, order=0, **kw):
    """per axis: order 0 smooths with (1, 2, 1)/4, order 2 is the second difference"""
    nd = np.ndim(x)
    sg = list(sigma) if np.ndim(sigma) else [sigma] * nd
    od = list(order) if np.ndim(order) else [order] * nd
    if len(sg) != nd or len(od) != nd:
        raise RuntimeError("sequence argument must have length equal to input rank")
    a = np.array(snp.plain(snp.asarray(x)), dtype=object)
    for ax in range(nd):
        if not sg[ax] > 1e-15:
            continue
        n = a.shape[ax]
        w = {0: (0.25, 0.5, 0.25), 2: (1.0, -2.0, 1.0)}[od[ax]]
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            v = 0.0
            for d in (-1, 0, 1):
                j = list(i)
                j[ax] = _edge(n, i[ax] + d)
                v = v + w[d + 1] * a[tuple(j)]
            out[i] = v
        a = out
    return wrap(a)


def wrap(a):
    r = a.view(snp.SymArr)
    r._sdt = np.dtype(float)
    return r


def grey_dilation(x, size=None, **kw):
    a = snp.plain(snp.asarray(x))
    size = [int(s) for s in size]
    if len(size) != a.ndim:
        raise RuntimeError("size must have one entry per axis")
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        seen = {}
        for d in np.ndindex(*size):
            j = tuple(_edge(a.shape[k], i[k] + d[k] - size[k] // 2) for k in range(a.ndim))
            seen[j] = a[j]
        v = list(seen.values())
        con = [t for t in v if not isinstance(t, Sym)]
        syms = [t for t in v if isinstance(t, Sym)]
        out[i] = sym.smax(*(syms + ([max(con)] if con else []))) if syms else max(con)
    return wrap(out)


class Ndi(types.SimpleNamespace):
    pass


ndi = Ndi(gaussian_filter=gaussian_filter, grey_dilation=grey_dilation,
          binary_erosion=lambda x, **k: __import__("scipy.ndimage").ndimage.binary_erosion(np.array(x, dtype=bool), **k))


def small(bd, pad):
    """paddings of one or two samples instead of eleven"""
    bd.padding = bd.padding * 0 + np.array(pad)
    bd.peakPad = bd.peakPad * 0 + 3
    return bd


def detector(m, nT, nR, nBands, mask, pad=(2, 1)):
    bd = m.BandDetect(patDim=np.array([H, W]), nTheta=nT, nRho=nR, nBands=nBands, rhoMaskFrac=mask, tSigma=1.0, rSigma=1.0)
    return small(bd, pad)


FIELDS = ("max", "normmax", "maxloc", "avemax", "aveloc", "width", "valid")


def padd(a, b):
    n = max(len(a), len(b))
    return trim([(a[k] if k < len(a) else 0) + (b[k] if k < len(b) else 0) for k in range(n)])


def pmul(a, b):
    out = [Fraction(0)] * max(len(a) + len(b) - 1, 0)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return trim(out)


def trim(a):
    while a and a[-1] == 0:
        a = a[:-1]
    return a


def pexpr(p, t):
    e = z3.RealVal(0)
    if p:
        m = max(abs(c) for c in p)
        for c in reversed(p):
            c = c / m
            e = e * t + z3.Q(c.numerator, c.denominator)
    return z3.simplify(e, som=True)


MEMO = {}


def rat(e, t):
    """(numerator, denominator) polynomials in t, or None"""
    k = e.get_id()
    if k not in MEMO:
        MEMO[k] = (e, _rat(e, t))
    return MEMO[k][1]


def _rat(e, t):
    one = [Fraction(1)]
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return trim([f]), one
    if z3.is_int_value(e):
        return trim([Fraction(e.as_long())]), one
    if e.eq(t):
        return [Fraction(0), Fraction(1)], one
    if not z3.is_app(e) or e.num_args() == 0:
        return None
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return rat(e.arg(0), t)
    ch = [rat(x, t) for x in e.children()]
    if any(x is None for x in ch):
        return None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        n, d = ch[0]
        for a, b in ch[1:]:
            if k == z3.Z3_OP_SUB:
                a = pmul([Fraction(-1)], a)
            n, d = (padd(n, a), d) if b == d else (padd(pmul(n, b), pmul(a, d)), pmul(d, b))
        return n, d
    if k == z3.Z3_OP_MUL:
        n, d = one, one
        for a, b in ch:
            n, d = pmul(n, a), pmul(d, b)
        return n, d
    if k == z3.Z3_OP_UMINUS:
        return pmul([Fraction(-1)], ch[0][0]), ch[0][1]
    if k == z3.Z3_OP_DIV and ch[1][0]:
        return pmul(ch[0][0], ch[1][1]), pmul(ch[0][1], ch[1][0])
    if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1 and 0 < e.arg(1).numerator_as_long() < 5:
        n, d = one, one
        for _ in range(e.arg(1).numerator_as_long()):
            n, d = pmul(n, ch[0][0]), pmul(d, ch[0][1])
        return n, d
    return None


def inner(e, seen=None):
    """an if-then-else within e whose condition has none"""
    seen = set() if seen is None else seen
    if e.get_id() in seen or not z3.is_app(e):
        return None
    seen.add(e.get_id())
    for x in e.children():
        r = inner(x, seen)
        if r is not None:
            return r
    if e.decl().kind() == z3.Z3_OP_ITE:
        return e
    return None


def same(a, b, t):
    """equality of two expressions in t"""
    bad = [not isinstance(x, Sym) and not np.isfinite(float(x)) for x in (a, b)]
    if any(bad):
        return z3.BoolVal(all(bad) and str(float(a)) == str(float(b)))
    a, b = Z(a), Z(b)
    if a.eq(b):
        return z3.BoolVal(True)
    x, y = rat(a, t), rat(b, t)
    if x is None or y is None:
        return a == b
    return z3.simplify(pexpr(padd(pmul(x[0], y[1]), pmul([Fraction(-1)], pmul(y[0], x[1]))), t) == 0)


class line:
    """everything depends on one number t in [lo, hi]: minima, maxima and choices fork, comparisons linear in t are decided
    from the part of the interval this path is in, all others by the solver"""

    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = Z(t), Fraction(lo), Fraction(hi)
        self.known = {}
        self.cons = [self.t >= z3.Q(self.lo.numerator, self.lo.denominator), self.t <= z3.Q(self.hi.numerator, self.hi.denominator)]

    def check(self, cond):
        """is cond possible on this path (polynomials in one variable: decided by nlsat)"""
        s = z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", 20000)
        s.add(*self.cons)
        s.add(cond)
        self.model = None
        t0 = time.time()
        r = s.check()
        sym.STATS.queries += 1
        sym.STATS.solver_s += time.time() - t0
        if r == z3.unknown:
            raise sym.Unsupported("polynomial condition undecided")
        if r == z3.sat:
            self.model = s.model().eval(self.t, model_completion=True)
        return r == z3.sat

    def pin(self, claims):
        """fix t where a claim fails on this path"""
        for c in claims:
            if not z3.is_true(z3.simplify(c)) and self.check(z3.Not(c)) and self.model is not None:
                v = self.model if z3.is_rational_value(self.model) else self.model.approx(30)
                if self.check(self.t == v):
                    assume(SymBool(self.t == v))
                return

    def root(self, c):
        """c as (a, b, strict): a + b t > 0 or >= 0"""
        neg = z3.is_not(c)
        if neg:
            c = c.arg(0)
        if not z3.is_app(c) or c.num_args() != 2:
            return None
        k = c.decl().kind()
        if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
            d, strict = c.arg(0) - c.arg(1), k == z3.Z3_OP_GT
        elif k in (z3.Z3_OP_LT, z3.Z3_OP_LE):
            d, strict = c.arg(1) - c.arg(0), k == z3.Z3_OP_LT
        else:
            return None
        if neg:
            d, strict = -d, not strict
        if sym.dagsize(d) > 60:
            return None
        l = snp._lin(d)
        if l is None or not set(l) <= {"", self.t.decl().name()}:
            return None
        return l.get("", Fraction(0)), l.get(self.t.decl().name(), Fraction(0)), strict

    def plain(self, c):
        """the condition without quotients"""
        neg = z3.is_not(c)
        if neg:
            c = c.arg(0)
        if not z3.is_app(c) or c.num_args() != 2:
            return None
        k = c.decl().kind()
        ops = {z3.Z3_OP_GT: lambda e: e > 0, z3.Z3_OP_GE: lambda e: e >= 0, z3.Z3_OP_LT: lambda e: e < 0, z3.Z3_OP_LE: lambda e: e <= 0,
               z3.Z3_OP_EQ: lambda e: e == 0}
        if k not in ops:
            return None
        a, b = rat(c.arg(0), self.t), rat(c.arg(1), self.t)
        if a is None or b is None:
            return None
        n = padd(pmul(a[0], b[1]), pmul([Fraction(-1)], pmul(b[0], a[1])))
        if k != z3.Z3_OP_EQ:
            n = pmul(n, pmul(a[1], b[1]))               # sign of num / den
        e = ops[k](pexpr(n, self.t))
        return z3.simplify(z3.Not(e) if neg else e)

    def decide(self, r):
        a, b, strict = r
        x, y = a + b * self.lo, a + b * self.hi
        m, M = min(x, y), max(x, y)
        if m > 0 or (m == 0 and not strict):
            return True
        if M < 0 or (M == 0 and strict):
            return False
        return None

    def narrow(self, r):
        a, b, strict = r
        if b > 0:
            self.lo = max(self.lo, -a / b)
        elif b < 0:
            self.hi = min(self.hi, -a / b)

    def __enter__(self):
        self.old = sym.Ctx.branch, sym.ite, snp.ite, sym.Ctx.feasible if hasattr(sym.Ctx, "feasible") else None
        old = self.old[0]

        def branch(ctx, cond):
            c = z3.simplify(cond)
            while True:
                i = inner(c)
                if i is None:
                    break
                d = branch(ctx, i.arg(0))
                c = z3.simplify(z3.substitute(c, (i, i.arg(1) if d else i.arg(2))))
            cond = c
            if z3.is_not(c):
                return not branch(ctx, c.arg(0))
            if z3.is_or(c):
                return any(branch(ctx, x) for x in c.children())
            if z3.is_eq(c) and z3.is_bool(c.arg(0)):
                return branch(ctx, c.arg(0)) == branch(ctx, c.arg(1))
            if z3.is_and(c):
                return all(branch(ctx, x) for x in c.children())
            if z3.is_true(c) or z3.is_false(c):
                return z3.is_true(c)
            r = self.root(c)
            if r is not None:
                d = self.decide(r)
                if d is not None:
                    return d
            if r is None:
                p = self.plain(c)
                if p is not None:
                    if z3.is_true(p) or z3.is_false(p):
                        return z3.is_true(p)
                    cond = p
            if r is None and p is None:
                return old(ctx, cond)
            key = cond.get_id()
            if key in self.known:
                return self.known[key][0]
            yes, no = self.check(cond), self.check(z3.Not(cond))
            if yes and no:
                if ctx.pos < len(ctx.prefix):
                    d = ctx.prefix[ctx.pos]
                else:
                    ctx.pending.append(ctx.prefix[:ctx.pos] + [False])
                    ctx.prefix.append(True)
                    d = True
                ctx.pos += 1
                k = cond if d else z3.Not(cond)
                ctx.add(k)
                self.cons.append(k)
                if r is not None:
                    a, b, s = r
                    self.narrow(r if d else (-a, -b, not s))
            else:
                d = yes
            self.known[key] = (d, cond)
            return d

        def ite(c, a, b):
            if isinstance(c, SymBool):
                return a if bool(c) else b
            return a if c else b
        sym.Ctx.branch = branch
        sym.ite = snp.ite = ite
        return self

    def __exit__(self, *a):
        sym.Ctx.branch, sym.ite, snp.ite = self.old[:3]
