"""P01 particle swarm search (pcopt.PSOOpt)."""
from .common import *


class Rnd:
    """numpy.random with unknown draws"""

    def __init__(self, npx, take):
        self.npx, self.take = npx, take

    def _fill(self, size, f):
        size = (size,) if isinstance(size, int) else tuple(size)
        r = self.npx.zeros(size)
        for i in np.ndindex(*size):
            r[i] = f(i)
        return r

    def uniform(self, low=0.0, high=1.0, size=None):
        lo, hi = self.npx.asarray(low), self.npx.asarray(high)
        return self._fill(size, lambda i: (lambda a, b: a + (b - a) * self.take("u"))(lo if lo.ndim == 0 else lo[i[-1]], hi if hi.ndim == 0 else hi[i[-1]]))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, lambda i: loc + scale * self.take("n"))

    def random(self, size=None):
        return self._fill(size, lambda i: self.take("u"))

    def rand(self, *size):
        return self.random(size)


class NpRandom:
    """numpy with its random module replaced"""

    def __init__(self, npx, rnd):
        self.__dict__.update(npx=npx, random=rnd)

    def __getattr__(self, k):
        return getattr(self.npx, k)


def drive(m, npx, n, d, niter, method, start, bounds, take, value, early=None):
    m.np = NpRandom(npx, Rnd(npx, take))
    seen = []

    def fun(x, tag=None):
        v = value(len(seen))
        seen.append(([x[k] for k in range(d)], v))
        return npx.array([v])
    o = m.PSOOpt(dimensions=d, n_particles=n, c1=3.5, c2=3.5, w=0.8, hyperparammethod=method, early_exit=early)
    try:
        best, loc = o.optimize(fun, start=start, bounds=bounds, niter=niter, verbose=0, tag=1)
    finally:
        m.np = npx
    return best, loc, seen


def check(best, loc, seen, lo, hi, n, start, tol=1e-9):
    d = len(lo)
    for p, v in seen:
        for k in range(d):
            if not lo[k] - tol <= p[k] <= hi[k] + tol:
                return "candidate %s lies outside %s - %s" % (p, lo, hi)
    if max(abs(seen[0][0][k] - start[k]) for k in range(d)) > tol:
        return "the start %s is not tried, but %s" % (start, seen[0][0])
    m = min(v for p, v in seen)
    if float(best) != m:
        return "best cost %s, the lowest evaluated is %s" % (best, m)
    if not any(v == m and max(abs(p[k] - loc[k]) for k in range(d)) <= tol for p, v in seen):
        return "position %s does not have the cost %s; evaluated %s" % (list(loc), best, seen)


def rep(i):
    from pyebsdindex import pcopt as m
    n, d, niter = int(i["n"]), int(i["d"]), int(i["niter"])
    rng = np.random.default_rng(1)
    for tr in range(40):
        draws = [float(x) for x in i["draws"]] if tr == 0 else []
        vals = [float(x) for x in i["vals"]] if tr == 0 else []
        early = None if tr % 2 == 0 else 0.5
        lo = [float(x) for x in i["lo"]] if tr == 0 else [0.1, -0.4, 0.2][:d]
        hi = [float(x) for x in i["hi"]] if tr == 0 else [0.6, 0.2, 1.0][:d]
        if tr % 3 == 1:
            hi[-1] = lo[-1] + 0.02
        start = [float(x) for x in i["start"]] if tr == 0 else [.5 * (a + b) for a, b in zip(lo, hi)]
        big = 1 if tr < 20 else 30

        def take(kind):
            if draws:
                return draws.pop(0)
            return rng.uniform() if kind == "u" else rng.normal() * big

        def value(k):
            return vals[k] if k < len(vals) else float(rng.integers(0, 6)) - k * 0.2
        s0, lo0 = list(start), list(lo)
        st, b = np.array(start), (np.array(lo), np.array(hi))
        try:
            best, loc, seen = drive(m, np, n, d, niter if tr < 10 else niter + tr % 4, i["method"], st, b, take, value, early)
        except Exception as e:
            return "swarm of %d fails: %r" % (n, e)
        if list(st) != s0 or list(b[0]) != lo0:
            return "the start or the bounds were changed"
        r = check(best, np.ravel(loc), seen, lo, hi, n, start)
        if r:
            return r


def run():
    c = Check("P01", "swarm search", modname="p01",
              functions=["PSOOpt.optimize", "initializeswarm", "updateswarmbest", "updateswarmvelpos", "boundarybounce", "updatehyperparam"],
              bounds="1-3 particles, 1-2 dimensions, 1-4 iterations, both parameter methods, all bounds, starts, draws and objective values",
              stubs=["numpy.random: any draws in the stated ranges", "objective: any values"],
              assumptions=["exact reals; start within the bounds"])
    T = c.twin()
    m = T.load("pyebsdindex.pcopt")
    npx = m.np

    def ob(n, d, niter, method, fixed=None, vals=None):
        """fixed: the draws (and then the bounds) are given numbers, large or small"""
        def f(h):
            snp.EXACT_SQRT = True
            lo, hi, st = [Real("lo%d" % k) for k in range(d)], [Real("hi%d" % k) for k in range(d)], [Real("st%d" % k) for k in range(d)]
            if fixed is not None:
                snp.EXACT_SQRT = False
                lo, hi, st = [-0.25] * d, [1.0] * d, [0.5] * d
                if fixed % 2:                          # one dimension far narrower than a step
                    lo[-1], hi[-1] = 0.48, 0.51
                rng = np.random.default_rng(fixed)
            for k in range(0 if fixed is not None else d):
                assume(lo[k] >= -2)
                assume(hi[k] <= 2)
                assume(lo[k] + 0.1 <= st[k])
                assume(st[k] + 0.1 <= hi[k])
            draws, values = [], []
            h["inputs"] = dict(n=n, d=d, niter=niter, method=method, lo=lo, hi=hi, start=st, draws=draws, vals=values)

            def take(kind):
                if fixed is not None:
                    x = round(float(rng.uniform() if kind == "u" else rng.normal()), 3)
                    draws.append(x)
                    return x
                x = Real("%s%d" % (kind, len(draws)))
                assume(x >= (0 if kind == "u" else -40))
                assume(x <= (1 if kind == "u" else 40))
                if kind == "n":
                    assume(snp.mkbool(z3.Or(Z(x) >= 0.01, Z(x) <= -0.01)))
                draws.append(x)
                return x

            def value(k):
                if vals is not None:
                    v = vals[k % len(vals)]
                else:
                    v = Real("val%d" % k)
                    assume(v >= -100)
                    assume(v <= 100)
                values.append(v)
                return v
            S, B = snp.np.array(st), (snp.np.array(lo), snp.np.array(hi))
            best, loc, seen = drive(m, npx, n, d, niter, method, S, B, take, value)
            out = [Claim("start and bounds of the caller", conj(*eqs(S, st), *eqs(B[0], lo), *eqs(B[1], hi)))]
            ins = []
            for p, v in seen:
                for k in range(d):
                    ins += [Z(p[k]) >= Z(lo[k]), Z(p[k]) <= Z(hi[k])]
            out.append(Claim("number of evaluations", len(seen) == n * niter))
            out.append(Claim("candidates within the bounds", conj(*ins)))
            out.append(Claim("the start is tried", conj(*eqs(seen[0][0], st))))
            out.append(Claim("best cost", conj(*[Z(best) <= Z(v) for p, v in seen])))
            out.append(Claim("best position", z3.Or([conj(Z(v) == Z(best), *[Z(p[k]) == Z(loc[k]) for k in range(d)]) for p, v in seen])))
            return out
        return f
    cf = [(1, 1, 1, "auto"), (1, 1, 2, "auto"), (1, 1, 3, "static"), (1, 2, 1, "static"), (2, 1, 1, "auto")]
    if thorough():
        cf += [(2, 2, 1, "auto"), (2, 1, 2, "auto"), (1, 2, 2, "static")]
    for a in cf:
        c.obligation("any draws, %d particles %d dimensions %d iterations %s" % a, ob(*a), "rep", timeout=20, max_paths=3000)
    for a in [(2, 2, 3, "auto", 1), (2, 1, 4, "static", 2), (3, 1, 2, "auto", 3), (3, 3, 2, "static", 4), (2, 3, 3, "static", 5), (1, 2, 5, "auto", 6), (1, 2, 4, "static", 7), (2, 2, 2, "auto", 9)]:
        c.obligation("given draws %d, any costs, %d particles %d dimensions %d iterations %s" % (a[-1:] + a[:-1]), ob(*a), "rep", timeout=20,
                     max_paths=3000)
    return c
