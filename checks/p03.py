"""P03 cost of a pattern centre (the objective of optimize and optimize_pso)."""
from .common import *
from .p02 import Indexer, NB


class Grab(Exception):
    pass


def objective(m, npx, ix, pso):
    """the cost function the optimiser is given: f(PC) -> costs"""
    box = []

    class Opt:
        @staticmethod
        def minimize(fun, x0, args=(), **k):
            box.append(lambda P: fun(P, *args))
            raise Grab()

    class PSO:
        def __init__(self, *a, **k):
            pass

        def optimize(self, function, start=None, bounds=None, niter=50, verbose=1, **kw):
            box.append(lambda P: function(P, **kw))
            raise Grab()
    m.opt, m.PSOOpt = Opt, PSO
    try:
        m.optimize_pso(None, ix, verbose=0) if pso else m.optimize(None, ix)
    except Grab:
        pass
    return box[0]


def cost(m, npx, pso, res, P=(0.5, 0.5, 0.5)):
    ix = Indexer(npx, "EDAX", npx.array([0.5, 0.6, 0.7]), (60.0, 60.0), list(range(len(res))), lambda k, PC, v: res[k])
    return objective(m, npx, ix, pso)(npx.array(list(P)))[0]


def rep(i):
    from pyebsdindex import pcopt as m
    pso = bool(i["pso"])
    n = int(i["n"])
    un = (180.0, 0)
    sets = [[(float(i["fit"][k]), int(i["match"][k])) for k in range(n + 2)]] if i["fit"] else []
    rng = np.random.default_rng(3)
    for _ in range(30):
        sets.append([(float(rng.uniform(0.05, 2.9)), int(rng.integers(3, NB + 1))) for _k in range(n + 2)])
    for s in sets:
        for mask in range(2 ** n) if n <= 3 else (0, 16, 529):
            r = [un if mask >> k & 1 else s[k] for k in range(n)]
            c = cost(m, np, pso, r)
            w = "cost of (fit, matches) %s: %s" % (r, c)
            if not np.isfinite(c) or np.ndim(c):
                return w
            p = cost(m, np, pso, r[::-1])
            if abs(p - c) > 1e-6 * (1 + abs(c)):
                return w + ", %s in reverse order" % p
            for k in range(n):
                if mask >> k & 1:
                    d = cost(m, np, pso, r[:k] + [s[k]] + r[k + 1:])
                    if not c > d:
                        return w + ", not more than %s with pattern %d indexed as %s" % (d, k, s[k])
                    continue
                f, b = r[k]
                d = cost(m, np, pso, r[:k] + [(f * 0.7, b)] + r[k + 1:])
                if not d < c:
                    return w + ", %s with a better fit of pattern %d" % (d, k)
                if b < NB and not cost(m, np, pso, r[:k] + [(f, b + 1)] + r[k + 1:]) < c:
                    return w + ", not less with one more band matched in pattern %d" % k
                for o in range(n) if n <= 3 else (4, 5):
                    if o == k:
                        continue
                    a, z = s[n], s[n + 1]
                    if mask >> o & 1:
                        z = un

                    def at(x, y):
                        t = list(r)
                        t[k], t[o] = x, y
                        return cost(m, np, pso, t)
                    e = at(r[k], r[o]) + at(a, z) - at(r[k], z) - at(a, r[o])
                    if abs(e) > 1e-6 * (1 + abs(c)):
                        return w + ": the share of pattern %d depends on pattern %d" % (k, o)
    ix = Indexer(np, "EDAX", np.array([0.5, 0.6, 0.7]), (60.0, 60.0), list(range(n)), lambda k, PC, v: (float(PC[0] + 2 * PC[1]), NB))
    f = objective(m, np, ix, pso)
    P = np.array([[.4, .5, .6], [.7, .1, .2], [.3, .3, .9]])
    try:
        both, one = f(P.copy()), [f(P[q].copy())[0] for q in range(3)]
    except Exception as e:
        return "cost of several centres: %r" % e
    if np.shape(both) != (3,) or not np.allclose(both, one):
        return "costs of three centres are %s together, %s one by one" % (both, one)


def run():
    c = Check("P03", "pattern-centre cost", modname="p03", functions=["pcopt._optfunction"],
              bounds="1-3 and 12 patterns, indexed with any fit up to 3 degrees and 3-%d matched bands or not at all (fit 180), 1-3 centres" % NB,
              stubs=["indexer: results of indexing unknown", "optimiser: hands over the objective"],
              assumptions=["fit between 0 and 3 degrees when indexed"])
    T = c.twin()
    m = T.load("pyebsdindex.pcopt")

    def ob(pso, n, mask):
        def f(h):
            un = (180.0, 0)
            fit, mt = [Real("fit%d" % k) for k in range(n + 2)], [Int("match%d" % k) for k in range(n + 2)]
            for x in fit:
                assume(x >= 0)
                assume(x <= 3)
            for x in mt:
                assume(x >= 3)
                assume(x <= NB)
            h["inputs"] = dict(pso=pso, n=n, fit=fit, match=mt)
            s = list(zip(fit, mt))
            r = [un if mask >> k & 1 else s[k] for k in range(n)]
            base = cost(m, snp.np, pso, r)
            out = [Claim("order of the patterns", conj(*eqs([base], [cost(m, snp.np, pso, r[::-1])])))]
            B = Z(base)
            for k in range(n) if n <= 3 else (0, 4, n - 1):
                if mask >> k & 1:
                    d = cost(m, snp.np, pso, r[:k] + [s[k]] + r[k + 1:])
                    out.append(Claim("losing a pattern costs", B > Z(d)))
                    continue
                g = Real("better%d" % k)
                d = cost(m, snp.np, pso, r[:k] + [(g, r[k][1])] + r[k + 1:])
                out.append(Claim("a better fit costs less", z3.Implies(z3.And(Z(g) >= 0, Z(g) < Z(r[k][0])), Z(d) < B)))
                d = cost(m, snp.np, pso, r[:k] + [(r[k][0], r[k][1] + 1)] + r[k + 1:])
                out.append(Claim("more matches cost less", z3.Implies(lift(r[k][1]) < NB, Z(d) < B)))
                for o in range(n) if n <= 3 else (4, 5):
                    if o == k:
                        continue
                    a, z = s[n], s[n + 1]

                    def at(x, y):
                        t = list(r)
                        t[k], t[o] = x, y
                        return Z(cost(m, snp.np, pso, t))
                    out.append(Claim("share of a pattern", at(r[k], r[o]) + at(a, z) == at(r[k], z) + at(a, r[o])))
            return out
        return f

    def ob2(pso, n):
        def f(h):
            P = reals("P", 3, 3)
            for k in range(3):
                assume(P[k, 0] >= 0)
                assume(P[k, 0] <= 1)
                assume(P[k, 1] >= 0)
                assume(P[k, 1] <= 1)
            h["inputs"] = dict(pso=pso, n=n, fit=[], match=[])
            ix = Indexer(snp.np, "EDAX", snp.np.array([0.5, 0.6, 0.7]), (60.0, 60.0), list(range(n)),
                         lambda k, PC, v: (PC[0] + 2 * PC[1], NB))
            g = objective(m, snp.np, ix, pso)
            both, one = g(P.copy()), [g(P[q].copy())[0] for q in range(3)]
            return [Claim("every centre has its own cost", conj(tuple(both.shape) == (3,), *eqs(both, snp.np.array(one))))]
        return f

    for pso in (False, True):
        for n in (1, 2, 3):
            for mask in range(2 ** n):
                c.obligation("%s %d patterns unindexed %s" % ("swarm" if pso else "simplex", n, format(mask, "0%db" % n)),
                             ob(pso, n, mask), "rep", timeout=30)
        for mask in (0, 16, 1 + 16 + 512):
            c.obligation("%s 12 patterns unindexed %d" % ("swarm" if pso else "simplex", mask), ob(pso, 12, mask), "rep", timeout=30)
        c.obligation("%s several centres" % ("swarm" if pso else "simplex"), ob2(pso, 2), "rep", timeout=30)
    return c
