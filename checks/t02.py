"""T02 triplet voting."""
from .common import *
import itertools
import math

ALL3 = list(itertools.permutations(range(3)))


def tri(a, b, c):
    """three unit normals with angles (degrees) a between 0 and 1, b between 0 and 2, c between 1 and 2"""
    ca, cb, cc = (math.cos(math.radians(x)) for x in (a, b, c))
    sa = math.sin(math.radians(a))
    y = (cc - ca * cb) / sa
    return [[1.0, 0.0, 0.0], [ca, sa, 0.0], [cb, y, math.sqrt(max(0.0, 1 - cb * cb - y * y))]]


SETS = {}
for _p in itertools.permutations((35.0, 55.0, 75.0)):
    SETS["angles %g/%g/%g" % _p] = tri(*_p)
SETS["obtuse"] = [[1.0, 0.0, 0.0], [-0.6, 0.8, 0.0], [0.28, -0.1, -math.sqrt(1 - 0.28 ** 2 - 0.01)]]
NEAR = {"nearly equal %g/%g/%g" % p: tri(*p) for p in
        ((40.0, 40.5, 70.0), (40.5, 70.0, 40.0), (70.0, 40.0, 40.5), (40.0, 70.0, 70.5), (70.0, 70.5, 40.0),
         (70.5, 40.0, 70.0), (60.0, 60.5, 61.0))}
FOUR = {"four bands": tri(35.0, 55.0, 75.0) + [[-0.707, -0.697, math.sqrt(1 - 0.707 ** 2 - 0.697 ** 2)]]}
FAMS = [(0, 1, 2), (0, 0, 1), (1, 0, 1), (1, 1, 1)]


def angles(norms):
    n = len(norms)
    return {(i, j): math.degrees(math.acos(min(1.0, abs(sum(a * b for a, b in zip(norms[i], norms[j]))))))
            for i in range(n) for j in range(i + 1, n)}


def vote(BI, npx, norms, inten, entries, tol, nfam):
    """entries: [(angles AB, AC, BC), (families A, B, C)] stored by the library's own sorting"""
    b = BI()
    ang, fid = npx.zeros((len(entries), 3)), npx.zeros((len(entries), 3), dtype=npx.int64)
    for q, (a, f) in enumerate(entries):
        for k in range(3):
            ang[q, k] = a[k]
            fid[q, k] = f[k]
    ang, fid = b._sortlib_id(ang, fid, findDups=False)
    nb = npx.zeros((1, len(norms), 3))
    it = npx.zeros((1, len(norms)))
    for i, v in enumerate(norms):
        it[0, i] = inten[i]
        for k in range(3):
            nb[0, i, k] = v[k]
    return b._tripvote_numba(nb, it, b.lut, tol, ang, fid, nfam)


def credit(norms, inten, entries, tol, nfam, le, count, slack=1.0):
    """number of compatible assignments of library triplets to band triplets crediting family f to band b"""
    al = angles(norms)
    n = len(norms)
    out = [[0] * n for _ in range(nfam)]
    for tr in itertools.combinations(range(n), 3):
        if any(inten[t] < 1e-6 for t in tr):
            continue
        for a, f in entries:
            for p in ALL3:                                  # pole k of the entry is band tr[p[k]]
                bnd = [tr[p[k]] for k in range(3)]
                obs = [al[tuple(sorted((bnd[x], bnd[y])))] for x, y in ((0, 1), (0, 2), (1, 2))]
                ok = [le(a[k], obs[k], tol, slack) for k in range(3)]
                for k in range(3):
                    out[f[k]][bnd[k]] = count(out[f[k]][bnd[k]], ok)
    return out


def num_le(a, o, tol, slack):
    return abs(a - o) <= slack * tol


def num_count(s, ok):
    return s + (1 if all(ok) else 0)


def judge(norms, inten, entries, tol, nfam, got, exact):
    accw, fam, rank, cm, acc = [np.asarray(x)[0] for x in got]
    want = credit(norms, inten, entries, tol, nfam, num_le, num_count)
    wide = credit(norms, inten, entries, tol, nfam, num_le, num_count, 2.0)
    for f in range(nfam):
        for b in range(len(norms)):
            w = "family %d of band %d: %g votes" % (f, b, acc[f, b])
            if exact and acc[f, b] != want[f][b]:
                return w + ", %d compatible assignments" % want[f][b]
            if acc[f, b] > 0 and wide[f][b] == 0:
                return w + " although no library triplet is compatible with that assignment"
            if acc[f, b] == 0 and want[f][b] > 0 and exact:
                return w + " although a library triplet matches"
            if accw[f, b] < -1e-4 or accw[f, b] > tol * acc[f, b] + 1e-3:
                return w + " weighing %g" % accw[f, b]
    for b in range(len(norms)):
        if accw[int(fam[b]), b] < accw[:, b].max() - 1e-4:
            return "band %d is given family %d, which has fewer votes than another" % (b, fam[b])
        tot, top = accw[:, b].sum(), np.sort(accw[:, b])
        if abs(tot - 1) < 1e-3 or abs(tot - round(tot)) < 1e-3:
            continue
        second = top[-2] if nfam > 1 else 0.0
        c = 0.0 if int(tot) < 1 else (top[-1] - second) / int(tot)
        if abs(cm[b] - c) > 1e-3 * (1 + c):
            return "confidence of band %d is %g, expected %g" % (b, cm[b], c)


def all_sets():
    r = dict(SETS)
    r.update(NEAR)
    r.update(FOUR)
    return r


def rep(i):
    from pyebsdindex.tripletvote import BandIndexer
    norms = all_sets()[i["set"]]
    inten, nfam = [float(x) for x in i["inten"]], int(i["nfam"])
    al = sorted(angles(norms).values())
    tol = float(i["tol"])
    fams = [tuple(int(x) for x in f) for f in i["fams"]]
    tries = [[[float(x) for x in a] for a in i["ang"]]]
    rng = np.random.default_rng(4)
    ab = angles(norms)
    for tr in itertools.combinations(range(len(norms)), 3):
        o = [ab[(tr[0], tr[1])], ab[(tr[0], tr[2])], ab[(tr[1], tr[2])]]
        for p in ALL3:
            t = dict(zip(((0, 1), (0, 2), (1, 2)), o))
            perm = [t[tuple(sorted((p[x], p[y])))] for x, y in ((0, 1), (0, 2), (1, 2))]
            tries.append([[perm[k] + 0.6 * tol * rng.uniform(-1, 1) for k in range(3)] for _ in fams])
    for ang in tries:
        entries = list(zip(ang, fams))
        edge = [abs(abs(x - y) - s * tol) < 1e-3 for a in ang for x in a for y in al for s in (1, 2)]
        if any(edge):
            continue
        try:
            got = vote(BandIndexer, np, norms, inten, entries, tol, nfam)
        except (IndexError, ValueError) as e:
            return "%d families, bands %s: voting fails with %r" % (nfam, i["set"], e)
        m = judge(norms, inten, entries, tol, nfam, got, bool(i["exact"]))
        if m:
            return "bands %s, library %s, tolerance %g: %s" % (i["set"], entries, tol, m)


def sym_le(a, o, tol, slack):
    a, o, t = Z(a), z3.RealVal(str(Fraction(o))), Z(tol)
    return z3.And(a - o <= slack * t, o - a <= slack * t)


def sym_count(s, ok):
    s = s if z3.is_expr(s) else z3.RealVal(s)
    return s + z3.If(z3.And(ok), z3.RealVal(1), z3.RealVal(0))


from fractions import Fraction


def run():
    c = Check("T02", "triplet voting", modname="t02",
              functions=["BandIndexer._tripvote_numba", "BandIndexer._sortlib_id", "BandIndexer.__init__"],
              bounds="all library angles and tolerances, one or two library triplets, 1-3 pole families, 3 or 4 bands at "
                     "fixed normals covering every order of the three angles, nearly equal angles and invalid bands",
              assumptions=["exact real arithmetic for the library angles and weights"])
    T = c.twin()
    m = T.load("pyebsdindex.tripletvote")

    def ob(name, norms, inten, fams, nfam, exact, gap):
        al = sorted(a for (x, y), a in angles(norms).items() if inten[x] and inten[y])
        if exact:                                       # exact credit is claimed while no two angles are within 2 tol
            gap = min(gap, min(y - x for x, y in zip(al, al[1:] + [al[-1] + 99])) / 2 - 0.01)

        def f(h):
            tol = Real("tol")
            assume(tol >= 0.25)
            assume(tol <= gap)
            ang = [[Real("a%d_%d" % (q, k)) for k in range(3)] for q in range(len(fams))]
            for a in ang:
                for x in a:
                    assume(x >= 0)
                    assume(x <= 90)
            for o in angles(norms).values():            # exactly on the tolerance either answer is right
                for a in ang:
                    for x in a:
                        for k in (1, 2):
                            d = Z(x) - z3.RealVal(str(Fraction(o)))
                            g = z3.RealVal("1/1000")
                            e = z3.If(d >= 0, d, -d) - k * Z(tol)
                            assume(snp.mkbool(z3.Or(e >= g, e <= -g)))
            h["inputs"].update(set=name, inten=inten, fams=[list(x) for x in fams], ang=ang, tol=tol, nfam=nfam, exact=exact)
            entries = list(zip(ang, fams))
            accw, fam, rank, cm, acc = vote(m.BandIndexer, snp.np, norms, inten, entries, tol, nfam)
            want = credit(norms, inten, entries, tol, nfam, sym_le, sym_count)
            wide = credit(norms, inten, entries, tol, nfam, sym_le, sym_count, 2)
            cl, n = [], len(norms)
            acc, accw, fam = (snp.plain(snp.asarray(x)) for x in (acc, accw, fam))
            R = lambda x: x if z3.is_expr(x) else z3.RealVal(x)
            for g in range(nfam):
                for b in range(n):
                    v, w = Z(acc[0, g, b]), Z(accw[0, g, b])
                    if exact:
                        cl.append(Claim("votes of family %d for band %d" % (g, b), v == R(want[g][b])))
                    else:
                        cl.append(Claim("votes only for compatible assignments: family %d band %d" % (g, b),
                                        [z3.Implies(v > 0, R(wide[g][b]) > 0)]))
                    cl.append(Claim("weight within the votes: family %d band %d" % (g, b),
                                    [w >= 0, w <= Z(tol) * v]))
            for b in range(n):
                fb = Z(fam[0, b])
                top = z3.Or([z3.And(fb == g, *[Z(accw[0, g, b]) >= Z(accw[0, k, b]) for k in range(nfam)])
                             for g in range(nfam)])
                cl.append(Claim("band %d is given the family with most votes" % b, top))
            return cl
        c.obligation("%s families %s of %d%s" % (name, fams, nfam, "" if all(inten) else " invalid %d" % inten.index(0)),
                     f, "rep", timeout=15, max_paths=3000, budget=200)

    one = [1.0, 1.0, 1.0]
    for name, norms in SETS.items():
        for fams in FAMS[:1] + ([FAMS[1 + list(SETS).index(name) % 3]] if not thorough() else FAMS[1:]):
            ob(name, norms, one, [fams], max(fams) + 1 if fams != (1, 1, 1) else 3, True, 5.0)
        if thorough() or list(SETS).index(name) % 3 == 0:
            ob(name, norms, one, [(0, 0, 0)], 1, True, 5.0)
    for k in range(3):
        inten = list(one)
        inten[k] = 0
        ob("angles 35/55/75", SETS["angles 35/55/75"], inten, [(0, 1, 2)], 3, True, 5.0)
    for name, norms in list(NEAR.items())[:7 if thorough() else 6]:
        ob(name, norms, one, [(0, 1, 2)], 3, False, 5.0)
    for k in range(4) if thorough() else (0, 2):
        inten = [1.0] * 4
        inten[k] = 0
        ob("four bands", FOUR["four bands"], inten, [(0, 1, 2)], 3, True, 2.0)
    if thorough():
        ob("four bands", FOUR["four bands"], [1.0] * 4, [(0, 1, 2)], 3, True, 2.0)
    for name in list(SETS)[:2] if thorough() else []:
        ob(name, SETS[name], one, [(0, 1, 2), (1, 0, 0)], 3, True, 5.0)
    return c
