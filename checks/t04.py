"""T04 orientation refinement (weighted QUEST) of assigned bands."""
from .common import *

P3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
SETS = {"cube axes": P3,
        "cube axes inverted": [[1.0, 0, 0], [0, -1.0, 0], [0, 0, 1.0]],
        "oblique": [[1.0, 0.0, 0.0], [0.6, 0.8, 0.0], [0.0, 0.6, 0.8]],
        "four": P3 + [[0.6, 0.0, 0.8]],
        "skew": [[0.28, 0.96, 0.0], [0.0, 0.6, -0.8], [0.36, 0.48, 0.8]],
        "five": [[0.6, 0.8, 0.0], [0.0, 1.0, 0.0], [0.8, 0.0, 0.6], [0.36, 0.48, 0.8], [0.0, 0.0, 1.0]]}


def back(q, p):
    """the crystal direction p seen in the detector frame (q* p q)"""
    c = [q[0], -q[1], -q[2], -q[3]]
    return hamilton(hamilton(c, [0] + list(p)), q)[1:]


def put(xs, extra):
    """unassigned bands in between"""
    return list(xs[:1]) + list(extra) + list(xs[1:])


def call(b, npx, lib, match, rows, weights):
    nb = npx.zeros((len(rows), len(rows[0]), 3))
    for p, r in enumerate(rows):
        for i, v in enumerate(r):
            for k in range(3):
                nb[p, i, k] = v[k]
    pm = npx.array(match, dtype=npx.int64)
    valid = (pm >= 0).astype(npx.uint8)
    return nb, b._refine_orientation_quest(lib, nb, pm, valid, weights=weights)


def rep(i):
    from pyebsdindex.tripletvote import BandIndexer
    b = BandIndexer()
    lib = np.array(SETS[i["set"]])
    n = len(lib)
    extra = int(i["extra"])
    for q in ([float(x) for x in i["q"]], [0, .6, .8, 0], [0, 0, 1, 0], [1, 0, 0, 0], [.8, 0, .6, 0], [.1, -.7, .5, .5], [-.3, .7, .1, .2]):
        q = np.array(q, float)
        if np.linalg.norm(q) < 1e-6:
            continue
        q = q / np.linalg.norm(q)
        junk = [[0.3, -0.5, 0.7]] * extra
        row = put([back(q, p) for p in lib], junk)
        rows = [row] if i["two"] == 0 else [[[1.0, 0, 0]] * (n + extra), row]
        match = [[-1] * (n + extra)] * (len(rows) - 1) + [put(list(range(n)), [-1] * extra)]
        w = None
        if i["w"]:
            w = np.array([[0.0] * (n + extra)] * (len(rows) - 1) + [put([float(x) for x in i["w"]], [0.0] * extra)])
        w0 = None if w is None else w.copy()
        try:
            nb, (a, f) = call(b, np, lib, match, rows, w)
        except Exception as e:
            return "refinement of %d bands fails: %r" % (n, e)
        if w is not None and not np.array_equal(w, w0):
            return "the caller's weights %s became %s" % (w0.tolist(), w.tolist())
        a, f = np.asarray(a), np.asarray(f)
        if a.shape != (len(rows), 4):
            return "shape %s" % (a.shape,)
        r = a[-1]
        if not np.all(np.isfinite(r)) or abs(np.linalg.norm(r) - 1) > 1e-6:
            return "orientation %s of rotation %s is no unit quaternion" % (r, q)
        if min(np.abs(r - q).max(), np.abs(r + q).max()) > 1e-5:
            return "bands rotated by %s give %s" % (q, r)
        if r[0] < -1e-6:
            return "scalar part of %s is negative" % r
        if abs(f[-1] - 1) > 1e-6:
            return "fit of exact bands rotated by %s is %s" % (q, f[-1])
        if len(rows) == 2 and not np.allclose(a[0], [1, 0, 0, 0]):
            return "a pattern without assigned bands gets orientation %s" % a[0]


def run():
    c = Check("T04", "orientation refinement", modname="t04",
              functions=["BandIndexer._refine_orientation_quest", "_orientation_quest_nb", "rotlib.quat_vectorL1N"],
              bounds="3-5 assigned bands and up to one unassigned one, concrete crystal directions, all rotations (half turns included), "
                     "given, unequal and absent weights, one or two patterns",
              stubs=["numpy.linalg.det: exact determinant"],
              assumptions=["exact reals; bands exactly consistent with one rotation",
                           "scalar part 0, or at least 0.001 in size"])
    T = c.twin()
    m = T.load("pyebsdindex.tripletvote")
    BI = m.BandIndexer

    def ob(name, half, w, extra, two):
        n0 = len(SETS[name])

        def f(h):
            q = list(reals("q", 4))
            if half:
                q[0] = 0.0
            box(q, 1)
            wt = w
            if w == "t":
                t = Real("t")
                assume(t >= 0.1)
                assume(t <= 0.4)
                wt = [t, 0.5 - t, 0.25] + [0.25 / (n0 - 3)] * (n0 - 3) if n0 > 3 else [t, 0.5 - t, 0.5]
            h["inputs"] = dict(set=name, q=q, w=[] if w is None else list(wt), extra=extra, two=two)
            assume(snp.mkbool(sumsq(q) == 1))
            if half:
                k = 1
                sym.ctx().rules.update({poly.key(Z(q[1])): poly.of(1 - Z(q[2]) * Z(q[2]) - Z(q[3]) * Z(q[3]))})
            else:
                sym.ctx().rules.update(unit_rule(q))
                assume(q[0] >= 0.001)
            lib = snp.np.array(SETS[name])
            n = len(lib)
            row = put([back(q, p) for p in SETS[name]], [list(reals("junk%d" % e, 3)) for e in range(extra)])
            rows = [row] if two == 0 else [[list(reals("other%d" % e, 3)) for e in range(n + extra)], row]
            match = [[-1] * (n + extra)] * (len(rows) - 1) + [put(list(range(n)), [-1] * extra)]
            W = None
            if w is not None:
                W = snp.np.array([[0.0] * (n + extra)] * (len(rows) - 1) + [put(list(wt), [0.0] * extra)])
                W0 = W.copy()
            try:
                nb, (a, fit) = call(BI(), snp.np, lib, match, rows, W)
            except sym.Swollen:            # exact bands: the largest eigenvalue is 1, and one Newton step finds it
                return [Claim("the estimate stays exact", False)]
            r = [a[-1, k] for k in range(4)]
            out = [Claim("shape", tuple(a.shape) == (len(rows), 4))]
            if W is not None:
                out.append(Claim("weights of the caller", conj(*eqs(W, W0))))
            out.append(Claim("unit", conj(poly_eq(sumsq(r), z3.RealVal(1)))))
            same = [poly_eq(Z(r[i]) * Z(q[j]), Z(r[j]) * Z(q[i])) for i in range(4) for j in range(i)]
            out.append(Claim("same rotation", conj(*same)))
            out.append(Claim("scalar part not negative", Z(r[0]) >= 0))
            out.append(Claim("fit of exact bands", conj(poly_eq(Z(fit[-1]), z3.RealVal(1)))))
            if two:
                out.append(Claim("identity without bands", conj(*eqs(a[0], [1, 0, 0, 0]))))
            return out
        return f

    W = {3: [1.0, 0.5, 0.5], 4: [1.0, 0.5, 0.25, 0.25], 5: [0.5, 0.1875, 0.1875, 0.0625, 0.0625]}
    sym.POLYNF = True
    sym.POLYMAX = 1500
    for name in SETS:
        n = len(SETS[name])
        for half in (False, True):
            for w, extra, two in ((W[n], 0, 0), (None, 0, 0), (W[n], 1, 1), (None, 1, 0)):
                if w is None and n != 4:
                    continue
                if not thorough() and (name == "five" and (half or not two)):
                    continue
                if not thorough() and name in ("cube axes inverted", "skew") and (extra, two) != (1, 1):
                    continue
                c.obligation("%s%s %s weights %d unassigned%s" % (name, " half turn" if half else "", "no" if w is None else "given",
                             extra, " second pattern" if two else ""), ob(name, half, w, extra, two), "rep", timeout=30)
    for name in list(SETS)[:None if thorough() else 4]:
        for half in (False, True):
            c.obligation("%s%s any weights" % (name, " half turn" if half else ""), ob(name, half, "t", 1, 0), "rep", timeout=30)
    return c
