"""X02 lattice matrices describe one lattice."""
from .common import *

MATS = ["metricTensor", "reciprocalMetricTensor", "directStructureMatrix", "invDirectStructureMatrix",
        "reciprocalStructureMatrix", "invReciprocalStructureMatrix"]


def bad(x, abc, ang):
    a, b, c = abc
    al, be, ga = np.deg2rad(ang)
    M, R, A, Ai, B, Bi = [np.asarray(getattr(x, m), float) for m in MATS]
    ref = np.array([[a * a, a * b * np.cos(ga), a * c * np.cos(be)], [a * b * np.cos(ga), b * b, b * c * np.cos(al)],
                    [a * c * np.cos(be), b * c * np.cos(al), c * c]])
    s = max(abc) ** 2
    t = 1e-5
    I = np.eye(3)
    if abs(M - ref).max() > t * s:
        return "metric tensor is %s, expected %s" % (M.tolist(), ref.tolist())
    for name, p, e, sc in (("A^T A = metric", A.T @ A, M, s), ("A A^-1 = 1", A @ Ai, I, 1), ("A^-1 A = 1", Ai @ A, I, 1),
                           ("metric times reciprocal metric = 1", M @ R, I, 1), ("B = A^-T", B, Ai.T, 1),
                           ("B B^-1 = 1", B @ Bi.T if np.allclose(B @ Bi.T, I, atol=1e-3) else B @ Bi, I, 1)):
        if abs(p - e).max() > 1e-3 * sc:
            return "%s fails: %s versus %s" % (name, p.tolist(), e.tolist())
    if abs(x.volume ** 2 - np.linalg.det(M)) > 1e-4 * abs(np.linalg.det(M)):
        return "volume %g squared is not the determinant %g" % (x.volume, np.linalg.det(M))
    if np.linalg.det(A) <= 0 or abs(A[1, 0]) + abs(A[2, 0]) + abs(A[2, 1]) > 1e-6:
        return "structure matrix %s is not right-handed upper triangular" % A.tolist()


def rep(i):
    from pyebsdindex.crystallometry import Crystal
    abc = [float(i[k]) for k in "abc"]
    ang = [float(np.degrees(np.arctan2(i["s%d" % k], i["c%d" % k]))) for k in range(3)]
    # the solver's cell, then cells of the same kind at other scales
    for sc in (1.0, 3.0 / min(abc)):
        l = [x * sc for x in abc]
        x = Crystal("x", *l, *ang)
        m = bad(x, l, ang)
        if m:
            return "cell %s: %s" % (l + ang, m)


class generic:
    """no matrix entry falls below the clean-up threshold unless it is identically zero; no divisor is zero"""
    def __enter__(self):
        self.old = sym.Ctx.branch, sym.DIVZERO
        sym.DIVZERO = False
        old = self.old[0]

        def branch(ctx, cond):
            c = z3.simplify(cond)
            if z3.is_true(c) or z3.is_false(c):
                return z3.is_true(c)
            e = small(c)
            if e is not None:
                while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                    e = e.arg(1)
                if poly_eq(e, z3.RealVal(0)).eq(z3.BoolVal(True)):
                    return True
                ctx.add(z3.Not(cond))
                return False
            return old(ctx, cond)
        sym.Ctx.branch = branch

    def __exit__(self, *a):
        sym.Ctx.branch, sym.DIVZERO = self.old


def small(c):
    """e when c is |e| < tiny constant"""
    neg = z3.is_not(c)
    if neg:
        c = c.arg(0)
    if not (z3.is_lt(c) or z3.is_le(c) or z3.is_gt(c) or z3.is_ge(c)):
        return None
    l, r = c.children()
    up = (z3.is_lt(c) or z3.is_le(c)) != neg            # l below r
    if not up:
        l, r = r, l
    if z3.is_rational_value(r) and 0 < r.as_fraction() <= 1e-5:
        return l
    return None


def unthreshold(e):
    """|e| < 1e-6 is replaced by zero: assume no entry inside the cut-off that is not exactly zero"""
    e = lift(e)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        z, v = (a, b) if sym._iszero(a) else (b, a)
        if sym._iszero(z):
            v = unthreshold(v)
            sym.ctx().add(z3.Implies(e == 0, v == 0))
            return v
    return toreal(e)


def rep_hex(i):
    from pyebsdindex import crystal_sym as cs
    p3 = np.array(i["p"], float).reshape(-1, 3)
    p4 = np.asarray(cs.hex3poles2hex4poles(p3))
    if p4 is None or p4.shape != (len(p3), 4):
        return "hex3poles2hex4poles(%s) = %s" % (p3.tolist(), p4)
    if abs(p4[:, :3].sum(axis=1)).max() > 1e-9:
        return "four-index pole %s does not satisfy h+k+i=0" % p4.tolist()
    b = np.asarray(cs.hex4poles2hex3poles(p4))
    if not np.allclose(b, p3):
        return "poles %s come back as %s" % (p3.tolist(), b.tolist())


def run():
    c = Check("X02", "lattice matrices", modname="x02",
              functions=["crystallometry.Crystal.__init__", "crystal_sym.hex3poles2hex4poles",
                         "crystal_sym.hex4poles2hex3poles"],
              bounds="triclinic, monoclinic, orthogonal and hexagonal cells with edges in [0.1, 100] and non-degenerate angles",
              assumptions=["exact real arithmetic", "no matrix entry is non-zero but below the code's 1e-6 cut-off"])
    T = c.twin()
    X = T.load("pyebsdindex.crystallometry")
    cs = T.load("pyebsdindex.crystal_sym")
    cells = {"triclinic": (), "monoclinic": (0, 2), "orthogonal": (0, 1, 2), "hexagonal": (0, 1)}
    for name, right in cells.items():
        def f(h, name=name, right=right):
            ed = [Real(k) for k in "abc"]
            for k, v in zip("abc", ed):
                assume(v >= 0.1)
                assume(v <= 100)
                h["inputs"][k] = v
            cos, sin, deg = [], [], []
            for k in range(3):
                if k in right:
                    deg.append(90.0)
                    cc, ss = 0.0, 1.0
                elif name == "hexagonal":
                    deg.append(120.0)
                    cc, ss = snp.s_cossin(2 * np.pi / 3)
                else:
                    an = snp.angle("t%d" % k, 1)
                    D, cc, ss = sym.ctx().angles["t%d" % k]
                    assume(snp.mkbool(z3.And(ss >= z3.Q(1, 100), z3.Or(cc >= z3.Q(1, 1000), cc <= z3.Q(-1, 1000)))))
                    deg.append(an * 180 / Sym(snp._pi()))
                    cc, ss = Sym(cc), Sym(ss)
                cos.append(Z(cc))
                sin.append(Z(ss))
                h["inputs"]["c%d" % k], h["inputs"]["s%d" % k] = cc, ss
            det = 1 - cos[0] ** 2 - cos[1] ** 2 - cos[2] ** 2 + 2 * cos[0] * cos[1] * cos[2]
            d2 = 1 - cos[0] * cos[0] - cos[1] * cos[1] - cos[2] * cos[2] + 2 * cos[0] * cos[1] * cos[2]
            sym.ctx().add(d2 >= z3.Q(1, 1000))
            with generic():
                x = X.Crystal("x", *ed, *deg)
            M, R, A, Ai, B, Bi = [[[unthreshold(v) for v in r] for r in snp.plain(snp.asarray(getattr(x, m)))] for m in MATS]
            a, b, cc = [Z(v) for v in ed]
            ref = [[a * a, a * b * cos[2], a * cc * cos[1]], [a * b * cos[2], b * b, b * cc * cos[0]],
                   [a * cc * cos[1], b * cc * cos[0], cc * cc]]
            I = [[z3.RealVal(int(i == j)) for j in range(3)] for i in range(3)]
            mul = lambda p, q: [[sum((p[i][k] * q[k][j] for k in range(3)), z3.RealVal(0)) for j in range(3)] for i in range(3)]
            tr = lambda p: [[p[j][i] for j in range(3)] for i in range(3)]
            eq = lambda p, q: [poly_eq(p[i][j], q[i][j]) for i in range(3) for j in range(3)]
            v = Z(x.volume)
            return [Claim("metric tensor", eq(M, ref)), Claim("structure matrix gives the metric", eq(mul(tr(A), A), ref)),
                    Claim("inverse structure matrix", eq(mul(A, Ai), I)),
                    Claim("reciprocal metric inverts the metric", eq(mul(M, R), I)),
                    Claim("reciprocal structure is the inverse transpose", eq(B, tr(Ai))),
                    Claim("inverse reciprocal structure", eq(Bi, tr(A))),
                    Claim("volume squared is the determinant", poly_eq(v * v, a * a * b * b * cc * cc * d2)),
                    Claim("volume positive", v > 0),
                    Claim("upper triangular, right-handed", z3.And(A[1][0] == 0, A[2][0] == 0, A[2][1] == 0, A[0][0] > 0,
                                                                   A[1][1] > 0, A[2][2] > 0))]
        c.obligation("cell " + name, f, "rep", timeout=60, max_paths=60, budget=300)

    for n in (1, 2):
        def g(h, n=n):
            p = reals("p", n, 3)
            h["inputs"]["p"] = p
            q = cs.hex3poles2hex4poles(p)
            Q = snp.plain(snp.asarray(q)).reshape(-1, 4)
            b = snp.plain(snp.asarray(cs.hex4poles2hex3poles(q))).reshape(-1)
            return [Claim("h+k+i = 0", [Z(r[0]) + Z(r[1]) + Z(r[2]) == 0 for r in Q]),
                    Claim("round trip", eqs(b, p))]
        c.obligation("four-index poles n=%d" % n, g, "rep_hex")
    return c
