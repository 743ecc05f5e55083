"""R02 rotation representations agree."""
from .common import *


def real_rot():
    from pyebsdindex import rotlib
    return rotlib


# ---------------------------------------------------------------- reference (z3 terms or floats)
def matT(m):
    return [[m[j][i] for j in range(3)] for i in range(3)]


def m_eu(c1, s1, c2, s2, c3, s3):
    """Bunge zxz passive matrix"""
    return [[c1 * c3 - s1 * s3 * c2, s1 * c3 + c1 * s3 * c2, s3 * s2],
            [-c1 * s3 - s1 * c3 * c2, -s1 * s3 + c1 * c3 * c2, c3 * s2],
            [s1 * s2, -c1 * s2, c2]]


def m_qu(q, p):
    """homogeneous (times |q|^2) matrix of a quaternion"""
    w, x, y, z = q[0] * (1 if p > 0 else -1), q[1], q[2], q[3]
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]


def m_ax(n, c, s, p):
    """axis (unit) with cos/sin of the angle"""
    x, y, z = n
    o = 1 - c
    if p < 0:
        s = -s
    return [[x * x * o + c, x * y * o - s * z, x * z * o + s * y],
            [x * y * o + s * z, y * y * o + c, y * z * o - s * x],
            [x * z * o - s * y, y * z * o + s * x, z * z * o + c]]


def meq(a, b, scale=None):
    out = []
    for i in range(3):
        for j in range(3):
            out.append(poly_eq(Z(a[i][j]), Z(b[i][j]) if scale is None else Z(b[i][j]) * scale))
    return out


def cs(x):
    c, s = snp.s_cossin(x)
    return Z(c), Z(s)


def nonint(x):
    return x


# ---------------------------------------------------------------- numeric reference for replays
def num_mat(kind, v, p):
    v = np.asarray(v, float).reshape(-1)
    if kind == "eu":
        return np.array(m_eu(np.cos(v[0]), np.sin(v[0]), np.cos(v[1]), np.sin(v[1]), np.cos(v[2]), np.sin(v[2])))
    if kind == "qu":
        return np.array(m_qu(v, p)) / (v @ v)
    if kind == "om":
        return v.reshape(3, 3)
    if kind == "ax":
        return np.array(m_ax(v[:3] / np.linalg.norm(v[:3]), np.cos(v[3]), np.sin(v[3]), p))
    if kind == "ro":
        w = 2 * np.arctan(v[3])
        return np.array(m_ax(v[:3] / np.linalg.norm(v[:3]), np.cos(w), np.sin(w), p))


def canonical(kind, v):
    v = np.asarray(v, float).reshape(-1)
    e = 1e-6
    if kind == "qu":
        return abs(v @ v - 1) < e and v[0] >= -1e-12 and len(v) == 4
    if kind == "om":
        m = v.reshape(3, 3)
        return np.allclose(m @ m.T, np.eye(3), atol=1e-6) and np.linalg.det(m) > 0
    if kind == "eu":
        return len(v) == 3 and -e <= v[0] <= 2 * np.pi + e and -e <= v[1] <= np.pi + e and -e <= v[2] <= 2 * np.pi + e
    if kind == "ax":
        return len(v) == 4 and abs(v[:3] @ v[:3] - 1) < e and -e <= v[3] <= np.pi + e
    if kind == "ro":
        return len(v) == 4 and abs(v[:3] @ v[:3] - 1) < e and v[3] >= 0
    return True


def fix(kind, i):
    """inputs of the model -> exactly valid representation in floats"""
    p = int(i["p"])
    if kind == "qu":
        q = np.array(i["q"], float)
        return q / np.linalg.norm(q)
    if kind == "om":
        q = np.array(i["q"], float)
        return np.array(m_qu(q / np.linalg.norm(q), p))
    if kind in ("ax", "ro"):
        n = np.array(i["n"], float)
        n = n / np.linalg.norm(n)
        if kind == "ax":
            return np.append(n, 2 * np.arctan2(i["sw"], i["cw"]))
        return np.append(n, i["t"])
    if kind == "eu":
        return np.array([2 * np.arctan2(i["s%d" % k], i["c%d" % k]) for k in range(3)])


def rep(i):
    r = real_rot()
    a, b, p = i["from"], i["to"], int(i["p"])
    v = fix(a, i)
    f = getattr(r, "%s2%s" % (a, b))
    for row in (v, np.stack([v, v])):
        out = f(row.copy(), p=p)
        out = out if row is v else out[1]
        if not np.all(np.isfinite(out)) and b != "ro":
            return "%s2%s(%s, p=%d) = %s is not finite" % (a, b, v.tolist(), p, np.asarray(out).tolist())
        M0, M1 = num_mat(a, v, p), num_mat(b, out, p)
        if not np.allclose(M0, M1, atol=3e-6):
            return "%s2%s(%s, p=%d) = %s is a different rotation" % (a, b, v.tolist(), p, np.asarray(out).tolist())
        if not canonical(b, out):
            return "%s2%s(%s, p=%d) = %s is not in canonical form" % (a, b, v.tolist(), p, np.asarray(out).tolist())


# ---------------------------------------------------------------- symbolic inputs
def unit_angle(name):
    return snp.angle(name, 2)


def away(x, v, d=z3.Q(1, 10 ** 9)):
    """the code treats a 1e-12 neighbourhood of degenerate values as the limit: take the limit or stay clear of it"""
    x = Z(x)
    v = Z(v)
    assume(snp.mkbool(z3.Or(x == v, x - v >= d, v - x >= d)))


def make(kind, h, p, case=""):
    """-> (array for the code, reference matrix (z3))"""
    if kind == "eu":
        a = [unit_angle("e%d" % k) for k in range(3)]
        for k in range(3):
            D, c, s = sym.ctx().angles["e%d" % k]
            h["inputs"]["c%d" % k], h["inputs"]["s%d" % k] = Sym(c), Sym(s)
        pi = snp._pi()
        for k, hi in ((0, 2), (1, 1), (2, 2)):
            assume(a[k] >= 0)
            assume(Sym(a[k].e - hi * pi) <= 0)
            D, c, s = sym.ctx().angles["e%d" % k]
            assume(Sym(s) >= 0)                      # half angles in [0, pi] (or [0, pi/2])
            if hi == 1:
                assume(Sym(c) >= 0)
            # links between the angle and its half-angle sine/cosine (used only for range tests)
            assume(snp.mkbool((a[k].e == 0) == z3.And(s == 0, c == 1)))
            assume(snp.mkbool((a[k].e == pi) == (c == 0)))
            assume(snp.mkbool((a[k].e < pi) == (c > 0)))
            away(c, 0)
            away(s, 0)
        t = a[0].e + a[2].e
        c0, s0, c2, s2 = [sym.ctx().angles[n][j] for n in ("e0", "e2") for j in (1, 2)]
        cp, sp = c0 * c2 - s0 * s2, s0 * c2 + c0 * s2       # (e0+e2)/2
        away(sp, 0)
        away(cp, 0)
        assume(snp.mkbool(z3.And((t == 0) == z3.And(sp == 0, cp == 1, a[0].e == 0), (t == 2 * pi) == z3.And(sp == 0, cp == -1),
                                 (t == pi) == z3.And(cp == 0, sp == 1), (t == 3 * pi) == z3.And(cp == 0, sp == -1),
                                 (t < 2 * pi) == z3.Or(sp > 0, z3.And(sp == 0, cp == 1, a[0].e == 0)))))
        away(t, pi)
        away(t, 2 * pi)
        away(t, 3 * pi)
        away(t, 4 * pi)
        x = [cs(t) for t in a]
        return snp.array(a), m_eu(*x[0], *x[1], *x[2])
    if kind in ("qu", "om"):
        q = reals("q", 4)
        zero = {"phi=0": (1, 2), "phi=pi": (0, 3)}.get(case, ())
        for k in zero:
            snp.plain(q)[k] = 0.0
        if zero:
            free = [q[k] for k in range(4) if k not in zero]
            ctx_unit(free)
        else:
            ctx_unit(q)
        h["inputs"]["q"] = q
        zq = [Z(t) for t in q]
        for v in (0, 1, -1):
            away(zq[0], v)
        away(zq[1] * zq[1] + zq[2] * zq[2], 0)
        away(zq[0] * zq[0] + zq[3] * zq[3], 0)
        away(zq[1] * zq[1] + zq[2] * zq[2] + zq[3] * zq[3], 0)
        m = m_qu(zq, p)
        if kind == "qu":
            return q, m
        o = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                o[i, j] = sym.mk(nf(m[i][j]))
        o = o.view(snp.SymArr)
        o._sdt = np.dtype(float)
        return o, m
    n = reals("n", 3)
    ctx_unit(n)
    h["inputs"]["n"] = n
    away(n[2] * n[2], 1)
    away(n[2], 0)
    zn = [Z(t) for t in n]
    if kind == "ax":
        w = unit_angle("w")
        pi = snp._pi()
        D, c, s = sym.ctx().angles["w"]
        h["inputs"]["cw"], h["inputs"]["sw"] = Sym(c), Sym(s)
        assume(w >= 0)
        assume(Sym(w.e - pi) <= 0)
        assume(Sym(c) >= 0)
        assume(Sym(s) >= 0)
        assume(Sym((w.e == 0) == (s == 0)).e if False else snp.mkbool((w.e == 0) == (s == 0)))
        assume(snp.mkbool((w.e == pi) == (c == 0)))
        # documented near-identity cut-off of the code (1e-12 rad): either exactly zero or above it
        assume(snp.mkbool(z3.Or(w.e == 0, w.e >= z3.Q(1, 10 ** 9))))
        assume(snp.mkbool(z3.Or(w.e == pi, w.e <= pi - z3.Q(1, 10 ** 9))))
        cc, ss = cs(w)
        return snp.array([n[0], n[1], n[2], w]), m_ax(zn, cc, ss, p)
    if kind == "ro":
        t = Real("t")
        h["inputs"]["t"] = t
        assume(t >= 0)
        assume(t <= 1e6)
        assume(snp.mkbool(z3.Or(t.e == 0, t.e >= z3.Q(1, 10 ** 9))))
        d = 1 + t.e * t.e
        return snp.array([n[0], n[1], n[2], t]), m_ax(zn, (1 - t.e * t.e) / d, 2 * t.e / d, p)
    raise KeyError(kind)


def claims(kind, out, M, p):
    out = snp.plain(snp.asarray(out))
    pi = snp._pi()
    if kind == "eu":
        o = out.reshape(-1)
        x = [cs(t) for t in o]
        cl = [Claim("same rotation", meq(m_eu(*x[0], *x[1], *x[2]), M))]
        tol = z3.Q(1, 10 ** 9)
        for k, hi in ((0, 2), (1, 1), (2, 2)):
            cl.append(Claim("angle %d in range" % k, z3.And(Z(o[k]) >= 0, Z(o[k]) <= hi * pi)))
        return cl
    if kind == "om":
        return [Claim("same rotation", meq(out.reshape(3, 3), M))]
    if kind == "qu":
        o = [Z(t) for t in out.reshape(-1)]
        n2 = sum((t * t for t in o), z3.RealVal(0))
        return [Claim("unit", poly_eq(n2, z3.RealVal(1))),
                Claim("same rotation", meq(m_qu(o, p), M)),
                Claim("first component not negative", o[0] >= 0)]
    if kind == "ax":
        o = out.reshape(-1)
        n = [Z(t) for t in o[:3]]
        c, s = cs(o[3])
        return [Claim("unit axis", poly_eq(sum((t * t for t in n), z3.RealVal(0)), z3.RealVal(1))),
                Claim("same rotation", meq(m_ax(n, c, s, p), M)),
                Claim("angle in range", z3.And(Z(o[3]) >= 0, Z(o[3]) <= pi))]
    if kind == "ro":
        o = out.reshape(-1)
        n = [Z(t) for t in o[:3]]
        cl = [Claim("unit axis", poly_eq(sum((t * t for t in n), z3.RealVal(0)), z3.RealVal(1)))]
        if isinstance(o[3], float) and np.isinf(o[3]):
            c, s = z3.RealVal(-1), z3.RealVal(0)
        else:
            t = Z(o[3])
            c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
            cl.append(Claim("tangent not negative", t >= 0))
        return cl + [Claim("same rotation", meq(m_ax(n, c, s, p), M))]


DIRECT = ["eu2om", "eu2qu", "ax2om", "ro2ax", "ax2ro", "ax2qu", "qu2om", "om2qu", "qu2ax", "qu2ro"]
EULER = ["eu2ax", "om2eu", "qu2eu"]
COMP = ["ro2om", "om2ax", "ro2qu"]
HEAVY = ["eu2ro", "ro2eu", "om2ro", "ax2eu"]


class Tag(object):
    """an abstract rotation in representation `kind`"""
    def __init__(self, kind, p):
        self.kind, self.p = kind, p


def case_assume(h, case):
    """split the inputs of the Euler conversions by the second Euler angle"""
    q = h["inputs"].get("q")
    if q is None:
        if case == "generic":
            D, c, s = sym.ctx().angles["e1"]
            assume(snp.mkbool(z3.And(c != 0, s != 0)))
        else:
            D, c, s = sym.ctx().angles["e1"]
            assume(Sym(s) == 0 if case == "phi=0" else Sym(c) == 0)
        return
    if case == "generic":
        assume(snp.mkbool(z3.And(Z(q[1]) ** 2 + Z(q[2]) ** 2 > 0, Z(q[0]) ** 2 + Z(q[3]) ** 2 > 0)))


def run():
    c = Check("R02", "representations agree", modname="r02",
              functions=["rotlib." + f for f in DIRECT + EULER + COMP + HEAVY],
              bounds="all Euler triples in [0,2pi]x[0,pi]x[0,2pi], unit quaternions (both signs), rotation matrices "
                     "(image of unit quaternions), unit axes with angle in [0,pi], Rodrigues tangents up to 1e6; both "
                     "conventions; one row per call; near-degenerate inputs inside the code's own 1e-12 cut-offs only at "
                     "the exact limit; eu2ro, ro2eu, om2ro and ax2eu: quick shows that they compose conversions covered "
                     "here, thorough also executes them as a whole",
              assumptions=["exact real arithmetic", "cos/sin/atan2/acos are exact (angle algebra)",
                           "1e-35 guards are below one ulp"])
    T = c.twin()
    r = T.load("pyebsdindex.rotlib")
    thor = thorough()
    jobs = [(fn, "", 20, 150) for fn in DIRECT + COMP]
    jobs += [(fn, case, 20 if fn != "eu2ax" or thor else 5, 400 if thor else 140) for case in ("phi=0", "phi=pi", "generic") for fn in EULER
             if (fn, case) != ("eu2ax", "phi=pi")]          # tan(pi/2) has no exact value
    if thor:
        jobs += [(fn, "", 60, 600) for fn in HEAVY]
    jobs.sort(key=lambda j: -j[3])
    for fn, case, tmo, bud in jobs:
        a, b = fn.split("2")
        for p in (1, -1):
            def f(h, a=a, b=b, p=p, fn=fn, case=case):
                h["inputs"] = {"from": a, "to": b, "p": p}
                v, M = make(a, h, p, case)
                if case:
                    case_assume(h, case)
                out = getattr(r, fn)(v, p=p)
                return claims(b, out, M, p)
            c.obligation("%s%s p=%d" % (fn, " " + case if case else "", p), f, "rep", timeout=tmo, max_paths=300,
                         budget=bud)
    base = DIRECT + EULER + COMP
    for fn in HEAVY:
        a, b = fn.split("2")
        for p in (1, -1):
            def f(h, a=a, b=b, p=p, fn=fn):
                # the conversions checked above, as contracts: a valid `a` goes in, the same rotation in `b` comes out
                h["inputs"] = {"from": a, "to": b, "p": p}
                saved = {}

                def contract(x, y):
                    def g(v, p=1):
                        if not isinstance(v, Tag):
                            raise sym.Unsupported("contract called with a concrete value")
                        ok.append(v.kind == x and v.p == p)
                        return Tag(y, p)
                    return g
                ok = []
                try:
                    for k in base:
                        saved[k] = getattr(r, k)
                        setattr(r, k, contract(*k.split("2")))
                    out = getattr(r, fn)(Tag(a, p), p=p)
                except sym.Unsupported:
                    raise
                except Exception as e:                      # noqa: not written as a composition: left to thorough
                    raise sym.Unsupported("%s is not a composition of checked conversions: %r" % (fn, e))
                finally:
                    for k in saved:
                        setattr(r, k, saved[k])
                if not isinstance(out, Tag):
                    raise sym.Unsupported("%s is not a composition of checked conversions" % fn)
                # any witness rotation will do for the replay
                h["inputs"].update(GENERIC)
                x = Real("w0")
                assume(x == 0)
                return [Claim("composition keeps the rotation", z3.BoolVal(bool(all(ok) and out.kind == b and out.p == p)))]
            c.obligation("%s composition p=%d" % (fn, p), f, "rep", timeout=20, max_paths=5, budget=20)
    return c


GENERIC = {"q": [0.5, 0.3, -0.4, 0.7], "n": [0.48, 0.6, 0.64], "cw": 0.8, "sw": 0.6, "t": 0.75,
           "c0": 0.8, "s0": 0.6, "c1": 0.6, "s1": 0.8, "c2": 0.28, "s2": 0.96}
