"""R01 quaternion algebra (rotlib)."""
from .common import *


def rows(a, n):
    return [a[i] for i in range(n)] if a.ndim == 2 else [a] * n


def real_rot():
    from pyebsdindex import rotlib
    return rotlib


def rep_mul(i):
    r = real_rot()
    a, b = np.array(i["a"], float), np.array(i["b"], float)
    p = int(i.get("p", 1))
    out = np.atleast_2d(r.quat_multiply(a, b, p=p))
    n = max(np.atleast_2d(a).shape[0], np.atleast_2d(b).shape[0])
    if out.shape != (n, 4):
        return "quat_multiply shape %s, expected %s" % (out.shape, (n, 4))
    A = np.broadcast_to(np.atleast_2d(a), (n, 4))
    B = np.broadcast_to(np.atleast_2d(b), (n, 4))
    for k in range(n):
        e = np.array(hamilton(A[k], B[k]) if p > 0 else hamilton(B[k], A[k]))
        if not np.allclose(out[k], e, rtol=1e-6, atol=1e-9 * (1 + np.abs(e).max())):
            return "quat_multiply row %d = %s, Hamilton product is %s (a=%s b=%s p=%d)" % (k, out[k], e, A[k], B[k], p)


def rep_mul1(i):
    r = real_rot()
    a, b = np.array(i["a"], float), np.array(i["b"], float)
    p = int(i.get("p", 1))
    out = r.quat_multiply1(a, b, p=p)
    e = np.array(hamilton(a, b) if p > 0 else hamilton(b, a))
    if not np.allclose(out, e, rtol=1e-6, atol=1e-9 * (1 + np.abs(e).max())):
        return "quat_multiply1 = %s, Hamilton product is %s" % (out, e)


def rep_conj(i):
    r = real_rot()
    q = np.array(i["q"], float)
    out = np.atleast_2d(r.quatconj(q))
    e = np.atleast_2d(q) * np.array([1, -1, -1, -1.0])
    if out.shape != e.shape or not np.allclose(out, e):
        return "quatconj(%s) = %s" % (q, out)


def rep_norm(i):
    r = real_rot()
    q = np.array(i["q"], float)
    out = np.atleast_2d(r.quatnorm(q))
    Q = np.atleast_2d(q)
    e = Q / np.linalg.norm(Q, axis=1)[:, None] * np.where(Q[:, :1] >= 0, 1.0, -1.0)
    if out.shape != e.shape or not np.allclose(out, e, atol=1e-8):
        return "quatnorm(%s) = %s, expected %s" % (q.tolist(), out.tolist(), e.tolist())


def rotref(q, v):
    w = np.concatenate([[0.0], v])
    c = np.array([q[0], -q[1], -q[2], -q[3]])
    return np.array(hamilton(hamilton(q, w), c))[1:]


def rep_vec(i):
    r = real_rot()
    q, v = np.array(i["q"], float), np.array(i["v"], float)
    q = (np.atleast_2d(q).T / np.linalg.norm(np.atleast_2d(q), axis=1)).T.reshape(q.shape)
    p = int(i.get("p", 1))
    one = i.get("one")
    out = r.quat_vector1(q, v, p=p)[None] if one else np.atleast_2d(r.quat_vector(q, v, p=p))
    n = max(np.atleast_2d(q).shape[0], np.atleast_2d(v).shape[0])
    if out.shape != (n, 3):
        return "quat_vector shape %s" % (out.shape,)
    Q = np.broadcast_to(np.atleast_2d(q), (n, 4))
    V = np.broadcast_to(np.atleast_2d(v), (n, 3))
    for k in range(n):
        qq = Q[k] if p > 0 else Q[k] * np.array([1, -1, -1, -1])
        e = rotref(qq, V[k])
        if not np.allclose(out[k], e, rtol=1e-6, atol=1e-8 * (1 + np.abs(e).max())):
            return "quat_vector row %d = %s, q v q* = %s (q=%s v=%s p=%d)" % (k, out[k], e, Q[k], V[k], p)


def rep_ave(i):
    r = real_rot()
    q = np.array(i["q"], float)
    out = np.asarray(r.quatave(q)).reshape(-1)
    acc = q[0].copy()
    for k in range(1, len(q)):
        acc = acc + (1.0 if q[0] @ q[k] >= 0 else -1.0) * q[k]
    e = acc / np.linalg.norm(acc) * (1.0 if acc[0] >= 0 else -1.0)
    if out.shape != (4,) or not np.allclose(out, e, atol=1e-7):
        return "quatave = %s, expected %s" % (out, e)


def run():
    c = Check("R01", "quaternion algebra", modname="r01",
              functions=["rotlib.quat_multiply/L/LNN/L1N/1", "rotlib.quatconj/L", "rotlib.quatnorm/L",
                         "rotlib.quatave/L", "rotlib.quat_vector/L/LNN/L1N/LN1/1", "rotlib.prepIn"],
              bounds="all real-valued quaternions/vectors (exact real arithmetic); batches of 1..3 rows in every "
                     "broadcasting combination; both handedness conventions",
              assumptions=["float rounding idealised as exact real arithmetic", "numba compilation is faithful"])
    T = c.twin()
    r = T.load("pyebsdindex.rotlib")
    N = 4 if thorough() else 3

    def arr(name, n, m):
        a = reals(name, n, m) if n else reals(name, m)
        return a

    for p in (1, -1):
        for (n1, n2) in [(0, 0), (1, 1), (N, N), (0, N), (N, 0), (1, 2), (2, 1), (2, 2)]:
            def f(h, n1=n1, n2=n2, p=p):
                a, b = arr("a", n1, 4), arr("b", n2, 4)
                h["inputs"] = dict(a=a, b=b, p=p)
                out = r.quat_multiply(a, b, p=p)
                n = max(n1, n2, 1)
                o = snp.atleast_2d(out)
                cl = [Claim("shape", o.shape == (n, 4))]
                for k in range(n):
                    ra = a[k if n1 == n and n1 > 1 else 0] if a.ndim == 2 else a
                    rb = b[k if n2 == n and n2 > 1 else 0] if b.ndim == 2 else b
                    e = hamilton(ra, rb) if p > 0 else hamilton(rb, ra)
                    cl.append(Claim("row %d is the Hamilton product" % k, eqs(o[k], e)))
                return cl
            c.obligation("product %sx%s p=%d" % (n1, n2, p), f, "rep_mul")

        def f1(h, p=p):
            a, b = arr("a", 0, 4), arr("b", 0, 4)
            h["inputs"] = dict(a=a, b=b, p=p)
            out = r.quat_multiply1(a, b, p=p)
            return [Claim("Hamilton", eqs(out, hamilton(a, b) if p > 0 else hamilton(b, a)))]
        c.obligation("product of single quaternions p=%d" % p, f1, "rep_mul1")

    def falg(h):
        a, b, d = arr("a", 0, 4), arr("b", 0, 4), arr("d", 0, 4)
        h["inputs"] = dict(a=a, b=b)
        ab = r.quat_multiply(a, b)
        return [Claim("associative", eqs(r.quat_multiply(ab, d), r.quat_multiply(a, r.quat_multiply(b, d)))),
                Claim("norms multiply", poly_eq(sumsq(ab), sumsq(a) * sumsq(b))),
                Claim("conjugate inverts", eqs(r.quat_multiply(a, r.quatconj(a)), [Sym(sumsq(a)), 0, 0, 0]))]
    c.obligation("algebraic laws", falg, "rep_mul")

    for n in (0, 1, N):
        def fc(h, n=n):
            q = arr("q", n, 4)
            h["inputs"] = dict(q=q)
            o = snp.atleast_2d(r.quatconj(q))
            Q = snp.atleast_2d(q)
            return [Claim("conjugate", [eqs(o[k], [Q[k][0], -Q[k][1], -Q[k][2], -Q[k][3]]) for k in range(Q.shape[0])])]
        c.obligation("conjugate n=%d" % n, fc, "rep_conj")

        def fn(h, n=n):
            q = arr("q", n, 4)
            Q = snp.atleast_2d(q)
            for k in range(Q.shape[0]):
                assume(Sym(sumsq(Q[k])) >= 1e-6)
                box(Q[k], 1000)
            h["inputs"] = dict(q=q)
            o = snp.atleast_2d(r.quatnorm(q))
            cl = []
            for k in range(Q.shape[0]):
                cl.append(Claim("row %d first component not negative" % k, o[k][0] >= 0))
                # parallel: o_i q_j == o_j q_i
                cl.append(Claim("row %d same rotation" % k,
                                [poly_eq(Z(o[k][i]) * Z(Q[k][j]), Z(o[k][j]) * Z(Q[k][i])) for i in range(4) for j in range(i)]))
                s = snp.s_sqrt(Sym(sumsq(Q[k])))
                s2 = elim(sumsq(o[k]), [Q[k]], Z(s) * Z(s))
                cl.append(Claim("row %d unit length" % k, z3.And(s2 >= 1 - 1e-9, s2 <= 1 + 1e-9)))
            return cl
        c.obligation("normalisation n=%d" % n, fn, "rep_norm", timeout=60)

    for (n1, n2) in [(0, 0), (1, 1), (N, N), (0, N), (N, 0), (2, 1), (1, 2)]:
        for p in (1, -1):
            def fv(h, n1=n1, n2=n2, p=p):
                q, v = arr("q", n1, 4), arr("v", n2, 3)
                Q, V = snp.atleast_2d(q), snp.atleast_2d(v)
                for k in range(Q.shape[0]):
                    ctx_unit(Q[k])
                h["inputs"] = dict(q=q, v=v, p=p)
                o = snp.atleast_2d(r.quat_vector(q, v, p=p))
                n = max(Q.shape[0], V.shape[0])
                cl = [Claim("shape", o.shape == (n, 3))]
                for k in range(n):
                    qq = Q[k if Q.shape[0] == n else 0]
                    vv = V[k if V.shape[0] == n else 0]
                    cl.append(Claim("row %d is q v q*" % k, vecclaim(qq, vv, o[k], p)))
                return cl
            c.obligation("vector rotation %sx%s p=%d" % (n1, n2, p), fv, "rep_vec")

    for p in (1, -1):
        def fv1(h, p=p):
            q, v = arr("q", 0, 4), arr("v", 0, 3)
            ctx_unit(q)
            h["inputs"] = dict(q=q, v=v, p=p, one=True)
            o = r.quat_vector1(q, v, p=p)
            return [Claim("q v q*", vecclaim(q, v, o, p))]
        c.obligation("vector rotation single p=%d" % p, fv1, "rep_vec")

    def fl(h):
        q, v, w = arr("q", 0, 4), arr("v", 0, 3), arr("w", 0, 3)
        ctx_unit(q)
        h["inputs"] = dict(q=q, v=v)
        a, b = r.quat_vector(q, v), r.quat_vector(q, w)
        d0 = sum((Z(a[i]) * Z(b[i]) for i in range(3)), z3.RealVal(0))
        d1 = sum((Z(v[i]) * Z(w[i]) for i in range(3)), z3.RealVal(0))
        return [Claim("angles and lengths preserved", mod_unit(d0 - d1, q))]
    c.obligation("vector rotation is an isometry", fl, "rep_vec")

    def fcomp(h):
        a, b, v = arr("a", 0, 4), arr("b", 0, 4), arr("v", 0, 3)
        ctx_unit(a)
        ctx_unit(b)
        h["inputs"] = dict(q=a, v=v)
        l = r.quat_vector(r.quat_multiply(a, b), v)
        rr = r.quat_vector(a, r.quat_vector(b, v))
        return [Claim("component %d" % i, mod_unit(Z(l[i]) - Z(rr[i]), a, b)) for i in range(3)]
    c.obligation("rotating by a product = rotating twice", fcomp, "rep_vec", timeout=60)

    for n in (1, 2, 3):
        def fa(h, n=n):
            q = arr("q", n, 4)
            for k in range(n):
                ctx_unit(q[k])
            h["inputs"] = dict(q=q)
            for k in range(1, n):     # closely clustered up to sign
                d = Sym(sum((Z(q[0][i]) * Z(q[k][i]) for i in range(4)), z3.RealVal(0)))
                assume((d >= 0.9) | (d <= -0.9))
            for k in range(1, n):     # Cauchy-Schwarz, a consequence of unit length (helps the solver)
                for l in range(1, k):
                    d = Sym(sum((Z(q[l][i]) * Z(q[k][i]) for i in range(4)), z3.RealVal(0)))
                    assume((d <= 1) & (d >= -1))
            o = snp.plain(r.quatave(q)).reshape(-1)
            acc = [Z(x) for x in q[0]]
            for k in range(1, n):
                d = sum((Z(q[0][i]) * Z(q[k][i]) for i in range(4)), z3.RealVal(0))
                up = sym.ctx().branch(d >= 0)
                acc = [acc[i] + (Z(q[k][i]) if up else -Z(q[k][i])) for i in range(4)]
            return [Claim("parallel to the sign-aligned sum",
                          [poly_eq(Z(o[i]) * acc[j], Z(o[j]) * acc[i]) for i in range(4) for j in range(i)]),
                    Claim("first component not negative", o[0] >= 0)]
        c.obligation("average of n=%d" % n, fa, "rep_ave", timeout=60)
    return c


def vecclaim(q, v, o, p):
    qq = [Z(q[0])] + [(Z(q[i]) if p > 0 else -Z(q[i])) for i in (1, 2, 3)]
    w = [z3.RealVal(0)] + [Z(x) for x in v]
    cj = [qq[0], -qq[1], -qq[2], -qq[3]]
    e = hamilton(hamilton(qq, w), cj)[1:]
    return [elim(Z(o[i]) - e[i], [q]) == 0 for i in range(3)]
