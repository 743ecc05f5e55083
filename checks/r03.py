"""R03 batch conversions treat rows independently, inputs unmodified."""
from .common import *

WIDTH = {"eu": (3,), "om": (3, 3), "qu": (4,), "ax": (4,), "ro": (4,), "ho": (3,), "cu": (3,)}
CONV = ["eu2om", "eu2ax", "eu2qu", "om2eu", "ax2om", "qu2eu", "ax2ho", "ho2ax", "ro2ax", "ax2ro", "ax2qu", "ro2ho",
        "qu2om", "om2qu", "qu2ax", "qu2ro", "qu2ho", "ho2cu", "cu2ho", "eu2ro", "ro2om", "ro2eu", "eu2ho", "om2ax",
        "om2ro", "om2ho", "ax2eu", "ro2qu", "ho2eu", "ho2om", "ho2ro", "ho2qu", "eu2cu", "om2cu", "ax2cu", "ro2cu",
        "qu2cu", "cu2eu", "cu2om", "cu2ax", "cu2ro", "cu2qu"]
UNARY = {"quatnorm": "qu", "quatconj": "qu", "axnorm": "ax"}


def rows_real(kind):
    """concrete witnesses: generic and degenerate rotations in one representation"""
    from pyebsdindex import rotlib as r
    qs = np.array([[1.0, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1.0, 0], [0, 0, 0, 1.0], [0.5, 0.5, 0.5, 0.5],
                   [np.sqrt(0.5), 0, 0, np.sqrt(0.5)], [np.sqrt(0.5), 0, 0, -np.sqrt(0.5)], [0, 0.6, 0.8, 0],
                   [0.2, 0.4, -0.4, 0.8], [0.8, -0.36, 0.0, 0.48], [0.1, 0.7, 0.7, 0.1]])
    qs /= np.linalg.norm(qs, axis=1)[:, None]
    if kind == "qu":
        return [q for q in qs]
    return [np.squeeze(getattr(r, "qu2" + kind)(q)) for q in qs]


def rep(i):
    from pyebsdindex import rotlib as r
    fn, p = i["fn"], int(i["p"])
    kind = UNARY.get(fn) or fn.split("2")[0]
    f = getattr(r, fn)
    kw = {} if fn in UNARY else {"p": p}
    rows = rows_real(kind)
    if i.get("rows") is not None:
        for v in i["rows"]:
            v = np.array(v, float).reshape(WIDTH[kind])
            if np.all(np.isfinite(v)) and np.linalg.norm(v) > 1e-3:
                rows.insert(0, v)
    for a in rows:
        for b in rows:
            batch = np.ascontiguousarray(np.stack([a, b, a]))
            keep = batch.copy()
            out = np.asarray(f(batch, **kw))
            if not np.array_equal(batch, keep):
                return "%s modified its input array: %s became %s" % (fn, keep.tolist(), batch.tolist())
            for k, x in enumerate((a, b, a)):
                x = np.array(x)
                y = x.copy()
                o = np.squeeze(np.asarray(f(y, **kw)))
                if not np.array_equal(x, y):
                    return "%s modified its input %s" % (fn, x.tolist())
                if not np.allclose(o, np.squeeze(out[k]), atol=1e-9, equal_nan=True):
                    return "%s(batch)[%d] = %s but alone the row %s gives %s (batch %s)" % (
                        fn, k, np.squeeze(out[k]).tolist(), x.tolist(), o.tolist(), batch.tolist())


def run():
    c = Check("R03", "batch independence", modname="r03", functions=["rotlib." + f for f in CONV + list(UNARY)],
              bounds="batches of 2 rows with arbitrary (symbolic) entries, every combination of the per-row branches up "
                     "to the path limit; batch versus one-row and one-dimensional calls; both conventions",
              assumptions=["elementary functions and division are uninterpreted (equal arguments, equal results)"])
    sym.SHUFFLE = 1
    T = c.twin()
    r = T.load("pyebsdindex.rotlib")
    thor = thorough()
    for fn in list(CONV) + list(UNARY):
        kind = UNARY.get(fn) or fn.split("2")[0]
        for p in ((1, -1) if fn not in UNARY else (1,)):
            def f(h, fn=fn, kind=kind, p=p):
                h["inputs"] = {"fn": fn, "p": p}
                w = WIDTH[kind]
                sym.UFMODE = True
                try:
                    a = reals("v", *((2,) + w))
                    h["inputs"]["rows"] = a
                    before = [x for x in snp.plain(a).reshape(-1)]
                    g = getattr(r, fn)
                    kw = {} if fn in UNARY else {"p": p}
                    out = snp.asarray(g(a, **kw))
                    after = [x for x in snp.plain(a).reshape(-1)]
                    cl = [Claim("input unmodified", [same(x, y) for x, y in zip(before, after)])]
                    for k in range(2):
                        x = reals("v_", 0) if False else snp.array(snp.plain(a)[k].copy())
                        o = snp.plain(snp.asarray(g(x, **kw))).reshape(-1)
                        o2 = snp.plain(snp.asarray(g(snp.array(snp.plain(a)[k:k + 1].copy()), **kw))).reshape(-1)
                        b = snp.plain(out)[k].reshape(-1)
                        cl.append(Claim("row %d equals the row alone" % k, len(b) == len(o) and all(
                            same(x, y) for x, y in zip(b, o))))
                        cl.append(Claim("row %d as one-row batch" % k, len(o2) == len(o) and all(
                            same(x, y) for x, y in zip(o2, o))))
                    return [Claim(x.label, z3.BoolVal(bool(all(x.cond) if isinstance(x.cond, list) else x.cond))) for x in cl]
                finally:
                    sym.UFMODE = False
            c.obligation("%s p=%d" % (fn, p), f, "rep", timeout=10, max_paths=3000 if thor else (400 if fn in ("ho2cu", "cu2ho") else 150),
                         budget=600 if thor else 60)
    return c


def same(x, y):
    if isinstance(x, Sym) or isinstance(y, Sym):
        d = z3.simplify(Z(x) - Z(y), som=True)
        return z3.is_rational_value(d) and d.numerator_as_long() == 0
    x, y = float(x), float(y)
    return x == y or (x != x and y != y)
