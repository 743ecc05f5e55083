"""O01 text map export"""
from .mapout import *
import os
import shutil
import tempfile


def facts(text, val, vals, nph, n, grid):
    """(label, got, want, tolerance) of a written file; the same list decides the symbolic and the real file"""
    head, ph, rows = parse_ang(text)
    F = []
    A = lambda lab, got, want, tol=0: F.append((lab, got, want, tol))
    A("one line per scan point", len(rows), n)
    nc = columns(vals, grid, n)
    nr = n if grid == "none" else vals["nr"]
    for k in ("NCOLS_ODD:", "NCOLS_EVEN:"):
        A("header columns", val(head[k][0]), nc)
    A("header rows", val(head["NROWS:"][0]), nr)
    xs, ys = vals["xs"], vals["ys"]
    A("header steps", val(head["XSTEP:"][0]), xs)
    A("header steps", val(head["YSTEP:"][0]), ys)
    for k, nm in enumerate(("x-star", "y-star", "z-star")):
        A("header pattern centre", val(head[nm][0]), vals["pc"][k])
    A("header tilt", val(head["SampleTiltAngle"][0]), vals["tilt"])
    A("header elevation", val(head["CameraElevationAngle"][0]), vals["elev"])
    for k, p in enumerate(phases(nph)):
        h = ph.get(str(k + 1), {})
        A("phase sections", h.get("MaterialName"), [p.phasename])
        A("phase sections", h.get("Symmetry"), [str(p.lauecode)])
        A("phase sections", h.get("NumberFamilies"), [str(p.npolefamilies)])
        lat = [float(x) for x in h.get("LatticeConstants", [])]
        A("phase sections", lat, [round(float(x), 3) for x in np.array(p.latticeparameter) * [10, 10, 10, 1, 1, 1]])
        A("phase sections", [[int(x) for x in r[:3]] for r in h["hklFamilies"]], poles3(p).tolist())
    last = {f: vals[f][nph] for f in FIELDS}
    for p, r in enumerate(rows[:n]):
        if len(r) != 10:
            A("ten columns", len(r), 10)
            continue
        v = [val(x) for x in r]
        for k, e in enumerate(euler_of(vals["quat"][nph][p])):
            A("own orientation", v[k], e, 1e-5)
        A("column coordinate", v[3], (p % nc) * xs, 1e-5)
        A("row coordinate", v[4], (p // nc) * ys, 1e-5)
        A("own pattern quality", v[5], last["pq"][p], 0.1)
        i = last["phase"][p]
        A("unindexed marker", v[6], ("if", i < 0, -1.0, last["cm"][p]), 1e-3)
        A("own phase number", v[7], ("if", i < 0, 0, i + (0 if nph == 1 else 1)))
        A("own fit", v[9], ("if", i < 0, v[9], last["fit"][p]), 1e-3)
    return F


def rep(i):
    from pyebsdindex import ebsdfile
    nph, n, grid = i["nph"], i["n"], i["grid"]
    vals = dict(i["vals"], nc=i["nc"], nr=i["nr"], xs=i["xs"], ys=i["ys"], pc=i["pc"], tilt=i["tilt"], elev=i["elev"])
    for f in FIELDS + ("quat",):
        vals[f] = i[f]
    vals["phase"] = [[int(x) for x in r] for r in vals["phase"]]
    d = make_data(np, vals, nph, n)
    for f in ("iq", "pq", "cm", "fit"):
        vals[f] = d[f].astype(float).tolist()
    before = d.copy()
    folder = tempfile.mkdtemp(prefix="vfo_")
    old = ebsdfile.rotlib
    what = "%d phases, %d points, %s columns, grid %s" % (nph, n, vals["nc"], grid)
    try:
        ebsdfile.rotlib = Rot(np)
        path = os.path.join(folder, "a.ang")
        try:
            ebsdfile.writeang(path, make_indexer(vals, nph, grid), d, **out_kwargs(vals, grid))
        except Exception as e:
            return what + ": writing fails with %r" % e
        text = open(path, encoding="utf-8", newline="").read()
        for lab, got, want, tol in facts(text, float, vals, nph, n, grid):
            if isinstance(want, tuple):
                want = want[2] if want[1] else want[3]
            if isinstance(want, list):
                if got != want:
                    return "%s: %s: %s, expected %s" % (what, lab, got, want)
            elif abs(got - want) > tol * 1.01 + 1e-6 * (1 + abs(want)):
                return "%s: %s: the file has %s, expected %s" % (what, lab, got, want)
        for f in before.dtype.names:
            if not np.array_equal(before[f], d[f]):
                return what + ": the caller's results are changed"
    finally:
        ebsdfile.rotlib = old
        shutil.rmtree(folder)


def claims_of(F):
    by = {}
    for lab, got, want, tol in F:
        if isinstance(want, tuple):
            want = Sym(z3.If(tobool(want[1]), Z(want[2]), Z(want[3])))
        if isinstance(want, list):
            c = got == want
        elif got is None:
            c = False
        else:
            d = Z(got) - Z(want)
            t = z3.RealVal(str(tol))
            c = z3.And(d <= t, d >= -t)
        by.setdefault(lab, []).append(c)
    return [Claim(k, conj(*v)) for k, v in by.items()]


def run():
    c = Check("O01", "text map export", modname="o01", functions=["writeang"],
              bounds="1-3 phases, 1-6 points, 1-3 columns; grid of the pattern file, given, columns only given, or none; all "
                     "orientations, qualities in their ranges, phase numbers -1..n-1, step sizes 0.1-10",
              stubs=["rotlib.qu2eu: any function of the row (the conversion itself is R02)", "open: text of marked numbers"],
              assumptions=["fit below 100 degrees for indexed points"])
    T = c.twin()
    m = T.load("pyebsdindex.ebsdfile")
    m.rotlib = Rot(snp.np)

    def ob(nph, n, nc, nr, grid):
        def f(h):
            vals = fresh_vals(nph, n, nc, nr)
            h["inputs"] = dict(nph=nph, n=n, grid=grid, vals={}, **vals)
            d = make_data(snp.np, vals, nph, n)
            before = {k: snp.plain(d[k]).copy() for k in FIELDS + ("quat",)}
            log, tok = {}, Tokens()
            m.__dict__["__builtins__"]["_vf_open"] = lambda path, mode="r", *a, **k: TextFile(log, str(path))
            sym.FORMAT = tok
            try:
                m.writeang("/vfs/a.ang", make_indexer(vals, nph, grid), d, **out_kwargs(vals, grid))
            finally:
                sym.FORMAT = None
            text = "".join(log["/vfs/a.ang"])
            out = claims_of(facts(text, tok.val, vals, nph, n, grid))
            out.append(Claim("results not modified", conj(*[eqs(before[k], d[k]) for k in before])))
            return out
        return f

    for nph, n, nc, nr, grid in [(1, 1, 1, 1, "none"), (1, 4, 2, 2, "file"), (2, 6, 3, 2, "file"), (2, 3, 3, 1, "given"),
                                 (3, 4, 2, 2, "cols"), (2, 3, 1, 3, "none"), (2, 4, 2, 2, "nosteps"), (1, 5, 3, 2, "cols")]:
        c.obligation("%d phases %d points %d columns %s" % (nph, n, nc, grid), ob(nph, n, nc, nr, grid), "rep", timeout=60)
    return c
