"""O02 HDF5 map export"""
from .mapout import *
import os
import shutil
import tempfile

EB = "/EBSD/Data/"


class VH5:
    """file under construction: every dataset as it was given"""
    def __init__(self, store):
        self.d = store

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if data is None:
            data = snp.np.zeros(shape, dtype=dtype)
        if dtype is not None:
            data = snp.np.asarray(data).astype(dtype)
        if name in self.d:
            raise ValueError("dataset %s exists" % name)
        self.d[name.strip("/")] = snp.np.array(data) if not isinstance(data, np.chararray) else data
        return None

    def __setitem__(self, name, data):
        self.create_dataset(name, data=data)

    def create_group(self, name):
        raise sym.Unsupported("create_group")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def facts(get, vals, nph, n, grid, scan, version):
    """(label, got, want, tolerance)"""
    F = []
    A = lambda lab, got, want, tol=0: F.append((lab, got, want, tol))
    last = {f: vals[f][nph] for f in FIELDS}
    nc = columns(vals, grid, n)
    nr = n if grid == "none" else vals["nr"]

    def one(path):
        v = get(scan + path)
        return v if v is None else v.reshape(-1)[0]

    def arr(name):
        v = get(scan + EB + name)
        if v is None or v.ndim != 1 or v.shape[0] < n or (name[1:] != " Position" and v.shape[0] != n):
            A("one entry per scan point", (name, None if v is None else list(v.shape)), (name, [n]))
            return [None] * n
        return v

    add = 1 if version == "8.6" else 0
    e3 = [euler_of(vals["quat"][nph][p]) for p in range(n)]
    for k, nm in enumerate(("Phi1", "Phi", "Phi2")):
        for p, g in enumerate(arr(nm)):
            A("own orientation", g, e3[p][k])
    for f, nm, lab in (("iq", "IQ", "own image quality"), ("pq", "Pattern Quality", "own pattern quality"), ("fit", "Fit", "own fit")):
        for p, g in enumerate(arr(nm)):
            A(lab, g, ("if", last["phase"][p] < 0, g, last[f][p]) if f == "fit" else last[f][p])
    for p, g in enumerate(arr("Phase")):
        A("own phase number", g, ("if", last["phase"][p] < 0, 0, last["phase"][p] + add))
    for p, g in enumerate(arr("CI")):
        A("unindexed marker", g, ("if", last["phase"][p] < 0, -1, last["cm"][p]))
    for p, g in enumerate(arr("X Position")):
        A("column coordinate", g, (p % nc) * vals["xs"])
    for p, g in enumerate(arr("Y Position")):
        A("row coordinate", g, (p // nc) * vals["ys"])
    H = "/EBSD/Header/"
    A("header grid", one(H + "nColumns"), nc)
    A("header grid", one(H + "nRows"), nr)
    A("header steps", one(H + "Step X"), vals["xs"])
    A("header steps", one(H + "Step Y"), vals["ys"])
    A("header tilt", one(H + "Sample Tilt"), vals["tilt"])
    A("header elevation", one(H + "Camera Elevation Angle"), vals["elev"])
    for k, nm in enumerate(("x-star", "y-star", "z-star")):
        A("header pattern centre", one(H + "Pattern Center Calibration/" + nm), vals["pc"][k])
    for k, p in enumerate(phases(nph)):
        b = H + "Phase/%d/" % (k + add)
        for nm, w in (("SpaceGroupNumber", p.spacegroup), ("LGsymID", p.lauecode), ("NumberFamilies", p.npolefamilies)):
            A("phase sections", one(b + nm), w)
        for q, nm in enumerate(("a", "b", "c", "alpha", "beta", "gamma")):
            A("phase sections", one(b + "Lattice Constant " + nm), float(p.latticeparameter[q]) * (10 if q < 3 else 1))
        nm = get(scan + b + "MaterialName")
        A("phase sections", None if nm is None else str(np.asarray(nm).astype(str).reshape(-1)[0]), p.phasename)
        fam = get(scan + b + "hkl Families")
        for q, x in enumerate("HKL"):
            A("phase sections", None if fam is None else [int(y) for y in np.asarray(fam[x]).reshape(-1)],
              [int(y) for y in poles3(p)[:, q]])
    return F


def rep(i):
    import h5py
    from pyebsdindex import ebsdfile
    nph, n, grid = i["nph"], i["n"], i["grid"]
    vals = dict(i["vals"], nc=i["nc"], nr=i["nr"], xs=i["xs"], ys=i["ys"], pc=i["pc"], tilt=i["tilt"], elev=i["elev"])
    for f in FIELDS + ("quat",):
        vals[f] = i[f]
    vals["phase"] = [[int(x) for x in r] for r in vals["phase"]]
    d = make_data(np, vals, nph, n)
    for f in ("iq", "pq", "cm", "fit"):
        vals[f] = d[f].astype(float).tolist()
    before = d.copy()
    folder = tempfile.mkdtemp(prefix="vfo_")
    old = ebsdfile.rotlib
    what = "%d phases, %d points, %s columns, grid %s, version %s" % (nph, n, vals["nc"], grid, i["version"])
    try:
        ebsdfile.rotlib = Rot(np)
        path = os.path.join(folder, "a.oh5")
        try:
            ebsdfile.writeoh5(path, make_indexer(vals, nph, grid), d, datasetname="S", version=i["version"], **out_kwargs(vals, grid))
        except Exception as e:
            return what + ": writing fails with %r" % e
        with h5py.File(path, "r") as f:
            def get(k):
                return np.array(f[k][()]) if k in f else None
            for lab, got, want, tol in facts(get, vals, nph, n, grid, "S", i["version"]):
                if isinstance(want, tuple) and want[0] == "if":
                    want = want[2] if want[1] else want[3]
                if isinstance(want, (list, str, tuple)) or got is None:
                    if got != want:
                        return "%s: %s: %s, expected %s" % (what, lab, got, want)
                elif abs(got - want) > tol + 1e-5 * (1 + abs(want)):
                    return "%s: %s: the file has %s, expected %s" % (what, lab, got, want)
        for f in before.dtype.names:
            if not np.array_equal(before[f], d[f]):
                return what + ": the caller's results (%s) are changed" % f
    finally:
        ebsdfile.rotlib = old
        shutil.rmtree(folder)


def claims_of(F):
    by = {}
    for lab, got, want, tol in F:
        if isinstance(want, tuple) and want[0] == "if":
            want = z3.If(tobool(want[1]), Z(want[2] if want[2] is not None else 0), Z(want[3]))
            want = Sym(want)
        if isinstance(want, (list, str, tuple)) or got is None:
            c = got == want
        else:
            c = Z(got) == Z(want)
        by.setdefault(lab, []).append(c)
    return [Claim(k, conj(*v)) for k, v in by.items()]


def run():
    c = Check("O02", "HDF5 map export", modname="o02", functions=["writeoh5"],
              bounds="1-3 phases, 1-6 points, 1-3 columns; grid of the pattern file, given, columns only given, or none; both file "
                     "versions; all orientations, qualities in their ranges, phase numbers -1..n-1, step sizes 0.1-10",
              stubs=["rotlib.qu2eu: any function of the row (the conversion itself is R02)", "h5py.File: datasets as given"],
              assumptions=["exact reals for the stored single precision numbers"])
    T = c.twin()
    m = T.load("pyebsdindex.ebsdfile")
    m.rotlib = Rot(snp.np)

    def ob(nph, n, nc, nr, grid, version):
        def f(h):
            vals = fresh_vals(nph, n, nc, nr)
            h["inputs"] = dict(nph=nph, n=n, grid=grid, version=version, vals={}, **vals)
            d = make_data(snp.np, vals, nph, n)
            before = {k: snp.plain(d[k]).copy() for k in FIELDS + ("quat",)}
            store = {}
            m.h5py = types.SimpleNamespace(File=lambda path, mode="r", **k: VH5(store))
            m.writeoh5("/vfs/a.oh5", make_indexer(vals, nph, grid), d, datasetname="S", version=version, **out_kwargs(vals, grid))
            out = claims_of(facts(lambda k: store.get(k.strip("/")), vals, nph, n, grid, "S", version))
            out.append(Claim("results not modified", conj(*[eqs(before[k], d[k]) for k in before])))
            return out
        return f

    for nph, n, nc, nr, grid, v in [(1, 1, 1, 1, "none", "8.6"), (1, 4, 2, 2, "file", "8.6"), (2, 6, 3, 2, "file", "9.1"),
                                    (2, 3, 3, 1, "given", "8.6"), (3, 4, 2, 2, "cols", "8.6"), (2, 3, 1, 3, "none", "9.1"),
                                    (2, 4, 2, 2, "nosteps", "8.6"), (1, 5, 3, 2, "cols", "9.1")]:
        c.obligation("%d phases %d points %d columns %s %s" % (nph, n, nc, grid, v), ob(nph, n, nc, nr, grid, v), "rep", timeout=60)
    return c
