"""F04 HDF5 pattern files."""
from .common import *
from . import fs
from .f01 import expected
from .f02 import supply
import os
import shutil
import tempfile
import types


class Lay:
    """one scan of an HDF5 file"""
    fmt = "UP3"

    def __init__(self, W, H, ncols, nrows, xstep, ystep, bits):
        self.W, self.H, self.ncols, self.nrows, self.xstep, self.ystep, self.bits = W, H, ncols, nrows, xstep, ystep, bits
        self.n = ncols * nrows


DIAL = {
    "EDAX": dict(suffix=".oh5", root={"Version": [b"OIM Analysis 8.6.0050"], "Manufacturer": [b"EDAX"]}, pat="Pattern", arr=True,
                 head=dict(ncols="nColumns", nrows="nRows", xstep="Step X", ystep="Step Y"), extra={"Grid Type": [b"SqrGrid"]}),
    "EDAX h5": dict(suffix=".h5", root={"Version": [b"OIM Analysis 8.6.0050"], "Manufacturer": [b"EDAX"]}, pat="Pattern", arr=True,
                    head=dict(ncols="nColumns", nrows="nRows", xstep="Step X", ystep="Step Y"), extra={"Grid Type": [b"SqrGrid"]}),
    "kikuchipy": dict(suffix=".h5", root={"version": [b"0.8.0"], "manufacturer": [b"kikuchipy"]}, pat="patterns", arr=True,
                      head=dict(ncols="n_columns", nrows="n_rows", xstep="step_x", ystep="step_y"), extra={"grid_type": [b"square"]}),
    "Bruker": dict(suffix=".h5", root={"Version": b"Esprit 2.X", "Manufacturer": b"Bruker Nano"}, pat="RawPatterns", arr=False,
                   head=dict(ncols="NCOLS", nrows="NROWS", xstep="XSTEP", ystep="YSTEP"), extra={}),
    "Oxford": dict(suffix=".h5oina", root={"Format Version": [b"5.0"]}, pat="Processed Patterns", arr=True,
                   head=dict(ncols="X Cells", nrows="Y Cells", xstep="X Step", ystep="Y Step"), extra={}, beam=True),
    "Oxford raw": dict(suffix=".h5oina", root={"Format Version": [b"5.0"]}, pat="Raw Patterns", arr=True,
                       head=dict(ncols="X Cells", nrows="Y Cells", xstep="X Step", ystep="Y Step"), extra={}, beam=True),
}
NAMES = ["Scan 1", "Scan 2"]


# ------------------------------------------------------------------ virtual HDF5
class VGroup:
    def __init__(self, parent=None):
        self.kids, self._parent = {}, parent

    @property
    def parent(self):
        return self._parent

    def _find(self, path):
        g = self
        for p in str(path).split("/"):
            if p:
                if not isinstance(g, VGroup) or p not in g.kids:
                    raise KeyError(path)
                g = g.kids[p]
        return g

    def __getitem__(self, path):
        return self._find(path)

    def __contains__(self, path):
        try:
            self._find(path)
            return True
        except KeyError:
            return False

    def keys(self):
        return self.kids.keys()

    def __iter__(self):
        return iter(self.kids)

    def add(self, path, node):
        ps = [p for p in path.split("/") if p]
        g = self
        for p in ps[:-1]:
            if p not in g.kids:
                g.kids[p] = VGroup(g)
            g = g.kids[p]
        g.kids[ps[-1]] = node
        node._parent = g

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class VScalar:
    def __init__(self, v):
        self.v = v

    @property
    def parent(self):
        return self._parent

    def __getitem__(self, k):
        return self.v if k == () else self.v[k]


class VData:
    """dataset of shape (n, ...): unknown content, n may be symbolic"""
    def __init__(self, name, shape, dtype, lo=None, hi=None):
        self.name, self.shape, self.dtype, self.log = name, shape, np.dtype(dtype), []
        self.lo, self.hi = lo, hi

    @property
    def parent(self):
        return self._parent

    def val(self, i, rest, log=True):
        so = z3.RealSort() if self.dtype.kind == "f" else z3.IntSort()
        f = z3.Function(self.name, *([z3.IntSort()] * (1 + len(rest)) + [so]))
        v = f(lift(i), *[z3.IntVal(r) for r in rest])
        if self.lo is not None:
            assume(snp.mkbool(z3.And(v >= self.lo, v <= self.hi)))
        if log:
            for j, a in self.log:
                v = z3.If(lift(i) == lift(j), (Z if self.dtype.kind == "f" else lift)(a[rest]), v)
        return Sym(v)

    def _range(self, k):
        k = k if isinstance(k, tuple) else (k,)
        for s, n in zip(k[1:], self.shape[1:]):
            if s not in (slice(None), slice(0, n), Ellipsis):
                raise sym.Unsupported("partial HDF5 patterns")
        s = k[0]
        if not isinstance(s, slice):
            return s, None
        a, b = s.start or 0, self.shape[0] if s.stop is None else s.stop
        a, b = fs.scal(a), fs.scal(b)
        if bool(b > self.shape[0]):
            b = self.shape[0]
        n = b - a
        return a, max(0, n.__index__() if isinstance(n, Sym) else n)

    def __getitem__(self, k):
        a, n = self._range(k)
        one = n is None
        out = np.empty(((1 if one else n),) + tuple(self.shape[1:]), dtype=object)
        for q in range(out.shape[0]):
            for r in np.ndindex(*self.shape[1:]):
                out[(q,) + r] = self.val(a + q, r)
        r = out.view(snp.SymArr)
        r._sdt = self.dtype
        return r[0] if one else r

    def __setitem__(self, k, v):
        a, n = self._range(k)
        v = snp.plain(snp.asarray(v))
        if n is None:
            self.log.append((a, v))
        else:
            if v.shape[0] != n:
                raise TypeError("Can't broadcast %s -> %s" % (v.shape, (n,)))
            for q in range(n):
                self.log.append((a + q, v[q]))


def tree(d, lays, which):
    """root group of a dialect d with the given scans"""
    root = VGroup()
    for k, v in d["root"].items():
        root.add(k, VScalar(np.array(v) if isinstance(v, list) else v))
    for nm, lay in zip(NAMES, lays):
        b = nm + "/EBSD/"
        hi = 2 ** lay.bits - 1
        root.add(b + "Data/" + d["pat"], VData("h5 %s" % nm, (lay.n, lay.H, lay.W), "u%d" % (lay.bits // 8), 0, hi))
        if d.get("beam"):
            root.add(b + "Data/Beam Position X", VData("bx %s" % nm, (lay.n,), "f4"))
            root.add(b + "Data/Beam Position Y", VData("by %s" % nm, (lay.n,), "f4"))
        for a, n in d["head"].items():
            v = getattr(lay, a)
            root.add(b + "Header/" + n, VScalar(snp.array([v]) if d["arr"] else v))
        for n, v in d["extra"].items():
            root.add(b + "Header/" + n, VScalar(np.array(v) if isinstance(v, list) else v))
    return root


def fake_h5py(files):
    def File(path, mode="r", **k):
        if str(path) not in files:
            raise OSError("no file %s" % path)
        return files[str(path)]
    return types.SimpleNamespace(File=File, Group=VGroup, Dataset=(VData, VScalar))


# ------------------------------------------------------------------ real files
def real(d, lays, path):
    import h5py
    rng = np.random.default_rng(5)
    f = h5py.File(path, "w")
    for k, v in d["root"].items():
        f[k] = np.array(v) if isinstance(v, list) else v
    for nm, lay in zip(NAMES, lays):
        b = nm + "/EBSD/"
        f[b + "Data/" + d["pat"]] = rng.integers(1, 2 ** lay.bits, (lay.n, lay.H, lay.W)).astype("u%d" % (lay.bits // 8))
        if d.get("beam"):
            f[b + "Data/Beam Position X"] = rng.uniform(0, 9, lay.n).astype("f4")
            f[b + "Data/Beam Position Y"] = rng.uniform(0, 9, lay.n).astype("f4")
        for a, n in d["head"].items():
            v = np.array(getattr(lay, a), dtype="f4" if "step" in a else "i4")
            f[b + "Header/" + n] = v.reshape(1) if d["arr"] else v
        for n, v in d["extra"].items():
            f[b + "Header/" + n] = np.array(v)
    f.close()


def opened(mod, d, path, which, how):
    if how == "first":
        return mod.get_pattern_file_obj(path)
    if how == "named":
        return mod.get_pattern_file_obj([path, NAMES[which] + "/EBSD/Data/" + d["pat"]])
    o = mod.get_pattern_file_obj(path)
    o.set_data_path(pathindex=which)
    o.read_header()
    return o


def rep(i):
    import h5py
    from pyebsdindex import ebsd_pattern
    d = DIAL[i["dialect"]]
    lays = [Lay(i["W"], i["H"], i["ncols"], min(int(i["nrows"]), 5), float(i["xstep"]), float(i["ystep"]), i["bits"]),
            Lay(i["W"] + 1, i["H"], 2, 3, 0.25, 0.5, i["bits"])]
    which = i["which"]
    lay = lays[which]
    psc = [[int(x) for x in q] if isinstance(q, list) else int(q) for q in i["psc"]]
    reqs = [psc, [0, -1], [[0, 0], [-1, -1]], [lay.n - 1, 3], [[lay.ncols - 1, lay.nrows - 1], [2, 2]]]
    folder = tempfile.mkdtemp(prefix="vff_")
    path = os.path.join(folder, "scan" + d["suffix"])
    try:
        real(d, lays, path)
        for psc in reqs:
            s = psc[0] if not isinstance(psc[0], list) else psc[0][1] * lay.ncols + psc[0][0]
            if not 0 <= s < lay.n:
                continue
            what = "%s file, %s (%dx%d grid, %dx%d patterns, opened %s), request %s" % (
                i["dialect"], NAMES[which], lay.ncols, lay.nrows, lay.W, lay.H, i["how"], psc)
            with h5py.File(path, "r") as f:
                g = NAMES[which] + "/EBSD/Data/"
                ref = f[g + d["pat"]][()]
                other = f[NAMES[1 - which] + "/EBSD/Data/" + d["pat"]][()]
                beam = np.array([f[g + "Beam Position " + a][()] for a in "XY"]).T if d.get("beam") else None
            try:
                o = opened(ebsd_pattern, d, path, which, i["how"])
                for n, v in (("nPatterns", lay.n), ("patternW", lay.W), ("patternH", lay.H), ("nCols", lay.ncols),
                             ("nRows", lay.nrows), ("xStep", lay.xstep), ("yStep", lay.ystep)):
                    if abs(float(getattr(o, n)) - v) > 1e-5 * (1 + abs(v)):
                        return "%s: %s is read as %s, not %s" % (what, n, getattr(o, n), v)
                pats, xy = o.read_data(patStartCount=psc, returnArrayOnly=True)
                want, _ = expected(lay, psc)
                if pats.shape != ref[want].shape or not np.array_equal(pats, ref[want]):
                    return what + ": other patterns are returned"
                w = np.array(want)
                x = beam[want] if beam is not None else np.array([(w % lay.ncols - lay.ncols / 2) * lay.xstep,
                                                                 (w // lay.ncols - lay.nrows / 2) * lay.ystep]).T
                if xy.shape != x.shape or np.abs(xy - x).max() > 1e-4:
                    return what + ": positions %s, expected %s" % (xy.tolist()[:4], x.tolist()[:4])
                if i["write"]:
                    full = psc if isinstance(psc[0], list) and min(psc[1]) > 0 else [psc[0], len(want)] if not isinstance(psc[0], list) \
                        else [psc[0], [lay.ncols - psc[0][0] if psc[1][0] < 0 else psc[1][0],
                                       lay.nrows - psc[0][1] if psc[1][1] < 0 else psc[1][1]]]
                    own = supply(lay, full)
                    new = (np.random.default_rng(1).integers(1, 255, (len(own), lay.H, lay.W))).astype(ref.dtype)
                    o.write_data(newpatterns=new, patStartCount=psc)
                    for q, v in zip(own, new):
                        if q is not None and q < lay.n:
                            ref[q] = v
                    with h5py.File(path, "r") as f:
                        if not np.array_equal(f[g + d["pat"]][()], ref):
                            return what + ": after writing, the file does not hold the new patterns, or others changed"
                        if not np.array_equal(f[NAMES[1 - which] + "/EBSD/Data/" + d["pat"]][()], other):
                            return what + ": writing changed the other scan"
            except Exception as e:
                return "%s: fails with %r" % (what, e)
    finally:
        shutil.rmtree(folder)


def run():
    c = Check("F04", "HDF5 pattern files", modname="f04",
              functions=["get_pattern_file_obj", "HDF5PatFile.pat_reader", "HDF5PatFile.pat_writer", "HDF5PatFile.get_data_paths",
                         "EDAXOH5.read_header", "KIKUCHIPYH5.read_header", "BRUKERH5.read_header", "OXFORDOINA.read_header",
                         "OXFORDOINA.get_data_paths", "OXFORDOINA.pat_reader", "EBSDPatternFile.read_data",
                         "EBSDPatternFile.write_data"],
              bounds="EDAX, kikuchipy, Bruker and Oxford dialects with two scans per file, opened by default, by name or by number; "
                     "all starts in grids of 3 or 1000003 columns and any number of rows, requests of 1-3 patterns or rectangles "
                     "up to 3x2, all step sizes",
              stubs=["h5py: groups and datasets with unknown content"], assumptions=["the request starts inside the scan"])
    T = c.twin()
    m = T.load("pyebsdindex.ebsd_pattern")

    def ob(dial, which, how, slab, ncols, W, H, write, bits=8):
        d = DIAL[dial]

        def f(h):
            n, xs, ys = Int("nrows"), Real("xstep"), Real("ystep")
            assume(n >= 1)
            assume(n <= 10 ** 6)
            for s in (xs, ys):
                assume(s > 0)
                assume(s <= 8)
            lays = [Lay(W, H, ncols, n, xs, ys, bits), Lay(W + 1, H, 2, 3, Fraction(1, 4), Fraction(1, 2), bits)]
            lay = lays[which]
            root = tree(d, lays, which)
            path = "/vfs/scan" + d["suffix"]
            vfs = fs.VFS()
            vfs.files[path] = root
            vfs.install([m])
            m.h5py = fake_h5py(vfs.files)
            conc = lambda x: x.__index__() if isinstance(x, Sym) else int(x)
            if slab:
                c0, r0 = Int("col"), Int("row")
                for a, lim in ((c0, lay.ncols), (r0, lay.nrows)):
                    assume(a >= 0)
                    assume(a < lim)
                nc, nr = slab
                if nc < 0:
                    assume(snp.mkbool(lift(c0) == lay.ncols - 2))
                psc = [[c0, r0], [nc, nr]]
                if which:
                    c0, r0 = conc(c0), conc(r0)
                cc, rr = 2 if nc < 0 else nc, nr
                own = [(r0 + a) * lay.ncols + c0 + b if bool(c0 + b < lay.ncols) and bool(r0 + a < lay.nrows) else None
                       for a in range(rr) for b in range(cc)]
            else:
                s = Int("start")
                assume(s >= 0)
                assume(s < lay.n)
                psc = [s, 3]
                s = conc(s) if which else s
                own = [s + a if bool(s + a < lay.n) else None for a in range(3)]
            h["inputs"].update(dialect=dial, which=which, how=how, W=W, H=H, ncols=ncols, nrows=n, xstep=xs, ystep=ys, psc=psc,
                               bits=bits, write=write)
            o = opened(m, d, path, which, how)
            cl = [Claim(n_, Z(getattr(o, n_)) == Z(v)) for n_, v in
                  (("nPatterns", lay.n), ("patternW", lay.W), ("patternH", lay.H), ("nCols", lay.ncols), ("nRows", lay.nrows),
                   ("xStep", lay.xstep), ("yStep", lay.ystep))]
            g = root[NAMES[which] + "/EBSD/Data"]
            ds, other = g[d["pat"]], root[NAMES[1 - which] + "/EBSD/Data"][d["pat"]]
            want = [w for w in own if w is not None]
            pats, xy = o.read_data(patStartCount=psc, returnArrayOnly=True)
            if tuple(pats.shape) != (len(want), lay.H, lay.W):
                return cl + [Claim("number and size of the patterns returned", False)]
            P, X = snp.plain(pats), snp.plain(snp.asarray(xy))
            for a, w in enumerate(want):
                cl.append(Claim("pattern %d" % a, [Z(P[a, y, x]) == Z(ds.val(w, (y, x), False))
                                                   for y in range(lay.H) for x in range(lay.W)]))
                if d.get("beam"):
                    p = [g["Beam Position X"].val(w, ()), g["Beam Position Y"].val(w, ())]
                else:
                    p = [(w % lay.ncols - lay.ncols * 0.5) * lay.xstep, (w // lay.ncols - lay.nrows * 0.5) * lay.ystep]
                cl.append(Claim("position %d" % a, eqs(X[a], p)))
            if write:
                new = ints("new", len(own), lay.H, lay.W, lo=0, hi=2 ** bits - 1)
                new._sdt = np.dtype("u%d" % (bits // 8))
                o.write_data(newpatterns=new, patStartCount=psc)
                q = Int("any")
                assume(q >= 0)
                assume(q < lay.n)
                N = snp.plain(new)
                for y in range(lay.H):
                    for x in range(lay.W):
                        e = Z(ds.val(q, (y, x), False))
                        for a, w in enumerate(own):
                            if w is not None:
                                e = z3.If(lift(q) == lift(w), Z(N[a, y, x]), e)
                        cl.append(Claim("pixel %d,%d of any pattern after writing" % (y, x), Z(ds.val(q, (y, x))) == e))
                cl.append(Claim("the other scan is not written", not other.log))
            return cl
        c.obligation("%s %s %s %s %d columns %dx%d%s" % (dial, NAMES[which], how, "rectangle %s" % (slab,) if slab else "range", ncols, W, H,
                                                      " write" if write else ""), f, "rep", timeout=20, max_paths=200,
                     max_values=16, budget=60)

    for k, dial in enumerate(DIAL):
        for W, H, ncols in ((2, 1, 3), (1, 2, 1000003)):
            ob(dial, 0, "first", None, ncols, W, H, True, 16 if k % 2 else 8)
            ob(dial, 0, "named", (2, 2), ncols, W, H, True)
            ob(dial, 0, "numbered", (-1, 2), ncols, W, H, False)
        ob(dial, 1, "named", None, 3, 1, 2, True)
        ob(dial, 1, "numbered", (2, 2), 3, 1, 2, True, 16)
    return c


from fractions import Fraction
