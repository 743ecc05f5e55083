"""F01 pattern readers."""
from .common import *
from . import fs
import os
import shutil
import tempfile


def lay_of(k, **over):
    k = dict(k)
    k.update(over)
    return fs.Layout(**k)


def expected(lay, psc):
    """scan indices a request addresses, in order"""
    if not isinstance(psc[0], (list, tuple)):
        s, c = psc
        if c == -1:
            c = lay.n - s
        if c == 0:
            c = 1
        c = min(c, lay.n - s)
        return [s + i for i in range(c)], None
    (c0, r0), (nc, nr) = psc
    nc = lay.ncols - c0 if nc < 0 else min(nc, lay.ncols - c0)
    nr = lay.nrows - r0 if nr < 0 else min(nr, lay.nrows - r0)
    return [(r0 + r) * lay.ncols + c0 + c for r in range(nr) for c in range(nc)], (nc, nr)


def position(lay, i, loc=None):
    if lay.fmt == "UP1":
        return 0.0, 0.0
    if lay.fmt == "UP3":
        return (i % lay.ncols - lay.ncols * 0.5) * lay.xstep, (i // lay.ncols - lay.nrows * 0.5) * lay.ystep
    if lay.fmt == "TFPAT":
        x, y = loc if loc is not None else (i % lay.ncols, i // lay.ncols)
        return (x - lay.ncols * 0.5), (y - lay.nrows * 0.5)
    if lay.pos(i) is None or not lay.xy:
        return 0.0, 0.0
    return lay.xyval(i)


def request(i):
    p = [[int(x) for x in q] if isinstance(q, list) else int(q) for q in i["psc"]]
    return p


def rep(i):
    from pyebsdindex import ebsd_pattern
    k = dict(i["layout"])
    k.update({q: i[q] for q in ("nrows", "xstep", "ystep") if q in i})
    for q in ("ncols", "nrows", "W", "H"):
        k[q] = int(k[q])
    for q in ("xstep", "ystep"):
        k[q] = float(k.get(q, 1.0))
    lay = fs.Layout(**k)
    psc = request(i)
    d = tempfile.mkdtemp(prefix="vff_")
    try:
        want, dims = expected(lay, psc)
        near = sorted(set([0, lay.n - 1] + want + [w + d for w in want for d in (-1, 1) if 0 <= w + d < lay.n]))
        path = fs.real_file(lay, d, near=near)
        what = "%s %dx%d grid %dx%d patterns, request %s" % (k["fmt"], lay.ncols, lay.nrows, lay.W, lay.H, psc)
        f = ebsd_pattern.get_pattern_file_obj(path)
        for name, w in (("nPatterns", lay.n), ("patternW", lay.W), ("patternH", lay.H)):
            if int(getattr(f, name)) != w:
                return "%s: %s is read as %d, the file has %d" % (what, name, getattr(f, name), w)
        try:
            o = f.read_data(convertToFloat=bool(i["flt"]), patStartCount=psc, returnArrayOnly=bool(i["raw"]))
        except Exception as e:
            return "%s: reading fails with %r" % (what, e)
        pats, xy = o if i["raw"] else (o.patterns, o.xyLocations)
        ref = np.array([fs.stored(lay, path, w) for w in want])
        if pats.shape != ref.shape or not np.array_equal(pats, ref):
            return "%s: patterns returned differ from those stored (shapes %s, %s)" % (what, pats.shape, ref.shape)
        xref = np.array([position(lay, w) for w in want])
        if xy.shape != xref.shape or np.abs(xy - xref).max() > 1e-4 * (1 + np.abs(xref).max()):
            return "%s: positions %s, expected %s" % (what, np.asarray(xy).tolist()[:4], xref.tolist()[:4])
        if not i["raw"]:
            a = np.array(o.nPatterns).astype(int).tolist()
            b = [dims[0], dims[1]] if dims else len(want)
            st = psc[0]
            if a != b or np.array(o.patStart).astype(int).tolist() != st:
                return "%s: returned object says %s patterns from %s" % (what, a, o.patStart)
    finally:
        shutil.rmtree(d)


def run():
    c = Check("F01", "pattern readers", modname="f01",
              functions=["get_pattern_file_obj", "EBSDPatternFile.read_data", "UPFile.read_header", "UPFile.pat_reader",
                         "EBSPFile.read_header", "EBSPFile.pat_reader", "TFPatFile.read_header", "TFPatFile.pat_reader"],
              bounds="UP versions 1, 3, EBSP versions 1-4, TFPAT; all starts and requests of -1..3 patterns (rectangles up to "
                     "3x2) in grids of 1, 2, 3, 5, 1000003 columns and up to 2^33 bytes (EBSP: up to 6 patterns, every table)",
              stubs=["the file system: files of symbolic cells at symbolic offsets"],
              assumptions=["the request starts inside the scan", "EBSP version 5 and compressed files are outside"])
    T = c.twin()
    m = T.load("pyebsdindex.ebsd_pattern")

    def ob(name, k, slab=False, flt=False, raw=True, sym_rows=True, full=False):
        def f(h):
            kk = dict(k)
            if sym_rows:
                n = Int("nrows")
                assume(n >= 1)
                assume(n <= 2 ** 33 // (k["ncols"] * k["W"] * k["H"] * k.get("bits", 8) // 8))
                kk["nrows"] = n
            if k["fmt"] == "UP3":
                kk["xstep"], kk["ystep"] = Real("xstep"), Real("ystep")
                for s in (kk["xstep"], kk["ystep"]):
                    assume(s > 0)
                    assume(s <= 8)
            vfs = fs.VFS()
            lay = fs.Layout(**kk)
            path, vf = fs.virtual(vfs, lay)
            vfs.install([m])
            if slab:
                c0, r0, nc, nr = Int("col"), Int("row"), Int("ncol"), Int("nrow")
                for a, lim in ((c0, lay.ncols), (r0, lay.nrows)):
                    assume(a >= 0)
                    assume(a < lim)
                for a, s, lim, mx in ((nc, c0, lay.ncols, 3), (nr, r0, lay.nrows, 2)):
                    assume(a >= -1)
                    assume(a != 0)
                    assume(a <= mx)
                    assume(snp.mkbool(z3.Implies(lift(a) == -1, lift(lim - s) <= mx)))
                psc = [[c0, r0], [nc, nr]]
            else:
                s, n = Int("start"), Int("count")
                assume(s >= 0)
                assume(s < lay.n)
                assume(n >= -1)
                assume(n <= 3)
                assume(snp.mkbool(z3.Implies(lift(n) == -1, lift(lay.n - s) <= 3)))
                psc = [s, n]
            h["inputs"].update(layout=k, psc=psc, flt=flt, raw=raw, **{q: kk[q] for q in ("nrows", "xstep", "ystep") if q in kk})
            o = m.get_pattern_file_obj(path)
            cl = [Claim("patterns in the file", Z(o.nPatterns) == Z(lay.n)),
                  Claim("pattern width", Z(o.patternW) == lay.W), Claim("pattern height", Z(o.patternH) == lay.H)]
            r = o.read_data(convertToFloat=flt, patStartCount=psc, returnArrayOnly=raw)
            pats, xy = r if raw else (r.patterns, r.xyLocations)
            if slab:
                q = [c0, r0, nc, nr]
                nc_, nr_ = (conc(x) for x in (sel(nc, lay.ncols - c0), sel(nr, lay.nrows - r0)))
                want, dims = [(r0 + a) * lay.ncols + c0 + b for a in range(nr_) for b in range(nc_)], (nc_, nr_)
            else:
                e = conc(sel(n, lay.n - s, zero=1))
                want, dims = [s + a for a in range(e)], None
            if tuple(pats.shape) != (len(want), lay.H, lay.W):
                cl.append(Claim("number and size of the patterns returned", False))
                return cl
            P, X = snp.plain(pats), snp.plain(snp.asarray(xy))
            for a, w in enumerate(want):
                w = w if sym_rows else conc(w)
                p = lay.pos(w)
                loc = None
                if lay.fmt == "TFPAT":
                    loc = [Sym(Z(vf.raw(p - 8 + 4 * b, 4))) for b in range(2)]
                for y in range(lay.H):
                    for x in range(lay.W):
                        v = 0 if p is None else vf.raw(p + (y * lay.W + x) * lay.isz, lay.isz)
                        cl.append(Claim("pixel %d,%d of pattern %d" % (y, x, a), Z(P[a, y, x]) == Z(v)))
                cl.append(Claim("position of pattern %d" % a, eqs(X[a], list(position(lay, w, loc)))))
            if not raw:
                cl.append(Claim("patterns said to be returned", eqs(np.array(r.nPatterns, dtype=object).reshape(-1),
                                                                  list(dims) if dims else [len(want)])))
                cl.append(Claim("start said to be returned", eqs(snp.asarray(r.patStart), psc[0] if slab else [s])))
            return cl
        c.obligation(name, f, "rep", timeout=20, max_paths=400, max_values=16, budget=120)

    def sel(n, left, zero=None):
        e = z3.If(lift(n) == -1, lift(left), z3.If(lift(n) > lift(left), lift(left), lift(n)))
        if zero is not None:
            e = z3.If(lift(n) == 0, z3.IntVal(1), e)
        return Sym(e)

    def conc(x):
        return x.__index__() if isinstance(x, Sym) else int(x)

    for fmt, bits in (("UP1", 8), ("UP1", 16), ("UP3", 8), ("UP3", 16), ("TFPAT", 16)):
        for W, H in ((3, 2), (2, 3)):
            for ncols in ((1,) if fmt == "UP1" else (1, 3, 1000003) if (W, H) == (3, 2) else (5,)):
                for gap in ((0, 7, 26) if fmt == "UP1" else (0, 22) if fmt == "UP3" else (0,)):
                    k = dict(fmt=fmt, W=W, H=H, ncols=ncols, nrows=1, bits=bits, gap=gap)
                    if fmt == "TFPAT":
                        k["background"] = ncols == 3
                    if (gap and bits == 8) or not gap:
                        ob("%s/%d %dx%d %d columns gap %d range" % (fmt, bits, W, H, ncols, gap), k, raw=gap == 0)
                    if fmt != "UP1" and not gap:
                        ob("%s/%d %dx%d %d columns rectangle" % (fmt, bits, W, H, ncols), k, slab=True, raw=W == 3,
                           flt=bits == 16 and W == 3)
    for ver in (1, 2, 3, 4):
        for xy in ((True,) if ver == 1 else (True, False)):
            for tab in (None, [2, 0, 1, 5, 4, 3], [0, 1, 2, 3, 4, None], [5, None, 3, 0, None, 1]):
                g = (3, 2) if xy else (1, 6)
                k = dict(fmt="EBSP%d" % ver, W=3 if ver != 3 else 2, H=2, ncols=g[0], nrows=g[1], bits=8 if ver != 2 else 16,
                         gap=0, table=tab, xy=xy, xstep=0.5, ystep=0.25)
                if tab and None in tab[:2]:
                    k["xy"] = False
                    k["ncols"], k["nrows"] = 1, 6
                    if ver == 1:
                        continue
                ob("EBSP%d%s table %s range" % (ver, "" if k["xy"] else " no positions", tab), k, sym_rows=False, raw=ver != 3)
                if k["xy"] and ver in (2, 4):
                    ob("EBSP%d table %s rectangle" % (ver, tab), k, sym_rows=False, slab=True)
    return c
