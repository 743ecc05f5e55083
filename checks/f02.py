"""F02 pattern writers."""
from .common import *
from . import fs
from .f01 import expected
import os
import shutil
import tempfile


def supply(lay, psc):
    """for each supplied pattern the scan index it belongs to (None: outside the scan), in order"""
    if not isinstance(psc[0], (list, tuple)):
        s, c = psc
        c = 1 if c == 0 else c
        return [s + i for i in range(c)]
    (c0, r0), (nc, nr) = psc
    return [(r0 + r) * lay.ncols + c0 + c if c0 + c < lay.ncols and r0 + r < lay.nrows else None
            for r in range(nr) for c in range(nc)]


def rep(i):
    from pyebsdindex import ebsd_pattern
    k = dict(i["layout"])
    k.update({q: i[q] for q in ("nrows",) if q in i})
    for q in ("ncols", "nrows", "W", "H"):
        k[q] = int(k[q])
    lay = fs.Layout(**k)
    psc = [[int(x) for x in q] if isinstance(q, list) else int(q) for q in i["psc"]]
    full = [[int(x) for x in q] if isinstance(q, list) else int(q) for q in i["full"]]
    d = tempfile.mkdtemp(prefix="vff_")
    try:
        own = [w if w is not None and w < lay.n else None for w in supply(lay, full)]
        want = [w for w in own if w is not None]
        near = sorted(set([0, lay.n - 1] + want + [w + e for w in want for e in (-1, 1) if 0 <= w + e < lay.n]))
        path = fs.real_file(lay, d, near=near)
        what = "%s %dx%d grid %dx%d patterns, written at %s" % (k["fmt"], lay.ncols, lay.nrows, lay.W, lay.H, psc)
        before = {q: fs.stored(lay, path, q) for q in near}
        head = open(path, "rb").read(int(lay.pos(want[0]) if lay.n > 200 else lay.size()))
        f = ebsd_pattern.get_pattern_file_obj(path)
        attrs = ("nPatterns", "nCols", "nRows", "xStep", "yStep", "patternW", "patternH")
        a0 = [float(getattr(f, a)) for a in attrs]
        dt = "u%d" % lay.isz
        top = 2 ** (12 if k["fmt"] == "TFPAT" else lay.bits) - 1
        rng = np.random.default_rng(7)
        new = rng.integers(0, top + 1, (len(own), lay.H, lay.W)).astype(dt)
        new.reshape(-1)[0] = top
        arg = new[0] if i["kind"] == "single" else new
        if i["kind"] == "object":
            arg = ebsd_pattern.EBSDPatterns()
            arg.patterns, arg.nPatterns = new, len(new)
        try:
            f.write_data(newpatterns=arg, patStartCount=psc)
        except Exception as e:
            return "%s: writing fails with %r" % (what, e)
        for w, p in zip(own, new):
            if w is None or lay.pos(w) is None:
                continue
            if not np.array_equal(fs.stored(lay, path, w), p):
                return "%s: pattern %d of the scan does not hold what was written to it" % (what, w)
            before.pop(w, None)
        for q, p in before.items():
            if not np.array_equal(fs.stored(lay, path, q), p):
                return "%s: pattern %d, which was not written, has changed" % (what, q)
        if os.path.getsize(path) != lay.size():
            return "%s: the file size changed from %d to %d" % (what, lay.size(), os.path.getsize(path))
        if lay.n <= 200:
            a, b = bytearray(head), bytearray(open(path, "rb").read())
            for w in want:
                if lay.pos(w) is not None:
                    a[lay.pos(w):lay.pos(w) + lay.pb] = b[lay.pos(w):lay.pos(w) + lay.pb]
            if a != b:
                o = [j for j in range(len(a)) if a[j] != b[j]]
                return "%s: bytes %s outside the patterns written changed" % (what, o[:6])
        g = ebsd_pattern.get_pattern_file_obj(path)
        a1 = [float(getattr(g, a)) for a in attrs]
        if a0 != a1:
            return "%s: the header reads %s before and %s after" % (what, a0, a1)
    finally:
        shutil.rmtree(d)


def run():
    c = Check("F02", "pattern writers", modname="f02",
              functions=["EBSDPatternFile.write_data", "pat_flt2int", "UPFile.pat_writer", "EBSPFile.pat_writer",
                         "TFPatFile.pat_writer"],
              bounds="UP versions 1, 3, EBSP versions 1-4, TFPAT; all starts, 1-3 patterns or rectangles up to 3x2, also past "
                     "the end of the scan, in grids of 1, 3, 5, 1000003 columns and up to 2^33 bytes (EBSP: up to 6 patterns)",
              stubs=["the file system: files of symbolic cells at symbolic offsets"],
              assumptions=["patterns of the file's own integer type", "the start lies inside the scan"])
    T = c.twin()
    m = T.load("pyebsdindex.ebsd_pattern")

    def ob(name, k, n=None, slab=None, kind="array", sym_rows=True):
        def f(h):
            kk = dict(k)
            if sym_rows:
                r = Int("nrows")
                assume(r >= 1)
                assume(r <= 2 ** 33 // (k["ncols"] * k["W"] * k["H"] * k.get("bits", 8) // 8))
                kk["nrows"] = r
            vfs = fs.VFS()
            lay = fs.Layout(**kk)
            path, vf = fs.virtual(vfs, lay)
            vfs.install([m])
            if slab:
                c0, r0 = Int("col"), Int("row")
                for a, lim in ((c0, lay.ncols), (r0, lay.nrows)):
                    assume(a >= 0)
                    assume(a < lim)
                nc, nr = slab
                full = [[c0, r0], [abs(nc), abs(nr)]]
                if nc < 0:
                    assume(snp.mkbool(lift(c0) == lay.ncols + nc))
                if nr < 0:
                    assume(snp.mkbool(lift(r0) == lift(lay.nrows + nr)))
                psc = [[c0, r0], [-1 if nc < 0 else nc, -1 if nr < 0 else nr]]
                if not sym_rows:
                    c0, r0 = conc(c0), conc(r0)
                own = []
                for a in range(abs(nr)):
                    for b in range(abs(nc)):
                        own.append((r0 + a) * lay.ncols + c0 + b if inside(c0 + b, lay.ncols) and inside(r0 + a, lay.nrows)
                                   else None)
            else:
                s = Int("start")
                assume(s >= 0)
                assume(s < lay.n)
                cnt = abs(n)
                psc, full = [s, -1 if n < 0 else n], [s, max(cnt, 1)]
                s0 = s if sym_rows else conc(s)
                own = [s0 + a if inside(s0 + a, lay.n) else None for a in range(max(cnt, 1))]
            h["inputs"].update(layout=k, psc=psc, full=full, kind=kind, **({"nrows": kk["nrows"]} if sym_rows else {}))
            o = m.get_pattern_file_obj(path)
            attrs = ("nPatterns", "nCols", "nRows", "xStep", "yStep", "patternW", "patternH")
            a0 = [getattr(o, a) for a in attrs]
            top = 2 ** (12 if k["fmt"] == "TFPAT" else lay.bits) - 1
            new = ints("new", len(own), lay.H, lay.W, lo=0, hi=top)
            new._sdt = np.dtype("u%d" % lay.isz)
            arg = new[0] if kind == "single" else new
            if kind == "object":
                arg = m.EBSDPatterns()
                arg.patterns, arg.nPatterns = new, len(own)
            old = vf.copy()
            n0 = len(vf.log)
            o.write_data(newpatterns=arg, patStartCount=psc)
            vf = vfs.files[path]
            cl, cells = [], []
            for a, w in enumerate(own):
                if w is None or lay.pos(w) is None:
                    continue
                p = lay.pos(w)
                for y in range(lay.H):
                    for x in range(lay.W):
                        off = p + (y * lay.W + x) * lay.isz
                        v = snp.plain(new)[a, y, x]
                        cells.append((off, lay.isz, v))
                        cl.append(Claim("pixel %d,%d of pattern %d is stored" % (y, x, a), Z(vf.get(off, lay.isz, "u")) == Z(v)))
                cells += [(o_, s_, v_) for o_, t_, s_, v_ in lay.around(w)]
            for off, sz, v in vf.log[n0:]:
                ok = [z3.And(lift(off) == lift(a), Z(v) == Z(b)) for a, s, b in cells if s == sz]
                if not isinstance(off, Sym):
                    ok = [z3.BoolVal(True)] if any(z3.is_true(z3.simplify(x)) for x in ok) else \
                        ok + [Z(old.get(off, sz, "u")) == Z(v)]
                cl.append(Claim("nothing else is written (offset %s)" % str(off)[:40], [z3.Or(ok)]))
            cl.append(Claim("file size", Z(vf.size) == Z(lay.size())))
            g = m.get_pattern_file_obj(path)
            cl.append(Claim("header unchanged", eqs(a0, [getattr(g, a) for a in attrs])))
            return cl
        c.obligation(name, f, "rep", timeout=20, max_paths=400, max_values=16, budget=120)

    def inside(a, lim):
        return bool(a < lim)

    def conc(x):
        return x.__index__() if isinstance(x, Sym) else int(x)

    for fmt, bits in (("UP1", 8), ("UP1", 16), ("UP3", 8), ("UP3", 16), ("TFPAT", 16)):
        for W, H, cols in ((3, 2, (1,) if fmt == "UP1" else (3, 1000003)), (2, 3, (1,) if fmt == "UP1" else (5,))):
            for ncols in cols:
                k = dict(fmt=fmt, W=W, H=H, ncols=ncols, nrows=1, bits=bits, gap=8 if fmt == "UP3" and bits == 16 else 0)
                if fmt == "TFPAT":
                    k["background"] = ncols == 3
                    k["W"], k["H"] = (2, 1) if W == 3 else (1, 2)
                nm = "%s/%d %dx%d %d columns" % (fmt, bits, W, H, ncols)
                for n in (3, -2, 0):
                    ob(nm + " %d patterns" % n, k, n=n, kind="single" if n == 0 else "object" if n < 0 and W == 3 else "array")
                if fmt != "UP1":
                    for s in ((2, 2), (3, 2), (-2, 2), (1, -2)):
                        if s == (3, 2):
                            k = dict(k, W=2, H=1)
                        ob(nm + " rectangle %dx%d" % s, k, slab=s)
    for ver in (1, 2, 3, 4):
        for xy in ((True,) if ver == 1 else (True, False)):
            for tab in (None, [2, 0, 1, 5, 4, 3], [0, 1, 2, 3, 4, None]):
                g = (3, 2) if xy else (1, 6)
                k = dict(fmt="EBSP%d" % ver, W=3 if ver != 3 else 2, H=2, ncols=g[0], nrows=g[1], bits=8 if ver != 2 else 16,
                         gap=0, table=tab, xy=xy, xstep=0.5, ystep=0.25)
                nm = "EBSP%d%s table %s" % (ver, "" if xy else " no positions", tab)
                ob(nm + " 2 patterns", k, n=2, sym_rows=False)
                if xy and ver in (1, 4):
                    ob(nm + " rectangle 2x2", k, slab=(2, 2), sym_rows=False)
    return c
