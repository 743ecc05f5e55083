"""F03 pattern file headers."""
from .common import *
from . import fs
import os
import shutil
import tempfile

ATTRS = ("version", "nPatterns", "nCols", "nRows", "patternW", "patternH", "xStep", "yStep")


def values(o, fmt):
    a = {n: getattr(o, n) for n in ATTRS}
    a["version"] = np.asarray(a["version"]).reshape(-1)[0]
    if fmt.startswith("EBSP"):
        a["stored positions"] = 1.0 * bool(o.hasxypos)
    elif fmt == "TFPAT":
        a["bit depth"] = o.bitdepth
        a["background"] = 1.0 * bool(o.hasbackground)
    else:
        a["first pattern"] = o.filePos
    if not fmt.startswith("EBSP"):
        a["first pattern"] = o.filePos
    a["type"] = o.filedatatype(0).nbytes
    return a


def build(mod, npx, i, path, scratch=True):
    """a file object with every header field set by the caller"""
    fmt = i["layout"]["fmt"]
    k = i["layout"]
    if fmt.startswith("EBSP"):
        o = mod.EBSPFile(path)
        o.version, o.hasxypos = int(fmt[4:]), k["xy"]
        o.nPatterns = i["nrows"] * k["ncols"]
    else:
        o = mod.UPFile(path)
        o.version = 1 if fmt == "UP1" else 3
        if k["gap"]:
            o.filePos = (16 if fmt == "UP1" else 42) + k["gap"]
    o.nCols, o.nRows = k["ncols"], i["nrows"]
    o.nPatterns = i["nrows"] * k["ncols"]
    o.patternW, o.patternH = k["W"], k["H"]
    o.xStep, o.yStep = i["xstep"], i["ystep"]
    return o


def rep(i):
    from pyebsdindex import ebsd_pattern
    k = dict(i["layout"])
    i = dict(i, nrows=int(i["nrows"]), xstep=float(i["xstep"]), ystep=float(i["ystep"]))
    lay = fs.Layout(**dict(k, nrows=i["nrows"], xstep=i["xstep"], ystep=i["ystep"]))
    d = tempfile.mkdtemp(prefix="vff_")
    what = "%s %dx%d grid %dx%d patterns, %s" % (k["fmt"], lay.ncols, lay.nrows, lay.W, lay.H, i["mode"])
    try:
        try:
            if i["mode"] == "from scratch":
                path = os.path.join(d, "new" + lay.suffix)
                o = build(ebsd_pattern, np, i, path)
                o.write_header(writeBlank=True, **({"bitdepth": lay.bits} if k["fmt"].startswith("EBSP") else {}))
                a0 = expect(lay, i)
            else:
                src = fs.real_file(lay, d, near=[0, lay.n - 1])
                o = ebsd_pattern.get_pattern_file_obj(src)
                a0 = values(o, k["fmt"])
                before = open(src, "rb").read() if lay.n <= 200 else None
                path = os.path.join(d, "new" + lay.suffix)
                if i["mode"] == "rewritten":
                    path = src
                    o.write_header(**({"bitdepth": lay.bits} if k["fmt"].startswith("EBSP") else {}))
                    if before is not None and open(src, "rb").read() != before:
                        return what + ": rewriting the header changed the file"
                elif i["mode"] == "copied":
                    o.copy_file([path])
                    if before is not None and open(path, "rb").read() != before:
                        return what + ": the copy differs from the file"
                elif i["mode"] == "copied empty":
                    o.copy_file(path, empty_data=True)
                else:
                    o2 = o.copy_obj()
                    o2.set_filepath(path)
                    o2.write_header(writeBlank=True, **({"bitdepth": lay.bits} if k["fmt"].startswith("EBSP") else {}))
            g = ebsd_pattern.get_pattern_file_obj(path)
            a1 = values(g, k["fmt"])
        except Exception as e:
            return what + ": fails with %r" % e
        for n in a0:
            if n in a1 and abs(float(a0[n]) - float(a1[n])) > 1e-9 * (1 + abs(float(a0[n]))):
                return "%s: %s %s is read back as %s" % (what, n, a0[n], a1[n])
        if os.path.getsize(path) < lay.size() and lay.n <= 200:
            return "%s: the file has %d bytes, its patterns need %d" % (what, os.path.getsize(path), lay.size())
        if i["mode"] in ("from scratch", "blank") and lay.n <= 200:
            p = np.asarray(g.read_data(returnArrayOnly=True)[0])
            if p.shape != (lay.n, lay.H, lay.W) or p.any():
                return "%s: the new file does not hold blank patterns" % what
    finally:
        shutil.rmtree(d)


def expect(lay, i):
    a = dict(nPatterns=lay.n, patternW=lay.W, patternH=lay.H, type=lay.isz)
    if lay.fmt == "UP3":
        a.update(version=3, nCols=lay.ncols, nRows=lay.nrows, xStep=i["xstep"], yStep=i["ystep"])
    if lay.fmt in ("UP1", "UP3"):
        a["first pattern"] = lay.first
        a["version"] = 1 if lay.fmt == "UP1" else 3
    if lay.fmt.startswith("EBSP"):
        a.update(version=lay.version)
        if lay.xy:
            a.update(nCols=lay.ncols, nRows=lay.nrows, xStep=i["xstep"], yStep=i["ystep"])
        a["stored positions"] = 1.0 * lay.xy
    return a


def run():
    c = Check("F03", "pattern file headers", modname="f03",
              functions=["UPFile.write_header", "UPFile.read_header", "UPFile.copy_file", "EBSPFile.write_header",
                         "EBSPFile.read_header", "TFPatFile.write_header", "TFPatFile.read_header", "TFPatFile.copy_file",
                         "EBSDPatternFile.copy_obj", "EBSDPatternFile.copy_file"],
              bounds="UP 1, 3, EBSP 1-4, TFPAT; all step sizes and row counts (new files: up to 2 rows of 3), all offsets of "
                     "the data; headers written from scratch, from a file read before, over the same file, and copies",
              stubs=["the file system: files of symbolic cells at symbolic offsets"],
              assumptions=["EBSP files are written with positions on a grid of at least 2x2 or without positions"])
    T = c.twin()
    m = T.load("pyebsdindex.ebsd_pattern")

    def ob(k, mode):
        blank = mode in ("from scratch", "blank")
        ebsp = k["fmt"].startswith("EBSP")

        def f(h):
            kk = dict(k)
            big = not blank and not ebsp
            n = Int("nrows")
            assume(n >= (2 if ebsp and k["xy"] else 1))
            assume(n <= (2 ** 33 // (k["ncols"] * k["W"] * k["H"] * k["bits"] // 8) if big else 2))
            xs, ys = Real("xstep"), Real("ystep")
            for s in (xs, ys):
                assume(s >= Fraction(1, 64))
                assume(s <= 8)
            if not big:
                n = n.__index__()
            kk.update(nrows=n, xstep=xs, ystep=ys)
            if ebsp and mode != "from scratch":
                kk.update(xstep=0.5, ystep=0.25)
            vfs = fs.VFS()
            lay = fs.Layout(**kk)
            vfs.install([m])
            bd = {"bitdepth": lay.bits} if ebsp else {}
            inp = dict(layout=k, nrows=n, xstep=kk["xstep"], ystep=kk["ystep"], mode=mode)
            h["inputs"].update(inp)
            cl = []
            path = "/vfs/new" + lay.suffix
            if mode == "from scratch":
                o = build(m, snp.np, inp, path)
                o.write_header(writeBlank=True, **bd)
                a0 = expect(lay, inp)
            else:
                src, vf = fs.virtual(vfs, lay)
                o = m.get_pattern_file_obj(src)
                a0 = values(o, k["fmt"])
                if mode == "rewritten":
                    path = src
                    old, n0 = vf.copy(), len(vf.log)
                    o.write_header(**bd)
                    vf = vfs.files[path]
                    for off, sz, v in vf.log[n0:]:
                        w = old.get(off, sz, "u")
                        if isinstance(v, (int, np.integer)) and v < 0:
                            v = int(v) + (1 << (8 * sz))
                        cl.append(Claim("header bytes at %s stay as they were" % off, Z(w) == Z(v)))
                elif mode == "copied":
                    o.copy_file([path])
                elif mode == "copied empty":
                    o.copy_file(path, empty_data=True)
                else:
                    o2 = o.copy_obj()
                    o2.set_filepath(path)
                    o2.write_header(writeBlank=True, **bd)
            g = m.get_pattern_file_obj(path)
            a1 = values(g, k["fmt"])
            for x in a0:
                if x in a1:
                    cl.append(Claim(x + " is read back", Z(a0[x]) == Z(a1[x])))
            size = vfs.files[path].size
            cl.append(Claim("the file holds all patterns", Z(size) >= Z(lay.size())))
            if blank:
                p = g.read_data(returnArrayOnly=True)[0]
                if tuple(p.shape) != (lay.n, lay.H, lay.W):
                    cl.append(Claim("blank patterns", False))
                else:
                    cl.append(Claim("blank patterns", [Z(v) == 0 for v in snp.plain(p).reshape(-1)]))
            return cl
        c.obligation("%s/%d %dx%d gap %d%s %s" % (k["fmt"], k["bits"], k["ncols"], k["W"], k["gap"],
                                                 " background" if k.get("background") else "" if k.get("xy", 1) else " no positions",
                                                 mode), f, "rep", timeout=20, max_paths=100, max_values=16, budget=60)

    for fmt, bits in (("UP1", 8), ("UP3", 8), ("UP3", 16)):
        for ncols, gap in ((1, 0), (1, 9)) if fmt == "UP1" else ((3, 0), (2, 5)):
            for mode in ("from scratch", "blank", "rewritten", "copied", "copied empty"):
                ob(dict(fmt=fmt, W=3, H=2, ncols=ncols, bits=bits, gap=gap), mode)
    for back in (False, True):
        for mode in ("blank", "rewritten", "copied", "copied empty"):
            ob(dict(fmt="TFPAT", W=3, H=2, ncols=3, bits=16, gap=0, background=back), mode)
    for ver in (1, 2, 3, 4):
        for xy in ((True,) if ver == 1 else (True, False)):
            for mode in ("from scratch", "blank", "rewritten", "copied"):
                ob(dict(fmt="EBSP%d" % ver, W=3, H=2, ncols=3 if xy else 1, bits=16 if ver == 3 else 8, gap=0, xy=xy), mode)
    return c


from fractions import Fraction
