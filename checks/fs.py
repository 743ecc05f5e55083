"""pattern files for the F checks: a virtual file system whose files hold symbolic cells at symbolic offsets (twin),
and the same layouts written as real files (replays)"""
import os as real_os
import pathlib
import types

from .common import *


# ------------------------------------------------------------------ virtual files
class VFile:
    def __init__(self, size=0):
        self.log = []                 # (offset, size, value), oldest first
        self.size = size              # int or Sym
        self.base = False             # unknown content wherever nothing was put

    def copy(self):
        f = VFile(self.size)
        f.log, f.base = list(self.log), self.base
        return f

    def put(self, off, size, val):
        self.log.append((off, size, val))
        end = off + size
        if isinstance(end, Sym) or isinstance(self.size, Sym):
            if bool(end > self.size):
                self.size = end
        elif end > self.size:
            self.size = end

    def get(self, off, size, kind):
        conds = []
        for o, s, v in reversed(self.log):
            d = off - o
            if isinstance(d, Sym):
                d = poly_int(d)
            if isinstance(d, Sym):
                if not ctx_possible(z3.And(d.e > -size, d.e < s)):
                    continue
                if s == size and not ctx_possible(z3.And(d.e > -size, d.e < s, d.e != 0)):
                    conds.append((d.e == 0, v))
                    continue
                d = d.__index__()
            if d == 0 and s == size:
                r = v
                break
            if -size < d < s:
                b = [self.byte(off + j) for j in range(size)]
                r = self.raw(off, size) if any(x is None for x in b) else sum(x << (8 * j) for j, x in enumerate(b))
                break
        else:
            r = self.raw(off, size) if self.base else 0
        if isinstance(r, (int, np.integer)):
            r = int(r)
            if kind == "i" and r >= 1 << (8 * size - 1):
                r -= 1 << (8 * size)
            elif kind == "u" and r < 0:
                r += 1 << (8 * size)
        for c, v in reversed(conds):
            r = Sym(z3.If(c, Z(v), Z(r))) if kind == "f" else Sym(z3.If(c, lift(v), lift(r)))
        return r

    def byte(self, off):
        """one byte made of concrete integer cells, None if unknown"""
        for o, s, v in reversed(self.log):
            d = off - o
            d = poly_int(d) if isinstance(d, Sym) else d
            if isinstance(d, Sym):
                return None
            if 0 <= d < s:
                return (int(v) >> (8 * d)) % 256 if isinstance(v, (int, np.integer)) else None
        return None if self.base else 0

    def raw(self, off, size):
        v = z3.Function("file%d" % size, z3.IntSort(), z3.IntSort())(lift(off))
        key = "raw"
        assume(snp.mkbool(z3.And(v >= 0, v < 256 ** size)))
        return Sym(v)


def poly_int(d):
    e = z3.simplify(d.e, som=True)
    return e.as_long() if z3.is_int_value(e) else Sym(e)


def ctx_possible(c):
    return sym._check(sym.ctx().solver, c) != z3.unsat


class Block:
    """raw bytes read from a virtual file"""
    def __init__(self, f, off, n):
        self.cells = [(o - off, s, v) for o, s, v in f.log if not isinstance(o - off, Sym) and 0 <= o - off and o - off + s <= n]
        self.n = n


class Handle:
    def __init__(self, f, mode):
        self.f, self.mode, self.pos = f, mode, 0
        if "w" in mode:
            f.log, f.size, f.base = [], 0, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def flush(self):
        pass

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        off = scal(off)
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else self.f.size + off)
        if not isinstance(self.pos, Sym) and self.pos < 0:
            raise OSError("negative seek")
        return self.pos

    def read(self, n=-1):
        n = scal(n)
        b = Block(self.f, self.pos, n)
        self.pos = self.pos + n
        return b

    def write(self, b):
        if isinstance(b, Block):
            for o, s, v in b.cells:
                self.f.put(self.pos + o, s, v)
            self.pos = self.pos + b.n
        else:
            for x in b:
                self.f.put(self.pos, 1, x)
                self.pos = self.pos + 1

    def _sym_read_array(self, dt, count, offset=0):
        self.pos = self.pos + scal(offset)
        count = scal(count)
        isz = dt.itemsize
        if not isinstance(count, Sym) and count < 0:
            count = (self.f.size - self.pos) // isz
        if isinstance(count, Sym):
            count = count.__index__()
        count = int(count)
        if bool(self.pos + count * isz > self.f.size):
            count = (self.f.size - self.pos) // isz
            count = max(0, count.__index__() if isinstance(count, Sym) else int(count))
        if dt.names is None:
            out = np.empty(count, dtype=object)
            for i in range(count):
                out[i] = self.f.get(self.pos + i * isz, isz, dt.kind)
            r = out.view(snp.SymArr)
            r._sdt = dt
        else:
            r = snp.zeros(count, dtype=dt)
            for i in range(count):
                for n in dt.names:
                    b, o = dt.fields[n][0], dt.fields[n][1]
                    leaf, k = b.base, int(np.prod(b.shape)) if b.shape else 1
                    cells = [self.f.get(self.pos + i * isz + o + j * leaf.itemsize, leaf.itemsize, leaf.kind)
                             for j in range(k)]
                    if b.shape:
                        a = np.empty(k, dtype=object)
                        a[:] = cells
                        np.ndarray.__getitem__(r, n)[i] = a.reshape(b.shape)
                    else:
                        np.ndarray.__getitem__(r, n)[i] = cells[0]
        self.pos = self.pos + count * isz
        return r

    def _sym_write_array(self, a):
        a = snp.asarray(a)
        isz = a.dtype.itemsize
        for v in snp.plain(a).reshape(-1):
            self.f.put(self.pos, isz, v)
            self.pos = self.pos + isz


def scal(x):
    if isinstance(x, np.ndarray):
        if x.ndim:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        x = snp.plain(x).item()
    if isinstance(x, Sym):
        return x
    if isinstance(x, (float, np.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return int(x)


class VFS:
    def __init__(self):
        self.files = {}

    def open(self, path, mode="r", *a, **k):
        p = str(path)
        if "w" in mode:
            self.files[p] = VFile()
        if p not in self.files:
            raise FileNotFoundError(p)
        return Handle(self.files[p], mode)

    def install(self, mods):
        vfs = self

        class VPath(pathlib.PurePosixPath):
            def expanduser(self):
                return self

            def resolve(self):
                return self

            def absolute(self):
                return self

            def exists(self):
                return str(self) in vfs.files
            is_file = exists

            def open(self, mode="r"):
                return vfs.open(self, mode)

            def stat(self):
                return types.SimpleNamespace(st_size=vfs.files[str(self)].size)

        def isfile(p):
            return str(p) in vfs.files

        def copyfile(a, b):
            vfs.files[str(b)] = vfs.files[str(a)].copy()

        path = types.SimpleNamespace(isfile=isfile, exists=isfile, getsize=lambda p: vfs.files[str(p)].size,
                                     join=real_os.path.join, basename=real_os.path.basename,
                                     dirname=real_os.path.dirname, splitext=real_os.path.splitext)
        for m in mods:
            m.Path = VPath
            if hasattr(m, "os"):
                m.os = types.SimpleNamespace(path=path)
            if hasattr(m, "shutil"):
                m.shutil = types.SimpleNamespace(copyfile=copyfile)
            m.__dict__["__builtins__"]["_vf_open"] = vfs.open


# ------------------------------------------------------------------ layouts
U8, U16, U32, U64, I16, I64, F64 = ("u1", 1), ("u2", 2), ("u4", 4), ("u8", 8), ("i2", 2), ("i8", 8), ("f8", 8)


class Layout:
    """what a correct file holds: header cells, where each pattern is, and its position in the scan"""

    def __init__(self, fmt, W, H, ncols, nrows, bits=8, xstep=1.0, ystep=1.0, gap=0, table=None, background=False,
                 xy=True):
        self.fmt, self.W, self.H, self.ncols, self.nrows, self.bits = fmt, W, H, ncols, nrows, bits
        self.xstep, self.ystep, self.xy = xstep, ystep, xy
        self.n = ncols * nrows
        self.isz = bits // 8
        self.pb = W * H * self.isz
        self.cells = []
        self.percell = []
        if fmt == "UP1":
            self.first = 16 + gap
            self.stride = self.pb
            self._hdr([(U32, 1), (U32, W), (U32, H), (U32, self.first)])
        elif fmt == "UP3":
            self.first = 42 + gap
            self.stride = self.pb
            self._hdr([(U32, 3), (U32, W), (U32, H), (U32, self.first), (U8, 0), (U32, ncols), (U32, nrows), (U8, 0),
                       (F64, xstep), (F64, ystep)])
        elif fmt == "TFPAT":
            self.first = 25 + (self.pb if background else 0) + 8
            self.stride = self.pb + 8
            self._hdr([(U32, 1), (U32, ncols), (U32, nrows), (U32, W), (U32, H), (I16, -1), (U8, 12),
                       (I16, -1 if background else 0)])
        elif fmt.startswith("EBSP"):
            ver = self.version = int(fmt[4:])
            foot = 16 if ver == 1 else 18 if xy else 1
            head = 9 if ver >= 4 else 8
            self.stride = 16 + self.pb + foot
            self.table = table or list(range(self.n))        # slot of each pattern in the file, None: not stored
            self.start = head + 8 * self.n + gap
            self._hdr([(I64, -ver)] + ([(U8, 0)] if ver >= 4 else []) +
                      [(U64, 0 if t is None else self.start + t * self.stride) for t in self.table])
        self.suffix = {"UP1": ".up%d" % (bits // 8), "UP3": ".up%d" % (bits // 8), "TFPAT": ".pat"}.get(fmt, ".ebsp")

    def _hdr(self, l):
        o = 0
        for (t, s), v in l:
            self.cells.append((o, t, s, v))
            o += s

    def pos(self, i):
        """offset of the first pixel of pattern i (None: not stored)"""
        if self.fmt.startswith("EBSP"):
            t = self.table[i]
            return None if t is None else self.start + t * self.stride + 16
        return self.first + i * self.stride

    def size(self):
        if self.fmt.startswith("EBSP"):
            return self.start + max(t for t in self.table if t is not None) * self.stride + self.stride
        if self.fmt == "TFPAT":
            return self.first - 8 + self.n * self.stride
        return self.first + self.n * self.stride

    def xyval(self, i):
        return (i % self.ncols) * self.xstep, -(i // self.ncols) * self.ystep

    def around(self, i):
        """header/footer cells of pattern i of an EBSP or TFPAT file"""
        p, out = self.pos(i), []
        if p is None:
            return out
        if self.fmt == "TFPAT":
            return [(p - 8, "u4", 4, i % self.ncols), (p - 4, "u4", 4, i // self.ncols)]
        if self.fmt.startswith("EBSP"):
            for k, v in enumerate((0, self.H, self.W, self.pb)):
                out.append((p - 16 + 4 * k, "u4", 4, v))
            o = p + self.pb
            x, y = self.xyval(i)
            if self.version == 1:
                out += [(o, "f8", 8, x), (o + 8, "f8", 8, y)]
            elif self.xy:
                out += [(o, "u1", 1, 1), (o + 1, "f8", 8, x), (o + 9, "u1", 1, 1), (o + 10, "f8", 8, y)]
            else:
                out.append((o, "u1", 1, 0))
        return out

    def eager(self):
        return self.fmt.startswith("EBSP")


def virtual(vfs, lay, name="/vfs/scan"):
    f = VFile()
    for o, t, s, v in lay.cells:
        f.put(o, s, v)
    f.size = lay.size()
    f.base = True
    if lay.eager():
        for i in range(lay.n):
            for o, t, s, v in lay.around(i):
                f.put(o, s, v)
    path = name + lay.suffix
    vfs.files[path] = f
    return path, f


def real_file(lay, folder, name="scan", around=None, seed=3, near=None):
    """the layout as a file; pixels pseudo-random, patterns 'near' (indices) stored, others left as holes"""
    path = real_os.path.join(folder, name + lay.suffix)
    rng = np.random.default_rng(seed)
    with open(path, "wb") as f:
        f.truncate(int(lay.size()))

        def put(o, t, v):
            f.seek(int(o))
            np.array([v], dtype="<" + t).tofile(f)
        for o, t, s, v in lay.cells:
            put(o, t, v)
        for i in (range(lay.n) if lay.n <= 200 else near):
            if lay.pos(i) is None:
                continue
            for o, t, s, v in lay.around(i):
                put(o, t, v)
            f.seek(int(lay.pos(i)))
            rng.integers(1, 2 ** lay.bits - 1, lay.H * lay.W).astype("u%d" % lay.isz).tofile(f)
        if lay.fmt == "TFPAT" and lay.first > 33:
            f.seek(25)
            rng.integers(1, 2 ** 12, lay.H * lay.W).astype("u2").tofile(f)
    return path


def stored(lay, path, i):
    """pixels of pattern i in a real file"""
    if lay.pos(i) is None:
        return np.zeros((lay.H, lay.W), dtype="u%d" % lay.isz)
    with open(path, "rb") as f:
        f.seek(int(lay.pos(i)))
        return np.fromfile(f, dtype="u%d" % lay.isz, count=lay.H * lay.W).reshape(lay.H, lay.W)


CONV = {"ncols": int, "nrows": int, "W": int, "H": int}
