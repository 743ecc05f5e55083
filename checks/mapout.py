"""scan results, indexer and captured output files: shared by O01 and O02 (and the replays)"""
from .common import *
import re
import types

FIELDS = ("iq", "pq", "cm", "fit", "phase")
DT = [("quat", np.float64, 4), ("iq", np.float32), ("pq", np.float32), ("cm", np.float32), ("phase", np.int32),
      ("fit", np.float32), ("nmatch", np.int32), ("matchattempts", np.int32, 4), ("totvotes", np.int32)]
LAUE = [43, 62, 22]


def phases(n):
    out = []
    for k in range(n):
        pol = np.array([[1, 0, -1, 0], [1, 0, -1, 1 + k]]) if LAUE[k] == 62 else np.array([[1, 1, 1], [2, 0, k]])
        out.append(types.SimpleNamespace(phasename="ph%d" % k, lauecode=LAUE[k], spacegroup=200 + k, npolefamilies=2 if k != 2 else 1,
                                         polefamilies=pol if k != 2 else pol[:1],
                                         latticeparameter=np.array([0.25 + k, 0.5 + k, 0.75 + k, 90.0, 91.0 + k, 120.0])))
    return out


def poles3(ph):
    p = np.array(ph.polefamilies)
    return p[:, [0, 1, 3]] if p.shape[1] == 4 else p


class Rot:
    """rotlib stand-in: any function of the row will do (the conversion itself is R02)"""
    def __init__(self, npx):
        self.np = npx

    def qu2eu(self, q, p=-1):
        q = self.np.atleast_2d(self.np.asarray(q))
        return self.np.squeeze(q[:, 1:4] + q[:, 0:1])


def euler_of(q):
    return [q[0] + q[k] for k in (1, 2, 3)]


def make_data(npx, vals, nph, n):
    """vals['quat'|field] = nested lists [row][point]"""
    d = npx.zeros((nph + 1, n), dtype=DT)
    for r in range(nph + 1):
        for p in range(n):
            for k in range(4):
                d["quat"][r, p, k] = vals["quat"][r][p][k]
            for f in FIELDS:
                d[f][r, p] = vals[f][r][p]
    return d


def make_indexer(vals, nph, grid):
    fid = None
    if grid == "file":
        fid = types.SimpleNamespace(xStep=vals["xs"], yStep=vals["ys"], nCols=vals["nc"], nRows=vals["nr"], hexflag=0)
    elif grid == "nosteps":
        fid = types.SimpleNamespace(xStep=0.0, yStep=0.0, nCols=vals["nc"], nRows=vals["nr"], hexflag=0)
    return types.SimpleNamespace(PC=list(vals["pc"]), sampleTilt=vals["tilt"], camElev=vals["elev"], phaseLib=phases(nph),
                                 fID=fid)


def out_kwargs(vals, grid):
    k = {}
    if grid in ("given", "cols"):
        k["ncols"] = vals["nc"]
    if grid == "given":
        k["nrows"] = vals["nr"]
    if grid != "file":
        k["xstep"], k["ystep"] = vals["xs"], vals["ys"]
    return k


def columns(vals, grid, n):
    return 1 if grid == "none" else vals["nc"]


def fresh_vals(nph, n, nc, nr):
    def R(nm, lo, hi):
        x = Real(nm)
        assume(x >= lo)
        assume(x <= hi)
        return x
    v = dict(nc=nc, nr=nr, xs=R("xs", Fraction(1, 10), 10), ys=R("ys", Fraction(1, 10), 10), tilt=R("tilt", -90, 90),
             elev=R("elev", -90, 90), pc=[R("pc%d" % k, -2, 2) for k in range(3)])
    rng = dict(iq=(0, 100), pq=(0, 1000), cm=(0, 1), fit=(0, 99))
    v["quat"] = [[[R("q%d_%d_%d" % (r, p, k), -1, 1) for k in range(4)] for p in range(n)] for r in range(nph + 1)]
    for f, (lo, hi) in rng.items():
        v[f] = [[R("%s%d_%d" % (f, r, p), lo, hi) for p in range(n)] for r in range(nph + 1)]
    v["phase"] = [[Int("ph%d_%d" % (r, p)) for p in range(n)] for r in range(nph + 1)]
    for row in v["phase"]:
        for x in row:
            assume(x >= -1)
            assume(x <= nph - 1)
    return v


from fractions import Fraction  # noqa: E402


# ------------------------------------------------------------------ text files
class TextFile:
    def __init__(self, log, path):
        self.log, self.path = log, path
        self.buf = []
        log[path] = self.buf

    def write(self, s):
        self.buf.append(s)
        return len(s)

    def writelines(self, ss):
        for s in ss:
            self.write(s)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def flush(self):
        pass


class Tokens:
    """symbolic numbers in written text: a mark, with the rounding of the format"""
    PAT = re.compile("\x02(\\d+)\x03")

    def __init__(self):
        self.vals = []

    def __call__(self, v, spec):
        err = None
        if spec:
            m = re.fullmatch(r"[<>=^]?[ +-]?\d*\.(\d+)([fF])", spec)
            if m:
                err = Fraction(1, 2 * 10 ** int(m.group(1)))
            elif spec not in ("d", "g", "s"):
                raise sym.Unsupported("format " + spec)
        self.vals.append((v, err))
        return "\x02%d\x03" % (len(self.vals) - 1)

    def val(self, s):
        m = self.PAT.fullmatch(s)
        if not m:
            return float(s) if self.PAT.search(s) is None else None
        v, err = self.vals[int(m.group(1))]
        if err is None:
            return v
        e = Real("round%d" % int(m.group(1)))
        assume(e >= -err)
        assume(e <= err)
        return v + e


def parse_ang(text):
    head, rows, ph, cur = {}, [], {}, None
    for ln in text.replace("\r\n", "\n").split("\n"):
        if ln.startswith("#"):
            t = ln[1:].split()
            if not t:
                continue
            if t[0] == "Phase":
                cur = ph.setdefault(t[1], {"hklFamilies": []})
            elif t[0] in ("MaterialName", "Symmetry", "LatticeConstants", "NumberFamilies") and cur is not None:
                cur[t[0]] = t[1:]
            elif t[0] == "hklFamilies" and cur is not None:
                cur["hklFamilies"].append(t[1:])
            else:
                head[t[0]] = t[1:]
        elif ln.strip():
            rows.append(ln.split())
    return head, ph, rows
