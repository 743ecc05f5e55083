"""indexer with recorded band finding and voting: shared by I01-I03 (and the replays)"""
from .common import *

NB = 4


class Rec:
    """one phase's answer for one pattern"""
    KEYS = ("fit", "cm", "nmatch", "totvotes")


def band_dtype(nph, nb=NB):
    return np.dtype([('id', np.int32), ('max', np.float32), ('normmax', np.float32), ('maxloc', np.float32, (2,)),
                     ('avemax', np.float32), ('aveloc', np.float32, (2,)), ('pqmax', np.float32), ('width', np.float32),
                     ('theta', np.float32), ('rho', np.float32), ('valid', np.int8),
                     ('band_match_index', np.int64, (nph,))])


class Radon:
    """radon2pole stand-in: the normals carry the pattern's number"""
    def __init__(self, log, npx):
        self.log, self.np = log, npx

    def radon2pole(self, bd, PC=None, vendor="EDAX"):
        self.log.append(("radon2pole", PC, vendor))
        return bd["width"][..., None] * np.array([1.0, 0.0, 0.0]) if self.np is np else \
            self.np.broadcast_to(bd["width"][..., None], tuple(bd.shape) + (3,))


class Plan:
    """band detection stand-in: each band record carries the pattern's number in 'width'"""
    def __init__(self, log, npx, nph, patdim=(4, 5), valid=None):
        self.log, self.np = log, npx
        self.patDim = None if patdim is None else np.array(patdim)
        self.nBands = NB
        self.rhoMax, self.rhoMaskFrac = 2.0, 0.1
        self.nTheta, self.nRho = 180, 90
        self.dataType = band_dtype(nph)
        self.radonPlan = Radon(log, npx)
        self.useCPU = True
        self.valid = valid
        self.setups = []
        self.backgroundsub = None

    def band_detect_setup(self, patterns=None, patDim=None, **k):
        p = patDim if patDim is not None else patterns.shape[-2:]
        self.setups.append(list(p))
        self.patDim = p if isinstance(p, np.ndarray) else np.array(list(p))

    def find_bands(self, pats, **k):
        n = pats.shape[0]
        bd = self.np.zeros((n, self.nBands), dtype=self.dataType)
        bd["band_match_index"] = -100
        for p in range(n):
            bd["width"][p, :] = pats[p, 0, 0]
            bd["valid"][p, :] = 1 if self.valid is None else self.valid
            bd["max"][p, :] = 100.0
            bd["normmax"][p, :] = 3.0
            bd["theta"][p, :] = 1.0
            bd["rho"][p, :] = 0.0
        return bd


def qid(ph, pat):
    """distinct unit quaternions with rational entries"""
    m = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29), (9, 40, 41), (12, 35, 37), (28, 45, 53)][ph * 3 + pat]
    return [m[0] / m[2], m[1] / m[2], 0.0, 0.0]


def make_phases(BI, npx, table, log, earlyexit):
    """table[phase][pattern] = dict(fit, cm, nmatch, totvotes, match=[...]); BI: the module's BandIndexer class"""
    out = []
    for ph, rows in enumerate(table):
        class P(BI):
            def __init__(self, ph=ph, rows=rows):
                self.ph, self.rows = ph, rows
                self.nband_earlyexit = earlyexit[ph] if isinstance(earlyexit, (list, tuple)) else earlyexit
                self.phasename = self.phaseName = "ph%d" % ph

            def bandindex(self, bn, band_intensity=None, band_widths=None, verbose=0):
                ids = [int(x) for x in snp.plain(bn)[:, 0, 0]] if npx is not np else [int(x) for x in bn[:, 0, 0]]
                log.append(("bandindex", self.ph, ids, band_intensity))
                n = len(ids)
                q = npx.zeros((n, 4))
                fit, cm = npx.zeros(n), npx.zeros(n)
                nm, tv = npx.zeros(n, dtype=np.int64), npx.zeros(n, dtype=np.int64)
                pm = npx.zeros((n, NB), dtype=np.int64)
                ij = npx.zeros((n, 4), dtype=np.int64)
                for k, p in enumerate(ids):
                    r = self.rows[p]
                    q[k, :] = npx.array(qid(self.ph, p))
                    fit[k], cm[k], nm[k], tv[k] = r["fit"], r["cm"], r["nmatch"], r["totvotes"]
                    pm[k, :] = npx.array(r["match"])
                    ij[k, :] = npx.array([self.ph, p, 1, 2])
                return q, fit, cm, pm, nm, ij, tv
        out.append(P())
    return out


def patterns(n, dims=(4, 5)):
    return np.arange(n).reshape(n, 1, 1) * np.ones((1,) + tuple(dims))


class Ray:
    """stand-in of the ray module good enough to import the package"""
