"""in-memory pattern files for the NLPAR checks and their replays"""
from .common import *


class Store:
    """one float pattern array [n, h, w] with a count of writes per pattern"""
    def __init__(self, npx, data):
        self.data = data
        self.writes = [0] * data.shape[0]


def mem_file(base, npx, store, nrows, ncols):
    class MemFile(base):
        def __init__(self):
            base.__init__(self, "/nonexistent/vf.up1", filetype="UP")
            self.read_header()

        def read_header(self, path=None, **k):
            self.version = 1
            self.nRows, self.nCols = npx.uint64(nrows), npx.uint64(ncols)
            self.nPatterns = npx.uint64(nrows * ncols)
            self.patternH, self.patternW = store.data.shape[1], store.data.shape[2]
            self.filedatatype = npx.float32
            self.xStep = self.yStep = 1.0

        def pat_reader(self, patStart=0, nPatToRead=1):
            s, n = int(patStart), int(nPatToRead)
            if s < 0 or n < 0 or s + n > store.data.shape[0]:
                raise IndexError("patterns %d..%d of %d read" % (s, s + n, store.data.shape[0]))
            return store.data[s:s + n].copy(), npx.zeros((n, 2))

        def write_header(self, **k):
            pass

        def copy_file(self, newpath, **k):
            pass

        def pat_writer(self, pat2write, patStart, nPatToWrite, typewrite):
            s, n = int(patStart), int(nPatToWrite)
            if s < 0 or n < 0 or s + n > store.data.shape[0]:
                raise IndexError("patterns %d..%d of %d written" % (s, s + n, store.data.shape[0]))
            store.data[s:s + n] = pat2write[0:n]
            for i in range(s, s + n):
                store.writes[i] += 1
    return MemFile()


def nlpar(mod, npx, data, nrows, ncols, mask=None, sigma=None, **kw):
    """run calcnlpar on data [nrows*ncols, h, w]; returns (output patterns, NLPAR object, out store)"""
    src = Store(npx, data)
    dst = Store(npx, npx.zeros(data.shape) - 777.0)
    base = mod.ebsd_pattern.EBSDPatternFile
    old = mod.ebsd_pattern.get_pattern_file_obj
    files = []

    def get(path, *a, **k):
        f = mem_file(base, npx, dst if files else src, nrows, ncols)
        files.append(f)
        return f
    mod.ebsd_pattern.get_pattern_file_obj = get
    try:
        n = mod.NLPAR("/nonexistent/vf.up1")
        n.mask = mask
        n.sigma = sigma
        if kw.pop("only_sigma", False):
            return n.calcsigma(**kw), n, dst
        n.calcnlpar(verbose=0, **kw)
    finally:
        mod.ebsd_pattern.get_pattern_file_obj = old
    return dst.data, n, dst


def real_env():
    """replays: index errors inside compiled loops are reported, compiled code is not cached elsewhere"""
    import os
    os.environ["NUMBA_BOUNDSCHECK"] = "1"
    os.environ["NUMBA_CACHE_DIR"] = os.environ["HOME"]
    os.environ["NUMBA_NUM_THREADS"] = "2"
