"""Definitions of the planted bugs (see mkseed.py).  No check reads this file."""
SEEDS = {}
def seed(sid, prop, edits, demo, needs, breaks):
    SEEDS[sid] = dict(prop=prop, edits=edits, demo=demo.lstrip('\n'), needs=needs, breaks=breaks)

seed('r01-many-to-one-convention', 'R01',
     [('rotlib.py', "vout = quat_vectorLN1(q,v0,n,intype,p=p)", "vout = quat_vectorLN1(q,v0,n,intype)")],
'''
import sys
import numpy as np
from pyebsdindex import rotlib
rng = np.random.default_rng(3)
q = rotlib.quatnorm(rng.normal(size=(4, 4)))
v = rng.normal(size=3)
for p in (1, -1):
    many = rotlib.quat_vector(q, v, p=p)
    for i in range(4):
        one = rotlib.quat_vector(q[i], v, p=p)
        if not np.allclose(many[i], one, atol=1e-6):
            print("rows differ", p, i, many[i], one)
            sys.exit(1)
''', 'many quaternions rotating a single vector under the opposite convention flag',
     'the many-to-one form of quat_vector ignores the convention flag')

seed('r02-om2qu-half-turn-z', 'R02',
     [('rotlib.py', "qu[i,2] = (om[i,1,2] + om[i,2,1]) / s\n        qu[i,3] = 0.25 * s",
       "qu[i,2] = (om[i,1,2] - om[i,2,1]) / s\n        qu[i,3] = 0.25 * s")],
'''
import sys
import numpy as np
from pyebsdindex import rotlib
for ax in ([0.1, 0.3, 1.0], [-0.4, 0.2, 0.9], [0.0, 0.5, 0.8]):
    ax = np.array(ax) / np.linalg.norm(ax)
    for ang in (2.4, 2.9, 3.1):
        om = rotlib.ax2om(np.append(ax, ang))
        q = rotlib.om2qu(om)
        om2 = rotlib.qu2om(q)
        if not np.allclose(om, om2, atol=1e-5):
            print("not the same rotation", ax, ang)
            sys.exit(1)
''', 'a matrix with non-positive trace whose largest diagonal element is the last one and a y axis component',
     'om2qu returns another rotation for large angles about axes near z')

seed('r03-qu2ax-row-state', 'R03',
     [('rotlib.py', """      omega = 2.0 * np.arccos(qu[i,0])
      mag = 0.0
      for j in range(3):
        mag += qu[i,j + 1] ** 2
      mag = 1.0 / (np.sqrt(mag)+1e-35)
      for j in range(3):
        ax[i,j] = qu[i,j + 1] * mag
      ax[i,3] = omega

  return ax
""", """      omega = 2.0 * np.arccos(qu[i,0])
      mag = 0.0
      for j in range(3):
        mag += qu[i,j + 1] ** 2
      mag = 1.0 / (np.sqrt(mag)+1e-35)
      for j in range(3):
        ax[i,j] = qu[i,j + 1] * mag
      if (omega == PI) and (i > 0):
        for j in range(3):
          ax[i,j] = ax[i,j] if ax[i-1,2] >= 0.0 else -ax[i,j]
      ax[i,3] = omega

  return ax
""")],
'''
import sys
import numpy as np
from pyebsdindex import rotlib
half = [0.0, 0.6, 0.0, 0.8]
batch = np.array([half, [0.8, 0.0, 0.0, -0.6], half, [1.0, 0.0, 0.0, 0.0], half])
out = rotlib.qu2ax(batch)
for i in range(len(batch)):
    if not np.allclose(out[i], rotlib.qu2ax(batch[i]), atol=1e-6):
        print("row", i, "depends on the other rows", out[i], rotlib.qu2ax(batch[i]))
        sys.exit(1)
''', 'a batch with an exact half turn in a row after one whose axis points to -z',
     'the axis of a half turn depends on the previous row of the batch')

seed('x01-monoclinic-boundary', 'X01',
     [('crystal_sym.py', "sgpg = [1, 2, 3, 6, 10, 16,", "sgpg = [1, 2, 3, 6, 10, 15,")],
'''
import sys
from pyebsdindex import crystal_sym
want = [(1, 2, 1), (3, 15, 2), (16, 74, 4), (75, 88, 4), (89, 142, 8), (143, 148, 3),
        (149, 167, 6), (168, 176, 6), (177, 194, 12), (195, 206, 12), (207, 230, 24)]
for a, b, n in want:
    for sg in range(a, b + 1):
        m = len(crystal_sym.spacegroupnum2symops(sg))
        if m != n:
            print("space group", sg, "has", m, "operators, expected", n)
            sys.exit(1)
''', 'space group 15 (C2/c)', 'the last monoclinic space group gets orthorhombic operators')

seed('x02-threshold', 'X02',
     [('crystallometry.py', "smallThreshold = 1e-6", "smallThreshold = 5e-3")],
'''
import sys
import numpy as np
from pyebsdindex.crystallometry import Crystal
for cell in ([0.5, 0.6, 0.7, 90, 90, 90], [0.3, 0.4, 0.5, 90, 90.6, 90], [0.3, 0.42, 0.51, 90.3, 91, 90.4],
             [4.0, 5.0, 6.0, 80, 95, 100]):
    c = Crystal("x", *cell)
    m = c.metricTensor @ c.reciprocalMetricTensor
    if not np.allclose(m, np.eye(3), atol=1e-3):
        print("reciprocal metric is not the inverse", cell, m)
        sys.exit(1)
''', 'a cell in nanometres with an angle slightly off 90 degrees',
     'small but genuine off-diagonal metric terms are dropped')

seed('i01-no-solution-copied', 'I01',
     [('_ebsd_index_single.py', "whgood = np.nonzero(nMatch >= 3 )[0]", "whgood = np.nonzero(nMatch >= 2 )[0]")],
'''
import sys
import numpy as np
from pyebsdindex import ebsd_index, tripletvote
class Fake:
    """A phase library giving two matched bands only: no solution."""
    def __init__(self): self.phaseName = "fake"
    def bandindex(self, bn, band_intensity=None, band_widths=None, verbose=0):
        n, nb = bn.shape[0], bn.shape[1]
        q = np.zeros((n, 4)); q[:, 0] = 1.0
        return (q, np.full(n, 0.5), np.full(n, 0.2), np.full((n, nb), 1), np.full(n, 2),
                np.zeros((n, 4)), np.full(n, 3))
ind = ebsd_index.EBSDIndexer(phaselist=["FCC"], patDim=(60, 60))
ind.phaseLib = [Fake()]
pats = np.random.default_rng(0).integers(0, 255, size=(3, 60, 60)).astype(np.uint8)
data, bands = ind.index_pats(patsin=pats)[0:2]
if not np.all(data[-1]["phase"] == -1):
    print("a pattern without solution is reported as phase", data[-1]["phase"])
    sys.exit(1)
''', 'a pattern for which a phase matches exactly two bands',
     'patterns without a solution (fewer than three matched bands) are reported as indexed')

seed('i01-later-phase-rank', 'I01',
     [('_ebsd_index_single.py', 'indxData["nmatch"][j, whgood2] = nMatch[whgood]', 'indxData["nmatch"][j, whgood2] = nMatch[whgood2]')],
'''
import sys
import numpy as np
from pyebsdindex import ebsd_index
class Fake:
    def __init__(self, nm): self.nm = np.array(nm)
    def bandindex(self, bn, band_intensity=None, band_widths=None, verbose=0):
        n, nb = bn.shape[0], bn.shape[1]
        nm = self.nm
        q = np.zeros((n, 4)); q[:, 0] = 1.0
        return (q, np.full(n, 0.5), np.full(n, 0.2), np.full((n, nb), 1), nm,
                np.zeros((n, 4)), np.full(n, 3))
ind = ebsd_index.EBSDIndexer(phaselist=["FCC", "BCC"], patDim=(60, 60))
pats = np.random.default_rng(0).integers(0, 255, size=(3, 60, 60)).astype(np.uint8)
# the first phase finds all bands of pattern 0: only patterns 1 and 2 go on to the second phase
ind.phaseLib = [Fake([9, 4, 4]), Fake([6, 8])]
ind.nband_earlyexit = 9
try:
    data, bands = ind.index_pats(patsin=pats)[0:2]
except IndexError as e:
    print("failed", e); sys.exit(1)
if list(data[1]["nmatch"]) != [0, 6, 8]:
    print("wrong matches", data[1]["nmatch"]); sys.exit(1)
''', 'an early exit for some pattern before a later phase',
     'the number of matched bands of a later phase is taken from another pattern')

seed('i02-tilt-order', 'I02',
     [('_ebsd_index_single.py', """            tiltang = -1.0 * (90.0 - self.sampleTilt + self.camElev) / RADEG
            q1 = np.array([np.cos(tiltang * 0.5), np.sin(tiltang * 0.5), 0.0, 0.0])
            quatref2detect = q1""", """            tiltang = -1.0 * (90.0 - abs(self.sampleTilt) + self.camElev) / RADEG
            q1 = np.array([np.cos(tiltang * 0.5), np.sin(tiltang * 0.5), 0.0, 0.0])
            quatref2detect = q1""")],
'''
import sys
import numpy as np
from pyebsdindex import ebsd_index, rotlib
for ven in ("EDAX", "OXFORD", "BRUKER"):
    for tilt, elev in ((70.0, 5.0), (65.0, 0.0), (-20.0, -85.0), (-10.0, -75.0)):
        ind = ebsd_index.EBSDIndexer(vendor=ven, sampleTilt=tilt, camElev=elev, patDim=(60, 60))
        q = ind._detector2refframe()
        ref = ebsd_index.EBSDIndexer(vendor=ven, sampleTilt=65.0, camElev=0.0, patDim=(60, 60))._detector2refframe()
        if not (np.allclose(q, ref, atol=1e-6) or np.allclose(q, -ref, atol=1e-6)):
            print("equal total tilt, other orientation", ven, tilt, elev, q, ref)
            sys.exit(1)
''', 'a negative sample tilt with an Oxford or Bruker convention',
     'equal total tilt no longer gives equal orientations')

seed('i03-shared-pc', 'I03',
     [('_ebsd_index_single.py', "self.bandDetectPlan = bandDetectPlan\n\n        if self.fID",
       "self.bandDetectPlan = bandDetectPlan\n            self.bandDetectPlan.nBands = nBands\n\n        if self.fID")],
'''
import sys
import numpy as np
from pyebsdindex import ebsd_index
a = ebsd_index.EBSDIndexer(patDim=(60, 60), nBands=7)
b = ebsd_index.EBSDIndexer(patDim=(60, 60), bandDetectPlan=a.bandDetectPlan)
pats = np.random.default_rng(0).integers(0, 255, size=(2, 60, 60)).astype(np.uint8)
data, bands = a.index_pats(patsin=pats)[0:2]
if bands.shape[-1] != 7:
    print("creating a second indexer changed the first one", bands.shape)
    sys.exit(1)
''', 'a second indexer created from the band detection plan of the first',
     'the second indexer changes the number of bands of the first one')

seed('n01-last-chunk-short', 'N01',
     [('nlpar_cpu.py', """      if (rowend - rowstartread) < (2*sr+1):
        rowstartread = np.int64(max(0, rowend - (2*sr+1)))""",
       """      if (rowend - rowstartread) < (2*sr):
        rowstartread = np.int64(max(0, rowend - (2*sr)))""")],
'''
import os, sys
import numpy as np
from pyebsdindex import nlpar_cpu, ebsd_pattern
d = os.environ["SCRATCH"]
rng = np.random.default_rng(1)
def run(chunk):
    f = ebsd_pattern.UPFile(os.path.join(d, "in.up2"))
    f.version = 3; f.filedatatype = np.uint16
    f.patternW, f.patternH, f.nCols, f.nRows, f.nPatterns = 4, 4, 5, 7, 35
    f.hexflag = 0; f.xStep = f.yStep = 1.0; f.bitsPerPixel = 16
    f.filePos = 42; f.extraPatterns = 0
    f.write_header()
    f.write_data(newpatterns=pats, patStartCount=[0, 35], flt2int="clip")
    n = nlpar_cpu.NLPAR(os.path.join(d, "in.up2"), lam=0.7, searchradius=2, dthresh=0.0)
    n.sigma = np.full((7, 5), 3000.0, dtype=np.float32)
    n.mask = np.ones((4, 4), dtype=np.uint8)
    out = n.calcnlpar(chunksize=chunk, fileout=os.path.join(d, "out%d.up2" % chunk), saturation_protect=False, verbose=0)
    g = ebsd_pattern.get_pattern_file_obj(str(out))
    return g.read_data(returnArrayOnly=True, patStartCount=[0, -1], convertToFloat=True)[0]
pats = rng.integers(1000, 20000, size=(35, 4, 4)).astype(np.float32)
ref = run(7)
for c in (1, 2, 3, 6):
    if not np.allclose(run(c), ref, atol=2.0):
        print("chunk size", c, "gives other patterns"); sys.exit(1)
''', 'a last chunk of a single row (rows %% chunk size == 1)'.replace('%%', '%'),
     'the last row of a chunk of one row is averaged over a smaller window')

seed('n02-saturated-neighbour', 'N02',
     [('nlpar_cpu.py', """                  d1 = data[indx_nn,indices[q]]
                  if (d1 < mxval) and (d0 < mxval):""", """                  d1 = data[indx_nn,indices[q]]
                  if (d0 < mxval):""")],
'''
import sys
import numpy as np
from pyebsdindex import nlpar_cpu
def ref(data, lam, sr, sigma, nr, nc):
    mx = data.max() * 0.999
    out = np.zeros_like(data)
    for j in range(nr):
        for i in range(nc):
            a = max(0, min(j - sr, nr - 2*sr - 1)); b = max(0, min(i - sr, nc - 2*sr - 1))
            w = []; idx = []
            for jj in range(a, min(a + 2*sr + 1, nr)):
                for ii in range(b, min(b + 2*sr + 1, nc)):
                    p0, p1 = data[i + nc*j], data[ii + nc*jj]
                    idx.append(ii + nc*jj)
                    if (ii, jj) == (i, j): w.append(1.0); continue
                    ok = (p0 < mx) & (p1 < mx)
                    n = ok.sum(); s = sigma[j, i]**2 + sigma[jj, ii]**2
                    d = (((p0 - p1)[ok])**2).sum() - n*s
                    d /= s*np.sqrt(2.0*n)
                    w.append(np.exp(-max(d, 0) / lam**2))
            w = np.array(w) / sum(w)
            out[i + nc*j] = (w[:, None]*data[idx]).sum(0)
    return out
rng = np.random.default_rng(5)
nr, nc, npx = 3, 4, 6
data = rng.uniform(10, 60, size=(nr*nc, npx)).astype(np.float32)
data[5, 2] = 255.0; data[2, 0] = 255.0
sigma = np.full((nr, nc), 30.0, dtype=np.float32)
got = nlpar_cpu.NLPAR.nlpar_nb(data, np.float32(0.8), 1, np.float32(0.0), sigma, nr, nc,
                               np.arange(npx).astype(np.uint64), True)
if not np.allclose(got, ref(data, 0.8, 1, sigma, nr, nc), rtol=1e-3, atol=1e-2):
    print("weights count saturated pixels"); sys.exit(1)
''', 'a saturated pixel in the neighbour pattern only', 'saturated pixels of a neighbour take part in the distance')

seed('n03-saturated-count', 'N03',
     [('nlpar_cpu.py', "s0 = d2 / np.float32(n2 * 2.0)", "s0 = d2 / np.float32(shpind[0] * 2.0)")],
'''
import sys
import numpy as np
from pyebsdindex import nlpar_cpu
a = np.array([[10, 20, 255, 40], [14, 20, 30, 41]], dtype=np.float32)
s = nlpar_cpu.NLPAR.sigma_numba(a, 1, 1, 2, np.array([0, 1]), np.array([0, 2]), np.arange(4).astype(np.uint64), True)[0]
want = np.sqrt((16 + 0 + 1) / 3.0 / 2.0)
if not np.allclose(s, want, rtol=1e-4):
    print("noise", s, "expected", want); sys.exit(1)
''', 'saturated pixels with saturation protection on', 'the noise is underestimated because excluded pixels are counted')

seed('t02-invalid-band-column', 'T02',
     [('tripletvote.py', "          bandangs[:, i] = 10000.0\n\n      angTest0 = np.zeros((3)", "\n      angTest0 = np.zeros((3)")],
'''
import sys
import numpy as np
from pyebsdindex import tripletvote
BI = tripletvote.BandIndexer
b = BI.__new__(BI)
lut = tripletvote.LUT if hasattr(tripletvote, "LUT") else None
p = tripletvote.addphase(libtype="FCC")
lut = p.tripLib["LUT"] if isinstance(getattr(p, "tripLib", None), dict) and "LUT" in p.tripLib else None
if lut is None:
    from itertools import permutations
    lut = np.zeros((3, 3, 3, 3), dtype=np.int64)
    names = [(0, 1), (0, 2), (1, 2)]
    for s in permutations(range(3)):
        # band shared by the sorted angles (0,1), (0,2), (1,2)
        lut[:, s[0], s[1], s[2]] = [(set(names[s[x]]) & set(names[s[y]])).pop() for x, y in ((0, 1), (0, 2), (1, 2))]
n = np.array([[1, 0, 0], [np.cos(0.5), np.sin(0.5), 0], [0.6, 0.0, 0.8], [0.3, 0.5, 0.81]], dtype=np.float64)
n /= np.linalg.norm(n, axis=1)[:, None]
ang = lambda a, b: np.degrees(np.arccos(abs(n[a] @ n[b])))
for bad in range(4):
    inten = np.ones((1, 4), dtype=np.float64); inten[0, bad] = 0.0
    trips = np.array([sorted([ang(0, 1), ang(0, 2), ang(1, 2)]), sorted([ang(0, 1), ang(0, 3), ang(1, 3)]),
                      sorted([ang(0, 2), ang(0, 3), ang(2, 3)]), sorted([ang(1, 2), ang(1, 3), ang(2, 3)])], dtype=np.float32)
    ids = np.zeros((4, 3), dtype=np.int64)
    r = BI._tripvote_numba(n[None], inten, np.asarray(lut), 1.0, trips, ids, 2)
    if np.any(r[0][0, :, bad] > 0):
        print("band", bad, "is invalid and has votes"); sys.exit(1)
''', 'an invalid band behind valid ones in the list', 'invalid bands that follow valid ones take part in the vote')

seed('f01-tfpat-rows-of-columns', 'F01',
     [('ebsd_pattern.py', "pstart = np.int64(np.int64(np.int64(rowstart+i)*self.nCols)+colstart)\n          ptemp",
       "pstart = np.int64(np.int64(np.int64(rowstart)*self.nCols+i*ncolread)+colstart) if ncolread == self.nCols - 1 else np.int64(np.int64(np.int64(rowstart+i)*self.nCols)+colstart)\n          ptemp")],
'''
import os, sys
import numpy as np
from pyebsdindex import ebsd_pattern
path = os.path.join(os.environ["SCRATCH"], "a.up1")
nc, nr, w, h = 4, 5, 3, 2
data = np.arange(nc*nr*w*h).astype(np.uint8).reshape(nc*nr, h, w)
with open(path, "wb") as f:
    np.array([3, w, h, 42], dtype=np.uint32).tofile(f)
    np.array([0], dtype=np.uint8).tofile(f)
    np.array([nc, nr], dtype=np.uint32).tofile(f)
    np.array([0], dtype=np.uint8).tofile(f)
    np.array([1.0, 1.0], dtype=np.float64).tofile(f)
    data.tofile(f)
o = ebsd_pattern.get_pattern_file_obj(path)
o.read_header()
for c in range(nc):
    for k in range(1, nc - c + 1):
        p, _ = o.read_data(patStartCount=[[c, 1], [k, 3]], returnArrayOnly=True)
        want = data.reshape(nr, nc, h, w)[1:4, c:c+k].reshape(-1, h, w)
        if not np.array_equal(p, want):
            print("rectangle at column", c, "of", k, "columns is wrong"); sys.exit(1)
''', 'a rectangle one column narrower than the scan and more than one row high',
     'the rows of a rectangle one column narrower than the scan are read from shifted places')

seed('f02-tfpat-row-number', 'F02',
     [('ebsd_pattern.py', "loc[:,1] = loc[:,1] // self.nCols", "loc[:,1] = loc[:,1] // self.nRows")],
'''
import os, sys
import numpy as np
from pyebsdindex import ebsd_pattern
path = os.path.join(os.environ["SCRATCH"], "a.pat")
nc, nr, w, h = 4, 3, 3, 2
rec = np.zeros(nc*nr, dtype=[('x', 'u4'), ('y', 'u4'), ('p', 'u2', (h, w))])
rec['x'] = np.arange(nc*nr) % nc
rec['y'] = np.arange(nc*nr) // nc
rec['p'] = np.arange(nc*nr*w*h).reshape(nc*nr, h, w)
with open(path, "wb") as f:
    np.array([1, nc, nr, w, h], dtype=np.uint32).tofile(f)
    np.array([-1], dtype=np.int16).tofile(f)
    np.array([16], dtype=np.uint8).tofile(f)
    np.array([0], dtype=np.int16).tofile(f)
    rec.tofile(f)
o = ebsd_pattern.get_pattern_file_obj(path)
o.read_header()
for k in range(nc*nr):
    o.write_data(newpatterns=rec['p'][k:k+1] + 1, patStartCount=[k, 1])
    now = np.fromfile(path, dtype=rec.dtype, offset=25)
    if not (np.array_equal(now['x'], rec['x']) and np.array_equal(now['y'], rec['y'])):
        print("writing pattern", k, "changed its stored position"); sys.exit(1)
''', 'TFPAT file with a grid that is not square', 'writing a TFPAT pattern stores a wrong row number with it')

seed('f03-ebsp-v4-table', 'F03',
     [('ebsd_pattern.py', "        if self.version >= 4:\n          file_head_length = 9", "        if self.version > 4:\n          file_head_length = 9")],
'''
import os, sys
import numpy as np
from pyebsdindex import ebsd_pattern
for v in (1, 2, 3, 4):
    path = os.path.join(os.environ["SCRATCH"], "v%d.ebsp" % v)
    o = ebsd_pattern.EBSPFile(path)
    o.version, o.nCols, o.nRows, o.nPatterns = v, 3, 2, 6
    o.patternW, o.patternH, o.xStep, o.yStep, o.hasxypos = 4, 2, 0.5, 0.25, True
    o.write_header(writeBlank=True, bitdepth=8)
    r = ebsd_pattern.EBSPFile(path)
    try:
        ok = r.read_header() == 0 and (int(r.nPatterns), int(r.patternW), int(r.patternH), int(r.nCols), int(r.nRows)) == (6, 4, 2, 3, 2)
    except Exception as e:
        ok = False
    if not ok:
        print("version", v, "header is not read back"); sys.exit(1)
''', 'a new EBSP file of version 4', 'the pattern table of version 4 files points one byte too early')

seed('f04-kikuchipy-grid-of-first-scan', 'F04',
     [('ebsd_pattern.py', """      headerpath = (f[self.h5patdatpth].parent.parent)["Header"]
      self.nCols = np.uint32(headerpath['n_columns'][()][0])""",
       """      headerpath = f[self.h5datagroups[0] + '/EBSD/Header']
      self.nCols = np.uint32(headerpath['n_columns'][()][0])""")],
'''
import os, sys
import numpy as np
import h5py
from pyebsdindex import ebsd_pattern
path = os.path.join(os.environ["SCRATCH"], "a.h5")
with h5py.File(path, "w") as f:
    f["version"] = np.array([b"0.8.0"]); f["manufacturer"] = np.array([b"kikuchipy"])
    for nm, nc, nr in (("A", 3, 2), ("B", 2, 4)):
        f[nm + "/EBSD/Data/patterns"] = np.arange(nc*nr*6, dtype="u1").reshape(nc*nr, 2, 3)
        for k, v in (("n_columns", nc), ("n_rows", nr)):
            f[nm + "/EBSD/Header/" + k] = np.array([v])
        for k in ("step_x", "step_y"):
            f[nm + "/EBSD/Header/" + k] = np.array([0.5])
        f[nm + "/EBSD/Header/grid_type"] = np.array([b"square"])
for nm, nc, nr in (("A", 3, 2), ("B", 2, 4)):
    o = ebsd_pattern.get_pattern_file_obj([path, nm + "/EBSD/Data/patterns"])
    if (int(o.nCols), int(o.nRows), int(o.nPatterns)) != (nc, nr, nc*nr):
        print(nm, o.nCols, o.nRows, o.nPatterns); sys.exit(1)
''', 'a file with several scans, opening another one than the first', 'the grid of the first scan is used for every scan of the file')

seed('f05-fullscale-wraps', 'F05',
     [('ebsd_pattern.py', "    temp *= scalevalue * maxval / maxScale\n    temp = temp.clip(0, maxval)\n    temp = np.around(temp)\n    patsout[:,:,:] = temp.astype(typeout)\n  elif",
       "    temp *= scalevalue * maxval / maxScale\n    temp = np.around(temp)\n    patsout[:,:,:] = temp.astype(typeout)\n  elif")],
'''
import sys
import numpy as np
from pyebsdindex import ebsd_pattern
p = np.array([[[0.0, 10.0, 40.0, 90.0]]], dtype=np.float32)
for mx in (200.0, 50.0, 20.0):
    r = ebsd_pattern.pat_flt2int(p, typeout=np.uint8, method="fullscale", scalevalue=0.98, maxScale=mx).astype(int).ravel()
    if np.any(np.diff(r) < 0):
        print("order of intensities lost", mx, r); sys.exit(1)
''', "method 'fullscale' with a maximum below the brightest pixel", 'bright pixels wrap around')

seed('o01-rows-of-square', 'O01',
     [('ebsdfile.py', "((int(i / ncols)) * float(ystep))", "((int(i / nrows)) * float(ystep))")],
'''
import os, sys
import types
import numpy as np
from pyebsdindex import ebsdfile
ph = types.SimpleNamespace(phasename="a", lauecode=43, spacegroup=225, npolefamilies=1, polefamilies=np.array([[1, 1, 1]]),
                           latticeparameter=np.array([0.4, 0.4, 0.4, 90, 90, 90]))
ix = types.SimpleNamespace(PC=[0.5, 0.5, 0.5], sampleTilt=70.0, camElev=10.0, phaseLib=[ph], fID=None)
d = np.zeros((2, 6), dtype=[("quat", "f8", 4), ("iq", "f4"), ("pq", "f4"), ("cm", "f4"), ("phase", "i4"), ("fit", "f4")])
d["quat"][..., 0] = 1.0
path = os.path.join(os.environ["SCRATCH"], "a.ang")
for nc, nr in ((2, 3), (3, 2), (6, 1)):
    ebsdfile.writeang(path, ix, d, xstep=1.0, ystep=2.0, ncols=nc, nrows=nr)
    rows = np.array([[float(x) for x in l.split()] for l in open(path) if l.strip() and not l.startswith("#")])
    if not np.allclose(rows[:, 4], (np.arange(6) // nc) * 2.0):
        print("rows", rows[:, 4]); sys.exit(1)
''', 'a grid with more columns than rows or the reverse', 'row coordinates are computed from the number of rows')

seed('o02-fit-of-first-phase', 'O02',
     [('ebsdfile.py', "data=(data[-1]['fit']).astype(np.float32))", "data=(data[0]['fit']).astype(np.float32))")],
'''
import os, sys
import types
import h5py
import numpy as np
from pyebsdindex import ebsdfile
ph = types.SimpleNamespace(phasename="a", lauecode=43, spacegroup=225, npolefamilies=1, polefamilies=np.array([[1, 1, 1]]),
                           latticeparameter=np.array([0.4, 0.4, 0.4, 90, 90, 90]))
ix = types.SimpleNamespace(PC=[0.5, 0.5, 0.5], sampleTilt=70.0, camElev=10.0, phaseLib=[ph, ph], fID=None)
d = np.zeros((3, 4), dtype=[("quat", "f8", 4), ("iq", "f4"), ("pq", "f4"), ("cm", "f4"), ("phase", "i4"), ("fit", "f4")])
d["quat"][..., 0] = 1.0
d["fit"][0] = [0.1, 0.2, 0.3, 0.4]
d["fit"][1] = [0.5, 0.1, 0.6, 0.2]
d["phase"][-1] = [0, 1, 0, 1]
d["fit"][-1] = [0.1, 0.1, 0.3, 0.2]
path = os.path.join(os.environ["SCRATCH"], "a.oh5")
ebsdfile.writeoh5(path, ix, d, ncols=2, nrows=2)
with h5py.File(path, "r") as f:
    fit = f["Scan 1/EBSD/Data/Fit"][()]
if not np.allclose(fit, d["fit"][-1]):
    print("fit", fit); sys.exit(1)
''', 'several phases', 'the exported fit is the one of the first phase, whichever phase was chosen')

seed('d01-second-job-forgotten', 'D01',
     [('_ebsd_index_parallel.py', "indexer=remote_indexer)\n                                ctaskindex[jid] = cjob\n", "indexer=remote_indexer)\n")],
'''
import sys, types, copy
import numpy as np
# a stand-in for ray: tasks run when fetched; the 2nd pole indexing task's worker dies
waits = [0]
count = [0]
class Lost(BaseException):
    pass
class Task:
    def __init__(self, obj, name, a, k):
        self.obj, self.name, self.a, self.k = obj, name, [x.copy() if isinstance(x, np.ndarray) else copy.copy(x) for x in a], k
class Actor:
    def __init__(self, obj): self.obj = obj
    def __getattr__(self, n):
        return types.SimpleNamespace(remote=lambda *a, **k: Task(self.obj, n, a, k))
class Remote:
    def __init__(self, cls): self.cls = cls
    def options(self, **k): return self
    def remote(self, *a, **k): return Actor(self.cls(*a, **k))
def wait(t, num_returns=1, timeout=None):
    waits[0] += 1
    if waits[0] > 3000: raise Lost()
    return list(t), []
def get(t):
    if t.name == "indexpoles" and t.a[0] is not None:
        count[0] += 1
        if count[0] == 2: raise RuntimeError("worker died")
    return getattr(t.obj, t.name)(*t.a, **t.k)
sys.modules["ray"] = types.SimpleNamespace(remote=lambda *a, **k: Remote, wait=wait, get=get, put=lambda x: x, init=lambda **k: None,
                                           shutdown=lambda: None, kill=lambda a: None)
import pyebsdindex
from pyebsdindex import _ebsd_index_parallel as m
BD = np.dtype([("width", "f8")]); ID = np.dtype([("fit", "f8")])
class Ix:
    phaseLib = phaselist = [None]; PC = None; dataTemplate = ID; fID = None
    bandDetectPlan = types.SimpleNamespace(useCPU=True, nBands=1, dataType=BD)
    def update_file(self, *a, **k): pass
    def _getpats(self, patsin=None, xyloc=None, **k): return patsin, xyloc
    def _detectbands(self, pats, PC, **k):
        bd = np.zeros((len(pats), 1), BD); bd["width"][:, 0] = pats[:, 0, 0]
        return bd, np.zeros((len(pats), 1, 3))
    def _indexbandsphase(self, bd, bn, verbose=0):
        r = np.zeros((2, len(bd)), ID); r["fit"][:] = bd["width"][:, 0]
        return r, bd
m.index_pats = lambda *a, **k: (None, None, k["ebsd_indexer_obj"])
m.time = types.SimpleNamespace(sleep=lambda s: None)
pats = np.arange(1.0, 5.0).reshape(4, 1, 1)
try:
    d = m.index_pats_distributed(patsin=pats, chunksize=1, ncpu=1, ebsd_indexer_obj=Ix())[0]
except Lost:
    print("never returns"); sys.exit(1)
except Exception as e:
    sys.exit(0)
if not np.array_equal(d["fit"][-1], pats[:, 0, 0]):
    print("rows", d["fit"][-1]); sys.exit(1)
''', 'a pole indexing worker that dies on a later job than its first', 'the job of the dead worker is never done again')

seed("t04-band-of-first-slots", "T04", [("tripletvote.py",
     "        bndnorm[j,:] = np.asarray(bandnorms[p, whg, :], dtype=np.float64)",
     "        bndnorm[j,:] = np.asarray(bandnorms[p, j, :], dtype=np.float64)")], '''
import sys
import numpy as np
from pyebsdindex import rotlib
from pyebsdindex.tripletvote import BandIndexer
pol = np.array([[1.0, 0, 0], [0, 1, 0], [0, 0, 1], [.6, .8, 0]])
q = np.array([.5, .5, -.1, .7]); q /= np.linalg.norm(q)
v = rotlib.quat_vector(rotlib.quatconj(q), pol)
nb = np.concatenate((v[:1], [[.3, .5, .81]], v[1:]))[None]
pm = np.array([[0, -1, 1, 2, 3]])
a, f = BandIndexer()._refine_orientation_quest(pol, nb, pm, (pm >= 0).astype(np.uint8), weights=np.array([[1, 0, .5, .5, .2]]))
if np.abs(np.abs(a[0] @ q) - 1) > 1e-6:
    print(a, q); sys.exit(1)
''', 'a band without a pole between bands with one', 'the orientation is fitted to the wrong bands')

seed("p01-reflect-past-lower-bound", "P01", [("pcopt.py",
     "            self.pos[wh_over, d] = ub[d]\n", "            self.pos[wh_over, d] = 2.0*ub[d] - self.pos[wh_over, d]\n")], '''
import sys
import numpy as np
from pyebsdindex import pcopt
class R:
    def __init__(self, n): self.n = n
lo, hi = np.zeros(2), np.array([1.0, 0.01])
seen = []
np.random.seed(5)
o = pcopt.PSOOpt(dimensions=2, n_particles=4)
def f(x):
    seen.append(np.array(x)); return float(np.sum((x - 3.0)**2))
o.optimize(f, start=0.5*(lo + hi), bounds=(lo, hi), niter=60, verbose=0)
s = np.array(seen)
if (s < lo).any() or (s > hi).any():
    print("outside", s.min(axis=0), s.max(axis=0)); sys.exit(1)
''', 'a step that overshoots the upper bound by more than the width of the search space', 'a reflected particle leaves through the lower bound')

seed("p02-pso-batch-half-width", "P02", [("pcopt.py",
     "            PCoutRet[:, :3] *= np.atleast_2d(patdimnorm)\n            PCoutRet[:, 1] -= 0.5 * indexer.bandDetectPlan.patDim[0]\n",
     "            PCoutRet[:, :3] *= np.atleast_2d(patdimnorm)\n            PCoutRet[:, 1] -= 0.5 * indexer.bandDetectPlan.patDim[1]\n")], '''
import sys
import types
import numpy as np
from pyebsdindex import pcopt
class O:
    def __init__(self, **k): pass
    def optimize(self, f, start=None, bounds=None, **k): return 0.5, np.array(start, dtype=float)
pcopt.PSOOpt = O
ix = types.SimpleNamespace(vendor="EMSOFT", PC=np.array([3.0, -2.0, 15000.0, 50.0]), bandDetectPlan=types.SimpleNamespace(
    patDim=np.array([60, 80]), find_bands=lambda p: np.zeros((len(p), 4))))
for batch in (False, True):
    r = np.atleast_2d(pcopt.optimize_pso(np.zeros((2, 60, 80)), ix, batch=batch, verbose=0))
    if not np.allclose(r, ix.PC):
        print(batch, r); sys.exit(1)
''', 'EMsoft convention, one centre per pattern, rectangular patterns', 'the vertical centre is offset by half the difference of the sides')

seed("p03-lost-pattern-cheap", "P03", [("pcopt.py",
     "average_fit = np.sum(average_fit[whgood[0]]) + 4.0*(nbands+1)*(npoints - n_averages)\n            average_fit /= npoints",
     "average_fit = np.sum(average_fit[whgood[0]]) + 4.0*(nbands+1)*(npoints - n_averages)/npoints\n            average_fit /= n_averages")], '''
import sys
import types
import numpy as np
from pyebsdindex import pcopt
def cost(fits, nm):
    n = len(fits)
    d = np.zeros((2, n), np.dtype([("fit", "f8"), ("nmatch", "i4")]))
    d["fit"][:] = fits; d["nmatch"][:] = nm
    ix = types.SimpleNamespace(vendor="EDAX", _indexbandsphase=lambda b, m: (d, b), bandDetectPlan=types.SimpleNamespace(
        nBands=9, radonPlan=types.SimpleNamespace(radon2pole=lambda b, PC=None, vendor=None: np.zeros((n, 9, 3)))))
    return pcopt._optfunction(np.array([.5, .5, .7]), indexer=ix, banddat=np.zeros((n, 9)))[0]
base = cost([1.0]*10, [9]*9 + [3])
lost = cost([1.0]*9 + [100.0], [9]*9 + [0])
if not lost > base:
    print("losing a pattern is cheaper", base, lost); sys.exit(1)
''', 'a pattern with a poor match among many that is lost', 'an unindexed pattern lowers the cost of a large set')

seed("b01-column-past-edge", "B01", [("radon_fast.py", "      indx_x = np.where(indx_x >= self.imDim[1], outofbounds, indx_x).astype(np.int64)",
     "      indx_x = np.where(indx_x > self.imDim[1], outofbounds, indx_x).astype(np.int64)")], '''
import sys
import numpy as np
from pyebsdindex import radon_fast
p = radon_fast.Radon(imageDim=np.array([8, 6]), nTheta=12, nRho=30, rhoMax=6.0)
img = np.zeros((2, 8, 6), dtype=np.float32)
img[:, :, 0] = 9.0
r = p.radon_faster(img)
right = r[p.rho > 1.0, 0, :]
if (right > 0.5).any():
    print("vertical lines on the right contain the left column", right.T); sys.exit(1)
''', 'steep lines just outside the right edge of the pattern', 'the first pixel of the next row is averaged into lines that leave the pattern')

seed("b01-only-last-mask-row", "B01", [("radon_fast.py", "    self.indexPlan.sort(axis = -1)\n", "    self.indexPlan[:,:-1,:].sort(axis = -1)\n")], '''
import sys
import numpy as np
from pyebsdindex import radon_fast
mask = np.ones((8, 6)); mask[0:3, :] = 0
p = radon_fast.Radon(imageDim=np.array([8, 6]), nTheta=12, nRho=14, rhoMax=5.1, mask=mask)
img = np.random.default_rng(1).uniform(1, 9, (2, 8, 6)).astype(np.float32)
a, b = p.radon_faster(img), p.radon_fast(img)
if not np.allclose(a, b, atol=1e-3):
    print("implementations differ", np.argwhere(abs(a - b) > 1e-3)); sys.exit(1)
''', 'a mask, lines of the last angle', 'lines of the last angle stop at the first masked or missing pixel')

seed("b02-callers-centre", "B02", [("radon_fast.py", "    pctemp =  np.asarray(PC, dtype=np.float32).copy()\n", "    pctemp =  np.asarray(PC, dtype=np.float32)\n")], '''
import sys
import numpy as np
from pyebsdindex import band_detect
d = band_detect.BandDetect(patDim=np.array([20, 24]), nTheta=36, nRho=20, nBands=5)
pats = np.random.default_rng(0).uniform(0, 9, (3, 20, 24)).astype(np.float32)
bd = d.find_bands(pats)
pc = np.full((3, 3), 0.5, dtype=np.float32)
one = d.radonPlan.radon2pole(bd, PC=pc.copy(), vendor='EDAX')
a = d.radonPlan.radon2pole(bd, PC=pc, vendor='EDAX')
b = d.radonPlan.radon2pole(bd, PC=pc, vendor='EDAX')
if not np.allclose(a, b) or not (pc == 0.5).all():
    print("the centres were changed", pc); sys.exit(1)
''', 'one centre per pattern, in single precision', "the caller's pattern centres are converted in place")

seed("b02-flip-by-width", "B02", [("radon_fast.py", "      t[:, 1] = dimf[0] - t[:, 1]\n", "      t[:, 1] = np.min(dimf[0:2]) - t[:, 1]\n")], '''
import sys
import numpy as np
from pyebsdindex import band_detect
for dim in ((20, 24), (24, 20)):
    d = band_detect.BandDetect(patDim=np.array(dim), nTheta=36, nRho=20, nBands=5)
    bd = d.find_bands(np.random.default_rng(0).uniform(0, 9, (2,) + dim).astype(np.float32))
    h, w = dim
    m = min(dim)
    edax = d.radonPlan.radon2pole(bd, PC=np.array([0.4, 0.7, 0.6]), vendor='EDAX')
    bruker = d.radonPlan.radon2pole(bd, PC=np.array([0.4, 0.3, 0.6 * m / h]), vendor='BRUKER')
    if not np.allclose(edax, bruker, atol=1e-4):
        print("conventions disagree for", dim); sys.exit(1)
''', 'a detector that is taller than wide in the BRUKER or KIKUCHIPY convention', 'the vertical centre is measured from the wrong edge')

seed("b03-wrap-not-reversed", "B03", [("band_detect.py",
     "      radon[:,-self.padding[1]:,:] = np.flip(radon[:,self.padding[1]:2 * self.padding[1],:],axis=0)\n",
     "      radon[:,-self.padding[1]:,:] = radon[:,self.padding[1]:2 * self.padding[1],:]\n")], '''
import sys
import numpy as np
from pyebsdindex import band_detect
d = band_detect.BandDetect(patDim=np.array([20, 24]), nTheta=36, nRho=30, nBands=5)
d.tSigma = 1.5
p0, p1 = [int(x) for x in d.padding]
rng = np.random.default_rng(2)
R = rng.uniform(0, 9, (30, 36)).astype(np.float32)
def conv(S):
    full = np.zeros((30 + 2 * p0, 36 + 2 * p1, 1), dtype=np.float32)
    full[p0:-p0, p1:-p1, 0] = S
    c = d.rdn_conv(full)[0]
    return c[p0:-p0, p1:-p1, 0]
a = conv(R)
b = conv(np.concatenate([R[:, 6:], R[::-1, :6]], axis=1))
want = np.concatenate([a[:, 6:], a[::-1, :6]], axis=1)
if not np.allclose(b[8:-8], want[8:-8], atol=1e-3):
    print("turning the pattern changes the transform", abs(b - want).max()); sys.exit(1)
''', 'peaks next to the last angle', 'the transform continues past the last angle without reversing the distance')

seed("b03-cross-term", "B03", [("band_detect.py", "        rc = (dxx * dy - dxy * dx) * det\n", "        rc = (dxx * dy - dxy * dy) * det\n")], '''
import sys
import numpy as np
from pyebsdindex import band_detect
R = 9
r, c = np.mgrid[0:R, 0:R].astype(float)
r0, c0 = 4.2, 4.3
S = 50 - ((r - r0) ** 2 + (c - c0) ** 2 + 0.9 * (r - r0) * (c - c0))
S = np.maximum(S, 0).astype(np.float32)[:, :, None]
L = np.zeros(S.shape, dtype=bool); L[4, 4, 0] = True
out = band_detect.BandDetect.band_label_numba(2, 1, R, R, S, S, L)
if not np.allclose(out[3][0, 0], [r0, c0], atol=0.01):
    print("vertex", out[3][0, 0], "expected", r0, c0); sys.exit(1)
''', 'an oblique peak whose vertex lies off the sample in angle', 'the distance of the band is displaced by the wrong mixed term')

seed("b04-mean-of-chunk", "B04", [("band_detect.py", "      averdnpat = np.float32(np.mean(rdnConv[:,:,q]))\n", "      averdnpat = np.float32(np.mean(rdnConv))\n")], '''
import sys
import numpy as np
from pyebsdindex import band_detect
d = band_detect.BandDetect(patDim=np.array([20, 24]), nTheta=36, nRho=20, nBands=5)
pats = np.random.default_rng(0).uniform(0, 9, (4, 20, 24)).astype(np.float32) * np.array([1, 2, 5, 9], dtype=np.float32).reshape(4, 1, 1)
a, b = d.find_bands(pats.copy()), d.find_bands(pats.copy(), chunksize=1)
for f in ('max', 'avemax', 'aveloc', 'width'):
    if not np.allclose(a[f], b[f], rtol=1e-3):
        print(f, a[f], b[f]); sys.exit(1)
''', 'patterns of different contrast in one chunk', "a band's strength is relative to the whole chunk")

seed("b04-order-of-first-pattern", "B04", [("band_detect.py", "      temp = (rdnConv[:,:,q].ravel())[indx1D]\n", "      temp = (rdnConv[:,:,q*(nP > nB)].ravel())[indx1D]\n")], '''
import sys
import numpy as np
from pyebsdindex import band_detect
d = band_detect.BandDetect(patDim=np.array([20, 24]), nTheta=36, nRho=20, nBands=5)
pats = np.random.default_rng(0).uniform(0, 9, (3, 20, 24)).astype(np.float32)
a, b = d.find_bands(pats.copy()), d.find_bands(pats.copy(), chunksize=1)
if not np.allclose(a['aveloc'], b['aveloc'], atol=1e-3):
    print(a['aveloc'] - b['aveloc']); sys.exit(1)
''', 'a chunk of several patterns, not more than the number of bands', "bands of later patterns are ranked by the first pattern's transform")

seed("c02-unindexed-in-first-phase", "C02", [("EBSDImage/IPFcolor.py", "ipfout[ebsddata[-1]['fit'] > 179,:] = 0", "ipfout[ebsddata[0]['fit'] > 179,:] = 0")], '''
import sys
import types
import numpy as np
from pyebsdindex.EBSDImage import IPFcolor
ph = [types.SimpleNamespace(lauecode=43), types.SimpleNamespace(lauecode=62)]
ix = types.SimpleNamespace(phaseLib=ph, fID=types.SimpleNamespace(nCols=2, xStep=1.0))
d = np.zeros((3, 4), dtype=[('quat', 'f8', 4), ('fit', 'f4'), ('phase', 'i4')])
d['quat'][..., 0] = 1
d['fit'] = 1.0
d['fit'][0, 1] = 180.0; d['phase'][2, 1] = 1
d['fit'][:, 3] = 180.0; d['phase'][2, 3] = -1
im = IPFcolor.makeipf(d, ix)
if not im[0, 1].any() or im[1, 1].any():
    print(im); sys.exit(1)
''', 'two phases and a point only the second one indexes', 'points of later phases are drawn as unindexed')

seed("c02-partial-row-dropped", "C02", [("EBSDImage/scalarimage.py", "    ysize = int(npoints // xsize + np.int64((npoints % xsize) > 0))", "    ysize = max(1, int(np.round(npoints / xsize)))")], '''
import sys
import types
import numpy as np
from pyebsdindex.EBSDImage import scalarimage
ix = types.SimpleNamespace(fID=types.SimpleNamespace(nCols=5, xStep=1.0))
for n in range(1, 13):
    d = np.zeros((2, n), dtype=[('pq', 'f4'), ('fit', 'f4')])
    d['pq'][-1] = np.arange(n) + 1
    im = scalarimage.scalarimage(d, ix, datafield='pq', cmap='gray', norescalegray=True)
    if sorted(im[im > 0].tolist()) != [float(k + 1) for k in range(n)]:
        print(n, im); sys.exit(1)
''', 'a partial scan whose last row is less than half full', 'the points of the last row are not shown')
