"""N01 tiling of the scan."""
from .nl import *


def wid(sr):
    return 2 * sr + 1


def configs():
    out = []
    top = 7 if not thorough() else 10
    for sr in (1, 2, 3) if not thorough() else (1, 2, 3, 4):
        for nr in range(1, top + 1):
            for ch in range(1, nr):
                out.append((nr, 1, ch, sr))
    for nr, nc, sr in ((3, 2, 1), (4, 2, 1), (5, 2, 1), (3, 3, 1), (3, 4, 1), (4, 3, 1), (3, 2, 2), (5, 2, 2)):
        for ch in range(1, nr):
            out.append((nr, nc, ch, sr))
    return out


def sigmas(npx, nr, nc):
    s = npx.zeros((nr, nc))
    for i in range(nr):
        for k in range(nc):
            s[i, k] = 0.25 + 0.125 * i + 0.5 * k
    return s


def run_one(mod, npx, nr, nc, ch, sr, data, off, given):
    out, n, dst = nlpar(mod, npx, data, nr, nc, mask=npx.ones((1, 1), dtype=npx.uint8),
                        sigma=sigmas(npx, nr, nc) if given else None, chunksize=ch, searchradius=sr, lam=0.75, dthresh=0.0,
                        saturation_protect=False, automask=False, diff_offset=off)
    return out, dst


def rep(i):
    real_env()
    from pyebsdindex import nlpar_cpu as m
    nr, nc, ch, sr, off = (int(i[k]) for k in ("nr", "nc", "ch", "sr", "off"))
    base = np.array([float(x) for x in i["d"]]).reshape(nr * nc, 1, 1)
    rng = np.random.default_rng(3)
    for data in (base, rng.normal(size=base.shape), 10 * rng.normal(size=base.shape)):
        data = data.astype(np.float32)
        msg = None
        try:
            whole, _ = run_one(m, np, nr, nc, nr, sr, data.copy(), off, True)
            part, dst = run_one(m, np, nr, nc, ch, sr, data.copy(), off, True)
        except (IndexError, ValueError, ZeroDivisionError) as e:
            return "%dx%d scan, chunks of %d rows, search radius %d: %r" % (nr, nc, ch, sr, e)
        if not np.allclose(whole, part, rtol=1e-4, atol=1e-5):
            return "%dx%d scan, search radius %d: %d-row chunks give %s, one chunk gives %s" % (
                nr, nc, sr, ch, part.ravel().tolist(), whole.ravel().tolist())
        if min(dst.writes) < 1:
            return "%dx%d scan, chunks of %d rows: scan positions %s never written" % (
                nr, nc, ch, [k for k, w in enumerate(dst.writes) if w < 1])


def run():
    snp.EXP_SIMPLE = snp.MAX_FRESH = True
    c = Check("N01", "tiling", modname="n01",
              functions=["NLPAR.calcnlpar", "NLPAR.nlpar_nb", "EBSDPatternFile.read_data", "EBSDPatternFile.write_data",
                         "pat_flt2int"],
              bounds="scans of up to %s, every chunk size, search radius up to %d, one symbolic pixel per pattern" % (
                  ("7x1, 5x2, 3x4", 3) if not thorough() else ("10x1, 5x2, 3x4", 4)),
              stubs=["pattern files live in memory"], assumptions=["exact real arithmetic; exp is any positive function"])
    T = c.twin()
    m = T.load("pyebsdindex.nlpar_cpu")
    groups = {}
    for cf in configs():
        groups.setdefault((cf[0], cf[1], cf[3]), []).append(cf[2])
    for (nr, nc, sr), chs in groups.items():
        for off in (0, 1):
            if off and (nc > 1 or sr > 1):
                continue

            def f(h, nr=nr, nc=nc, sr=sr, chs=chs, off=off):
                d = reals("d", nr * nc, 1, 1)
                h["inputs"].update(d=[d[k, 0, 0] for k in range(nr * nc)], nr=nr, nc=nc, ch=chs[0], sr=sr, off=off)
                whole, _ = run_one(m, snp.np, nr, nc, nr, sr, d.copy(), off, True)
                out = []
                for ch in chs:
                    h["inputs"]["ch"] = ch
                    part, dst = run_one(m, snp.np, nr, nc, ch, sr, d.copy(), off, True)
                    out.append(Claim("chunks of %d rows" % ch, [eqs(part, whole), [z3.BoolVal(min(dst.writes) >= 1)]],
                                     inputs=dict(ch=ch)))
                return out
            c.obligation("%dx%d radius %d offset %d" % (nr, nc, sr, off), f, "rep", timeout=20, max_paths=20, budget=200)
    return c
