"""I02 detector to sample frame."""
from .i01 import *

VENDORS = ["EDAX", "OXFORD", "BRUKER", "EMSOFT", "KIKUCHIPY"]
FIXED = {"EDAX": -90.0, "EMSOFT": -90.0, "KIKUCHIPY": -90.0, "OXFORD": 0.0, "BRUKER": 0.0}


def rec():
    return dict(fit=0.5, cm=0.5, nmatch=NB, totvotes=1, match=[0] * NB)


def run_one(mod, BI, npx, vendor, tilt, elev, quat):
    """orientation reported through the public interface for a voting answer quat"""
    ix = build(mod, BI, npx, [[rec()]], NB + 1, [], vendor=vendor, sampleTilt=tilt, camElev=elev)
    ph = ix.phaseLib[0]
    old = ph.bandindex

    def bi(*a, **k):
        r = list(old(*a, **k))
        q = npx.zeros((1, 4))
        for t in range(4):
            q[0, t] = quat[t]
        r[0] = q
        return tuple(r)
    ph.bandindex = bi
    d, _, _, _ = ix.index_pats(patsin=patterns(1))
    return d["quat"][0, 0], d["quat"][-1, 0]


def vmat(v, tilt, elev):
    """sample-to-detector rotation: about x by -(90 - tilt + elev), for some vendors preceded by -90 about z"""
    t, z = np.radians(-(90.0 - tilt + elev)), np.radians(FIXED[v])
    qx = [np.cos(t / 2), np.sin(t / 2), 0, 0]
    qz = [np.cos(z / 2), 0, 0, np.sin(z / 2)]
    return hamilton(qx, qz)


def rep(i):
    from pyebsdindex import _ebsd_index_single as m, tripletvote
    v = i["vendor"]
    a = np.array([float(x) for x in i["a"]])
    a /= np.linalg.norm(a)
    grid = [(t, e) for t in (70.0, -35.0, 0.0, 20.0, 90.0, 125.0) for e in (5.3, 0.0, -10.0, -75.0, 50.0)]
    for tilt, elev in [(np.degrees(float(i["tilt"])), np.degrees(float(i["elev"])))] + grid:
        tilt, elev = float(tilt), float(elev)
        for q in (a, np.array([1.0, 0, 0, 0]), np.array([0.5, 0.5, -0.5, 0.5])):
            out, last = run_one(m, tripletvote.BandIndexer, np, v, tilt, elev, q)
            want = np.array(hamilton(q, vmat(v.upper(), tilt, elev)))
            if abs(abs(np.dot(out, want)) - 1) > 1e-6 or abs(np.linalg.norm(out) - 1) > 1e-6 or out[0] < -1e-9:
                return "vendor %s tilt %g elevation %g: orientation %s, expected %s" % (v, tilt, elev, out.tolist(), want.tolist())
            if not np.allclose(out, last):
                return "summary orientation %s differs from the phase's %s" % (last.tolist(), out.tolist())


def run():
    c = Check("I02", "sample frame", modname="i02",
              functions=["EBSDIndexer._detector2refframe", "EBSDIndexer._indexbandsphase", "rotlib.quat_multiply",
                         "rotlib.quatnorm"],
              bounds="all real tilts and elevations, all unit quaternions, every vendor name in upper and lower case",
              stubs=["band detection and voting return an arbitrary unit quaternion"],
              assumptions=["exact real arithmetic", "angles as exact cos/sin algebra"])
    T = c.twin()
    m = T.load("pyebsdindex._ebsd_index_single")
    tv = T.load("pyebsdindex.tripletvote")
    for v in VENDORS + ["edax", "Oxford", "bruker", "EMsoft", "kikuchipy"]:
        def f(h, v=v):
            # degrees of tilt and elevation with exact half angles
            tl = snp.angle("tilt", 2)
            el = snp.angle("elev", 2)
            pi = Sym(snp._pi())
            tilt, elev = tl * 180 / pi, el * 180 / pi
            a = reals("a", 4)
            ctx_unit(a)
            h["inputs"].update(vendor=v, a=a, tilt=tl, elev=el)
            out, last = run_one(m, tv.BandIndexer, snp.np, v, tilt, elev, list(a))
            ch, sh = snp.s_cossin((tl - el - pi / 2) / 2)
            z = FIXED[v.upper()]
            r2 = snp.s_sqrt(Sym(z3.RealVal(2))) / 2
            qz = [1, 0, 0, 0] if z == 0 else [r2, 0, 0, -r2]
            want = hamilton(list(a), hamilton([ch, sh, 0, 0], qz))
            o, l = snp.plain(snp.asarray(out)).reshape(-1), snp.plain(snp.asarray(last)).reshape(-1)
            d = sum((Z(o[k]) * Z(want[k]) for k in range(4)), z3.RealVal(0))
            same = [poly_eq(Z(o[p]) * Z(want[q]), Z(o[q]) * Z(want[p])) for p in range(4) for q in range(p)]
            return [Claim("same rotation", same), Claim("unit", elim(sumsq(o) - 1, (a,)) == 0),
                    Claim("scalar part not negative", Z(o[0]) >= 0),
                    Claim("summary is the phase's orientation", eqs(o, l))]
        c.obligation("vendor " + v, f, "rep", timeout=30, max_paths=200, budget=400)

    def g(h):
        h["inputs"]["vendor"] = "XYZ"
        try:
            run_one(m, tv.BandIndexer, snp.np, "XYZ", 70.0, 5.3, [1, 0, 0, 0])
        except ValueError:
            return [Claim("unknown vendor refused", z3.BoolVal(True))]
        return [Claim("unknown vendor refused", z3.BoolVal(False))]
    c.obligation("unknown vendor", g, "rep_unknown")
    return c


def rep_unknown(i):
    from pyebsdindex import _ebsd_index_single as m, tripletvote
    try:
        run_one(m, tripletvote.BandIndexer, np, "XYZ", 70.0, 5.3, [1, 0, 0, 0])
    except ValueError:
        return None
    return "an unknown vendor name is accepted"
