"""I03 indexers share no state; sub-ranges address the right patterns."""
from .i01 import *


def rec(p):
    return dict(fit=0.5 + 0.25 * p, cm=0.5, nmatch=NB, totvotes=p, match=[p] * NB)


def make_file(ep, npx, n, dims, log, header=True):
    class F(ep.EBSDPatternFile):
        def __init__(self):
            self.filepath, self.vendor = "file", "OXFORD"
            self.nPatterns = n
            self.patternH, self.patternW = (dims if header else (None, None))
            self.version = 1

        def read_header(self, *a, **k):
            log.append("header")
            self.patternH, self.patternW = dims

        def read_data(self, returnArrayOnly=True, patStartCount=[0, -1], convertToFloat=False, **k):
            s, c = int(patStartCount[0]), int(patStartCount[1])
            e = n if c < 0 else min(n, s + c)
            d = dims if all(isinstance(x, int) for x in dims) else (4, 5)
            p = patterns(n, d)[s:e]
            return p, [np.arange(s, e), np.zeros(e - s)]
    return F()


def subrange(m, BI, ep, npx, n, start, cnt, mode):
    """rows returned for a sub-range: list of (fit, totvotes)"""
    rows = [[rec(p) for p in range(n)]]
    ix = build(m, BI, npx, rows, NB + 1, [])
    if mode == "file":
        f = make_file(ep, npx, n, (4, 5), [])
        ix.fID = f
        d, b, s0, n0 = ix.index_pats(patstart=start, npats=cnt)
    elif mode == "method":
        d, b, s0, n0 = ix.index_pats(patsin=patterns(n), patstart=start, npats=cnt)
    elif mode == "obj":
        d, b = m.index_pats(patsin=patterns(n), ebsd_indexer_obj=ix, patstart=start, npats=cnt)
    else:
        d, b = m.index_pats(filename=make_file(ep, npx, n, (4, 5), []), ebsd_indexer_obj=ix, patstart=start, npats=cnt)
    return [int(x) for x in snp.plain(snp.asarray(d["totvotes"]))[0]], \
        [int(x) for x in snp.plain(snp.asarray(b["width"]))[:, 0]], tuple(d.shape)


def want_rows(n, start, cnt):
    return list(range(n))[start:(n if cnt < 0 else start + cnt)]


def rep_sub(i):
    from pyebsdindex import _ebsd_index_single as m, tripletvote, ebsd_pattern
    n, s, c, mode = (int(i["n"]), int(i["start"]), int(i["count"]), i["mode"])
    w = want_rows(n, s, c)
    r, b, shp = subrange(m, tripletvote.BandIndexer, ebsd_pattern, np, n, s, c, mode)
    if r != w or b != w or shp != (2, len(w)):
        return "indexing patterns %d count %d of %d (%s) returned rows of patterns %s, expected %s" % (s, c, n, mode, r, w)


OPS = 7


def history(m, BI, ep, npx, ops, dims):
    """run the operations; -> list of (label, got, expected) pattern dimensions"""
    log = []
    mk = lambda pd: build(m, BI, npx, [[rec(0), rec(1)]], NB + 1, log, patdim=pd)
    A, B = mk((4, 5)), mk((4, 5))
    files = [make_file(ep, npx, 2, dims[0], log), make_file(ep, npx, 2, dims[1], log, header=False)]
    arr = npx.array([dims[2][0], dims[2][1]])
    exp = {"A": (4, 5), "B": (4, 5)}
    objs = {"A": A, "B": B}
    nc = 0
    for o in ops:
        if o == 0:
            A.update_file(files[0])
            exp["A"] = dims[0]
        elif o == 1:
            B.update_file(files[1])
            exp["B"] = dims[1]
        elif o == 2:
            A.update_file(patDim=arr)
            exp["A"] = dims[2]
        elif o == 3:
            B.update_file()
            exp["B"] = (120, 120)
        elif o == 4:
            nc += 1
            C = mk(None)
            C.update_file()
            objs["C%d" % nc], exp["C%d" % nc] = C, (120, 120)
        elif o == 5:
            m.index_pats(patsin=patterns(2, (6, 7)), ebsd_indexer_obj=A)
            exp["A"] = (6, 7)
        else:
            B.update_file(patDim=arr)
            exp["B"] = dims[2]
    out = []
    for k in objs:
        pd = objs[k].bandDetectPlan.patDim
        out.append(("pattern dimensions of indexer " + k, [pd[0], pd[1]], list(exp[k])))
    out.append(("caller's array", [arr[0], arr[1]], list(dims[2])))
    return out


def rep_hist(i):
    from pyebsdindex import _ebsd_index_single as m, tripletvote, ebsd_pattern
    dims = [tuple(int(x) for x in d) for d in i["dims"]]
    for ds in (dims, [(60, 70), (80, 90), (100, 110)]):
        for l, g, e in history(m, tripletvote.BandIndexer, ebsd_pattern, np, [int(o) for o in i["ops"]], ds):
            if [int(x) for x in g] != [int(x) for x in e]:
                return "after operations %s with sizes %s: %s is %s, expected %s" % (i["ops"], ds, l, g, e)


def defaults(m, npx):
    m.bandindexer.addphase = lambda libtype=None, **k: m.BandIndexer.__new__(m.BandIndexer)
    return m.EBSDIndexer(bandDetectPlan=Plan([], npx, 1))


def params(ix):
    pc = [float(x) for x in np.asarray(snp.plain(snp.asarray(ix.PC)), float).reshape(-1)]
    return [list(ix.phaselist), ix.vendor, ix.sampleTilt, ix.camElev, pc]


def settings(m, BI, npx, pc):
    """two differently configured indexers, a default one before and after; -> (label, got, expected)"""
    d0 = params(defaults(m, npx))
    user = npx.array(pc)
    A = build(m, BI, npx, [[rec(0), rec(1)]], NB + 1, [], vendor="EDAX", sampleTilt=61.0)
    A.PC = user
    kept = dict(vendor=A.vendor, tilt=A.sampleTilt, elev=A.camElev, phases=list(A.phaselist), lib=list(A.phaseLib))
    pats = patterns(2)
    before = np.array(pats)
    A.index_pats(patsin=pats, PC=user)
    A.index_pats(patsin=pats)
    m.index_pats(patsin=pats[0], ebsd_indexer_obj=A)
    out = [("default settings of a later indexer", params(defaults(m, npx)), d0)]
    out.append(("settings of the indexer", [A.vendor, A.sampleTilt, A.camElev, list(A.phaselist) == kept["phases"],
                                            list(A.phaseLib) == kept["lib"]],
                [kept["vendor"], kept["tilt"], kept["elev"], True, True]))
    out.append(("caller's patterns", pats.tolist(), before.tolist()))
    return out, user, A.PC


def rep_set(i):
    from pyebsdindex import _ebsd_index_single as m, tripletvote
    pc = [float(x) for x in i["pc"]]
    out, user, now = settings(m, tripletvote.BandIndexer, np, pc)
    for l, g, e in out:
        if g != e:
            return "%s: %s, expected %s" % (l, g, e)
    if list(user) != pc or list(now) != pc:
        return "pattern centre %s became %s" % (pc, list(now))


PLAN_ARGS = ("nRho", "nTheta", "nBands", "tSigma", "rSigma", "rhoMaskFrac")


def shared_plan(m, BI, npx, vals):
    """a band detection plan handed to two indexers keeps its parameters; -> (label, got, expected)"""
    m.bandindexer.addphase = lambda libtype=None, **k: m.BandIndexer.__new__(m.BandIndexer)
    p = Plan([], npx, 1)
    own = dict(nRho=31, nTheta=41, nBands=7, tSigma=0.75, rSigma=1.75, rhoMaskFrac=0.25, nPhases=1)
    for k, v in own.items():
        setattr(p, k, v)
    a = m.EBSDIndexer(bandDetectPlan=p)
    m.EBSDIndexer(bandDetectPlan=p, phaselist=["FCC", "BCC"], **dict(zip(PLAN_ARGS, vals)))
    return [("%s of the first indexer's band detection" % k, getattr(a.bandDetectPlan, k), v) for k, v in own.items()]


def rep_plan(i):
    from pyebsdindex import _ebsd_index_single as m, tripletvote
    for l, g, e in shared_plan(m, tripletvote.BandIndexer, np, [5, 6, 4, 1.5, 2.5, 0.5]):
        if g != e:
            return "after creating a second indexer from the same plan the %s is %s instead of %s" % (l, g, e)


def run():
    c = Check("I03", "indexer state", modname="i03",
              functions=["_ebsd_index_single.index_pats", "EBSDIndexer.__init__", "EBSDIndexer.update_file",
                         "EBSDIndexer.index_pats", "EBSDIndexer._getpats"],
              bounds="histories of 3 operations (thorough 4) out of %d on two indexers and fresh ones, symbolic pattern "
                     "dimensions; sub-ranges of up to 4 patterns" % OPS,
              stubs=["band detection and voting return the addressed pattern's own marker", "pattern file in memory"])
    T = c.twin()
    m = T.load("pyebsdindex._ebsd_index_single")
    tv = T.load("pyebsdindex.tripletvote")
    ep = T.load("pyebsdindex.ebsd_pattern")
    for mode in ("file", "method", "obj", "function"):
        for n in (1, 3, 4):
            def f(h, mode=mode, n=n):
                s, k = Int("start"), Int("count")
                assume(s >= 0)
                assume(s < n)
                assume(snp.mkbool(z3.Or(k.e == -1, z3.And(k.e >= 1, k.e <= n + 1))))
                h["inputs"].update(n=n, start=s, count=k, mode=mode)
                r, b, shp = subrange(m, tv.BandIndexer, ep, snp.np, n, s, k, mode)
                w = want_rows(n, int(s), int(k))
                return [Claim("rows are the addressed patterns", z3.BoolVal(r == w)),
                        Claim("band rows are the addressed patterns", z3.BoolVal(b == w)),
                        Claim("shape", z3.BoolVal(shp == (2, len(w))))]
            c.obligation("sub-range %s n=%d" % (mode, n), f, "rep_sub", max_paths=200)
    k = 4 if thorough() else 3
    for first in range(OPS):
        def g(h, first=first):
            ops = [first] + [Int("op%d" % j) for j in range(1, k)]
            for o in ops[1:]:
                assume(o >= 0)
                assume(o < OPS)
            dims = []
            for j in range(3):
                a, b = Int("h%d" % j), Int("w%d" % j)
                for x in (a, b):
                    assume(x >= 1)
                    assume(x <= 2000)
                dims.append((a, b))
            h["inputs"].update(ops=ops, dims=dims)
            out = history(m, tv.BandIndexer, ep, snp.np, [int(o) for o in ops], dims)
            return [Claim(l, [lift(a) == lift(b) for a, b in zip(g_, e_)]) for l, g_, e_ in out]
        c.obligation("history starting with %d" % first, g, "rep_hist", max_paths=8000, budget=500)

    def s(h):
        pc = reals("pc", 3)
        h["inputs"]["pc"] = pc
        out, user, now = settings(m, tv.BandIndexer, snp.np, list(pc))
        return [Claim(l, z3.BoolVal(g_ == e_)) for l, g_, e_ in out] + \
            [Claim("caller's pattern centre", eqs(user, pc)), Claim("indexer's pattern centre", eqs(now, pc))]
    c.obligation("settings", s, "rep_set")

    def sp(h):
        vals = [Int("p%d" % j) for j in range(len(PLAN_ARGS))]
        return [Claim(l, poly_eq(Z(g_), Z(e_))) for l, g_, e_ in shared_plan(m, tv.BandIndexer, snp.np, vals)]
    c.obligation("shared band detection plan", sp, "rep_plan")
    return c
