"""I01 phase selection."""
from .ix import *


def build(mod, BI, npx, table, ee, log, patdim=(4, 5), vendor="OXFORD", valid=None, **kw):
    phases = make_phases(BI, npx, table, log, ee)
    return mod.EBSDIndexer(phaselist=phases, vendor=vendor, PC=[0.5, 0.5, 0.5],
                           bandDetectPlan=Plan(log, npx, len(phases), patdim, valid), patDim=patdim, **kw)


def expected(table, ee):
    """per phase: tested?; then the summary's admissible phases (exact arithmetic on floats)"""
    out = []
    for p in range(len(table[0])):
        seen = []
        best = -1
        tested = True
        for ph in range(len(table)):
            r = table[ph][p]
            good = tested and r["nmatch"] >= 3
            seen.append((tested, good))
            if good and r["nmatch"] >= ee:
                tested = False
        sc = [((3.0 - table[ph][p]["fit"]) * table[ph][p]["nmatch"]) if seen[ph][1] else None for ph in range(len(table))]
        ok = [s for s in sc if s is not None]
        adm = [ph for ph, s in enumerate(sc) if s is not None and s >= max(ok) - 1e-5] if ok else [-1]
        out.append((seen, adm))
    return out


def alone(mod, BI, npx, ph, pat):
    """the orientation a one-phase, one-pattern run reports for the same voting answer"""
    r = dict(fit=0.5, cm=0.5, nmatch=NB, totvotes=1, match=[0] * NB)
    rows = [dict(r) for _ in range(pat + 1)]
    ix = build(mod, BI, npx, [rows] * (ph + 1), NB + 1, [])
    ix.phaselist = ix.phaselist[ph:]
    ix.phaseLib = ix.phaseLib[ph:]
    d, _, _, _ = ix.index_pats(patsin=patterns(pat + 1)[pat:])
    return d["quat"][0, 0]


def check_out(d, b, table, ee, quat):
    for p, (seen, adm) in enumerate(expected(table, ee)):
        for ph in range(len(table)):
            r = table[ph][p]
            x = d[ph, p]
            if seen[ph][1]:
                want = (ph, r["nmatch"], np.float32(r["fit"]), np.float32(r["cm"]))
                got = (int(x["phase"]), int(x["nmatch"]), x["fit"], x["cm"])
                if want[:2] != got[:2] or abs(want[2] - got[2]) > 1e-4 or abs(want[3] - got[3]) > 1e-4 or \
                        x["totvotes"] != r["totvotes"]:
                    return "phase %d record of pattern %d is %s, the phase returned %s" % (ph, p, got, want)
                if list(b["band_match_index"][p, :, ph]) != list(r["match"]):
                    return "pattern %d phase %d matched poles %s, expected %s" % (
                        p, ph, b["band_match_index"][p, :, ph].tolist(), r["match"])
                if not abs(np.abs(np.dot(x["quat"], quat(ph, p))) - 1) < 1e-6:
                    return "pattern %d phase %d orientation is not that phase's own" % (p, ph)
            elif x["phase"] != -1 or x["nmatch"] != 0 or x["fit"] < 179:
                return "pattern %d has no solution in phase %d but its record is %s" % (p, ph, x)
        s = d[-1, p]
        if int(s["phase"]) not in adm:
            return "pattern %d summary says phase %d, best is %s (records %s)" % (
                p, s["phase"], adm, [table[ph][p] for ph in range(len(table))])
        if s["phase"] >= 0 and s.tobytes() != d[int(s["phase"]), p].tobytes():
            return "pattern %d summary differs from the record of phase %d" % (p, s["phase"])


def table_of(i, nph, npat):
    return [[dict(fit=float(i["fit"][a][b]), cm=float(i["cm"][a][b]), nmatch=int(i["nm"][a][b]),
                  totvotes=int(i["tv"][a][b]), match=[int(x) for x in i["match"][a][b]]) for b in range(npat)]
            for a in range(nph)]


def rep(i):
    from pyebsdindex import _ebsd_index_single as m, tripletvote
    nph, npat = len(i["fit"]), len(i["fit"][0])
    t = table_of(i, nph, npat)
    ix = build(m, tripletvote.BandIndexer, np, t, i["ee"], [])
    d, b, _, _ = ix.index_pats(patsin=patterns(npat))
    return check_out(d, b, t, i["ee"], lambda a, p: alone(m, tripletvote.BandIndexer, np, a, p))


def poles_lib():
    return [dict(poles=np.array([[1, 1, 1], [0, 0, 2], [0, 2, 2]]) * (1 + 4 * k),
                 polesCart=np.array([[0.6, 0.8, 0], [0, 0, 1.0], [0, 1.0, 0]]) * (1 - 2 * k)) for k in range(2)]


def rep_pole(i):
    from pyebsdindex import _ebsd_index_single as m, tripletvote
    rows = [[dict(fit=1.0, cm=0.5, nmatch=NB, totvotes=1, match=[0] * NB)] * 2] * 2
    ix = build(m, tripletvote.BandIndexer, np, rows, NB + 1, [])
    lib = poles_lib()
    for k, p in enumerate(ix.phaseLib):
        p.completelib = lib[k]
    d = np.zeros((3, 2), dtype=ix.dataTemplate)
    b = np.zeros((2, 2), dtype=band_dtype(2))
    d["phase"] = np.array(i["phase"])
    b["band_match_index"] = np.array(i["match"])
    for fl in (False, True):
        for ph in (-1, 0, 1):
            out = ix.getmatchedpole(d, b, phasenumber=ph, float_out=fl)
            for p in range(2):
                w = d["phase"][-1, p] if ph == -1 else ph
                for n in range(2):
                    k = b["band_match_index"][p, n, w]
                    want = lib[w]["polesCart" if fl else "poles"][k] if w >= 0 and k >= 0 else np.zeros(3)
                    if not np.allclose(out[p, n], want):
                        return "pattern %d band %d phase %d: pole %s reported, matched pole is %s" % (
                            p, n, w, out[p, n].tolist(), np.asarray(want).tolist())


def z_good(t, ee):
    """symbolic expected values for one pattern: list of (tested, good)"""
    out, tested = [], z3.BoolVal(True)
    for r in t:
        nm = lift(r["nmatch"])
        good = z3.And(tested, nm >= 3)
        out.append((tested, good))
        tested = z3.And(tested, z3.Not(z3.And(good, nm >= ee)))
    return out


def run():
    c = Check("I01", "phase selection", modname="i01",
              functions=["EBSDIndexer.index_pats", "EBSDIndexer._getpats", "EBSDIndexer._detectbands",
                         "EBSDIndexer._indexbandsphase", "EBSDIndexer._detector2refframe", "EBSDIndexer.getmatchedpole"],
              bounds="up to 3 phases and 2 patterns, 2 phases and 3 patterns (thorough 3 by 3), %d bands; fit, confidence, votes and match counts symbolic" % NB,
              stubs=["band detection and per-phase voting return arbitrary (symbolic) records"],
              assumptions=["exact real arithmetic"])
    T = c.twin()
    m = T.load("pyebsdindex._ebsd_index_single")
    tv = T.load("pyebsdindex.tripletvote")
    cases = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)]
    cases += [(3, 2), (2, 3)]
    if thorough():
        cases += [(3, 3)]
    for nph, npat in cases:
        for ee in (NB, NB + 1):
            if nph * npat == 6 and ee > NB and not thorough():
                continue

            def f(h, nph=nph, npat=npat, ee=ee):
                fit, cm = reals("fit", nph, npat), reals("cm", nph, npat)
                nm, tvs = ints("nm", nph, npat, lo=0, hi=NB), ints("tv", nph, npat, lo=0, hi=9)
                ma = ints("ma", nph, npat, NB, lo=-1, hi=20)
                for a in range(nph):
                    for b in range(npat):
                        assume(fit[a, b] >= 0)
                        assume(fit[a, b] <= 10)
                        assume(cm[a, b] >= 0)
                        assume(cm[a, b] <= 1)
                h["inputs"].update(fit=fit, cm=cm, nm=nm, tv=tvs, match=ma, ee=ee)
                t = [[dict(fit=fit[a, b], cm=cm[a, b], nmatch=nm[a, b], totvotes=tvs[a, b], match=list(snp.plain(ma)[a, b]))
                      for b in range(npat)] for a in range(nph)]
                log = []
                ix = build(m, tv.BandIndexer, snp.np, t, ee, log)
                d, bd, _, _ = ix.index_pats(patsin=patterns(npat))
                cl = []
                F = {k: snp.plain(snp.asarray(d[k])) for k in ("fit", "cm", "phase", "nmatch", "totvotes", "quat")}
                M = snp.plain(snp.asarray(bd["band_match_index"]))
                L = lambda k, a, b: Z(F[k][a, b])
                qs = {(a, b): [Z(x) for x in snp.plain(snp.asarray(alone(m, tv.BandIndexer, snp.np, a, b))).reshape(-1)]
                      for a in range(nph) for b in range(npat)}
                cl.append(Claim("shape", z3.BoolVal(tuple(d.shape) == (nph + 1, npat))))
                for p in range(npat):
                    gs = z_good([t[a][p] for a in range(nph)], ee)
                    score = [(3 - Z(t[a][p]["fit"])) * Z(t[a][p]["nmatch"]) for a in range(nph)]
                    for a in range(nph):
                        good = gs[a][1]
                        own = z3.And(L("phase", a, p) == a, L("fit", a, p) == Z(t[a][p]["fit"]),
                                     L("cm", a, p) == Z(t[a][p]["cm"]), L("nmatch", a, p) == Z(t[a][p]["nmatch"]),
                                     L("totvotes", a, p) == Z(t[a][p]["totvotes"]),
                                     *[Z(M[p, k, a]) == Z(t[a][p]["match"][k]) for k in range(NB)],
                                     *[z3.simplify(Z(F["quat"][a, p, k]) == qs[a, p][k]) for k in range(4)])
                        cl.append(Claim("phase %d pattern %d own record" % (a, p), z3.Implies(good, own)))
                        cl.append(Claim("phase %d pattern %d unindexed" % (a, p), z3.Implies(
                            z3.Not(good), z3.And(L("phase", a, p) == -1, L("nmatch", a, p) == 0, L("fit", a, p) == 180,
                                                 *[Z(M[p, k, a]) < 0 for k in range(NB)]))))
                    anyg = z3.Or([g for _, g in gs])
                    rec = lambda a: z3.And(*[L(k, nph, p) == L(k, a, p) for k in ("phase", "fit", "cm", "nmatch", "totvotes")],
                                           *[Z(F["quat"][nph, p, k]) == Z(F["quat"][a, p, k]) for k in range(4)])
                    best = [z3.And(gs[a][1], rec(a), *[z3.Implies(gs[b][1], score[a] >= score[b]) for b in range(nph)])
                            for a in range(nph)]
                    cl.append(Claim("pattern %d summary is the best phase's record" % p, z3.Implies(anyg, z3.Or(best))))
                    cl.append(Claim("pattern %d summary unindexed" % p, z3.Implies(z3.Not(anyg), L("phase", nph, p) == -1)))
                return cl
            c.obligation("phases=%d patterns=%d earlyexit=%d" % (nph, npat, ee), f, "rep", timeout=20, max_paths=3000,
                         budget=600)

    for fl in (False, True):
        for phn in (-1, 0, 1):
            def g(h, fl=fl, phn=phn):
                rows = [[dict(fit=1.0, cm=0.5, nmatch=NB, totvotes=1, match=[0] * NB)] * 2] * 2
                ix = build(m, tv.BandIndexer, snp.np, rows, NB + 1, [])
                lib = poles_lib()
                for k, p in enumerate(ix.phaseLib):
                    p.completelib = {a: snp.array(v) for a, v in lib[k].items()}
                d = snp.zeros((3, 2), dtype=ix.dataTemplate)
                b = snp.zeros((2, 2), dtype=band_dtype(2))
                ph = ints("ph", 3, 2, lo=-1, hi=1)
                ma = ints("mi", 2, 2, 2)
                for x in snp.plain(ma).reshape(-1):
                    assume(snp.mkbool(z3.Or(x.e == -100, x.e == 0, x.e == 2)))
                for k in range(2):                            # a record's phase is its own phase or none
                    for p in range(2):
                        assume(snp.mkbool(z3.Or(ph[k, p].e == k, ph[k, p].e == -1)))
                h["inputs"].update(phase=ph, match=ma)
                d["phase"] = ph
                b["band_match_index"] = ma
                out = snp.plain(snp.asarray(ix.getmatchedpole(d, b, phasenumber=phn, float_out=fl)))
                cl = []
                for p in range(2):
                    for n in range(2):
                        for w in range(2):
                            on = lift(ph[2, p]) == w if phn == -1 else z3.BoolVal(phn == w)
                            L = lib[w]["polesCart" if fl else "poles"]
                            k = lift(ma[p, n, w])
                            cl.append(Claim("pole of pattern %d band %d phase %d" % (p, n, w), z3.Implies(on, z3.And(
                                *[z3.Implies(k == q, z3.And(*[Z(out[p, n, t]) == Z(float(L[q][t])) for t in range(3)]))
                                  for q in (0, 2)],
                                z3.Implies(k < 0, z3.And(*[Z(out[p, n, t]) == 0 for t in range(3)]))))))
                        if phn == -1:
                            cl.append(Claim("no pole for an unindexed pattern", z3.Implies(
                                lift(ph[2, p]) == -1, z3.And(*[Z(out[p, n, t]) == 0 for t in range(3)]))))
                return cl
            c.obligation("getmatchedpole float=%s phase=%d" % (fl, phn), g, "rep_pole", max_paths=4000, budget=400)
    return c
