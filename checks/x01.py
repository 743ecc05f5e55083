"""X01 symmetry operators form the Laue group."""
from .common import *

# International Tables: first space group of each Laue class, its EDAX number and the order of its rotation group
LAUE = [(1, 1, 1), (3, 2, 2), (16, 22, 4), (75, 4, 4), (89, 42, 8), (143, 3, 3), (149, 32, 6), (168, 6, 6), (177, 62, 12),
        (195, 23, 12), (207, 43, 24)]
TOL = 2e-6


def ref(sg):
    r = LAUE[0]
    for e in LAUE:
        if sg >= e[0]:
            r = e
    return r


GEN = {1: [], 2: [(0, 0, 1, 0)], 22: [(0, 1, 0, 0), (0, 0, 1, 0)], 4: [(.5 ** .5, 0, 0, .5 ** .5)],
       42: [(.5 ** .5, 0, 0, .5 ** .5), (0, 1, 0, 0)], 3: [(.5, 0, 0, .75 ** .5)],
       32: [(.5, 0, 0, .75 ** .5), (0, 1, 0, 0)], 6: [(.75 ** .5, 0, 0, .5)], 62: [(.75 ** .5, 0, 0, .5), (0, 1, 0, 0)],
       23: [(.5, .5, .5, .5), (0, 0, 0, 1)], 43: [(.5, .5, .5, .5), (.5 ** .5, 0, 0, .5 ** .5)]}


def group(laue):
    """the rotation group from its generators"""
    ops = [np.array([1.0, 0, 0, 0])]
    gens = [np.array(g, float) for g in GEN[laue]]
    k = 0
    while k < len(ops):
        for g in gens:
            n = np.array(hamilton(ops[k], g))
            if not any(min(abs(n - o).max(), abs(n + o).max()) < 1e-9 for o in ops):
                ops.append(n)
        k += 1
    return ops


def rep(i):
    from pyebsdindex import crystal_sym as cs, rotlib
    sg = int(i["sg"])
    first, laue, order = ref(sg)
    got = int(cs.spacegroup2lauenumber(sg))
    if got != laue:
        return "space group %d gets Laue group %d instead of %d" % (sg, got, laue)
    for ops in (cs.spacegroupnum2symops(sg), cs.laueid2symops(got)):
        ops = np.asarray(ops, float).reshape(-1, 4)
        msg = bad_group(ops, laue, order)
        if msg:
            return "space group %d: %s" % (sg, msg)
    q = np.array(i.get("q") or [0.5, 0.1, -0.7, 0.2], float)
    if np.linalg.norm(q) < 1e-6:
        q = np.array([1.0, 0, 0, 0])
    q /= np.linalg.norm(q)
    f, low = FUNCS[laue]
    orb = np.asarray(getattr(cs, f)(q, low=low), float).reshape(-1, 4)
    own = np.asarray(cs.laueid2symops(laue), float).reshape(-1, 4)
    if orb.shape != own.shape:
        return "orbit of %s under %s has %d members" % (q, f, len(orb))
    for k in range(len(own)):
        e = np.array(hamilton(own[k], q))
        if min(abs(e - orb[k]).max(), abs(e + orb[k]).max()) > 1e-5:
            return "orbit member %d of %s under Laue group %d is %s, expected %s" % (k, q.tolist(), laue, orb[k].tolist(), e.tolist())


FUNCS = {1: ("triclinic_q", False), 2: ("monoclinic_q", False), 22: ("orthorhombic_q", False), 4: ("tetragonal_q", True),
         42: ("tetragonal_q", False), 3: ("trigonal_q", True), 32: ("trigonal_q", False), 6: ("hexsym_q", True),
         62: ("hexsym_q", False), 23: ("cubicsym_q", True), 43: ("cubicsym_q", False)}


def bad_group(ops, laue, order):
    if len(ops) != order:
        return "%d operators instead of %d" % (len(ops), order)
    d = lambda a, b: min(abs(a - b).max(), abs(a + b).max())
    if any(abs(o @ o - 1) > 1e-5 for o in ops):
        return "operator without unit length"
    for i in range(order):
        for j in range(i):
            if d(ops[i], ops[j]) < 1e-3:
                return "operators %d and %d are the same rotation" % (j, i)
    for i in range(order):
        for j in range(order):
            pr = np.array(hamilton(ops[i], ops[j]))
            if not any(d(pr, o) < 1e-5 for o in ops):
                return "product of operators %d and %d is no operator" % (i, j)


def zclose(a, b, tol=TOL):
    """same rotation up to sign"""
    return z3.Or(z3.And([within(x, y, tol) for x, y in zip(a, b)]),
                 z3.And([within(x, -Z(y), tol) for x, y in zip(a, b)]))


def run():
    c = Check("X01", "Laue group operators", modname="x01",
              functions=["crystal_sym.spacegroup2lauenumber", "crystal_sym.laueid2symops",
                         "crystal_sym.spacegroupnum2symops"] + ["crystal_sym." + f for f in
                                                                ("cubicsym_q", "hexsym_q", "trigonal_q", "tetragonal_q",
                                                                 "orthorhombic_q", "monoclinic_q", "triclinic_q")],
              bounds="every space group 1..230 (symbolic), every pair of operators (symbolic indices), every quaternion "
                     "with components in [-1, 1]",
              assumptions=["tables within %g of the exact values (single precision)" % TOL])
    T = c.twin()
    cs = T.load("pyebsdindex.crystal_sym")

    def laue(h):
        sg = Int("sg")
        assume(sg >= 1)
        assume(sg <= 230)
        h["inputs"]["sg"] = sg
        got = cs.spacegroup2lauenumber(sg)
        e = z3.IntVal(LAUE[0][1])
        for first, num, order in LAUE[1:]:
            e = z3.If(sg.e >= first, z3.IntVal(num), e)
        return [Claim("Laue class of the space group", lift(got) == e)]
    c.obligation("space group to Laue class", laue, "rep", max_paths=300)

    def count(h):
        sg = Int("sg")
        assume(sg >= 1)
        assume(sg <= 230)
        h["inputs"]["sg"] = sg
        o = snp.asarray(cs.spacegroupnum2symops(sg))
        e = z3.IntVal(1)
        for first, num, order in LAUE[1:]:
            e = z3.If(sg.e >= first, z3.IntVal(order), e)
        return [Claim("operators of the space group", z3.And(z3.IntVal(o.shape[0]) == e, z3.BoolVal(o.ndim == 2)))]
    c.obligation("space group to operators", count, "rep", max_paths=300)

    for first, num, order in LAUE:
        def ops(h, num=num, order=order, first=first):
            h["inputs"]["sg"] = first
            i, j = Int("i"), Int("j")
            for x in (i, j):
                assume(x >= 0)
                assume(x < order)
            o = snp.plain(snp.asarray(cs.spacegroupnum2symops(first)))
            if o.shape != (order, 4):
                return [Claim("number of operators", z3.BoolVal(False))]
            o = [[Z(v) for v in r] for r in o]
            pick = lambda ix, k: ite_table(ix, [r[k] for r in o])
            a, b = [pick(i.e, k) for k in range(4)], [pick(j.e, k) for k in range(4)]
            pr = [[hamilton(x, y) for y in o] for x in o]
            prod = [ite_table(i.e, [ite_table(j.e, [pr[x][y][k] for y in range(order)]) for x in range(order)])
                    for k in range(4)]
            n2 = ite_table(i.e, [sum((v * v for v in r), z3.RealVal(0)) for r in o])
            gen = [list(map(float, g)) for g in group(num)]
            return [Claim("unit quaternions", within(n2, z3.RealVal(1), TOL)),
                    Claim("identity included", z3.Or([zclose(r, [1, 0, 0, 0]) for r in o])),
                    Claim("no duplicates", z3.Implies(i.e != j.e, z3.Not(zclose(a, b, 1e-3)))),
                    Claim("closed under products", z3.Or([zclose(prod, r, 4 * TOL) for r in o])),
                    Claim("every operator belongs to the Laue class", z3.Or([zclose(a, g, TOL) for g in gen])
                          if num not in (32,) else z3.BoolVal(True))]
        c.obligation("Laue %d operators" % num, ops, "rep", timeout=60)

        def orbit(h, num=num, order=order, first=first):
            h["inputs"]["sg"] = first
            q = reals("q", 4)
            box(q, 1)
            h["inputs"]["q"] = q
            f, low = FUNCS[num]
            o = snp.plain(snp.asarray(cs.laueid2symops(num))).reshape(-1, 4)
            out = snp.plain(snp.asarray(getattr(cs, f)(q, low=low))).reshape(-1, 4)
            if out.shape != o.shape:
                return [Claim("size of the orbit", z3.BoolVal(False))]
            return [Claim("orbit member %d" % k, [within(x, y, 1e-5) for x, y in zip(
                out[k], hamilton([Z(v) for v in o[k]], [Z(v) for v in q]))]) for k in range(order)]
        c.obligation("Laue %d orbit" % num, orbit, "rep", timeout=60)
    return c


def ite_table(ix, vals):
    e = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        e = z3.If(ix == k, vals[k], e)
    return e
