"""D01 distributed indexing"""
from .common import *
import copy
import sys
import types

NB = 2
BD = [("width", np.float64), ("rho", np.float64), ("valid", np.int32)]
ID = [("fit", np.float64), ("phase", np.int32)]
LIMIT = 1600
sym_debug = __import__('os').environ.get('VF_DEBUG')


class Hang(BaseException):
    pass


class Died(Exception):
    """the worker's process is gone"""


class Sched:
    """the schedule: every pending task's fate at every wait"""
    OK, LATER, DEAD, ERROR, STUCK = range(5)

    def __init__(self, choose, delays, faults, kinds):
        self.choose, self.delays, self.faults, self.kinds = choose, delays, faults, kinds
        self.waits, self.log = 0, []
        self.puts = []

    def fate(self, real, cpu):
        """fate of a task that is pending (real: it carries work)"""
        if not real:
            return self.OK
        opts = [self.OK]
        if self.delays:
            opts.append(self.LATER)
        if self.faults:
            opts += [k for k in self.kinds if not (cpu and k == self.STUCK)]
        f = self.choose(opts)
        if f == self.LATER:
            self.delays -= 1
        elif f != self.OK:
            self.faults -= 1
        return f


class Task:
    def __init__(self, actor, name, args, kwargs):
        self.actor, self.fate, self.done = actor, None, False
        self.real = bool(args) and args[0] is not None
        self.cpu = name == "indexpoles"
        self.name, self.args, self.kwargs = name, args, kwargs

    def result(self):
        if self.fate == Sched.DEAD:
            raise Died("worker died")
        if self.fate == Sched.ERROR:
            kw = dict(self.kwargs)
            kw["indexer"] = None       # the worker fails while working
            return getattr(self.actor.obj, self.name)(*self.args, **kw)
        return getattr(self.actor.obj, self.name)(*self.args, **self.kwargs)


def passed(x):
    """what arrives on the other side of a remote call"""
    if isinstance(x, np.ndarray):
        return x.copy()
    if type(x).__name__ == "CPUGPUJob":
        return copy.copy(x)
    return x


def fake_ray(S):
    class Actor:
        def __init__(self, obj):
            self.obj, self.killed = obj, False

        def __getattr__(self, n):
            me = self
            return types.SimpleNamespace(remote=lambda *a, **k: Task(me, n, [passed(x) for x in a], k))

    class Remote:
        def __init__(self, cls):
            self.cls = cls

        def options(self, **k):
            return self

        def remote(self, *a, **k):
            return Actor(self.cls(*a, **k))

    def remote(*a, **k):
        if len(a) == 1 and not k and callable(a[0]):
            return Remote(a[0])
        return Remote

    def wait(tasks, num_returns=1, timeout=None, **k):
        s = S[0]
        s.waits += 1
        if s.waits > LIMIT:
            raise Hang()
        done, busy = [], []
        for t in tasks:
            if t.actor.killed:
                t.fate, t.done = Sched.DEAD, True
            if not t.done:
                f = t.fate if t.fate == Sched.STUCK else s.fate(t.real, t.cpu)
                t.fate = f
                t.done = f not in (Sched.LATER, Sched.STUCK)
            (done if t.done and len(done) < num_returns else busy).append(t)
        return done, busy

    def get(t):
        if not t.done:
            raise sym.Unsupported("ray.get of a pending task")
        return t.result()

    def kill(a, **k):
        a.killed = True

    return types.SimpleNamespace(remote=remote, wait=wait, get=get, kill=kill, put=lambda x: x, init=lambda *a, **k: None,
                                 shutdown=lambda: None, is_initialized=lambda: False, nodes=lambda: [], __name__="ray")


class Indexer:
    """records are functions of the pattern: band finding and pole indexing are other properties"""
    def __init__(self, npx, getpats, fpats, nph):
        self.np, self.nph = npx, nph
        self.phaseLib = [None] * nph
        self.phaselist = self.phaseLib
        self.PC = [0.5, 0.5, 0.5]
        self.dataTemplate = np.dtype(ID)
        self.vendor = "EDAX"
        self.bandDetectPlan = types.SimpleNamespace(useCPU=True, nBands=NB, dataType=np.dtype(BD), patDim=np.array([1, 2]),
                                                    band_detect_setup=lambda **k: None)
        self.updates = []
        self._gp = getpats
        if fpats is not None:
            n = fpats.shape[0]

            def read_data(returnArrayOnly=False, patStartCount=(0, -1), convertToFloat=False, **k):
                a, c = patStartCount
                c = n - a if c < 0 else c
                return fpats[a:min(n, a + c)].copy(), self.np.zeros((min(n, a + c) - a, 2))
            self.fID = types.SimpleNamespace(nPatterns=n, read_data=read_data)
        else:
            self.fID = None

    def update_file(self, filename=None, patDim=None, **k):
        self.updates.append(filename)

    def _getpats(self, *a, **k):
        return self._gp(self, *a, **k)

    def _detectbands(self, pats, PC, xyloc=None, clparams=None, verbose=0, chunksize=528, gpu_id=None):
        n = pats.shape[0]
        bd = self.np.zeros((n, NB), dtype=BD)
        nm = self.np.zeros((n, NB, 3))
        for p in range(n):
            for b in range(NB):
                bd["width"][p, b] = pats[p, 0, 0] + b
                bd["valid"][p, b] = 1
                nm[p, b, 0] = pats[p, 0, 1] + b
        return bd, nm

    def _indexbandsphase(self, banddata, bandnorm, verbose=0):
        n = banddata.shape[0]
        out = self.np.zeros((self.nph + 1, n), dtype=ID)
        bd = banddata.copy()
        for p in range(n):
            for r in range(self.nph + 1):
                out["fit"][r, p] = banddata["width"][p, 0] + 10 * bandnorm[p, 1, 0] + r
            bd["rho"][p, :] = bandnorm[p, 0, 0] + 7
        return out, bd


def drive(m, S, npx, pats, cfg, choose, filemode):
    """run the real scheduler; returns ('ok', result) | ('raised', e) | ('hang', None)"""
    S[0] = Sched(choose, cfg["delays"], cfg["faults"], cfg["kinds"])
    ix = Indexer(npx, m.EBSDIndexer._getpats, pats if filemode else None, cfg["nph"])
    m.index_pats = lambda *a, **k: (None, None, k.get("ebsd_indexer_obj"))
    m.time = types.SimpleNamespace(sleep=lambda s: None, time=lambda: 0.0)
    m.timer = lambda: 1.0
    m.print = lambda *a, **k: None
    m.os = types.SimpleNamespace(cpu_count=lambda: 4, environ=dict(), getenv=lambda k, d=None: d,
                                 path=__import__("os").path)
    try:
        r = m.index_pats_distributed(patsin=None if filemode else pats, filename="f" if filemode else None,
                                     patstart=cfg["start"], npats=cfg["count"], chunksize=cfg["chunk"], ncpu=cfg["ncpu"],
                                     ebsd_indexer_obj=ix)
        return "ok", r
    except Hang:
        return "hang", None
    except sym.Unsupported:
        raise
    except Exception as e:
        return "raised", e


def addressed(total, start, count):
    if start < 0:
        start = total + start
    n = total - start if count <= 0 else min(count, total - start)
    return list(range(start, start + n))


def load_real(S):
    sys.modules["ray"] = fake_ray(S)
    import pyebsdindex
    from pyebsdindex import _ebsd_index_parallel as m
    return m


def rep(i):
    S = [None]
    m = load_real(S)
    total = i["total"]
    rng = np.random.default_rng(2)
    pats = rng.uniform(1, 100, (total, 1, 2))
    todo = [int(x) for x in i["sched"]]
    cfg = dict(i)
    cfg["kinds"] = [int(k) for k in i["kinds"]]

    def choose(opts):
        f = todo.pop(0) if todo else Sched.OK
        return f if f in opts else Sched.OK
    given = [int(x) for x in i["sched"]]
    own = addressed(total, i["start"], i["count"])
    st, r = drive(m, S, np, pats, cfg, choose, i["filemode"])
    names = {0: "done", 1: "later", 2: "dies", 3: "fails", 4: "stuck"}
    what = "%d patterns of %d from %d, chunk %d, %d workers, schedule %s" % (i["count"], total, i["start"], i["chunk"], i["ncpu"],
                                                                           [names[x] for x in given])
    if st == "hang":
        return what + ": never returns"
    if st == "raised":
        return None if S[0].faults < i["faults"] else what + ": fails with %r" % r
    d, bd = r[0], r[1]
    if d.shape != (i["nph"] + 1, len(own)) or bd.shape != (len(own), NB):
        return what + ": result shapes %s %s" % (d.shape, bd.shape)
    for k, p in enumerate(own):
        for q in range(i["nph"] + 1):
            want = pats[p, 0, 0] + 10 * (pats[p, 0, 1] + 1) + q
            if abs(d["fit"][q, k] - want) > 1e-2:
                return what + ": row %d has %s, not the result of its pattern (%s)" % (k, d["fit"][q, k], want)
        if abs(bd["width"][k, 0] - pats[p, 0, 0]) > 1e-6 or abs(bd["rho"][k, 0] - pats[p, 0, 1] - 7) > 1e-2:
            return what + ": band data of row %d are not those of its pattern" % k


def run():
    c = Check("D01", "distributed indexing", modname="d01",
              functions=["index_pats_distributed", "GPUWorker.findbands", "CPUWorker.indexpoles", "CPUGPUJob", "EBSDIndexer._getpats"],
              bounds="2-5 patterns in 1-4 chunks, 1-3 workers of each kind, arrays and files, every start and count; every order of "
                     "completion with up to 3 late tasks, up to 2 workers that die, fail or get stuck; all pattern contents",
              stubs=["ray: tasks run when fetched, arguments by value, fates of tasks unknown",
                     "EBSDIndexer: band finding and indexing are functions of the pattern", "time, os.environ"],
              assumptions=["a worker that is stuck for good is a band finding worker; failures are transient (bounded number)",
                           "no OpenCL device"])
    S = [None]
    T = c.twin(stubs={"ray": fake_ray(S)})
    m = T.load("pyebsdindex._ebsd_index_parallel")

    def ob(total, start, count, chunk, ncpu, delays, faults, kinds, filemode, nph=1):
        cfg = dict(total=total, start=start, count=count, chunk=chunk, ncpu=ncpu, delays=delays, faults=faults, kinds=list(kinds),
                   nph=nph, filemode=filemode)

        def f(h):
            pats = reals("p", total, 1, 2)
            seq = []
            h["inputs"] = dict(cfg, sched=seq)

            def choose(opts):
                if len(opts) == 1:
                    return opts[0]
                x = Int("fate%d" % len(seq))
                assume(snp.mkbool(z3.Or([lift(x) == o for o in opts])))
                seq.append(x)
                for o in opts[:-1]:
                    if bool(x == o):
                        return o
                return opts[-1]
            own = addressed(total, start, count)
            st, r = drive(m, S, snp.np, pats, cfg, choose, filemode)
            if st == "hang":
                return [Claim("returns or raises", False)]
            if st == "raised":
                if sym_debug:
                    raise r
                return [Claim("no error without a failing worker", S[0].faults < faults)]
            d, bd = r[0], r[1]
            shapes = tuple(d.shape) == (nph + 1, len(own)) and tuple(bd.shape) == (len(own), NB)
            out = [Claim("one row per pattern", shapes)]
            if shapes:
                A, B = [], []
                for k, p in enumerate(own):
                    for q in range(nph + 1):
                        A.append(Z(d["fit"][q, k]) == Z(pats[p, 0, 0] + 10 * (pats[p, 0, 1] + 1) + q))
                    B.append(Z(bd["width"][k, 0]) == Z(pats[p, 0, 0]))
                    B.append(Z(bd["rho"][k, 0]) == Z(pats[p, 0, 1] + 7))
                out += [Claim("own result in every row", conj(*A)), Claim("own bands in every row", conj(*B))]
            return out
        return f

    D, E, K = Sched.DEAD, Sched.ERROR, Sched.STUCK
    cfgs = [(3, 0, -1, 1, 2, 3, 0, (), False), (5, 1, 4, 2, 2, 3, 0, (), True), (4, 0, 4, 2, 3, 2, 0, (), False),
            (3, 0, 3, 1, 2, 1, 1, (D, E), False), (3, 0, 3, 1, 2, 1, 1, (D, E), True), (2, 0, 2, 1, 1, 0, 2, (D, E), False),
            (3, 0, 3, 1, 1, 0, 2, (D, E, K), False), (2, 0, 2, 1, 2, 1, 1, (K,), False), (3, 0, 3, 1, 2, 1, 1, (K,), True),
            (3, 0, 3, 1, 2, 0, 2, (D, K), False),
            (4, -2, -1, 1, 1, 0, 0, (), False), (4, 1, 9, 2, 1, 0, 0, (), True), (4, 1, 9, 2, 2, 1, 0, (), False),
            (3, 2, 1, 1000, 2, 0, 1, (D, E), False), (3, 0, 3, 1, 2, 1, 2, (D, E, K), False),
            (5, 1, 4, 1, 3, 1, 1, (D, E), True), (4, 0, 4, 1, 2, 5, 0, (), False), (4, 0, 4, 1, 3, 1, 1, (D,), False)]
    if thorough():
        cfgs += [(5, 0, 5, 1, 2, 3, 2, (D, E), False), (3, 0, 3, 1, 2, 2, 2, (D, E, K), False), (4, 0, 4, 1, 2, 2, 1, (D, E, K), False), (5, 1, 4, 1, 3, 2, 1, (D, E), True), (4, 0, 4, 1, 2, 2, 2, (D, E, K), True), (6, 1, 5, 2, 3, 3, 2, (D, E, K), False)]
    for a in cfgs:
        c.obligation("%d patterns from %d (%d) chunk %d workers %d late %d faults %d %s %s" % (a[0], a[1], a[2], a[3], a[4], a[5],
                     a[6], "".join("LDEK"[k - 1] for k in a[7]), "file" if a[8] else "array"), ob(*a), "rep", timeout=60,
                     max_paths=20000)
    return c
