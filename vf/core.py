"""Obligation runner: explore -> solver -> replay on the real code -> verdict, evidence."""
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYVT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if PYVT not in sys.path:
    sys.path.append(PYVT)

import z3  # noqa: E402

from . import sym, snp, loader  # noqa: E402
from .sym import STATS, tobool  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = float(os.environ.get("VERIF_BUDGET", "780" if TIER == "quick" else "7200"))


def thorough():
    return TIER == "thorough"


class Known:
    def __init__(self, pid):
        self.entries = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            self.entries = [e for e in json.load(open(p))["findings"] if e["property"] == pid and e["status"] == "known"]

    def get(self, fid):
        for e in self.entries:
            if e["id"] == fid:
                return e
        return None


class Claim:
    """what one path of the code must satisfy"""

    def __init__(self, label, cond, margin=None, inputs=None):
        self.inputs = inputs      # replay inputs specific to this claim
        self.label = label
        self.cond = cond          # bool / SymBool / z3 bool / nested list
        self.margin = margin      # optional weaker-negation condition: a *visible* violation


def _flat(c):
    import numpy as np
    if isinstance(c, np.ndarray):
        c = list(snp.plain(c).reshape(-1))
    if isinstance(c, (list, tuple)):
        out = []
        for x in c:
            out += _flat(x)
        return out
    return [c]


def conj(*cs):
    return z3.And([tobool(x) for x in _flat(list(cs))] or [z3.BoolVal(True)])


class Check:
    def __init__(self, pid, title, functions, bounds, stubs=(), assumptions=(), modname=None):
        self.pid = pid
        self.title = title
        self.functions = functions
        self.bounds = bounds
        self.stubs = list(stubs)
        self.assumptions = list(assumptions)
        self.obls = []
        self.violations = []
        self.errors = []
        self.inconclusive = []
        self.t0 = time.time()
        self.stop_at = None
        self.known = Known(pid)
        self.known_lines = []
        self.modname = modname
        self.sources = {}
        self.replays_run = 0
        self.samples = []
        self.validated = 0
        self._vn = 0
        self._todo = []
        self.unconfirmed = []
        self._failed = {}

    def left(self):
        l = BUDGET - (time.time() - self.t0)
        if self.stop_at is not None:       # a violation is confirmed: no need to use up the budget
            l = min(l, self.stop_at - time.time())
        return l

    # ------------------------------------------------------------------
    def twin(self, **kw):
        t = loader.Twin(**kw)
        self._twins = getattr(self, "_twins", []) + [t]
        return t

    def note_sources(self):
        for t in getattr(self, "_twins", []):
            for p, h in t.sources.items():
                self.sources[os.path.relpath(p, t.repo)] = h

    # ------------------------------------------------------------------
    def solve(self, pc, neg, timeout):
        """-> ('unsat'|'sat'|'unknown', model)"""
        t = time.time()
        STATS.queries += 1
        r, m = self._solve(pc, neg, timeout)
        dt = time.time() - t
        STATS.solver_s += dt
        if os.environ.get("VF_SLOW") and dt > float(os.environ["VF_SLOW"]):
            print("SLOW %.1fs %s" % (dt, r), str(neg)[:300].replace("\n", " "), flush=True)
        setattr(STATS, r, getattr(STATS, r) + 1)
        return r, m

    def _solve(self, pc, neg, timeout):
        # cheap weakenings first: unsat with fewer conjuncts is unsat
        gv = vars_of(neg) | {"pi"}
        prev = -1
        for lvl in (0, 1):
            sub = [c for c in pc if (vars_of(c) <= gv if lvl == 0 else vars_of(c) & gv - {"pi"} or vars_of(c) <= gv)]
            if len(sub) == prev:
                continue
            prev = len(sub)
            for s in (z3.Solver(), z3.Tactic("qfnra-nlsat").solver()):
                try:
                    s.set("timeout", 1500)
                    s.add(*sub)
                    s.add(neg)
                    r = s.check()
                except z3.Z3Exception:
                    break
                if r == z3.unsat:
                    return "unsat", None
                if r == z3.sat or not _pure_real(sub + [neg]):
                    break
        rel = slice_pc(pc, neg)
        fs = rel + [neg]
        pure = _pure_real(fs)
        attempts = []
        if pure:
            attempts = [("smt", min(timeout, 3)), ("nlsat", timeout), ("smt", timeout)]
        else:
            attempts = [("smt", min(timeout, 5)), ("pre", timeout), ("smt", timeout)]
        for kind, to in attempts:
            try:
                if kind == "nlsat":
                    s = z3.Tactic("qfnra-nlsat").solver()
                elif kind == "pre":
                    s = z3.Then("simplify", "purify-arith", "solve-eqs", "smt").solver()
                else:
                    s = z3.Solver()
                s.set("timeout", int(to * 1000))
                s.add(*fs)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return "unsat", None
            if r == z3.sat:
                if len(rel) == len(pc):
                    return "sat", s.model()
                # model must satisfy the sliced-away part as well
                m = s.model()
                s = z3.Solver()
                s.set("timeout", int(timeout * 1000))
                s.add(*pc)
                s.add(neg)
                r = s.check()
                if r == z3.sat:
                    return "sat", s.model()
                if r == z3.unsat:
                    return "unsat", None
                s = z3.Tactic("qfnra-nlsat").solver() if _pure_real(pc + [neg]) else z3.Solver()
                s.set("timeout", int(timeout * 1000))
                s.add(*pc)
                s.add(neg)
                r = s.check()
                if r == z3.sat:
                    return "sat", s.model()
                return ("unsat" if r == z3.unsat else "unknown"), None
        return "unknown", None

    def obligation(self, name, fn, replay=None, timeout=20, max_paths=400, max_values=64, allow_exc=None,
                   branch_timeout=4000, what="", need_witness=True, max_viol=1, budget=None):
        """fn() -> (inputs dict, [Claim...]); run on every feasible path.

        replay: name of a function in the check module: f(inputs) -> None | message
        allow_exc(exc) -> True when the exception is permitted behaviour.
        """
        only = os.environ.get("VF_ONLY")
        if only and only not in name:
            return
        o = dict(name=name, what=what, paths=0, claims=0, discharged=0, violated=0, inconclusive=0, witness=0)
        self.obls.append(o)
        self._todo.append((o, (name, fn, replay, timeout, max_paths, max_values, allow_exc, branch_timeout,
                               need_witness, max_viol, budget)))

    def run_all(self):
        """every obligation in a forked worker (no solver runs in the parent before the fork)"""
        todo, self._todo = self._todo, []
        jobs = int(os.environ.get("VF_JOBS", "8"))
        if jobs <= 1:
            for k, (o, a) in enumerate(todo):
                self._vn = 100 * k
                self._one(o, a)
            return
        import select
        pend = list(enumerate(todo))[::-1]
        live = {}

        def start():
            k, (o, a) = pend.pop()
            rfd, wfd = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(rfd)
                    os.setpgid(0, 0)
                    self._vn = 100 * k
                    self.violations, self.errors, self.inconclusive, self.samples = [], [], [], []
                    self.unconfirmed = []
                    STATS.__init__()
                    try:
                        self._one(o, a)
                    except MemoryError:
                        self.inconclusive.append("%s: out of memory" % o["name"])
                    except Exception:
                        self.errors.append("%s: engine failure %s" % (o["name"], traceback.format_exc()[-1200:]))
                    self.note_sources()
                    out = json.dumps(jsonable(dict(
                        o=o, violations=self.violations, errors=self.errors, inconclusive=self.inconclusive,
                        samples=self.samples, unconfirmed=self.unconfirmed, stats=STATS.__dict__,
                        replays=self.replays_run, sources=self.sources))).encode()
                    with os.fdopen(wfd, "wb") as f:
                        f.write(out)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            os.close(wfd)
            live[rfd] = dict(pid=pid, o=o, buf=b"", t0=time.time(), lim=(a[-1] or 1e9) + 60)
        while pend or live:
            while pend and len(live) < jobs and self.left() > 5:
                start()
            if not live:
                break
            r, _, _ = select.select(list(live), [], [], 1.0)
            for fd in r:
                d = os.read(fd, 1 << 16)
                if d:
                    live[fd]["buf"] += d
                    continue
                j = live.pop(fd)
                os.close(fd)
                os.waitpid(j["pid"], 0)
                self._merge(j)
                if self.violations and self.stop_at is None and TIER == "quick":
                    self.stop_at = time.time() + 60
            for fd in list(live):
                j = live[fd]
                if self.left() < -40 or time.time() - j["t0"] > j["lim"]:
                    try:
                        os.killpg(j["pid"], 9)
                    except OSError:
                        pass
                    os.waitpid(j["pid"], 0)
                    os.close(fd)
                    live.pop(fd)
                    j["o"]["inconclusive"] += 1
                    self.inconclusive.append("%s: out of time" % j["o"]["name"])
        for k, (o, a) in pend:
            o["inconclusive"] += 1
            self.inconclusive.append("%s: not started (time budget)" % o["name"])

    def _merge(self, j):
        try:
            d = json.loads(j["buf"])
        except ValueError:
            j["o"]["inconclusive"] += 1
            self.inconclusive.append("%s: worker ended without a result (memory or crash)" % j["o"]["name"])
            return
        j["o"].update(d["o"])
        for k in ("violations", "errors", "inconclusive", "unconfirmed"):
            getattr(self, k).extend(d[k])
        self.samples = (self.samples + d["samples"])[:12]
        self.replays_run += d["replays"]
        self.sources.update(d["sources"])
        for k, v in d["stats"].items():
            setattr(STATS, k, getattr(STATS, k) + v)

    def _one(self, o, a):
        try:
            return self._obligation(o, *a)
        finally:
            if os.environ.get("VF_LIVE"):
                print("..", {k: v for k, v in o.items() if k != "what"}, flush=True)

    def _obligation(self, o, name, fn, replay, timeout, max_paths, max_values, allow_exc, branch_timeout,
                    need_witness, max_viol, budget):
        t0 = time.time()
        dl = t0 + min(budget or 1e9, max(5.0, self.left()))
        holder = {"inputs": {}}

        def run():
            holder.clear()
            holder["inputs"] = {}
            r = fn(holder)
            return r
        try:
            for p in sym.explore(run, max_paths=max_paths, branch_timeout=branch_timeout, max_values=max_values,
                                 deadline=dl):
                o["paths"] += 1
                inputs = holder.get("inputs", {})
                eng = isinstance(p.exc, (sym.Unsupported, sym.BoundExceeded)) or (
                    p.exc is not None and isinstance(p.exc, (AttributeError, TypeError)) and _engine_exc(p.exc))
                if eng:
                    r, m = self.solve(p.pc, z3.BoolVal(True), min(timeout, 15))
                    if r == "unsat":
                        continue          # infeasible path the branch query could not rule out
                    o["inconclusive"] += 1
                    msg = "%s: %s: %s" % (name, type(p.exc).__name__, str(p.exc)[:400])
                    if os.environ.get("VF_DEBUG"):
                        msg += "".join(traceback.format_exception(p.exc))[-2500:]
                    if sum(1 for x in self.inconclusive if x.startswith(name)) < 4:
                        self.inconclusive.append(msg)
                    continue
                if p.exc is not None:
                    if allow_exc is not None and allow_exc(p.exc):
                        o["witness"] += 1
                        continue
                    claims = [Claim("does not raise", z3.BoolVal(False))]
                    p.exc_text = "".join(traceback.format_exception(p.exc))[-1500:]
                else:
                    claims = p.value
                    p.exc_text = None
                # reachability witness
                if o["witness"] == 0 or p.exc is not None:
                    r, m = self.solve(p.pc, z3.BoolVal(True), timeout)
                    if r == "sat":
                        o["witness"] += 1
                        if len(self.samples) < 12 and o["witness"] == 1:
                            self.samples.append({"obligation": name, "path_model": jsonable(
                                {k: sym.model_value(m, v) for k, v in list(inputs.items())[:8]})})
                    elif r == "unsat":
                        continue          # infeasible path
                for cl in claims:
                    o["claims"] += 1
                    neg = z3.simplify(z3.Not(conj(cl.cond)))
                    if z3.is_false(neg):
                        o["discharged"] += 1
                        continue
                    r, m = self.solve(p.pc, neg, timeout)
                    if r == "unsat":
                        o["discharged"] += 1
                        continue
                    if r == "unknown":
                        o["inconclusive"] += 1
                        self.inconclusive.append("%s / %s: solver gave unknown" % (name, cl.label))
                        continue
                    ok = self.report(o, p, cl, neg, m, dict(inputs, **(cl.inputs or {})), replay, timeout)
                    if o["violated"] >= max_viol:
                        o["wall_s"] = round(time.time() - t0, 2)
                        return o
        except (sym.Unsupported, sym.BoundExceeded) as e:
            o["inconclusive"] += 1
            self.inconclusive.append("%s: %s: %s" % (name, type(e).__name__, str(e)[:600]))
        if need_witness and o["witness"] == 0 and not o["inconclusive"]:
            self.errors.append("%s: vacuous (no feasible path reached the assertion)" % name)
        o["wall_s"] = round(time.time() - t0, 2)
        return o

    def report(self, o, p, cl, neg, m, inputs, replay, timeout):
        """replay candidate models on the real code"""
        tried = []
        key = (o["name"], cl.label)
        if self._failed.get(key, 0) >= 6 or sum(v for k, v in self._failed.items() if k[0] == o["name"]) >= 24:
            o["inconclusive"] += 1
            return False                     # enough fruitless replays
        negs = [neg]
        if cl.margin is not None:
            negs.insert(0, z3.Not(conj(cl.margin)))
        blocked = []
        for ng in negs:
            for attempt in range(3):
                r, mm = self.solve(p.pc + blocked, ng, timeout)
                if r != "sat":
                    break
                conc = jsonable({k: sym.model_value(mm, v) for k, v in inputs.items()})
                tried.append(conc)
                if replay is None:
                    msg = None
                    self.errors.append("%s: counterexample without a replay" % o["name"])
                    return False
                msg = self.replay(replay, conc)
                if msg:
                    path = self.save(o["name"], replay, conc, cl.label, msg, p.exc_text)
                    o["violated"] += 1
                    self.violations.append(dict(obligation=o["name"], claim=cl.label, inputs=conc, observed=msg,
                                                replay=path))
                    return True
                self._failed[key] = self._failed.get(key, 0) + 1
                # different values next time
                bl = []
                for v in inputs.values():
                    for x in _flat(v):
                        if isinstance(x, sym.Sym):
                            bl.append(x.e != mm.eval(x.e, model_completion=True))
                if not bl:
                    break
                blocked.append(z3.Or(bl))
        o["inconclusive"] += 1
        self.unconfirmed.append("%s / %s: counterexample did not reproduce on the real code: %s %s" % (
            o["name"], cl.label, json.dumps(tried[:1])[:600], (p.exc_text or "")[-700:]))
        return False

    def replay(self, fname, inputs, timeout=240):
        self.replays_run += 1
        return run_replay(self.modname, fname, inputs, timeout)

    def save(self, oname, replay, inputs, label, msg, exc):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        self._vn += 1
        path = os.path.join(d, "%s-%d.json" % (self.pid, self._vn))
        json.dump(dict(property=self.pid, module=self.modname, replay=replay, inputs=inputs, obligation=oname,
                       claim=label, observed=msg, exception=exc,
                       how="cd /verif && /opt/venv/bin/python -m vf.replay %s" % path), open(path, "w"), indent=1)
        return path

    # direct use of concrete confirmation of a listed finding
    def known_finding(self, fid, replay, inputs):
        e = self.known.get(fid)
        if e is None:
            return False
        msg = self.replay(replay, inputs)
        if msg:
            self.known_lines.append("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
        return True

    def validate(self, name, pairs):
        """translator validation: list of (encoding value, real value) already compared"""
        self.validated += pairs

    def finish(self):
        self.run_all()
        self.note_sources()
        wall = time.time() - self.t0
        n_ob = sum(o["claims"] for o in self.obls)
        n_dis = sum(o["discharged"] for o in self.obls)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level="other", wall_s=round(wall, 2),
                  assumptions=self.assumptions,
                  violations=self.violations,
                  coverage=dict(
                      explanation="Bounded symbolic execution of the current /repo source (functions below) with z3 "
                                  "deciding, on every feasible path, the negation of each claim; counterexamples are "
                                  "replayed on the real code before being reported.",
                      functions_encoded=self.functions, source_sha=self.sources, bounds=self.bounds,
                      stubs=self.stubs, obligations=self.obls, claims=n_ob, claims_discharged=n_dis,
                      solver=STATS.as_dict(), replays_run=self.replays_run,
                      translator_validation_points=self.validated,
                      inconclusive=self.inconclusive, unconfirmed_counterexamples=self.unconfirmed, samples=self.samples,
                      known_findings=self.known_lines))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(jsonable(ev), open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        for l in self.known_lines:
            print(l)
        for i in self.inconclusive:
            print("INCONCLUSIVE", i)
        for i in self.unconfirmed:
            print("UNCONFIRMED", i)
        for e in self.errors:
            print("ERROR", e)
        for o in self.obls:
            print("  %-46s paths=%d claims=%d discharged=%d violated=%d inconclusive=%d %.1fs" % (
                o["name"], o["paths"], o["claims"], o["discharged"], o["violated"], o["inconclusive"],
                o.get("wall_s", 0)))
        print("%s: %d/%d claims discharged, %d paths, %d queries, solver %.1fs, wall %.1fs" % (
            self.pid, n_dis, n_ob, STATS.paths, STATS.queries, STATS.solver_s, wall))
        for v in self.violations:
            print("  violated: %s / %s: %s" % (v["obligation"], v["claim"], v["observed"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, v["replay"]))
        if self.violations:
            return 1
        if self.errors:
            return 2
        if n_dis == 0:
            return 2
        return 0


def _engine_exc(e):
    """exception raised inside the engine rather than by the code under test's own logic"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    return last is not None and os.sep + "vf" + os.sep in last.tb_frame.f_code.co_filename


vars_of = sym.vars_of


def slice_pc(pc, goal):
    """conjuncts of pc connected to the goal through shared variables"""
    need = set(vars_of(goal))
    rest = list(pc)
    keep = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for c in rest:
            v = vars_of(c)
            if not v - {"pi"} or v & need - {"pi"}:
                keep.append(c)
                if not v <= need:
                    need |= v
                    changed = True
            else:
                nxt.append(c)
        rest = nxt
    return keep


def _pure_real(fs):
    seen = set()
    st = list(fs)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_int(e):
            return False
        st.extend(e.children())
    return True


def jsonable(x):
    import numpy as np
    from fractions import Fraction
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, (sym.Sym, sym.SymBool)) or z3.is_expr(x):
        return str(x)
    if isinstance(x, bytes):
        return x.decode("latin1")
    return x


# ---------------------------------------------------------------------- replay
def run_replay(modname, fname, inputs, timeout=240, jit=False):
    import tempfile
    import shutil
    d = tempfile.mkdtemp(prefix="vfreplay_")
    try:
        f = os.path.join(d, "in.json")
        json.dump(dict(module=modname, replay=fname, inputs=inputs), open(f, "w"))
        env = dict(os.environ)
        env.update(HOME=d, TMPDIR=d, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", RAY_USAGE_STATS_ENABLED="0",
                   PYTHONPATH=VERIF)
        env.pop("VF_SYMBOLIC", None)
        try:
            r = subprocess.run([sys.executable, "-m", "vf.replay", f], cwd=d, env=env, capture_output=True, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            return None
        if r.returncode == 1:
            for l in r.stdout.splitlines():
                if l.startswith("REPRODUCED "):
                    return l[len("REPRODUCED "):]
        if r.returncode not in (0, 1):
            print("REPLAY-FAILED rc", r.returncode, r.stderr[-600:], flush=True)
        if os.environ.get("VF_DEBUG"):
            print("replay rc", r.returncode, r.stdout[-500:], r.stderr[-1500:])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(modname):
    mod = importlib.import_module("checks." + modname)
    # keep the package import side effects (~/.pyebsdindex) in a scratch home
    import tempfile
    import shutil
    d = tempfile.mkdtemp(prefix="vfhome_")
    os.environ["HOME"] = d
    os.environ["NUMBA_CACHE_DIR"] = d
    os.environ["MPLBACKEND"] = "Agg"
    sys.dont_write_bytecode = True
    os.chdir(d)
    try:
        c = mod.run()
        return c.finish()
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
