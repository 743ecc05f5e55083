"""Load /repo's current Python source as a *symbolic twin*: same statements, but
`numpy` is snp.np, `numba` compiles nothing, and Python builtins that would force a
concrete value (int, float, min, max, round, abs, range, open ...) accept symbols."""
import ast
import builtins
import functools
import importlib.util
import os
import sys
import types
import hashlib

from . import snp, sym
from .sym import Sym, SymBool

REPO = os.environ.get("VERIF_REPO", "/repo")


# ---------------------------------------------------------------- builtins
class _IntB:
    def __call__(self, x=0, *a):
        if a:
            return int(x, *a)
        if isinstance(x, snp.rnp.ndarray):
            x = x.reshape(-1)[0] if x.size == 1 else x
        if isinstance(x, Sym):
            return sym.trunc(x)
        if isinstance(x, SymBool):
            return x._n()
        return int(x)


def b_float(x=0.0):
    if isinstance(x, snp.rnp.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    if isinstance(x, (Sym, SymBool)):
        return snp.cast(x, snp.rnp.dtype(float))
    return float(x)


def _single(args):
    return list(args[0]) if len(args) == 1 else list(args)


def b_min(*a, **k):
    xs = _single(a)
    if k or not any(isinstance(x, Sym) for x in xs):
        return min(xs, **k)
    return sym.smin(*xs) if len(xs) > 1 else xs[0]


def b_max(*a, **k):
    xs = _single(a)
    if k or not any(isinstance(x, Sym) for x in xs):
        return max(xs, **k)
    return sym.smax(*xs) if len(xs) > 1 else xs[0]


def b_round(x, nd=None):
    if isinstance(x, Sym):
        return sym.rint(x)
    return round(x) if nd is None else round(x, nd)


def b_type(*a):
    return snp.rnp.ndarray if len(a) == 1 and type(a[0]) is snp.SymArr else type(*a)


def b_bool(x=False):
    return bool(x)


def b_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def _npscalar(o):
    """numbers have the methods of numpy scalars"""
    if isinstance(o, (float, int)) and not isinstance(o, bool):
        return snp.rnp.float64(o) if isinstance(o, float) else snp.rnp.int64(o) if abs(o) < 2 ** 62 else o
    return o


def _tofile(o, f, *a, **k):
    if hasattr(f, "_sym_write_array"):
        if isinstance(o, snp.rnp.generic):
            o = snp.array(o, dtype=o.dtype)
        return f._sym_write_array(o)
    return o.tofile(f, *a, **k)


class Twin:
    """one private import universe"""

    def __init__(self, stubs=None, repo=None, extra_builtins=None):
        self.repo = repo or REPO
        self.mods = {}
        self.stubs = dict(stubs or {})
        self.extra = dict(extra_builtins or {})
        self.sources = {}

    def builtins(self):
        b = dict(builtins.__dict__)
        b["__import__"] = self._import
        b["_vf_int"] = _IntB()
        b["_vf_float"] = b_float
        b["_vf_min"] = b_min
        b["_vf_max"] = b_max
        b["_vf_round"] = b_round
        b["_vf_sum"] = b_sum
        b["_vf_range"] = range
        b["_vf_type"] = b_type
        b["_vf_open"] = open
        b["_vf_tofile"] = _tofile
        b["_vf_np"] = _npscalar
        b.update(self.extra)
        return b

    def _stub(self, name):
        if name in self.stubs:
            return self.stubs[name]
        if name == "numpy":
            return snp.np
        if name == "numba":
            return FakeNumba()
        if name.startswith("numpy.") and not name.startswith("numpy._"):
            return getattr(snp.np, name.split(".", 1)[1])
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            name = base + ("." + name if name else "")
        top = name.split(".")[0]
        if top == "pyebsdindex" or (top in ("rotlib",) and False):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + "." + f))
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(top)
        s = self._stub(name)
        if s is not None:
            return s if fromlist or "." not in name else (self._stub(top) or s)
        s = self._stub(top)
        if s is not None:
            if fromlist:
                o = s
                for p in name.split(".")[1:]:
                    o = getattr(o, p)
                return o
            return s
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return f, True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        raise ModuleNotFoundError(name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.stubs:
            return self.stubs[name]
        path, pkg = self.path(name)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        src = open(path, "r").read()
        self.sources[path] = hashlib.sha256(src.encode()).hexdigest()[:16]
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        code = compile(tree, path, "exec")
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rsplit(".", 1)[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins()
        self.mods[name] = m
        exec(code, m.__dict__)
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            setattr(self.mods[par], leaf, m)
        return m


class Rewrite(ast.NodeTransformer):
    NAMES = {"int": "_vf_int", "float": "_vf_float", "min": "_vf_min", "max": "_vf_max", "round": "_vf_round",
             "sum": "_vf_sum", "range": "_vf_range", "open": "_vf_open", "type": "_vf_type"}

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.NAMES:
            node.func = ast.copy_location(ast.Name(self.NAMES[node.func.id], ast.Load()), node.func)
        elif isinstance(node.func, ast.Attribute) and node.func.attr == "tofile":
            node.args.insert(0, node.func.value)
            node.func = ast.copy_location(ast.Name("_vf_tofile", ast.Load()), node.func)
        elif isinstance(node.func, ast.Attribute) and node.func.attr in ("astype", "clip", "reshape", "squeeze"):
            node.func.value = ast.copy_location(ast.Call(ast.Name("_vf_np", ast.Load()), [node.func.value], []), node.func.value)
        return node


def _jitted(f):
    """compiled integers are signed machine words: numpy scalar arguments become plain integers"""
    @functools.wraps(f)
    def g(*a, **k):
        a = [int(x) if isinstance(x, snp.rnp.integer) else x for x in a]
        k = {n: int(x) if isinstance(x, snp.rnp.integer) else x for n, x in k.items()}
        return f(*a, **k)
    g.py_func = f
    return g


class FakeNumba:
    """numba.jit = identity; prange = range; typed containers = Python ones."""
    __name__ = "numba"

    def jit(self, *a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return _jitted(a[0])
        return _jitted
    njit = jit

    def vectorize(self, *a, **k):
        raise sym.Unsupported("numba.vectorize")

    prange = staticmethod(lambda *a: range(*a))

    class _T:
        def __init__(self, n):
            self.n = n

        def _as_dtype(self):
            return self.n

        def __getitem__(self, k):
            return self

        def __call__(self, *a, **k):
            if len(a) == 1:
                d = snp._DTS.get(self.n)
                if d is not None:
                    return d(a[0])
                return a[0]
            return self

        @property
        def dtype(self):
            return snp.rnp.dtype(self.n)

        def __getattr__(self, n):
            return FakeNumba._T(n)

    class _Dict(dict):
        @classmethod
        def empty(cls, *a, **k):
            return cls()

    class _Typed:
        pass

    def __getattr__(self, n):
        if n == "typed":
            t = FakeNumba._Typed()
            t.Dict = FakeNumba._Dict
            t.List = list
            return t
        if n in ("get_num_threads",):
            return lambda: 1
        if n in ("set_num_threads",):
            return lambda n: None
        if n == "get_thread_id":
            return lambda: 0
        if n == "config":
            return types.SimpleNamespace(NUMBA_NUM_THREADS=1, THREADING_LAYER="default")
        if n == "errors":
            import types as t
            return t.SimpleNamespace(NumbaPerformanceWarning=Warning, NumbaWarning=Warning)
        if n in ("types", "core"):
            return FakeNumba._T(n)
        return FakeNumba._T(n)
