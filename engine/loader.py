"""Loads /repo/python/src for symbolic execution: the current source text is
parsed on every run, minimally rewritten (`float(x)`, `type(x)`, `complex(x)`,
set displays) and executed with shimmed imports."""
import ast
import builtins
import importlib
import itertools
import os
import sys
import types

import numpy as np

from . import sym, npshim
from .sym import S, C, B

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "python", "src")


# ------------------------------------------------------------------ builtins
def sym_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    t = type(x)
    if t is S:
        return float
    if t is C:
        return complex
    if t is B:
        return bool
    if isinstance(x, np.ndarray):
        return npshim.NDArray
    return t


def sym_float(x=0.0):
    if isinstance(x, S):
        return x
    if isinstance(x, B):
        return x._s()
    if isinstance(x, C):
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return sym_float(npshim.base(x).reshape(-1)[0])
    if isinstance(x, SymStr):
        return x.val
    r = float(x)
    if r != r or r in (float("inf"), float("-inf")):
        return r
    return sym.to_s(r)


def sym_complex(a=0, b=0):
    if isinstance(a, (S, C)) or isinstance(b, (S, C)):
        return C.of(a) + C.of(b) * 1j
    return complex(a, b)


class SymStr(str):
    """A numeric token of a text field whose value is symbolic."""
    val = None


_isinstance = isinstance


def sym_isinstance(x, cls):
    if type(x) in (S, C, B):
        cl = cls if _isinstance(cls, tuple) else (cls,)
        if _isinstance(cls, types.UnionType):
            cl = cls.__args__
        for c in cl:
            if type(x) is S and c in (float, S, np.floating, np.float64, np.number, np.generic):
                return True
            if type(x) is C and c in (complex, C, np.complexfloating, np.number):
                return True
            if type(x) is B and c in (bool, B, np.bool_, int):
                return True
            if getattr(c, "__module__", "") == "numbers":
                return True
        return _isinstance(x, cls)
    return _isinstance(x, cls)


SET_ORDER = {"mode": "insertion", "choose": None}


class OSet(set):
    """A set whose iteration order is chosen by the harness (hash order is not
    part of any contract)."""

    def __init__(self, it=()):
        self._seq = []
        super().__init__()
        for x in it:
            self.add(x)

    def add(self, x):
        if x not in self:
            super().add(x)
            self._seq.append(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def discard(self, x):
        if x in self:
            super().discard(x)
            self._seq.remove(x)

    def remove(self, x):
        super().remove(x)
        self._seq.remove(x)

    def pop(self):
        if not self._seq:
            raise KeyError("pop from an empty set")
        x = next(iter(self))
        self.remove(x)
        return x

    def __iter__(self):
        seq = list(self._seq)
        if SET_ORDER["choose"] is not None and len(seq) > 1:
            seq = SET_ORDER["choose"](seq)
        return iter(seq)

    def __or__(self, o):
        r = OSet(self._seq)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def union(self, *its):
        r = OSet(self._seq)
        r.update(*its)
        return r

    def __and__(self, o):
        return self.intersection(o)

    def intersection(self, *its):
        r = OSet(self._seq)
        r.intersection_update(*its)
        return r

    def intersection_update(self, *its):
        for it in its:
            keep = builtins.set(it)
            for x in [x for x in self._seq if x not in keep]:
                self.remove(x)

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __sub__(self, o):
        return self.difference(o)

    def difference(self, *its):
        r = OSet(self._seq)
        r.difference_update(*its)
        return r

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def symmetric_difference(self, o):
        o = list(o)
        r = OSet(x for x in self._seq if x not in o)
        r.update(x for x in o if x not in self)
        return r

    def symmetric_difference_update(self, o):
        new = list(self.symmetric_difference(o)._seq)
        self.clear()
        self.update(new)

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    def clear(self):
        for x in list(self._seq):
            self.remove(x)

    def copy(self):
        return OSet(self._seq)


# ------------------------------------------------------------------ dispatch
def make_dispatch():
    from multipledispatch.dispatcher import Dispatcher, MethodDispatcher
    reg = {}

    class SymDispatcher:
        def __init__(self, name):
            self.name = name
            self.funcs = []     # (types, func)
            self.__name__ = name

        def add(self, tys, f):
            self.funcs = [(t, g) for t, g in self.funcs if t != tys] + [(tys, f)]

        def _match(self, args):
            best = None
            for tys, f in self.funcs:
                if len(tys) != len(args):
                    continue
                if all(_issub(sym_type(a), t) for a, t in zip(args, tys)):
                    if best is None or all(_issub(t1, t2) for t1, t2 in zip(tys, best[0])):
                        best = (tys, f)
            if best is None:
                raise NotImplementedError("Could not find signature for %s: <%s>" % (
                    self.name, ", ".join(sym_type(a).__name__ for a in args)))
            return best[1]

        def __get__(self, inst, owner):
            if inst is None:
                return self

            def bound(*args, **kw):
                return self._match(args)(inst, *args, **kw)
            return bound

        def __call__(self, *args, **kw):
            return self._match(args)(*args, **kw)

    def _issub(a, t):
        if isinstance(t, tuple):
            return any(_issub(a, x) for x in t)
        if t is object:
            return True
        try:
            return issubclass(a, t)
        except TypeError:
            return a is t

    def dispatch(*tys, **kw):
        tys = tuple(tys)

        def deco(f):
            fr = sys._getframe(1)
            ns = fr.f_locals
            d = ns.get(f.__name__)
            if not isinstance(d, SymDispatcher):
                d = SymDispatcher(f.__name__)
            for combo in itertools.product(*[t if isinstance(t, tuple) else (t,) for t in tys]):
                d.add(combo, f)
            return d
        return deco
    return dispatch


class JsonShim(types.ModuleType):
    def __init__(self, files):
        super().__init__("json")
        self.files = files

    def load(self, f, *a, **k):
        import copy
        return copy.deepcopy(self.files[f.name])

    def loads(self, s, *a, **k):
        import copy
        if isinstance(s, FakeText):
            return copy.deepcopy(self.files[s.name])
        return __import__("json").loads(s, *a, **k)

    def dump(self, obj, f, *a, **k):
        import copy
        self.files[f.name] = copy.deepcopy(obj)

    def dumps(self, o, *a, **k):
        return __import__("json").dumps(o, *a, default=repr)


class FakeText(str):
    name = None


class FakeFile:
    def __init__(self, name):
        self.name = str(name)

    def read(self, *a):
        t = FakeText("{}")
        t.name = self.name
        return t

    def write(self, *a):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class SkrfStub(types.ModuleType):
    def __init__(self):
        super().__init__("skrf")

        class Frequency:
            def __init__(self, f):
                self.f = f

            @classmethod
            def from_f(cls, f, unit=None, **k):
                return cls(f)

        class Network:
            def __init__(self, frequency=None, s=None, **k):
                self.frequency, self.s = frequency, s
                self.f = frequency.f if frequency is not None else None
        self.Frequency, self.Network = Frequency, Network


def _pattern(name, base):
    """class patterns of match statements see symbolic values as what they stand for"""
    meta = type("Meta", (type(base),), {"__instancecheck__": lambda cls, x: sym_isinstance(x, base)})
    return meta(name, (base,), {})


PATTERNS = {"float": _pattern("float", float), "complex": _pattern("complex", complex), "int": _pattern("int", int)}


class Rewriter(ast.NodeTransformer):
    def visit_MatchClass(self, node):
        self.generic_visit(node)
        if isinstance(node.cls, ast.Name) and node.cls.id in PATTERNS:
            node.cls.id = "__pat_%s__" % node.cls.id
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name):
            if f.id in ("float", "complex", "type"):
                f.id = "__sym_%s__" % f.id
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__OSet__", ast.Load()),
                                          [ast.List(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__OSet__", ast.Load()),
                                          [ast.ListComp(node.elt, node.generators)], []), node)


_CODE_CACHE = {}


def compile_src(path):
    with open(path) as f:
        txt = f.read()
    k = (path, txt)
    if k not in _CODE_CACHE:
        tree = Rewriter().visit(ast.parse(txt, path))
        ast.fix_missing_locations(tree)
        _CODE_CACHE[k] = compile(tree, path, "exec", dont_inherit=True)
    return _CODE_CACHE[k]


class SymWorld:
    """One fresh symbolic copy of the project's `src` package."""

    def __init__(self):
        self.mods = {}
        self.files = {}
        self.json = JsonShim(self.files)
        self.skrf = SkrfStub()
        self.dispatch = make_dispatch()
        pkg = types.ModuleType("src")
        pkg.__path__ = [SRC]
        pkg.__file__ = os.path.join(SRC, "__init__.py")
        self.mods["src"] = pkg
        self.b = dict(vars(builtins))
        self.b.update({
            "__import__": self._import, "isinstance": sym_isinstance, "set": OSet,
            "open": self._open, "print": lambda *a, **k: None,
            "__sym_float__": sym_float, "__sym_complex__": sym_complex, "__sym_type__": sym_type,
            "__OSet__": OSet,
        })
        self.b.update({"__pat_%s__" % k: v for k, v in PATTERNS.items()})
        pkg.__dict__["__builtins__"] = self.b
        init = os.path.join(SRC, "__init__.py")
        if os.path.exists(init):
            exec(compile_src(init), pkg.__dict__)

    def _open(self, name, *a, **k):
        return FakeFile(name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parts = name.split(".")
        path = os.path.join(SRC, *parts[1:])
        ispkg = os.path.isdir(path)
        file = os.path.join(path, "__init__.py") if ispkg else path + ".py"
        if not os.path.exists(file):
            if ispkg:
                m = types.ModuleType(name)
                m.__path__ = [path]
                self.mods[name] = m
                setattr(self.load(".".join(parts[:-1])), parts[-1], m)
                return m
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = file
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [path]
        m.__dict__["__builtins__"] = self.b
        parent = self.load(".".join(parts[:-1]))
        self.mods[name] = m
        try:
            exec(compile_src(file), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        setattr(parent, parts[-1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = (globals or {}).get("__package__") or "src"
            parts = pk.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            full = ".".join(parts + ([name] if name else []))
            m = self.load(full)
            for n in fromlist or ():
                if n != "*" and not hasattr(m, n):
                    try:
                        self.load(full + "." + n)
                    except ModuleNotFoundError:
                        pass
            return m
        top = name.split(".")[0]
        if top == "src":
            m = self.load(name)
            if fromlist:
                for n in fromlist:
                    if n != "*" and not hasattr(m, n):
                        try:
                            self.load(name + "." + n)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods["src"]
        if top == "utils" and os.path.exists(os.path.join(SRC, "VF", "utils.py")):
            return self.load("src.VF.utils")
        if top == "numpy":
            if not fromlist or name == "numpy":
                return npshim.NP
            if name == "numpy.fft":
                return npshim.NP.fft
            if name == "numpy.linalg":
                return npshim.NP.linalg
            if name == "numpy.random":
                return npshim.RANDOM
            return importlib.import_module(name)
        if top == "math":
            return npshim.MATH
        if top == "scipy":
            import scipy
            import scipy.linalg as sl
            sh = npshim.SubShim(sl, npshim.SCIPY_LINALG)
            if name == "scipy.linalg" and fromlist:
                return sh
            t = types.ModuleType("scipy")
            t.linalg = sh
            if fromlist and name == "scipy":
                return t
            return t
        if top == "sympy":
            from . import sympyconv
            if fromlist and name != "sympy":
                return importlib.import_module(name)
            return sympyconv.SP
        if top == "multipledispatch":
            t = types.ModuleType("multipledispatch")
            t.dispatch = self.dispatch
            return t
        if top == "json":
            return self.json
        if top == "skrf":
            return self.skrf
        if top == "matplotlib":
            return types.ModuleType("matplotlib")
        return __import__(name, globals, locals, fromlist, level)


# ------------------------------------------------------------------ coverage
EXECUTED = set()
_TOOL = 3


def start_monitoring():
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, "verif")
    except ValueError:
        return

    def on_start(code, off):
        if code.co_filename.startswith(SRC):
            EXECUTED.add("%s:%s" % (os.path.relpath(code.co_filename, SRC), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(_TOOL, mon.events.PY_START, on_start)
    mon.set_events(_TOOL, mon.events.PY_START)
