"""Harness API: one function, run twice.

Symbolic mode: every input is a solver variable, the real source is executed
under the engine, all feasible paths are explored and every `check` becomes an
SMT query.  Replay mode: the same function runs on concrete numbers (a solver
model) against the unmodified project code with real numpy.
"""
import fnmatch
import hashlib
import importlib
import json
import math
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import numpy as np

from . import sym, npshim, loader
from .sym import S, C, B, Ctx, set_ctx, to_s, to_b, run_solver, STATS, SymUnsupported, Inconclusive, PathAbort
from .z3load import z3

RTOL = 1e-6
FLOOR = 1e-2        # natural magnitude of the harness inputs: guards against cancellation to zero


class AssumeFailed(BaseException):
    pass


class Stop(BaseException):
    """ends a harness path early (nothing more to check)"""


class Harness:
    def __init__(self, fn, quick, thorough, timeout, maxpaths, desc):
        self.fn, self.quick, self.thorough = fn, quick, thorough
        self.name = fn.__name__
        self.timeout = timeout
        self.maxpaths = maxpaths
        self.desc = desc or (fn.__doc__ or "").strip()

    def params(self, tier):
        if tier == "thorough":
            return list(self.quick) + [p for p in self.thorough if p not in self.quick]
        return list(self.quick)


def harness(quick=({},), thorough=(), timeout=400, maxpaths=3000, desc=None, witnesses=4):
    def deco(fn):
        h = Harness(fn, list(quick), list(thorough), timeout, maxpaths, desc)
        h.witnesses = witnesses
        g = sys._getframe(1).f_globals
        g.setdefault("HARNESSES", []).append(h)
        return fn
    return deco


def pname(params):
    return ",".join("%s=%s" % (k, v) for k, v in sorted(params.items())) or "-"


def _z3frac(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    raise ValueError("model value %s" % v)


# --------------------------------------------------------------------------
class Base:
    def rng(self, tag=""):
        h = hashlib.sha256(("%s/%s/%s" % (self.seed, self.key, tag)).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def const(self, tag, lo=0.25, hi=4, den=8, nonzero=True):
        """seeded rational constant (same in both modes)"""
        r = self.rng("const:" + tag)
        a, b = int(math.ceil(lo * den)), int(math.floor(hi * den))
        while True:
            k = r.randint(a, b)
            if k or not nonzero:
                return self.num(Fraction(k, den))

    def const_arr(self, tag, shape, **k):
        o = [self.const("%s%s" % (tag, ix), **k) for ix in np.ndindex(*shape)]
        return self.array(np.array(o, dtype=object).reshape(shape).tolist())

    def const_spd(self, tag, n, off=True, den=8, scale=1):
        """symmetric, strictly diagonally dominant, rational"""
        r = self.rng("spd:" + tag)
        M = [[Fraction(0)] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                if off:
                    M[i][j] = M[j][i] = Fraction(r.choice([-3, -2, -1, 1, 2, 3]), den)
        for i in range(n):
            M[i][i] = sum(abs(M[i][j]) for j in range(n)) + Fraction(r.randint(den, 3 * den), den)
        return self.array([[self.num(x * scale) for x in row] for row in M])

    def const_full(self, tag, n, den=8):
        """non-symmetric diagonally dominant, rational"""
        r = self.rng("full:" + tag)
        M = [[Fraction(r.choice([-3, -2, -1, 1, 2, 3]), den) for _ in range(n)] for _ in range(n)]
        for i in range(n):
            M[i][i] = sum(abs(M[i][j]) for j in range(n)) + Fraction(r.randint(den, 3 * den), den)
        return self.array([[self.num(x) for x in row] for row in M])

    def pos(self, name, **k):
        return self.real(name, sign='+', **k)

    def nonneg(self, name, **k):
        return self.real(name, sign='0+', **k)

    def reals(self, name, shape, sign=None, **k):
        if isinstance(shape, int):
            shape = (shape,)
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            o[ix] = self.real("%s[%s]" % (name, ",".join(map(str, ix))), sign=sign, **k)
        return self.array(o.tolist()) if o.size else self.np.zeros(shape)

    def symm(self, name, n):
        o = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                o[i][j] = o[j][i] = self.real("%s[%d,%d]" % (name, i, j), sign='+' if i == j else None)
        return o

    def spd(self, name, n, dominant=False):
        """symbolic symmetric positive definite matrix"""
        o = self.symm(name, n)
        if dominant:
            for i in range(n):
                s = self.num(0)
                for j in range(n):
                    if j != i:
                        s = s + abs(o[i][j])
                self.assume(o[i][i] > s)
        else:
            for m in range(2, n + 1):
                self.assume(_det([r[:m] for r in o[:m]]) > 0)
        return self.array(o)

    def choice(self, name, seq):
        return seq[self.int(name, 0, len(seq) - 1)]

    def perm(self, name, seq):
        seq = list(seq)
        out = []
        while seq:
            k = self.int("%s.%d" % (name, len(out)), 0, len(seq) - 1) if len(seq) > 1 else 0
            out.append(seq.pop(k))
        return out

    def array(self, x):
        return self.np.array(x, dtype=float)

    def vec(self, *x):
        return self.array(list(x))

    def allow_nan(self):
        """array divisions by zero give inf or nan, which the property does not look at"""

    def check_true(self, cond, label):
        self.check(cond, label)

    def fail(self, label):
        self.check(False, label)

    def raises(self, fn, exc=(Exception,)):
        """True if fn() raises one of exc"""
        try:
            fn()
        except exc:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return True
        return False


def _det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    r = 0
    for j in range(n):
        m = [row[:j] + row[j + 1:] for row in M[1:]]
        t = M[0][j] * _det(m)
        r = r + t if j % 2 == 0 else r - t
    return r


# --------------------------------------------------------------------------
class SymW(Base):
    symbolic = True

    def __init__(self, ctx, seed, key, limits):
        self.ctx, self.seed, self.key = ctx, seed, key
        self.np = npshim.NP
        self.world = loader.SymWorld()
        self.candidates = []
        self.scales = {}
        self.nchecks = 0
        self.nf = 0             # discharged with an empty difference
        self.smt = 0            # discharged by an SMT query
        self.funcs = {}
        self.labels = {}
        self.limits = limits
        loader.SET_ORDER["choose"] = None

    def mod(self, name):
        return self.world.load("src." + name)

    def num(self, x):
        return to_s(x)

    def frac(self, a, b=1):
        return S.c(Fraction(a, b))

    def real(self, name, sign=None, lo=None, hi=None):
        v = self.ctx.new_var(name, sign, kind="input", lo=lo, hi=hi)
        r = self.ctx.s_var(v)
        self.ctx.inputs[name] = r
        return r

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self.ctx.new_var(name, None, kind="int", lo=lo, hi=hi, integer=True)
        r = self.ctx.s_var(v)
        self.ctx.inputs[name] = r
        return sym.concretize_int(r)

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def func(self, name):
        tab = self.funcs.setdefault(name, {})
        ctx = self.ctx

        def lookup(t):
            t = to_s(t)
            k = t.key()
            if k not in tab:
                v = ctx.new_var("%s@%d" % (name, len(tab)), None, kind="input")
                r = ctx.s_var(v)
                tab[k] = (t, r)
            return tab[k][1]
        return lambda t: lookup(t)

    def assume(self, cond, text=None):
        self.ctx.assume(to_b(cond) if not isinstance(cond, (list, tuple)) else sym.b_and(list(cond)), text)

    def b_and(self, *c):
        return sym.b_and([to_b(x) for x in c])

    def b_or(self, *c):
        return sym.b_or([to_b(x) for x in c])

    def ite(self, c, a, b):
        return sym.ite(to_b(c), a, b)

    def allow_nan(self):
        self.ctx.nan_division = True

    def text(self, parts):
        """whitespace separated text field; numbers may be symbolic"""
        return SymText(parts)

    def json_file(self, d):
        name = "/nonexistent/input%d.json" % len(self.world.files)
        self.world.files[name] = d
        return name

    def read_json(self, name):
        """what the code wrote to a file"""
        def keys(d):
            if isinstance(d, dict):
                return {k if isinstance(k, str) else json.dumps(k): keys(v) for k, v in d.items()}
            return [keys(v) for v in d] if isinstance(d, (list, tuple)) else d
        return keys(self.world.files[name])

    def set_order(self, name):
        """hash-order of sets becomes a symbolic choice"""
        cnt = [0]
        memo = {}

        def choose(seq):
            try:
                key = tuple(sorted(map(str, seq)))
            except Exception:
                key = None
            if key not in memo:
                memo[key] = self.perm("%s%d" % (name, cnt[0]), seq)
                cnt[0] += 1
            return list(memo[key])
        loader.SET_ORDER["choose"] = choose

    def out(self, arr):
        """name computed results by fresh variables tied to them by exact
        equations, so that the solver (not only the normal form) decides the
        obligations stated over them"""
        c = self.ctx
        a = npshim.NP.array(arr, copy=True)
        flat = a.view(np.ndarray)
        if flat.dtype != object:
            return a
        for ix in np.ndindex(*flat.shape):
            x = flat[ix]
            if not isinstance(x, S) or len(x.num) <= 2 and not x.den:
                continue
            memo = c.memo.setdefault("out", {})
            k = x.key()
            if k not in memo:
                v = c.new_var(None, kind="out")
                c.outdefs[v.id] = x
                memo[k] = c.s_var(v)
            flat[ix] = memo[k]
        return a

    def _out_defs(self, vs):
        """z3 definitions of the output variables in vs, and the other vars"""
        c = self.ctx
        exprs, rest = [], set()
        for v in vs:
            x = c.outdefs.get(v)
            if x is None:
                rest.add(v)
            else:
                exprs.append(sym.p_z3(x.den_poly()) * c.vars[v].z3 == sym.p_z3(x.num))
                rest |= x.vars()
        return exprs, rest

    def _solve_out(self, ds):
        """try to show all differences zero by SMT over the named outputs"""
        c = self.ctx
        vs = set()
        for d in ds:
            vs |= d.vars()
        exprs, rest = self._out_defs(vs)
        facts = c.slice(rest)
        size = sum(len(c.outdefs[v].num) for v in vs if v in c.outdefs)
        if size > 4000:
            return False
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*facts)
        s.add(*exprs)
        s.add(z3.Or([sym.p_z3(d.num) != 0 for d in ds]))
        t0 = time.time()
        r = s.check()
        STATS.queries += 1
        STATS.time += time.time() - t0
        return r == z3.unsat

    # ---- obligations
    def check(self, cond, label, _n=1):
        c = self.ctx
        if c.sticky is not None:
            raise c.sticky
        self.nchecks += _n
        self.labels[label] = self.labels.get(label, 0) + _n
        b = to_b(cond) if not isinstance(cond, np.ndarray) else npshim.f_all(cond)
        b = to_b(b)
        neg = ~b
        if neg.val is False:
            self.nf += _n
            return
        self._query(neg, label, _n)

    def _query(self, neg, label, n=1, diffs=None):
        c = self.ctx
        if any(l == label for l, _, _ in self.candidates):
            return
        if neg.val is True:
            self.candidates.append((label, None, None))
            return
        sl = c.slice(neg.vars)
        r, _ = run_solver(sl + [neg.z3()], has_int=c.slice_int)
        if r == "unknown":
            raise c.inconclusive("obligation %r: solver unknown" % label)
        if r == "sat":
            wide = c.slice(neg.vars, wide=True)
            if len(wide) > len(sl):
                r, _ = run_solver(wide + [neg.z3()], has_int=c.slice_int)
        if r == "unsat":
            self.smt += n
            return
        self.candidates.append((label, neg, diffs))

    def check_eq(self, a, b, label, scale=None, tol=None):
        c = self.ctx
        if c.sticky is not None:
            raise c.sticky
        aa, bb = _flat(a), _flat(b)
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape != b.shape:
            self.check(False, label + ":shape")
            return
        if len(bb) == 1 and len(aa) > 1:
            bb = bb * len(aa)
        if len(aa) != len(bb):
            self.check(False, label + ":shape")
            return
        self.nchecks += len(aa)
        self.labels[label] = self.labels.get(label, 0) + len(aa)
        bad = []
        diffs = []
        confirm = []
        nz = 0
        named = []
        for x, y in zip(aa, bb):
            x, y = npshim.sanf(x), npshim.sanf(y)
            if isinstance(x, float) or isinstance(y, float):   # inf / nan
                if x == y:
                    continue
                bad.append(B(True))
                continue
            if not isinstance(x, (S, C, B)) or not isinstance(y, (S, C, B)):
                bad.append(B(not (x == y)))
                continue
            if isinstance(x, B):
                x = x._s()
            if isinstance(y, B):
                y = y._s()
            xs = [(x.re, C.of(y).re), (x.im, C.of(y).im)] if isinstance(x, C) else (
                [(x, y.re), (S.c(0), y.im)] if isinstance(y, C) else [(x, y)])
            for p, q in xs:
                d = p - q
                if d.num and c.outdefs:
                    t = {v: c.outdefs[v] for v in d.vars() if v in c.outdefs}
                    if t:
                        named.append((d, t))
                        continue
                if d.num:
                    diffs.append(d)
                if not d.num:
                    # equal as exact rational functions: let the solver confirm
                    # the un-subtracted identity while it is of moderate size
                    w = len(p.num) + len(q.num)
                    if not p.is_const() and 2 <= w <= 60 and not (p.num == q.num and p.den == q.den and len(p.num) <= 1):
                        confirm.append((p, q, w))
                    else:
                        nz += 1
                else:
                    bad.append(d != 0)
        for d, t in named:
            if c.out_tries < 3 and self._solve_out([d]):
                self.smt += 1
                continue
            c.out_tries += 1
            e = d.subst(t)
            if e.num:
                diffs.append(e)
                bad.append(e != 0)
            else:
                nz += 1
        # solver confirmation of identities
        confirm.sort(key=lambda t: t[2])
        budget = 600
        todo = []
        for p, q, w in confirm:
            if w <= budget:
                budget -= w
                todo.append((p, q))
            else:
                nz += 1
        if todo:
            e = []
            for p, q in todo:
                l = p.z3num_over(q) if hasattr(p, "z3num_over") else None
                e.append(l if l is not None else (sym.p_z3(p.num) * sym.p_z3(q.den_poly()) !=
                                                  sym.p_z3(q.num) * sym.p_z3(p.den_poly())))
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(z3.Or(e))
            t0 = time.time()
            r = s.check()
            STATS.queries += 1
            STATS.time += time.time() - t0
            if r == z3.sat:
                # identities modulo the definitions of square roots and sines
                t0 = time.time()
                s.add(c.all_cons())
                r = s.check()
                STATS.queries += 1
                STATS.time += time.time() - t0
            if r == z3.unsat:
                self.smt += len(todo)
            elif r == z3.sat:
                raise c.inconclusive("normal form and solver disagree on %r" % label)
            else:
                nz += len(todo)
        self.nf += nz
        if bad:
            neg = sym.b_or(bad)
            if neg.val is False:
                self.nf += len(bad)
                return
            if len(bad) == len(diffs):
                self.scales[label] = float(scale) if scale is not None else FLOOR
            self._query(neg, label, len(bad), diffs)


class SymText(str):
    def __new__(cls, parts):
        o = str.__new__(cls, " ".join(str(p) if not isinstance(p, S) else "0.0" for p in parts))
        o.parts = parts
        return o

    def split(self, sep=None, maxsplit=-1):
        if sep is not None and sep != " ":
            raise sym.CTX.unsupported("split")
        out = []
        for p in self.parts:
            if isinstance(p, S) and not p.is_const():
                t = loader.SymStr("0.0")
                t.val = p
                out.append(t)
            elif isinstance(p, S):
                t = loader.SymStr(repr(float(p.const())))
                t.val = p
                out.append(t)
            else:
                out.append(str(p))
        return out

    def __deepcopy__(self, memo):
        return self


def _flat(x):
    if isinstance(x, np.ndarray):
        return list(x.view(np.ndarray).flat) if x.dtype == object else list(x.flat)
    if isinstance(x, (list, tuple)):
        out = []
        for v in x:
            out.extend(_flat(v))
        return out
    return [x]


# --------------------------------------------------------------------------
class RealW(Base):
    """replay on the unmodified code"""
    symbolic = False

    def __init__(self, values, seed, key, scratch):
        self.v = values
        self.seed, self.key = seed, key
        self.np = np
        self.failures = []      # (label, relative error)
        self.scratch = scratch
        self.nfile = 0
        self.funcs = values.get("__funcs__", {})
        self.checked = 0
        self.set_orders = None
        # rounding grows with the inputs: beyond the ordinary range the floor of a comparison does too
        m = max([abs(x) for k, x in values.items() if k != "__funcs__" and isinstance(x, (int, float))] + [0])
        self.big = max(1.0, m / 1e3)

    def mod(self, name):
        return importlib.import_module("src." + name)

    def num(self, x):
        return float(Fraction(x))

    def frac(self, a, b=1):
        return float(Fraction(a, b))

    def out(self, arr):
        return np.array(arr, copy=True)

    def real(self, name, sign=None, lo=None, hi=None):
        if name not in self.v:
            if lo is not None and hi is not None:
                self.v[name] = float(lo + hi) / 2
            else:
                self.v[name] = float(Fraction(self.rng("default:" + name).randint(4, 24), 8))
        x = float(self.v[name])
        if (sign == '+' and x <= 0) or (sign == '0+' and x < 0) or \
                (lo is not None and x < float(lo) - 1e-9) or (hi is not None and x > float(hi) + 1e-9):
            raise AssumeFailed("range of " + name)
        return x

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        k = int(round(float(self.v.get(name, lo))))
        return min(max(k, lo), hi)

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def func(self, name):
        tab = self.funcs.get(name, [])

        def f(t):
            t = float(t)
            best, bd = None, None
            for tt, val in tab:
                d = abs(tt - t)
                if bd is None or d < bd:
                    best, bd = val, d
            if best is None:
                return 0.0
            if bd > 1e-6 * max(1.0, abs(t)):
                return 0.0
            return float(best)
        return lambda t: f(t)

    def assume(self, cond, text=None):
        cs = list(cond) if isinstance(cond, (list, tuple)) else [cond]
        if not all(bool(np.all(c)) for c in cs):
            raise AssumeFailed(text or "")

    def b_and(self, *c):
        return all(bool(x) for x in c)

    def b_or(self, *c):
        return any(bool(x) for x in c)

    def ite(self, c, a, b):
        return a if c else b

    def text(self, parts):
        return " ".join(repr(float(p)) if isinstance(p, (float, Fraction)) else str(p) for p in parts)

    def json_file(self, d):
        name = os.path.join(self.scratch, "input%d.json" % self.nfile)
        self.nfile += 1
        with open(name, "w") as f:
            json.dump(d, f)
        return name

    def read_json(self, name):
        with open(os.path.join(self.scratch, name)) as f:
            return json.load(f)

    def set_order(self, name):
        """replay patches nothing: it runs until a string-hash seed gives the
        wanted order is not possible in-process, so sets are replaced by an
        ordered set in the modules under replay"""
        cnt = [0]
        memo = {}

        def choose(seq):
            key = tuple(sorted(map(str, seq)))
            if key not in memo:
                memo[key] = self.perm("%s%d" % (name, cnt[0]), seq)
                cnt[0] += 1
            return list(memo[key])
        loader.SET_ORDER["choose"] = choose
        for n, m in list(sys.modules.items()):
            if n == "src" or n.startswith("src."):
                m.__dict__["set"] = loader.OSet
                self.set_orders = True

    def check(self, cond, label, _n=1):
        self.checked += 1
        if not bool(np.all(cond)):
            self.failures.append((label, 1.0))

    def check_eq(self, a, b, label, scale=None, tol=None):
        self.checked += 1
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape != b.shape:
            self.failures.append((label + ":shape", 1.0))
            return
        aa, bb = _flat(a), _flat(b)
        if len(bb) == 1 and len(aa) > 1:
            bb = bb * len(aa)
        if len(aa) != len(bb):
            self.failures.append((label + ":shape", 1.0))
            return
        if not aa:
            return
        try:
            aa = np.array([complex(x) for x in aa])
            bb = np.array([complex(x) for x in bb])
        except (TypeError, ValueError):
            if any(x != y for x, y in zip(aa, bb)):
                self.failures.append((label, 1.0))
            return
        if not np.all(np.isfinite(aa) & np.isfinite(bb)):
            same = np.all((aa == bb) | (np.isfinite(aa) & np.isfinite(bb)))
            if not same:
                self.failures.append((label, 1.0))
            return
        sc = max(np.max(np.abs(aa)), np.max(np.abs(bb)), float(scale) if scale is not None else FLOOR * self.big)
        if sc == 0:
            return
        err = float(np.max(np.abs(aa - bb)) / sc)
        if err > (tol or RTOL):
            self.failures.append((label, err))


# --------------------------------------------------------------------------
def ensure_real_path():
    p = os.path.join(loader.REPO, "python")
    if p not in sys.path:
        sys.path.insert(0, p)
    sys.dont_write_bytecode = True
    import matplotlib
    matplotlib.use("Agg")


def own_fault(e):
    """an attribute or name the harness itself (not the project) failed to find"""
    if not isinstance(e, (AttributeError, ImportError)):
        return False
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and os.sep + "checks" + os.sep in tb[-1].filename


def replay(h, params, values, seed, key):
    """run harness h on concrete values; returns (status, failures)"""
    ensure_real_path()
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    old = os.getcwd()
    old_empty = np.empty

    def junk_empty(shape, dtype=float, *a, **k):
        r = old_empty(shape, dtype, *a, **k)
        if r.dtype.kind in "fc":
            r.fill(-77.125)
        return r
    W = RealW(dict(values), seed, key, scratch)
    try:
        os.chdir(scratch)
        np.empty = junk_empty
        loader.SET_ORDER["choose"] = None
        import warnings
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try:
                h.fn(W, **params)
            except Stop:
                pass
            except AssumeFailed as e:
                return "assume", [("assume", 0.0)]
            except Exception as e:
                if own_fault(e):
                    return "assume", [("harness", 0.0)]
                W.failures.append(("exception:%s" % type(e).__name__, 1.0))
                W.exc = traceback.format_exc()
                return "fail", W.failures
    finally:
        np.empty = old_empty
        loader.SET_ORDER["choose"] = None
        if W.set_orders:
            for n, m in list(sys.modules.items()):
                if (n == "src" or n.startswith("src.")) and "set" in m.__dict__:
                    del m.__dict__["set"]
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)
    return ("fail" if W.failures else "ok"), W.failures


def model_values(ctx, W, m, angles=True):
    vals = {}
    for v in ctx.vars:
        if v.kind in ("input", "int"):
            e = m.eval(v.z3, model_completion=True)
            try:
                vals[v.name] = float(_z3frac(e))
            except ValueError:
                vals[v.name] = 1.0
    # angles follow from the values chosen for their sine and cosine
    for v in ctx.vars:
        if angles and v.kind == "cos" and v.info and not v.info[1].den and len(v.info[1].num) == 1:
            (mon, q), = v.info[1].num.items()
            xs = [ctx.vars[k] for k, e in mon if e == 1]
            if not xs or len(xs) != len(mon) or any(x.name not in vals for x in xs) or v.info[1].key() not in ctx.trig:
                continue
            try:
                c, s = (float(_z3frac(m.eval(e.z3(), model_completion=True))) for e in ctx.trig[v.info[1].key()])
            except ValueError:
                continue
            rest = float(q)
            for x in xs[:-1]:
                rest *= vals[x.name]
            if not (c or s) or not rest:
                continue
            a = math.atan2(s, c)
            if len(xs) > 1 and a * rest * vals[xs[-1].name] < 0:
                a += math.copysign(2 * math.pi, -a)
            if xs[-1].sign == "+" and a / rest <= 0:
                a += math.copysign(2 * math.pi, rest)
            vals[xs[-1].name] = a / rest
    fn = {}
    for name, tab in W.funcs.items():
        rows = []
        for k, (t, r) in tab.items():
            try:
                tv = float(_z3frac(m.eval(t.z3(), model_completion=True)))
                rv = float(_z3frac(m.eval(r.z3(), model_completion=True)))
            except ValueError:
                continue
            rows.append((tv, rv))
        fn[name] = rows
    vals["__funcs__"] = fn
    return vals


def robust_cons(ctx, grid, lo=Fraction(1, 8), hi=8):
    out = []
    k = 0
    for v in ctx.vars:
        if v.kind != "input":
            continue
        x = v.z3
        L, H = z3.RealVal(str(lo)), z3.RealVal(str(hi))
        if v.sign in ('+',):
            out += [x >= L, x <= H]
        elif v.sign == '0+':
            out += [x <= H]
        else:
            out += [x <= H, x >= -H]
        if grid:
            n = z3.Int("grid!%d" % k)
            k += 1
            out.append(x == z3.ToReal(n) / grid)
    return out


def _pins(ctx, seed, funcs):
    """a value for every input"""
    rng = random.Random(seed)
    out = []
    for v in ctx.vars:
        if v.kind == "input" and (funcs or "@" not in v.name):
            q = Fraction(rng.randint(2, 40), 16)
            lo, hi = v.lo, v.hi
            if v.sign not in ("+", "0+") and rng.random() < 0.5 and (lo is None or lo < 0):
                q = -q
            if lo is not None and hi is not None:
                q = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(rng.randint(1, 15), 16)
            elif lo is not None and q < lo:
                q = Fraction(lo) + abs(q)
            elif hi is not None and q > hi:
                q = Fraction(hi) - abs(q)
            out.append((v, q))
    return out


def pinned(ctx, W, seed, funcs):
    """one value for every input: what remains follows from the definitions"""
    return [v.z3 == z3.RealVal(str(q)) for v, q in _pins(ctx, seed, funcs)]


def find_models(ctx, W, neg, diffs=None, budget=40):
    """yield candidate models, most replay-friendly first"""
    extra = [neg.z3()] if neg is not None and neg.val is None else []
    t0 = time.time()
    # everything that bears on the values handed to the real code (not, say, the eigenvalues of concrete matrices)
    need = {v.id for v in ctx.vars if v.kind in ("input", "int", "cos", "sin")}
    if neg is not None and neg.val is None:
        need |= set(neg.vars)
    for tab in W.funcs.values():
        for t, r in tab.values():
            need |= set(t.vars())
    base = ctx.slice(need, wide=True)
    plan = [(16, True, False), (None, True, False), (None, False, False)]
    tried, last = False, None
    if neg is None:
        # nothing is asked of the values: take ordinary ones rather than all zero
        for k in range(2):
            r, m = _quick(base + pinned(ctx, W, k, k % 2 == 0), 3)
            if r == "sat":
                yield model_values(ctx, W, m), True
    if diffs:
        plan = [(16, True, True), (None, True, True)] + plan
    for grid, rng, marg in plan:
        cons = robust_cons(ctx, grid) if rng else []
        if marg:
            try:
                big = sym.b_or([d._cmp(S.c(Fraction(1, 16)), ">") for d in diffs[:8]] +
                               [d._cmp(S.c(Fraction(-1, 16)), "<") for d in diffs[:8]])
                if big.val is False:
                    continue
                if big.val is None:
                    cons = cons + [big.z3()]
            except (SymUnsupported, Inconclusive):
                continue
        left = max(3, budget - (time.time() - t0))
        r, m = _quick(base + extra + cons, min(8 if grid else 15, left))
        if r == "sat":
            last = model_values(ctx, W, m)
            yield dict(last), rng
            plain = model_values(ctx, W, m, angles=False)
            if plain != last:
                yield plain, rng
        elif r == "unknown" and not tried:
            # search by value: the solver only has to follow the definitions
            tried = True
            for k in range(6):
                r, m = _quick(base + extra + pinned(ctx, W, k, k % 2 == 0), 4)
                if r == "sat":
                    last = model_values(ctx, W, m)
                    yield dict(last), True
                    break
    if neg is not None and last is not None and any(v.kind in ("cos", "exp") for v in ctx.vars):
        # the solver knows sines and exponentials only by their laws: other
        # values of the inputs may show on the real code what its model does not
        for k in range(6):
            yield dict(last, **{v.name: float(q) for v, q in _pins(ctx, k, False)}), True


def rounding_only(ctx, neg, diffs, scale):
    """no inputs of ordinary size (up to 1000) make any of the differences larger
    than a millionth of what the comparison on the real code would notice: what
    is left comes from the rounding of constants that the code works out"""
    eps = Fraction(1e-6 * RTOL * min(scale or FLOOR, FLOOR)).limit_denominator(10 ** 18) or Fraction(1, 10 ** 18)
    base = ctx.slice(set(neg.vars), wide=True) + robust_cons(ctx, None, Fraction(1, 1000), 1000)
    for d in diffs:
        try:
            big = sym.b_or([d._cmp(S.c(eps), ">"), d._cmp(S.c(-eps), "<")])
        except (SymUnsupported, Inconclusive):
            return False
        if big.val is False:
            continue
        if big.val is True or _quick(base + [big.z3()], 10)[0] != "unsat":
            return False
    return True


def _quick(exprs, secs):
    t0 = time.time()
    STATS.queries += 1
    s = z3.Solver()
    s.set("timeout", int(secs * 1000))
    s.add(*exprs)
    try:
        r = s.check()
        if r == z3.unknown:
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", int(secs * 1000))
            s.add(*exprs)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
    finally:
        STATS.time += time.time() - t0
    return str(r), (s.model() if r == z3.sat else None)


# --------------------------------------------------------------------------
def explore(h, params, seed, tier, deadline):
    """all paths of one harness instance"""
    key = "%s(%s)" % (h.name, pname(params))
    res = {"harness": h.name, "params": pname(params), "paths": 0, "checks": 0, "nf": 0, "smt": 0,
           "validated": 0, "witness_fail": [], "violations": [], "unreproduced": [],
           "inconclusive": None, "assumed": [], "labels": {}, "forks": 0, "sample": None,
           "vacuous_paths": 0}
    t_start = time.time()
    pending = [[]]
    q0 = STATS.queries
    s0 = STATS.time
    done_labels = set()
    tried_inconclusive = []
    wit = 0
    while pending:
        if time.time() > deadline:
            res["inconclusive"] = "time limit: %d unexplored path prefixes" % len(pending)
            break
        if res["paths"] >= h.maxpaths:
            res["inconclusive"] = "path limit: %d unexplored path prefixes" % len(pending)
            break
        prefix = pending.pop()
        ctx = Ctx(prefix)
        set_ctx(ctx)
        W = SymW(ctx, seed, key, {})
        exc = None
        aborted = False
        try:
            try:
                h.fn(W, **params)
            except Stop:
                pass
            except PathAbort:
                aborted = True
            if ctx.sticky is not None:
                raise ctx.sticky
        except (SymUnsupported, Inconclusive) as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if loader.SRC in f.filename]
            res["inconclusive"] = "%s: %s%s" % (type(e).__name__, e, (" at %s:%d" % (os.path.basename(where[-1].filename), where[-1].lineno)) if where else "")
            pending.extend(ctx.pending)
            # the path could not be decided; still run the real code on a
            # solver model of the part that was
            if len(tried_inconclusive) < 3:
                tried_inconclusive.append(1)
                ctx.sticky = None
                try:
                    for vals, rob in find_models(ctx, W, None, budget=15):
                        st, fails = replay(h, params, vals, seed, key)
                        if st == "fail" and rob and max(f[1] for f in fails) > 1e-3 and fails[0][0] not in done_labels:
                            done_labels.add(fails[0][0])
                            res["violations"].append({"label": fails[0][0], "values": vals, "fails": fails,
                                                      "exc": None, "by_witness": True})
                        break
                except (SymUnsupported, Inconclusive):
                    pass
            # keep exploring other paths: a violation elsewhere is still worth finding
            if len(pending) > 200 or time.time() > deadline:
                break
            res["paths"] += 1
            continue
        except AssumeFailed:
            aborted = True
        except Exception as e:
            if ctx.sticky is not None:
                res["inconclusive"] = "%s: %s" % (type(ctx.sticky).__name__, ctx.sticky)
                pending.extend(ctx.pending)
                continue
            if own_fault(e):
                res["inconclusive"] = "the harness could not reach the code under test: %s: %s" % (type(e).__name__, e)
                res["paths"] += 1
                continue
            exc = e
            exc_tb = traceback.format_exc()
            if os.environ.get("VERIF_DEBUG"):
                print(exc_tb, file=sys.stderr)
            W.candidates.append(("exception:%s" % type(e).__name__, None, None))
        finally:
            loader.SET_ORDER["choose"] = None
        pending.extend(ctx.pending)
        if aborted:
            res["vacuous_paths"] += 1
            continue
        res["paths"] += 1
        res["checks"] += W.nchecks
        res["nf"] += W.nf
        res["smt"] += W.smt
        for k, v in W.labels.items():
            res["labels"][k] = res["labels"].get(k, 0) + v
        for a in ctx.assumed:
            if a not in res["assumed"]:
                res["assumed"].append(a)
        # candidates -> replay on the real code
        for label, neg, diffs in W.candidates:
            if label in done_labels:
                continue
            got = None
            tried = 0
            for vals, rob in find_models(ctx, W, neg, diffs):
                tried += 1
                st, fails = replay(h, params, vals, seed, key)
                hit = [f for f in fails if f[0] == label] or [f for f in fails if f[0].startswith("exception:")]
                if st == "fail" and hit:
                    got = (vals, fails)
                    break
                if st == "fail" and fails and max(f[1] for f in fails) > 1e-3:
                    got = (vals, fails)
                    break
            if got:
                done_labels.add(label)
                res["violations"].append({"label": label, "values": got[0], "fails": got[1],
                                          "exc": exc_tb if exc is not None else None})
            else:
                if tried == 0:
                    r, _ = _quick(ctx.all_cons() + ([neg.z3()] if neg is not None and neg.val is None else []), 20)
                    if r == "unsat":
                        res["vacuous_paths"] += 1
                        continue
                if diffs and label in W.scales and rounding_only(ctx, neg, diffs, W.scales[label]):
                    res["smt"] += 1
                    res["rounding"] = res.get("rounding", 0) + 1
                    continue
                res["unreproduced"].append({"label": label, "models": tried,
                                            "exc": exc_tb[-1500:] if exc is not None else None})
        # vacuity witness, replayed on the real code
        if exc is None and not W.candidates and (wit < h.witnesses or res["paths"] % 25 == 0):
            ok = None
            for vals, rob in find_models(ctx, W, None, budget=12):
                st, fails = replay(h, params, vals, seed, key)
                if st == "ok":
                    ok = True
                    if res["sample"] is None:
                        res["sample"] = {k: v for k, v in list(vals.items())[:40]}
                    break
                if st == "fail":
                    ok = False
                    worst = max(f[1] for f in fails)
                    if rob and worst > 1e-3:
                        lab = fails[0][0]
                        if lab not in done_labels:
                            done_labels.add(lab)
                            res["violations"].append({"label": lab, "values": vals, "fails": fails,
                                                      "exc": None, "by_witness": True})
                        break
                    continue
            if ok:
                res["validated"] += 1
                wit += 1
            elif ok is None:
                r, _ = _quick(ctx.all_cons(), 20)
                if r == "unsat":
                    res["vacuous_paths"] += 1
                    res["paths"] -= 1
            else:
                res["witness_fail"].append("path %d" % res["paths"])
                wit += 1
        if len(res["violations"]) >= 6:
            res["inconclusive"] = None
            break
    res["queries"] = STATS.queries - q0
    res["solver_s"] = STATS.time - s0
    res["wall"] = time.time() - t_start
    if res["paths"] > 0 and res["validated"] == 0 and not res["violations"] and not res["inconclusive"]:
        res["inconclusive"] = "no path could be validated on the real code (vacuity guard)"
    if res["paths"] == 0 and not res["inconclusive"]:
        res["inconclusive"] = "no feasible path (vacuous harness)"
    if res["paths"] and not res["checks"] and not res["inconclusive"] and not res["violations"]:
        res["inconclusive"] = "no obligation reached"
    return res
