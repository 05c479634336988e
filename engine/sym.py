"""Symbolic reals, complexes and booleans, and the path-forking context.

Every number the code under test computes with is an `S`: an exact rational
function (polynomial over named real variables divided by a product of
registered factors).  Branching on a symbolic condition asks the SMT solver
which sides are feasible and forks.  Constraints, definitions (sqrt, exp,
floor, if-then-else, ...) and path conditions live in the context `CTX` and are
handed to z3 with every query.
"""
from fractions import Fraction
import functools
import math
import time as _time
import numbers

import numpy as _np

from .z3load import z3


class SymUnsupported(BaseException):
    """The engine cannot model an operation (never a verdict)."""


class Inconclusive(BaseException):
    """The solver answered unknown."""


class PathAbort(BaseException):
    """This path is infeasible / cut by an assumption."""


class SymDomainError(ArithmeticError):
    """Division by zero, sqrt of a negative, ... is feasible on this path."""


# --------------------------------------------------------------------------
# polynomials: dict monomial -> Fraction ; monomial = ((var, exp), ...) sorted
# --------------------------------------------------------------------------
ONE = ()


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        n = r.get(m)
        if n is None:
            r[m] = c
        else:
            n = n + c
            if n:
                r[m] = n
            else:
                del r[m]
    return r


def p_sub(a, b):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m)
        if n is None:
            r[m] = -c
        else:
            n = n - c
            if n:
                r[m] = n
            else:
                del r[m]
    return r


def p_scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


MAX_TERMS = 60000


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1:
        (m, c), = a.items()
        if not m:
            return p_scale(b, c)
    if len(b) == 1:
        (m, c), = b.items()
        if not m:
            return p_scale(a, c)
    if len(a) * len(b) > 4_000_000:
        raise CTX.unsupported("polynomial too large")
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = _mono_mul(ma, mb)
            c = ca * cb
            n = r.get(m)
            r[m] = c if n is None else n + c
    r = {m: c for m, c in r.items() if c}
    if CTX.sqvars:
        r = _reduce_sq(r)
    if len(r) > MAX_TERMS:
        raise CTX.unsupported("polynomial too large")
    return r


def _reduce_sq(r):
    sq = CTX.sqvars
    while True:
        bad = None
        for m in r:
            for v, e in m:
                if e >= 2 and v in sq:
                    bad = (m, v, e)
                    break
            if bad:
                break
        if not bad:
            return r
        m, v, e = bad
        c = r.pop(m)
        rest = tuple((w, f) for w, f in m if w != v)
        if e % 2:
            rest = _mono_mul(rest, ((v, 1),))
        t = {rest: c}
        q = sq[v]
        for _ in range(e // 2):
            t2 = {}
            for ma, ca in t.items():
                for mb, cb in q.items():
                    mm = _mono_mul(ma, mb)
                    t2[mm] = t2.get(mm, 0) + ca * cb
            t = t2
        r = {k: x for k, x in p_add(r, {k: x for k, x in t.items() if x}).items() if x}


def p_key(a):
    return frozenset(a.items())


def p_vars(a):
    s = set()
    for m in a:
        for v, _ in m:
            s.add(v)
    return s


def _mkey(m):
    return tuple((-v, e) for v, e in m)


def _mono_div(a, b):
    """a / b or None."""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x == 0:
            d.pop(v, None)
        else:
            d[v] = x
    return tuple(sorted(d.items()))


def p_divexact(a, b):
    """Exact quotient a/b, or None."""
    if not a:
        return {}
    lb = max(b, key=_mkey)
    cb = b[lb]
    r = dict(a)
    q = {}
    n = 0
    while r:
        lr = max(r, key=_mkey)
        m = _mono_div(lr, lb)
        if m is None:
            return None
        c = r[lr] / cb
        q[m] = c
        for mb, x in b.items():
            mm = _mono_mul(m, mb)
            y = r.get(mm, 0) - c * x
            if y:
                r[mm] = y
            else:
                r.pop(mm, None)
        n += 1
        if n > 400 or len(r) > 3000:
            return None
    return q


def p_sign(a):
    """'+','0+','-','0-' or None, from variable signs alone."""
    if not a:
        return '0+'
    pos = neg = False
    strict = False
    for m, c in a.items():
        st = True
        sg = 1 if c > 0 else -1
        for v, e in m:
            s = CTX.vars[v].sign
            if s == '+':
                continue
            if e % 2 == 0:
                st = False
                continue
            if s == '0+':
                st = False
                continue
            if s == '-':
                sg = -sg
                continue
            return None
        if sg > 0:
            pos = True
        else:
            neg = True
        if pos and neg:
            return None
        strict = strict or st
    if pos:
        return '+' if strict else '0+'
    return '-' if strict else '0-'


def p_z3(a):
    if not a:
        return z3.RealVal(0)
    ts = []
    for m, c in a.items():
        fs = []
        for v, e in m:
            x = CTX.vars[v].z3
            for _ in range(e):
                fs.append(x)
        cv = z3.RealVal(str(c)) if c != 1 or not fs else None
        if not fs:
            ts.append(cv)
            continue
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        if cv is not None:
            t = cv * t
        ts.append(t)
    if len(ts) == 1:
        return ts[0]
    return z3.Sum(ts)


class Var:
    __slots__ = ("id", "name", "sign", "z3", "kind", "lo", "hi", "info")

    def __init__(self, id, name, sign, z, kind, lo=None, hi=None, info=None):
        self.id, self.name, self.sign, self.z3 = id, name, sign, z
        self.kind, self.lo, self.hi, self.info = kind, lo, hi, info


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.paths = 0
        self.forks = 0
        self.max_query = 0.0


STATS = Stats()

import os as _os
TIMEOUT_MS = int(_os.environ.get("VERIF_Z3_TIMEOUT_MS", "60000"))


def run_solver(exprs, timeout=None, want_model=False, has_int=False):
    timeout = timeout or TIMEOUT_MS
    t0 = _time.time()
    STATS.queries += 1
    try:
        s = z3.Solver()
        s.set("timeout", int(min(timeout, 15000) if not has_int else timeout))
        s.add(*exprs)
        r = s.check()
        if r == z3.unknown and not has_int:
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", int(timeout))
            s.add(*exprs)
            r = s.check()
            if r == z3.unknown:
                s = z3.Then("simplify", "solve-eqs", "propagate-values", "smt").solver()
                s.set("timeout", int(timeout))
                s.add(*exprs)
                r = s.check()
    finally:
        dt = _time.time() - t0
        STATS.time += dt
        STATS.max_query = max(STATS.max_query, dt)
    if r == z3.unknown:
        STATS.unknown += 1
        return "unknown", None
    if r == z3.sat:
        return "sat", (s.model() if want_model else None)
    return "unsat", None


class Ctx:
    def __init__(self, prefix=()):
        self.vars = []
        self.by_name = {}
        self.cons = []          # (z3, frozenset vars, kind, defvar)
        self.factors = []       # (poly, key)
        self.factor_ix = {}
        self.sqvars = {}
        self.memo = {}
        self.prefix = list(prefix)
        self.trace = []         # decisions taken (bool)
        self.pending = []       # alternative prefixes
        self.sticky = None
        self.nonzero_cache = set()
        self.assumed = []       # textual list of side assumptions
        self.trig = {}
        self.has_int = False
        self.inputs = {}        # name -> S
        self.feas_cache = {}
        self.slice_int = False
        self.out_tries = 0
        self.assume_nonzero = False
        self.outdefs = {}       # output variable -> exact rational function

    # ---- errors
    def unsupported(self, msg):
        e = SymUnsupported(msg)
        if self.sticky is None:
            self.sticky = e
        return e

    def inconclusive(self, msg):
        e = Inconclusive(msg)
        if self.sticky is None:
            self.sticky = e
        return e

    # ---- variables
    def new_var(self, name, sign=None, kind="def", lo=None, hi=None, integer=False, info=None):
        i = len(self.vars)
        if name is None:
            name = "%s!%d" % (kind, i)
        if name in self.by_name:
            name = "%s!%d" % (name, i)
        if integer:
            zi = z3.Int(name)
            z = z3.ToReal(zi)
            self.has_int = True
        else:
            z = z3.Real(name)
        v = Var(i, name, sign, z, kind, lo, hi, info)
        self.vars.append(v)
        self.by_name[name] = v
        vs = frozenset([i])
        if sign == '+':
            self.cons.append((z > 0, vs, "def", i))
        elif sign == '0+':
            self.cons.append((z >= 0, vs, "def", i))
        elif sign == '-':
            self.cons.append((z < 0, vs, "def", i))
        if lo is not None:
            self.cons.append((z >= z3.RealVal(str(Fraction(lo))), vs, "def", i))
        if hi is not None:
            self.cons.append((z <= z3.RealVal(str(Fraction(hi))), vs, "def", i))
        return v

    def s_var(self, v):
        return S({((v.id, 1),): Fraction(1)})

    def define(self, var, b):
        if b.val is True:
            return
        self.cons.append((b.z3(), frozenset(b.vars | {var.id}), "def", var.id))

    def assume(self, b, text=None):
        b = to_b(b)
        if b.val is True:
            return
        if b.val is False:
            raise PathAbort("assumption false")
        self.cons.append((b.z3(), frozenset(b.vars), "assume", None))
        self.feas_cache.clear()
        if text:
            self.assumed.append(text)

    # ---- constraints slice
    def _support(self):
        """for every variable, the variables its definitions rest on"""
        by = {}
        for z, vs, kind, dv in self.cons:
            if kind == "def":
                by.setdefault(dv, set()).update(vs)
        memo = {}

        def close(v):
            if v not in memo:
                seen, todo = {v}, [v]
                while todo:
                    for w in by.get(todo.pop(), ()):
                        if w not in seen:
                            seen.add(w)
                            todo.append(w)
                memo[v] = seen
            return memo[v]
        return close

    def slice(self, need, wide=False):
        """the constraints that bear on some variables; with wide, also the
        path conditions over values computed from them"""
        need = set(need)
        close = self._support() if wide else None
        used = [False] * len(self.cons)
        out = []
        changed = True
        while changed:
            changed = False
            for k, (z, vs, kind, dv) in enumerate(self.cons):
                if used[k]:
                    continue
                if kind == "def":
                    ok = dv in need
                else:
                    ok = not need.isdisjoint(vs) or wide and any(not need.isdisjoint(close(v)) for v in vs)
                if ok:
                    used[k] = True
                    out.append(z)
                    if not vs <= need:
                        need |= vs
                        changed = True
        self.slice_int = self.has_int and any(self.vars[v].kind in ("int", "floor") for v in need)
        return out

    def all_cons(self):
        return [c[0] for c in self.cons]

    def feasible(self, b):
        if b.val is not None:
            return b.val
        sl = self.slice(b.vars)
        r, _ = run_solver(sl + [b.z3()], has_int=self.slice_int)
        if r == "unknown":
            raise self.inconclusive("feasibility query unknown: %s" % str(b.z3())[:200])
        return r == "sat"

    def decide(self, b):
        if b.val is not None:
            return b.val
        if b._neg is not None:
            return not self.decide(b._neg)
        if self.sticky is not None:
            raise self.sticky
        key = b.key()
        if key in self.feas_cache:
            return self.feas_cache[key]
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.trace.append(d)
            self._commit(b, d)
            return d
        if n > 4000:
            raise self.inconclusive("too many decisions on one path")
        t = self.feasible(b)
        f = self.feasible(~b) if t else True
        if t and f:
            self.pending.append(self.trace + [False])
            STATS.forks += 1
            d = True
        else:
            d = t
        self.trace.append(d)
        self._commit(b, d)
        return d

    def _commit(self, b, d):
        c = b if d else ~b
        self.cons.append((c.z3(), frozenset(c.vars), "pc", None))
        self.feas_cache[b.key()] = d

    def model(self, extra, timeout=None):
        r, m = run_solver(self.all_cons() + list(extra), timeout=timeout, want_model=True,
                          has_int=self.has_int)
        return r, m

    # ---- factors
    def factor(self, poly):
        """Register poly (normalised) as denominator factor; return id."""
        k = p_key(poly)
        i = self.factor_ix.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(poly)
            self.factor_ix[k] = i
        return i

    def require_nonzero(self, poly, why="division", assume=False):
        k = p_key(poly)
        if k in self.nonzero_cache:
            return
        sg = p_sign(poly)
        if sg in ('+', '-'):
            self.nonzero_cache.add(k)
            return
        b = B(None, lambda: p_z3(poly) == 0, frozenset(p_vars(poly)), ("eq0", k))
        if assume or self.assume_nonzero:
            self.nonzero_cache.add(k)
            self.cons.append((p_z3(poly) != 0, frozenset(p_vars(poly)), "assume", None))
            self.assumed.append("nonzero: %s" % why)
            return
        if self.decide(b):
            raise SymDomainError("%s by zero" % why)
        self.nonzero_cache.add(k)


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c
    import sys
    sys.modules[__name__].CTX = c


# --------------------------------------------------------------------------
class B:
    """Symbolic boolean."""
    __slots__ = ("val", "_f", "vars", "_k", "_z", "_neg")

    def __init__(self, val, f=None, vars=frozenset(), key=None, neg=None):
        self.val = val
        self._neg = neg
        self._f = f
        self.vars = vars
        self._k = key
        self._z = None

    def z3(self):
        if self._z is None:
            if self.val is not None:
                self._z = z3.BoolVal(self.val)
            else:
                self._z = self._f()
        return self._z

    def key(self):
        if self._k is None:
            self._k = ("b", id(self))
            CTX.memo[("keep", id(self))] = self   # keep alive
        return self._k

    def __bool__(self):
        return CTX.decide(self)

    def __invert__(self):
        if self.val is not None:
            return B(not self.val)
        if self._neg is not None:
            return self._neg
        return B(None, lambda: z3.Not(self.z3()), self.vars, ("not", self.key()), self)

    def __and__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        o = to_b(o)
        if self.val is False or o.val is False:
            return B(False)
        if self.val is True:
            return o
        if o.val is True:
            return self
        return B(None, lambda: z3.And(self.z3(), o.z3()), self.vars | o.vars, ("and", self.key(), o.key()))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        o = to_b(o)
        if self.val is True or o.val is True:
            return B(True)
        if self.val is False:
            return o
        if o.val is False:
            return self
        return B(None, lambda: z3.Or(self.z3(), o.z3()), self.vars | o.vars, ("or", self.key(), o.key()))
    __ror__ = __or__

    def __xor__(self, o):
        o = to_b(o)
        return (self & ~o) | (~self & o)
    __rxor__ = __xor__

    def logical_not(self):
        return ~self

    def _s(self):
        return ite(self, S.c(1), S.c(0))

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, B)):
            return ~(self ^ to_b(o))
        return self._s() == o

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return 0

    def _ite_mul(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, B):
            return (self & o)._s()
        if isinstance(o, C):
            return C(self._ite_mul(o.re), self._ite_mul(o.im))
        o = to_s(o)
        if o is None:
            return NotImplemented
        return ite(self, o, S.c(0))
    __mul__ = _ite_mul
    __rmul__ = _ite_mul

    def __add__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return self._s() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._s() - o

    def __rsub__(self, o):
        return to_s(o) - self._s()

    def __truediv__(self, o):
        return self._s() / o

    def __rtruediv__(self, o):
        return to_s(o) / self._s()

    def __neg__(self):
        return -self._s()

    def __lt__(self, o):
        return self._s() < o

    def __gt__(self, o):
        return self._s() > o

    def __le__(self, o):
        return self._s() <= o

    def __ge__(self, o):
        return self._s() >= o

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "B(%s)" % (self.val if self.val is not None else "sym")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def to_b(x):
    if isinstance(x, B):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return B(bool(x))
    if isinstance(x, S):
        return x != 0
    if isinstance(x, (int, float)):
        return B(bool(x))
    raise CTX.unsupported("to_b(%r)" % type(x))


def b_and(bs):
    bs = [to_b(b) for b in bs]
    if any(b.val is False for b in bs):
        return B(False)
    bs = [b for b in bs if b.val is not True]
    if not bs:
        return B(True)
    if len(bs) == 1:
        return bs[0]
    vs = frozenset().union(*[b.vars for b in bs])
    return B(None, lambda: z3.And([b.z3() for b in bs]), vs, ("and",) + tuple(b.key() for b in bs))


def b_or(bs):
    return ~b_and([~to_b(b) for b in bs])


# --------------------------------------------------------------------------
def _frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise CTX.unsupported("non-finite constant")
        return _snap(x)
    return _snap(float(x))


@functools.lru_cache(maxsize=65536)
def _snap(x):
    """the number a float stands for: exact when it has few significant bits,
    else the simple fraction or short decimal within its last two bits (1.0/3.0
    worked out in the code is the third that the reference divides by)"""
    f = Fraction(x)
    n = abs(f.numerator)
    if n < 1 << 30 and (f.denominator == 1 or n & 1):
        return f
    if n and f.denominator == 1 and (n & -n).bit_length() > 1 and (n // (n & -n)) < 1 << 30:
        return f
    tol = abs(f) / (1 << 51)
    if f.denominator > 1 << 20:
        g = f.limit_denominator(10000)
        if g and abs(g - f) <= tol:
            return g
        g = Fraction("%.12g" % x)
        if abs(g - f) <= tol:
            return g
    return f


def to_s(x):
    """number-like -> S, or None."""
    t = type(x)
    if t is S:
        return x
    if t is int or t is Fraction:
        return S({ONE: Fraction(x)} if x else {})
    if t is float:
        f = _frac(x)
        return S({ONE: f} if f else {})
    if t is B:
        return x._s()
    if isinstance(x, (bool, _np.bool_)):
        return S.c(int(x))
    if isinstance(x, _np.integer):
        return S.c(int(x))
    if isinstance(x, (_np.floating,)):
        return S.c(_frac(float(x)))
    if isinstance(x, _np.ndarray):
        return to_s(x.item()) if x.ndim == 0 and type(x) is _np.ndarray else None
    if isinstance(x, int):
        return S.c(int(x))
    if isinstance(x, float):
        return S.c(_frac(float(x)))
    if hasattr(x, "is_number") and hasattr(x, "free_symbols"):   # sympy number
        try:
            return S.from_sympy(x)
        except NameError:
            return None         # an expression in symbols of sympy's own
    return None


def _is_complex(x):
    return isinstance(x, (complex, _np.complexfloating))


class S:
    __slots__ = ("num", "den", "_sq")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den

    # --- construction
    @staticmethod
    def c(x):
        x = Fraction(x)
        return S({ONE: x} if x else {})

    @staticmethod
    def from_sympy(e):
        from . import sympyconv
        return sympyconv.to_s(e)

    # --- inspection
    def is_const(self):
        n = self.num
        return not self.den and (not n or (len(n) == 1 and ONE in n))

    def const(self):
        return self.num.get(ONE, Fraction(0))

    def vars(self):
        s = p_vars(self.num)
        for f, _ in self.den:
            s |= p_vars(CTX.factors[f])
        return s

    def key(self):
        return (p_key(self.num), self.den)

    def subst(self, table):
        """replace numerator variables by rational functions"""
        acc = S({})
        pw = {}
        plain = {}
        for m, c in self.num.items():
            hit = [(v, e) for v, e in m if v in table]
            if not hit:
                plain[m] = c
                continue
            t = S({tuple((v, e) for v, e in m if v not in table): c})
            for v, e in hit:
                if (v, e) not in pw:
                    pw[(v, e)] = table[v] ** e
                t = t * pw[(v, e)]
            acc = acc + t
        acc = acc + S(plain)
        return _cancel(S(*_attach(acc, self.den))) if self.den and acc.num else acc

    def den_poly(self):
        r = {ONE: Fraction(1)}
        for f, e in self.den:
            for _ in range(e):
                r = p_mul(r, CTX.factors[f])
        return r

    def z3(self):
        n = p_z3(self.num)
        if not self.den:
            return n
        return n / p_z3(self.den_poly())

    # --- arithmetic
    def __add__(self, o):
        if type(o) is not S:
            if isinstance(o, C) or _is_complex(o):
                return C(self) + o
            o = to_s(o)
            if o is None:
                return NotImplemented
        if not o.num:
            return self
        if not self.num:
            return o
        if self.den == o.den:
            n = p_add(self.num, o.num)
            if not n:
                return S({})
            if not self.den:
                return S(n)
            return _cancel(S(n, self.den))
        a, b, den = _common(self, o)
        n = p_add(a, b)
        if not n:
            return S({})
        return _cancel(S(n, den))
    __radd__ = __add__

    def __neg__(self):
        return S({m: -c for m, c in self.num.items()}, self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is not S:
            if isinstance(o, C) or _is_complex(o):
                return C(self) - o
            o = to_s(o)
            if o is None:
                return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if _is_complex(o):
            return C.of(o) - C(self)
        o = to_s(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if type(o) is not S:
            if isinstance(o, C) or _is_complex(o):
                return C(self) * o
            if isinstance(o, B):
                return o._ite_mul(self)
            o = to_s(o)
            if o is None:
                return NotImplemented
        if not self.num or not o.num:
            return S({})
        n1, n2 = self.num, o.num
        if not self.den and not o.den:
            return S(p_mul(n1, n2))
        # cross-cancel first
        a = _cancel(S(n1, o.den)) if o.den else S(n1)
        b = _cancel(S(n2, self.den)) if self.den else S(n2)
        den = _den_mul(a.den, b.den)
        n = p_mul(a.num, b.num)
        if not n:
            return S({})
        return S(n, den)
    __rmul__ = __mul__

    def inverse(self, why="division", assume=False):
        if not self.num:
            raise ZeroDivisionError("float division by zero")
        n = self.num
        top = S(self.den_poly()) if self.den else S.c(1)
        # split content
        if len(n) == 1:
            (m, c), = n.items()
            den = []
            for v, e in m:
                p = {((v, 1),): Fraction(1)}
                CTX.require_nonzero(p, why, assume)
                den.append((CTX.factor(p), e))
            r = S(p_scale(top.num, 1 / c), tuple(sorted(den)))
            return _cancel(r)
        # monomial content
        mc = None
        for m in n:
            d = dict(m)
            if mc is None:
                mc = d
            else:
                mc = {v: min(e, d[v]) for v, e in mc.items() if v in d}
            if not mc:
                break
        den = []
        if mc:
            mt = tuple(sorted(mc.items()))
            n = {_mono_div(m, mt): c for m, c in n.items()}
            for v, e in mt:
                p = {((v, 1),): Fraction(1)}
                CTX.require_nonzero(p, why, assume)
                den.append((CTX.factor(p), e))
        lead = max(n, key=_mkey)
        lc = n[lead]
        if lc != 1:
            n = p_scale(n, 1 / lc)
        CTX.require_nonzero(n, why, assume)
        den.append((CTX.factor(n), 1))
        r = S(p_scale(top.num, 1 / lc), tuple(sorted(den)))
        return _cancel(r)

    def __truediv__(self, o):
        if type(o) is not S:
            if isinstance(o, C) or _is_complex(o):
                return C(self) / o
            o = to_s(o)
            if o is None:
                return NotImplemented
        if o.is_const():
            k = o.const()
            if not k:
                raise ZeroDivisionError("float division by zero")
            return S(p_scale(self.num, 1 / k), self.den) if self.num else self
        return self * o.inverse()

    def __rtruediv__(self, o):
        if _is_complex(o):
            return C.of(o) / C(self)
        o = to_s(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, e):
        if isinstance(e, S):
            if e.is_const():
                e = e.const()
            else:
                raise CTX.unsupported("symbolic exponent")
        if isinstance(e, (_np.integer,)):
            e = int(e)
        if isinstance(e, (float, _np.floating, Fraction)):
            f = _frac(e)
            if f.denominator == 1:
                e = int(f)
            elif f.denominator == 2:
                r = self.sqrt()
                return r ** int(f.numerator)
            else:
                raise CTX.unsupported("fractional power")
        if isinstance(e, int):
            if e < 0:
                return (self ** (-e)).inverse("power") if not self.is_const() else S.c(1) / (self ** (-e))
            r = S.c(1)
            for _ in range(e):
                r = r * self
            return r
        return NotImplemented

    def __rpow__(self, o):
        raise CTX.unsupported("symbolic exponent")

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (to_s(o) / self).floor()

    def __mod__(self, o):
        o2 = to_s(o)
        if o2 is None:
            return NotImplemented
        q = (self / o2).floor()
        return self - o2 * q

    def __rmod__(self, o):
        return to_s(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    # --- numpy ufunc hooks (object loops call these)
    def sqrt(self):
        return s_sqrt(self)

    def exp(self):
        return s_exp(self)

    def conjugate(self):
        return self

    def cos(self):
        return trig_of(self)[0]

    def sin(self):
        return trig_of(self)[1]

    def tan(self):
        c, s = trig_of(self)
        return s / c

    def arccos(self):
        return s_arccos(self)

    def arctan(self):
        return s_arctan(self)

    def square(self):
        return self * self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return S.c(0)

    @property
    def evalf(self):
        return lambda *a, **k: self

    def item(self):
        return self

    def is_integer(self):
        if self.is_const():
            return self.const().denominator == 1
        return bool(self == self.floor())

    def __abs__(self):
        if self.is_const():
            return S.c(abs(self.const()))
        p, flip = self._sgn_poly()
        sg = p_sign(p)
        if sg in ('+', '0+'):
            return -self if flip else self
        if sg in ('-', '0-'):
            return self if flip else -self
        # |x| for canonical sign
        k = ("abs", self.key())
        k2 = ("abs", (-self).key())
        for kk in (k, k2):
            if kk in CTX.memo:
                return CTX.memo[kk]
        r = ite(self >= 0, self, -self)
        m = next(iter(r.num)) if len(r.num) == 1 else ()
        # a definition of its own, if neither sign was known
        if len(m) == 1 and m[0][1] == 1 and r.num != self.num and r.num != (-self).num:
            CTX.vars[m[0][0]].sign = '0+'
            CTX.vars[m[0][0]].info = ("abs", self)
        CTX.memo[k] = r
        return r
    fabs = __abs__
    absolute = __abs__

    def floor(self):
        if self.is_const():
            return S.c(math.floor(self.const()))
        if _is_int_valued(self):
            return self
        k = ("floor", self.key())
        if k in CTX.memo:
            return CTX.memo[k]
        v = CTX.new_var(None, kind="floor", integer=True)
        r = CTX.s_var(v)
        CTX.define(v, (r <= self) & (self < r + 1))
        CTX.memo[k] = r
        return r
    __floor__ = floor

    def ceil(self):
        return -((-self).floor())
    __ceil__ = ceil

    def trunc(self):
        return ite(self >= 0, self.floor(), self.ceil())

    def rint(self):
        f = (self + Fraction(1, 2)).floor()
        # round half to even
        if self.is_const():
            return S.c(round(self.const()))
        half = (self + Fraction(1, 2)) == f
        odd = (f / 2) != (f / 2).floor()
        return ite(half & odd, f - 1, f)

    def __round__(self, n=None):
        if n:
            k = 10 ** n
            return (self * k).rint() / k
        return self.rint()

    def sign(self):
        if self.is_const():
            c = self.const()
            return S.c((c > 0) - (c < 0))
        return ite(self > 0, S.c(1), ite(self < 0, S.c(-1), S.c(0)))

    # --- comparisons
    def _sgn_poly(self):
        """poly with the same sign as self up to flip."""
        n = self.num
        flip = False
        for f, e in self.den:
            if e % 2:
                p = CTX.factors[f]
                sg = p_sign(p)
                if sg == '+':
                    continue
                if sg == '-':
                    flip = not flip
                    continue
                n = p_mul(n, p)
        return n, flip

    def _cmp(self, o, op):
        if isinstance(o, C) or _is_complex(o):
            raise TypeError("complex comparison")
        if _is_inf(o):
            return B({"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False, "!=": True}[op])
        o2 = to_s(o)
        if o2 is None:
            return NotImplemented
        d = self - o2
        # sqrt-vs-sqrt: compare squares
        if op in ("<", "<=", ">", ">="):
            a, b = _as_root(self), _as_root(o2)
            if a is not None and b is not None:
                d = a - b
        if d.is_const():
            c = d.const()
            return B({"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0,
                      "==": c == 0, "!=": c != 0}[op])
        if op in ("==", "!="):
            p = d.num
            sg = p_sign(p)
            if sg in ('+', '-'):
                return B(op == "!=")
            k = ("eq0", p_key(_primitive(p)))
            b = B(None, lambda: p_z3(p) == 0, frozenset(p_vars(p)), k)
            return b if op == "==" else ~b
        p, flip = d._sgn_poly()
        if flip:
            p = {m: -c for m, c in p.items()}
        sg = p_sign(p)
        if op in (">", "<="):
            if sg == '+':
                return B(op == ">")
            if sg in ('-', '0-'):
                return B(op != ">")
        else:
            if sg == '-':
                return B(op == "<")
            if sg in ('+', '0+'):
                return B(op != "<")
        vs = frozenset(p_vars(p))
        p = _primitive(p)
        if op == ">" or op == "<=":
            b = B(None, lambda: p_z3(p) > 0, vs, ("gt0", p_key(p)))
            return b if op == ">" else ~b
        b = B(None, lambda: p_z3(p) < 0, vs, ("lt0", p_key(p)))
        return b if op == "<" else ~b

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if isinstance(o, C) or _is_complex(o):
            return C(self) == o
        r = self._cmp(o, "==")
        return r

    def __ne__(self, o):
        if isinstance(o, C) or _is_complex(o):
            return C(self) != o
        return self._cmp(o, "!=")

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self != 0)

    # --- concretisation
    def __index__(self):
        return concretize_int(self)

    def __int__(self):
        if self.is_const():
            return int(self.const())
        return concretize_int(self.trunc())

    def __trunc__(self):
        return self.__int__()

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise CTX.unsupported("float() of a symbolic value")

    def __complex__(self):
        if self.is_const():
            return complex(float(self.const()))
        raise CTX.unsupported("complex() of a symbolic value")

    def __repr__(self):
        if self.is_const():
            c = self.const()
            return str(c.numerator) if c.denominator == 1 else repr(float(c))
        return "S<%d terms>" % len(self.num)

    def __str__(self):
        return self.__repr__()

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _sympy_(self):
        from . import sympyconv
        return sympyconv.from_s(self)


numbers.Number.register(S)


def _attach(s, den):
    return s.num, _den_mul(s.den, den)


def _primitive(p):
    lead = max(p, key=_mkey)
    c = abs(p[lead])
    return p if c == 1 else {m: x / c for m, x in p.items()}


def _is_int_valued(s):
    if s.den:
        return False
    for m, c in s.num.items():
        if c.denominator != 1:
            return False
        for v, e in m:
            if CTX.vars[v].kind not in ("floor", "int"):
                return False
    return True


def concretize_int(s, limit=64):
    if s.is_const():
        c = s.const()
        if c.denominator != 1:
            raise TypeError("non-integer index %s" % c)
        return int(c)
    if not _is_int_valued(s):
        raise TypeError("'float' object cannot be interpreted as an integer")
    k = ("conc", s.key())
    if k in CTX.memo:
        return CTX.memo[k]
    for _ in range(limit):
        n = len(CTX.trace)
        if n < len(CTX.prefix):
            # recorded choice: the value is part of the decision
            d, v = CTX.prefix[n]
            CTX.trace.append((d, v))
            if CTX is not None:
                CTX._commit(s == v, d)
            if d:
                CTX.memo[k] = v
                return v
            continue
        sl = CTX.slice(s.vars())
        r, m = run_solver(sl, timeout=TIMEOUT_MS, want_model=True, has_int=True)
        if r == "unsat":
            raise PathAbort("infeasible")
        if r != "sat":
            raise CTX.inconclusive("concretisation")
        v = m.eval(s.z3(), model_completion=True)
        v = int(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        b = (s == v)
        if CTX.feasible(~b):
            CTX.pending.append(CTX.trace + [(False, v)])
            STATS.forks += 1
        CTX.trace.append((True, v))
        CTX._commit(b, True)
        CTX.memo[k] = v
        return v
    raise CTX.inconclusive("too many values in concretisation")


def _den_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for f, e in b:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(d.items()))


def _common(x, y):
    dx, dy = dict(x.den), dict(y.den)
    a, b = x.num, y.num
    den = {}
    for f in set(dx) | set(dy):
        ex, ey = dx.get(f, 0), dy.get(f, 0)
        e = max(ex, ey)
        den[f] = e
        p = CTX.factors[f]
        for _ in range(e - ex):
            a = p_mul(a, p)
        for _ in range(e - ey):
            b = p_mul(b, p)
    return a, b, tuple(sorted(den.items()))


def _cancel(s):
    if not s.den:
        return s
    if not s.num:
        return S({})
    n = s.num
    out = []
    for f, e in s.den:
        p = CTX.factors[f]
        if len(p) == 1:
            (m, _), = p.items()
            v = m[0][0]
            k = e
            for mm in n:
                x = 0
                for w, g in mm:
                    if w == v:
                        x = g
                        break
                if x < k:
                    k = x
                    if not k:
                        break
            if k:
                n = {_mono_div(mm, ((v, k),)): c for mm, c in n.items()}
                e -= k
        elif len(n) >= len(p) and len(n) < 400 and not (CTX.sqvars and any(v in CTX.sqvars for v in p_vars(p))):
            while e:
                if not p_vars(p) <= p_vars(n):
                    break
                q = p_divexact(n, p)
                if q is None:
                    break
                n = q
                e -= 1
        if e:
            out.append((f, e))
    return S(n, tuple(out))


def _as_root(s):
    """If s is c*sqrtvar (c>=0) or a nonneg constant, return its square."""
    if s.is_const():
        c = s.const()
        return S.c(c * c) if c >= 0 else None
    if s.den or len(s.num) != 1:
        return None
    (m, c), = s.num.items()
    if c < 0 or len(m) != 1 or m[0][1] != 1:
        return None
    v = m[0][0]
    if v in CTX.sqvars and CTX.vars[v].kind == "sqrt":
        return S(p_scale(CTX.sqvars[v], c * c))
    info = CTX.vars[v].info
    if isinstance(info, tuple) and info and info[0] == "abs":
        return info[1] * info[1] * (c * c)
    return None


def ite(b, x, y):
    b = to_b(b)
    if b.val is True:
        return x
    if b.val is False:
        return y
    if b._neg is not None:
        return ite(b._neg, y, x)
    if b.key() in CTX.feas_cache:
        return x if CTX.feas_cache[b.key()] else y
    if isinstance(x, C) or isinstance(y, C):
        x, y = C.of(x), C.of(y)
        return C(ite(b, x.re, y.re), ite(b, x.im, y.im))
    x, y = to_s(x), to_s(y)
    d = x - y
    if not d.num:
        return x
    k = ("ite", b.key(), x.key(), y.key())
    if k in CTX.memo:
        return CTX.memo[k]
    intv = _is_int_valued(x) and _is_int_valued(y)
    v = CTX.new_var(None, kind="int" if intv else "ite")
    r = CTX.s_var(v)
    CTX.define(v, (b & (r == x)) | (~b & (r == y)))
    CTX.memo[k] = r
    CTX.memo[("keepb", v.id)] = b
    return r


def _is_inf(x):
    return isinstance(x, (float, _np.floating)) and math.isinf(x)


def _finite(xs, far):
    """what decides an extreme among numbers some of which are infinite: a
    number, or the infinity that wins or that is all there is"""
    xs = list(xs)
    if not any(_is_inf(x) for x in xs):
        return xs, None
    if any(_is_inf(x) and x == far for x in xs):
        return xs, far
    ys = [x for x in xs if not _is_inf(x)]
    return ys, (None if ys else -far)


def s_max(xs):
    xs, inf = _finite(xs, math.inf)
    if inf is not None:
        return inf
    return _extreme([to_s(x) for x in xs], True)


def s_min(xs):
    xs, inf = _finite(xs, -math.inf)
    if inf is not None:
        return inf
    return _extreme([to_s(x) for x in xs], False)


def _extreme(xs, mx):
    ys = []
    keys = set()
    const = None
    for x in xs:
        if x.is_const():
            c = x.const()
            if const is None:
                const = c
            else:
                const = max(const, c) if mx else min(const, c)
            continue
        k = x.key()
        if k not in keys:
            keys.add(k)
            ys.append(x)
    if const is not None:
        c = S.c(const)
        # drop constants dominated by sign
        ys.append(c)
    if len(ys) == 1:
        return ys[0]
    # drop candidates that are syntactically dominated
    out = []
    for i, x in enumerate(ys):
        dom = False
        for j, y in enumerate(ys):
            if i == j:
                continue
            c = (y >= x) if mx else (y <= x)
            if c.val is True and not ((x >= y if mx else x <= y).val is True and j > i):
                dom = True
                break
        if not dom:
            out.append(x)
    ys = out or ys[:1]
    if len(ys) == 1:
        return ys[0]
    kk = ("ext", mx, frozenset(y.key() for y in ys))
    if kk in CTX.memo:
        return CTX.memo[kk]
    sg = None
    sgs = [p_sign(y._sgn_poly()[0]) if not y._sgn_poly()[1] else None for y in ys]
    if all(s == '+' for s in sgs):
        sg = '+'
    v = CTX.new_var(None, kind="ext", sign=sg)
    r = CTX.s_var(v)
    CTX.define(v, b_and([(r >= y) if mx else (r <= y) for y in ys]) & b_or([r == y for y in ys]))
    CTX.memo[kk] = r
    return r


def _isqrt_frac(c):
    n, d = c.numerator, c.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def s_sqrt(s, known_nonneg=False):
    if isinstance(s, C):
        raise CTX.unsupported("complex sqrt")
    if s.is_const():
        c = s.const()
        if c < 0:
            raise SymDomainError("sqrt of negative")
        r = _isqrt_frac(c)
        if r is not None:
            return S.c(r)
    # make denominator even
    n = s.num
    den = []
    for f, e in s.den:
        if e % 2:
            n = p_mul(n, CTX.factors[f])
            e += 1
        den.append((f, e))
    out = S.c(1)
    for f, e in den:
        p = S(CTX.factors[f])
        sg = p_sign(p.num)
        if sg not in ('+', '0+'):
            p = abs(p)
        for _ in range(e // 2):
            out = out / p
    # content
    if not n:
        return S({})
    mc = None
    for m in n:
        d = dict(m)
        mc = d if mc is None else {v: min(e, d[v]) for v, e in mc.items() if v in d}
        if not mc:
            break
    if mc:
        take = tuple(sorted((v, e - e % 2) for v, e in mc.items() if e >= 2))
        if take:
            n = {_mono_div(m, take): c for m, c in n.items()}
            for v, e in take:
                x = S({((v, 1),): Fraction(1)})
                if CTX.vars[v].sign not in ('+', '0+'):
                    x = abs(x)
                for _ in range(e // 2):
                    out = out * x
    # rational square content
    lead = max(n, key=_mkey)
    c = abs(n[lead])
    r = _isqrt_frac(c)
    if r is not None:
        if r != 1:
            n = p_scale(n, 1 / c)
            out = out * r
    else:
        sqf = _largest_square(c)
        if sqf != 1:
            n = p_scale(n, 1 / (sqf * sqf))
            out = out * sqf
    if len(n) == 1 and ONE in n:
        rr = _isqrt_frac(n[ONE]) if n[ONE] >= 0 else None
        if rr is not None:
            return out * rr
    # perfect square of a polynomial?
    q = _poly_sqrt(n)
    if q is not None:
        return out * abs(S(q))
    k = ("sqrt", p_key(n))
    if k not in CTX.memo:
        sg = p_sign(n)
        if sg in ('-', '0-'):
            raise SymDomainError("sqrt of negative")
        if not known_nonneg and sg not in ('+', '0+'):
            if bool(S(n) < 0):
                raise SymDomainError("sqrt of negative")
        v = CTX.new_var(None, kind="sqrt", sign='+' if sg == '+' else '0+')
        nn = dict(n)
        CTX.cons.append((v.z3 * v.z3 == p_z3(nn), frozenset(p_vars(nn) | {v.id}), "def", v.id))
        CTX.sqvars[v.id] = nn
        CTX.memo[k] = CTX.s_var(v)
    return out * CTX.memo[k]


def _largest_square(c):
    """largest simple rational r with r*r dividing c 'nicely' (powers of 2,3,5,10)."""
    n, d = c.numerator, c.denominator
    r = Fraction(1)
    for p in (2, 3, 5, 7):
        while n % (p * p) == 0:
            n //= p * p
            r *= p
        while d % (p * p) == 0:
            d //= p * p
            r /= p
    return r


def _poly_sqrt(n):
    """q with q*q == n, or None (small polynomials only)."""
    if len(n) > 15 or len(n) < 2:
        return None
    lead = max(n, key=_mkey)
    if any(e % 2 for _, e in lead):
        return None
    r = _isqrt_frac(n[lead]) if n[lead] > 0 else None
    if r is None:
        return None
    q = {tuple((v, e // 2) for v, e in lead): r}
    lq = next(iter(q))
    for _ in range(8):
        d = p_sub(n, p_mul(q, q))
        if not d:
            return q
        ld = max(d, key=_mkey)
        m = _mono_div(ld, lq)
        if m is None:
            return None
        if m in q:
            return None
        q[m] = d[ld] / (2 * r)
    return None


def s_exp(s):
    if isinstance(s, C):
        return s.exp()
    if s.is_const() and not s.num:
        return S.c(1)
    flip = False
    lead = max(s.num, key=_mkey)
    if s.num[lead] < 0:
        s = -s
        flip = True
    k = ("exp", s.key())
    if k not in CTX.memo:
        v = CTX.new_var(None, kind="exp", sign='+', info=("exp", s))
        r = CTX.s_var(v)
        CTX.define(v, ((s > 0) & (r > 1) & (r >= 1 + s)) | ((s < 0) & (r < 1) & (r >= 1 + s)) | ((s == 0) & (r == 1)))
        CTX.memo[k] = r
    r = CTX.memo[k]
    return r.inverse() if flip else r


def trig_of(s):
    s = to_s(s)
    if s.is_const() and not s.num:
        return S.c(1), S.c(0)
    flip = False
    lead = max(s.num, key=_mkey)
    if s.num[lead] < 0:
        s = -s
        flip = True
    k = s.key()
    if k not in CTX.trig:
        # linear combination of known angles?  (angle addition)
        if not s.den and len(s.num) > 1 and all(
                len(m) == 1 and m[0][1] == 1 and abs(c) == 1 for m, c in s.num.items()):
            c, sn = S.c(1), S.c(0)
            for m, cc in s.num.items():
                c2, s2 = trig_of(S({m: Fraction(1)}))
                if cc < 0:
                    s2 = -s2
                c, sn = c * c2 - sn * s2, sn * c2 + c * s2
            CTX.trig[k] = (c, sn)
        else:
            vc = CTX.new_var(None, kind="cos", info=("cos", s))
            vs = CTX.new_var(None, kind="sin", info=("sin", s))
            z = vc.z3 * vc.z3 + vs.z3 * vs.z3 == 1
            vv = frozenset([vc.id, vs.id])
            CTX.cons.append((z, vv, "def", vc.id))
            CTX.cons.append((z, vv, "def", vs.id))
            c, sn = CTX.s_var(vc), CTX.s_var(vs)
            CTX.sqvars[vs.id] = (S.c(1) - c * c).num
            CTX.trig[k] = (c, sn)
    c, sn = CTX.trig[k]
    return (c, -sn) if flip else (c, sn)


def s_arccos(s):
    k = ("arccos", s.key())
    if k not in CTX.memo:
        v = CTX.new_var(None, kind="angle", sign='0+', info=("arccos", s))
        r = CTX.s_var(v)
        CTX.trig[r.key()] = (s, s_sqrt(S.c(1) - s * s))
        CTX.memo[k] = r
    return CTX.memo[k]


def s_arctan(s):
    k = ("arctan", s.key())
    if k not in CTX.memo:
        if s.is_const() and not s.num:
            return S.c(0)
        v = CTX.new_var(None, kind="angle", info=("arctan", s))
        r = CTX.s_var(v)
        h = s_sqrt(S.c(1) + s * s, known_nonneg=True)
        CTX.trig[r.key()] = (S.c(1) / h, s / h)
        CTX.memo[k] = r
    return CTX.memo[k]


# --------------------------------------------------------------------------
class C:
    """Symbolic complex."""
    __slots__ = ("re", "im")

    def __init__(self, re, im=None):
        self.re = to_s(re)
        self.im = to_s(im) if im is not None else S.c(0)

    @staticmethod
    def of(x):
        if isinstance(x, C):
            return x
        if _is_complex(x):
            return C(_frac(float(x.real)), _frac(float(x.imag)))
        s = to_s(x)
        return None if s is None else C(s)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return C(self.re, -self.im)
    conj = conjugate

    def __add__(self, o):
        o = C.of(o)
        return NotImplemented if o is None else C(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self):
        return C(-self.re, -self.im)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = C.of(o)
        return NotImplemented if o is None else C(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = C.of(o)
        return NotImplemented if o is None else C(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        if isinstance(o, B):
            return o._ite_mul(self)
        o = C.of(o)
        if o is None:
            return NotImplemented
        return C(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = C.of(o)
        if o is None:
            return NotImplemented
        if not o.im.num:
            return C(self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        inv = S.c(1) / d
        return C((self.re * o.re + self.im * o.im) * inv, (self.im * o.re - self.re * o.im) * inv)

    def __rtruediv__(self, o):
        o = C.of(o)
        return NotImplemented if o is None else o / self

    def __pow__(self, n):
        if isinstance(n, S) and n.is_const():
            n = n.const()
        if n == int(n):
            n = int(n)
            r = C(S.c(1))
            for _ in range(abs(n)):
                r = r * self
            return C(S.c(1)) / r if n < 0 else r
        raise CTX.unsupported("complex power")

    def __abs__(self):
        return s_sqrt(self.re * self.re + self.im * self.im, known_nonneg=True)

    def exp(self):
        c, s = trig_of(self.im)
        e = s_exp(self.re)
        return C(e * c, e * s)

    def __eq__(self, o):
        o = C.of(o)
        return (self.re == o.re) & (self.im == o.im)

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self != 0)

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __float__(self):
        raise TypeError("can't convert complex to float")

    def __repr__(self):
        return "C(%r,%r)" % (self.re, self.im)

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self
