"""Translation between symbolic numbers and sympy expressions (the project uses
sympy for incident fields and a few waveforms)."""
from fractions import Fraction

import sympy as sp

from . import sym
from .sym import S, B, to_b, ite, s_max, s_min, s_exp, s_sqrt, trig_of


def from_s(s):
    if s.is_const():
        c = s.const()
        return sp.Rational(c.numerator, c.denominator)
    reg = sym.CTX.memo.setdefault("sympy", {})
    k = s.key()
    if k not in reg:
        p = len(reg)
        kw = {"real": True}
        sg = sym.p_sign(s._sgn_poly()[0])
        if sg == '+' and not s._sgn_poly()[1]:
            kw = {"positive": True}
        y = sp.Symbol("S__%d" % p, **kw)
        reg[k] = y
        sym.CTX.memo.setdefault("sympy_rev", {})[y] = s
    return reg[k]


def to_s(e, env=None):
    env = env or {}
    rev = sym.CTX.memo.get("sympy_rev", {})
    memo = {}

    def rec(x):
        if x in memo:
            return memo[x]
        r = rec_(x)
        memo[x] = r
        return r

    def rec_(x):
        if x in env:
            return env[x]
        if isinstance(x, S):
            return x
        if x.is_Symbol:
            if x in rev:
                return rev[x]
            raise NameError("name %r is not defined" % str(x))
        if x.is_Rational:
            return S.c(Fraction(int(x.p), int(x.q)))
        if x.is_Float:
            return S.c(Fraction(float(x)))
        if x is sp.pi or x is sp.E:
            return S.c(Fraction(float(x)))
        if x is sp.true or x is sp.false:
            return B(bool(x))
        if x.is_Add:
            r = S.c(0)
            for a in x.args:
                r = r + rec(a)
            return r
        if x.is_Mul:
            r = S.c(1)
            for a in x.args:
                r = r * rec(a)
            return r
        if isinstance(x, sp.exp):
            return s_exp(sym.to_s(rec(x.args[0])))
        if x.is_Pow:
            b, p = x.args
            if p.is_Integer:
                return rec(b) ** int(p)
            if p == sp.Rational(1, 2):
                return s_sqrt(rec(b))
            if p == sp.Rational(-1, 2):
                return 1 / s_sqrt(rec(b))
            if p.is_Float and float(p) == int(p):
                return rec(b) ** int(p)
            raise sym.CTX.unsupported("sympy power")
        if isinstance(x, sp.sin):
            return trig_of(rec(x.args[0]))[1]
        if isinstance(x, sp.cos):
            return trig_of(rec(x.args[0]))[0]
        if isinstance(x, sp.Abs):
            return abs(rec(x.args[0]))
        if isinstance(x, sp.Mod):
            return rec(x.args[0]) % rec(x.args[1])
        if isinstance(x, sp.floor):
            return rec(x.args[0]).floor()
        if isinstance(x, sp.Max):
            return s_max([rec(a) for a in x.args])
        if isinstance(x, sp.Min):
            return s_min([rec(a) for a in x.args])
        if isinstance(x, sp.Heaviside):
            v = rec(x.args[0])
            return ite(v < 0, S.c(0), ite(v == 0, S.c(Fraction(1, 2)), S.c(1)))
        if isinstance(x, sp.Piecewise):
            out = None
            for val, cond in reversed(x.args):
                c = to_b(rec(cond))
                v = rec(val)
                if out is None:
                    # no default: sympy/lambdify give nan when nothing matches
                    if c.val is True:
                        out = v
                    else:
                        nanv = sym.CTX.s_var(sym.CTX.new_var(None, kind="uninit"))
                        out = ite(c, v, nanv)
                else:
                    out = ite(c, v, out)
            return out
        if isinstance(x, sp.Rel):
            a, b = rec(x.lhs), rec(x.rhs)
            return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                    ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[x.rel_op]()
        if isinstance(x, sp.And):
            return sym.b_and([rec(a) for a in x.args])
        if isinstance(x, sp.Or):
            return sym.b_or([rec(a) for a in x.args])
        if isinstance(x, sp.Not):
            return ~rec(x.args[0])
        if isinstance(x, sp.Integral):
            d = x.doit()
            if d.has(sp.Integral):
                raise sym.CTX.unsupported("sympy integral")
            return rec(d)
        raise sym.CTX.unsupported("sympy node %s" % type(x).__name__)
    return rec(sp.sympify(e))


def lambdify(args, expr, *a, **k):
    if isinstance(expr, S):
        return _as_fun(args, lambda env: expr)
    if not isinstance(args, (list, tuple)):
        args = [args]
    expr = sp.sympify(expr)
    if expr.has(sp.Integral):
        expr = expr.doit()
    return _as_fun(args, lambda env: to_s(expr, env))


def _as_fun(args, body):
    args = list(args) if isinstance(args, (list, tuple)) else [args]
    if len(args) == 1:
        a0 = args[0]
        return lambda t: body({a0: sym.to_s(t)})
    return lambda *vals: body({a: sym.to_s(v) for a, v in zip(args, vals)})


class SPShim:
    """`import sympy as sp` inside the code under test."""
    lambdify = staticmethod(lambdify)

    def __getattr__(self, n):
        a = getattr(sp, n)
        if n in ("exp", "sin", "cos", "sqrt", "Abs", "floor"):
            def f(x, *r, **k):
                if isinstance(x, (S, sym.C)):
                    return {"exp": s_exp, "sin": lambda v: trig_of(v)[1], "cos": lambda v: trig_of(v)[0],
                            "sqrt": s_sqrt, "Abs": abs, "floor": lambda v: v.floor()}[n](x)
                return a(x, *r, **k)
            return f
        return a


SP = SPShim()
