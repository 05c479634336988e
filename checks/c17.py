"""C17: the waveforms have the shape their parameters describe, at every time."""
import sympy as sp

from engine.harness import harness
from .common import *
from .c15 import _rat

OUTSIDE = "exact values of exp, sin and gaussians beyond their defining identities; parameters where rise and fall do not fit in the period"

SX, SY, SZ, ST, SV = sp.symbols("x y z t v")


def _close(W, got, want, label, scale=None):
    W.check_eq(got, want, label)


def _eval(W, expr, **at):
    """value of a sympy waveform at symbolic coordinates"""
    if hasattr(expr, "subs"):
        for name, val in at.items():
            expr = expr.subs(sp.Symbol(name), _rat(val))
        if any(q.name in "xyztv" for q in expr.free_symbols):
            W.fail("value depends on a coordinate it should not")
        if W.symbolic:
            from engine.sympyconv import to_s
            return to_s(expr)
        return float(expr)
    return expr


@harness(quick=[dict(kind=k) for k in ("square", "triangle", "ramp", "sin_sq", "sin", "exp", "gauss")], timeout=300)
def shapes(W, kind):
    """numeric waveforms, piece by piece and at the joints"""
    wf = W.mod("waveforms")
    t, A = W.real("t"), W.real("A")
    x0 = W.pos("x0")
    if kind == "square":
        W.check_eq(wf.square_pulse(t, A, x0), W.ite(W.b_and(t >= 0, t <= x0), A, W.num(0)), "square pulse")
    elif kind == "triangle":
        W.check_eq(wf.triangle_pulse(t, A, x0), W.ite(W.b_and(t >= 0, t <= x0), A * t / x0, W.num(0)), "triangle pulse")
    elif kind == "ramp":
        f = wf.ramp_pulse(t, A, x0)
        W.check_eq(f, W.ite(t <= 0, W.num(0), W.ite(t <= x0, A * t / x0, A)), "ramp pulse")
    elif kind == "sin_sq":
        w = W.pos("w")
        pi = W.num(W.np.pi)
        f = wf.sin_sq_pulse(t, A, w)
        s = W.np.sin(w * t)
        W.check_eq(f, W.ite(W.b_and(t >= 0, t * w < pi), A * s * s, W.num(0)), "squared sine pulse")
    elif kind == "sin":
        w = W.pos("w")
        W.check_eq(wf.sin_pulse(t, A, w), A * W.np.sin(w * t), "sine")
    elif kind == "exp":
        # f(0) = 0 and A - f(t + s) = (A - f(t)) exp(-s/x0)
        e = W.np.exp(-t / x0)
        W.check_eq(wf.exp(t, A, x0), A * (1 - e), "exponential rise")
        W.check_eq(wf.exp(W.num(0), A, x0), W.num(0), "exponential rise starts at zero")
    elif kind == "gauss":
        s0 = W.pos("s0")
        c = W.real("c")
        W.check_eq(wf.gaussian(t, c, s0), W.np.exp(-(t - c) * (t - c) / (2 * s0 * s0)), "gaussian")
        W.check_eq(wf.gaussian_2(t, A, c, s0), A * W.np.exp(-(t - c) * (t - c) / (s0 * s0)), "gaussian with width")
        W.check_eq(wf.gaussian(c, c, s0), W.num(1), "gaussian peak")
        W.check_eq(wf.gaussian_2(c, A, c, s0), A, "gaussian with width: peak")


def _trapezoid(W, m, A, rise, fall, period, D):
    """value at time m after the start of a period"""
    flat = D * period - (rise + fall) / 2
    return W.ite(m <= rise, A * m / rise, W.ite(m <= rise + flat, A, W.ite(m <= rise + flat + fall, A * (rise + flat + fall - m) / fall, W.num(0))))


@harness(quick=[dict(which=w) for w in ("numeric", "sp", "x_sp")], timeout=400)
def trapezoid(W, which):
    """periodic trapezoid: every piece, every joint, every period"""
    wf = W.mod("waveforms")
    A = W.real("A")
    rise, fall = W.pos("rise"), W.pos("fall")
    f0 = W.const("f0")
    period = 1 / f0
    D = W.real("D", lo=0, hi=1)
    n = W.int("period", -3, 3)
    m = W.real("m", lo=0)
    W.assume(m < period)
    W.assume(D * period >= (rise + fall) / 2)
    W.assume(D * period + (rise + fall) / 2 <= period)
    tt = m + n * period
    want = _trapezoid(W, m, A, rise, fall, period, D)
    if which == "numeric":
        W.check_eq(wf.trapezoidal_wave(tt, A, rise, fall, f0, D), want, "trapezoidal wave")
    else:
        v = W.const("vel")
        f = getattr(wf, "trapezoidal_wave_" + which)(*[_rat(q) for q in (A, rise, fall, f0, D)], v=_rat(v))
        pos = W.real("x")
        W.check_eq(_eval(W, f, x=pos, t=tt - pos / v), want, "trapezoidal wave travelling in -x")


@harness(quick=[dict(kind=k) for k in ("ramp", "ramp_x", "ramp_y", "ramp_z", "gauss")])
def symbolic(W, kind):
    """sympy waveforms, standing and travelling"""
    wf = W.mod("waveforms")
    t, A, x0 = W.real("t"), W.real("A"), W.pos("x0")
    if kind == "gauss":
        s0, c = W.pos("s0"), W.real("c")
        W.check_eq(_eval(W, wf.gaussian_2_sp(_rat(A), _rat(c), _rat(s0)), t=t), A * W.np.exp(-(t - c) * (t - c) / (s0 * s0)), "gaussian")
        return
    tau = t
    if kind == "ramp":
        f = wf.ramp_pulse_sp(_rat(A), _rat(x0))
        got = _eval(W, f, t=t)
    else:
        q, v = W.real("q"), W.pos("vel")
        f = getattr(wf, "ramp_pulse_%s_sp" % kind[-1])(A=_rat(A), x0=_rat(x0), v=_rat(v))
        got = _eval(W, f, **{kind[-1]: q, "t": t})
        tau = t + q / v
    W.check_eq(got, W.ite(tau <= 0, W.num(0), W.ite(tau <= x0, A * tau / x0, A)), "ramp")


@harness(quick=[dict(kind=k) for k in ("time", "sp", "xy", "yz", "xz")])
def double_exponential(W, kind):
    """difference of exponentials of the travelled time"""
    wf = W.mod("waveforms")
    t, A, a, b = W.real("t"), W.real("A"), W.pos("a"), W.pos("b")
    co = dict(x=W.real("x"), y=W.real("y"), z=W.real("z"))
    v = W.pos("vel")
    if kind == "time":
        got, tau = wf.double_exp(_rat(t), _rat(A), _rat(a), _rat(b)), t
        got = _eval(W, got)
    elif kind == "sp":
        got, tau = _eval(W, wf.double_exp_sp(_rat(A), _rat(a), _rat(b)), t=t), t
    else:
        f = getattr(wf, "double_exp_%s_sp" % kind)(_rat(A), _rat(a), _rat(b))
        got = _eval(W, f, t=t, v=v, **{k: co[k] for k in kind})
        tau = t + co[kind[0]] / v + co[kind[1]] / v
    W.check_eq(got, A * (W.np.exp(-a * tau) - W.np.exp(-b * tau)), "double exponential")


@harness(quick=[dict()])
def combination(W):
    """the null waveform, and sums and multiples of functions of time"""
    wf, ut = W.mod("waveforms"), W.mod("utils")
    t, k = W.real("t"), W.real("k")
    W.check_eq(_eval(W, wf.null()), W.num(0), "null waveform")
    F, G = W.func("F"), W.func("G")
    f, g = (lambda t: F(t)), (lambda t: G(t))
    s = ut.SFunction(f) + ut.SFunction(g)
    W.check_eq(s(t), F(t) + G(t), "sum of functions")
    W.check_eq(ut.SFunction(f)(t), F(t), "function")
    W.check_eq(ut.add_t_functions(f, g)(t), F(t) + G(t), "sum of functions of time")
    W.check_eq(ut.add_t_functions(f, 0)(t), F(t), "sum with nothing")
    W.check_eq(ut.add_t_functions(0, g)(t), G(t), "sum with nothing")
    W.check(ut.add_t_functions(0, 0) == 0, "sum of nothing")
    W.check_eq(ut.multiply(f, k)(t), k * F(t), "multiple of a function of time")
