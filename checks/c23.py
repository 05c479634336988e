"""C23: the impedance and permittivity models of the fitting helpers, and the file their fits are written to."""
from engine.harness import harness
from .common import *

OUTSIDE = "exponents other than 1 and 2 of the dispersive inductance; the fitting itself (scikit-rf); the plots of the scripts"


def _eq(W, a, re, im, label):
    """complex arrays against real and imaginary parts"""
    W.check(len(a) == len(re), label + ": length")
    for x, p, q in zip(a, re, im):
        W.check_eq(x.real, p, label)
        W.check_eq(x.imag, q, label)


def _w(W, n=2):
    f = W.reals("f", (n,), sign="+")
    return f, [2 * W.np.pi * x for x in f]


@harness(quick=[dict()])
def circuits(W):
    """series and parallel impedances satisfy their circuit equations at every frequency"""
    u = W.mod("VF.utils")
    f, w = _w(W)
    R, L, C = W.pos("R"), W.pos("L"), W.pos("C")
    one, zero = W.num(1), W.num(0)
    z = u.RLseriesDisp(f, R, L, 1)
    _eq(W, z, [R, R], [x * L for x in w], "series R L")
    z2 = u.RLseriesDisp(f, R, L, 2)
    _eq(W, z2, [R, R], [x * x * L for x in w], "series R L of second order")
    _eq(W, u.Y_RLseriesDisp(f, R, L, 1) * z, [one] * 2, [zero] * 2, "series admittance")
    _eq(W, u.Y_RLseriesDisp(f, R, L, 2) * z2, [one] * 2, [zero] * 2, "series admittance of second order")
    # parallel: 1/z = 1/R + 1/(jwL), written without fractions
    z = u.RLpar(f, R, L)
    for x, k in zip(z, w):
        W.check_eq(x.real * R - x.imag * k * L, zero, "parallel R L")
        W.check_eq(x.imag * R + x.real * k * L, k * L * R, "parallel R L")
    z = u.RCpar(f, R, C)
    for x, k in zip(z, w):
        W.check_eq(x.real - x.imag * k * R * C, R, "parallel R C")
        W.check_eq(x.imag + x.real * k * R * C, zero, "parallel R C")


@harness(quick=[dict(n=1), dict(n=3)])
def poles(W, n):
    """sums over the poles of permittivities and of fitted models"""
    u = W.mod("VF.utils")
    f, w = _w(W)
    k, tau = W.reals("k", (n,)), W.reals("tau", (n,), sign="+")
    e = u.epsDebye(f, k, tau)
    re = [1 + sum(k[i] / (1 + (x * tau[i]) ** 2) for i in range(n)) for x in w]
    im = [-sum(k[i] * x * tau[i] / (1 + (x * tau[i]) ** 2) for i in range(n)) for x in w]
    _eq(W, e, re, im, "Debye permittivity")
    p, r = W.reals("p", (n,), sign="+"), W.reals("r", (n,))
    m = u.vf(f, -p, r)
    re = [sum(r[i] * p[i] / (p[i] ** 2 + x ** 2) for i in range(n)) for x in w]
    im = [-sum(r[i] * x / (p[i] ** 2 + x ** 2) for i in range(n)) for x in w]
    _eq(W, m, re, im, "sum of poles")
    tot = 0
    for i in range(n):
        tot = tot + u.vfi(f, -p, r, i)
    _eq(W, tot, re, im, "one pole at a time")


@harness(quick=[dict()])
def gaussian(W):
    """a complex impedance under a gaussian window, and its inverse"""
    u = W.mod("VF.utils")
    f = W.reals("f", (2,), sign="+")
    f0, R, sigma = W.pos("f0"), W.pos("R"), W.pos("sigma")
    g = [W.np.exp(-((x - f0) * (x - f0)) / (2 * sigma * sigma)) for x in f]
    _eq(W, u.Zw(f, f0, R, sigma), [R * q for q in g], [W.num(5) / 2 * R * q for q in g], "windowed impedance")
    _eq(W, u.Y_Zw(f, f0, R, sigma) * u.Zw(f, f0, R, sigma), [W.num(1)] * 2, [W.num(0)] * 2, "windowed admittance")


@harness(quick=[dict(n=1), dict(n=2)])
def noisy(W, n):
    """the disturbed permittivity stays within the stated percentage of the exact one, for every random sequence"""
    u = W.mod("VF.utils")
    f = W.reals("f", (2,), sign="+")
    k, tau = W.reals("k", (n,), sign="+"), W.reals("tau", (n,), sign="+")
    p = W.real("percent", lo=0, hi=100)
    e, n_ = u.epsDebye(f, k, tau), u.epsDebyeErr(f, k, tau, p)
    for x, y in zip(e, n_):
        # y - 1 = (1 + q)(x - 1) with |q| <= p/100; x - 1 has a positive real part
        d = (y.real - x.real) * 100
        W.check(W.b_and(d <= p * (x.real - 1), -d <= p * (x.real - 1)), "disturbance within the percentage")
        W.check_eq((y.real - 1) * x.imag, y.imag * (x.real - 1), "same disturbance of both parts")
    z = u.epsDebyeErr(f, k, tau, W.num(0))
    _eq(W, z, [x.real for x in e], [x.imag for x in e], "no disturbance")


@harness(quick=[dict()])
def skin_effect(W):
    """an impedance that grows linearly up to a frequency and with its root above, continuous there"""
    u = W.mod("VF.utils")
    f0, rdc = W.pos("f0"), W.pos("rdc")
    f = W.reals("f", (2,), sign="+")
    z = u.z(f, f0, rdc)
    for x, k in zip(z, f):
        low = k <= f0
        q = W.ite(low, W.num(1), W.np.sqrt(k / f0))
        W.check_eq(x.real, rdc * q, "resistance")
        W.check_eq(x.imag, rdc * W.ite(low, k / f0, W.np.sqrt(k / f0)), "reactance")


@harness(quick=[dict(ports=1, nReal=1, nCmplx=0), dict(ports=2, nReal=1, nCmplx=0), dict(ports=2, nReal=2, nCmplx=0), dict(ports=2, nReal=1, nCmplx=1), dict(ports=3, nReal=0, nCmplx=2),
                dict(ports=2, nReal=1, nCmplx=0, constant=False), dict(ports=3, nReal=2, nCmplx=1, proportional=False)],
         thorough=[dict(ports=4, nReal=2, nCmplx=2)])
def written(W, ports, nReal, nCmplx, constant=True, proportional=True):
    """every port's own entry of the fit of a diagonal matrix is written: constants, poles and residues"""
    u = W.mod("VF.utils")
    n = nReal + nCmplx          # complex pairs are stored once
    a, b = W.reals("a", (ports * ports,)), W.reals("b", (ports * ports,))
    z = W.np.zeros(n)
    pi = W.reals("pi", (n,))
    for q in range(nReal):
        pi[q] = W.num(0)
    pr, rr, ri = W.reals("pr", (n,)), W.reals("rr", (ports * ports, n)), W.reals("ri", (ports * ports, n))
    p, r = pr + 1j * pi, rr + 1j * ri
    u.serializeJSON(nReal, nCmplx, constant, proportional, a, b, p, r)
    d = W.read_json("info.json")
    W.check(sorted(d) == sorted(str(q) for q in range(ports)), "one entry for every port")
    for q in range(ports):
        e, k = d[str(q)], q * ports + q
        W.check_eq(e["constant"], a[k] if constant else W.num(0), "constant")
        W.check_eq(e["proportional"], b[k] if proportional else W.num(0), "proportional")
        W.check([len(e[x]) for x in ("polesR", "polesI", "residuesR", "residuesI")] == [n] * 4, "as many poles as fitted")
        W.check_eq(W.array(e["polesR"]), pr, "poles")
        W.check_eq(W.array(e["polesI"]), pi, "poles")
        W.check_eq(W.array(e["residuesR"]), rr[k], "residues")
        W.check_eq(W.array(e["residuesI"]), ri[k], "residues")
