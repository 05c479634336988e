"""C22: plane waves: transverse to their direction, travelling with the line's velocity, the same on lines and bundles."""
import sympy as sp

from engine.harness import harness
from .common import *
from .c15 import Poly, transverse, longitudinal, _geometry, _build, _distances, _rat

OUTSIDE = ("waveforms of degree above 2 in time; directions exactly along a coordinate axis or in a coordinate plane (the code divides by zero there and relies on infinities); "
           "oblique conductor displacements")


class Wave:
    """component j of a plane wave of polynomial waveform: pol_j f(t + k.r/vel), arriving from direction k"""

    def __init__(self, pol, k, f):
        self.pol, self.k, self.f = pol, k, f

    def at(self, W, p, t, vel):
        return self.pol * self.f(t + (self.k[0] * p[0] + self.k[1] * p[1] + self.k[2] * p[2]) / vel)


def _wave(W, degree=2):
    cs = [W.real("f%d" % q) for q in range(degree + 1)]

    def f(t):
        r = cs[0]
        for q in range(1, degree + 1):
            r = r + cs[q] * t ** q
        return r

    def fs(t):
        r = _rat(cs[0])
        for q in range(1, degree + 1):
            r = r + _rat(cs[q]) * t ** q
        return r
    return f, fs


def _angles(W):
    p, z, d = (W.real(x, lo=-7, hi=7) for x in ("polar", "azimuth", "polarization"))
    c, s = W.np.cos, W.np.sin
    k = [c(p), s(p) * c(z), s(p) * s(z)]
    # the two unit vectors across k: theta and phi
    th = [s(p), -c(p) * c(z), -c(p) * s(z)]
    ph = [W.num(0), -s(z), c(z)]
    e = [s(d) * a + c(d) * b for a, b in zip(th, ph)]
    W.assume(W.b_and(k[0] != 0, k[1] != 0, k[2] != 0))
    return p, z, d, k, e


@harness(quick=[dict()])
def directions(W):
    """the field has unit amplitude and is transverse to the direction of travel"""
    mtl = W.mod("mtl")
    p, z, d, k, e = _angles(W)
    v = W.pos("v")
    pw = mtl.PlaneWave(None, p, z, d)
    pw.compute_velocities(v)
    E = [pw.ex, pw.ey, pw.ez]
    slow = [1 / pw.vx, 1 / pw.vy, 1 / pw.vz]
    W.check_eq(sum(a * b for a, b in zip(E, k)), W.num(0), "transverse")
    W.check_eq(sum(a * b for a, b in zip(E, slow)), W.num(0), "transverse to the velocity")
    W.check_eq(sum(a * a for a in E), W.num(1), "unit amplitude")
    W.check_eq(sum(a * a for a in slow) * v * v, W.num(1), "speed")
    for q in range(3):
        W.check_eq(slow[q] * v, -k[q], "travels towards the origin from its direction")
        W.check_eq(E[q], e[q], "polarization")


@harness(quick=[dict(kind="line", n=1, disp="x"), dict(kind="line", n=2, disp="y", path="zx", ndiv=(1, 1)), dict(kind="bundle", n=1, disp="x"), dict(kind="bundle", n=2, disp="y"), dict(kind="bundle", n=1, disp="y", fast_inside=True),
                dict(kind="line", n=1, disp="x", path="oblique"), dict(kind="bundle", n=1, disp="z", path="xy", ndiv=(1, 1)), dict(kind="line", n=2, disp="x", ndiv=(1,), speeds=(3, 2))],
         thorough=[dict(kind="line", n=2, disp="y", path="zx", ndiv=(2, 1)), dict(kind="bundle", n=2, disp="y", path="down", ndiv=(1, 2))], timeout=600)
def on_conductors(W, kind, n, disp, path="z", ndiv=(2,), fast_inside=False, speeds=()):
    """the voltages and currents are those of the scattered field equations for the wave"""
    mtl = W.mod("mtl")
    lens, dirs, pts, dx = _geometry(W, path, ndiv)
    N = len(dx)
    ln, run, L, C, R, G = _build(W, kind, pts, ndiv, n, 1 if fast_inside else 16, speeds)
    vel = W.num(max(speeds)) if speeds else W.num(1) if fast_inside else W.frac(1, 2)      # the fastest of the bundle
    f, fs = _wave(W)
    p, z, d, k, e = _angles(W)
    E = [Wave(q, k, f) for q in e]
    D = _distances(W, n, N, disp)
    pw = mtl.PlaneWave(fs, p, z, d)
    run.add_planewave(pw, D)
    u = [[q for q in row] for row in ln.u.copy()]
    du = [[q for q in row] for row in ln.du.copy()]
    m = ln.number_of_conductors
    pad = [W.num(0)] * (m - n)
    t = W.real("t")
    for a in range(m):
        for j in range(N + 1):
            ref = transverse(W, E, u[j], [D[a, j, q] for q in range(3)], t, vel) if a < n else W.num(0)
            W.check_eq(ln.e_T[a, j](t), ref, "transverse field")
        for j in range(N):
            ref = longitudinal(W, E, u[j], du[j], [D[a, j, q] for q in range(3)], t, vel) if a < n else W.num(0)
            W.check_eq(ln.e_L[a, j](t), ref, "longitudinal field")


@harness(quick=[dict()], timeout=400)
def each_at_its_speed(W):
    """one wave on two lines of different velocities: each sees it at its own"""
    mtl, mtln = W.mod("mtl"), W.mod("mtln")
    f, fs = _wave(W)
    p, z, d, k, e = _angles(W)
    pw = mtl.PlaneWave(fs, p, z, d)
    lines = []
    managed = W.bool("managed")
    speeds = (W.frac(1, 2), W.frac(1, 3))
    for q in range(2):
        c = W.const("c%d" % q)
        ln = mtl.MTL(l=W.array([[1 / (c * speeds[q] ** 2)]]), c=W.array([[c]]), node_positions=W.array([[W.num(0), W.num(0), W.num(0)], [W.num(0), W.num(0), W.const("len")]]), ndiv=[1], name="l%d" % q)
        lines.append(mtl.MTLD({0: [ln]}, name="b%d" % q) if managed else ln)
    D = _distances(W, 1, 1, "x")
    if managed:
        mtln.MTLN(lines).add_planewave(pw, D)
    else:
        for ln in lines:
            ln.add_planewave(pw, D)
    E = [Wave(q, k, f) for q in e]
    t = W.real("t")
    for ln, vel in zip(lines, speeds):
        for j in range(2):
            W.check_eq(ln.e_T[0, j](t), transverse(W, E, list(ln.u[j]), [D[0, j, q] for q in range(3)], t, vel), "transverse field")
        W.check_eq(ln.e_L[0, 0](t), longitudinal(W, E, list(ln.u[0]), list(ln.du[0]), [D[0, 0, q] for q in range(3)], t, vel), "longitudinal field")
