"""C15: external fields given as functions of position and time."""
import itertools

import sympy as sp

from engine.harness import harness
from .nets import *

OUTSIDE = ("fields of degree above 2 in position and time (the code integrates symbolically; polynomials decide the geometry); "
           "oblique conductor displacements in fields that vary across the displacement; more than 4 cells, more than 2 conductors")

X, Y, Z, T, V = sp.symbols("x y z t v")


class Poly:
    """a seeded polynomial field component, as sympy expression and as plain arithmetic"""

    def __init__(self, W, tag, cross):
        mons = [("1",), ("t",)]
        mons += [("z",), ("w",), ("z", "t")] if cross == "z" else [("x",), ("y",), ("z",), ("w",), ("x", "z"), ("y", "z"), ("x", "x"), ("x", "y"), ("t", "y"), ("z", "z"), ("t", "x")]
        if cross == "uniform":
            mons = [("1",), ("t",), ("t", "t")]
        self.terms = [(W.real("%s_%s" % (tag, "".join(m))), m) for m in mons]

    def expr(self):
        out = sp.Integer(0)
        sy = {"1": sp.Integer(1), "x": X, "y": Y, "z": Z, "t": T, "w": T + Z / V + X / V}
        for c, m in self.terms:
            f = _rat(c)
            for s in m:
                f = f * sy[s]
            out = out + f
        return out

    def at(self, W, p, t, vel):
        sy = {"1": W.num(1), "x": p[0], "y": p[1], "z": p[2], "t": t, "w": t + p[2] / vel + p[0] / vel}
        out = W.num(0)
        for c, m in self.terms:
            f = c
            for s in m:
                f = f * sy[s]
            out = out + f
        return out


def _rat(c):
    return sp.sympify(c) if hasattr(c, "_sympy_") else sp.Float(float(c), 30)


def _simpson(W, f, a, b):
    """exact for cubics; component-wise displacement along the straight path"""
    m = [(p + q) / 2 for p, q in zip(a, b)]
    return (f(a) + 4 * f(m) + f(b)) / 6


def transverse(W, E, u, d, t, vel):
    tot = W.num(0)
    end = [p + q for p, q in zip(u, d)]
    for comp in range(3):
        if _zero(d[comp]):
            continue
        tot = tot + d[comp] * _simpson(W, lambda p: E[comp].at(W, p, t, vel), list(u), end)
    return tot


def longitudinal(W, E, u, du, d, t, vel):
    h = W.np.linalg.norm(W.array(du))
    mid = [p + q / 2 for p, q in zip(u, du)]
    far = [p + q for p, q in zip(mid, d)]
    return sum((E[k].at(W, far, t, vel) - E[k].at(W, mid, t, vel)) * (du[k] / h) for k in range(3))


DIRS = {"z": [(0, 0, 1)], "zx": [(0, 0, 1), (1, 0, 0)], "oblique": [(0, W_3, W_4) for W_3, W_4 in (((3, 5), (4, 5)),)], "down": [(0, 0, -1), (0, -1, 0)], "xy": [(1, 0, 0), (0, 1, 0)], "yx": [(0, -1, 0), (1, 0, 0)]}


def _geometry(W, path, ndiv):
    lens = [W.const("len%d" % s) for s in range(len(ndiv))]
    num = lambda q: W.frac(*q) if isinstance(q, tuple) else W.num(q)
    dirs = [[num(q) for q in d] for d in DIRS[path]]
    pts = [[W.num(0), W.frac(1, 3), W.frac(1, 7)]]
    for s, h in enumerate(lens):
        pts.append([p + h * q for p, q in zip(pts[-1], dirs[s % len(dirs)])])
    return lens, dirs, pts, cell_lengths(lens, ndiv)


def _build(W, kind, pts, ndiv, n, inner_lc=16, speeds=()):
    mtl, mtln = W.mod("mtl"), W.mod("mtln")
    # L C = identity * 4 : a single phase velocity of one half
    C = W.const_spd("C", n)
    L = W.np.linalg.inv(C) * 4
    if speeds:
        # conductors of their own velocities
        C = W.np.diag(W.const_arr("C", (n,)))
        L = W.np.diag(W.array([1 / (W.num(q) * q) / C[k, k] for k, q in enumerate(speeds)]))
    R, G = W.const_spd("R", n), W.const_spd("G", n)
    ln = mtl.MTL(l=L, c=C, r=R, g=G, node_positions=W.array(pts), ndiv=list(ndiv),
                 Zs=W.const_arr("Zs", (n,)), Zl=W.const_arr("Zl", (n,)), name="outer")
    if kind == "line":
        return ln, ln, L, C, R, G
    ci = W.const("innerC")
    inner = line_const(W, 1, "inner", node_positions=W.array(pts), ndiv=list(ndiv), name="inner", c=W.array([[ci]]), l=W.array([[inner_lc / ci]]))
    b = mtl.MTLD({0: [ln], 1: [inner]}, name="b")
    if kind == "terminated":
        # networks at both ends, where the ends of a line alone have its impedances
        nw, nets = W.mod("networks"), []
        for side, z in (("S", ln.zs), ("L", ln.zl)):
            levels = {}
            for k, (q, m) in enumerate(((ln, n), (inner, 1))):
                net = nw.Network({q: {"connections": [[100 * k + (50 if side == "L" else 0) + a, a, CONN["R"]] for a in range(m)], "side": side, "bundle": b}})
                for a in range(m):
                    net.connect_to_ground_R(100 * k + (50 if side == "L" else 0) + a, z[a, a] if k == 0 else W.num(3))
                levels[k] = net
            nets.append(nw.NetworkD(levels))
        return b, mtln.MTLN(bundles=[b], networks=nets), b.l[0].copy(), b.c[0].copy(), b.r[0].copy(), b.g[0].copy()
    return b, mtln.MTLN(bundles=[b]), b.l[0].copy(), b.c[0].copy(), b.r[0].copy(), b.g[0].copy()


def _distances(W, n, N, disp):
    D = W.np.zeros((n, N + 1, 3))
    for a in range(n):
        for k in range(N + 1):
            for j in range(3):
                on = {"x": (1, 0, 0), "y": (0, 1, 0), "z": (0, 0, 1), "-z": (0, 0, -1), "-x": (-1, 0, 0), "xy": (1, -1, 0), "mixed": ((1, 0, 0), (0, -1, 0))[a % 2], "first": ((1, 0, 0), (0, 0, 0))[a % 2]}[disp][j]
                if on:
                    D[a, k, j] = W.const("d%d_%d_%d" % (a, k, j)) * on
    return D


def _case(W, kind, path, ndiv, n, disp, cross, region, manager=False, speeds=(), steps=2):
    mtl = W.mod("mtl")
    lens, dirs, pts, dx = _geometry(W, path, ndiv)
    N = len(dx)
    ln, run, L, C, R, G = _build(W, kind, pts, ndiv, n, speeds=speeds)
    vel = W.num(max(speeds)) if speeds else W.frac(1, 2)
    E = [Poly(W, "E" + a, cross) for a in "xyz"]
    D = _distances(W, n, N, disp)
    field = mtl.Field(*[e.expr() for e in E])
    u = [[q for q in row] for row in ln.u.copy()]
    du = [[q for q in row] for row in ln.du.copy()]
    if region:
        a, b = W.int("from", 0, N - 1), W.int("to", 1, N)
        W.assume(a < b)
        args = (field, D, [W.array(u[a]), W.array(u[b])])
    else:
        a, b = 0, N
        args = (field, D)
    if manager and region:
        run.add_localized_external_field("b", *args)
    elif manager:
        run.add_external_field(*args)
    else:
        ln.add_external_field(*args)
    m = ln.number_of_conductors
    dt = W.const("dt")
    pad = [W.num(0)] * (m - n)

    def eT(k, t):
        return W.array([transverse(W, E, u[k], [D[c, k, j] for j in range(3)], t, vel) if a <= k <= b else W.num(0) for c in range(n)] + pad)

    def eL(k, t):
        return W.array([longitudinal(W, E, u[k], du[k], [D[c, k, j] for j in range(3)], t, vel) if a <= k < b else W.num(0) for c in range(n)] + pad)

    if kind == "terminated":
        outer = ln.levels[0][0]
        three = W.num(3)
        zs, zl = (W.array(list(z.diagonal()) + [three]) for z in (outer.zs, outer.zl))
        # networks start at rest
        s0 = (W.out(ln.v.copy()), W.out(ln.i.copy()))
    else:
        s0 = set_state(W, ln)
    if run is ln:
        ln.dt = dt
        zs, zl = ln.zs.diagonal().copy(), ln.zl.diagonal().copy()
    t = W.num(0)
    for step in range(steps):
        if run is ln:
            run.run_until(dt * W.frac(3, 2))
        else:
            run.run_until(dt * W.frac(3, 2), dt)
        s1 = (W.out(ln.v), W.out(ln.i))
        check_interior(W, dx, L, C, R, G, s0, s1, dt, "step %d " % step, eT=lambda k: (eT(k, t), eT(k, t - dt)),
                       eL=lambda k: (eL(k, t + dt / 2), eL(k, t - dt / 2)))
        if run is ln or kind == "terminated":
            check_terminals(W, dx, C, G, zs, zl, s0, s1, dt, eT=lambda k: (eT(k, t), eT(k, t - dt)), label="step %d " % step)
        s0 = s1
        t = t + dt


@harness(quick=[dict(path="z", ndiv=(2,), n=1, disp="x"), dict(path="zx", ndiv=(1, 2), n=2, disp="y"), dict(path="oblique", ndiv=(2,), n=1, disp="-x"),
                dict(path="down", ndiv=(1, 1), n=2, disp="first"), dict(path="xy", ndiv=(1, 1), n=1, disp="z")],
         thorough=[dict(path="zx", ndiv=(2, 2), n=2, disp="y")], timeout=600)
def on_line(W, path, ndiv, n, disp):
    """a field varying in space and time over a whole line"""
    _case(W, "line", path, ndiv, n, disp, "all" if disp in ("x", "y", "z", "-x") else "z", False)


@harness(quick=[dict(path="z", ndiv=(2,), n=1, disp="x"), dict(path="zx", ndiv=(1, 1), n=2, disp="y"),
                dict(path="yx", ndiv=(1, 1), n=1, disp="z"), dict(path="xy", ndiv=(1, 1), n=1, disp="-z")],
         thorough=[dict(path="zx", ndiv=(2, 2), n=2, disp="y")], timeout=600)
def on_bundle(W, path, ndiv, n, disp):
    """in a bundle only the conductors of the outermost level see the field; given through the network"""
    _case(W, "bundle", path, ndiv, n, disp, "all", False, manager=True)


@harness(quick=[dict(kind="line", ndiv=(3,), n=1), dict(kind="bundle", ndiv=(1, 2), n=1)],
         thorough=[dict(kind="line", ndiv=(2, 2), n=2), dict(kind="bundle", ndiv=(2, 2), n=2)], timeout=600)
def region(W, kind, ndiv, n):
    """a field restricted to the part of a line between two nodes"""
    _case(W, kind, "z", ndiv, n, "x", "z", True, manager=(kind == "bundle"))


@harness(quick=[dict(path="z", ndiv=(2,), n=1), dict(path="zx", ndiv=(1, 1), n=2, region=True)],
         thorough=[dict(path="zx", ndiv=(2, 1), n=2, steps=3)], timeout=600)
def terminated(W, path, ndiv, n, region=False, steps=2):
    """the ends of a bundle in networks see the field at the same times as the rest of the line"""
    _case(W, "terminated", path, ndiv, n, "y" if path == "zx" else "x", "z" if region else "all", region, manager=True, steps=steps)


@harness(quick=[dict(kind="line", speeds=(2, 3)), dict(kind="line", speeds=(3, 2)), dict(kind="bundle", speeds=(2, 3))],
         thorough=[dict(kind="line", speeds=(2, 4, 3)), dict(kind="bundle", speeds=(3, 2, 4))], timeout=600)
def fastest(W, kind, speeds):
    """a field given in terms of the velocity sees the fastest of the conductors"""
    _case(W, kind, "zx", (1, 1), len(speeds), "y", "all", False, speeds=speeds)


@harness(quick=[dict(kind="line", n=1), dict(kind="bundle", n=1)], timeout=600)
def oblique_displacement(W, kind, n):
    """a field uniform in space on conductors displaced obliquely"""
    _case(W, kind, "z", (2,), n, "xy", "uniform", False)


def _zero(q):
    return q.is_const() and q.const() == 0 if hasattr(q, "is_const") else q == 0
