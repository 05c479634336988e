"""C14: localized longitudinal sources."""
from engine.harness import harness
from .common import *

OUTSIDE = "regions given end before start; more than 4 cells; the level offset of sources declared in case files (C18)"


def _path(W, shape, lens):
    axes = {"straight": [(0, 0, 1)] * 9, "down": [(0, 0, -1)] * 9, "corner": [(0, 0, 1), (1, 0, 0), (0, 0, -1), (0, 1, 0)]}[shape]
    pts = [[W.num(0)] * 3]
    for h, d in zip(lens, axes):
        pts.append([p + h * W.num(x) for p, x in zip(pts[-1], d)])
    return pts


def _at(W, pts, lens, ndiv, k, frac):
    """the point a fraction of the way through cell k"""
    s = 0
    while k >= ndiv[s]:
        k -= ndiv[s]
        s += 1
    f = (W.num(k) + frac) / ndiv[s]
    return [a + (b - a) * f for a, b in zip(pts[s], pts[s + 1])]


@harness(quick=[dict(shape="straight", ndiv=(2,), levels=1, ends="any"), dict(shape="corner", ndiv=(1, 1, 1), levels=1, ends="any"),
                dict(shape="straight", ndiv=(1, 2), levels=2, ends="nodes"), dict(shape="down", ndiv=(2, 1), levels=1, ends="nodes"),
                dict(shape="corner", ndiv=(2, 1), levels=2, ends="any")],
         thorough=[dict(shape="corner", ndiv=(2, 1, 2), levels=2, ends="any"), dict(shape="straight", ndiv=(2, 2), levels=2, ends="any")], timeout=600)
def drive(W, shape, ndiv, levels, ends):
    """every cell is driven by the field over the part of it that lies in the
    region: symbolic ends anywhere on the line, symbolic field function, symbolic conductor"""
    mtl, mtln = W.mod("mtl"), W.mod("mtln")
    lens = [W.const("len%d" % s) for s in range(len(ndiv))]
    dx = cell_lengths(lens, ndiv)
    N = len(dx)
    pts = _path(W, shape, lens)
    parts = [line_const(W, 1, "p%d" % k, node_positions=W.array(pts), ndiv=list(ndiv), Z=False, name="p%d" % k) for k in range(levels)]
    b = mtl.MTLD({k: [p] for k, p in enumerate(parts)}, name="b")
    net = mtln.MTLN(bundles=[b])
    dt = W.const("dt")
    c = W.int("cond", 0, levels - 1)
    if ends == "nodes":
        ka, kb = W.int("a", 0, N - 1), W.int("b", 1, N)
        W.assume(ka < kb)
        fa, fb = W.num(0), W.num(1)
        kb -= 1
    else:
        ka, kb = W.int("a", 0, N - 1), W.int("b", 0, N - 1)
        fa, fb = W.real("fa", lo=0, hi=1), W.real("fb", lo=0, hi=1)
        W.assume(ka <= kb)
        if ka == kb:
            W.assume(fa <= fb)
        W.assume(W.b_or(fa == 0, W.b_and(fa >= W.frac(1, 1000), fa <= W.frac(999, 1000))))
        W.assume(W.b_or(fb == 1, W.b_and(fb >= W.frac(1, 1000), fb <= W.frac(999, 1000))))
    E, E2 = W.func("E"), W.func("E2")
    b.add_localized_longitudinal_field(W.array(_at(W, pts, lens, ndiv, ka, fa)), W.array(_at(W, pts, lens, ndiv, kb, fb)),
                                       conductor=c, magnitude=E, source_type="localized efield drive")
    second = ends == "nodes"
    if second:
        # a second drive on the first cell adds up
        b.add_localized_longitudinal_field(W.array(pts[0]), W.array(_at(W, pts, lens, ndiv, 0, W.num(1))),
                                           conductor=c, magnitude=E2, source_type="localized efield drive")
    share = []
    for k in range(N):
        lo = W.num(0) if k > ka else (fa if k == ka else W.num(1))
        hi = W.num(1) if k < kb else (fb if k == kb else W.num(0))
        share.append(hi - lo if ka <= k <= kb else W.num(0))
    unit = W.np.zeros(levels)
    unit[c] = 1.0
    field = lambda k, t: unit * (share[k] * E(t) + (E2(t) if second and k == 0 else W.num(0)))
    L, Cm, G, R = b.l[0].copy(), b.c[0].copy(), b.g[0].copy(), b.r[0].copy()
    s0 = set_state(W, b)
    net.run_until(dt * W.frac(3, 2), dt)
    t = W.num(0)
    s1 = (W.out(b.v), W.out(b.i))
    check_interior(W, dx, L, Cm, R, G, s0, s1, dt, eL=lambda k: (field(k, t + dt / 2), field(k, t - dt / 2)))


@harness(quick=[dict(ndiv=(3,)), dict(ndiv=(1, 2))])
def plane_wave_share(W, ndiv):
    """a drive of plane-wave type between two nodes is shared equally by the cells between them"""
    mtl, mtln = W.mod("mtl"), W.mod("mtln")
    lens = [W.const("len%d" % s) for s in range(len(ndiv))]
    dx = cell_lengths(lens, ndiv)
    N = len(dx)
    pts = _path(W, "straight", lens)
    p = line_const(W, 2, "p", node_positions=W.array(pts), ndiv=list(ndiv), Z=False, name="p")
    b = mtl.MTLD({0: [p]}, name="b")
    net = mtln.MTLN(bundles=[b])
    dt = W.const("dt")
    c = W.int("cond", 0, 1)
    ka, kb = W.int("a", 0, N - 1), W.int("b", 1, N)
    W.assume(ka < kb)
    E = W.func("E")
    b.add_localized_longitudinal_field(W.array(_at(W, pts, lens, ndiv, ka, W.num(0))), W.array(_at(W, pts, lens, ndiv, kb - 1, W.num(1))),
                                       conductor=c, magnitude=E, source_type="Planewave")
    unit = W.np.zeros(2)
    unit[c] = 1.0
    field = lambda k, t: unit * (E(t) / (kb - ka) if ka <= k < kb else W.num(0))
    L, Cm, G, R = b.l[0].copy(), b.c[0].copy(), b.g[0].copy(), b.r[0].copy()
    s0 = set_state(W, b)
    net.run_until(dt * W.frac(3, 2), dt)
    s1 = (W.out(b.v), W.out(b.i))
    check_interior(W, dx, L, Cm, R, G, s0, s1, dt, eL=lambda k: (field(k, dt / 2), field(k, -dt / 2)))
