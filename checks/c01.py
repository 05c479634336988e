"""C01: discretisation of polylines."""
from engine.harness import harness
from .common import *

OUTSIDE = "more than 4 polyline segments, more than 4 divisions per segment, zero-length segments"


def _points(W, nseg, dim, name="p"):
    pts = []
    for k in range(nseg + 1):
        pts.append([W.real("%s%d%s" % (name, k, "xyz"[d])) if d < dim else W.num(0) for d in range(3)])
    return pts


def _check_mesh(W, ln, pts, ndiv, tag, n):
    P = W.array(pts)
    nodes, cells = [], []
    for s, m in enumerate(ndiv):
        for k in range(m):
            nodes.append(P[s] + (P[s + 1] - P[s]) * W.frac(k, m))
            cells.append((P[s + 1] - P[s]) / m)
    nodes.append(P[len(ndiv)])
    N = sum(ndiv)
    W.check(ln.u.shape == (N + 1, 3), tag + ":node count")
    W.check(ln.du.shape == (N, 3), tag + ":cell count")
    W.check_eq(ln.u, W.array([list(x) for x in nodes]), tag + ":nodes")
    W.check_eq(ln.du, W.array([list(x) for x in cells]), tag + ":cell vectors")
    for k in range(N):
        W.check_eq(ln.u[k] + ln.du[k], ln.u[k + 1], tag + ":contiguous")
    W.check(ln.v.shape == (n, N + 1) and ln.i.shape == (n, N), tag + ":staggered unknowns")


@harness(quick=[dict(ndiv=(3,), dim=3), dict(ndiv=(1, 2), dim=3), dict(ndiv=(3, 1), dim=3), dict(ndiv=(2, 3, 1), dim=3),
                dict(ndiv=(1, 1, 1), dim=3)],
         thorough=[dict(ndiv=(4, 2, 3), dim=3), dict(ndiv=(1, 2, 3, 4), dim=3), dict(ndiv=(2, 2, 2, 2), dim=3)])
def polyline_nodes(W, ndiv, dim):
    """node positions and cell vectors for symbolic polyline vertices"""
    mtl = W.mod("mtl")
    pts = _points(W, len(ndiv), dim)
    for s in range(len(ndiv)):
        W.assume(W.b_or(*[pts[s][d] != pts[s + 1][d] for d in range(dim)]))
    n = 1
    ln = mtl.MTL(l=2.0, c=0.5, node_positions=W.array(pts), ndiv=list(ndiv))
    _check_mesh(W, ln, pts, ndiv, "poly", n)


@harness(quick=[dict(ndiv=(1, 2), n=1), dict(ndiv=(3, 1), n=2), dict(ndiv=(2, 1, 2), n=1)],
         thorough=[dict(ndiv=(2, 3, 1, 2), n=2)])
def axis_polyline_lengths(W, ndiv, n):
    """staircase polylines with symbolic segment lengths: the length every
    cell acts with in the update, and the dual length of every node"""
    mtl = W.mod("mtl")
    h = [W.pos("len%d" % s) for s in range(len(ndiv))]
    axis = [2, 0, 1, 2][:len(ndiv)]
    pts = [[W.num(0)] * 3]
    for s in range(len(ndiv)):
        q = list(pts[-1])
        q[axis[s]] = q[axis[s]] + h[s]
        pts.append(q)
    L, Cm = W.const_spd("L", n), W.const_spd("C", n)
    ln = mtl.MTL(l=L, c=Cm, node_positions=W.array(pts), ndiv=list(ndiv))
    _check_mesh(W, ln, pts, ndiv, "stair", n)
    ln.dt = W.pos("dt")
    ln.update_lr_terms()
    ln.update_cg_terms()
    v, i = set_state(W, ln)
    ln.update_sources()
    ln.advance_voltage()
    ln.advance_current()
    dx = [h[s] / m for s, m in enumerate(ndiv) for _ in range(m)]
    for k in range(1, len(dx)):
        W.check_eq(Cm.dot(ln.v[:, k] - v[:, k]) * (dx[k - 1] + dx[k]) / 2, (i[:, k - 1] - i[:, k]) * ln.dt, "dual cell length")
    for k in range(len(dx)):
        W.check_eq(L.dot(ln.i[:, k] - i[:, k]) * dx[k], (ln.v[:, k] - ln.v[:, k + 1]) * ln.dt, "cell length")


@harness(quick=[dict(cells=1), dict(cells=3), dict(cells=4)], thorough=[dict(cells=12)])
def straight_default(W, cells):
    """`length` without node positions: a straight line along z from 0"""
    mtl = W.mod("mtl")
    length = W.pos("length")
    for nd in ([cells], cells):
        ln = mtl.MTL(l=2.0, c=0.5, length=length, ndiv=nd)
        pts = [[W.num(0), W.num(0), W.num(0)], [W.num(0), W.num(0), length]]
        _check_mesh(W, ln, pts, [cells], "straight", 1)


@harness(quick=[dict(ndiv=(1, 2), two=True)], thorough=[dict(ndiv=(3, 1, 2), two=True)])
def bundle_mesh(W, ndiv, two):
    """a bundle lives on the mesh of its lines, and refuses lines on another mesh"""
    mtl = W.mod("mtl")
    pts = _points(W, len(ndiv), 3)
    for s in range(len(ndiv)):
        W.assume(W.b_or(*[pts[s][d] != pts[s + 1][d] for d in range(3)]))
    mk = lambda p, nm: mtl.MTL(l=2.0, c=0.5, node_positions=W.array(p), ndiv=list(ndiv), name=nm)
    a, b = mk(pts, "a"), mk(pts, "b")
    bd = mtl.MTLD({0: [a], 1: [b]}, name="bundle")
    _check_mesh(W, bd, pts, ndiv, "bundle", 2)
    off = W.real("offset")
    W.assume(W.b_or(off > W.frac(1, 64), off < W.frac(-1, 64)))
    pts2 = [list(p) for p in pts]
    pts2[-1][0] = pts2[-1][0] + off
    W.assume(W.b_or(*[pts2[-2][d] != pts2[-1][d] for d in range(3)]))
    c = mk(pts2, "c")
    W.check(W.raises(lambda: mtl.MTLD({0: [a], 1: [c]}, name="bad"), (AssertionError, ValueError)), "mesh mismatch refused")
