"""C13: lumped resistances and conductances over a region of a line."""
from engine.harness import harness
from .common import *

OUTSIDE = "more than 2 conductors per line or 3 in a bundle, more than 5 cells; regions given end before start; positions exactly between two nodes"


def _mesh(W, ndiv, neg=False):
    """cells of a line from the origin on, or (neg) with the origin inside its last segment"""
    lens = [W.const("len%d" % s) for s in range(len(ndiv))]
    dx = cell_lengths(lens, ndiv)
    z = [W.num(0) if not neg else -(sum(lens[:-1]) + lens[-1] * W.frac(2, 5))]
    for h in dx:
        z.append(z[-1] + h)
    return lens, dx, z


def _near(W, z, k, tag):
    """a position whose nearest node is k: symbolic offset of less than half a cell"""
    N = len(z) - 1
    lo = W.num(0) if k == 0 else (z[k] - z[k - 1]) * W.frac(-2, 5)
    hi = W.num(0) if k == N else (z[k + 1] - z[k]) * W.frac(2, 5)
    off = W.real("off" + tag)
    W.assume([off >= lo, off <= hi])
    return z[k] + off


def _pos(W, form, z):
    if form == "float":
        return z
    if form == "list":
        return [W.num(0), W.num(0), z]
    return W.array([W.num(0), W.num(0), z])


def _region(W, z, point):
    N = len(z) - 1
    a = W.int("a", 0, N)
    if point:
        return a, a, *[_near(W, z, a, "a")] * 2
    b = W.int("b", 0, N)
    W.assume(a < b)
    return a, b, _near(W, z, a, "a"), _near(W, z, b, "b")


def _cells(a, b, N):
    """cells between two nodes; the cell after a single node (before the last one)"""
    if a == b:
        return [min(a, N - 1)]
    return list(range(a, b))


def _build(W, kind, ndiv, lens, start):
    mtl, mtln = W.mod("mtl"), W.mod("mtln")
    pts = zpoints(W, lens)
    pts = W.array([[p[0], p[1], p[2] + (start - pts[0, 2])] for p in pts])
    if kind == "bundle":
        parts = [line_const(W, 1 + k, "p%d" % k, node_positions=pts, ndiv=list(ndiv), Z=False, name="p%d" % k) for k in range(2)]
        ln = mtl.MTLD({0: [parts[0]], 1: [parts[1]]}, name="b")
        run = mtln.MTLN(bundles=[ln])
        return ln, run, 3
    n = kind
    ln = line_const(W, n, node_positions=pts, ndiv=list(ndiv))
    return ln, ln, n


def _go(W, ln, run, dt):
    if run is ln:
        ln.dt = dt
        s0 = set_state(W, ln)
        run.run_until(dt * W.frac(3, 2))
    else:
        s0 = set_state(W, ln)
        run.run_until(dt * W.frac(3, 2), dt)
    return s0, (W.out(ln.v), W.out(ln.i))


@harness(quick=[dict(kind=1, ndiv=(1, 2), form="float", point=False), dict(kind=2, ndiv=(2, 1), form="array", point=False),
                dict(kind="bundle", ndiv=(1, 2), form="array", point=False), dict(kind="bundle", ndiv=(2,), form="float", point=False),
                dict(kind=1, ndiv=(2, 1), form="list", point=True), dict(kind=2, ndiv=(1, 2), form="float", point=True),
                dict(kind="bundle", ndiv=(1, 1), form="float", point=True),
                dict(kind=1, ndiv=(1, 3), form="float", point=False, neg=True), dict(kind="bundle", ndiv=(1, 3), form="array", point=False, neg=True)],
         thorough=[dict(kind=2, ndiv=(3, 2), form="array", point=False), dict(kind="bundle", ndiv=(2, 2), form="float", point=False)])
def resistance(W, kind, ndiv, form, point, neg=False):
    """the resistance appears as that total, on those cells, on that conductor"""
    lens, dx, z = _mesh(W, ndiv, neg)
    N = len(dx)
    ln, run, n = _build(W, kind, ndiv, lens, z[0])
    L, Cm, G, R = ln.l[0].copy(), ln.c[0].copy(), ln.g[0].copy(), ln.r[0].copy()
    zs = None if run is not ln else (ln.zs.diagonal().copy(), ln.zl.diagonal().copy())
    dt = W.const("dt")
    c = W.int("cond", 0, n - 1)
    a, b, pa, pb = _region(W, z, point)
    Rv = W.nonneg("Rlump")
    if point and kind != "bundle":
        ln.set_resistance_at_point(_pos(W, form, pa), c, Rv)
    else:
        ln.set_resistance_in_region(_pos(W, form, pa), _pos(W, form, pb), c, Rv)
    cells = _cells(a, b, N)
    tot = sum(dx[k] for k in cells)
    Rk = []
    for k in range(N):
        M = R.copy()
        if k in cells:
            M[c, c] = Rv / tot
        Rk.append(M)
    s0, s1 = _go(W, ln, run, dt)
    check_interior(W, dx, L, Cm, Rk, G, s0, s1, dt)
    if zs:
        check_terminals(W, dx, Cm, G, zs[0], zs[1], s0, s1, dt)


@harness(quick=[dict(kind=1, ndiv=(1, 2), form="float", point=False), dict(kind=2, ndiv=(2, 1), form="array", point=False),
                dict(kind="bundle", ndiv=(1, 2), form="array", point=False), dict(kind="bundle", ndiv=(2,), form="float", point=False),
                dict(kind=1, ndiv=(2, 1), form="list", point=True), dict(kind=2, ndiv=(1, 2), form="float", point=True),
                dict(kind="bundle", ndiv=(1, 1), form="float", point=True),
                dict(kind=1, ndiv=(1, 3), form="float", point=False, neg=True), dict(kind="bundle", ndiv=(1, 3), form="array", point=False, neg=True)],
         thorough=[dict(kind=2, ndiv=(3, 2), form="array", point=False), dict(kind="bundle", ndiv=(2, 2), form="float", point=False)])
def conductance(W, kind, ndiv, form, point, neg=False):
    """the conductance to the reference appears as that total, on the nodes of the region, on that conductor"""
    lens, dx, z = _mesh(W, ndiv, neg)
    N = len(dx)
    ln, run, n = _build(W, kind, ndiv, lens, z[0])
    L, Cm, G, R = ln.l[0].copy(), ln.c[0].copy(), ln.g[0].copy(), ln.r[0].copy()
    zs = None if run is not ln else (ln.zs.diagonal().copy(), ln.zl.diagonal().copy())
    dt = W.const("dt")
    c = W.int("cond", 0, n - 1)
    a, b, pa, pb = _region(W, z, point)
    Gv = W.nonneg("Glump")
    if point and kind != "bundle":
        ln.add_conductance_at_point(_pos(W, form, pa), c, Gv)
    else:
        ln.add_conductance_in_region(_pos(W, form, pa), _pos(W, form, pb), c, Gv)
    h = [dx[0] / 2] + [(dx[k - 1] + dx[k]) / 2 for k in range(1, N)] + [dx[-1] / 2]
    tot = sum(h[k] for k in range(a, b + 1))
    Gk = []
    for k in range(N + 1):
        M = G.copy()
        if a <= k <= b:
            M[c, c] = M[c, c] + Gv / tot
        Gk.append(M)
    s0, s1 = _go(W, ln, run, dt)
    check_interior(W, dx, L, Cm, R, Gk, s0, s1, dt)
    if zs:
        check_terminals(W, dx, Cm, Gk, zs[0], zs[1], s0, s1, dt)


