"""C02: the default time step respects the stability limit."""
from engine.harness import harness
from .common import *

OUTSIDE = "symbolic matrices of more than 2 conductors (3 conductors: concrete seeded matrices)"


def _cfl(W, L, Cm, dx, dt, label):
    """dt <= dx / vmax for the modal velocities of (L, C):  dt^2/dx^2 <= lambda_min(L C)"""
    n = L.shape[0]
    M = L.dot(Cm)
    t = dt * dt / (dx * dx)
    if n == 1:
        W.check(t <= M[0, 0] * W.num(1 + 1e-9), label)
        return
    if n == 2:
        M = M * W.num(1 + 1e-9)
        W.check(M[0, 0] + M[1, 1] - 2 * t >= 0, label + ":trace")
        W.check((M[0, 0] - t) * (M[1, 1] - t) - M[0, 1] * M[1, 0] >= 0, label + ":det")
        return
    raise ValueError


def _tight(W, L, Cm, dx, dt, label):
    n = L.shape[0]
    M = L.dot(Cm)
    t = dt * dt / (dx * dx)
    if n == 1:
        W.check_eq(t, M[0, 0], label)
    else:
        W.check_eq((M[0, 0] - t) * (M[1, 1] - t), M[0, 1] * M[1, 0], label)


def modal_pair(W, lam, tag="T"):
    """SPD L, C with L C = T diag(lam) T^-1 for a concrete T:  C = (T T^t)^-1, L = T diag(lam) T^t"""
    T = W.const_full(tag, len(lam))
    Ti = W.np.linalg.inv(T)
    return T.dot(W.np.diag(W.array(lam))).dot(T.T), Ti.T.dot(Ti)


@harness(quick=[dict(n=1, cells=1), dict(n=1, cells=3), dict(n=2, cells=2)], thorough=[dict(n=2, cells=4)])
def uniform_line(W, n, cells):
    """uniform line: dt is exactly cell length / fastest modal velocity"""
    mtl = W.mod("mtl")
    length = W.pos("length")
    if n == 1:
        L, Cm = W.spd("L", n), W.spd("C", n)
    else:
        L, Cm = modal_pair(W, [W.pos("lam%d" % k) for k in range(n)])
    ln = mtl.MTL(l=L, c=Cm, length=length, ndiv=[cells])
    W.check(ln.dt > 0, "positive")
    _cfl(W, L, Cm, length / cells, ln.dt, "within limit")
    _tight(W, L, Cm, length / cells, ln.dt, "equals limit")
    vel = ln.get_phase_velocities()
    W.check(vel.shape == (cells, n), "one velocity per mode and cell")
    M = L.dot(Cm)
    for k in range(cells):
        tot = W.num(0)
        for a in range(n):
            lam = 1 / (vel[k, a] * vel[k, a])
            tot = tot + lam
            if n == 1:
                W.check_eq(lam, M[0, 0], "velocity")
            else:
                W.check_eq((M[0, 0] - lam) * (M[1, 1] - lam), M[0, 1] * M[1, 0], "velocity")
            W.check(vel[k, a] > 0, "velocity positive")
        W.check_eq(tot, sum(M[a, a] for a in range(n)), "velocities are all the modes")


@harness(quick=[dict(ndiv=(1, 2)), dict(ndiv=(2, 1)), dict(ndiv=(1, 3, 1))], thorough=[dict(ndiv=(2, 3, 1, 2))])
def nonuniform_line(W, ndiv):
    """unequal cells: dt respects the limit of the shortest one"""
    mtl = W.mod("mtl")
    h = [W.pos("len%d" % s) for s in range(len(ndiv))]
    pts, z = [[W.num(0)] * 3], W.num(0)
    for s in range(len(ndiv)):
        z = z + h[s]
        pts.append([W.num(0), W.num(0), z])
    L, Cm = W.pos("L"), W.pos("C")
    ln = mtl.MTL(l=W.array([[L]]), c=W.array([[Cm]]), node_positions=W.array(pts), ndiv=list(ndiv))
    W.check(ln.dt > 0, "positive")
    dxs = [h[s] / m for s, m in enumerate(ndiv)]
    for dx in dxs:
        _cfl(W, W.array([[L]]), W.array([[Cm]]), dx, ln.dt, "within limit of every cell")
    W.check(W.b_or(*[ln.dt * ln.dt >= dx * dx * L * Cm * W.num(1 - 1e-9) for dx in dxs]), "limit of some cell is reached")


@harness(quick=[dict(n=3)], thorough=[dict(n=4)])
def many_conductors(W, n):
    """concrete n-conductor matrices, symbolic length: all modes considered"""
    mtl = W.mod("mtl")
    length = W.pos("length")
    # modal construction with known modes: L C = T diag(lam) T^-1
    lam = [W.frac(k * k, 4) for k in range(2, n + 2)]
    order = W.int("rot", 0, n - 1)
    lam = lam[order:] + lam[:order]
    L, Cm = modal_pair(W, lam)
    ln = mtl.MTL(l=L, c=Cm, length=length, ndiv=[2])
    dx = length / 2
    lmin = W.num(1)
    W.check_eq(ln.dt, dx * lmin, "fastest mode decides", tol=1e-5)


@harness(quick=[dict(nl=2), dict(nl=3)], thorough=[dict(nl=4)])
def bundle_minimum(W, nl):
    """a bundle steps no faster than any of its lines; a network no faster than any bundle"""
    mtl, mtln = W.mod("mtl"), W.mod("mtln")
    length = W.pos("length")
    lines, p = [], []
    for k in range(nl):
        a, b = W.pos("L%d" % k), W.pos("C%d" % k)
        p.append(a * b)
        lines.append(mtl.MTL(l=W.array([[a]]), c=W.array([[b]]), length=length, ndiv=[2], name="line%d" % k))
    W.assume([length <= 1000] + [q <= 1000 for q in p], "line limits far below the 1e10 s sentinel")
    levels = {k: [x] for k, x in enumerate(lines)} if nl < 3 else {0: [lines[0]], 1: lines[1:]}
    bd = mtl.MTLD(levels, name="bundle")
    dx = length / 2
    W.check(bd.dt > 0, "bundle positive")
    for q in p:
        W.check(bd.dt * bd.dt <= dx * dx * q * W.num(1 + 1e-9), "bundle within every line")
    W.check(W.b_or(*[bd.dt * bd.dt >= dx * dx * q * W.num(1 - 1e-9) for q in p]), "bundle reaches a line's limit")


@harness(quick=[dict(nb=2), dict(nb=3)], thorough=[dict(nb=4)])
def network_minimum(W, nb):
    """the manager's step is the smallest bundle step, whatever the adding order"""
    mtl, mtln = W.mod("mtl"), W.mod("mtln")
    bundles, lim = [], []
    for k in range(nb):
        length, q = W.pos("len%d" % k), W.frac(k + 2, 2)
        ln = mtl.MTL(l=W.array([[q]]), c=W.array([[q]]), length=length, ndiv=[2], name="line%d" % k)
        lim.append(length / 2 * q)
        bundles.append(mtl.MTLD({0: [ln]}, name="b%d" % k))
    W.assume([x <= W.num(1000) for x in lim])
    ctor = W.bool("ctor")
    if ctor:
        net = mtln.MTLN(bundles=bundles)
    else:
        net = mtln.MTLN()
        for b in bundles:
            net.add_bundle(b)
    for x in lim:
        W.check(net.dt <= x * W.num(1 + 1e-9), "network within every bundle")
    W.check(W.b_or(*[net.dt >= x * W.num(1 - 1e-9) for x in lim]), "network reaches a bundle's limit")
