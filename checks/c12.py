"""C12: transfer impedance between bundle levels."""
from engine.harness import harness
from .common import *
from .c11 import pole_model, Phi

OUTSIDE = "more than 3 levels, more than 2 inner conductors, more than 2 real poles or one complex pair, more than 3 steps"


def _bundle(W, sizes, cells, dt):
    mtl = W.mod("mtl")
    length = W.const("len")
    levels = {}
    for k, n in enumerate(sizes):
        ln = line_const(W, n, tag="l%d" % k, length=length, ndiv=[cells], name="l%d" % k, Z=False)
        ln.dt = dt
        levels[k] = [ln]
    b = mtl.MTLD(levels, name="b")
    b.dt = dt
    return b, [length / cells] * cells


def _run(W, b, dx, dt, links, steps):
    """links: list of (victim, source, {cell: Phi})"""
    b.update_lr_terms(); b.update_cg_terms()
    L, R = b.l[0].copy(), b.r[0].copy()
    s0 = set_state(W, b)
    for step in range(steps):
        b.update_sources(dt, dt)
        b.advance_voltage(); b.advance_current()
        s1 = (W.out(b.v), W.out(b.i))
        for j in range(len(dx)):
            lhs = (L.dot(s1[1][:, j] - s0[1][:, j]) / dt + R.dot(s1[1][:, j] + s0[1][:, j]) / 2) * dx[j] + s1[0][:, j + 1] - s1[0][:, j]
            for victim, source, ph in links:
                if j in ph:
                    unit = W.np.zeros(b.number_of_conductors)
                    unit[victim] = 1.0
                    lhs = lhs - unit * ph[j].drop(s1[1][source, j], s0[1][source, j]) * dx[j]
            W.check_eq(lhs, 0 * lhs, "flux balance with transfer impedance, step %d" % step)
        s0 = s1


@harness(quick=[dict(kind="none", inner=2), dict(kind="real", inner=1), dict(kind="real2", inner=1), dict(kind="complex", inner=1),
                dict(kind="real", inner=2)],
         thorough=[dict(kind="real2", inner=2), dict(kind="complex", inner=2)], timeout=700)
def distributed(W, kind, inner):
    """per-unit-length transfer impedance, direction in / out / both, between a
    shield and the conductors inside it"""
    dt = W.const("dt")
    b, dx = _bundle(W, (1, inner), 2, dt)
    direction = W.choice("direction", ["in", "out", "both"])
    m = pole_model(W, kind)
    if W.bool("factor"):
        m2 = dict(m, factor=W.const("factor"))
    else:
        m2 = dict(m)
    b.add_transfer_impedance(0, [0], 1, list(range(inner)), dict(m2, direction=direction))
    f = m2.get("factor", 1)
    mm = dict(m, cte=m["cte"] / f, prop=m["prop"] / f,
              residues={q: [x / f for x in m["residues"][q]] for q in ("real", "imag")})
    links = []
    for j in range(inner):
        if direction in ("in", "both"):
            links.append((1 + j, 0, {k: Phi(W, mm, dt) for k in range(2)}))
        if direction in ("out", "both"):
            links.append((0, 1 + j, {k: Phi(W, mm, dt) for k in range(2)}))
    _run(W, b, dx, dt, links, 1 if kind == "none" else 2)


def _link(W, b, swap, out, outs, inn, inns, m, end=None):
    """hands a transfer impedance over with its levels in either order"""
    if swap:
        out, outs, inn, inns = inn, inns, out, outs
        m = dict(m, direction={"in": "out", "out": "in", "both": "both"}[m["direction"]])
    if end is None:
        b.add_transfer_impedance(out, outs, inn, inns, m)
    else:
        b.set_connector_transfer_impedance(end, out, outs, inn, inns, m)


@harness(quick=[dict(kind="none"), dict(kind="real")], timeout=700)
def inner_first(W, kind):
    """levels of different sizes, given outer or inner level first; then the one at an end"""
    dt = W.const("dt")
    b, dx = _bundle(W, (1, 3, 1, 2), 2, dt)
    swap = W.bool("inner first")
    m = [pole_model(W, kind if k == 0 else "none", tag="m%d" % k) for k in range(3)]
    _link(W, b, swap, 0, [0], 1, [2], dict(m[0], direction="in"))
    _link(W, b, swap, 1, [1], 2, [0], dict(m[1], direction="both"))
    _link(W, b, swap, 2, [0], 3, [1], dict(m[2], direction="out"))
    links = [(3, 0, {j: Phi(W, m[0], dt) for j in range(2)}), (4, 6, {j: Phi(W, m[2], dt) for j in range(2)})]
    e = pole_model(W, "none", tag="e")
    _link(W, b, swap, 1, [0], 2, [0], dict(e, direction="in"), "end")
    links.append((4, 1, {1: Phi(W, e, dt)}))
    for x, y in ((4, 2), (2, 4)):
        links.append((x, y, {j: Phi(W, m[1], dt) for j in range(2)}))
    _run(W, b, dx, dt, links, 1 if kind == "none" else 2)


@harness(quick=[dict(kind="real"), dict(kind="none")], thorough=[dict(kind="complex")], timeout=700)
def three_levels(W, kind):
    """nested shields: each level couples only to the next one, separate histories per pair"""
    dt = W.const("dt")
    b, dx = _bundle(W, (1, 1, 2), 1, dt)
    m0, m1 = pole_model(W, kind, tag="a"), pole_model(W, kind, tag="b")
    b.add_transfer_impedance(0, [0], 1, [0], dict(m0, direction="in"))
    which = W.choice("which", [[0], [1], [0, 1]])
    b.add_transfer_impedance(1, [0], 2, which, dict(m1, direction="both"))
    links = [(1, 0, {0: Phi(W, m0, dt)})]
    for j in which:
        links += [(2 + j, 1, {0: Phi(W, m1, dt)}), (1, 2 + j, {0: Phi(W, m1, dt)})]
    _run(W, b, dx, dt, links, 2)


@harness(quick=[dict(kind="none"), dict(kind="real"), dict(kind="zero", base="real2"), dict(kind="none", base="real"), dict(kind="real", base="real2"), dict(kind="complex", cells=1)],
         thorough=[dict(kind="complex"), dict(kind="real2", base="complex"), dict(kind="zero", base="none")], timeout=700)
def at_end(W, kind, base="none", cells=3):
    """a connector's transfer impedance acts in the end cell it is mounted on, and only there"""
    dt = W.const("dt")
    b, dx = _bundle(W, (1, 1), cells, dt)
    side = W.choice("side", ["initial", "end"])
    direction = W.choice("direction", ["in", "out", "both"])
    m = pole_model(W, kind) if kind != "zero" else dict(pole_model(W, "none"), cte=W.num(0), prop=W.num(0))
    over = cells > 1 and W.bool("over")
    links = []
    base = pole_model(W, base, tag="base")
    if over:
        b.add_transfer_impedance(0, [0], 1, [0], dict(base, direction="both"))
    b.set_connector_transfer_impedance(side, 0, [0], 1, [0], dict(m, direction=direction))
    k = 0 if side == "initial" else cells - 1
    for (v, s), on in (((1, 0), direction in ("in", "both")), ((0, 1), direction in ("out", "both"))):
        ph = {}
        for j in range(cells):
            if j == k and on:
                ph[j] = Phi(W, m, dt)
            elif over:
                ph[j] = Phi(W, base, dt)
        links.append((v, s, ph))
    _run(W, b, dx, dt, links, 2)
    W.check(W.raises(lambda: b.set_connector_transfer_impedance("middle", 0, [0], 1, [0], dict(m, direction="in"))),
            "unknown end rejected")


@harness(quick=[dict(inner=1), dict(inner=2)], timeout=600)
def at_end_deep(W, inner):
    """the same on an inner shield, and on some of the conductors inside it"""
    dt = W.const("dt")
    b, dx = _bundle(W, (1, 2, inner), 2, dt)
    side = W.choice("side", ["initial", "end"])
    direction = W.choice("direction", ["in", "out", "both"])
    out = W.int("shield", 0, 1)
    m = pole_model(W, "real")
    given = m
    if inner == 2:
        # a model scaled by a factor
        f = W.const("factor")
        given = dict(m, factor=f)
        m = dict(m, cte=m["cte"] / f, prop=m["prop"] / f, residues={q: [x / f for x in m["residues"][q]] for q in ("real", "imag")})
    b.set_connector_transfer_impedance(side, 1, [out], 2, [inner - 1], dict(given, direction=direction))
    k = 0 if side == "initial" else 1
    x, y = 1 + out, 2 + inner
    links = []
    if direction in ("in", "both"):
        links.append((y, x, {k: Phi(W, m, dt)}))
    if direction in ("out", "both"):
        links.append((x, y, {k: Phi(W, m, dt)}))
    _run(W, b, dx, dt, links, 2)


@harness(quick=[dict(kinds=("real", "real")), dict(kinds=("none", "real")), dict(kinds=("real", "none"))],
         thorough=[dict(kinds=("complex", "real"))], timeout=700)
def in_parts(W, kinds):
    """a transfer impedance given in two parts is the sum of both"""
    dt = W.const("dt")
    b, dx = _bundle(W, (1, 1), 1, dt)
    dirs = [W.choice("dir%d" % k, ["in", "out", "both"]) for k in range(2)]
    links = []
    for k, kind in enumerate(kinds):
        m = pole_model(W, kind, tag="m%d" % k)
        b.add_transfer_impedance(0, [0], 1, [0], dict(m, direction=dirs[k]))
        if dirs[k] in ("in", "both"):
            links.append((1, 0, {0: Phi(W, m, dt)}))
        if dirs[k] in ("out", "both"):
            links.append((0, 1, {0: Phi(W, m, dt)}))
    _run(W, b, dx, dt, links, 2)


@harness(quick=[{}])
def only_adjacent(W):
    """transfer impedance exists only between adjacent levels"""
    b, dx = _bundle(W, (1, 1, 1), 1, W.const("dt"))
    m = dict(pole_model(W, "none"), direction="in")
    W.check(W.raises(lambda: b.add_transfer_impedance(0, [0], 2, [0], m)), "skipping a level is rejected")
    W.check(W.raises(lambda: b.add_transfer_impedance(1, [0], 1, [0], m)), "same level is rejected")
    W.check_eq(b.transfer_impedance.d, 0 * b.transfer_impedance.d, "nothing was attached")
