"""C16: probes."""
from engine.harness import harness
from .common import *

OUTSIDE = "positions exactly half way between two nodes; more than 4 cells, 2 conductors, 4 recorded steps"


def _system(W, kind, pts, ndiv, tag="ln"):
    """returns (object carrying probes and unknowns, runner with run_until/step)"""
    mtl, mtln, nw = W.mod("mtl"), W.mod("mtln"), W.mod("networks")
    if kind == "line":
        ln = line_const(W, 2, node_positions=W.array(pts), ndiv=list(ndiv))
        return ln, ln
    parts = [line_const(W, 1, "p%d" % k, node_positions=W.array(pts), ndiv=list(ndiv), Z=False, name="p%d" % k) for k in range(2)]
    b = mtl.MTLD({0: [parts[0]], 1: [parts[1]]}, name="b")
    conn = {"connectorType": "Conn_R", "resistance": 1.0}
    nets = []
    for side, base in (("S", 0), ("L", 2)):
        lev = {}
        for k in range(2):
            lev[k] = nw.Network({parts[k]: {"connections": [[base + k, 0, conn]], "side": side, "bundle": b}})
            lev[k].connect_to_ground(base + k, W.const("R%d" % (base + k)))
        nets.append(nw.NetworkD(lev))
    return b, mtln.MTLN(bundles=[b], networks=nets)


def _state(W, ob, v, i):
    ob.v[...] = v
    ob.i[...] = i


def _run(W, run, ob, T, dt):
    if run is ob:
        ob.dt = dt
        run.run_until(T)
    else:
        run.run_until(T, dt)


PATHS = {"z": [(0, 0, 1)] * 4, "down": [(0, 0, -1)] * 4, "corner": [(0, 0, 1), (1, 0, 0), (0, 0, -1), (0, -1, 0)],
         "oblique": [(0, 3, 4), (0, 4, -3)]}


def _points(W, path, ndiv):
    lens = [W.const("len%d" % s) for s in range(len(ndiv))]
    pts = [[W.num(0)] * 3]
    for h, d in zip(lens, PATHS[path]):
        pts.append([p + h * q for p, q in zip(pts[-1], d)])
    nodes = []
    for s, m in enumerate(ndiv):
        for k in range(m):
            nodes.append([p + (q - p) * W.frac(k, m) for p, q in zip(pts[s], pts[s + 1])])
    nodes.append(pts[-1])
    return pts, nodes


@harness(quick=[dict(kind="line", path="z", ndiv=(1, 2)), dict(kind="line", path="corner", ndiv=(1, 1, 1)), dict(kind="bundle", path="z", ndiv=(2, 1)),
                dict(kind="bundle", path="corner", ndiv=(1, 1, 1)), dict(kind="line", path="down", ndiv=(2,)), dict(kind="bundle", path="oblique", ndiv=(1, 2))],
         thorough=[dict(kind="bundle", path="corner", ndiv=(2, 1, 1)), dict(kind="line", path="corner", ndiv=(1, 2, 1))], timeout=500)
def nearest(W, kind, path, ndiv):
    """a probe anywhere on the line records the node nearest to it, or the cell after that node"""
    pts, nodes = _points(W, path, ndiv)
    N = len(nodes) - 1
    ob, run = _system(W, kind, pts, ndiv)
    cell = W.int("cell", 0, N - 1)
    f = W.real("f", lo=0, hi=1)
    pos = [p + (q - p) * f for p, q in zip(nodes[cell], nodes[cell + 1])]
    near = W.int("near", 0, N)
    d2 = lambda k: sum((p - q) ** 2 for p, q in zip(pos, nodes[k]))
    W.assume([d2(near) < d2(k) for k in range(N + 1) if k != near])
    P = W.array(pos)
    pv, pi = ob.add_probe(P, "voltage"), ob.add_probe(P, "current")
    dt = W.const("dt")
    v, i = W.reals("v", (2, N + 1)), W.reals("i", (2, N))
    _state(W, ob, v, i)
    _run(W, run, ob, dt * W.frac(3, 2), dt)
    W.check(pv.val.shape == (1, 2) and pi.val.shape == (1, 2), "one frame per step, one column per conductor")
    W.check_eq(pv.val[0], ob.v[:, near], "voltage at the nearest node")
    W.check_eq(pi.val[0], ob.i[:, min(near, N - 1)], "current of the cell after the nearest node")
    W.check_eq(pv.t, W.array([dt]), "voltage time")
    W.check_eq(pi.t, W.array([dt * W.frac(3, 2)]), "current time")


@harness(quick=[dict(kind="line", steps=3), dict(kind="bundle", steps=2)], thorough=[dict(kind="line", steps=4), dict(kind="bundle", steps=3)], timeout=500)
def history(W, kind, steps):
    """every step is recorded once, in order; probes do not disturb the run; a second run records its own steps"""
    pts, nodes = _points(W, "z", (1, 1))
    N = 2
    dt = W.const("dt")
    v, i = W.reals("v", (2, N + 1)), W.reals("i", (2, N))
    ref, rrun = _system(W, kind, pts, (1, 1))
    _state(W, ref, v, i)
    hist = []
    for _ in range(2 * steps):
        _run(W, rrun, ref, dt * W.frac(3, 2), dt)
        hist.append((ref.v.copy(), ref.i.copy()))
    ob, run = _system(W, kind, pts, (1, 1))
    at = W.int("node", 0, N)
    P = W.array(nodes[at])
    pv, pi, p2 = ob.add_probe(P, "voltage"), ob.add_probe(P, "current"), ob.add_probe(W.array(nodes[0]), "voltage")
    _state(W, ob, v, i)
    for part in range(2):
        _run(W, run, ob, dt * (steps + W.frac(1, 2)), dt)
        W.check_eq(ob.v, hist[(part + 1) * steps - 1][0], "probes do not change the voltages")
        W.check_eq(ob.i, hist[(part + 1) * steps - 1][1], "probes do not change the currents")
        for p, kindp in ((pv, "v"), (pi, "i"), (p2, "0")):
            W.check(p.val.shape == (steps, 2) and p.t.shape == (steps,), "as many frames as steps")
            for s in range(steps):
                vv, ii = hist[part * steps + s]
                want = {"v": vv[:, at], "i": ii[:, min(at, N - 1)], "0": vv[:, 0]}[kindp]
                W.check_eq(p.val[s], want, "frame %d" % s)
                W.check_eq(p.t[s], dt * (part * steps + s + 1) + (dt / 2 if kindp == "i" else 0), "time %d" % s)


@harness(quick=[dict(kind="line", path="z"), dict(kind="bundle", path="z"), dict(kind="bundle", path="corner"), dict(kind="line", path="down"), dict(kind="line", path="corner")])
def outside(W, kind, path):
    """positions beyond the line are rejected, positions on it accepted"""
    ndiv = {"z": (2, 1), "down": (2,), "corner": (1, 1, 1)}[path]
    pts, nodes = _points(W, path, ndiv)
    ob, run = _system(W, kind, pts, ndiv)
    what = W.choice("type", ["voltage", "current"])
    end = W.choice("end", ["near", "far", "inside"])
    f = W.pos("f")
    W.assume(f >= W.frac(1, 1000))
    if end == "inside":
        cell = W.int("cell", 0, len(nodes) - 2)
        W.assume(f <= W.frac(999, 1000))
        pos = [p + (q - p) * f for p, q in zip(nodes[cell], nodes[cell + 1])]
        W.check(not W.raises(lambda: ob.add_probe(W.array(pos), what)), "a position on the line is accepted")
        W.check(not W.raises(lambda: ob.add_probe(W.array(nodes[cell]), what)), "a node is accepted")
        W.check(not W.raises(lambda: ob.add_probe(W.array(nodes[-1]), what)), "the last node is accepted")
        return
    if path == "corner" and kind == "line":
        # a line only rejects what lies outside the box around it
        a, b = nodes[-1], nodes[-1]
        pos = [a[0], a[1] - f, a[2]] if end == "near" else [a[0], a[1] + f, a[2]]
    elif end == "near":
        pos = [p - (q - p) * f for p, q in zip(nodes[0], nodes[1])]
    else:
        pos = [p + (p - q) * f for p, q in zip(nodes[-1], nodes[-2])]
        if path == "corner":
            # the third leg comes back down: beyond its end is below the start
            pass
    if path == "corner" and end == "near" and kind == "bundle":
        pos = [nodes[0][0], nodes[0][1] + f, nodes[0][2]]
        W.assume(f >= 1)
    W.check(W.raises(lambda: ob.add_probe(W.array(pos), what), (ValueError,)), "a position beyond the line is rejected")


@harness(quick=[dict(kind="line"), dict(kind="bundle")])
def float_position(W, kind):
    """a plain number means a distance along the third axis"""
    pts, nodes = _points(W, "z", (2, 1))
    ob, run = _system(W, kind, pts, (2, 1))
    k = W.int("node", 0, 3)
    a, b = ob.add_probe(nodes[k][2], "voltage"), ob.add_probe(W.array(nodes[k]), "voltage")
    dt = W.const("dt")
    _state(W, ob, W.reals("v", (2, 4)), W.reals("i", (2, 3)))
    _run(W, run, ob, dt * W.frac(3, 2), dt)
    W.check_eq(a.val, b.val, "same record")
    W.check_eq(a.val[0], ob.v[:, k], "record of that node")


@harness(quick=[dict(kind="line"), dict(kind="bundle")])
def lengths(W, kind):
    """runs of any lengths one after the other: the frames are those of the last one"""
    pts, nodes = _points(W, "z", (1, 1))
    ob, run = _system(W, kind, pts, (1, 1))
    _state(W, ob, W.reals("v", (2, 3)), W.reals("i", (2, 2)))
    dt = W.const("dt")
    pv, pi = ob.add_probe(W.array(nodes[1]), "voltage"), ob.add_probe(W.array(nodes[1]), "current")
    a, b = W.int("first", 0, 3), W.int("then", 0, 3)
    kept = []
    for n in (a, b):
        kept = [(x, x.copy()) for p in (pv, pi) for x in (p.val, p.t)]
        _run(W, run, ob, dt * (n + W.frac(1, 2)), dt)
    for x, y in kept:
        W.check_eq(x, y, "records taken out earlier stay")
    W.check(pv.val.shape == (b, 2) and pi.val.shape == (b, 2) and pv.t.shape == (b,) and pi.t.shape == (b,), "as many frames as steps of the last run")
    if b:
        W.check_eq(pv.val[b - 1], ob.v[:, 1], "the last frame is the last step")
        W.check_eq(pi.val[b - 1], ob.i[:, 1], "the last frame is the last step")
        W.check_eq(pv.t, W.array([dt * (a + k + 1) for k in range(b)]), "times")


@harness(quick=[dict(kind="line"), dict(kind="bundle")])
def by_hand(W, kind):
    """steps taken one by one, before or after a run, are recorded as well"""
    pts, nodes = _points(W, "z", (1, 1))
    N, steps = 2, 3
    dt = W.const("dt")
    v, i = W.reals("v", (2, N + 1)), W.reals("i", (2, N))
    ob, run = _system(W, kind, pts, (1, 1))
    _state(W, ob, v, i)
    after = W.bool("after a run")
    # chooses the step and prepares the terms; without steps, nothing is recorded
    _run(W, run, ob, dt * (W.frac(3, 2) if after else W.frac(1, 2)), dt)
    at = W.int("node", 0, N)
    pv, pi = ob.add_probe(W.array(nodes[at]), "voltage"), ob.add_probe(W.array(nodes[at]), "current")
    hist = []
    for _ in range(steps):
        run.step()
        hist.append((ob.v.copy(), ob.i.copy()))
    for s in range(steps):
        W.check_eq(pv.val[s], hist[s][0][:, at], "voltage of step %d" % s)
        W.check_eq(pi.val[s], hist[s][1][:, min(at, N - 1)], "current of step %d" % s)
        t = dt * (s + 1 + (1 if after else 0))
        W.check_eq(pv.t[s], t, "time of step %d" % s)
        W.check_eq(pi.t[s], t + dt / 2, "time of the current of step %d" % s)
    W.check(len(pv.t) == steps and len(pi.t) == steps and len(pv.val) == steps, "one frame per step")
