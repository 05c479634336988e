"""C29: reciprocity: the current at one place due to a voltage at another is the current there due to the same voltage here."""
from engine.harness import harness
from .systems import *

OUTSIDE = "transfer impedances acting in one direction only (not reciprocal by definition); more than 3 steps, 3 cells; unsymmetric matrices"


def _drive(W, kind, dt):
    """a voltage whose average over the step in which it acts is the same for terminals and cells"""
    f = W.func("f")
    zero = W.num(0)
    g = lambda t: f(t) if bool(t >= 0) else zero
    return (lambda t: g(t)) if kind == "T" else (lambda t: g(t - dt / 2))


def _lags(p, q, resp_pq, resp_qp):
    """pairs of observations of the two experiments that belong together; cells are half a step after terminals"""
    if p[0] == q[0]:
        return list(zip(resp_pq, resp_qp))
    if p[0] == "T":        # q is a cell: driven at the terminal, seen in the cell within the step; the reverse one step later
        return list(zip(resp_pq, resp_qp[1:]))
    return list(zip(resp_pq[1:], resp_qp))


def _line(W, n, N, p, q, dt, steps, els):
    """currents at q for a voltage at p"""
    lens = [W.const("len%d" % k) for k in range(N)]
    mtl = W.mod("mtl")
    L, C, R, G = (W.const_spd(x, n) for x in "LCRG")
    zs, zl = W.const_arr("Zs", (n,)), W.const_arr("Zl", (n,))
    pts = zpoints(W, lens)
    ln = mtl.MTL(l=L, c=C, r=R, g=G, node_positions=pts, ndiv=[1] * N, Zs=zs, Zl=zl, name="ln")
    ln.dt = dt
    if els:
        ln.add_dispersive_connector(pts[0], n - 1, model(W, 0))
        ln.add_dispersive_connector(pts[1], 0, model(W, 1, True))
        ln.set_resistance_in_region(pts[1], pts[N], 0, W.const("Rl"))
        ln.add_conductance_in_region(pts[1], pts[1], n - 1, W.const("Gl"))
    f = _drive(W, p[0], dt)
    if p[0] == "T":
        ln.add_voltage_source(pts[0] if p[1] == "S" else pts[N], p[2], f)
    else:
        h = lens[p[1]]
        ln.e_L[p[2], p[1]] = lambda t: f(t) / h
    src = lambda t: f(t) if p == q and p[0] == "T" else W.num(0)
    out, t = [], W.num(0)
    for m in range(steps):
        v0, i0 = ln.v.copy(), ln.i.copy()
        ln.run_until(dt * W.frac(3, 2))
        if q[0] == "T":
            k, z = (0, zs) if q[1] == "S" else (N, zl)
            out.append(((src(t) + src(t - dt)) / 2 - (v0[q[2], k] + ln.v[q[2], k]) / 2) / z[q[2]])
        else:
            out.append((i0[q[2], q[1]] + ln.i[q[2], q[1]]) / 2)
        t = t + dt
    return out


def _ports(n, N):
    return [("T", s, c) for s in "SL" for c in range(n)] + [("E", k, c) for k in range(N) for c in range(n)]


@harness(quick=[dict(p=p) for p in _ports(2, 2)], thorough=[dict(p=p, N=3, steps=4) for p in _ports(2, 3)], timeout=500)
def line(W, p, n=2, N=2, steps=3):
    """between all terminals and cells of a line with losses and lumped elements"""
    ps = _ports(n, N)
    q = W.choice("q", ps[ps.index(p) + 1:] or ps[:1])
    dt = W.frac(1, 4)
    # a voltage that drives current out of the far terminal is one that lowers it: the current towards the line is
    # seen with the sign of the terminal, the current in a cell with the direction of the line
    a = _line(W, n, N, p, q, dt, steps, True)
    b = _line(W, n, N, q, p, dt, steps, True)
    for x, y in _lags(p, q, a, b):
        W.check_eq(x, y, "current there due to a voltage here")


def _net(W, which, p, q, dt, steps):
    nw, mtln = W.mod("networks"), W.mod("mtln")
    layouts = {"many": [[[3]]], "shield": [[[1], [2]]], "junction": [[[1]], [[1]], [[1]]]}[which]
    cabs = [Cable(W, "b%d" % k, lv, (1, 1) if k == 0 else (1,), fields=False) for k, lv in enumerate(layouts)]
    if which == "shield":
        for c in range(2):
            cabs[0].b.add_transfer_impedance(0, [0], 1, [c], dict(model(W, c), direction="both"))
    f = {x: _drive(W, x[0], dt) for x in (p, q)}
    nets, num, joint, elems = [], 0, [], []
    for a, c in enumerate(cabs):
        for side in "SL":
            lev = {}
            for k, lv in enumerate(c.levels):
                ns = []
                for j, m in enumerate(lv):
                    for s in range(m):
                        ns.append(Node(W, c, k, j, side, s, num))
                        num += 1
                if which == "junction" and (a, side) in ((0, "L"), (1, "S"), (2, "S")):
                    joint += ns
                    continue
                es = []
                for x in ns:
                    es.append(Elem(W, "R", "e%d" % x.number, x, vs=f[p] if p == ("T", x.number) else None))
                    if x.number % 2 == 0:
                        es.append(Elem(W, ("C", "LC")[x.number // 2 % 2], "x%d" % x.number, x))
                if len(ns) > 1:
                    es.append(Elem(W, "RR", "r%d" % num, ns[0], ns[1]))
                    es.append(Elem(W, "RR", "rr%d" % num, *(ns[:2] if side == "S" else ns[1::-1])))
                elems += es
                lev[k] = network(W, ns, es)
            if lev:
                nets.append(nw.NetworkD(lev))
    if joint:
        es = [Elem(W, "RR", "j", joint[0], joint[1]), Elem(W, "RR", "k", joint[1], joint[2]), Elem(W, "C", "jc", joint[2])]
        elems += [Elem(W, "R", "e%d" % x.number, x, vs=f[p] if p == ("T", x.number) else None) for x in joint]
        nets.append(nw.NetworkD({0: network(W, joint, es + elems[-len(joint):])}))
    if p[0] == "E":
        h = cabs[p[1]].dx[p[2]]
        cabs[p[1]].b.e_L[p[3], p[2]] = lambda t: f[p](t) / h
    top = mtln.MTLN(bundles=[c.b for c in cabs], networks=nets)
    out, t = [], W.num(0)
    for m in range(steps):
        i0 = [c.b.i.copy() for c in cabs]
        top.run_until(dt * W.frac(3, 2), dt)
        for c in cabs:
            c.snap()
        if q[0] == "T":
            e = [x for x in elems if x.kind == "R" and x.n1.number == q[1]][0]
            out.append(e.step(t, dt))
        else:
            out.append((i0[q[1]][q[3], q[2]] + cabs[q[1]].b.i[q[3], q[2]]) / 2)
        t = t + dt
    return out


NET_PORTS = {"many": [("T", k) for k in range(6)] + [("E", 0, 0, 1), ("E", 0, 1, 2)],
             "shield": [("T", k) for k in range(6)] + [("E", 0, 0, 0), ("E", 0, 1, 2)],
             "junction": [("T", k) for k in range(6)] + [("E", 0, 0, 0), ("E", 1, 0, 0), ("E", 2, 0, 0)]}


@harness(quick=[dict(which=w, p=p) for w in NET_PORTS for p in NET_PORTS[w][:-1]], timeout=500)
def networks(W, which, p, steps=3):
    """between terminations, junctions and cells of bundles with inner levels"""
    ps = NET_PORTS[which]
    q = W.choice("q", ps[ps.index(p) + 1:])
    dt = W.frac(1, 4)
    a = _net(W, which, p, q, dt, steps)
    b = _net(W, which, q, p, dt, steps)
    for x, y in _lags(p, q, a, b):
        W.check_eq(x, y, "current there due to a voltage here")
