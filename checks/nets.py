"""Networks of bundles built through the public interface, and Kirchhoff's law at their nodes."""
from .common import *

CONN = {"R": {"connectorType": "Conn_R", "resistance": 1.0},
        "C": {"connectorType": "Conn_C", "resistance": 0.0, "capacitance": 1.0},
        "LC": {"connectorType": "Conn_LCpRs", "resistance": 1.0, "inductance": 1.0, "capacitance": 1.0}}


class Cable:
    """a bundle with `levels` = [[conductors of each line] of each level]"""

    def __init__(self, W, tag, levels, ndiv, fields=True, symbols=False, lossy=True):
        mtl = W.mod("mtl")
        self.W, self.tag, self.ndiv, self.levels = W, tag, list(ndiv), levels
        lens = [W.const("%slen%d" % (tag, s)) for s in range(len(ndiv))]
        self.dx = cell_lengths(lens, ndiv)
        self.N = sum(ndiv)
        self.lines, lev = [], {}
        off = 0
        for k, lv in enumerate(levels):
            lev[k] = []
            for j, n in enumerate(lv):
                ln = line_const(W, n, "%s_%d_%d" % (tag, k, j), node_positions=zpoints(W, lens), ndiv=list(ndiv), Z=False,
                                lossy=lossy, name="%s_%d_%d" % (tag, k, j))
                lev[k].append(ln)
                self.lines.append(dict(line=ln, level=k, pos=j, n=n, off=off))
                off += n
        self.n = off
        self.b = mtl.MTLD(lev, name=tag)
        self.gT = self.gL = None
        if fields:
            self.gT, self.gL = attach_fields(W, self.b, self.n, self.N, tag)
        self.snap()

    def snap(self):
        self.prev = getattr(self, "now", None)
        self.raw = (self.b.v.copy(), self.b.i.copy())
        self.now = (self.W.out(self.b.v.copy()), self.W.out(self.b.i.copy()))

    def line(self, level, pos):
        return [x for x in self.lines if (x["level"], x["pos"]) == (level, pos)][0]

    def end_current(self, side, t, dt):
        """current drawn from every conductor at an end during the step that started from
        self.prev and led to self.now (time averaged): terminal half cell plus line"""
        W = self.W
        k, cell, sign = (0, 0, 1) if side == "S" else (self.N, self.N - 1, -1)
        (v0, i0), (v1, i1) = self.prev, self.now
        h = self.dx[cell] / 2
        d, a = v1[:, k] - v0[:, k], v1[:, k] + v0[:, k]
        if self.gT is not None:
            n, p = self.gT(k, t), self.gT(k, t - dt)
            d, a = d + (n - p), a + (n + p)
        return (self.b.c[k].dot(d) / dt + self.b.g[k].dot(a) / 2) * h + sign * i0[:, cell]


class Node:
    def __init__(self, W, cable, level, pos, side, cond, number):
        self.W, self.cable, self.side, self.number = W, cable, side, number
        # node numbers run against the conductors
        self.id = 500 - number
        self.line = cable.line(level, pos)
        self.level, self.cond = level, cond
        self.index = self.line["off"] + cond
        self.at = 0 if side == "S" else cable.N

    def v(self, state):
        return state[0][self.index, self.at]


class Elem:
    """an ideal element; `into(node, t, dt)` is the current it feeds into a node now"""

    def __init__(self, W, kind, tag, n1, n2=None, vs=None, sym=False):
        self.W, self.kind, self.n1, self.n2, self.vs = W, kind, n1, n2, vs
        par = (lambda x: W.pos(tag + x)) if sym else (lambda x: W.const(tag + x))
        self.R, self.L, self.C = par("R"), par("L"), par("C")
        if sym:
            W.assume(self.C <= 1000)
        self.u = self.iL = W.num(0)

    def attach(self, net):
        a = (self.vs,) if self.vs is not None else ()
        if self.kind == "R":
            net.connect_to_ground_R(self.n1.id, self.R, *a)
        elif self.kind == "g":
            net.connect_to_ground(self.n1.id, self.R, *a)
        elif self.kind == "C":
            net.connect_to_ground_C(self.n1.id, self.C, *a)
        elif self.kind == "LC":
            net.connect_to_ground_LCpRs(self.n1.id, self.R, self.L, self.C, *a)
        elif self.kind == "RR":
            net.connect_nodes(self.n1.id, self.n2.id, self.R, *a)
        elif self.kind == "S":
            net.short_to_ground(self.n1.id)
        elif self.kind == "SS":
            net.short_nodes(self.n1.id, self.n2.id)

    def src(self, t):
        return self.W.num(0) if self.vs is None else self.vs(t)

    def step(self, t, dt):
        """average current into n1 over the step (into n2 it is the opposite)"""
        v0, v1 = self.n1.v(self.n1.cable.prev), self.n1.v(self.n1.cable.now)
        s0, s1 = self.src(t - dt), self.src(t)
        if self.kind in ("R", "g"):
            return ((s0 - v0) + (s1 - v1)) / (2 * self.R)
        if self.kind == "RR":
            w0, w1 = self.n2.v(self.n2.cable.prev), self.n2.v(self.n2.cable.now)
            return ((w0 + s0 - v0) + (w1 + s1 - v1)) / (2 * self.R)
        if self.kind == "C":
            # backward differences
            vm = getattr(self, "vm", v0)
            sm = self.src(t - 2 * dt)
            self.vm = v0
            return self.C / dt * (((s0 - v0) - (sm - vm)) + ((s1 - v1) - (s0 - v0))) / 2
        if self.kind == "LC":
            R, L, C = self.R, self.L, self.C
            u0, i0 = self.u, self.iL
            # backward Euler of  C u' = (v - u - s)/R - iL,  L iL' = u
            u1 = (C / dt * u0 + (v1 - s1) / R - i0) / (C / dt + 1 / R + dt / L)
            self.u, self.iL = u1, i0 + dt / L * u1
            return ((s0 + u0 - v0) + (s1 + u1 - v1)) / (2 * R)
        raise ValueError(self.kind)


def connector(nodes, elems, node):
    for e in elems:
        if node in (e.n1, e.n2) and e.kind in ("C", "LC"):
            return CONN[e.kind]
    return CONN["R"]


def network(W, nodes, elems, order=None, multi=False):
    """one Network for nodes of one level; `order` permutes the connection lists"""
    nw = W.mod("networks")
    desc = {}
    seq = nodes if order is None else [nodes[k] for k in order]
    for n in seq:
        d = desc.setdefault(n.line["line"], {"connections": [], "side": n.side, "bundle": n.cable.b})
        d["connections"].append([n.id, n.cond, connector(nodes, elems, n)])
    net = nw.Network(desc)
    for e in elems:
        e.attach(net)
    return net


def groups(nodes, elems):
    """nodes joined by shorts; returns (groups of nodes, those held at ground)"""
    g = {n: {n} for n in nodes}
    for e in elems:
        if e.kind == "SS":
            u = g[e.n1] | g[e.n2]
            for n in u:
                g[n] = u
    seen, out = [], []
    for n in nodes:
        if g[n] not in seen:
            seen.append(g[n])
            out.append([m for m in nodes if m in g[n]])
    gnd = [q for q in out if any(e.kind == "S" and e.n1 in q for e in elems)]
    return out, gnd


def check_nodes(W, nodes, elems, t, dt, label="", tol=None):
    into = {n: W.num(0) for n in nodes}
    for e in elems:
        if e.kind in ("S", "SS"):
            continue
        c = e.step(t, dt)
        into[e.n1] = into[e.n1] + c
        if e.kind == "RR":
            into[e.n2] = into[e.n2] - c
    gs, gnd = groups(nodes, elems)
    for g in gs:
        if g not in gnd:
            tot = W.num(0)
            for n in g:
                tot = tot + n.cable.end_current(n.side, t, dt)[n.index] - into[n]
            W.check_eq(tot, 0 * tot, label + "currents add up to zero at a node")
        else:
            for n in g:
                v = n.v(n.cable.raw)
                W.check((v <= tol) & (v >= -tol), label + "a grounded node stays at zero")
        for a, b in zip(g, g[1:]):
            d = a.v(a.cable.raw) - b.v(b.cable.raw)
            W.check((d <= tol) & (d >= -tol), label + "joined nodes have the same voltage")
