"""C11: lumped dispersive connectors."""
from engine.harness import harness
from .common import *

OUTSIDE = "more than 2 real poles or 1 complex pair, more than 3 steps, connectors on the last node"


def pole_model(W, kind, tag="m", sym=False):
    c = W.real if sym else W.const
    z = W.num(0)
    d = {"cte": c(tag + "d"), "prop": c(tag + "e")}
    if kind == "none":
        p = r = []
    elif kind == "real":
        p, r = [(-W.const(tag + "a"), z)], [(c(tag + "r"), z)]
    elif kind == "real2":
        p = [(-W.const(tag + "a"), z), (-W.const(tag + "a") - W.const(tag + "a2"), z)]
        r = [(c(tag + "r"), z), (c(tag + "r2"), z)]
    elif kind == "complex":
        a, b, x, y = W.const(tag + "a"), W.const(tag + "b"), c(tag + "r"), c(tag + "ri")
        p, r = [(-a, b), (-a, -b)], [(x, y), (x, -y)]
    d["poles"] = {"real": [u for u, _ in p], "imag": [v for _, v in p]}
    d["residues"] = {"real": [u for u, _ in r], "imag": [v for _, v in r]}
    return d


class Phi:
    """reference convolution state of one element"""

    def __init__(self, W, model, dt):
        self.W, self.m = W, model
        self.Q1, self.Q2, self.per = recursion(W, model, dt)
        self.phi = [(W.num(0), W.num(0)) for _ in self.per]
        self.dt = dt

    def drop(self, i1, i0):
        """voltage across the element, averaged with the same law the step uses"""
        m = self.m
        v = m["cte"] * (i1 + i0) / 2 + m["prop"] * (i1 - i0) / self.dt
        new = []
        for (E, q1, q2), p in zip(self.per, self.phi):
            a = (q1[0] * i1 + q2[0] * i0 + E[0] * p[0] - E[1] * p[1],
                 q1[1] * i1 + q2[1] * i0 + E[0] * p[1] + E[1] * p[0])
            new.append(a)
            v = v + a[0]
        self.phi = new
        return v


def _cell_of(W, lens, dx, k):
    return zpos(W, lens, sum(dx[:k], W.num(0)))


@harness(quick=[dict(n=1, kind="none", steps=2), dict(n=1, kind="real", steps=3), dict(n=2, kind="real2", steps=2),
                dict(n=1, kind="complex", steps=2), dict(n=2, kind="complex", steps=2)],
         thorough=[dict(n=3, kind="complex", steps=3), dict(n=2, kind="real2", steps=3)], timeout=600)
def line_law(W, n, kind, steps):
    """one connector at a symbolic cell and conductor of a lossy non-uniform
    line: every cell obeys its flux balance, the loaded one including the
    exact convolution of the element with a piecewise linear current"""
    mtl = W.mod("mtl")
    lens = [W.const("len0"), W.const("len1")]
    ndiv = (1, 2)
    dx = cell_lengths(lens, ndiv)
    dt = W.const("dt")
    ln = line_const(W, n, node_positions=zpoints(W, lens), ndiv=list(ndiv))
    L, R = ln.l[0].copy(), ln.r[0].copy()
    k = W.int("cell", 0, 2)
    c = W.int("cond", 0, n - 1)
    model = pole_model(W, kind)
    ln.dt = dt
    ln.add_dispersive_connector(_cell_of(W, lens, dx, k), c, model)
    ln.update_lr_terms(); ln.update_cg_terms(); ln.compute_terminal_terms()
    s0 = set_state(W, ln)
    ph = Phi(W, model, dt)
    unit = W.np.zeros(n)
    unit[c] = 1.0
    for step in range(steps):
        ln.step()
        s1 = (W.out(ln.v), W.out(ln.i))
        drop = ph.drop(s1[1][c, k], s0[1][c, k])
        for j in range(3):
            lhs = (L.dot(s1[1][:, j] - s0[1][:, j]) / dt + R.dot(s1[1][:, j] + s0[1][:, j]) / 2) * dx[j] + s1[0][:, j + 1] - s1[0][:, j]
            if j == k:
                lhs = lhs + unit * drop
            W.check_eq(lhs, 0 * lhs, "flux balance with the element, step %d" % step)
        s0 = s1


@harness(quick=[dict(kind="real"), dict(kind="complex")], thorough=[dict(kind="real2")], timeout=600)
def two_elements(W, kind):
    """elements on two conductors / cells keep separate histories; a conductor without element is unaffected"""
    mtl = W.mod("mtl")
    n = 2
    lens, ndiv = [W.const("len0")], (2,)
    dx = cell_lengths(lens, ndiv)
    dt = W.const("dt")
    ln = line_const(W, n, node_positions=zpoints(W, lens), ndiv=list(ndiv))
    L, R = ln.l[0].copy(), ln.r[0].copy()
    where = W.choice("where", [((0, 0), (0, 1)), ((0, 0), (1, 0)), ((1, 1), (0, 0))])
    ln.dt = dt
    ph = {}
    for j, (k, c) in enumerate(where):
        m = pole_model(W, kind if j else "real", tag="m%d" % j)
        ln.add_dispersive_connector(_cell_of(W, lens, dx, k), c, m)
        ph[(k, c)] = Phi(W, m, dt)
    ln.update_lr_terms(); ln.update_cg_terms(); ln.compute_terminal_terms()
    s0 = set_state(W, ln)
    for step in range(2):
        ln.step()
        s1 = (W.out(ln.v), W.out(ln.i))
        for j in range(2):
            lhs = (L.dot(s1[1][:, j] - s0[1][:, j]) / dt + R.dot(s1[1][:, j] + s0[1][:, j]) / 2) * dx[j] + s1[0][:, j + 1] - s1[0][:, j]
            add = W.np.zeros(n)
            for (k, c), p in ph.items():
                if k == j:
                    unit = W.np.zeros(n)
                    unit[c] = 1.0
                    add = add + unit * p.drop(s1[1][c, k], s0[1][c, k])
            lhs = lhs + add
            W.check_eq(lhs, 0 * lhs, "flux balance with the elements, step %d" % step)
        s0 = s1


@harness(quick=[dict(kind="real"), dict(kind="complex")], timeout=600)
def in_bundle(W, kind):
    """a connector on a line keeps its law when the line becomes part of a bundle"""
    mtl = W.mod("mtl")
    lens, ndiv = [W.const("len0")], (2,)
    dx = cell_lengths(lens, ndiv)
    dt = W.const("dt")
    level = W.int("level", 0, 1)
    k = W.int("cell", 0, 1)
    model = pole_model(W, kind)
    lines = []
    for j in range(2):
        ln = line_const(W, 1 + j, tag="l%d" % j, node_positions=zpoints(W, lens), ndiv=list(ndiv), name="l%d" % j)
        ln.dt = dt
        lines.append(ln)
    cond = W.int("cond", 0, level)
    lines[level].add_dispersive_connector(_cell_of(W, lens, dx, k), cond, model)
    b = mtl.MTLD({0: [lines[0]], 1: [lines[1]]}, name="b")
    c = cond + level
    b.dt = dt
    b.update_lr_terms(); b.update_cg_terms()
    n = 3
    L, R = b.l[0].copy(), b.r[0].copy()
    s0 = set_state(W, b)
    ph = Phi(W, model, dt)
    unit = W.np.zeros(n)
    unit[c] = 1.0
    for step in range(2):
        b.update_sources(dt, dt)
        b.advance_voltage(); b.advance_current()
        s1 = (W.out(b.v), W.out(b.i))
        drop = ph.drop(s1[1][c, k], s0[1][c, k])
        for j in range(2):
            lhs = (L.dot(s1[1][:, j] - s0[1][:, j]) / dt + R.dot(s1[1][:, j] + s0[1][:, j]) / 2) * dx[j] + s1[0][:, j + 1] - s1[0][:, j]
            if j == k:
                lhs = lhs + unit * drop
            W.check_eq(lhs, 0 * lhs, "flux balance with the element, step %d" % step)
        s0 = s1
