"""C26: effects follow their causes: one cell per step, nothing before its time, nothing without a connection."""
from engine.harness import harness
from .systems import *

OUTSIDE = "more than 6 cells, 3 steps; the C and LC terminations' own internal state is not perturbed"


def _one(W, N, n, extra=None, what=None):
    """line with an element at every cell, sources and fields everywhere; `what` perturbs one thing"""
    lens = [W.const("len0"), W.const("len1")]
    mtl = W.mod("mtl")
    L, C, R, G = (W.const_spd(x, n) for x in "LCRG")
    ln = mtl.MTL(l=L, c=C, r=R, g=G, node_positions=zpoints(W, lens), ndiv=[2, N - 2], Zs=W.const_arr("Zs", (n,)), Zl=W.const_arr("Zl", (n,)), name="ln")
    ln.dt = W.frac(1, 4)
    eT, eL = attach_fields(W, ln, n, N)
    return ln


def _perturb(W, o, kind, j, a, tag="p"):
    d = W.real(tag)
    if kind == "v":
        o.v[a, j] = o.v[a, j] + d
    elif kind == "i":
        o.i[a, j] = o.i[a, j] + d
    elif kind == "r":
        o.r[j, a, a] = o.r[j, a, a] + W.const("dr")
    elif kind == "g":
        o.g[j, a, a] = o.g[j, a, a] + W.const("dg")
    elif kind == "eT":
        o.e_T[a, j] = W.func("other")
    elif kind == "eL":
        o.e_L[a, j] = W.func("other")
    elif kind == "element":
        o.add_dispersive_connector(o.u[j].copy(), a, model(W, 5))


def _reached(kind, j, n, N):
    """nodes and cells that may feel a change of `kind` at place j after n steps"""
    if kind == "i":
        v = {k for k in range(N + 1) if k - n <= j <= k + n - 1}
        i = {k for k in range(N) if abs(k - j) <= n}
    elif kind in ("v", "g"):
        v = {k for k in range(N + 1) if abs(j - k) <= n - 1}
        i = {k for k in range(N) if k - n + 1 <= j <= k + n}
    elif kind in ("r", "element", "eL"):
        # acts on the current of the cell within the step
        v = {k for k in range(N + 1) if k - n + 1 <= j <= k + n - 2}
        i = {k for k in range(N) if abs(k - j) <= n - 1}
    elif kind == "eT":
        # acts on the voltage of its node and on the currents next to it within the step
        v = {k for k in range(N + 1) if abs(j - k) <= n - 1}
        i = {k for k in range(N) if k - n + 1 <= j <= k + n}
    return v, i


KINDS = ("v", "i", "r", "g", "eT", "eL", "element")


@harness(quick=[dict(kind=k) for k in KINDS] + [dict(kind="v", bundle=True), dict(kind="i", bundle=True), dict(kind="r", bundle=True)], thorough=[dict(kind=k, N=6, steps=3) for k in KINDS], timeout=400)
def speed(W, kind, N=4, steps=2, bundle=False):
    """one cell per step in both directions, for the state, parameters, elements and fields at any place"""
    n = 2
    j = W.choice("place", list(range(N + 1 if kind in ("v", "g", "eT") else N)))
    a = W.choice("conductor", list(range(n)))
    runs = []
    for k in range(2):
        if bundle:
            nw, mtln = W.mod("networks"), W.mod("mtln")
            cab = Cable(W, "b", [[1], [1]], (2, N - 2))
            o = cab.b
            o.add_transfer_impedance(0, [0], 1, [0], dict(model(W, 3), direction="both"))
            nets = []
            for s, b in (("S", 0), ("L", 10)):
                for q in range(2):
                    x = Node(W, cab, q, 0, s, 0, b + q)
                    nets.append(nw.NetworkD({q: network(W, [x], [Elem(W, ("R", "C")[q], "e%d" % x.number, x, vs=W.func("s%d" % x.number))])}))
            top = mtln.MTLN(bundles=[o], networks=nets)
        else:
            o = top = _one(W, N, n)
        if k == 0:
            s0 = set_state(W, o) if not bundle else None
            if bundle:
                s0 = (W.np.zeros((n, N + 1)), W.reals("i", (n, N)))
                s0[0][:, 1:-1] = W.reals("v", (n, N - 1))
        o.v[...], o.i[...] = s0
        if k == 1 and not (bundle and kind == "v" and j in (0, N)):
            _perturb(W, o, kind, j, a)
        st = []
        for m in range(steps):
            T = W.frac(3, 8)
            top.run_until(T) if top is o else top.run_until(T, W.frac(1, 4))
            st.append((o.v.copy(), o.i.copy()))
        runs.append(st)
    seen = False
    for m in range(steps):
        vs, is_ = _reached(kind, j, m + 1, N)
        for k in range(N + 1):
            if k not in vs:
                W.check_eq(runs[0][m][0][:, k], runs[1][m][0][:, k], "voltages out of reach after %d steps" % (m + 1))
        for k in range(N):
            if k not in is_:
                W.check_eq(runs[0][m][1][:, k], runs[1][m][1][:, k], "currents out of reach after %d steps" % (m + 1))


class Late:
    """inputs whose excitations are replaced after a time"""

    def __init__(self, W, inp, after):
        self.W, self.inp, self.after = W, inp, after

    def f(self, name):
        f, g = self.inp.f(name), self.W.func(name + "_late")
        return lambda t: f(t) if bool(t <= self.after) else g(t)

    def arr(self, name, shape):
        return self.inp.arr(name, shape)


@harness(quick=[dict(which=w) for w in SYSTEMS], timeout=400)
def past_only(W, which):
    """states and frames up to a time do not depend on any source or field after it"""
    inp = Inputs(W, "f")
    a = build(W, which, inp)
    b = build(W, which, Late(W, inp, W.frac(2, 4)))
    a.run(2)
    b.run(2)
    for x, y in zip(a.state() + a.frames(), b.state() + b.frames()):
        W.check_eq(x, y, "nothing depends on later excitations")


@harness(quick=[dict(kinds=("RR", "RR")), dict(kinds=("R", "RR")), dict(kinds=("SS", "SS"))], timeout=400)
def across(W, kinds, steps=3):
    """through a junction as through any node; nothing where nothing is connected"""
    nw, mtln = W.mod("networks"), W.mod("mtln")
    N = 2
    who = W.choice("bundle", [0, 1, 2])
    cell = W.choice("cell", [0, 1])
    runs = []
    memo = {}
    for k in range(2):
        cabs = [Cable(W, "b%d" % q, [[1]], (2,), fields=False) for q in range(3)]
        nets, joint = [], []
        for q, c in enumerate(cabs):
            f = Node(W, c, 0, 0, "L", 0, 10 + q)
            nets.append(nw.NetworkD({0: network(W, [f], [Elem(W, "R", "t%d" % q, f, vs=W.func("s%d" % q))])}))
            joint.append(Node(W, c, 0, 0, "S", 0, q))
        es = [Elem(W, kinds[0], "j", joint[0], joint[1]), Elem(W, kinds[1], "k", joint[1], joint[2]), Elem(W, "R", "g", joint[2])]
        if kinds[0] == "R":
            es[0] = Elem(W, "R", "j", joint[0])
        nets.append(nw.NetworkD({0: network(W, joint, es)}))
        top = mtln.MTLN(bundles=[c.b for c in cabs], networks=nets)
        for q, c in enumerate(cabs):
            if k == 0:
                memo[q] = (W.reals("v%d" % q, (1, 1)), W.reals("i%d" % q, (1, N)))
            c.b.v[:, 1:-1], c.b.i[...] = memo[q][0], memo[q][1]
            if k == 1 and q == who:
                _perturb(W, c.b, "i", cell, 0)
        st = []
        for m in range(steps):
            top.run_until(W.frac(3, 8), W.frac(1, 4))
            st.append([(c.b.v.copy(), c.b.i.copy()) for c in cabs])
        runs.append(st)
    linked = {0: {0}, 1: {1, 2}, 2: {1, 2}} if kinds[0] == "R" else {q: {0, 1, 2} for q in range(3)}
    for m in range(steps):
        n = m + 1
        for q in range(3):
            for k in range(N + 1):
                # cells counted through the junction
                j = cell if q == who else -1 - cell
                if q not in linked[who] or not (k - n <= j <= k + n - 1):
                    W.check_eq(runs[0][m][q][0][:, k], runs[1][m][q][0][:, k], "voltages out of reach after %d steps" % n)
                if k < N and (q not in linked[who] or abs(k - j) > n):
                    W.check_eq(runs[0][m][q][1][:, k], runs[1][m][q][1][:, k], "currents out of reach after %d steps" % n)


@harness(quick=[dict(levels=False), dict(levels=True)])
def side_by_side(W, levels):
    """bundles of one network manager that nothing joins behave as if each were alone"""
    nw, mtln = W.mod("networks"), W.mod("mtln")

    def make(q):
        c = Cable(W, "b%d" % q, [[1], [1]] if levels else [[2]], (1, 1))
        c.b.v[:, 1:-1], c.b.i[...] = memo[q]
        nets = []
        for s, base in (("S", 0), ("L", 10)):
            lev = {}
            for x in [Node(W, c, k, 0, s, 0, 40 * q + base + k) for k in range(2)] if levels else [Node(W, c, 0, 0, s, k, 40 * q + base + k) for k in range(2)]:
                lev.setdefault(x.level, []).append(x)
            nets.append(nw.NetworkD({k: network(W, xs, [Elem(W, ("R", "C", "LC")[(x.number + q) % 3], "e%d" % x.number, x, vs=W.func("s%d" % x.number)) for x in xs]) for k, xs in lev.items()}))
        return c, nets
    memo = {q: (W.reals("v%d" % q, (2, 1)), W.reals("i%d" % q, (2, 2))) for q in range(2)}
    cs = [make(q) for q in range(2)]
    swap = W.bool("swap")
    both = mtln.MTLN(bundles=[c.b for c, _ in cs[::-1 if swap else 1]], networks=[x for _, n in cs for x in n])
    both.run_until(W.frac(7, 8), W.frac(1, 4))
    for q in range(2):
        c, nets = make(q)
        one = mtln.MTLN(bundles=[c.b], networks=nets)
        one.run_until(W.frac(7, 8), W.frac(1, 4))
        W.check_eq(cs[q][0].b.v, c.b.v, "voltages as if alone")
        W.check_eq(cs[q][0].b.i, c.b.i, "currents as if alone")
