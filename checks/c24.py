"""C24: numbering, direction, placement and units are conventions: the same system described differently behaves the same."""
from engine.harness import harness
from .systems import *

OUTSIDE = ("more than 3 conductors, 4 cells, 2 steps; scale factors and motions other than the listed ones (any state, source and field; the scheme has no other place for a length scale "
           "than the matching of probe positions to 1e-6, which is not scaled); connectors at a point other than a cell's first node are mirrored by naming the mirrored cell")


class View:
    """how a system is described: conductor numbers, direction of the line, placement, units"""

    def __init__(self, W, n, N, perm=None, mirror=False, motion=None, scale=(1, 1, 1)):
        self.W, self.n, self.N = W, n, N
        self.perm = list(range(n)) if perm is None else list(perm)      # perm[a]: number of conductor a
        self.mirror, self.motion = mirror, motion
        self.len, self.imp, self.time = (W.num(q) for q in scale)

    def node(self, k):
        return self.N - k if self.mirror else k

    def cell(self, k):
        return self.N - 1 - k if self.mirror else k

    def side(self, s):
        return {"S": "L", "L": "S"}[s] if self.mirror else s

    def seq(self, x):
        return list(x)[::-1] if self.mirror else list(x)

    def point(self, p):
        W = self.W
        q = [c * self.len for c in p]
        if self.motion:
            # rotation (3 4 0; -4 3 0; 0 0 5)/5 and a cyclic change of axes, then a shift
            q = [(q[0] * 3 + q[1] * 4) / 5, (q[1] * 3 - q[0] * 4) / 5, q[2]]
            if self.motion != "turn":
                q = [q[2], q[0], q[1]]
            if self.motion == "origin":      # the origin halfway between the second node and the last
                o = W.const("len0") + W.const("len1") / 2
                q = [q[0] - o * self.len, q[1], q[2]]
            else:
                q = [c + W.const("shift%d" % j) for j, c in enumerate(q)]
        return W.array(q)

    def mat(self, M, f):
        out = self.W.np.zeros((self.n, self.n))
        for a in range(self.n):
            for b in range(self.n):
                out[self.perm[a], self.perm[b]] = M[a, b] * f
        return out

    def vec(self, x, f=1):
        out = self.W.np.zeros((self.n,))
        for a in range(self.n):
            out[self.perm[a]] = x[a] * f
        return out

    def fun(self, f, scale):
        return lambda t: f(t / self.time) * scale

    def model(self, m, f):
        r = {"cte": m["cte"] * f, "prop": m["prop"] * f * self.time,
             "poles": {q: [x / self.time for x in m["poles"][q]] for q in ("real", "imag")},
             "residues": {q: [x * f / self.time for x in m["residues"][q]] for q in ("real", "imag")}}
        r.update({q: m[q] for q in m if q not in r})
        return r

    def put(self, o, v, i):
        s = -1 if self.mirror else 1
        for a in range(self.n):
            for k in range(self.N + 1):
                o.v[self.perm[a], self.node(k)] = v[a, k] * self.imp
            for k in range(self.N):
                o.i[self.perm[a], self.cell(k)] = i[a, k] * s

    def get(self, o):
        W, s = self.W, -1 if self.mirror else 1
        v, i = W.np.zeros((self.n, self.N + 1)), W.np.zeros((self.n, self.N))
        for a in range(self.n):
            for k in range(self.N + 1):
                v[a, k] = o.v[self.perm[a], self.node(k)] / self.imp
            for k in range(self.N):
                i[a, k] = o.i[self.perm[a], self.cell(k)] * s
        return v, i

    def fields(self, o):
        W, s = self.W, -1 if self.mirror else 1
        for a in range(self.n):
            for k in range(self.N + 1):
                o.e_T[self.perm[a], self.node(k)] = self.fun(W.func("eT%d_%d" % (a, k)), self.imp)
            for k in range(self.N):
                o.e_L[self.perm[a], self.cell(k)] = self.fun(W.func("eL%d_%d" % (a, k)), self.imp * s / self.len)


def _mats(W, n, tag=""):
    return [W.const_spd(tag + x, n) for x in "LCRG"]


def _pul(vw, mats):
    L, C, R, G = mats
    k, l, t = vw.imp, vw.len, vw.time
    return dict(l=vw.mat(L, k * t / l), c=vw.mat(C, t / (k * l)), r=vw.mat(R, k / l), g=vw.mat(G, 1 / (k * l)))


NDIV = (1, 2)


def _points(W, vw, bend):
    a, b = W.const("len0"), W.const("len1")
    z = W.num(0)
    far = [b * 3 / 5, z, a + b * 4 / 5] if bend else [z, z, a + b]
    return vw.seq([[z, z, z], [z, z, a], far])


def _nodes(W, bend):
    """places of all nodes in the reference description"""
    vw = View(W, 1, 3)
    p = [W.array(q) for q in _points(W, vw, bend)]
    return [p[0], p[1], (p[1] + p[2]) / 2, p[2]]


def _one(W, vw, bend):
    mtl = W.mod("mtl")
    n, N = vw.n, vw.N
    u = _nodes(W, bend)
    at = lambda k: vw.point([q for q in u[k]])
    zs, zl = W.const_arr("Zs", (n,)), W.const_arr("Zl", (n,))
    ln = mtl.MTL(node_positions=W.array([[q for q in vw.point(p)] for p in _points(W, vw, bend)]), ndiv=vw.seq(NDIV),
                 Zs=vw.vec(zl if vw.mirror else zs, vw.imp), Zl=vw.vec(zs if vw.mirror else zl, vw.imp), name="ln", **_pul(vw, _mats(W, n)))
    ln.dt = W.frac(1, 4) * vw.time
    a, b = (1, 2)[::-1 if vw.mirror else 1]
    ln.set_resistance_in_region(at(a), at(b), vw.perm[0], W.const("Rl") * vw.imp)
    ln.add_conductance_in_region(at(a), at(b), vw.perm[n - 1], W.const("Gl") / vw.imp)
    # the element of the last cell
    ln.add_dispersive_connector(at(N if vw.mirror else N - 1), vw.perm[n - 1], vw.model(model(W, 0, True), vw.imp))
    for c in range(n):
        ln.add_voltage_source(at(0), vw.perm[c], vw.fun(W.func("vs%d" % c), vw.imp))
        ln.add_voltage_source(at(N), vw.perm[c], vw.fun(W.func("vl%d" % c), vw.imp))
    vw.fields(ln)
    probes = [ln.add_probe(at(k), "voltage") for k in range(N + 1)]
    return ln, probes


def _views(W, what, n, N):
    if what == "perm":
        return View(W, n, N, perm=W.perm("perm", range(n)) if n < 3 else W.choice("perm", [(1, 2, 0), (2, 1, 0)]))
    if what == "mirror":
        return View(W, n, N, mirror=True)
    if what == "motion":
        return View(W, n, N, motion=W.choice("motion", ["turn", "swap", "origin"]))
    if what == "scale":
        return View(W, n, N, scale=W.choice("scale", [(1000, 1, 1), (1, 50, 1), (1, 1, 3)]))
    return View(W, n, N, perm=W.perm("perm", range(n)), mirror=True, motion="swap", scale=(3, 5, 2))


WHAT = ("perm", "mirror", "motion", "scale", "all")


@harness(quick=[dict(what=w, n=2) for w in WHAT] + [dict(what="perm", n=3), dict(what="mirror", n=2, bend=True)], thorough=[dict(what=w, n=3, bend=True) for w in ("mirror", "motion")], timeout=500)
def line(W, what, n, bend=False):
    """a line with sources, losses, an element and fields"""
    N = sum(NDIV)
    v, i = W.reals("v", (n, N + 1)), W.reals("i", (n, N))
    out = []
    for vw in (View(W, n, N), _views(W, what, n, N)):
        ln, probes = _one(W, vw, bend)
        vw.put(ln, v, i)
        ln.run_until(ln.dt * W.frac(5, 2))
        fr = [W.array([p.val[m, vw.perm[c]] for m in range(2) for c in range(n)]) / vw.imp for p in probes]
        out.append(list(vw.get(ln)) + fr + [p.t / vw.time for p in probes])
    for x, y in zip(*out):
        W.check_eq(x, y, "the same voltages and currents in either description")


@harness(quick=[dict(what=w) for w in ("perm", "mirror", "motion", "scale", "lines")] + [dict(what="mirror", loc=True), dict(what="motion", loc=True), dict(what="origin", loc=True)], thorough=[dict(what="all", loc=True)], timeout=500)
def nested(W, what, loc=False):
    """a shield over two lines, with transfer impedances and terminations"""
    mtl, mtln, nw = W.mod("mtl"), W.mod("mtln"), W.mod("networks")
    N = sum(NDIV)
    n = 4      # shield, two conductors of line A, one of line B
    v, i = W.reals("v", (n, N - 1)), W.reals("i", (n, N))
    u = _nodes(W, False)
    pull = W.bool("pull") if what == "lines" else False
    pick = dict(perm=W.perm("perm", (0, 1)) if what in ("perm", "all") else (0, 1), mirror=what in ("mirror", "all"),
                motion={"motion": "swap", "all": "swap", "origin": "origin"}.get(what), scale=(3, 5, 2) if what in ("scale", "all") else (1, 1, 1), late=what in ("lines", "all"))
    out = []
    for mine in (dict(perm=(0, 1), mirror=False, motion=None, scale=(1, 1, 1), late=False), pick):
        late = mine.pop("late")
        pA = mine.pop("perm")
        # numbers in the bundle: shield 0, then the lines in their order
        perm = [0, 1 + late + pA[0], 1 + late + pA[1], 1 if late else 3]
        vw = View(W, n, N, perm=perm, **mine)
        at = lambda k: vw.point([q for q in u[k]])
        pos = W.array([[q for q in vw.point(p)] for p in _points(W, vw, False)])
        args = dict(node_positions=pos, ndiv=vw.seq(NDIV))
        view = lambda m, p=None: View(W, m, N, perm=p, **mine)
        sh = mtl.MTL(name="sh", **args, **_pul(view(1), _mats(W, 1, "s")))
        A = mtl.MTL(name="A", **args, **_pul(view(2, pA), _mats(W, 2, "A")))
        B = mtl.MTL(name="B", **args, **_pul(view(1), _mats(W, 1, "B")))
        b = mtl.MTLD({0: [sh], 1: [B, A] if late else [A, B]}, name="b")
        zt = dict(vw.model(model(W, 1), vw.imp / vw.len), direction="both")
        b.add_transfer_impedance(0, [0], 1, [perm[1] - 1], zt)
        b.add_transfer_impedance(0, [0], 1, [perm[3] - 1], dict(vw.model(model(W, 2), vw.imp / vw.len), direction="in"))
        vw.fields(b)
        if loc:
            q0, q1 = [(x + y) / 2 for x, y in zip(u[0], u[1])], [q for q in u[2]]
            # the field points from the first given end to the second
            b.add_localized_longitudinal_field(*[vw.point(q) for q in ((q1, q0) if vw.mirror else (q0, q1))], perm[1], vw.fun(W.func("loc"), vw.imp / vw.len * (-1 if vw.mirror else 1)), "ideal")
        b.set_resistance_in_region(*[at(k) for k in vw.seq((1, 2))], perm[2], W.const("Rl") * vw.imp)
        b.add_conductance_in_region(*[at(k) for k in vw.seq((1, 2))], perm[3], W.const("Gl") / vw.imp)
        nets = []
        for s in "SL":
            lev = {}
            for lvl, members in ((0, [(sh, 0, 0)]), (1, [(A, pA[0], 1), (A, pA[1], 2), (B, 0, 3)])):
                desc = {}
                for ln, c, k in members:
                    d = desc.setdefault(ln, {"connections": [], "side": vw.side(s), "bundle": b})
                    d["connections"].append([10 * (s == "L") + k, c, CONN["C" if k == 2 else "R"]])
                if late:
                    desc = dict(reversed(list(desc.items())))
                lev[lvl] = nw.Network(desc)
                for ln, c, k in members:
                    num = 10 * (s == "L") + k
                    f = vw.fun(W.func("s%d" % num), vw.imp)
                    if k == 2:
                        lev[lvl].connect_to_ground_C(num, W.const("C%d" % num) * vw.time / vw.imp, f)
                    else:
                        lev[lvl].connect_to_ground_R(num, W.const("R%d" % num) * vw.imp, f)
            nets.append(nw.NetworkD(lev))
        top = mtln.MTLN([b], nets[::-1] if pull else nets)
        zero = W.np.zeros((n, 1))
        vw.put(b, W.np.concatenate([zero, v, zero], axis=1), i)
        probes = [b.add_probe(at(k), "voltage") for k in (0, 2, 3)]
        dt = W.frac(1, 4) * vw.time
        top.run_until(dt * W.frac(5, 2), dt)
        fr = [W.array([p.val[m, perm[c]] for m in range(2) for c in range(n)]) / vw.imp for p in probes]
        out.append(list(vw.get(b)) + fr + [p.t / vw.time for p in probes])
    for x, y in zip(*out):
        W.check_eq(x, y, "the same voltages and currents in either description")
