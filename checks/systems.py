"""Systems with everything on them, as functions of named inputs (sources, fields, initial state)."""
from .nets import *


def model(W, k, cplx=False):
    if cplx:
        return {"cte": W.const("cte%d" % k), "prop": W.const("prop%d" % k), "poles": {"real": [W.num(-1), W.num(-1)], "imag": [W.num(2), W.num(-2)]},
                "residues": {"real": [W.const("rr%d" % k)] * 2, "imag": [W.frac(1, 3), -W.frac(1, 3)]}}
    return {"cte": W.const("cte%d" % k), "prop": W.const("prop%d" % k), "poles": {"real": [W.num(-2)], "imag": [W.num(0)]},
            "residues": {"real": [W.const("rr%d" % k)], "imag": [W.num(0)]}}


class System:
    """a line or a network of bundles, what is observed on it, and how it is run (step 1/4)"""

    def __init__(self, W, top, objs, probes):
        self.W, self.top, self.objs, self.probes = W, top, objs, probes

    def run(self, steps, dt=None):
        dt = self.W.frac(1, 4) if dt is None else dt
        if self.top is self.objs[0]:
            self.top.dt = dt
            self.top.run_until(dt * self.W.frac(2 * steps + 1, 2))
        else:
            self.top.run_until(dt * self.W.frac(2 * steps + 1, 2), dt)

    def state(self):
        return [x.copy() for o in self.objs for x in (o.v, o.i)]

    def frames(self):
        return [x.copy() for p in self.probes for x in (p.t, p.val)]


def build(W, which, inp):
    return line_all(W, inp) if which == "line" else nets_all(W, inp, which)


SYSTEMS = ("line", "all", "shield", "junction")


class Inputs:
    """inputs by name; the third instance is a combination of two others"""

    def __init__(self, W, tag=None, mix=None):
        self.W, self.tag, self.mix, self.memo = W, tag, mix, {}

    def f(self, name):
        if self.mix is None:
            return self.W.func(name + self.tag)
        fs = [(c, x.f(name)) for c, x in self.mix]
        return lambda t: sum((c * g(t) for c, g in fs), self.W.num(0))

    def arr(self, name, shape):
        if self.mix is None:
            if name not in self.memo:
                self.memo[name] = self.W.reals(name + self.tag, shape)
            return self.memo[name].copy()
        tot = None
        for c, x in self.mix:
            a = x.arr(name, shape) * c
            tot = a if tot is None else tot + a
        return self.W.np.zeros(shape) if tot is None else tot


def line_all(W, inp):
    n, N = 2, 3
    lens = [W.const("len0"), W.const("len1")]
    ln = line_const(W, n, node_positions=zpoints(W, lens), ndiv=[1, 2])
    ln.dt = W.frac(1, 4)
    ln.set_resistance_in_region(zpos(W, lens, 0, "float"), zpos(W, lens, lens[0], "float"), 0, W.const("Rl"))
    ln.add_dispersive_connector(zpos(W, lens, lens[0]), 1, model(W, 0, True))
    ln.add_voltage_source(zpos(W, lens), 0, inp.f("vs"))
    ln.add_voltage_source(zpos(W, lens, sum(lens)), 1, inp.f("vl"))
    for a in range(n):
        for k in range(N + 1):
            ln.e_T[a, k] = inp.f("eT%d_%d" % (a, k))
        for k in range(N):
            ln.e_L[a, k] = inp.f("eL%d_%d" % (a, k))
    ln.v[...] = inp.arr("v", ln.v.shape)
    ln.i[...] = inp.arr("i", ln.i.shape)
    p = [ln.add_probe(zpos(W, lens, 0, "float"), "voltage"), ln.add_probe(zpos(W, lens, lens[0]), "current")]
    return System(W, ln, [ln], p)


def nets_all(W, inp, which):
    nw, mtln = W.mod("networks"), W.mod("mtln")
    layouts = {"all": [[[3]]], "shield": [[[1], [2]]], "junction": [[[1]], [[1]], [[1]]]}[which]
    cabs = [Cable(W, "b%d" % k, lv, (1, 1) if k == 0 else (1,), fields=False) for k, lv in enumerate(layouts)]
    for c in cabs:
        c.b.v[:, 1:-1] = inp.arr("v" + c.tag, c.b.v[:, 1:-1].shape)
        c.b.i[...] = inp.arr("i" + c.tag, c.b.i.shape)
        for a in range(c.n):
            for k in range(c.N + 1):
                c.b.e_T[a, k] = inp.f("%seT%d_%d" % (c.tag, a, k))
            for k in range(c.N):
                c.b.e_L[a, k] = inp.f("%seL%d_%d" % (c.tag, a, k))
    if which == "shield":
        b = cabs[0].b
        b.add_transfer_impedance(0, [0], 1, [0, 1], {"cte": W.const("zt"), "prop": W.const("zl"), "factor": 1, "direction": "both",
                                                     "poles": {"real": [W.num(-1)], "imag": [W.num(0)]}, "residues": {"real": [W.const("zr")], "imag": [W.num(0)]}})
        b.add_localized_longitudinal_field(zpos(W, [W.const("b0len0")]), zpos(W, [W.const("b0len0")], W.const("b0len0")), 1, inp.f("loc"), "ideal")
    kinds = {("b0", "S"): ["R", "C", "LC"], ("b0", "L"): ["LC", "R", "g"], ("b1", "S"): ["C"]}
    nets, num, joint = [], 0, []
    for q, c in enumerate(cabs):
        for side in "SL":
            lev = {}
            for k, lv in enumerate(c.levels):
                ns, es = [], []
                for j, m in enumerate(lv):
                    for a in range(m):
                        ns.append(Node(W, c, k, j, side, a, num))
                        num += 1
                if which == "junction" and (q, side) in ((0, "L"), (1, "S"), (2, "S")):
                    joint += ns
                    continue
                ks = kinds.get((c.tag, side), ["R"])
                for x in ns:
                    es.append(Elem(W, ks[x.index % len(ks)], "e%d" % x.number, x, vs=inp.f("s%d" % x.number)))
                if len(ns) > 1:
                    es.append(Elem(W, "RR", "r%d" % num, ns[0], ns[1], vs=inp.f("w%d" % num)))
                lev[k] = globals()["network"](W, ns, es)
            if lev:
                nets.append(nw.NetworkD(lev))
    if joint:
        es = [Elem(W, "RR", "j", joint[0], joint[1], vs=inp.f("j")), Elem(W, "RR", "k", joint[1], joint[2]), Elem(W, "C", "jc", joint[2], vs=inp.f("jc")), Elem(W, "R", "jg", joint[0])]
        nets.append(nw.NetworkD({0: globals()["network"](W, joint, es)}))
    net = mtln.MTLN(bundles=[c.b for c in cabs], networks=nets)
    pr = cabs[0].b.add_probe(0.0, "voltage")
    return System(W, net, [c.b for c in cabs], [pr])
