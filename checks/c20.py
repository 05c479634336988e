"""C20: runs compose, systems are independent of each other and of the caller's arrays."""
from engine.harness import harness
from .systems import *

OUTSIDE = "layouts beyond the listed ones; more than 3 steps; changing a parameter array of a line between runs is not reconfiguration (it is the line's own state)"


def _same(W, a, b, label):
    for x, y in zip(a, b):
        W.check(x.shape == y.shape, label + " (shape)")
        W.check_eq(x, y, label)


@harness(quick=[dict(which=w, first=f) for w in SYSTEMS for f in (1, 2)])
def again(W, which, first):
    """running m steps and then n more is running m + n steps; the second run's frames are the last n of the long run"""
    inp = Inputs(W, "f")
    a, b = build(W, which, inp), build(W, which, inp)
    a.run(3)
    b.run(first)
    b.run(3 - first)
    _same(W, a.state(), b.state(), "state after two runs")
    _same(W, [x[first:] for x in a.frames()], b.frames(), "frames of the second run")


@harness(quick=[dict(which=w) for w in SYSTEMS])
def together(W, which):
    """two systems made from the same parameters and run in turns do not disturb each other"""
    f, g = Inputs(W, "f"), Inputs(W, "g")
    a, b = build(W, which, f), build(W, which, g)
    a.run(1)
    b.run(2)
    a.run(1)
    alone = build(W, which, f)
    alone.run(2)
    _same(W, a.state(), alone.state(), "a system does not depend on another one")
    alone = build(W, which, g)
    alone.run(2)
    _same(W, b.state(), alone.state(), "a system does not depend on another one")


@harness(quick=[dict(bundles=True), dict(bundles=False)])
def same_line_type(W, bundles):
    """lines built with the default arguments, and bundles sharing a line's parameters, keep their own state"""
    mtl, mtln = W.mod("mtl"), W.mod("mtln")
    n = 2
    L, C = W.const_spd("L", n), W.const_spd("C", n)
    zs = W.const_arr("Z", (n,))
    pts = zpoints(W, [W.const("len")])
    lo, hi = [zpos(W, [W.const("len")], d, "float") for d in (0, W.const("len"))]
    ls = [mtl.MTL(l=L, c=C, node_positions=pts, ndiv=[2], Zs=zs, Zl=zs, name="ln%d" % k) for k in range(2)]
    obs = [mtl.MTLD({0: [l]}, name=l.name) for l in ls] if bundles else ls
    s0 = [set_state(W, o, "s%d" % k) for k, o in enumerate(obs)]
    a, b = obs
    for o in obs:
        o.dt = W.frac(1, 4)
    if bundles:
        a.add_localized_longitudinal_field(pts[0], pts[1], 0, W.func("f"), "ideal")
        a.set_resistance_in_region(lo, hi, 1, W.const("R"))
        a.add_conductance_in_region(lo, hi, 1, W.const("G"))
        a.add_probe(lo, "voltage")
        nets = [mtln.MTLN([o], []) for o in obs]
        nets[0].run_until(W.frac(3, 8), W.frac(1, 4))
        W.check(nets[1].time == 0, "time of the other network")
        W.check(list(nets[1].bundles) == ["ln1"], "bundles of the other network")
    else:
        a.add_voltage_source(lo, 0, W.func("f"))
        a.set_resistance_in_region(lo, hi, 1, W.const("R"))
        a.add_conductance_in_region(lo, hi, 1, W.const("G"))
        a.add_dispersive_connector(pts[0], 0, model(W, 0))
        a.add_probe(lo, "voltage")
        a.run_until(W.frac(3, 8))
    W.check(len(b.probes) == 0, "no probe on the other one")
    W.check(b.time == 0, "time of the other one")
    W.check_eq(b.v, s0[1][0], "voltages of the other one")
    W.check_eq(b.i, s0[1][1], "currents of the other one")
    W.check_eq(b.r, 0 * b.r, "resistance of the other one")
    W.check_eq(b.g, 0 * b.g, "conductance of the other one")
    t = W.real("t")
    if not bundles:
        W.check_eq(b.v_sources[0, 0](t), W.num(0), "sources of the other one")
        d = b.connectors.d
        W.check_eq(d, 0 * d, "elements of the other one")
    W.check_eq(b.e_L[0, 0](t), W.num(0), "fields of the other one")


@harness(quick=[dict(obj="line"), dict(obj="bundle")])
def inputs_kept(W, obj):
    """arrays and descriptions handed over are neither changed nor watched: overwriting them afterwards changes nothing"""
    mtl, mtln, nw = W.mod("mtl"), W.mod("mtln"), W.mod("networks")
    n = 2
    runs = []
    for k in range(2):
        arrs = dict(L=W.const_spd("L", n), C=W.const_spd("C", n), R=W.const_spd("R", n), G=W.const_spd("G", n),
                    zs=W.const_arr("Zs", (n,)), zl=W.const_arr("Zl", (n,)), pts=zpoints(W, [W.const("len"), W.const("len2")]),
                    nd=W.np.array([1, 2]), pos=zpos(W, [W.const("len")], W.const("len")), end=zpos(W, [W.const("len")]))
        m = model(W, 0)
        zt = dict(model(W, 1), direction="in", factor=2)
        before = {q: x.copy() for q, x in arrs.items()}
        ln = mtl.MTL(l=arrs["L"], c=arrs["C"], r=arrs["R"], g=arrs["G"], node_positions=arrs["pts"], ndiv=arrs["nd"], Zs=arrs["zs"], Zl=arrs["zl"], name="ln")
        ln.dt = W.frac(1, 4)
        ln.add_dispersive_connector(arrs["pos"], 1, m)
        objs = [ln]
        if obj == "line":
            ln.add_voltage_source(arrs["end"], 0, W.func("vs"))
            ob = top = ln
            pr = ln.add_probe(arrs["pos"], "voltage")
        else:
            inner = mtl.MTL(l=arrs["L"], c=arrs["C"], r=arrs["R"], g=arrs["G"], node_positions=arrs["pts"], ndiv=arrs["nd"], name="in")
            inner.dt = W.frac(1, 4)
            one = mtl.MTL(l=arrs["L"][:1, :1].copy(), c=arrs["C"][:1, :1].copy(), node_positions=arrs["pts"], ndiv=arrs["nd"], name="out")
            one.dt = W.frac(1, 4)
            objs = [one, ln]
            ob = mtl.MTLD({0: [one], 1: [ln]}, name="b")
            oc, ic = [0], [0, 1]
            ob.add_transfer_impedance(0, oc, 1, ic, zt)
            conns = [[0, 1, dict(CONN["R"])], [1, 0, dict(CONN["R"])]]
            desc = {ln: {"connections": conns, "side": "S", "bundle": ob}}
            net = nw.Network(desc)
            net.connect_to_ground(0, W.const("R0"), W.func("vs"))
            net.connect_to_ground(1, W.const("R1"))
            W.check([c[0] for c in conns] == [0, 1] and list(desc) == [ln], "the description of a network is left as given")
            nd = nw.NetworkD({1: net})
            blist, nlist = [ob], [nd]
            top = mtln.MTLN(bundles=blist, networks=nlist)
            pr = ob.add_probe(arrs["pos"], "voltage")
            if k == 1:
                conns.reverse()
                conns[0][1] = 7
                blist.clear()
                nlist.clear()
                oc[0] = 5
                ic.clear()
        for q, x in arrs.items():
            W.check_eq(x, before[q], "%s is left as given" % q)
        if k == 1:
            for q, x in arrs.items():
                x[...] = 7
            for d in (m, zt):
                d["cte"] = W.num(55)
                for q in ("poles", "residues"):
                    d[q]["real"][0] = W.num(-77)
        # another step makes everything dispersive start over from what was given
        s = System(W, top, [ob], [pr])
        s.run(2, W.frac(1, 8))
        if k == 0:
            for q, x in arrs.items():
                W.check_eq(x, before[q], "%s is left as given by a run" % q)
            W.check_eq(W.array([m["cte"], m["poles"]["real"][0]]), W.array([W.const("cte0"), W.num(-2)]), "the model is left as given")
        runs.append(s.state() + s.frames())
    _same(W, runs[1], runs[0], "later changes to the caller's arrays have no effect")


@harness(quick=[dict(steps=0), dict(steps=2), dict(steps=2, ports=True)])
def clean_copy(W, steps, ports=False):
    """a clean copy of a line is the same line at rest at time zero, and its runs leave the original alone"""
    f, g = Inputs(W, "f"), Inputs(W, mix=[])
    def line():
        s = build(W, "line", f)
        if ports:
            s.top.add_port_probes()
            s.probes = s.top.probes
        return s
    a = line()
    a.run(steps)
    before = a.state()
    c = a.top.create_clean_copy()
    W.check_eq(c.v, 0 * c.v, "a clean copy is at rest")
    W.check_eq(c.i, 0 * c.i, "a clean copy is at rest")
    W.check_eq(c.time, W.num(0), "a clean copy starts at time zero")
    cs = System(W, c, [c], c.probes)
    W.check(len(c.probes) == len(a.probes) and all(p is not q for p, q in zip(c.probes, a.probes)), "own probes")
    for p in c.port_probes:
        W.check(all(any(q is r for r in c.probes) for q in (p.v0, p.v1, p.i0)), "own ports")
    cs.run(2)
    _same(W, a.state(), before, "the original is left alone")
    W.check_eq(a.top.time, W.frac(steps, 4), "the original's time is left alone")
    fresh = line()
    fresh.top.v[...] = 0 * fresh.top.v
    fresh.top.i[...] = 0 * fresh.top.i
    fresh.run(2)
    _same(W, cs.state(), fresh.state(), "a clean copy behaves as a new line")
    _same(W, cs.frames(), fresh.frames(), "a clean copy is recorded as a new line")
    # and the original goes on as if it had never been copied
    a.run(1)
    b = line()
    b.run(steps)
    b.run(1)
    _same(W, a.state(), b.state(), "the original goes on as before")
