"""C08: a stand-alone line and the same line in a network with resistive terminations agree."""
from engine.harness import harness
from .nets import *

OUTSIDE = "more than 3 conductors, 3 cells, 3 steps; impedances below the code's 1e-10 ohm shorts"


def _pair(W, n, ndiv, fields, sym, zero=(), lumped=False, dressed=False):
    mtl, mtln, nw = W.mod("mtl"), W.mod("mtln"), W.mod("networks")
    lens = [W.const("len%d" % s) for s in range(len(ndiv))]
    N = sum(ndiv)
    L, C, R, G = (W.const_spd(x, n) for x in "LCRG")
    if sym == "pul":
        C, R, G, L = (W.reals(x, (n, n), sign=s) for x, s in (("C", "+"), ("R", "0+"), ("G", "0+"), ("L", "+")))
    zs, zl = (W.reals(x, (n,), sign="+") if sym else W.const_arr(x, (n,)) for x in ("Zs", "Zl"))
    for side, a in zero:
        (zs if side == "S" else zl)[a] = 0.0
    dt = W.pos("dt") if sym else W.const("dt")
    out = []
    fs = [[W.func("v%s%d" % (s, a)) for a in range(n)] for s in "SL"]
    for kind in ("line", "network"):
        ln = mtl.MTL(l=L.copy(), c=C.copy(), r=R.copy(), g=G.copy(), node_positions=zpoints(W, lens), ndiv=list(ndiv), name="ln", Zs=zs.copy(), Zl=zl.copy())
        if dressed:
            # places along the line that differ from the rest
            pts = zpoints(W, lens)
            ln.set_resistance_in_region(pts[0], pts[1], 0, W.const("Rl"))
            ln.add_conductance_at_point(pts[1], n - 1, W.const("Gl"))
            ln.add_conductance_at_point(pts[-1], 0, W.const("Ge"))
        if lumped:
            for a in range(n):
                ln.add_dispersive_connector(zpos(W, lens, lens[0]), a,
                                            {"cte": W.const("cte%d" % a), "prop": W.const("prop%d" % a), "poles": {"real": [-1.0], "imag": [0.0]}, "residues": {"real": [W.const("res%d" % a)], "imag": [0.0]}})
        if kind == "line":
            ob = run = ln
            for a in range(n):
                ln.add_voltage_source(zpos(W, lens), a, fs[0][a])
                ln.add_voltage_source(zpos(W, lens, sum(lens)), a, fs[1][a])
        else:
            ob = mtl.MTLD({0: [ln]}, name="b")
            nets = []
            for s, side in enumerate("SL"):
                net = nw.Network({ln: {"connections": [[10 * s + n - 1 - a, a, CONN["R"]] for a in range(n)], "side": side, "bundle": ob}})
                for a in range(n):
                    z = (zs, zl)[s][a]
                    if (side, a) in zero:
                        net.short_to_ground(10 * s + n - 1 - a)
                    else:
                        net.connect_to_ground(10 * s + n - 1 - a, z, fs[s][a])
                nets.append(nw.NetworkD({0: net}))
            run = mtln.MTLN(bundles=[ob], networks=nets)
        if fields:
            attach_fields(W, ob, n, N)
        out.append((ob, run))
    return out, dt


@harness(quick=[dict(n=1, ndiv=(1,), sym=True), dict(n=1, ndiv=(1,), sym="pul", steps=1), dict(n=2, ndiv=(1, 1)), dict(n=2, ndiv=(1, 1), dressed=True), dict(n=1, ndiv=(1, 2), steps=3, dressed=True), dict(n=3, ndiv=(1,), steps=1)],
         thorough=[dict(n=1, ndiv=(1,), sym="pul"), dict(n=3, ndiv=(2, 1), steps=4), dict(n=2, ndiv=(1,), sym=True, steps=1)], timeout=500)
def agree(W, n, ndiv, sym=False, steps=2, dressed=False):
    """same voltages, currents and probe records step by step"""
    (a, b), dt = _pair(W, n, ndiv, not sym, sym, dressed=dressed)
    pr = []
    for ob, run in (a, b):
        pr.append([ob.add_probe(0.0, "voltage"), ob.add_probe(0.0, "current")])
    for k in range(steps):
        for ob, run in (a, b):
            if run is ob:
                ob.dt = dt
                run.run_until(dt * W.frac(3, 2))
            else:
                run.run_until(dt * W.frac(3, 2), dt)
        W.check_eq(W.out(a[0].v), W.out(b[0].v), "step %d: voltages" % k)
        W.check_eq(W.out(a[0].i), W.out(b[0].i), "step %d: currents" % k)
        for p, q in zip(*pr):
            W.check_eq(p.t, q.t, "probe times")
            W.check_eq(p.val, q.val, "probe values")


@harness(quick=[dict(n=2, ndiv=(1, 1))])
def lumped(W, n, ndiv):
    """with lumped dispersive elements on the line"""
    (a, b), dt = _pair(W, n, ndiv, True, False, lumped=True)
    dt = W.num(1) / 2
    for ob, run in (a, b):
        if run is ob:
            ob.dt = dt
            run.run_until(dt * W.frac(7, 2))
        else:
            run.run_until(dt * W.frac(7, 2), dt)
    W.check_eq(W.out(a[0].v), W.out(b[0].v), "voltages")
    W.check_eq(W.out(a[0].i), W.out(b[0].i), "currents")


@harness(quick=[dict(zero=(("L", 0),)), dict(zero=(("L", 0), ("L", 1)))])
def short(W, zero):
    """a zero impedance behaves as a short to ground"""
    (a, b), dt = _pair(W, 2, (1,), False, False, zero=zero)
    vals = [W.real("s%d" % k, lo=-1, hi=1) for k in range(2)]
    for ob, run in (a, b):
        pass
    # bounded sources at the near end in place of arbitrary ones
    for k in range(2):
        a[0].add_voltage_source(zpos(W, [W.const("len0")], 0, "float"), k, _const(vals[k]))
        a[0].add_voltage_source(zpos(W, [W.const("len0")], W.const("len0")), k, _const(W.num(0)))
    net = b[1].networks
    mtl, mtln, nw = W.mod("mtl"), W.mod("mtln"), W.mod("networks")
    ob = b[0]
    ln = ob.levels[0][0]
    nets = []
    for s, side in enumerate("SL"):
        n = nw.Network({ln: {"connections": [[10 * s + c, c, CONN["R"]] for c in range(2)], "side": side, "bundle": ob}})
        for c in range(2):
            z = (ln.zs, ln.zl)[s][c, c]
            if (side, c) in zero:
                n.short_to_ground(10 * s + c)
            else:
                n.connect_to_ground(10 * s + c, z, _const(vals[c] if s == 0 else W.num(0)))
        nets.append(nw.NetworkD({0: n}))
    run = mtln.MTLN(bundles=[ob], networks=nets)
    a[0].dt = dt
    a[0].run_until(dt * W.frac(7, 2))
    run.run_until(dt * W.frac(7, 2), dt)
    for x, y in zip(list(a[0].v.flat) + list(a[0].i.flat), list(ob.v.flat) + list(ob.i.flat)):
        W.check((x - y <= W.frac(1, 10**6)) & (y - x <= W.frac(1, 10**6)), "a short is a zero impedance")


def _const(s):
    return lambda t: s
