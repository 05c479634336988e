"""C03: one time step governs a whole run."""
from engine.harness import harness
from .common import *

OUTSIDE = "more than 3 steps; final times that are an exact multiple of the step (floating-point rounding of the quotient decides there)"


def _T(W, dt, m):
    frac = W.real("frac", lo=W_LO, hi=W_HI)
    return dt * m + dt * frac


from fractions import Fraction
W_LO, W_HI = Fraction(1, 50), Fraction(49, 50)


def _square_params(W, tag, k):
    """L = C = q so that the velocity is rational"""
    q = W.const(tag)
    return W.array([[q]]), W.array([[q]]), q


def _sources(W, ln, length, n):
    fs = [W.func("vs%d" % a) for a in range(n)]
    fl = [W.func("vl%d" % a) for a in range(n)]
    for a in range(n):
        ln.add_voltage_source(W.array([0.0, 0.0, 0.0]), a, fs[a])
        ln.add_voltage_source(W.array([W.num(0), W.num(0), length]), a, fl[a])
    return ((lambda t: W.array([f(t) for f in fs])), (lambda t: W.array([f(t) for f in fl])))


@harness(quick=[dict(mode="default", n=1), dict(mode="ndt", n=1), dict(mode="assigned", n=1), dict(mode="assigned", n=2),
                dict(mode="ndt", n=2), dict(mode="twice", n=1)])
def line_one_step(W, mode, n):
    """a run of one step from an arbitrary state obeys the update and terminal
    equations for the step in force, however it was chosen"""
    mtl = W.mod("mtl")
    length = W.const("len")
    if n == 1:
        L, Cm, q = _square_params(W, "q", n)
        R, G = W.const_spd("R", 1), W.const_spd("G", 1)
    else:
        L, Cm, R, G = (W.const_spd(x, n) for x in ("L", "C", "R", "G"))
    zs, zl = W.const_arr("Zs", (n,)), W.const_arr("Zl", (n,))
    cells = 2
    ln = mtl.MTL(l=L, c=Cm, r=R, g=G, length=length, ndiv=[cells], Zs=zs, Zl=zl)
    gs, gl = _sources(W, ln, length, n)
    pv = ln.add_probe(W.array([0.0, 0.0, 0.0]), "voltage")
    pi = ln.add_probe(W.array([0.0, 0.0, 0.0]), "current")
    T = None
    if mode == "ndt":
        dt = W.pos("final") / 3
        ln.set_time_step(3, dt * 3)
    elif mode == "assigned":
        dt = W.pos("dt")
        ln.dt = dt
    elif mode == "twice":
        d1, dt = W.const("d1"), W.pos("dt")
        ln.dt = d1
        ln.run_until(d1 * W.frac(3, 2))
        ln.dt = dt
    else:
        dt = length / cells * q
    ln.time = t0 = W.real("t0")
    s0 = set_state(W, ln)
    ln.run_until(_T(W, dt, 1))
    W.check_eq(ln.dt, dt, "step in force")
    W.check_eq(ln.time, t0 + dt, "one step of that length is taken")
    s1 = (ln.v.copy(), ln.i.copy())
    dx = [length / cells] * cells
    check_interior(W, dx, L, Cm, R, G, s0, s1, dt)
    check_terminals(W, dx, Cm, G, zs, zl, s0, s1, dt, (gs(t0), gs(t0 - dt)), (gl(t0), gl(t0 - dt)))
    W.check(len(pv.t) == 1 and len(pi.t) == 1, "one record per step")
    W.check_eq(pv.t[0], t0 + dt, "voltage record time")
    W.check_eq(pi.t[0], t0 + dt + dt / 2, "current record time")


@harness(quick=[dict(kind="line"), dict(kind="network")], thorough=[])
def step_count(W, kind):
    """a run until T takes floor(T/dt) steps and every record is one step apart"""
    mtl, mtln = W.mod("mtl"), W.mod("mtln")
    length, q = W.const("len"), W.const("q")
    L = W.array([[q]])
    ln = mtl.MTL(l=L, c=L, length=length, ndiv=[2], Zs=W.const("Zs"), Zl=W.const("Zl"), name="l")
    dt = W.pos("dt")
    m = W.int("m", 0, 3)
    T = _T(W, dt, m)
    if kind == "line":
        ob = ln
        ob.dt = dt
        pr = [ob.add_probe(W.array([0.0, 0.0, 0.0]), k) for k in ("voltage", "current")]
        ob.run_until(T)
        root = ob
    else:
        ob = mtl.MTLD({0: [ln]}, name="b")
        pr = [ob.add_probe(W.array([0.0, 0.0, 0.0]), k) for k in ("voltage", "current")]
        root = mtln.MTLN(bundles=[ob])
        root.run_until(T, dt)
    W.check_eq(root.time, dt * m, "final time")
    for p, off in ((pr[0], 0), (pr[1], dt / 2)):
        W.check(len(p.t) == m, "number of records")
        for k in range(m):
            W.check_eq(p.t[k], dt * (k + 1) + off, "record times")


@harness(quick=[dict(mode="default"), dict(mode="override"), dict(mode="override_then_run"), dict(mode="parser_style")], timeout=300)
def network_step(W, mode):
    """every bundle, every termination network and every probe of a network
    advances with the network's step, also when the bundles' own limits differ"""
    mtl, mtln, nw = W.mod("mtl"), W.mod("mtln"), W.mod("networks")
    lens = [W.const("len%d" % k) for k in range(2)]
    qs = [W.const("q%d" % k) for k in range(2)]
    R, G = W.const_spd("R", 1), W.const_spd("G", 1)
    Rg = [[W.const("Rg%d%d" % (a, b)) for b in range(2)] for a in range(2)]
    src = W.func("vs")
    lines, bundles, nets = [], [], []
    for k in range(2):
        M = W.array([[qs[k]]])
        ln = mtl.MTL(l=M, c=M, r=R, g=0 * G, length=lens[k], ndiv=[2], name="l%d" % k)
        lines.append(ln)
        bundles.append(mtl.MTLD({0: [ln]}, name="b%d" % k))
    conn = {"connectorType": "Conn_R"}
    for k in range(2):
        for s, side in enumerate("SL"):
            net = nw.Network({lines[k]: {"side": side, "bundle": bundles[k], "connections": [[10 * k + s, 0, conn]]}})
            net.connect_to_ground_R(10 * k + s, Rg[k][s], src if (k, s) == (0, 0) else 0)
            nets.append(nw.NetworkD({0: net}))
    pr = [(b.add_probe(W.array([0.0, 0.0, 0.0]), "voltage"), b.add_probe(W.array([0.0, 0.0, 0.0]), "current")) for b in bundles]
    root = mtln.MTLN(bundles=bundles, networks=nets)
    own = [lens[k] / 2 * qs[k] for k in range(2)]
    if mode == "default":
        W.assume(own[0] != own[1])
        dt = own[0] if own[0] < own[1] else own[1]
    else:
        dt = W.pos("dt")
    if mode == "override_then_run":
        root.run_until(dt * W.frac(1, 2), dt)
    if mode == "parser_style":
        for b in bundles:
            b.dt = dt
        root.dt = dt
    s0 = [set_state(W, b, "s%d" % k) for k, b in enumerate(bundles)]
    for n in nets:
        n.levels[0].nw_v = n.levels[0].nw_v * 0
    # make the nodes agree with the symbolic bundle state
    for k in range(2):
        for s in range(2):
            n = nets[2 * k + s].levels[0]
            n.nw_v = W.array([s0[k][0][0, 0 if s == 0 else -1]])
            n.H = W.array([s0[k][0][0, 0 if s == 0 else -1]])
            n.update_currents(root.bundles)
    T = _T(W, dt, 1)
    if mode == "override":
        root.run_until(T, dt)
    else:
        root.run_until(T)
    W.check_eq(root.dt, dt, "step in force")
    W.check_eq(root.time, dt, "one step of that length is taken")
    zero = W.num(0)
    for k, b in enumerate(bundles):
        s1 = (b.v.copy(), b.i.copy())
        dx = [lens[k] / 2] * 2
        M = W.array([[qs[k]]])
        check_interior(W, dx, M, M, R, 0 * G, s0[k], s1, dt, label="bundle ")
        pair = (W.array([src(zero)]), W.array([src(0 - dt)])) if k == 0 else None
        check_terminals(W, dx, M, 0 * G, W.array([Rg[k][0]]), W.array([Rg[k][1]]), s0[k], s1, dt, vs=pair, label="bundle ")
        W.check_eq(pr[k][0].t[0], dt, "voltage record time")
        W.check_eq(pr[k][1].t[0], dt + dt / 2, "current record time")


@harness(quick=[dict(where="line", poles="real"), dict(where="bundle", poles="real"), dict(where="transfer", poles="real"),
                dict(where="line", poles="complex")])
def dispersive_step(W, where, poles):
    """lumped dispersive elements follow the step in force, not the step at the
    time they were attached"""
    mtl, mtln = W.mod("mtl"), W.mod("mtln")
    length, q = W.const("len"), W.const("q")
    M = W.array([[q]])
    a, b = W.const("a"), (W.const("b") if poles == "complex" else W.num(0))
    ra, rb = W.const("ra"), (W.const("rb") if poles == "complex" else W.num(0))
    if poles == "complex":
        model = {"cte": W.const("d"), "prop": W.const("e"),
                 "poles": {"real": [-a, -a], "imag": [b, -b]}, "residues": {"real": [ra, ra], "imag": [rb, -rb]}}
    else:
        model = {"cte": W.const("d"), "prop": W.const("e"), "poles": {"real": [-a], "imag": [W.num(0)]},
                 "residues": {"real": [ra], "imag": [W.num(0)]}}
    dt = W.pos("dt")
    cells = 2
    dx = length / cells
    W.assume(dt != dx * q)      # the line's own default step
    T = _T(W, dt, 1)
    mk = lambda nm: mtl.MTL(l=M, c=M, length=length, ndiv=[cells], Zs=W.const("Z"), Zl=W.const("Z"), name=nm)
    if where == "line":
        ob = mk("l")
        ob.add_dispersive_connector(W.array([0.0, 0.0, 0.0]), 0, model)
        ob.dt = dt
        s0 = set_state(W, ob)
        ob.run_until(T)
        n, tgt, src, cl = 1, 0, 0, [0]
    else:
        l1, l2 = mk("l1"), mk("l2")
        if where == "bundle":
            l1.add_dispersive_connector(W.array([0.0, 0.0, 0.0]), 0, model)
        ob = mtl.MTLD({0: [l1], 1: [l2]}, name="b")
        cl = [0]
        if where == "transfer":
            ob.add_transfer_impedance(0, [0], 1, [0], dict(model, direction="in"))
            cl = [0, 1]
        root = mtln.MTLN(bundles=[ob])
        s0 = set_state(W, ob)
        root.run_until(T, dt)
        n = 2
        tgt, src = (1, 0) if where == "transfer" else (0, 0)
    (v0, i0), (v1, i1) = s0, (ob.v, ob.i)
    for k in range(cells):
        for c in range(n):
            lhs = q * (i1[c, k] - i0[c, k]) / dt * dx + v1[c, k + 1] - v1[c, k]
            if c == tgt and k in cl:
                Q1, Q2, _ = recursion(W, model, dt)
                sgn = -dx if where == "transfer" else 1
                lhs = lhs + sgn * (model["cte"] * (i1[src, k] + i0[src, k]) / 2 + model["prop"] * (i1[src, k] - i0[src, k]) / dt +
                                   Q1 * i1[src, k] + Q2 * i0[src, k])
            W.check_eq(lhs, 0 * lhs, "flux balance with the element's own law")
