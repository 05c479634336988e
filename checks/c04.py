"""C04: the interior update is the discretised telegrapher's equation."""
from engine.harness import harness
from .common import *

OUTSIDE = ("symbolic coefficient matrices of more than 2 conductors, more than 8 cells; "
           "dispersive elements (C11, C12) and the terminals (C05, C09)")



@harness(quick=[dict(n=1, cells=3), dict(n=2, cells=2)], thorough=[dict(n=1, cells=6), dict(n=2, cells=3)])
def coefficients(W, n, cells):
    """everything symbolic: L, C symmetric positive definite, R, G full matrices, length, dt, state"""
    mtl = W.mod("mtl")
    L, Cm = W.spd("L", n), W.spd("C", n)
    R, G = W.reals("R", (n, n)), W.reals("G", (n, n))
    length, dt = W.pos("len"), W.pos("dt")
    ln = mtl.MTL(l=L, c=Cm, r=R, g=G, length=length, ndiv=cells)
    ln.dt = dt
    ln.update_lr_terms(); ln.update_cg_terms(); ln.compute_terminal_terms()
    s0 = set_state(W, ln)
    ln.step()
    check_interior(W, [length / cells] * cells, L, Cm, R, G, s0, (ln.v, ln.i), dt)


@harness(quick=[dict(n=1, ndiv=(2, 3), kind="line"), dict(n=2, ndiv=(1, 2), kind="line"), dict(n=3, ndiv=(3,), kind="line"),
                dict(n=2, ndiv=(2, 1), kind="bundle"), dict(n=3, ndiv=(2, 2), kind="bundle"),
                dict(n=3, ndiv=(2, 1), kind="bundle", levels=((1,), (2,)))],
         thorough=[dict(n=3, ndiv=(3, 5), kind="line"), dict(n=3, ndiv=(3, 3, 2), kind="bundle"), dict(n=4, ndiv=(2, 2), kind="bundle", levels=((1,), (1, 2))), dict(n=4, ndiv=(2, 2), kind="line")])
def fields(W, n, ndiv, kind, levels=None):
    """concrete full L, C, R, G on a non-uniform mesh; symbolic state, dt, start
    time and transverse/longitudinal field functions; two steps"""
    mtl, mtln = W.mod("mtl"), W.mod("mtln")
    lens = [W.pos("len%d" % s) for s in range(len(ndiv))] if n < 2 else [W.const("len%d" % s) for s in range(len(ndiv))]
    dt = W.pos("dt") if n < 3 else W.const("dt")
    t0 = W.real("t0")
    N = sum(ndiv)
    pts = zpoints(W, lens)
    if kind == "line":
        ln = line_const(W, n, node_positions=pts, ndiv=list(ndiv))
        L, Cm, R, G = ln.l[0].copy(), ln.c[0].copy(), ln.r[0].copy(), ln.g[0].copy()
    else:
        parts = [[line_const(W, m, "p%d%d" % (k, q), node_positions=pts, ndiv=list(ndiv), Z=False) for q, m in enumerate(lv)]
                 for k, lv in enumerate(levels or ((1,),) * n)]
        ln = mtl.MTLD(dict(enumerate(parts)), name="bundle")
        L, Cm, R, G = ln.l[0].copy(), ln.c[0].copy(), ln.r[0].copy(), ln.g[0].copy()
        k = 0
        for p in (p for lv in parts for p in lv):
            m = p.number_of_conductors
            for a, b in ((L, p.l), (Cm, p.c), (R, p.r), (G, p.g)):
                W.check_eq(a[k:k + m, k:k + m], b[0], "bundle carries its lines' parameters")
            k += m
    gT, gL = attach_fields(W, ln, n, N)
    net = None
    ln.dt = dt
    ln.update_lr_terms(); ln.update_cg_terms()
    if kind == "line":
        ln.compute_terminal_terms()
        ln.time = t0
    else:
        net = mtln.MTLN(bundles=[ln])
        net.dt = dt
        net.time = t0
    dx = cell_lengths(lens, ndiv)
    t = t0
    s0 = set_state(W, ln)
    for step in range(2):
        (net or ln).step()
        s1 = (ln.v.copy(), ln.i.copy())
        check_interior(W, dx, L, Cm, R, G, s0, s1, dt, "step %d " % step,
                       eT=lambda k: (gT(k, t), gT(k, t - dt)),
                       eL=lambda k: (gL(k, t + dt / 2), gL(k, t - dt / 2)))
        s0 = s1
        t = t + dt

