"""C05: single-line terminals are Thevenin equivalents with the terminal half cell."""
from engine.harness import harness
from .common import *

OUTSIDE = "symbolic matrices of more than 2 conductors; impedances other than diagonal (not constructible)"


@harness(quick=[dict(n=1, cells=1), dict(n=1, cells=2), dict(n=2, cells=1)], thorough=[dict(n=2, cells=2), dict(n=1, cells=4)])
def coefficients(W, n, cells):
    """everything symbolic, sources at both ends"""
    mtl = W.mod("mtl")
    L, Cm, G = W.const_spd("L", n), W.spd("C", n), W.reals("G", (n, n), sign="0+") if n == 1 else W.const_full("G", n)
    zs, zl = W.reals("Zs", (n,), sign="0+"), W.reals("Zl", (n,), sign="0+")
    if n == 2:
        Cm = W.const_spd("C", n)
    length, dt, t0 = W.pos("len"), W.pos("dt"), W.real("t0")
    ln = mtl.MTL(l=L, c=Cm, g=G, length=length, ndiv=[cells], Zs=zs, Zl=zl)
    fs = [W.func("vs%d" % a) for a in range(n)]
    fl = [W.func("vl%d" % a) for a in range(n)]
    for a in range(n):
        ln.add_voltage_source(W.array([0.0, 0.0, 0.0]), a, fs[a])
        ln.add_voltage_source(W.array([W.num(0), W.num(0), length]), a, fl[a])
    ln.dt = dt
    ln.update_lr_terms(); ln.update_cg_terms(); ln.compute_terminal_terms()
    ln.time = t0
    s0 = set_state(W, ln)
    ln.step()
    now = lambda f, t: W.array([x(t) for x in f])
    check_terminals(W, [length / cells] * cells, Cm, G, zs, zl, s0, (ln.v, ln.i), dt,
                    (now(fs, t0), now(fs, t0 - dt)), (now(fl, t0), now(fl, t0 - dt)))


@harness(quick=[dict(n=1, ndiv=(1, 2)), dict(n=2, ndiv=(2, 1)), dict(n=3, ndiv=(2,))],
         thorough=[dict(n=4, ndiv=(2, 2)), dict(n=3, ndiv=(3, 2))])
def steps(W, n, ndiv):
    """three consecutive steps from an arbitrary state, non-uniform mesh,
    different impedances per conductor and end, fields on; energy source moved by a symbolic choice"""
    mtl = W.mod("mtl")
    lens = [W.const("len%d" % s) for s in range(len(ndiv))]
    dt, t0 = W.const("dt"), W.real("t0")
    N = sum(ndiv)
    ln = line_const(W, n, node_positions=zpoints(W, lens), ndiv=list(ndiv), Z=False,
                    Zs=W.const_arr("Zs", (n,)), Zl=W.const_arr("Zl", (n,)))
    Cm, G = ln.c[0].copy(), ln.g[0].copy()
    zs, zl = W.const_arr("Zs", (n,)), W.const_arr("Zl", (n,))
    gT, gL = attach_fields(W, ln, n, N)
    side = W.int("side", 0, 1)
    cond = W.int("cond", 0, n - 1)
    src = W.func("vs")
    ln.add_voltage_source(zpos(W, lens, sum(lens) if side else 0), cond, src)
    ln.dt = dt
    ln.update_lr_terms(); ln.update_cg_terms(); ln.compute_terminal_terms()
    ln.time = t0
    s0 = set_state(W, ln)
    t = t0
    dx = cell_lengths(lens, ndiv)
    zero = W.np.zeros(n)
    unit = W.np.zeros(n)
    unit[cond] = 1.0
    for step in range(3):
        ln.step()
        s1 = (ln.v.copy(), ln.i.copy())
        pair = (unit * src(t), unit * src(t - dt))
        check_terminals(W, dx, Cm, G, zs, zl, s0, s1, dt,
                        pair if side == 0 else (zero, zero), pair if side == 1 else (zero, zero),
                        eT=lambda k: (gT(k, t), gT(k, t - dt)), label="step %d " % step)
        s0 = s1
        t = t + dt


@harness(quick=[dict(form="scalar"), dict(form="row"), dict(form="column"), dict(form="vector")])
def impedance_forms(W, form):
    """every accepted way of giving the impedances means the same thing"""
    mtl = W.mod("mtl")
    n = 2
    if form == "scalar":
        a, b = W.nonneg("zs"), W.nonneg("zl")
        zs, zl = W.array([a, a]), W.array([b, b])
        args = dict(Zs=a, Zl=b)
    else:
        zs, zl = W.reals("Zs", (n,), sign="0+"), W.reals("Zl", (n,), sign="0+")
        shape = {"row": (1, n), "column": (n, 1), "vector": (n,)}[form]
        args = dict(Zs=zs.reshape(shape), Zl=zl.reshape(shape))
    L, Cm = W.const_spd("L", n), W.const_spd("C", n)
    ln = mtl.MTL(l=L, c=Cm, length=1.0, ndiv=[1], **args)
    ln.dt = W.const("dt")
    ln.update_lr_terms(); ln.update_cg_terms(); ln.compute_terminal_terms()
    s0 = set_state(W, ln)
    ln.step()
    check_terminals(W, [W.num(1)], Cm, W.np.zeros((n, n)), zs, zl, s0, (ln.v, ln.i), ln.dt)
