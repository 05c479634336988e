"""C06: the energy balance of a run."""
from engine.harness import harness
from .nets import *

OUTSIDE = ("dispersive elements and reactive terminations (no closed discrete energy is stated for them); positivity for matrices of more than 2 conductors and more than 3 cells; "
           "steps above the default one (allowed to be unstable)")


def energy(W, dx, C, L, R, v, im, ip, dt):
    """energy stored on the line at the time of v: charge energy of the dual cells plus the flux energy
    of the staggered currents before and after (im, ip), corrected for the loss between both"""
    N = len(dx)
    h = [dx[0] / 2] + [(dx[k] + dx[k + 1]) / 2 for k in range(N - 1)] + [dx[-1] / 2]
    tot = W.num(0)
    for k in range(N + 1):
        tot = tot + h[k] * v[:, k].dot(per_cell(C, k).dot(v[:, k])) / 2
    for k in range(N):
        l, r = per_cell(L, k), per_cell(R, k)
        tot = tot + dx[k] * (im[:, k].dot(l.dot(ip[:, k])) / 2 - dt / 8 * (ip[:, k].dot(r.dot(ip[:, k])) - im[:, k].dot(r.dot(im[:, k]))))
    return tot


def dissipated(W, dx, G, R, v0, v1, im, i0, ip, dt):
    N = len(dx)
    h = [dx[0] / 2] + [(dx[k] + dx[k + 1]) / 2 for k in range(N - 1)] + [dx[-1] / 2]
    tot = W.num(0)
    for k in range(N + 1):
        a = (v0[:, k] + v1[:, k]) / 2
        tot = tot + h[k] * a.dot(per_cell(G, k).dot(a)) * dt
    for k in range(N):
        r = per_cell(R, k)
        a, b = (im[:, k] + i0[:, k]) / 2, (i0[:, k] + ip[:, k]) / 2
        tot = tot + dx[k] * (a.dot(r.dot(a)) + b.dot(r.dot(b))) / 2 * dt
    return tot


@harness(quick=[dict(n=1, ndiv=(1,), sym=True), dict(n=2, ndiv=(1, 2)), dict(n=3, ndiv=(2,)), dict(n=1, ndiv=(2, 2)), dict(n=2, ndiv=(1, 1), lumped=True)],
         thorough=[dict(n=3, ndiv=(1, 2)), dict(n=2, ndiv=(2, 1, 1)), dict(n=1, ndiv=(1, 1), sym=True)], timeout=500)
def line(W, n, ndiv, sym=False, lumped=False):
    """stand-alone line: stored energy changes by the work of the sources minus the heat"""
    mtl = W.mod("mtl")
    lens = [W.const("len%d" % s) for s in range(len(ndiv))]
    dx = cell_lengths(lens, ndiv)
    if sym:
        C, R, G, L = (W.reals(x, (n, n), sign=s) for x, s in (("C", "+"), ("R", "0+"), ("G", "0+"), ("L", "+")))
        zs, zl = W.reals("Zs", (n,), sign="+"), W.reals("Zl", (n,), sign="+")
        dt = W.pos("dt")
    else:
        L, C, R, G = (W.const_spd(x, n) for x in "LCRG")
        zs, zl = W.const_arr("Zs", (n,)), W.const_arr("Zl", (n,))
        dt = W.const("dt")
    ln = mtl.MTL(l=L, c=C, r=R, g=G, node_positions=zpoints(W, lens), ndiv=list(ndiv), Zs=zs, Zl=zl)
    if lumped:
        ln.set_resistance_in_region(zpos(W, lens, 0, "float"), zpos(W, lens, lens[0], "float"), 0, W.const("Rl"))
        ln.add_conductance_in_region(zpos(W, lens, lens[0], "float"), zpos(W, lens, lens[0] + lens[1], "float"), n - 1, W.const("Gl"))
        R, G = ln.r.copy(), ln.g.copy()
    fs, fl = W.func("vs"), W.func("vl")
    end = zpos(W, lens, sum(lens))
    ln.add_voltage_source(zpos(W, lens), 0, fs)
    ln.add_voltage_source(end, n - 1, fl)
    ln.dt = dt
    v0, i0 = set_state(W, ln)
    v, i = [v0], [i0]
    for k in range(2):
        ln.run_until(dt * W.frac(3, 2))
        v.append(ln.v.copy())
        i.append(ln.i.copy())
    e1 = energy(W, dx, C, L, R, v[1], i[0], i[1], dt)
    e2 = energy(W, dx, C, L, R, v[2], i[1], i[2], dt)
    heat = dissipated(W, dx, G, R, v[1], v[2], i[0], i[1], i[2], dt)
    work = W.num(0)
    for k, z, f, c in ((0, zs, fs, 0), (-1, zl, fl, n - 1)):
        for a in range(n):
            va = (v[1][a, k] + v[2][a, k]) / 2
            src = (f(dt) + f(W.num(0))) / 2 if a == c else W.num(0)
            cur = (src - va) / z[a]
            heat = heat + z[a] * cur ** 2 * dt
            work = work + src * cur * dt
    W.check_eq(e2 - e1, work - heat, "energy balance")


@harness(quick=[dict(topo="line"), dict(topo="nested"), dict(topo="joined"), dict(topo="shared")])
def network(W, topo):
    """networks of bundles with resistors to ground and between nodes"""
    nw, mtln = W.mod("networks"), W.mod("mtln")
    from .nets import network as mk
    dt = W.const("dt")
    layouts = {"line": [[[2]]], "nested": [[[1], [1]]], "joined": [[[1]], [[1]]], "shared": [[[1], [1, 1]]]}[topo]
    cabs = [Cable(W, "b%d" % k, lv, (1,) if k else (1, 1), fields=False) for k, lv in enumerate(layouts)]
    nets, elems, num = [], [], 0
    joint = []
    for q, c in enumerate(cabs):
        for side in "SL":
            lev = {}
            for k, lv in enumerate(c.levels):
                ns = []
                for j, m in enumerate(lv):
                    for a in range(m):
                        ns.append(Node(W, c, k, j, side, a, num))
                        num += 1
                if topo == "joined" and (q, side) in ((0, "L"), (1, "S")):
                    joint += ns
                    continue
                es = [Elem(W, "R", "e%d" % x.number, x, vs=W.func("v%d" % x.number) if x.number == 0 else None) for x in ns]
                if len(ns) == 2:
                    es.append(Elem(W, "RR", "r%d" % num, ns[0], ns[1], vs=W.func("w%d" % num)))
                elems += es
                lev[k] = mk(W, ns, es)
            if lev:
                nets.append(nw.NetworkD(lev))
    if joint:
        es = [Elem(W, "RR", "j", joint[0], joint[1]), Elem(W, "R", "jg", joint[1])]
        elems += es
        nets.append(nw.NetworkD({0: mk(W, joint, es)}))
    net = mtln.MTLN(bundles=[c.b for c in cabs], networks=nets)
    for c in cabs:
        # state of the inner nodes is free, terminals start from rest
        c.b.v[:, 1:-1] = W.reals("v" + c.tag, c.b.v[:, 1:-1].shape)
    hist = []
    for k in range(4):
        net.run_until(dt * W.frac(3, 2), dt)
        hist.append([(c.b.v.copy(), c.b.i.copy()) for c in cabs])
    e1 = e2 = heat = work = W.num(0)
    for q, c in enumerate(cabs):
        (v1, i1), (v2, i2), (v3, i3) = (h[q] for h in hist[1:4])
        (_, i0) = hist[0][q]
        C, L, R, G = c.b.c, c.b.l, c.b.r, c.b.g
        e1 = e1 + energy(W, c.dx, C, L, R, v2, i1, i2, dt)
        e2 = e2 + energy(W, c.dx, C, L, R, v3, i2, i3, dt)
        heat = heat + dissipated(W, c.dx, G, R, v2, v3, i1, i2, i3, dt)
        c.prev, c.now = hist[2][q], hist[3][q]
    t = 3 * dt
    for e in elems:
        cur = e.step(t, dt)
        src = (e.src(t) + e.src(t - dt)) / 2
        heat = heat + e.R * cur ** 2 * dt
        work = work + src * cur * dt
    W.check_eq(e2 - e1, work - heat, "energy balance")


@harness(quick=[dict(n=1, ndiv=(1,)), dict(n=1, ndiv=(1, 1)), dict(n=1, ndiv=(2, 1)), dict(n=2, ndiv=(1,))],
         thorough=[dict(n=1, ndiv=(1, 1, 1)), dict(n=2, ndiv=(1, 1))], timeout=600)
def positive(W, n, ndiv, sym=False):
    """at the default step the stored energy is never negative and, without sources, never grows"""
    mtl = W.mod("mtl")
    if sym:
        L, C = W.pos("L"), W.pos("C")
        q = W.pos("q")
        W.assume(q * q == L * C)
        Lm, Cm = W.array([[L]]), W.array([[C]])
    elif n == 1:
        L, C = W.num(2), W.frac(1, 2)
        Lm, Cm = W.array([[L]]), W.array([[C]])
    else:
        Cm = W.const_spd("C", n)
        Lm = W.np.linalg.inv(Cm) * 4
    R, G = (W.reals(x, (1, 1), sign="0+", ) if sym else W.const_spd(x, n) for x in "RG")
    lens = [W.const("len%d" % s) for s in range(len(ndiv))]
    dx = cell_lengths(lens, ndiv)
    zs, zl = W.const_arr("Zs", (n,)), W.const_arr("Zl", (n,))
    ln = mtl.MTL(l=Lm, c=Cm, r=R, g=G, node_positions=zpoints(W, lens), ndiv=list(ndiv), Zs=zs, Zl=zl)
    dt = ln.dt
    set_state(W, ln)
    i0 = ln.i.copy()
    ln.run_until(dt * W.frac(3, 2))
    v1, i1 = ln.v.copy(), ln.i.copy()
    # any state of voltages and currents can be reached: state it over the unknowns themselves
    v, ip = W.out(v1), W.out(i1)
    N = len(dx)
    D = [v1[:, k + 1] - v1[:, k] for k in range(N)]
    for k in range(N):
        W.check_eq((Lm.dot(i1[:, k] - i0[:, k]) / dt + R.dot(i1[:, k] + i0[:, k]) / 2) * dx[k], -D[k], "current update")
    w = W.reals("w", (n, N + 1), lo=-1, hi=1)
    a = W.reals("a", (n, N), lo=-1, hi=1)
    # i before and after in terms of the average current a and the voltages w
    Li = W.np.linalg.inv(Lm)
    im, ip = W.np.zeros((n, N)), W.np.zeros((n, N))
    for k in range(N):
        d = Li.dot(-(w[:, k + 1] - w[:, k]) / dx[k] - R.dot(a[:, k])) * dt
        im[:, k], ip[:, k] = a[:, k] - d / 2, a[:, k] + d / 2
    W.check(energy(W, dx, Cm, Lm, R, w, im, ip, dt) >= 0, "stored energy is never negative")
