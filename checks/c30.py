"""C30: at its default step a uniform lossless line carries pulses exactly and reflects them exactly."""
from engine.harness import harness
from .nets import *

OUTSIDE = "non-uniform, lossy or inhomogeneous lines (their propagation is approximate by nature); steps other than the default; more than 4 cells and 4 steps; 3 conductors or more"


def _uniform(W, tag="", n=1):
    """impedance, velocity and cell length of a line, and its parameters"""
    if n == 1:
        Z, v = W.pos(tag + "Z"), W.pos(tag + "vel")
        return W.array([[Z]]), v, W.array([[Z / v]]), W.array([[1 / (Z * v)]])
    v = W.const(tag + "vel")
    C = W.const_spd(tag + "C", n)
    L = W.np.linalg.inv(C) / (v * v)
    return L * v, v, L, C


def _waves(W, tag, n, N):
    return W.reals(tag + "r", (n, N + 1)), W.reals(tag + "l", (n, N + 1))


def _put(W, ln, Z, r, l):
    """voltages and currents of a wave of values r towards the far end and l towards the near end at the nodes; a cell's current is half a step ahead"""
    iZ = W.np.linalg.inv(Z)
    ln.v[...] = r + l
    ln.i[...] = iZ.dot(r[:, :-1] - l[:, 1:])


def _one(W, n, N, Zs, Zl, L, C, dx, as_bundle=False):
    mtl = W.mod("mtl")
    if W.bool("by length"):
        return mtl.MTL(l=L, c=C, length=dx * N, ndiv=N, Zs=Zs, Zl=Zl, name="ln")
    z = W.num(0)
    pts = W.array([[z, z, z], [z, dx * N, z]])
    return mtl.MTL(l=L, c=C, node_positions=pts, ndiv=[N], Zs=Zs, Zl=Zl, name="ln")


def _refl(W, Z, z):
    return (z - Z) / (z + Z)


@harness(quick=[dict(N=2), dict(N=4, steps=5), dict(N=3, ends="short"), dict(N=3, ends="matched", steps=5)], thorough=[dict(N=6, steps=8)], timeout=500)
def line(W, N, steps=4, ends="any"):
    """waves of any shape on a line move one cell per step and are reflected by its impedances"""
    Z, vel, L, C = _uniform(W)
    Z0 = Z[0, 0]
    dx = W.pos("dx")
    zs, zl = W.nonneg("Zs"), W.nonneg("Zl")
    if ends == "short":
        zs = zl = W.num(0)
    if ends == "matched":
        zs = zl = Z0
    ln = _one(W, 1, N, W.array([zs]), W.array([zl]), L, C, dx)
    ln = _one(W, 1, N, W.array([zs]), W.array([zl]), L, C, dx)
    r, l = _waves(W, "", 1, N)
    f, g = W.func("f"), W.func("g")
    ln.add_voltage_source(W.array([W.num(0)] * 3), 0, f)
    far = ln.u[-1].copy()
    ln.add_voltage_source(far, 0, g)
    _put(W, ln, Z, r, l)
    r, l = [x for x in r[0]], [x for x in l[0]]
    rs, rl = _refl(W, Z0, zs), _refl(W, Z0, zl)
    dt, t = dx / vel, W.num(0)
    for m in range(steps):
        ln.run_until(ln.dt * W.frac(3, 2))
        ll, rr = l[1:] + [None], [None] + r[:-1]
        rr[0] = -r[0] + rs * (ll[0] + l[0]) + (1 - rs) / 2 * (f(t) + f(t - dt))
        ll[N] = -l[N] + rl * (rr[N] + r[N]) + (1 - rl) / 2 * (g(t) + g(t - dt))
        r, l, t = rr, ll, t + dt
        v = W.out(ln.v.copy())
        for k in range(N + 1):
            W.check_eq(v[0, k], r[k] + l[k], "voltage of the travelling waves")
        for k in range(N):
            W.check_eq(ln.i[0, k] * Z0, r[k] - l[k + 1], "current of the travelling waves")


class Track:
    """waves on the conductors of a bundle: carried along, with the outgoing ones taken from the ends"""

    def __init__(self, W, ln, Z, n, N):
        self.W, self.ln, self.Z, self.n, self.N = W, ln, Z, n, N
        zero = W.np.zeros((n, 1))
        self.r, self.l = [zero] * (N + 1), [zero] * (N + 1)

    def step(self, label):
        W, ln, N = self.W, self.ln, self.N
        r0, l0 = self.r, self.l
        r, l = [None] + r0[:-1], l0[1:] + [None]
        r[0] = ln.v[:, :1] - l[0]
        l[N] = ln.v[:, N:] - r[N]
        for k in range(1, N):
            W.check_eq(ln.v[:, k:k + 1], r[k] + l[k], label + "voltage of the travelling waves")
        for k in range(N):
            W.check_eq(self.Z.dot(ln.i[:, k:k + 1]), r[k] - l[k + 1], label + "current of the travelling waves")
        # sums over the step of incoming and outgoing waves at both ends
        self.near = l[0] + l0[0], r[0] + r0[0]
        self.far = r[N] + r0[N], l[N] + l0[N]
        self.r, self.l = r, l


def _maxwell(W, n):
    """capacitances of conductors over ground: couplings are negative"""
    C = W.np.zeros((n, n))
    for a in range(n):
        C[a, a] = C[a, a] + W.const("Cg%d" % a)
        for b in range(a):
            x = W.const("Cm%d%d" % (a, b))
            for p, q, s in ((a, a, 1), (b, b, 1), (a, b, -1), (b, a, -1)):
                C[p, q] = C[p, q] + x * s
    return C


@harness(quick=[dict(n=1, N=3), dict(n=2, N=2), dict(n=2, N=3, steps=6)], thorough=[dict(n=3, N=2, steps=6)], timeout=500)
def absorbed(W, n, N, steps=5):
    """a network of resistors with the admittance of the line takes in everything that arrives; the other end drives it with half of its sources"""
    mtl, mtln, nw = W.mod("mtl"), W.mod("mtln"), W.mod("networks")
    vel, dx = W.const("vel"), W.const("dx")
    C = _maxwell(W, n)
    Y = C * vel
    L = W.np.linalg.inv(C) / (vel * vel)
    z = W.num(0)
    ln = mtl.MTL(l=L, c=C, node_positions=W.array([[z, z, z], [z, z, dx * N]]), ndiv=[N], name="ln")
    b = mtl.MTLD({0: [ln]}, name="b")
    nets = []
    f = [W.func("f%d" % a) for a in range(n)]
    for q, s in enumerate("SL"):
        net = nw.Network({ln: {"connections": [[10 * q + a, a, CONN["R"]] for a in range(n)], "side": s, "bundle": b}})
        for a in range(n):
            g = sum((Y[a, c] for c in range(n)), W.num(0))
            net.connect_to_ground_R(10 * q + a, 1 / g, *([f[a]] if q == 0 else []))
            for c in range(a):
                net.connect_nodes(10 * q + a, 10 * q + c, -1 / Y[a, c])
        nets.append(nw.NetworkD({0: net}))
    top = mtln.MTLN([b], nets)
    W.check_eq(top.dt * vel, dx, "a cell per step")
    tr = Track(W, b, W.np.linalg.inv(Y), n, N)
    G = [sum((Y[a, c] for c in range(n)), W.num(0)) for a in range(n)]
    dt, t = dx / vel, W.num(0)
    for m in range(steps):
        top.run_until(top.dt * W.frac(3, 2))
        tr.step("")
        W.check_eq(tr.far[1], 0 * tr.far[1], "nothing comes back from a matched end")
        # matched sources: their short circuit currents into twice the admittance
        i0 = W.array([[G[a] * (f[a](t) + f[a](t - dt)) / 2] for a in range(n)])
        W.check_eq(Y.dot(tr.near[1]), i0, "what a matched source sends out")
        t = t + dt


@harness(quick=[dict(), dict(swap=True), dict(both=True)], timeout=500)
def scattered(W, swap=False, both=False, steps=5):
    """two lines joined by a resistor, with a load at the joint, scatter waves as their impedances say"""
    mtl, mtln, nw = W.mod("mtl"), W.mod("mtln"), W.mod("networks")
    N = 2
    vel, dx = W.const("vel"), W.const("dx")
    Z = [W.const("Z0"), W.const("Z1")]
    z = W.num(0)
    # the second line has longer cells and is faster: the same step
    st = [W.num(1), W.num(3)]
    lns, bs, nets = [], [], []
    f = [W.func("f0"), W.func("f1") if both else None]
    for q in range(2):
        v, h = vel * st[q], dx * st[q]
        ln = mtl.MTL(l=W.array([[Z[q] / v]]), c=W.array([[1 / (Z[q] * v)]]), node_positions=W.array([[z, z, z], [h * N, z, z]]), ndiv=[N], name="ln%d" % q)
        lns.append(ln)
        bs.append(mtl.MTLD({0: [ln]}, name="b%d" % q))
    outer = ("S", "S" if swap else "L")
    joint = ("L", "L" if swap else "S")
    R = [W.const("R0"), W.const("R1")]
    for q in range(2):
        net = nw.Network({lns[q]: {"connections": [[q, 0, CONN["R"]]], "side": outer[q], "bundle": bs[q]}})
        net.connect_to_ground_R(q, R[q], *([f[q]] if f[q] else []))
        nets.append(nw.NetworkD({0: net}))
    j = nw.Network({lns[q]: {"connections": [[10 + q, 0, CONN["R"]]], "side": joint[q], "bundle": bs[q]} for q in range(2)})
    Rj, Rg = W.const("Rj"), W.const("Rg")
    j.connect_nodes(10, 11, Rj)
    j.connect_to_ground_R(11, Rg)
    nets.append(nw.NetworkD({0: j}))
    top = mtln.MTLN(bs, nets)
    W.check_eq(top.dt * vel, dx, "a cell per step")
    trs = [Track(W, bs[q], W.array([[Z[q]]]), 1, N) for q in range(2)]
    dt, t = dx / vel, W.num(0)
    for m in range(steps):
        top.run_until(top.dt * W.frac(3, 2))
        V, I = [], []
        for q, tr in enumerate(trs):
            tr.step("line %d: " % q)
            at = {"S": tr.near, "L": tr.far}
            (a, b), (x, y) = at[joint[q]], at[outer[q]]
            a, b, x, y = a[0, 0], b[0, 0], x[0, 0], y[0, 0]
            V.append(a + b)
            I.append((a - b) / Z[q])
            s = (f[q](t) + f[q](t - dt)) if f[q] else W.num(0)
            rho = (R[q] - Z[q]) / (R[q] + Z[q])
            W.check_eq(y, rho * x + (1 - rho) / 2 * s, "reflection at the end")
        W.check_eq((V[0] - V[1]) / Rj, I[0], "wave through the joint")
        W.check_eq(V[1] / Rg - (V[0] - V[1]) / Rj, I[1], "wave past the load")
        t = t + dt
