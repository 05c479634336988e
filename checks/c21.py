"""C21: ports measure power waves, and network parameters are their ratios with one port driven at a time."""
import contextlib

from engine.harness import harness
from .common import *

OUTSIDE = ("record lengths other than 2 and 4 frames; lines with sources or fields of their own; scikit-rf (a stand-in records what it is given); "
           "the accuracy of the parameters of a truncated record")


class Cx:
    """complex number of two reals"""

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __add__(self, o):
        return Cx(self.re + o.re, self.im + o.im)

    def __sub__(self, o):
        return Cx(self.re - o.re, self.im - o.im)

    def __mul__(self, o):
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re) if isinstance(o, Cx) else Cx(self.re * o, self.im * o)


def dft(W, x):
    """discrete Fourier transform of 2 or 4 frames, lowest (most negative) frequency first"""
    N = len(x)
    tw = {2: [(1, 0), (-1, 0)], 4: [(1, 0), (0, -1), (-1, 0), (0, 1)]}[N]
    out = []
    for k in range(-N // 2, N - N // 2):
        re = im = W.num(0)
        for m in range(N):
            c, s = tw[(k * m) % N]
            re, im = re + x[m] * c, im + x[m] * s
        out.append(Cx(re, im))
    return out


def waves(W, v0, v1, i, z, sign):
    """incident and reflected waves of a record: voltages of the first two nodes, currents of the cell between them
    half a step after each voltage; i is taken at the time of the voltage (the first frame has no earlier current)"""
    v = [(a + b) / 2 for a, b in zip(v0, v1)]
    c = [(i[max(k - 1, 0)] + i[k]) / 2 * sign for k in range(len(i))]
    V, I = dft(W, v), dft(W, c)
    q = 1 / (2 * W.np.sqrt(z))
    return [(a + b * z) * q for a, b in zip(V, I)], [(a - b * z) * q for a, b in zip(V, I)]


def cx(x):
    return Cx(x.real, x.imag)


def eq(W, a, b, label, scale=None):
    W.check_eq(a.re, b.re, label, scale=scale)
    W.check_eq(a.im, b.im, label, scale=scale)


def _line(W, n, cells, sym=False, name=""):
    mtl = W.mod("mtl")
    L, C, R, G = (W.const_spd(x, n) for x in "LCRG")
    zs, zl = (W.reals(x, (n,), sign="+") if sym else W.array([W.num((k + (x == "Zl")) % 3 + 1) ** 2 for k in range(n)]) for x in ("Zs", "Zl"))
    off = [W.const("off%d" % k) for k in range(3)]
    pts = zpoints(W, [W.const("len%d" % k) for k in range(cells)]) + W.array(off)
    ln = mtl.MTL(l=L, c=C, r=R, g=G, node_positions=pts, ndiv=[1] * cells, Zs=zs, Zl=zl, name=name)
    ln.dt = W.const("dt")
    return ln, zs, zl


@harness(quick=[dict(n=1, cells=1, steps=2, sym=True), dict(n=2, cells=1, steps=2), dict(n=2, cells=3, steps=4), dict(n=1, cells=2, steps=4, sym=True)],
         thorough=[dict(n=3, cells=3, steps=4)], timeout=400)
def port(W, n, cells, steps, sym=False):
    """incident and reflected power waves at both ends, from any state"""
    ln, zs, zl = _line(W, n, cells, sym)
    if not sym:
        s0 = set_state(W, ln)
    else:
        # records with any content
        rec = W.reals("rec", (steps, 3, n))
    ps = dict(zip("SL", ln.add_port_probes()))
    W.check([ps[k].getTerminal() for k in "SL"] == ["S", "L"], "ports know their end")
    dt = ln.dt
    V, I = [], []
    if sym:
        ln.run_until(dt * W.frac(2 * steps + 1, 2))
        for p in ps.values():
            for q, pr in enumerate((p.v0, p.v1, p.i0)):
                W.check(pr.val.shape == (steps, n), "one frame per step and conductor")
                pr.val[...] = rec[:, q]
    else:
        twin, _, _ = _line(W, n, cells)
        twin.v[...], twin.i[...] = s0
        for k in range(steps):
            twin.run_until(dt * W.frac(3, 2))
            V.append(twin.v.copy())
            I.append(twin.i.copy())
        ln.run_until(dt * W.frac(2 * steps + 1, 2))
    for side, p in ps.items():
        a0, a1, c = (0, 1, 0) if side == "S" else (cells - 1, cells, cells - 1)
        for k in range(n):
            f, a, b = p.get_incident_and_reflected_power_wave(k)
            W.check_eq(f, W.array([W.num(q) / (steps * dt) for q in range(-steps // 2, steps - steps // 2)]), "frequencies")
            z = (zs if side == "S" else zl)[k]
            if sym:
                r = [[rec[m, q, k] for m in range(steps)] for q in range(3)]
            else:
                r = [[x[k, a0] for x in V], [x[k, a1] for x in V], [x[k, c] for x in I]]
            ra, rb = waves(W, *r, z, 1 if side == "S" else -1)
            for x, y in zip(a, ra):
                eq(W, cx(x), y, "incident wave")
            for x, y in zip(b, rb):
                eq(W, cx(x), y, "reflected wave")
    W.check(len(ln.port_probes) == 2 and ln.port_probes[0] is ps["S"] and ln.port_probes[1] is ps["L"], "the line keeps its ports")


@harness(quick=[dict()])
def ratios(W):
    """parameters from two ports: every wave over the incident wave of each port"""
    ne = W.mod("networkExtraction")
    ln, zs, zl = _line(W, 2, 1, True)
    pS, pL = ln.add_port_probes()
    ln.run_until(ln.dt * W.frac(5, 2))
    for s, p in (("S", pS), ("L", pL)):
        for q, pr in enumerate((p.v0, p.v1, p.i0)):
            pr.val[...] = W.reals("rec%s%d" % (s, q), (2, 2))
    ends = {"S": pS, "L": pL}
    e1, e2 = W.choice("p1", "SL"), W.choice("p2", "SL")
    c1, c2 = W.choice("c1", (0, 1)), W.choice("c2", (0, 1))
    w = []
    for e, c in ((e1, c1), (e2, c2)):
        p = ends[e]
        r = [[pr.val[m, c] for m in range(2)] for pr in (p.v0, p.v1, p.i0)]
        a, b = waves(W, *r, (zs if e == "S" else zl)[c], 1 if e == "S" else -1)
        for x in a:
            W.assume(x.re * x.re + x.im * x.im > 0)
        w.append((a, b))
    f, s = ne.extract_s_reciprocal((ends[e1], c1), (ends[e2], c2))
    W.check(s.shape == (2, 2, 2), "a two by two matrix for every frequency")
    for k in range(2):
        for i in range(2):
            for j in range(2):
                eq(W, cx(s[k, i, j]) * w[j][0][k], w[i][1][k], "parameter %d%d" % (i + 1, j + 1))


@contextlib.contextmanager
def _recorder(W):
    """what sources are put on lines meanwhile"""
    cls = W.mod("mtl").MTL
    log = []
    add = cls.__dict__["add_voltage_source"]

    def rec(self, *a, **k):
        d = dict(zip(("position", "conductor", "magnitude"), a), **k)
        log.append((W.array(list(d["position"])), d["conductor"], d["magnitude"]))
        return add(self, *a, **k)
    cls.add_voltage_source = rec
    try:
        yield log
    finally:
        cls.add_voltage_source = add


@harness(quick=[dict(p1=("S", 0), p2=("L", 0)), dict(p1=("L", 0), p2=("S", 0)), dict(p1=("S", 1), p2=("L", 0)), dict(p1=("L", 0), p2=("L", 1))], timeout=400)
def extraction(W, p1, p2):
    """the two-port of a line: each port driven alone, from rest, on a line of its own"""
    ne = W.mod("networkExtraction")
    n, cells = 2, 2
    ln, zs, zl = _line(W, n, cells)
    s0 = set_state(W, ln)
    ln.x = ln.u        # the name the extraction uses for the node positions (see source_at_end)
    W.allow_nan()      # the parameters of a port that is not driven are not used
    dt = ln.dt
    fmax = 3 / (8 * dt)
    with _recorder(W) as log:
        nw = ne.extract_2p_network(ln, W.num(0), fmax, dt * W.frac(9, 2), p1=p1, p2=p2)
    W.check_eq(ln.v, s0[0], "the line itself is left alone")
    W.check_eq(ln.i, s0[1], "the line itself is left alone")
    W.check(ln.time == 0 and len(ln.probes) == 0 and len(ln.port_probes) == 0, "the line itself is left alone")
    W.check(len(log) == 2, "two simulations")
    res = []
    for (pos, cond, mag), p in zip(log, (p1, p2)):
        W.check_eq(pos, ln.u[0] if p[0] == "S" else ln.u[-1], "the driven end")
        W.check(cond == p[1], "the driven conductor")
        t, _, _ = _line(W, n, cells)
        t.add_voltage_source(pos, cond, mag)
        V, I = [], []
        for k in range(4):
            t.run_until(dt * W.frac(3, 2))
            V.append(t.v.copy())
            I.append(t.i.copy())
        w = []
        for e, c in (p1, p2):
            a0, a1, ce = (0, 1, 0) if e == "S" else (cells - 1, cells, cells - 1)
            w.append(waves(W, [x[c, a0] for x in V], [x[c, a1] for x in V], [x[c, ce] for x in I], (zs if e == "S" else zl)[c], 1 if e == "S" else -1))
        res.append(w)
    W.check_eq(nw.frequency.f, W.array([W.num(0), 1 / (4 * dt)]), "frequencies from the lowest up to, not including, the highest")
    W.check(nw.s.shape == (2, 2, 2), "a two by two matrix for every frequency")
    for k in range(2):
        for j in range(2):
            a = res[j][j][0][2 + k]
            W.assume(a.re * a.re + a.im * a.im > 0)
            for i in range(2):
                eq(W, cx(nw.s[k, i, j]) * res[j][j][0][2 + k], res[j][i][1][2 + k], "parameter %d%d" % (i + 1, j + 1), scale=1e-20)     # the pulse has hardly begun


@harness(quick=[dict()])
def source_at_end(W):
    """the extraction finds the ends of the line"""
    ne = W.mod("networkExtraction")
    W.allow_nan()
    ln, zs, zl = _line(W, 1, 1)
    try:
        ne.getSolvedProbesFromLine(ln, ("S", 0), ("L", 0), W.func("v"), ln.dt * W.frac(5, 2))
    except AttributeError:
        W.fail("the extraction finds the ends of the line")
