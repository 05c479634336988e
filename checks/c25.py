"""C25: a system is the sum of its parts: what nothing couples behaves as if it were alone, and joining parts restores the whole."""
from engine.harness import harness
from .systems import *

OUTSIDE = "more than 3 lines, 3 levels, 3 cells, 3 steps; cutting a line between nodes; shorts are exact to 1e-6 of unit states only"


def _zero(W, poles):
    z = {"cte": W.num(0), "prop": W.num(0), "poles": {"real": [], "imag": []}, "residues": {"real": [], "imag": []}, "direction": "both"}
    if poles:
        z["poles"] = {"real": [W.num(-2), W.num(-1), W.num(-1)], "imag": [W.num(0), W.num(3), W.num(-3)]}
        z["residues"] = {"real": [W.num(0)] * 3, "imag": [W.num(0)] * 3}
    return z


def _line(W, tag, n, lens, ndiv, els, L=None):
    kw = {} if L is None else L
    ln = line_const(W, n, tag, node_positions=zpoints(W, lens), ndiv=list(ndiv), Z=False, name=tag, **kw)
    if els:
        pts = zpoints(W, lens)
        ln.add_dispersive_connector(pts[0], n - 1, model(W, n, n == 1))
        ln.set_resistance_in_region(pts[1], pts[len(lens)], 0, W.const(tag + "Rl"))
        ln.add_conductance_in_region(pts[1], pts[1], n - 1, W.const(tag + "Gl"))
    return ln


def _excite(W, tag, b, off, n, memo):
    """symbolic state and fields of one line, at its place in a bundle"""
    N = b.i.shape[1]
    if tag not in memo:
        memo[tag] = W.reals(tag + "v", (n, N - 1)), W.reals(tag + "i", (n, N))
    v, i = memo[tag]
    for a in range(n):
        b.v[off + a, 1:-1] = v[a]
        b.i[off + a, :] = i[a]
        for k in range(N + 1):
            b.e_T[off + a, k] = W.func("%seT%d_%d" % (tag, a, k))
        for k in range(N):
            b.e_L[off + a, k] = W.func("%seL%d_%d" % (tag, a, k))


def _ends(W, ln, tag, b, base):
    """termination networks of one line: {side: Network}"""
    nw = W.mod("networks")
    n = ln.number_of_conductors
    out = {}
    for s in "SL":
        num = [base + 10 * (s == "L") + a for a in range(n)]
        net = nw.Network({ln: {"connections": [[num[a], a, CONN["LC" if a == 1 else "R"]] for a in range(n)], "side": s, "bundle": b}})
        for a in range(n):
            x = "%s%s%d" % (tag, s, a)
            if a == 1:
                net.connect_to_ground_LCpRs(num[a], W.const(x + "R"), W.const(x + "L"), W.const(x + "C"), W.func(x))
            else:
                net.connect_to_ground_R(num[a], W.const(x + "R"), W.func(x))
                net.connect_to_ground_C(num[a], W.const(x + "C"))
        if n > 1:
            net.connect_nodes(num[0], num[1], W.const(tag + s + "RR"))
        out[s] = net
    return out


@harness(quick=[dict(levels=((1,), (2, 3))), dict(levels=((2,), (1,), (3,))), dict(levels=((3,), (2, 1), ()), zero=True), dict(levels=((1,), (2, 3)), zero=True)], timeout=400)
def uncoupled(W, levels, zero=False, steps=2):
    """lines that share a bundle without coupling, or with a coupling of zero, are the same lines in bundles of their own"""
    mtl, mtln, nw = W.mod("mtl"), W.mod("mtln"), W.mod("networks")
    lens, ndiv = [W.const("len0"), W.const("len1")], (1, 2)
    levels = [lv for lv in levels if lv]
    # the second figure of a line is its number of conductors
    size = {1: 1, 2: 2, 3: 1}
    out, memo = [], {}
    dt = W.frac(1, 4)
    for shared in (True, False):
        lns = {q: _line(W, "l%d" % q, size[q], lens, ndiv, True) for lv in levels for q in lv}
        place, bundles, nets = {}, [], []
        if shared:
            b = mtl.MTLD({k: [lns[q] for q in lv] for k, lv in enumerate(levels)}, name="b")
            off = 0
            for lv in levels:
                for q in lv:
                    place[q] = (b, off)
                    off += size[q]
            if zero:
                for k in range(len(levels) - 1):
                    b.add_transfer_impedance(k, [0], k + 1, list(range(sum(size[q] for q in levels[k + 1]))), _zero(W, k == 0))
            bundles = [b]
        else:
            for q in lns:
                b = mtl.MTLD({0: [lns[q]]}, name="b%d" % q)
                bundles.append(b)
                place[q] = (b, 0)
        for q in lns:
            _excite(W, "l%d" % q, place[q][0], place[q][1], size[q], memo)
        if shared:
            for s in "SL":
                lev = {}
                for lvl, lv in enumerate(levels):
                    lev[lvl] = _merged(W, [(q, lns[q], place[q][0], size[q]) for q in lv], s)
                nets.append(nw.NetworkD(lev))
        else:
            for q in lns:
                e = _ends(W, lns[q], "l%d" % q, place[q][0], 100 * q)
                nets += [nw.NetworkD({0: e[s]}) for s in "SL"]
        top = mtln.MTLN(bundles, nets)
        top.run_until(dt * W.frac(2 * steps + 1, 2), dt)
        for q in lns:
            b, off = place[q]
            out.append((shared, q, b.v[off:off + size[q]].copy(), b.i[off:off + size[q]].copy()))
    for q in [x for lv in levels for x in lv]:
        a, b = [x for x in out if x[1] == q]
        W.check_eq(a[2], b[2], "voltages as alone")
        W.check_eq(a[3], b[3], "currents as alone")


@harness(quick=[dict(levels=((1,), (2,))), dict(levels=((2,), (1, 3)))], timeout=400)
def alone(W, levels, steps=2):
    """lines that share a bundle without coupling are the same lines on their own, with impedances for the networks"""
    mtl, mtln, nw = W.mod("mtl"), W.mod("mtln"), W.mod("networks")
    lens, ndiv = [W.const("len0"), W.const("len1")], (1, 2)
    size = {1: 1, 2: 2, 3: 1}
    dt = W.frac(1, 4)
    ids = [q for lv in levels for q in lv]
    Z = {(q, s): W.const_arr("Z%d%s" % (q, s), (size[q],)) for q in ids for s in "SL"}
    src = {(q, s, a): W.func("s%d%s%d" % (q, s, a)) for q in ids for s in "SL" for a in range(size[q])}
    memo, out = {}, {}
    lns = {q: _line(W, "l%d" % q, size[q], lens, ndiv, True) for q in ids}
    b = mtl.MTLD({k: [lns[q] for q in lv] for k, lv in enumerate(levels)}, name="b")
    nets, place, off = {s: {} for s in "SL"}, {}, 0
    for k, lv in enumerate(levels):
        for q in lv:
            place[q] = off
            _excite(W, "l%d" % q, b, off, size[q], memo)
            off += size[q]
        for s in "SL":
            num = lambda q, a: 100 - 10 * q - a
            net = nets[s][k] = nw.Network({lns[q]: {"connections": [[num(q, a), a, CONN["R"]] for a in range(size[q])], "side": s, "bundle": b} for q in lv})
            for q in lv:
                for a in range(size[q]):
                    net.connect_to_ground_R(num(q, a), Z[q, s][a], src[q, s, a])
    # networks start at rest
    b.i[:, [0, -1]] = W.num(0)
    top = mtln.MTLN([b], [nw.NetworkD(nets[s]) for s in "LS"])
    top.run_until(dt * W.frac(2 * steps + 1, 2), dt)
    for q in ids:
        ln = _line(W, "l%d" % q, size[q], lens, ndiv, True)
        ln.zs, ln.zl = W.np.diag(Z[q, "S"]), W.np.diag(Z[q, "L"])
        _excite(W, "l%d" % q, ln, 0, size[q], memo)
        pts = zpoints(W, lens)
        for a in range(size[q]):
            ln.add_voltage_source(pts[0], a, src[q, "S", a])
            ln.add_voltage_source(pts[-1], a, src[q, "L", a])
        ln.i[:, [0, -1]] = W.num(0)
        ln.dt = dt
        ln.run_until(dt * W.frac(2 * steps + 1, 2))
        o = place[q]
        W.check_eq(b.v[o:o + size[q]], ln.v, "voltages as alone")
        W.check_eq(b.i[o:o + size[q]], ln.i, "currents as alone")


def _merged(W, lines, s):
    """one network for all lines of a level at one end, with the elements of `_ends`"""
    nw = W.mod("networks")
    num = lambda q, a: 100 * q + 10 * (s == "L") + a
    net = nw.Network({ln: {"connections": [[num(q, a), a, CONN["LC" if a == 1 else "R"]] for a in range(n)], "side": s, "bundle": b} for q, ln, b, n in lines})
    for q, ln, b, n in lines:
        for a in range(n):
            x = "l%d%s%d" % (q, s, a)
            if a == 1:
                net.connect_to_ground_LCpRs(num(q, a), W.const(x + "R"), W.const(x + "L"), W.const(x + "C"), W.func(x))
            else:
                net.connect_to_ground_R(num(q, a), W.const(x + "R"), W.func(x))
                net.connect_to_ground_C(num(q, a), W.const(x + "C"))
        if n > 1:
            net.connect_nodes(num(q, 0), num(q, 1), W.const("l%d%sRR" % (q, s)))
    return net


def _blocks(W, tags, n):
    """parameters of separate lines and of one line with all of their conductors"""
    one = [{x: W.const_spd(t + x, m) for x in "LCRG"} for t, m in zip(tags, n)]
    tot = {}
    for x in "LCRG":
        M = W.np.zeros((sum(n), sum(n)))
        o = 0
        for d, m in zip(one, n):
            M[o:o + m, o:o + m] = d[x]
            o += m
        tot[x] = M
    return one, tot


@harness(quick=[dict(n=(1, 1)), dict(n=(2, 1), zt=True), dict(n=(1, 1), zt=True)], timeout=400)
def split(W, n, zt=False, steps=2):
    """a line whose parameters do not couple its conductors is the same conductors given as separate lines"""
    mtl, mtln, nw = W.mod("mtl"), W.mod("mtln"), W.mod("networks")
    lens, ndiv = [W.const("len0"), W.const("len1")], (1, 1)
    tags = ["a", "b"]
    one, tot = _blocks(W, tags, n)
    # one velocity keeps the step of the lines simple; the step of the run is given
    for d, t, m in zip(one, tags, n):
        d["L"] = W.np.linalg.inv(d["C"]) * W.const(t + "slow") ** 2
    o = 0
    for d, m in zip(one, n):
        tot["L"][o:o + m, o:o + m] = d["L"]
        o += m
    tot["L"] = tot["L"]
    kw = lambda d: dict(l=d["L"], c=d["C"], r=d["R"], g=d["G"], node_positions=zpoints(W, lens), ndiv=list(ndiv))
    m, dt = sum(n), W.frac(1, 4)
    v, i = W.reals("v", (m + 1, 1)), W.reals("i", (m + 1, 2))
    out = []
    for parts in (False, True):
        sh = line_const(W, 1, "sh", node_positions=zpoints(W, lens), ndiv=list(ndiv), Z=False, name="sh")
        inner = [mtl.MTL(name=t, **kw(d)) for t, d in zip(tags, one)] if parts else [mtl.MTL(name="ab", **kw(tot))]
        b = mtl.MTLD({0: [sh], 1: inner}, name="b")
        if zt:
            b.add_transfer_impedance(0, [0], 1, [0, m - 1], dict(model(W, 1), direction="both"))
        b.v[:, 1:-1] = v.copy()
        b.i[...] = i.copy()
        nets = []
        for s in "SL":
            nets.append({})
            for lvl, lns in ((0, [sh]), (1, inner)):
                desc, k = {}, 0
                for ln in lns:
                    c = []
                    for a in range(ln.number_of_conductors):
                        c.append([10 * lvl + k, a, CONN["R"]])
                        k += 1
                    desc[ln] = {"connections": c, "side": s, "bundle": b}
                net = nw.Network(desc)
                for q in range(k):
                    x = "%s%d_%d" % (s, lvl, q)
                    net.connect_to_ground_R(10 * lvl + q, W.const(x + "R"), W.func(x))
                    if q:
                        net.connect_nodes(10 * lvl + q - 1, 10 * lvl + q, W.const(x + "RR"))
                nets[-1][lvl] = net
        top = mtln.MTLN([b], [nw.NetworkD(x) for x in nets])
        top.run_until(dt * W.frac(2 * steps + 1, 2), dt)
        out.append((b.v.copy(), b.i.copy()))
    W.check_eq(out[0][0], out[1][0], "voltages of one line and of its parts")
    W.check_eq(out[0][1], out[1][1], "currents of one line and of its parts")


@harness(quick=[dict(n=1, cut=1), dict(n=1, cut=2, swap=True), dict(n=2, cut=1), dict(n=1, cut=1, flip=True)], timeout=400)
def cut(W, n, cut, swap=False, flip=False, steps=3):
    """a line cut at a node and joined again by shorts is the whole line"""
    mtl, mtln, nw = W.mod("mtl"), W.mod("mtln"), W.mod("networks")
    N = 3
    lens = [W.const("len%d" % k) for k in range(N)]
    z = [sum(lens[:k], W.num(0)) for k in range(N + 1)]
    P = {x: W.const_spd(x, n) for x in "LCRG"}
    if n > 1:
        P["L"] = W.np.linalg.inv(P["C"]) * W.const("slow") ** 2
    dt = W.frac(1, 4)
    v, i = W.reals("v", (n, N - 1), lo=-1, hi=1), W.reals("i", (n, N), lo=-1, hi=1)
    src = [W.reals("src%d" % k, (n,), lo=-1, hi=1) for k in range(2)]
    # joints start at rest: a network knows the currents of its lines from the end of its first step on
    i[:, cut - 1:cut + 1] = W.num(0)
    v[:, cut - 1] = W.num(0)
    # a source that is constant over the run, for each end
    fs = [[(lambda t, x=x: x) for x in row] for row in src]

    def mk(name, k0, k1, rev=False):
        ks = list(range(k0, k1 + 1))
        ks = ks[::-1] if rev else ks
        pts = W.array([[W.num(0), W.num(0), z[k]] for k in ks])
        return mtl.MTL(l=P["L"], c=P["C"], r=P["R"], g=P["G"], node_positions=pts, ndiv=[1] * (k1 - k0), name=name)

    def ground(b, ln, side, base, k):
        net = nw.Network({ln: {"connections": [[base + a, a, CONN["R"]] for a in range(n)], "side": side, "bundle": b}})
        for a in range(n):
            net.connect_to_ground_R(base + a, W.const("R%d_%d" % (k, a)), fs[k][a])
        return nw.NetworkD({0: net})

    out = []
    ln = mk("w", 0, N)
    b = mtl.MTLD({0: [ln]}, name="w")
    b.v[:, 1:-1] = v.copy()
    b.i[...] = i.copy()
    top = mtln.MTLN([b], [ground(b, ln, "S", 0, 0), ground(b, ln, "L", 10, 1)])
    top.run_until(dt * W.frac(2 * steps + 1, 2), dt)
    out.append((b.v.copy(), b.i.copy()))

    la, lb = mk("a", 0, cut), mk("b", cut, N, rev=flip)
    A, B = mtl.MTLD({0: [la]}, name="a"), mtl.MTLD({0: [lb]}, name="b")
    if cut > 1:
        A.v[:, 1:-1] = v[:, :cut - 1].copy()
    A.i[...] = i[:, :cut].copy()
    vb, ib = v[:, cut:].copy(), i[:, cut:].copy()
    if N - cut > 1:
        B.v[:, 1:-1] = vb[:, ::-1] if flip else vb
    B.i[...] = -ib[:, ::-1] if flip else ib
    sides = ("L", "S") if flip else ("S", "L")
    ends = [(la, A, "L"), (lb, B, sides[0])]
    if swap:
        ends = ends[::-1]
    j = nw.Network({l: {"connections": [[20 + 10 * q + a, a, CONN["R"]] for a in range(n)], "side": s, "bundle": bb} for q, (l, bb, s) in enumerate(ends)})
    for a in range(n):
        j.short_nodes(20 + a, 30 + a)
    top = mtln.MTLN([A, B], [ground(A, la, "S", 0, 0), nw.NetworkD({0: j}), ground(B, lb, sides[1], 10, 1)])
    top.run_until(dt * W.frac(2 * steps + 1, 2), dt)
    vB, iB = (B.v[:, ::-1], -B.i[:, ::-1]) if flip else (B.v, B.i)
    tol = W.frac(1, 10 ** 6)
    for a in range(n):
        for got, ref in ((list(A.v[a]) + list(vB[a, 1:]), out[0][0][a]), (list(A.i[a]) + list(iB[a]), out[0][1][a])):
            for x, y in zip(got, ref):
                d = x - y
                W.check((d <= tol) & (d >= -tol), "the joined parts are the whole line")


@harness(quick=[dict()], timeout=400)
def one_network_or_many(W, steps=2):
    """ends that no element connects may be given in one network, in one manager entry, or each in its own"""
    mtl, mtln, nw = W.mod("mtl"), W.mod("mtln"), W.mod("networks")
    how = W.choice("how", ["one", "pairs", "own", "own reversed", "later"])
    dt = W.frac(1, 4)
    out = []
    inp = Inputs(W, "")
    for h in ("own", how):
        cabs = [Cable(W, "b%d" % k, [[1]], (1, 1), fields=False) for k in range(2)]
        for c in cabs:
            c.b.v[:, 1:-1] = inp.arr("v" + c.tag, (1, 1))
            c.b.i[...] = inp.arr("i" + c.tag, (1, 2))
            for k in range(c.N + 1):
                c.b.e_T[0, k] = W.func("%seT%d" % (c.tag, k))
        ends = [(0, c, s, 10 * q + k) for q, c in enumerate(cabs) for k, s in enumerate("SL")]
        nodes = [Node(W, c, 0, 0, s, 0, num) for _, c, s, num in ends]
        el = [Elem(W, k, "e%d" % x.number, x, vs=W.func("s%d" % x.number)) for x, k in zip(nodes, ("R", "C", "LC", "R"))]
        # a network takes one end of a line
        parts = {"one": [(0, 3), (1, 2)], "pairs": [(0, 2), (1, 3)]}.get(h, [(0,), (1,), (2,), (3,)])
        nets = [nw.NetworkD({0: network(W, [nodes[k] for k in p], [el[k] for k in p])}) for p in parts]
        if h == "own reversed":
            nets = nets[::-1]
        bs = [c.b for c in cabs]
        if h == "later":
            top = mtln.MTLN(bs[:1], nets[:2])
            top.add_bundle(bs[1])
            top.add_networks(nets[2:])
        else:
            top = mtln.MTLN(bs, nets)
        top.run_until(dt * W.frac(2 * steps + 1, 2), dt)
        out.append([(b.v.copy(), b.i.copy()) for b in bs])
    for (v0, i0), (v1, i1) in zip(*out):
        W.check_eq(v0, v1, "voltages for either description")
        W.check_eq(i0, i1, "currents for either description")
