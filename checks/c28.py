"""C28: descriptions that mean nothing are refused; the same descriptions made consistent are accepted."""
import copy

from engine.harness import harness
from .scene import *

OUTSIDE = ("descriptions the code never looks at: unknown kinds of connectors, unknown directions of a transfer impedance and unknown types of a distributed source are ignored without a word; "
           "singular or non positive parameters")


def _refused(W, fn, bad, label):
    """refused at the latest when the system is run"""
    W.check(W.raises(fn) == bad, label + (" is refused" if bad else ": the consistent one is accepted"))


def _args(W, n, **kw):
    d = dict(l=W.const_spd("L", n), c=W.const_spd("C", n), r=W.const_spd("R", n), g=W.const_spd("G", n), Zs=W.const_arr("Zs", (n,)), Zl=W.const_arr("Zl", (n,)),
             node_positions=zpoints(W, [W.const("len0"), W.const("len1")]), ndiv=[1, 2], name="ln")
    d.update(kw)
    return d


LINE = {
    "l and c of different size": lambda W, n: dict(c=W.const_spd("C", n + 1)),
    "l not square": lambda W, n: dict(l=W.const_full("Lr", n + 1)[:n], c=W.const_full("Cr", n + 1)[:n]),
    "l a number and c a matrix": lambda W, n: dict(l=W.const("L")),
    "r of another size": lambda W, n: dict(r=W.const_spd("R", n + 1)),
    "g of another size": lambda W, n: dict(g=W.const_spd("G", n + 1)),
    "r not square": lambda W, n: dict(r=W.const_full("R", n + 1)[:n]),
    "g not square": lambda W, n: dict(g=W.const_full("G", n + 1)[:n]),
    "an impedance array at one end only": lambda W, n: dict(Zl=W.const("Zl")),
    "an impedance array at the far end only": lambda W, n: dict(Zs=W.const("Zs")),
    "impedance arrays of different size": lambda W, n: dict(Zl=W.const_arr("Zl", (n + 1,))),
    "too many impedances": lambda W, n: dict(Zs=W.const_arr("Zs", (n + 1,)), Zl=W.const_arr("Zl", (n + 1,))),
    "a matrix of impedances": lambda W, n: dict(Zs=W.const_full("Zs", n + 1), Zl=W.const_full("Zl", n + 1)),
    "too few divisions": lambda W, n: dict(ndiv=[2]),
    "too many divisions": lambda W, n: dict(ndiv=[1, 1, 1]),
}


@harness(quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)], witnesses=40)
def lines(W, n):
    """parameters that do not fit together"""
    mtl = W.mod("mtl")
    what = W.choice("what", ["none"] + list(LINE))
    kw = LINE[what](W, n) if what != "none" else {}

    def go():
        ln = mtl.MTL(**_args(W, n, **kw))
        ln.run_until(ln.dt * W.frac(3, 2))
    _refused(W, go, what != "none", what)


@harness(quick=[dict(which=w) for w in "rg"], witnesses=40)
def scalar_loss(W, which):
    """a number as loss of a line of several conductors, unless it is zero"""
    mtl = W.mod("mtl")
    n = W.choice("n", [1, 2])
    x = W.nonneg("x")
    bad = n == 2 and bool(x != 0)
    def go():
        ln = mtl.MTL(**_args(W, n, **{which: x}))
        ln.run_until(W.frac(3, 8))
    _refused(W, go, bad, "one loss for several conductors")


@harness(quick=[dict()], witnesses=40)
def meshes(W):
    """lines of one bundle with different meshes"""
    mtl = W.mod("mtl")
    case = W.choice("case", ["node", "division", "segments", "reversed"])
    eps = W.real("eps")
    k, j = W.choice("k", [0, 1, 2]), W.choice("j", [0, 1, 2])
    a, b = W.const("len0"), W.const("len1")
    pts = lambda: zpoints(W, [a, b])
    q = pts()
    kw = dict(ndiv=[1, 1])
    bad = True
    if case == "node":
        q[k, j] = q[k, j] + eps
        # no zero length cells
        W.assume(W.b_and(eps < W.frac(1, 4) * a, eps > -W.frac(1, 4) * a, eps < W.frac(1, 4) * b, eps > -W.frac(1, 4) * b))
        bad = bool(eps != 0)
    elif case == "division":
        kw = dict(ndiv=[1, 2])
    elif case == "segments":
        q = q[:2]
        kw = dict(ndiv=[1])
    else:
        q = q[::-1]
    l1 = mtl.MTL(**_args(W, 1, node_positions=pts(), ndiv=[1, 1], name="a", l=W.array([[W.const("x")]])))
    # the step of the second line is not needed: it may involve roots of eps
    l2 = _Shape(W, mtl, q, kw)
    up = W.choice("up", [0, 1])
    lv = ([l1], [l2])
    _refused(W, lambda: mtl.MTLD({0: lv[up], 1: lv[1 - up]}, name="b"), bad, "different meshes in a bundle")


def _Shape(W, mtl, pts, kw):
    ln = mtl.MTL(**_args(W, 1, node_positions=zpoints(W, [W.const("len0"), W.const("len1")][:len(pts) - 1]), name="b", **kw))
    # nodes and cells as the constructor lays them out
    k = 0
    for s, m in enumerate(kw["ndiv"]):
        d = (pts[s + 1] - pts[s]) / m
        for q in range(m):
            ln.u[k] = pts[s] + d * q
            ln.du[k] = d
            k += 1
    ln.u[k] = pts[-1]
    return ln


@harness(quick=[dict()], witnesses=40)
def levels(W):
    """the outermost level of a bundle is one line"""
    mtl = W.mod("mtl")
    n = W.choice("n", [0, 1, 2, 3])
    lns = [mtl.MTL(**_args(W, 1, name="l%d" % q)) for q in range(4)]
    _refused(W, lambda: mtl.MTLD({0: lns[:n], 1: lns[3:]}, name="b"), n != 1, "an outer level of %d lines" % n)


@harness(quick=[dict()], witnesses=40)
def managers(W):
    """two bundles of one name"""
    mtl, mtln = W.mod("mtl"), W.mod("mtln")
    bs = [mtl.MTLD({0: [mtl.MTL(**_args(W, 1))]}, name=x) for x in ("a", "b", "a")]
    pick = W.choice("pick", [(0, 1), (0, 2), (2, 1), (1, 0, 2)])
    later = W.choice("later", [False, True])

    def go():
        if later:
            m = mtln.MTLN()
            for q in pick:
                m.add_bundle(bs[q])
        else:
            mtln.MTLN([bs[q] for q in pick])
    _refused(W, go, 0 in pick and 2 in pick, "two bundles of one name")


@harness(quick=[dict(kind=k) for k in ("line", "bundle")], witnesses=40)
def regions(W, kind):
    """regions given from their end to their start"""
    mtl = W.mod("mtl")
    ob = mtl.MTL(**_args(W, 1))
    z = [z0(W, [W.const("len0")])]
    for d in [W.const("len0")] + [W.const("len1") / 2] * 2:
        z.append(z[-1] + d)
    if kind == "bundle":
        ob = mtl.MTLD({0: [ob]}, name="b")
    ob.dt = W.frac(1, 4)
    a, b = W.choice("a", [0, 1, 2, 3]), W.choice("b", [0, 1, 2, 3])
    off = [W.real("off%d" % j) for j in range(2)]
    W.assume([W.b_and(x > -W.frac(1, 100), x < W.frac(1, 100)) for x in off])
    p, q = [W.array([W.num(0), W.num(0), z[k] + x]) for x, k in zip(off, (a, b))]
    what = W.choice("what", ["resistance", "conductance"])
    x = W.pos("x")
    f = ob.set_resistance_in_region if what == "resistance" else ob.add_conductance_in_region
    _refused(W, lambda: f(p, q, 0, x), b < a, "a region from its end to its start")


@harness(quick=[dict(kind=k) for k in ("line", "bundle")], witnesses=40)
def probes(W, kind):
    """unknown kinds of probes"""
    mtl, mtln = W.mod("mtl"), W.mod("mtln")
    ob = top = mtl.MTL(**_args(W, 1))
    if kind == "bundle":
        ob = mtl.MTLD({0: [ob]}, name="b")
        top = mtln.MTLN([ob])
    what = W.choice("what", ["voltage", "current", "volts", "", "Voltage", None])

    def go():
        ob.add_probe(0.0, what)
        top.run_until(top.dt * W.frac(5, 2))
    _refused(W, go, what not in ("voltage", "current"), "a probe of kind %r" % (what,))


@harness(quick=[dict()], witnesses=40)
def connectors(W):
    """lumped elements off the line, and a second one in the same place"""
    mtl = W.mod("mtl")
    n, N = 2, 3
    ln = mtl.MTL(**_args(W, n))
    ln.dt = W.frac(1, 4)
    start = z0(W, [W.const("len0")])
    end = start + W.const("len0") + W.const("len1")
    case = W.choice("case", ["axis", "second"])
    m = lambda k: {"cte": W.const("cte%d" % k), "prop": W.const("prop%d" % k), "poles": {"real": [], "imag": []}, "residues": {"real": [], "imag": []}}
    if case == "axis":
        j = W.choice("j", [0, 1, 2])
        x = W.real("x", lo=-10, hi=10)
        p = [W.num(0), W.num(0), W.num(0)]
        p[j] = x
        bad = bool(x < (start if j == 2 else 0)) or bool(x > (end if j == 2 else 0))
        return _refused(W, lambda: ln.add_dispersive_connector(W.array(p), 0, m(0)), bad, "an element beyond the line")
    z = [start + q for q in (0, W.const("len0"), W.const("len0") + W.const("len1") / 2)] + [end]
    a, b = W.choice("a", [0, 1, 2, 3]), W.choice("b", [0, 1, 2, 3])
    ca, cb = W.choice("ca", [0, 1]), W.choice("cb", [0, 1])
    at = lambda k: W.array([W.num(0), W.num(0), z[k]])
    ln.add_dispersive_connector(at(a), ca, m(0))
    _refused(W, lambda: ln.add_dispersive_connector(at(b), cb, m(1)), min(a, N - 1) == min(b, N - 1) and ca == cb, "a second element on the same cell of a conductor")


def _cut(W, full, what):
    """a model with one of its lists cut short"""
    m = {"cte": W.const("cte"), "prop": W.const("prop"), "poles": {"real": [W.num(-1), W.num(-2)], "imag": [W.num(0), W.num(0)]},
         "residues": {"real": [W.const("r0"), W.const("r1")], "imag": [W.num(0), W.num(0)]}, "direction": "both"}
    for q in what:
        a, b = q.split()
        m[a][b] = m[a][b][:full]
    return m


@harness(quick=[dict(kind=k) for k in ("connector", "transfer", "shield")], witnesses=40)
def models(W, kind):
    """models with unequal lists"""
    mtl = W.mod("mtl")
    parts = ["poles real", "poles imag", "residues real", "residues imag"]
    what = [p for p in parts if W.choice(p, [False, True])]
    full = W.choice("full", [0, 1])
    m = _cut(W, full, what)
    lns = [mtl.MTL(**_args(W, 1, name="l%d" % q)) for q in range(2)]
    b = mtl.MTLD({0: lns[:1], 1: lns[1:]}, name="b")
    f = {"connector": lambda: lns[0].add_dispersive_connector(W.array([W.num(0)] * 3), 0, m),
         "transfer": lambda: b.add_transfer_impedance(0, [0], 1, [0], m),
         "shield": lambda: b.set_connector_transfer_impedance("initial", 0, [0], 1, [0], m)}[kind]
    _refused(W, f, 0 < len(what) < 4, "a model with unequal numbers of poles and residues")


@harness(quick=[dict()], witnesses=40)
def couplings(W):
    """transfer impedances between levels that are not adjacent, and connectors at no end"""
    mtl = W.mod("mtl")
    lns = [mtl.MTL(**_args(W, 1, name="l%d" % q)) for q in range(3)]
    b = mtl.MTLD({q: [ln] for q, ln in enumerate(lns)}, name="b")
    m = _cut(W, 2, [])
    a, c = W.choice("a", [0, 1, 2]), W.choice("c", [0, 1, 2])
    side = W.choice("side", ["line", "initial", "end", "middle", "S", ""])
    f = (lambda: b.add_transfer_impedance(a, [0], c, [0], m)) if side == "line" else (lambda: b.set_connector_transfer_impedance(side, a, [0], c, [0], m))
    _refused(W, f, abs(a - c) != 1 or side not in ("line", "initial", "end"), "a transfer impedance between levels %d and %d (%s)" % (a, c, side))


@harness(quick=[dict(kind=k) for k in ("line", "bundle")], witnesses=40)
def distances(W, kind):
    """one displacement for every exposed conductor and node"""
    mtl = W.mod("mtl")
    ob = mtl.MTL(**_args(W, 2))
    if kind == "bundle":
        ob = mtl.MTLD({0: [ob], 1: [mtl.MTL(**_args(W, 1, name="in"))]}, name="b")
    shape = W.choice("shape", [(2, 4, 3), (1, 4, 3), (3, 4, 3), (2, 3, 3), (2, 5, 3), (2, 4, 2), (4, 2, 3)])
    import sympy as sp
    x, t = sp.symbols("x t")
    f = mtl.Field(sp.Integer(1) * t, sp.Integer(0) * t, sp.Integer(2) + x)
    _refused(W, lambda: ob.add_external_field(f, W.np.zeros(shape)), shape != (2, 4, 3), "displacements of shape %s" % (shape,))


@harness(quick=[dict()], witnesses=40)
def nodes(W):
    """sides, numbers and elements of networks"""
    mtl, nw = W.mod("mtl"), W.mod("networks")
    ln = mtl.MTL(**_args(W, 2))
    b = mtl.MTLD({0: [ln]}, name="b")
    case = W.choice("case", ["side", "numbers", "element", "joint", "zero"])
    net = lambda side="S", num=(1, 2): nw.Network({ln: {"connections": [[num[0], 0, CONN["R"]], [num[1], 1, CONN["LC"]]], "side": side, "bundle": b}})
    if case == "side":
        s = W.choice("side", ["S", "L", "s", "end", "", 0])
        _refused(W, lambda: net(side=s), s not in ("S", "L"), "the side %r" % (s,))
    elif case == "numbers":
        p, q = W.int("p", -3, 3), W.int("q", -3, 3)
        bad = bool(p < 0) or bool(q < 0) or bool(p == q)
        _refused(W, lambda: net(num=(p, q)), bad, "negative or repeated node numbers")
    elif case == "element":
        k = W.choice("node", [1, 2, 3])
        o = net()
        f = W.choice("which", ["R", "ground", "C", "short", "LC"])
        x = W.const("x")
        act = {"R": lambda: o.connect_to_ground_R(k, x), "ground": lambda: o.connect_to_ground(k, x), "C": lambda: o.connect_to_ground_C(k, x),
               "short": lambda: o.short_to_ground(k), "LC": lambda: o.connect_to_ground_LCpRs(2 if k == 1 else k, x, x, x)}[f]
        _refused(W, act, k == 3, "an element at a node the network does not have")
    elif case == "joint":
        a, c = W.choice("a", [1, 2, 3]), W.choice("c", [1, 2, 3])
        if a == c != 3:
            return
        o = net()
        x = W.const("x")
        f = W.choice("which", ["connect", "short"])
        _refused(W, (lambda: o.connect_nodes(a, c, x)) if f == "connect" else (lambda: o.short_nodes(a, c)), 3 in (a, c), "a joint with a node the network does not have")
    else:
        o = net()
        x = W.real("x")
        _refused(W, lambda: o.connect_nodes(1, 2, x), bool(x == 0), "a joint of no resistance")


@harness(quick=[dict()], witnesses=40)
def elements(W):
    """parallel LC with series resistance: no negative values, no infinite capacitance"""
    mtl, nw = W.mod("mtl"), W.mod("networks")
    ln = mtl.MTL(**_args(W, 1))
    b = mtl.MTLD({0: [ln]}, name="b")
    net = nw.Network({ln: {"connections": [[1, 0, CONN["LC"]]], "side": "S", "bundle": b}})
    R, L, C = W.real("R"), W.real("L"), W.real("C")
    W.assume(W.b_and(R != 0, L != 0, C > 0))
    bad = bool(R < 0) or bool(L < 0) or bool(C >= 10 ** 22)
    _refused(W, lambda: net.connect_to_ground_LCpRs(1, R, L, C), bad, "impossible values")


# --- files
def _file(W):
    """a shield with a wire inside, terminated, with everything a file may have"""
    sc = Scene(W)
    z, ln = W.num(0), W.const("len")
    pts = [pt(z, z, z), pt(z, z, ln)]
    zt = zt_model(W, "zt")
    r = [sc.connector([R(W, "R%d" % k)]) for k in range(2)]
    sc.cable("sh", 1, pts, 2, r[0], r[1], zt=zt)
    sc.cable("w", 1, pts, 2, r[0], r[1])
    sc.bundle("b", [(("sh", 0), [(("w", 0), [])])])
    for s in "SL":
        sc.termination([("sh", 0, s)])
        sc.termination([("w", 0, s)])
    sc.source(("w", 0, "S"), ramp(W, "A"))
    sc.distributed("sh", 0, pts[0], pts[1], ramp(W, "B"))
    sc.probe("p", "voltage", "sh", ("sh", 0, "S"))
    lump = sc.model_connector(dict(zt_model(W, "lump")))
    sc.lump("w", 0, pts[0], lump)
    sc.cable_end(("sh", 0, "S"), sc.shield_connector(W.const("Rsh"), zt))
    return sc


def _each(d, key, val, which=0):
    d[which][key] = val


WRONG = {
    "no model": lambda j, m: j.pop("model"),
    "no coordinates": lambda j, m: m.pop("coordinates"),
    "no elements": lambda j, m: m.pop("elements"),
    "no cables": lambda j, m: m.pop("cables"),
    "no bundles": lambda j, m: m.pop("bundles"),
    "no materials": lambda j, m: m.pop("materials"),
    "a cable of unknown material": lambda j, m: m["cables"][1].__setitem__("materialId", 999),
    "a cable of the material of a connector": lambda j, m: m["cables"][1].__setitem__("materialId", m["cables"][1]["initialConnectorId"]),
    "a cable of unknown elements": lambda j, m: m["cables"][1].__setitem__("elemIds", [999]),
    "an unknown initial connector": lambda j, m: m["cables"][1].__setitem__("initialConnectorId", 999),
    "an unknown end connector": lambda j, m: m["cables"][0].__setitem__("endConnectorId", 999),
    "a termination at an unknown coordinate": lambda j, m: m["terminations"][0].__setitem__("coordIds", [[999]]),
    "a termination in mid air": lambda j, m: (m["coordinates"].append("99 0.0 0.0 0.5"), m["terminations"][0].__setitem__("coordIds", [[99]])),
    "a bundle of unknown elements": lambda j, m: m["bundles"][0].__setitem__("nestedElemIds", "77"),
    "a nested element that is unknown": lambda j, m: m["bundles"][0].__setitem__("nestedElemIds", {"1": "77"}),
    "a distributed source on an unknown cable": lambda j, m: m["sources"][1].__setitem__("cable", "nothing"),
    "a distributed source at unknown nodes": lambda j, m: m["sources"][1].__setitem__("elemIds", [888, 889]),
    "a source without magnitude": lambda j, m: m["sources"][0].pop("magnitude"),
    "a ramp without amplitude": lambda j, m: m["sources"][0]["magnitude"].pop("amplitude"),
    "a probe on an unknown cable": lambda j, m: m["probes"][0].__setitem__("cable", "nothing"),
    "a probe at an unknown node": lambda j, m: m["probes"][0].__setitem__("elemIds", [888]),
    "a probe of unknown kind": lambda j, m: m["probes"][0].__setitem__("type", "nothing"),
    "a lumped element of unknown material": lambda j, m: m["lumpedElements"][0].__setitem__("materialId", 999),
    "a lumped element without model": lambda j, m: [x.pop("model") for x in m["materials"] if x["name"] == "lumped"],
    "a lumped element at an unknown coordinate": lambda j, m: m["lumpedElements"][0].__setitem__("coordIds", [999]),
    "a cable end of unknown material": lambda j, m: m["cableEnds"][0].__setitem__("materialId", 999),
    "a cable end at an unknown coordinate": lambda j, m: m["cableEnds"][0].__setitem__("coordIds", [999]),
    "two bundles of one name": lambda j, m: m["bundles"].append(dict(m["bundles"][0])),
    "a cable without a bundle that is terminated": lambda j, m: m["bundles"][0].__setitem__("nestedElemIds", "1"),
    "a cable with another mesh inside a shield": lambda j, m: m["cables"][1].__setitem__("ndiv", 3),
}


@harness(quick=[dict(half=0), dict(half=1)], timeout=400, witnesses=100)
def files(W, half):
    """files with missing parts or names and numbers of nothing"""
    names = list(WRONG)[half::2]
    what = W.choice("what", ["none"] + names)
    j = copy.deepcopy(_file(W).json())
    if what != "none":
        WRONG[what](j, j["model"])

    def go():
        p = W.mod("jsonParser").Parser(W.json_file(j))
        p.run(W.frac(3, 8), W.frac(1, 4))
    _refused(W, go, what != "none", what)


@harness(quick=[dict()])
def unknown_waveform(W):
    """a waveform of unknown type is refused or no source at all, never something undefined"""
    where = W.choice("where", [0, 1])
    out, base = [], _file(W).json()
    for what in ("nothing", "gone"):
        j = copy.deepcopy(base)
        s = j["model"]["sources"]
        if what == "gone":
            s.pop(where)
        else:
            s[where]["magnitude"] = {"type": "nothing", "amplitude": 1.0}
        p = W.mod("jsonParser").Parser(W.json_file(j))
        try:
            p.run(W.frac(5, 8), W.frac(1, 4))
        except Exception:
            return W.check(True, "refused")
        out.append(p.bundles[0])
    W.check_eq(out[0].v, out[1].v, "as without the source")
    W.check_eq(out[0].i, out[1].i, "as without the source")
