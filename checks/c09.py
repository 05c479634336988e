"""C09: Kirchhoff's current law at network nodes."""
from engine.harness import harness
from .nets import *

OUTSIDE = ("more than 4 nodes in a network, more than 3 steps; shorts are decided up to a voltage of 1e-6 for sources of at most 1; "
           "terminations with zero resistance given as a resistance (the code leaves the node open); series RLC terminations with inductance or capacitance (not implemented by the code)")


def _run(W, cables, nets, dt, steps, check):
    mtln = W.mod("mtln")
    net = mtln.MTLN(bundles=[c.b for c in cables], networks=nets)
    for k in range(steps):
        net.run_until(dt * W.frac(3, 2), dt)
        for c in cables:
            c.snap()
        check(dt * k, "step %d: " % k)


@harness(quick=[dict(kinds=("R",), n=1), dict(kinds=("C",), n=1), dict(kinds=("LC",), n=1), dict(kinds=("g", "C"), n=2), dict(kinds=("LC", "R"), n=2), dict(kinds=("C", "LC"), n=2),
                dict(kinds=("open", "R"), n=2)],
         thorough=[dict(kinds=("LC", "LC"), n=2), dict(kinds=("C", "R", "LC"), n=3), dict(kinds=("R", "open", "C"), n=3)], timeout=400)
def terminations(W, kinds, n):
    """every kind of termination at both ends, with and without sources, fields on"""
    nw = W.mod("networks")
    dt = W.const("dt")
    cab = Cable(W, "b", [[n]], (1, 1))
    withsrc = W.choice("sources", [True, False])
    nets, all_ = [], []
    for side, base in (("S", 0), ("L", 10)):
        nodes = [Node(W, cab, 0, 0, side, a, base + a) for a in range(n)]
        elems = []
        for a, k in enumerate(kinds if side == "S" else kinds[::-1]):
            if k != "open":
                elems.append(Elem(W, k, "%s%d" % (side, a), nodes[a], vs=W.func("v%s%d" % (side, a)) if withsrc else None))
        order = W.perm("order" + side, range(n))
        nets.append(nw.NetworkD({0: network(W, nodes, elems, order)}))
        all_.append((nodes, elems))
    _run(W, [cab], nets, dt, 3, lambda t, l: [check_nodes(W, nodes, elems, t, dt, l) for nodes, elems in all_])


@harness(quick=[dict(kind="R"), dict(kind="C"), dict(kind="LC")])
def symbolic(W, kind):
    """all element values, the step and the line symbolic, one conductor"""
    nw, mtl, mtln = W.mod("networks"), W.mod("mtl"), W.mod("mtln")
    dt = W.pos("dt")
    cab = Cable(W, "b", [[1]], (1,), fields=False)
    nets, all_ = [], []
    for side, base in (("S", 0), ("L", 10)):
        node = Node(W, cab, 0, 0, side, 0, base)
        el = Elem(W, kind if side == "S" else "R", side, node, vs=W.func("v" + side), sym=side == "S")
        nets.append(nw.NetworkD({0: network(W, [node], [el])}))
        all_.append(([node], [el]))
    _run(W, [cab], nets, dt, 1 if kind == "LC" else 2, lambda t, l: [check_nodes(W, nodes, elems, t, dt, l) for nodes, elems in all_])


TOPO = {
    # (bundles: conductors), links as (kind, node, node)
    "pair": ((1, 1), [("RR", 0, 1)]),
    "chain": ((2, 1), [("RR", 0, 2), ("RR", 1, 2)]),
    "star": ((1, 1, 1), [("RR", 0, 1), ("RR", 0, 2)]),
    "delta": ((2, 1), [("RR", 0, 1), ("RR", 1, 2), ("RR", 2, 0)]),
    "loaded": ((1, 1), [("RR", 0, 1), ("R", 0, None), ("C", 1, None)]),
    "loadfirst": ((1, 1), [("LC", 0, None), ("R", 1, None), ("RR", 0, 1)]),
    "parallel": ((1,), [("R", 0, None), ("C", 0, None)]),
}


@harness(quick=[dict(topo=t) for t in TOPO], thorough=[dict(topo=t, steps=3) for t in TOPO], timeout=500)
def junctions(W, topo, steps=2):
    """nodes of several bundles linked to each other and to ground, in any order of the calls"""
    nw = W.mod("networks")
    dt = W.const("dt")
    conds, links = TOPO[topo]
    cabs = [Cable(W, "b%d" % k, [[n]], (2, 1) if k else (1, 1)) for k, n in enumerate(conds)]
    sides = ["L", "S", "L"]
    nodes, far = [], []
    for k, (c, n) in enumerate(zip(cabs, conds)):
        for a in range(n):
            nodes.append(Node(W, c, 0, 0, sides[k], a, 20 + len(nodes)))
            far.append(Node(W, c, 0, 0, "S" if sides[k] == "L" else "L", a, len(far)))
    elems = []
    for j, (kind, p, q) in enumerate(links):
        elems.append(Elem(W, kind, "e%d" % j, nodes[p], None if q is None else nodes[q], vs=W.func("s%d" % j)))
    order = W.perm("calls", range(len(elems)))
    joint = network(W, nodes, [elems[k] for k in order])
    nets, all_ = [nw.NetworkD({0: joint})], [(nodes, elems)]
    for c in cabs:
        ns = [x for x in far if x.cable is c]
        es = [Elem(W, "R", "t%d" % x.number, x) for x in ns]
        nets.append(nw.NetworkD({0: network(W, ns, es)}))
        all_.append((ns, es))
    _run(W, cabs, nets, dt, steps, lambda t, l: [check_nodes(W, n, e, t, dt, l) for n, e in all_])


@harness(quick=[dict(topo="ground"), dict(topo="pair"), dict(topo="three"), dict(topo="mixed")], thorough=[dict(topo=t, steps=4) for t in ("ground", "pair", "three", "mixed")], timeout=400)
def shorts(W, topo, steps=3):
    """shorts: equal voltages, and the currents of the joined nodes add up"""
    nw = W.mod("networks")
    dt = W.const("dt")
    conds = {"ground": (2,), "pair": (1, 1), "three": (2, 1), "mixed": (1, 2)}[topo]
    cabs = [Cable(W, "b%d" % k, [[n]], (1,), fields=False) for k, n in enumerate(conds)]
    nodes, far = [], []
    for c, n, side in zip(cabs, conds, ("L", "S")):
        for a in range(n):
            nodes.append(Node(W, c, 0, 0, side, a, 20 + len(nodes)))
            far.append(Node(W, c, 0, 0, "S" if side == "L" else "L", a, len(far)))
    src = [W.real("s%d" % k, lo=-1, hi=1) for k in range(len(far))]
    S = lambda k: Elem(W, "S", "", nodes[k])
    SS = lambda k, j: Elem(W, "SS", "", nodes[k], nodes[j])
    R = lambda k, j=None: Elem(W, "R" if j is None else "RR", "e%s%s" % (k, j), nodes[k], None if j is None else nodes[j])
    elems = {"ground": lambda: [S(0), R(1)], "pair": lambda: [SS(0, 1)], "three": lambda: [SS(0, 1), SS(1, 2), R(2)],
             "mixed": lambda: [SS(0, 2), R(0, 1), R(1)]}[topo]()
    nets, all_ = [nw.NetworkD({0: network(W, nodes, elems)})], [(nodes, elems)]
    for c in cabs:
        ns = [x for x in far if x.cable is c]
        es = [Elem(W, "R", "t%d" % x.number, x, vs=_const(src[x.number])) for x in ns]
        nets.append(nw.NetworkD({0: network(W, ns, es)}))
        all_.append((ns, es))
    _run(W, cabs, nets, dt, steps, lambda t, l: [check_nodes(W, n, e, t, dt, l, tol=W.frac(1, 10**6)) for n, e in all_])


def _const(s):
    return lambda t: s
