"""C10: every network node is its own conductor end."""
from engine.harness import harness
from .nets import *

OUTSIDE = "more than 3 levels, 5 conductors or 2 bundles; networks that list only some conductors of a line's end (rejected by the code with an exception)"

LAYOUT = {"flat": [[2]], "three": [[3]], "nested": [[1], [2]], "shields": [[1], [1, 1]], "wide": [[1], [1, 2]], "deep": [[1], [1], [1, 1]], "uneven": [[2], [1, 1]]}


def _ends(W, cab, base, shuffle=None, tag=""):
    """one network per level at each end; returns [(NetworkD, nodes, elems)]"""
    nw = W.mod("networks")
    out = []
    num = base
    for side in ("S", "L"):
        lev, nodes, elems = {}, [], []
        for k, lv in enumerate(cab.levels):
            ns = []
            for j, n in enumerate(lv):
                for a in range(n):
                    ns.append(Node(W, cab, k, j, side, a, num))
                    num += 1
            es = [Elem(W, "R", "%s%s%d" % (cab.tag, side, x.number), x, vs=W.func("v%d" % x.number)) for x in ns]
            order = None
            if shuffle and (side, k) in shuffle:
                order = W.perm("order%s%s%d" % (tag, side, k), range(len(ns)))
            lev[k] = network(W, ns, es, order)
            nodes += ns
            elems += es
        if side == "L" and len(lev) > 1:
            lev = dict(reversed(list(lev.items())))
        out.append((nw.NetworkD(lev), nodes, elems))
    return out


def _go(W, net, cabs, ends, dt, steps, t0=0, label=""):
    for k in range(steps):
        net.run_until(dt * W.frac(3, 2), dt)
        for c in cabs:
            c.snap()
        for _, nodes, elems in ends:
            check_nodes(W, nodes, elems, dt * (t0 + k), dt, "%sstep %d: " % (label, k))


@harness(quick=[dict(layout=x) for x in LAYOUT if x != "three"], thorough=[dict(layout=x, steps=3) for x in LAYOUT], timeout=500)
def layouts(W, layout, steps=2):
    """levels with one or several lines of one or several conductors, connection lists in any order"""
    mtln = W.mod("mtln")
    dt = W.const("dt")
    cab = Cable(W, "b", LAYOUT[layout], (1, 1))
    ends = _ends(W, cab, 0, shuffle=[("S", len(cab.levels) - 1)] + [("L", 0)] * (layout != "three"))
    net = mtln.MTLN(bundles=[cab.b], networks=[e[0] for e in ends])
    _go(W, net, [cab], ends, dt, steps)


@harness(quick=[dict(how=h) for h in ("constructor", "one by one", "list", "list first", "reversed")])
def registration(W, how):
    """bundles and networks handed over in any of the accepted ways"""
    mtln = W.mod("mtln")
    dt = W.const("dt")
    cabs = [Cable(W, "b0", [[1], [1, 1]], (1,)), Cable(W, "b1", [[2]], (1,))]
    ends = _ends(W, cabs[0], 0) + _ends(W, cabs[1], 50)
    ds = [e[0] for e in ends]
    if how == "constructor":
        net = mtln.MTLN(bundles=[c.b for c in cabs], networks=ds)
    else:
        net = mtln.MTLN()
        for c in cabs if how != "reversed" else cabs[::-1]:
            net.add_bundle(c.b)
        if how == "list":
            net.add_networks(ds)
        elif how == "list first":
            net.add_networks(ds[:2])
            for d in ds[2:]:
                net.add_network(d)
        else:
            for d in ds if how == "one by one" else ds[::-1]:
                net.add_network(d)
    _go(W, net, cabs, ends, dt, 2)


@harness(quick=[dict(layout="nested"), dict(layout="shields")])
def again(W, layout):
    """the same bundles and networks in a second manager keep their places"""
    mtln = W.mod("mtln")
    dt = W.const("dt")
    cab = Cable(W, "b", LAYOUT[layout], (1,))
    ends = _ends(W, cab, 0)
    for part in range(2):
        net = mtln.MTLN(bundles=[cab.b], networks=[e[0] for e in ends])
        if part == 0:
            _go(W, net, [cab], ends, dt, 2)
        else:
            net.time = 2 * dt
            _go(W, net, [cab], ends, dt, 1, t0=2, label="second run ")


@harness(quick=[dict(same=False), dict(same=True)])
def joined(W, same):
    """a network that joins the same level of two bundles, or both ends of one, whichever comes first in its description"""
    nw, mtln = W.mod("networks"), W.mod("mtln")
    dt = W.const("dt")
    cabs = [Cable(W, "b0", [[1], [1, 1]], (1,)), Cable(W, "b1", [[1], [2]], (2,))]
    A, B = cabs
    lev, nodes, elems = {}, [], []
    num = 0
    for k in range(2):
        na = [Node(W, A, k, j, "L", 0, 100 + num + j) for j in range(len(A.levels[k]))]
        nb = [Node(W, B, k, 0, "S", a, 200 + num + a) for a in range(B.levels[k][0])]
        num += 10
        es = [Elem(W, "RR", "e%d%d" % (k, j), p, q, vs=W.func("s%d%d" % (k, j))) for j, (p, q) in enumerate(zip(na, nb))]
        lev[k] = network(W, nb + na if same else na + nb, es)
        nodes += na + nb
        elems += es
    ends = [(nw.NetworkD(lev), nodes, elems), _ends(W, A, 0)[0], _ends(W, B, 50)[1]]
    net = mtln.MTLN(bundles=[B.b, A.b], networks=[e[0] for e in ends])
    _go(W, net, cabs, ends, dt, 2)
