"""C19: the order in which a file lists things, and hash order, make no difference."""
from engine.harness import harness
from .scene import *

OUTSIDE = "orders other than those tried for lists of more than 3 entries (reversed, rotated both ways, adjacent swaps); the order of levels, conductors of a cable and points of a line carries meaning and stays"

LISTS = ["materials", "material keys", "coordinates", "nodes", "line", "bundles", "cables", "terminations", "groups", "group", "junctions", "pairs", "sources", "probes", "cableEnds", "lumped"]


def _scene(W, pairs=False):
    sc = Scene(W)
    z, a, b = W.num(0), W.const("len0"), W.const("len1")
    mid = pt(z, z, a)

    def cab(name, n, pts, joined=None, **kw):
        ini = sc.connector([R(W, name + "i%d" % q) for q in range(n)])
        end = sc.connector([R(W, name + "e%d" % q) for q in range(n)])
        sc.cable(name, n, pts, 2, ini, end, **kw)
        for s in "SL":
            if s != joined:
                if name == "w" and s == "L":
                    sc.termination([(name, 0, s)], [(name, 1, s)])
                else:
                    sc.termination([(name, q, s) for q in range(n)])
    cab("sh", 1, [pt(z, z, z), mid], "L", zt=zt_model(W, "z", "both"), scalar=True)
    cab("u", 1, [pt(z, z, z), mid], "L", scalar=True)
    cab("w", 2, [pt(z, z, z), mid])
    cab("pr", 2, [mid, pt(z, b, a)], "S", lossy=False)
    cab("other", 1, [pt(b, z, z), pt(b, b, z)])
    sc.bundle("b", [(("sh", 0), [(("u", 0), []), (("w", 0), []), (("w", 1), [])])])
    sc.bundle("c", [(("pr", 0), []), (("pr", 1), [])])
    sc.bundle("d", [(("other", 0), [])])
    if pairs:
        sc.junction((("sh", 0, "L"), ("pr", 0, "S")), (("pr", 1, "S"), ("u", 0, "L")))
    else:
        sc.junction((("sh", 0, "L"), ("pr", 0, "S")))
        sc.junction((("pr", 1, "S"), ("u", 0, "L")))
    sc.source(("u", 0, "S"), ramp(W, "A"))
    sc.source(("w", 1, "L"), ramp(W, "B"))
    sc.source(("pr", 1, "L"), ramp(W, "C"))
    sc.source(("other", 0, "L"), ramp(W, "D"))
    sc.distributed("w", 1, pt(z, z, z), pt(z, z, a / 2), ramp(W, "E"))
    model = lambda t: {"cte": W.const(t + "c"), "prop": W.const(t + "p"), "poles": {"real": [], "imag": []}, "residues": {"real": [], "imag": []}}
    sc.lump("pr", 1, pt(z, b / 2, a), sc.model_connector(model("x")))
    sc.lump("sh", 0, pt(z, z, a / 2), sc.model_connector(model("y")))
    sc.cable_end(("sh", 0, "S"), sc.shield_connector(W.const("rs"), zt_model(W, "k", "in")))
    sc.cable_end(("other", 0, "L"), sc.shield_connector(W.const("ro"), zt_model(W, "o", "in")))
    sc.probe("p", "current", "w", ("w", 1, "S"))
    sc.probe("q", "voltage", "other", ("other", 0, "L"), key=False)
    return sc


@harness(quick=[dict(which=k) for k in LISTS], timeout=400)
def listed(W, which):
    """one list of the file in another order"""
    sc = _scene(W, which == "pairs")

    def order(name, seq):
        seq = list(seq)
        if name != which or len(seq) < 2:
            return seq
        if len(seq) <= 3:
            k = W.perm("order%d" % order.n, range(len(seq)))
            order.n += 1
        else:
            m = len(seq)
            ks = [list(range(m))[::-1], list(range(1, m)) + [0], [m - 1] + list(range(m - 1)), [1, 0] + list(range(2, m)), list(range(m - 2)) + [m - 1, m - 2]]
            if order.k is None:
                order.k = W.int("order", 0, len(ks) - 1)
            k = ks[int(order.k)]
        return [seq[j] for j in k]
    order.n, order.k = 0, None
    compare(W, sc, 2, order=order, state=False)


@harness(quick=[dict()], timeout=400)
def hashing(W):
    """iteration order of sets"""
    sc = _scene(W)
    W.set_order("set")
    compare(W, sc, 2, state=False)
