"""C07: the response is linear in sources, fields and initial state (superposition, scaling, no offset)."""
from engine.harness import harness
from .systems import *

OUTSIDE = "layouts beyond the listed ones; rounding"


def _run(W, which, inp):
    s = build(W, which, inp)
    s.run(3)
    return s.state() + s.frames()[1::2]


@harness(quick=[dict(which=w) for w in ("line", "all", "shield", "junction")])
def superposition(W, which):
    """the response to a combination is the same combination of the responses; nothing comes from nothing"""
    a, b = W.real("alpha"), W.real("beta")
    f, g = Inputs(W, "f"), Inputs(W, "g")
    rf, rg = _run(W, which, f), _run(W, which, g)
    rm = _run(W, which, Inputs(W, mix=[(a, f), (b, g)]))
    r0 = _run(W, which, Inputs(W, mix=[]))
    for x, y, z in zip(rm, rf, rg):
        W.check_eq(x, a * y + b * z, "superposition")
    for x in r0:
        W.check_eq(x, 0 * x, "zero inputs leave everything at zero")


@harness(quick=[dict(which=w, k=k) for w in ("line", "shield", "junction") for k in ("tiny", "huge")], timeout=500)
def scaling(W, which, k):
    """the response is proportional to the excitation over many orders of magnitude"""
    f = W.num(10) ** {"tiny": -18, "huge": 18}[k]
    g = Inputs(W, "f")
    for x, y in zip(_run(W, which, Inputs(W, mix=[(f, g)])), _run(W, which, g)):
        W.check_eq(x / f, y, "proportional")
