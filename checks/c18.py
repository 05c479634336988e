"""C18: a parsed file is simulated as described."""
from engine.harness import harness
from .scene import *
from .c15 import Poly

OUTSIDE = ("files that describe more than 4 cables, 3 levels, 3 conductors per cable, 3 steps; reactive connectors at junctions (the code treats them as shorts); "
           "cables whose two ends coincide; malformed files (C28)")


@harness(quick=[dict(kind=k, multi=m) for k in ("Conn_R", "Conn_C", "Conn_LCpRs", "Conn_sRLC") for m in (False, True)] + [dict(kind="Conn_short", multi=False)]
         + [dict(kind="Conn_C", multi=m, bare=True) for m in (False, True)], timeout=300)
def single(W, kind, multi, bare=False):
    """one wire with each kind of termination, sources at both ends, probes"""
    sc = Scene(W)
    el = (kind, W.const("Rk"), W.const("Lk"), W.const("Ck"))
    if kind == "Conn_sRLC":
        el = (kind, W.const("Rk"), 0.0, 1e22)
    if bare:
        el = (kind, 0.0) + el[2:]       # no resistance given
    ini = sc.connector([el], multi=multi, full=multi or kind == "Conn_sRLC", bare=bare)
    end = sc.connector([R(W, "Re")])
    ln = W.const("len")
    z = W.num(0)
    sc.cable("w", 1, [pt(z, z, z), pt(z, z, ln)], 3, ini, end, scalar=True)
    sc.bundle("b", [(("w", 0), [])])
    sc.termination([("w", 0, "S")])
    sc.termination([("w", 0, "L")])
    if kind != "Conn_short":
        sc.source(("w", 0, "S"), ramp(W, "A"))
    sc.source(("w", 0, "L"), ramp(W, "B"))
    sc.probe("p", "voltage", "w", ("w", 0, "S"), key=False)
    sc.probe("q", "current", "w", pt(z, z, ln / 3))
    sc.probe("r", "voltage", "w", ("w", 0, "L"))
    compare(W, sc, 3)


@harness(quick=[dict(mix=0), dict(mix=1), dict(mix=2)], timeout=300)
def multiwire(W, mix):
    """a cable of several conductors: own element and source at each of them, whatever the order of the list; bent lines"""
    sc = Scene(W)
    LC = ("Conn_LCpRs", W.const("Rl"), W.const("Ll"), W.const("Cl"))
    C = ("Conn_C", 0.0, 0.0, W.const("Cc"))
    S = ("Conn_short", 0.0, 0.0, 0.0)
    kinds = {0: [R(W, "R0"), LC], 1: [C, R(W, "R1"), LC], 2: [R(W, "R0"), R(W, "R1"), R(W, "R2")]}[mix]
    n = len(kinds)
    ini, end = sc.connector(kinds), sc.connector([R(W, "Q%d" % a) for a in range(n)])
    z, a, b = W.num(0), W.const("len0"), W.const("len1")
    bent = mix == 0
    pts = [pt(z, z, z), pt(z, z, a), pt(b, z, a)] if bent else [pt(z, z, z), pt(a, z, z)]
    sc.cable("w", n, pts, [1, 2] if bent else 2, ini, end, lossy=mix != 1)
    sc.bundle("b", [(("w", k), []) for k in range(n)])
    order = W.perm("order", range(n))
    if mix == 2:
        sc.termination(*[[("w", k, "S")] for k in order])
    else:
        sc.termination([("w", k, "S") for k in order])
    sc.termination([("w", k, "L") for k in order])
    for k in range(n):
        sc.source(("w", k, "S"), ramp(W, "A%d" % k))
    sc.source(("w", 0, "L"), ramp(W, "B0"))
    sc.source(("w", 0, "L"), ramp(W, "B1"))
    sc.probe("p", "voltage", "w", ("w", n - 1, "L"))
    compare(W, sc, 2)


@harness(quick=[dict(one=True), dict(one=False)])
def same_place(W, one):
    """cables that start at the same point, each with its own termination or all in one"""
    # the probed coordinate of the second cable is number 1, which is part of those of the first
    sc = Scene(W, ids=[31, 213, 1])
    z = W.num(0)
    ends = []
    for k, n in enumerate((1, 2, 1)):
        ini = sc.connector([R(W, "R%d%d" % (k, a)) for a in range(n)])
        end = sc.connector([R(W, "Q%d%d" % (k, a)) for a in range(n)])
        sc.cable("w%d" % k, n, [pt(z, z, z), pt(z, W.const("len%d" % k), z)], 2, ini, end)
        sc.bundle("b%d" % k, [(("w%d" % k, a), []) for a in range(n)])
        ends.append([("w%d" % k, a, "S") for a in range(n)])
        sc.source(("w%d" % k, 0, "S"), ramp(W, "A%d" % k))
        sc.termination([("w%d" % k, a, "L") for a in range(n)])
    if one:
        sc.termination(sum(ends, []))
    else:
        for e in ends:
            sc.termination(e)
    sc.probe("p", "current", "w1", ("w1", 0, "S"), key=one)
    compare(W, sc)


@harness(quick=[dict(what="pair"), dict(what="star"), dict(what="two"), dict(what="short"), dict(what="levels"), dict(what="ring"), dict(what="bare ring")], timeout=300)
def junctions(W, what):
    """joined cables: connectors of both ends in series, sources, several pairs and several junctions at one place"""
    sc = Scene(W)
    z, a, b = W.num(0), W.const("len0"), W.const("len1")
    if "ring" in what:
        return _ring(W, sc, z, a, b, what == "bare ring")
    if what == "levels":
        return _pigtail(W, sc, z, a, b)
    n = 1 if what == "star" else 2
    m = {"pair": 2, "star": 3, "two": 4, "short": 2}[what]
    if what == "two":
        n = 1
    mid = pt(z, z, a)
    for k in range(m):
        left = k % 2 == 0 if what == "two" else k == 0
        cm = [("Conn_short", 0.0, 0.0, 0.0)] * n if what == "short" else [R(W, "J%d%d" % (k, q)) for q in range(n)]
        cj = sc.connector(cm)
        ct = sc.connector([R(W, "T%d%d" % (k, q)) for q in range(n)])
        pts = [pt(z, z, z), mid] if left else [mid, pt(b, z, a) if k == 1 else pt(-b, z, a + b * k)]
        sc.cable("w%d" % k, n, pts, 1, ct if left else cj, cj if left else ct)
        sc.bundle("b%d" % k, [(("w%d" % k, q), []) for q in range(n)])
        sc.termination([("w%d" % k, q, "S" if left else "L") for q in range(n)])
        sc.source(("w%d" % k, n - 1, "S" if left else "L"), ramp(W, "A%d" % k))
    e = lambda k, q: ("w%d" % k, q, "L" if (k % 2 == 0 if what == "two" else k == 0) else "S")
    if what == "pair":
        sc.junction((e(0, 0), e(1, 1)), (e(1, 0), e(0, 1)))
        sc.source(e(0, 0), ramp(W, "J"))
    elif what == "short":
        sc.junction((e(0, 0), e(1, 0)), (e(1, 1), e(0, 1)))
    elif what == "star":
        sc.junction((e(0, 0), e(1, 0)), (e(1, 0), e(2, 0)), (e(2, 0), e(0, 0)))
    else:
        sc.junction((e(0, 0), e(1, 0)))
        sc.junction((e(2, 0), e(3, 0)))
        sc.source(e(2, 0), ramp(W, "J"))
    sc.probe("p", "voltage", "w1", e(1, 0))
    compare(W, sc, 2)


def _ring(W, sc, z, a, b, bare):
    """two cables joined to each other at both ends: no termination at all"""
    p, q = pt(z, z, z), pt(a, b, z)
    for k, pts in enumerate(([p, pt(a, z, z), q], [p, q])):
        sc.cable("w%d" % k, 1, pts, [1] * (len(pts) - 1), sc.connector([R(W, "i%d" % k)]),
                 # one connector without a resistance of its own
                 sc.connector([("Conn_R", 0.0, 0, 0)], bare=True) if k else sc.connector([R(W, "e")]))
        sc.bundle("b%d" % k, [(("w%d" % k, 0), [])])
    for s in "SL":
        sc.junction((("w0", 0, s), ("w1", 0, s)))
    if bare:
        # neither sources nor probes
        return compare(W, sc, 2)
    sc.source(("w0", 0, "S"), ramp(W, "A"))
    sc.probe("p", "voltage", "w1", ("w1", 0, "L"))
    compare(W, sc, 2)


def _pigtail(W, sc, z, a, b):
    """a coaxial cable whose shield and inner conductor continue as an open pair"""
    mid = pt(z, z, a)
    for name, n, pts in (("sh", 1, [pt(z, z, z), mid]), ("in", 1, [pt(z, z, z), mid]), ("pair", 2, [mid, pt(z, z, a + b)])):
        ct, cj = (sc.connector([R(W, name + x + str(q)) for q in range(n)]) for x in "TJ")
        sc.cable(name, n, pts, 1, cj if name == "pair" else ct, ct if name == "pair" else cj, zt=zt_model(W, "z") if name == "sh" else None, scalar=name == "sh")
        for q in range(n):
            sc.source((name, q, "L" if name == "pair" else "S"), ramp(W, "A%s%d" % (name, q)))
        sc.termination([(name, q, "L" if name == "pair" else "S") for q in range(n)])
    sc.bundle("b", [(("sh", 0), [(("in", 0), [])])])
    sc.bundle("c", [(("pair", 0), []), (("pair", 1), [])])
    sc.junction((("sh", 0, "L"), ("pair", 0, "S")), (("pair", 1, "S"), ("in", 0, "L")))
    sc.probe("p", "voltage", "pair", ("pair", 1, "L"))
    compare(W, sc, 3)


@harness(quick=[dict(what=w) for w in ("coax", "twin", "mixed", "deep", "plain")], timeout=400)
def nested(W, what):
    """shields and what is inside: levels, transfer impedances, shield connectors, drives on inner cables"""
    sc = Scene(W, ids=[7, 8, 1, 2, 3, 4, 5, 6] if what == "deep" else ())
    z, a = W.num(0), W.const("len")
    pts = [pt(z, z, z), pt(z, z, a)]
    def cab(name, n, **kw):
        ini = sc.connector([R(W, name + "i%d" % q) for q in range(n)])
        end = sc.connector([R(W, name + "e%d" % q) for q in range(n)])
        sc.cable(name, n, pts, 2, ini, end, **kw)
        for s in "SL":
            sc.termination([(name, q, s) for q in range(n)])
    lv = lambda *x: [(c, []) for c in x]
    if what in ("coax", "plain"):
        cab("in", 2)
        cab("sh", 1, zt=zt_model(W, "z") if what == "coax" else None, scalar=True)
        sc.bundle("b", [(("sh", 0), lv(("in", 0), ("in", 1)))])
    elif what == "twin":
        # two wires inside one shield, as two cables
        cab("sh", 1, zt=zt_model(W, "z", "both", 2), scalar=True)
        cab("u", 1)
        cab("w", 2)
        sc.bundle("b", [(("sh", 0), lv(("u", 0), ("w", 0), ("w", 1)))])
    elif what == "mixed":
        # a shield with a shielded pair and a single wire
        cab("sh", 1, zt=zt_model(W, "z"), scalar=True)
        cab("s2", 2, zt=zt_model(W, "y", "both"))
        cab("u", 1)
        cab("w", 1)
        sc.bundle("b", [(("sh", 0), [(("s2", 0), lv(("u", 0))), (("s2", 1), lv(("w", 0)))])])
        # connectors on conductors of a cable with several, and on a cable with nothing inside
        sc.cable_end(("s2", 0, "S"), sc.shield_connector(W.const("r2"), zt_model(W, "m", "in")))
        sc.cable_end(("s2", 1, "L"), sc.shield_connector(W.const("r3"), zt_model(W, "n", "both")))
        sc.cable_end(("u", 0, "S"), sc.shield_connector(W.const("r4"), None))
    else:
        cab("sh", 1, zt=zt_model(W, "z"), scalar=True)
        cab("s2", 1, zt=zt_model(W, "y", "out"), scalar=True)
        cab("u", 2)
        sc.bundle("b", [(("sh", 0), [(("s2", 0), lv(("u", 0), ("u", 1)))])])
        sc.cable_end(("sh", 0, "S"), sc.shield_connector(W.const("rs"), zt_model(W, "k", "in")))
        sc.cable_end(("sh", 0, "L"), sc.shield_connector(W.const("rl"), zt_model(W, "l", "both")))
        sc.cable_end(("s2", 0, "S"), sc.shield_connector(W.const("r3"), None))
        sc.cable_end(("s2", 0, "L"), sc.shield_connector(W.const("r2"), zt_model(W, "m", "in")))
    inner = {"coax": "in", "plain": "in", "twin": "w", "mixed": "w", "deep": "u"}[what]
    sc.distributed(inner, sc.cables[inner]["n"] - 1, pt(z, z, z), pt(z, z, a / 2), ramp(W, "D"))
    if what == "deep":
        sc.distributed("sh", None, pt(z, z, a / 2), pt(z, z, a), ramp(W, "E"), "Planewave")
    sc.source((inner, 0, "L"), ramp(W, "A"))
    sc.probe("p", "current", inner, (inner, 0, "S"))
    compare(W, sc, 2)


@harness(quick=[dict(which="one"), dict(which="some"), dict(which="two")])
def lumped(W, which):
    """lumped elements on the cables that have them"""
    sc = Scene(W)
    z, a = W.num(0), W.const("len")
    def model(tag):
        return {"cte": W.const(tag + "c"), "prop": W.const(tag + "p"), "poles": {"real": [], "imag": []}, "residues": {"real": [], "imag": []}}
    for k, n in enumerate((2, 1)):
        ini = sc.connector([R(W, "i%d%d" % (k, q)) for q in range(n)])
        end = sc.connector([R(W, "e%d%d" % (k, q)) for q in range(n)])
        sc.cable("w%d" % k, n, [pt(W.num(k), z, z), pt(W.num(k), z, a)], 3, ini, end)
        sc.bundle("b%d" % k, [(("w%d" % k, q), []) for q in range(n)])
        for s in "SL":
            sc.termination([("w%d" % k, q, s) for q in range(n)])
    sc.source(("w0", 0, "S"), ramp(W, "A"))
    sc.lump("w0", 1, pt(z, z, a / 3), sc.model_connector(model("x")))
    if which == "two":
        sc.lump("w0", 0, pt(z, z, 2 * a / 3), sc.model_connector(model("y")))
    if which != "some":
        sc.lump("w1", 0, pt(W.num(1), z, z), sc.model_connector(model("v")))
    sc.probe("p", "current", "w0", ("w0", 0, "S"))
    compare(W, sc, 2)


@harness(quick=[dict(kind=k) for k in ("ramp", "trapezoidal", "gaussian", "gaussian_2", "sin_sq", "sin", "exp")])
def magnitudes(W, kind):
    """every kind of magnitude is the waveform of its name with its parameters"""
    sc = Scene(W)
    A, t0, s0 = W.real("A"), W.pos("x0"), W.pos("s0")
    m = {"ramp": dict(amplitude=A, t0=t0), "trapezoidal": dict(amplitude=A, rise_time=t0, fall_time=s0, f0=W.const("f0"), D=W.const("D")), "gaussian": dict(x0=t0, s0=s0),
         "gaussian_2": dict(amplitude=A, x0=t0, s0=s0), "sin_sq": dict(amplitude=A, frequency=t0), "sin": dict(amplitude=A, frequency=t0), "exp": dict(amplitude=A, t0=t0)}[kind]
    m["type"] = kind
    z = W.num(0)
    c = sc.connector([R(W, "R")])
    sc.cable("w", 1, [pt(z, z, z), pt(z, z, W.const("len"))], 2, c, c)
    sc.bundle("b", [(("w", 0), [])])
    sc.termination([("w", 0, "S")])
    sc.termination([("w", 0, "L")])
    sc.source(("w", 0, "L"), m)
    p = W.mod("jsonParser").Parser(W.json_file(sc.json()))
    t = W.real("t")
    fs = [f for n in p.networks for q in n.levels.values() for f in q.v_sources]
    W.check(len(fs) == 1, "one source")
    W.check_eq(fs[0](t), magnitude(W, W.mod("waveforms"), m)(t), "waveform of the source")


@harness(quick=[dict(local=False), dict(local=True)])
def external(W, local):
    """a file run in an external field, everywhere or on a stretch of one bundle"""
    sc = Scene(W)
    z, a, h = W.num(0), W.const("len"), W.const("height")
    for q, name in enumerate(("u", "w")):
        sc.cable(name, 2, [pt(z, q * h, z), pt(z, q * h, a)], 2, sc.connector([R(W, name + "i%d" % k) for k in range(2)]), sc.connector([R(W, name + "e%d" % k) for k in range(2)]))
        for s in "SL":
            sc.termination([(name, k, s) for k in range(2)])
        sc.bundle("b" + name, [((name, 0), []), ((name, 1), [])])
    sc.source(("u", 0, "S"), ramp(W, "A"))
    sc.probe("p", "voltage", "w", ("w", 0, "L"))
    E = [Poly(W, "E%d" % q, "z") for q in range(3)]
    field = W.mod("mtl").Field(*[e.expr() for e in E])
    d = W.np.zeros((2, 3, 3))
    d[:, :, 0] = W.array([[W.const("d%d%d" % (n, k)) for k in range(3)] for n in range(2)])
    f = (None, field, d) if not local else ("bw", field, d, [W.array(pt(z, h, z)), W.array(pt(z, h, a / 2))])
    compare(W, sc, 2, field=f)


@harness(quick=[dict(order=0), dict(order=1)])
def default_step(W, order):
    """a file run without a step of its own takes the smallest of the steps of its cables"""
    sc = Scene(W)
    z, a = W.num(0), W.const("len")
    names = ["u", "w"][::-1 if order else 1]
    for q, name in enumerate(names):
        sc.cable(name, 2 - q, [pt(z, z, q * a), pt(a, z, q * a)], 2 + q, sc.connector([R(W, name + "i%d" % k) for k in range(2 - q)]),
                 sc.connector([R(W, name + "e%d" % k) for k in range(2 - q)]), rational=True)
        for s in "SL":
            sc.termination([(name, k, s) for k in range(2 - q)])
        sc.bundle("b" + name, [((name, k), []) for k in range(2 - q)])
        sc.source((name, 0, "S"), ramp(W, "A" + name))
        sc.probe("p" + name, "voltage", name, (name, 0, "L"))
    compare(W, sc, 2, default=True)
