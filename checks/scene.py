"""Input files for the parser, described independently of the file format, and the same system built through the API."""
import itertools

from .common import *
from .nets import CONN


def numbers(digits):
    """numbers that are parts of each other, in no order"""
    for n in itertools.count(1):
        for d in sorted(itertools.product(digits, repeat=n), key=lambda d: d[::-1], reverse=n % 2 == 1):
            yield int("".join(d))


class Scene:
    def __init__(self, W, ids=()):
        """ids: numbers of the first coordinates"""
        self.W = W
        self._ids = itertools.chain(ids, (k for k in numbers("21") if k not in ids))
        self._mats = numbers("12")
        self._els = iter(sorted(itertools.islice(numbers("21"), 30), reverse=True))
        self._node_els = (k for k in numbers("213") if "3" in str(k))
        self.ids, self.node_ids = [], []
        self.coords, self.line_el, self.nodes_el = [], [], []
        self.materials, self.cables, self.bundles = [], {}, []
        self.terms, self.juncs, self.srcs, self.dist, self.probes, self.ends, self.lumped = [], [], [], [], [], [], []
        self.coord_at = {}

    # ---- description
    def coord(self, p):
        self.coords.append(p)
        self.ids.append(next(self._ids))
        return self.ids[-1]

    def point(self, cid):
        return self.coords[self.ids.index(cid)]

    def node(self, p=None, cid=None):
        """a node element on coordinate cid (or on a new one at p)"""
        cid = self.coord(p) if cid is None else cid
        self.nodes_el.append(cid)
        self.node_ids.append(next(self._node_els))
        return self.node_ids[-1]

    def material(self, **kw):
        self.materials.append(dict(kw, materialId=next(self._mats)))
        return self.materials[-1]["materialId"]

    def connector(self, kinds, multi=None, full=False, bare=False):
        """connector material with one entry [(kind, R, L, C)] per conductor"""
        multi = len(kinds) > 1 if multi is None else multi
        m = dict(materialType="Connector", name="conn", kinds=kinds, connectorType="MultiwireConnector")
        if not multi:
            k, R, L, C = kinds[0]
            m["connectorType"] = k
            if not bare:
                m["resistance"] = R
            if full or k == "Conn_LCpRs":
                m["inductance"] = L
            if full or k in ("Conn_LCpRs", "Conn_C"):
                m["capacitance"] = C
        else:
            m["connections"] = [k[0] for k in kinds]
            if not bare and (full or any(k[0] != "Conn_short" for k in kinds)):
                m["resistanceVector"] = [k[1] for k in kinds]
            if full or any(k[0] == "Conn_LCpRs" for k in kinds):
                m["inductanceVector"] = [k[2] for k in kinds]
            if full or any(k[0] in ("Conn_LCpRs", "Conn_C") for k in kinds):
                m["capacitanceVector"] = [k[3] for k in kinds]
        return self.material(**m)

    def shield_connector(self, R, zt):
        return self.material(materialType="Connector", name="shield", connectorType="Conn_R", resistance=R, kinds=[("Conn_R", R, 0, 0)],
                             **({} if zt is None else {"transferImpedance": zt}))

    def model_connector(self, model):
        return self.material(materialType="Connector", name="lumped", connectorType="Conn_R", resistance=0.0, kinds=[("Conn_R", 0.0, 0, 0)], model=model)

    def cable(self, name, n, pts, ndiv, ini, end, zt=None, scalar=False, lossy=True, rational=False):
        W = self.W
        els, first, last = [], [], []
        for a in range(n):
            ids = [self.coord(p) for p in pts]
            els.append(next(self._els))
            self.line_el.append((els[-1], ids, len(pts) > 2))
            first.append(ids[0]); last.append(ids[-1])
        L, C = W.const_spd(name + "L", n), W.const_spd(name + "C", n)
        if n > 2 or rational:
            # one velocity, so that the default step is a rational number
            L = W.np.linalg.inv(C) * W.const(name + "l") ** 2
        R = W.const_arr(name + "R", (n,)) if lossy else W.np.zeros(n)
        m = dict(materialType="Wire" if scalar else "Multiwire", name=name + "_mat")
        if scalar:
            assert n == 1
            m.update(inductance=L[0, 0], capacitance=C[0, 0], resistance=R[0])
        else:
            m.update(inductanceMatrix=[[L[i, j] for j in range(n)] for i in range(n)], capacitanceMatrix=[[C[i, j] for j in range(n)] for i in range(n)])
            if lossy:
                m["resistanceVector"] = [R[i] for i in range(n)]
        if zt is not None:
            m["transferImpedance"] = zt
        mat = self.material(**m)
        self.cables[name] = dict(name=name, n=n, pts=pts, ndiv=ndiv, ini=ini, end=end, els=els, first=first, last=last, mat=mat, L=L, C=C, R=R, zt=zt)
        return name

    def bundle(self, name, tree):
        """tree: name, or (name, [children]) of nested cables; conductors as (cable, index)"""
        self.bundles.append((name, tree))

    def end(self, cable, cond, side):
        c = self.cables[cable]
        return (c["first"] if side == "S" else c["last"])[cond]

    def termination(self, *groups):
        self.terms.append(groups)

    def junction(self, *pairs):
        self.juncs.append(pairs)

    def source(self, end, mag):
        self.srcs.append((end, self.node(cid=self.end(*end)), mag))

    def probe(self, name, kind, cable, where, key=True):
        """where: an end (cable, cond, side) or a point"""
        if isinstance(where, tuple):
            cid = self.end(*where)
            p = self.point(cid)
            el = self.node(cid=cid)
        else:
            p, el = where, self.node(p=where)
        self.probes.append((name, kind, cable, el, p, key))

    def distributed(self, cable, cond, a, b, mag, kind="localized efield drive"):
        self.dist.append((cable, cond, self.node(p=a), self.node(p=b), a, b, mag, kind))

    def cable_end(self, end, mat):
        self.ends.append((end, mat))

    def lump(self, cable, cond, p, mat):
        self.lumped.append((cable, cond, self.coord(p), p, mat))

    def mat(self, i):
        return [m for m in self.materials if m["materialId"] == i][0]

    # ---- as a file
    def json(self, order=None):
        W = self.W
        o = order or (lambda name, seq: list(seq))
        num = lambda x: x
        mats = []
        for m in o("materials", self.materials):
            mats.append({k: m[k] for k in o("material keys", list(m)) if k != "kinds"})
        els = {}
        for kind, want in (("line", False), ("polyline", True)):
            rows = [W.text([e, 0, 1] + ids) for e, ids, poly in self.line_el if poly == want]
            if rows:
                els[kind] = o(kind, rows)
        if self.nodes_el:
            els["node"] = o("nodes", [W.text([k, 0, 1, cid]) for k, cid in zip(self.node_ids, self.nodes_el)])
        model = {
            "materials": mats,
            "coordinates": o("coordinates", [W.text([k] + list(p)) for k, p in zip(self.ids, self.coords)]),
            "elements": els,
            "bundles": o("bundles", [{"name": n, "nestedElemIds": self._nest(t)} for n, t in self.bundles]),
            "cables": o("cables", [dict(name=c["name"], materialId=c["mat"], initialConnectorId=c["ini"], endConnectorId=c["end"], elemIds=c["els"], ndiv=c["ndiv"]) for c in self.cables.values()]),
        }
        if self.terms:
            model["terminations"] = o("terminations", [{"name": "t%d" % k, "coordIds": o("groups", [o("group", [self.end(*e) for e in g]) for g in t])} for k, t in enumerate(self.terms)])
        if self.juncs:
            model["junctions"] = o("junctions", [{"name": "j%d" % k, "unitedCoordIds": o("pairs", [[self.end(*e) for e in p] for p in j])} for k, j in enumerate(self.juncs)])
        srcs = [{"sourceType": "TerminalSource", "type": "voltage", "elemIds": [el], "magnitude": m} for e, el, m in self.srcs]
        for cable, cond, ea, eb, a, b, m, kind in self.dist:
            d = {"sourceType": "DistributedSource", "type": kind, "elemIds": [ea, eb], "cable": cable, "magnitude": m}
            if cond is not None:
                d["conductor"] = cond
            srcs.append(d)
        if srcs:
            model["sources"] = o("sources", srcs)
        if self.probes:
            model["probes"] = o("probes", [dict({"name": n, "type": k, "elemIds": [el]}, **({"cable": c} if key else {})) for n, k, c, el, p, key in self.probes])
        if self.ends:
            model["cableEnds"] = o("cableEnds", [{"name": "e%d" % k, "materialId": m, "coordIds": [self.end(*e)]} for k, (e, m) in enumerate(self.ends)])
        if self.lumped:
            model["lumpedElements"] = o("lumped", [{"name": "l%d" % k, "materialId": m, "cable": c, "conductor": cond, "coordIds": [cid]} for k, (c, cond, cid, p, m) in enumerate(self.lumped)])
        return {"_format": "Semba Data File in JSON format", "_version": "0.16", "model": model}

    def _nest(self, tree):
        """tree: list of nodes; node = ((cable, cond), [children])"""
        el = lambda x: str(self.cables[x[0]]["els"][x[1]])
        if all(not ch for _, ch in tree):
            return " ".join(el(x) for x, _ in tree)
        return {el(x): self._nest(ch) for x, ch in tree}

    # ---- through the API
    def reference(self):
        W = self.W
        mtl, mtln, nw, wf = W.mod("mtl"), W.mod("mtln"), W.mod("networks"), W.mod("waveforms")
        lines, bundles, where = {}, {}, {}
        for name, tree in self.bundles:
            levels, edges = {}, []
            def walk(nodes, k):
                for x, ch in nodes:
                    levels.setdefault(k, [])
                    if x[0] not in levels[k]:
                        levels[k].append(x[0])
                    for y, _ in ch:
                        edges.append((x, y))
                    walk(ch, k + 1)
            walk(tree, 0)
            lv, off = {}, 0
            for k in sorted(levels):
                lv[k] = []
                for c in levels[k]:
                    d = self.cables[c]
                    Rm = W.np.zeros((d["n"], d["n"]))
                    for a in range(d["n"]):
                        Rm[a, a] = d["R"][a]
                    ndiv = d["ndiv"] if isinstance(d["ndiv"], list) else [d["ndiv"]]
                    ln = mtl.MTL(l=d["L"].copy(), c=d["C"].copy(), r=Rm, node_positions=W.array(d["pts"]), ndiv=list(ndiv), name=c)
                    for (ec, cond, side), m in self.ends:
                        if ec == c:
                            p = W.array(d["pts"][0 if side == "S" else -1])
                            ln.set_resistance_in_region(p, p, cond, self.mat(m)["resistance"])
                    for lc, cond, _, p, m in self.lumped:
                        if lc == c:
                            ln.add_dispersive_connector(W.array(p), cond, self.mat(m)["model"])
                    lines[c] = ln
                    where[c] = (name, k, off)
                    off += d["n"]
                    lv[k].append(ln)
            b = mtl.MTLD(lv, name=name)
            bundles[name] = b
            base = lambda k: sum(self.cables[c]["n"] for q in range(k) for c in levels[q])
            loc = lambda x: (where[x[0]][1], where[x[0]][2] + x[1] - base(where[x[0]][1]))
            for x, y in edges:
                zt = self.cables[x[0]]["zt"]
                if zt is not None:
                    b.add_transfer_impedance(loc(x)[0], [loc(x)[1]], loc(y)[0], [loc(y)[1]], zt)
            for (c, cond, side), m in self.ends:
                zt = self.mat(m).get("transferImpedance")
                if where.get(c, (None,))[0] == name and zt is not None:
                    for x, y in edges:
                        if x == (c, cond):
                            b.set_connector_transfer_impedance("initial" if side == "S" else "end", loc(x)[0], [loc(x)[1]], loc(y)[0], [loc(y)[1]], zt)
        for cable, cond, _, _, p, q, m, kind in self.dist:
            bn, _, off = where[cable]
            bundles[bn].add_localized_longitudinal_field(W.array(p), W.array(q), off + (cond or 0), magnitude(W, wf, m), kind)
        probes = {}
        for n, k, c, _, p, _ in self.probes:
            probes[n] = bundles[where[c][0]].add_probe(W.array(p), k)
        # every line end belongs to one network together with whatever it is joined to
        ends = {}
        for c in lines:
            for s in "SL":
                ends[(c, s)] = {(c, s)}
        def join(a, b):
            u = ends[a] | ends[b]
            for q in u:
                ends[q] = u
        for t in self.juncs:
            for p in t:
                join((p[0][0], p[0][2]), (p[1][0], p[1][2]))
        nets = []
        done = []
        for key in ends:
            g = ends[key]
            if g in done:
                continue
            done.append(g)
            desc = {}
            for c, s in [q for q in ends if q in g]:
                d = self.cables[c]
                kinds = self.mat(d["ini"] if s == "S" else d["end"])["kinds"]
                cs = []
                for a in range(d["n"]):
                    cs.append([self.end(c, a, s), a, {"Conn_LCpRs": CONN["LC"], "Conn_C": CONN["C"]}.get(kinds[a][0], CONN["R"]) if self._terminated((c, a, s)) else CONN["R"]])
                desc[lines[c]] = {"side": s, "bundle": bundles[where[c][0]], "connections": cs}
            net = nw.Network(desc)
            level = {where[c][1] for c, s in g}
            for t in self.terms:
                for grp in t:
                    for e in grp:
                        if (e[0], e[2]) in g:
                            self._connect(net, e, wf)
            for t in self.juncs:
                for p, q in t:
                    if (p[0], p[2]) in g:
                        R = self._series(p) + self._series(q)
                        n1, n2 = self.end(*p), self.end(*q)
                        fs = [magnitude(W, wf, m) for x in (p, q) for e, _, m in self.srcs if e == x]
                        if isinstance(R, (int, float)) and R == 0:
                            net.short_nodes(n1, n2)
                        elif fs:
                            net.connect_nodes(n1, n2, R, (lambda fs: lambda t: sum((f(t) for f in fs), W.num(0)))(fs))
                        else:
                            net.connect_nodes(n1, n2, R)
            nets.append(nw.NetworkD({min(level): net}))
        run = mtln.MTLN(bundles=list(bundles.values()), networks=nets)
        return run, bundles, probes, where

    def _terminated(self, e):
        return any(e in grp for t in self.terms for grp in t)

    def _kind(self, e):
        d = self.cables[e[0]]
        return self.mat(d["ini"] if e[2] == "S" else d["end"])["kinds"][e[1]]

    def _series(self, e):
        k = self._kind(e)
        return k[1] if k[0] in ("Conn_R", "Conn_sRLC") else 0

    def _connect(self, net, e, wf):
        k, R, L, C = self._kind(e)
        node = self.end(*e)
        fs = [magnitude(self.W, wf, m) for x, _, m in self.srcs if x == e]
        a = ((lambda t: sum((f(t) for f in fs), self.W.num(0))),) if fs else ()
        if k == "Conn_short":
            net.short_to_ground(node)
        elif k in ("Conn_R", "Conn_sRLC"):
            net.connect_to_ground_R(node, R, *a)
        elif k == "Conn_C":
            net.connect_to_ground_C(node, C, *a)
        elif k == "Conn_LCpRs":
            net.connect_to_ground_LCpRs(node, R, L, C, *a)


def magnitude(W, wf, m):
    """the waveform a magnitude of the file describes"""
    k = m["type"]
    if k == "ramp":
        return lambda t: wf.ramp_pulse(t, m["amplitude"], m["t0"])
    if k == "trapezoidal":
        return lambda t: wf.trapezoidal_wave(t, m["amplitude"], m["rise_time"], m["fall_time"], m["f0"], m["D"])
    if k == "gaussian":
        return lambda t: wf.gaussian(t, m["x0"], m["s0"])
    if k == "gaussian_2":
        return lambda t: wf.gaussian_2(t, m["amplitude"], m["x0"], m["s0"])
    if k == "sin_sq":
        return lambda t: wf.sin_sq_pulse(t, m["amplitude"], m["frequency"])
    if k == "sin":
        return lambda t: wf.sin_pulse(t, m["amplitude"], m["frequency"])
    if k == "exp":
        return lambda t: wf.exp(t, m["amplitude"], m["t0"])
    raise ValueError(k)


def R(W, name):
    return ("Conn_R", W.const(name), 0, 0)


def ramp(W, name):
    return {"type": "ramp", "amplitude": W.real(name), "t0": W.num(4)}


def pt(*x):
    return list(x)


def compare(W, sc, steps=2, order=None, dt=None, state=True, field=None, default=False):
    W.scene = sc
    dt = W.const("dt") if dt is None else dt
    run, bundles, probes, where = sc.reference()
    if default:
        dt = run.dt
    p = W.mod("jsonParser").Parser(W.json_file(sc.json(order)))
    names = [b.name for b in p.bundles]
    W.check(sorted(names) == sorted(bundles), "one bundle per bundle of the file")
    # place of every conductor of every cable in both
    idx = {}
    for b in p.bundles:
        off = 0
        for k in sorted(b.levels):
            for ln in b.levels[k]:
                W.check(where[ln.name][0] == b.name and where[ln.name][1] == k, "cables in their level")
                idx[ln.name] = (b, off)
                off += ln.number_of_conductors
        W.check(off == bundles[b.name].number_of_conductors, "number of conductors")
    if state:
        for c, (bn, _, off) in where.items():
            n = sc.cables[c]["n"]
            rb = bundles[bn]
            v = W.reals("v_" + c, (n, rb.v.shape[1] - 2))
            i = W.reals("i_" + c, (n, rb.i.shape[1]))
            b, o = idx[c]
            rb.v[off:off + n, 1:-1] = v
            rb.i[off:off + n] = i
            b.v[o:o + n, 1:-1] = v
            b.i[o:o + n] = i
    T = dt * W.frac(2 * steps + 1, 2)
    if default:
        p.run(T)
    elif field is None:
        p.run(T, dt)
    elif field[0] is None:
        run.add_external_field(*field[1:])
        p.runWithExternalField(T, dt, *field[1:])
    else:
        run.add_localized_external_field(*field)
        p.runWithLocalizedExternalField(T, dt, *field)
    run.run_until(T, dt)
    for c, (bn, _, off) in where.items():
        n = sc.cables[c]["n"]
        b, o = idx[c]
        W.check_eq(W.out(b.v[o:o + n]), W.out(bundles[bn].v[off:off + n]), "voltages of every cable")
        W.check_eq(W.out(b.i[o:o + n]), W.out(bundles[bn].i[off:off + n]), "currents of every cable")
    W.check(sorted(p.probes) == sorted(probes), "probes by name")
    for n, q in probes.items():
        W.check_eq(p.probes[n].t, q.t, "probe times")
        W.check(p.probes[n].val.shape == q.val.shape, "probe shape")
        for c, (bn, _, off) in where.items():
            if bundles[bn] is not [bundles[where[x[2]][0]] for x in sc.probes if x[0] == n][0]:
                continue
            b, o = idx[c]
            m = sc.cables[c]["n"]
            W.check_eq(W.out(p.probes[n].val[:, o:o + m]), W.out(q.val[:, off:off + m]), "probe values")


def zt_model(W, tag, direction="in", factor=None):
    d = {"cte": W.const(tag + "c"), "prop": W.const(tag + "p"), "poles": {"real": [], "imag": []}, "residues": {"real": [], "imag": []}, "direction": direction}
    if factor:
        d["factor"] = factor
    return d
