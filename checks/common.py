"""Shared reference formulas and builders used by the harnesses.

The oracles are implicit: they state the finite-difference equations a step
must satisfy (balance of charge in a dual cell, of flux in a cell, Thevenin
relation at a terminal, Kirchhoff's law at a network node) in terms of the
line's public per-unit-length data and the unknowns before and after a step.
"""
import itertools

import numpy as np


def mat(W, name, n, sym, kind="spd"):
    """matrix parameter: symbolic or concrete"""
    if kind == "spd":
        return W.spd(name, n) if sym else W.const_spd(name, n)
    if kind == "any":
        return W.reals(name, (n, n)) if sym else W.const_full(name, n)
    if kind == "zero":
        return W.np.zeros((n, n))
    raise ValueError(kind)


def line_const(W, n, tag="ln", cells=3, lossy=True, Z=True, **kw):
    """an MTL with concrete seeded rational parameters"""
    mtl = W.mod("mtl")
    L = W.const_spd(tag + "L", n)
    Cm = W.const_spd(tag + "C", n)
    if n > 2:
        # a single phase velocity: eigenvalues of larger matrices are costly
        L = W.np.linalg.inv(Cm) * W.const(tag + "slow") ** 2
    R = W.const_spd(tag + "R", n) if lossy else W.np.zeros((n, n))
    G = W.const_spd(tag + "G", n) if lossy else W.np.zeros((n, n))
    args = dict(l=L, c=Cm, r=R, g=G, ndiv=[cells])
    args.update(kw)
    if Z:
        args.setdefault("Zs", W.const_arr(tag + "Zs", (n,)))
        args.setdefault("Zl", W.const_arr(tag + "Zl", (n,)))
    return mtl.MTL(**args)


def set_state(W, line, tag="s"):
    n, nx = line.number_of_conductors, line.i.shape[1]
    v = W.reals(tag + "v", (n, nx + 1))
    i = W.reals(tag + "i", (n, nx))
    line.v[...] = v
    line.i[...] = i
    return v.copy(), i.copy()


def z0(W, lens):
    return -lens[0] * W.frac(2, 5)


def zpos(W, lens, d=0, form="array"):
    """the place at distance d along such a polyline"""
    z = z0(W, lens) + d
    return z if form == "float" else [W.num(0), W.num(0), z] if form == "list" else W.array([W.num(0), W.num(0), z])


def zpoints(W, lens):
    """polyline along z from a list of segment lengths, with the origin inside its first segment"""
    z = z0(W, lens)
    pts = [[W.num(0), W.num(0), z]]
    for h in lens:
        z = z + h
        pts.append([W.num(0), W.num(0), z])
    return W.array(pts)


def cell_lengths(lens, ndiv):
    return [h / m for h, m in zip(lens, ndiv) for _ in range(m)]


def per_cell(M, k):
    """matrix parameter at cell/node k: a constant matrix or a list of them"""
    return M[k] if isinstance(M, (list, tuple)) or M.ndim == 3 else M


def check_interior(W, dx, L, Cm, R, G, s0, s1, dt, label="", eT=None, eL=None, conv=None, nodes=None, cells=None, scale=None):
    """charge balance at every inner node, flux balance in every cell.

    eT(k) -> transverse field at node k (now, prev); eL(k) -> longitudinal
    field in cell k (at t+dt/2, at t-dt/2); conv(k) -> extra voltage drop."""
    (v0, i0), (v1, i1) = s0, s1
    v1, i1 = W.out(v1), W.out(i1)
    N = len(dx)
    for k in (range(1, N) if nodes is None else nodes):
        c, g = per_cell(Cm, k), per_cell(G, k)
        h = (dx[k - 1] + dx[k]) / 2
        lhs = (c.dot(v1[:, k] - v0[:, k]) / dt + g.dot(v1[:, k] + v0[:, k]) / 2) * h + (i0[:, k] - i0[:, k - 1])
        if eT is not None:
            now, prev = eT(k)
            lhs = lhs + (c.dot(now - prev) / dt + g.dot(now + prev) / 2) * h
        W.check_eq(lhs, 0 * lhs, label + "charge balance at inner nodes", scale=scale)
    for k in (range(N) if cells is None else cells):
        l, r = per_cell(L, k), per_cell(R, k)
        lhs = (l.dot(i1[:, k] - i0[:, k]) / dt + r.dot(i1[:, k] + i0[:, k]) / 2) * dx[k] + v1[:, k + 1] - v1[:, k]
        if eT is not None:
            lhs = lhs + eT(k + 1)[0] - eT(k)[0]
        if eL is not None:
            now, prev = eL(k)
            lhs = lhs - (now + prev) / 2 * dx[k]
        if conv is not None:
            lhs = lhs + conv(k)
        W.check_eq(lhs, 0 * lhs, label + "flux balance in cells", scale=scale)


def check_terminals(W, dx, Cm, G, zs, zl, s0, s1, dt, vs=None, vl=None, eT=None, label="", scale=None):
    """time-averaged Thevenin relation plus the terminal half cell"""
    (v0, i0), (v1, i1) = s0, s1
    v1, i1 = W.out(v1), W.out(i1)
    N = len(dx)
    for side, k, z, i, src, h in (("near", 0, zs, i0[:, 0], vs, dx[0] / 2), ("far", N, zl, -i0[:, N - 1], vl, dx[N - 1] / 2)):
        c, g = per_cell(Cm, k), per_cell(G, k)
        cur = (c.dot(v1[:, k] - v0[:, k]) / dt + g.dot(v1[:, k] + v0[:, k]) / 2) * h + i
        if eT is not None:
            now, prev = eT(k)
            cur = cur + (c.dot(now - prev) / dt + g.dot(now + prev) / 2) * h
        lhs = z * cur + (v1[:, k] + v0[:, k]) / 2
        if src is not None:
            lhs = lhs - (src[0] + src[1]) / 2
        W.check_eq(lhs, 0 * lhs, label + side + " end Thevenin relation", scale=scale)


def attach_fields(W, ln, n, N, tag=""):
    """arbitrary transverse/longitudinal field functions on every node/cell"""
    fT = [[W.func("%seT%d_%d" % (tag, a, k)) for k in range(N + 1)] for a in range(n)]
    fL = [[W.func("%seL%d_%d" % (tag, a, k)) for k in range(N)] for a in range(n)]
    for a in range(n):
        for k in range(N + 1):
            ln.e_T[a, k] = fT[a][k]
        for k in range(N):
            ln.e_L[a, k] = fL[a][k]
    return ((lambda k, t: W.array([fT[a][k](t) for a in range(n)])),
            (lambda k, t: W.array([fL[a][k](t) for a in range(n)])))


def straight(W, pts):
    """node positions on a polyline from a list of points"""
    return W.array(pts)


def recursion(W, model, dt):
    """exact one-step response of  sum_p r_p/(s - p)  to a piecewise linear
    current:  v(n+1) = Re sum_p phi_p,  phi_p(n+1) = q1 i(n+1) + q2 i(n) + E phi_p(n).
    Returns (Re sum q1, Re sum q2, [(E_re, E_im, q1, q2)]) with complex entries as (re, im)."""
    Q1 = Q2 = W.num(0)
    per = []
    cm = lambda x, y: (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
    cd = lambda x, y: ((x[0] * y[0] + x[1] * y[1]) / (y[0] * y[0] + y[1] * y[1]),
                       (x[1] * y[0] - x[0] * y[1]) / (y[0] * y[0] + y[1] * y[1]))
    one = (W.num(1), W.num(0))
    sub = lambda x, y: (x[0] - y[0], x[1] - y[1])
    add = lambda x, y: (x[0] + y[0], x[1] + y[1])
    for pr, pi, rr, ri in zip(model["poles"]["real"], model["poles"]["imag"], model["residues"]["real"], model["residues"]["imag"]):
        p, r = (pr, pi), (rr, ri)
        ex = W.np.exp(pr * dt)
        E = (ex * W.np.cos(pi * dt), ex * W.np.sin(pi * dt))
        pd = (pr * dt, pi * dt)
        rp = cd(r, p)
        q1 = cm(rp, sub(cd(sub(E, one), pd), one))
        inv = cd(one, pd)
        q2 = cm(rp, add(inv, cm(E, sub(one, inv))))
        q2 = (q2[0], q2[1])
        per.append((E, q1, q2))
        Q1, Q2 = Q1 + q1[0], Q2 + q2[0]
    return Q1, Q2, per
