"""C27: only time differences matter: delaying every source and field delays the whole response."""
from engine.harness import harness
from .systems import *

OUTSIDE = "delays that are not a whole number of steps; more than 4 steps; waveforms are free functions that vanish before their start"


class Delayed:
    """the same excitations, zero until they start, delayed by `lag` steps; at rest before"""

    def __init__(self, W, lag, start):
        self.W, self.lag, self.start = W, lag, start

    def f(self, name):
        W, f = self.W, self.W.func(name)
        def g(t):
            t = t - self.lag
            return f(t) if bool(t > self.start) else W.num(0)
        return lambda t: g(t)

    def arr(self, name, shape):
        return self.W.np.zeros(shape)


@harness(quick=[dict(which=w, lag=k) for w in SYSTEMS for k in (1, 2)], timeout=400)
def delay(W, which, lag, n=2):
    """states and frames after the delay are those without it"""
    # the step before the start uses fields up to half a step before it
    start = W.frac(-1, 16)
    a = build(W, which, Delayed(W, W.num(0), start))
    b = build(W, which, Delayed(W, W.frac(lag, 4), start))
    a.run(n)
    b.run(n + lag)
    for x, y in zip(a.state(), b.state()):
        W.check_eq(x, y, "state after a delay")
    for p, q in zip(a.probes, b.probes):
        W.check_eq(p.val, q.val[lag:], "frames after a delay")
        W.check_eq(p.t + W.frac(lag, 4), q.t[lag:], "times after a delay")
        W.check_eq(q.val[:lag], 0 * q.val[:lag], "nothing before the start")


@harness(quick=[dict(which=w) for w in SYSTEMS], timeout=400)
def clock(W, which, n=2):
    """a run from a state at a later clock time, with the excitations of that time, is the run at time zero"""
    t0 = W.num(3)
    rec = []
    for off in (W.num(0), t0):
        inp = Inputs(W, "f") if off is not t0 else Shift(W, rec[0][1], t0)
        s = build(W, which, inp)
        s.top.time = off
        for o in s.objs:
            o.time = off
        s.run(n)
        rec.append((s, inp))
    a, b = rec[0][0], rec[1][0]
    for x, y in zip(a.state(), b.state()):
        W.check_eq(x, y, "state at a later clock time")
    for p, q in zip(a.probes, b.probes):
        W.check_eq(p.val, q.val, "frames at a later clock time")
        W.check_eq(p.t + t0, q.t, "times at a later clock time")


class Shift:
    def __init__(self, W, inp, t0):
        self.W, self.inp, self.t0 = W, inp, t0

    def f(self, name):
        f = self.inp.f(name)
        return lambda t: f(t - self.t0)

    def arr(self, name, shape):
        return self.inp.arr(name, shape)
