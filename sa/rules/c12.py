"""Doubles are at least 0 and below 1 in every reachable state."""
from .base import *

PROP = "C12"
RULE = "a double draw lies in [0, 1)"


def work(cfg, root, exts):
    s = Session(cfg, root, exts)
    g, a, S = s.g, s.a, s.S
    out = []
    r, st = g.draw(S, a, "next_double")
    if st is None:
        return [ob(RULE, label(cfg), None, "never returns")]

    def rng(t, st, d=0):
        if t in X.ITE and d < 8:
            u, v = rng(X.ITE[t][1], st, d + 1), rng(X.ITE[t][2], st, d + 1)
            return (min(u[0], v[0]), max(u[1], v[1])) if u and v else None
        return (t.lo, t.hi) if t.lo is not None and t.hi is not None else None

    def judge(S1):
        r, st = g.draw(S1, a, "next_double")
        if st is None:
            return True, None
        b = rng(r, st)
        if b is None:
            return None, "the range of %s is not known" % X.show(r, 2)
        if b[0] >= 0 and b[1] < 1:
            return True, None
        return False, "%s ranges over %r..%r" % (X.show(r, 3), b[0], b[1])
    v, t = judge(S)
    if v is None:
        names = set(d for x in g.shape(S, a).values() if isinstance(x.w, int) for d in X.deps(x))
        w, x = settle(g, S, a, "A", judge, names, budget=60, limit=60.0)
        if w is not None:
            v, t = w, (x[0] + str(x[1]) if x else "")
    return [ob(RULE, label(cfg), v, t or "")]


def tasks(root, exts):
    return configs(skip=("DSFMT",))


name = label
FLOOR = 20
EXPLAIN = ("Interval analysis (IEEE double arithmetic is monotone, so end points bound the result) of the value every configuration's double function returns from an arbitrary reachable state.")
ASSUME = ["DSFMT is excluded: that its state words keep the bit pattern of numbers in [1, 2) is an invariant of a 128-bit recurrence outside the domain",
          "round to nearest"]
