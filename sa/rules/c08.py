"""Memory safety of the generators: no draw, seeding, move, restore or copy touches memory outside the objects it owns."""
from .base import *
from . import c03

PROP = "C08"
WIDE = ("MT19937", "DSFMT", "SFMT")      # polynomial jumps: positions inside the loop over the polynomial are not bounded by the range domain
KINDS = ("oob", "null", "wild", "memfree", "doublefree")


def ops(s):
    g, a, S = s.g, s.a, s.S
    r = [("draw " + n, lambda n=n: g.draw(S, a, n)) for n in gens.SLOTS]
    if g.cls.method("seed") is not None:
        for form in c03.forms(g):
            r.append(("seed(%s)" % ", ".join(form), lambda form=form: g.method(S, a, "seed", [], {x: c03.argval(x) for x in form})))
    for n, f in g.ops(a, s.cfg[1] not in WIDE)[4:]:
        r.append((n, lambda f=f: f(S)))
    if g.cls.method("jumped") is not None and s.cfg[1] not in WIDE:
        r.append(("jumped", lambda: g.method(S, a, "jumped", [X.pyint(1)], {})))
    r.append(("state", lambda: g.getstate(S, a)))

    def back():
        v, s1 = g.getstate(S, a)
        return g.setstate(s1, a, v)
    r.append(("state = state", back))
    return r


def work(cfg, root, exts):
    s = Session(cfg, root, exts, jumps=cfg[1] not in WIDE)
    E = s.g.E
    L = label(cfg)
    out = []

    def judge(what):
        bad = []
        for e in E.events:
            if e["kind"] in KINDS:
                bad.append("%s:%s %s %s" % (e["file"].split("/")[-1], e["line"], e["kind"], ", ".join("%s=%s" % (k, v) for k, v in sorted(e.items()) if k in ("obj", "lo", "hi", "size", "what", "term"))))
        out.append(ob("every access is inside its object", L + ": " + what, not bad, "; ".join(sorted(set(bad))[:3])))
        del E.events[:]
    judge("construction and reachable states")
    for n, f in ops(s):
        f()
        judge(n)
    return out


def tasks(root, exts):
    return configs()


name = label
FLOOR = 150
EXPLAIN = ("Abstract interpretation (intervals with known bits, block-level memory model) of construction, seeding, draws, moves, jumped copies, state getter and setter of every generator configuration from "
           "an arbitrary reachable state: every load, store and block copy must be provably inside the object its pointer was derived from, and no pointer may be null or made up.")
ASSUME = ["reachable states are those of the constructor, seeding, draws, moves and restoring a saved state", "allocations succeed", "the polynomial jumps of MT19937, DSFMT and SFMT are not decided"]
