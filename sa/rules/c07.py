"""Values passed in are copied: assigning a state, seeding and constructing neither change nor keep the caller's containers and arrays."""
from .alias import *
from .. import effects

PROP = "C07"
SIZES = [("uint64", n) for n in (1, 2, 4, 8)] + [("uint32", n) for n in (1, 2, 4, 8)]


def outarr(g, st, dt, n, tag):
    """an array of the caller with unknown contents"""
    E = g.E
    box = []

    def mk():
        r = E.new_array(dt, X.pyint(n), "undef", "caller's array")
        h = E.h(r)
        sz = pyinterp.DT[dt][0]
        for i in range(n):
            E.w.store(E.st, h.oid, i * sz, sz, X.leaf("in", (tag, i), 8 * sz, ("in", tag, str(i))))
        return r
    return g.run(st, mk)


def judge(g, a, st0, st, args, rule, inst, unkok=False):
    """the objects of args (state before: st0) are unchanged in st, and not reachable from the instance"""
    vals = {}
    for v in args:
        values(st0, v, vals)
    objs = set(o for o, k in vals.items() if k == "memory")
    bad = [t for o, t in changes(g, st0, st, objs) if o in vals]
    own, heap = g.owned(st, a)
    kept = ["%s keeps %s" % (p, o) for p, o in list(own.items()) + list(heap.items()) if o in vals]
    # views: arrays kept by the instance that lie in the caller's memory
    for p, o in heap.items():
        v2, u2 = values(st, X.ref(o))
        kept += ["%s leads to the caller's %s" % (p, x) for x in v2 if x in vals and x != o]
    bad += kept
    return ob(rule, inst, not bad, "; ".join(bad[:4]), n=len(vals) + len(own))


def helpers(root, exts):
    """conversion helpers the generators use: they leave their argument alone and return new storage"""
    mods = package(root, exts)
    E = effects.Effects(mods, root, exts)
    out = []
    fresh = ("int_to_array", "object_to_int")
    for f in E.functions():
        q = E.qual(f)
        n = q.split(".")[-1]
        s = E.summary(f)
        bad = ["%s: %s (%s)" % (o[1], l[0][1], l[0][0]) for o, l in sorted(s.muts.items()) if o[0] == "param"]
        if q in ("common." + x for x in models.CONTRACTS):
            keep = ["the result may be the caller's %s" % o[1] for o in s.ret[0] if o[0] == "param"] if n in fresh else []
            out.append(ob("conversion helpers copy and leave their argument alone", q, not bad and not keep, "; ".join((bad + keep)[:3]), n=s.calls + 1))
        elif n in ("__init__", "seed", "__set__") and f._sa_cls is not None:
            out.append(ob("arguments are left alone, helpers included", q, not bad, "; ".join(bad[:3]), n=s.calls + 1))
    return out


def work(cfg, root, exts):
    if cfg == "package":
        return helpers(root, exts)
    s = Session(cfg, root, exts)
    g, a, S = s.g, s.a, s.S
    out = []
    # state assignment
    v, st = g.getstate(S, a)
    if st is None:
        return [ob("assigning a state", label(cfg), None, "the getter never returns")]
    r, st2 = g.setstate(st, a, v)
    if st2 is None:
        out.append(ob("assigning a state", label(cfg), None, "the setter never returns"))
    else:
        out.append(judge(g, a, st, st2, [v], "assigning a state copies the mapping and leaves it alone", label(cfg)))
    # seeding and construction with arrays of the caller
    names = [n for n in argnames(g.cls, "seed") if n not in ("self", "inc")]
    ctor = [n for n in argnames(g.cls, "__init__") if n in ("seed", "key", "counter")]
    for which, ns in (("seed", names), ("constructor", ctor)):
        for nm in ns:
            done = False
            for dt, n in SIZES:
                arr, st = outarr(g, S, dt, n, nm)
                kw = {nm: arr}
                if nm == "counter":
                    kw["key"] = inarg("key", 0, (1 << 64) - 1)
                inst = "%s: %s(%s=%d x %s)" % (label(cfg), which, nm, n, dt)
                try:
                    if which == "seed":
                        r, st2 = g.method(st, a, "seed", [], kw)
                        b = a
                    else:
                        k2 = dict((k, gens.pyconst(v)) for k, v in cfg[2].items())
                        k2.update(kw)
                        s0, g.E.base = g.E.base, st
                        try:
                            r, st2 = g.run(st, lambda: models.construct(g.E, g.cls, [], k2, None))
                        finally:
                            g.E.base = s0
                        b = r.args[0] if r is not None and r.op == "ref" else None
                except Broken as e:
                    out.append(ob("arguments are copied and left alone", inst, None, "cannot analyse: %s" % e))
                    done = True
                    break
                if st2 is None or b is None:
                    continue
                done = True
                out.append(judge(g, b, st, st2, [arr], "arguments are copied and left alone", inst))
                if nm == "seed":
                    break
            if not done:
                out.append(ob("arguments are copied and left alone", "%s: %s(%s) takes no array" % (label(cfg), which, nm), True, n=0))
    return out


def tasks(root, exts):
    return ["package"] + configs(skip=())


def name(t):
    return "package" if t == "package" else label(t)


FLOOR = 100
EXPLAIN = ("Abstract interpretation of every generator configuration: the state setter, seed() and the constructor are interpreted with containers and arrays of the caller; afterwards "
           "these are unchanged and not reachable from the instance.")
ASSUME = ["numpy array and dict primitives copy or alias as modelled", "numpy's SeedSequence does not write to the entropy it is given"]
