"""jumped() returns an independent instance of the same configuration and leaves the original alone."""
from .alias import *
from . import c04

PROP = "C05"


def config_cells(s, st, b):
    """[(name, original, jumped)] configuration cells (never changed by draws or seeding) and C function slots that differ"""
    g, a, S = s.g, s.a, s.S
    oa, ob_ = g.owned(S, a)[0], g.owned(st, b)[0]
    amap = {oid: ob_.get(p) for p, oid in oa.items()}
    bad, n = [], 0
    used = set()
    for p, oid, off, sz in s.cells():
        used |= set((oid, b) for b in range(off, off + sz))
    for (p, oid, off, sz), t in sorted(g.shape(S, a).items(), key=lambda x: x[0]):
        if (p, off, sz) in g.mutable or ("seed" in p and t.w == "o"):
            continue
        if not any((oid, b) in used for b in range(off, off + sz)):
            continue        # no draw reads it
        o2 = ob_.get(p)
        nm = s.cname(p, oid, off)
        if nm.endswith("lock") or "_seed_seq" in nm:
            continue
        n += 1
        if o2 is None:
            bad.append((nm, t, None, False))
            continue
        t2 = g.E.w.load(st, o2, off, sz)
        if t2 is t or t.op == "ptr" and t2.op == "ptr" and amap.get(t.args[0], t.args[0]) == t2.args[0] and t.args[1] is t2.args[1]:
            continue
        if t.op in ("ref", "g") and t2.op == t.op or t.op == "phi" and t2.op == "phi" and not isinstance(t.w, int):
            continue
        from .. import evalt
        e = evalt.equal(t, t2) if isinstance(t.w, int) and isinstance(t2.w, int) else (False if not X.deps(t) and not X.deps(t2) else None)
        if e is not True:
            bad.append((nm, t, t2, e))
    return bad, n


def alternatives(t):
    """Python objects a cell may hold"""
    r, todo = set(), [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            todo += list(x.args[4] or ())
            if x in X.ITE:
                todo += list(X.ITE[x][1:3])
        if x.w == "o" and x.op in ("ref", "in", "init", "opq", "SeedSequence", "deepcopy", "getattr", "phi"):
            r.add(x)
    return r


def work(cfg, root, exts):
    s = Session(cfg, root, exts)
    g, a, S = s.g, s.a, s.S
    if g.cls.method("jumped") is None:
        return [ob("jumped", label(cfg) + ": has no jumped method", True, n=0)]
    out = []
    before = permanent(g, S)
    r, st = g.method(S, a, "jumped", [X.pyint(1)], {})
    L = label(cfg)
    if st is None:
        return [ob("jumped returns", L, True, "always raises", n=0)]
    own0, heap0 = g.owned(S, a)
    # 1. the original is untouched
    mine = set(own0.values())
    bad = [t for o, t in changes(g, S, st, [x for x in before if x in mine or g.E.w.objs[x].kind in ("global", "modvar")])]
    out.append(ob("jumped leaves the original alone", L, not bad, "; ".join(bad[:4]), n=len(mine)))
    # 2. same class
    h = st.heap.get(r.args[0]) if r.op == "ref" else None
    h0 = S.heap.get(a)
    if not isinstance(h, HInst):
        return out + [ob("jumped returns a new instance of the class", L, False if r.op == "ref" or r is X.NONE else None, X.show(r, 3))]
    b = r.args[0]
    out.append(ob("jumped returns a new instance of the class", L, b != a and h.cls is g.cls, "%s instance" % h.cls.name))
    # 3. nothing shared
    own1, heap1 = g.owned(st, b)
    sh = sorted(p for p, o in own1.items() if o in set(own0.values()) and g.E.w.objs[o].kind not in ("global", "modvar"))
    sh += sorted(p for p, o in heap1.items() if o in set(heap0.values()))
    theirs = set()
    for p0, o0 in own0.items():
        for off0, sz0 in g.grid(g.E.w.objs[o0]):
            theirs |= alternatives(g.E.w.load(S, o0, off0, sz0))
    for p, o in own1.items():
        ob1 = g.E.w.objs[o]
        for off, sz in g.grid(ob1):
            t = g.E.w.load(st, o, off, sz)
            if t.op == "ptr" and t.args[0] in mine:
                sh.append(s.g.path(ob1, off) + " points into the original")
            elif t.w == "o":
                for x in alternatives(t):
                    if x in theirs:
                        sh.append("%s is the original's" % (p + g.path(ob1, off)))
    out.append(ob("jumped shares no mutable storage with the original", L, not sh, "; ".join(sh[:4]), n=len(own1) + len(heap1)))
    # 4. same configuration
    bad, n = config_cells(s, st, b)
    sure = [x for x in bad if x[3] is False]
    out.append(ob("jumped keeps the configuration", L, False if sure else None if bad else True,
                  "; ".join("%s: original %s, jumped %s" % (x[0], X.show(x[1], 2), X.show(x[2], 2) if x[2] is not None else "missing") for x in (sure or bad)[:4]), n=n))
    for name in gens.SLOTS:
        f0, f1 = g.slot(S, a, name), g.slot(st, b, name)
        if f0 is not f1:
            out.append(ob("jumped keeps the configuration", L + ": " + name, False if f1.op == "fn" else None, "%s instead of %s" % (X.show(f1), X.show(f0))))
    # 5. nothing buffered by the original is replayed; nothing undefined or random
    made = set(d for d in c04.caches(s) if d[0] == "init")
    cur = s.cells()
    amap = {oid: own1.get(p) for p, oid in own0.items()}
    consts = {}
    for (oid, off, sz), v in s.fixed_in(st, amap).items():
        consts[(oid, off, sz)] = v
    dead = s.dead(consts)
    bad, n = [], 0
    for p, oid, off, sz in cur:
        o2 = amap.get(oid)
        if o2 is None:
            continue
        t = g.E.w.load(st, o2, off, sz)
        n += 1
        if (oid, off) in dead:
            continue
        d = X.deps(t)
        if d & made:
            bad.append("%s = %s still depends on %s" % (s.cname(p, oid, off), X.show(t, 2), ", ".join(sorted(str(x[2]) for x in d & made)[:3])))
        elif any(x[0] == "entropy" or x[0] == "undef" and t.op != "phi" for x in d):
            bad.append("%s = %s depends on %s" % (s.cname(p, oid, off), X.show(t, 2), sorted(str(x) for x in d if x[0] in ("undef", "entropy"))[:2]))
    out.append(ob("jumped replays nothing buffered", L, not bad, "; ".join(bad[:4]), n=n))
    return out


def tasks(root, exts):
    return configs(skip=("RDRAND",))


name = label
FLOOR = 60
EXPLAIN = ("Abstract interpretation of jumped() for every generator configuration from an arbitrary reachable state: the original's storage is compared cell by cell before and after, the objects "
           "reachable from the two instances are intersected, configuration cells and draw functions are compared, and the cells the draws read must not depend on pre-generated values of the original.")
ASSUME = ["reachable states are those of the constructor, seeding and the four draw functions", "copy.deepcopy of a seed sequence returns an independent object"]
