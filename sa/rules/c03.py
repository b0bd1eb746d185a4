"""Re-seeding erases the past: afterwards no value a draw reads depends on anything the instance held before."""
from .base import *
from .. import evalt

PROP = "C03"


def forms(g):
    """keyword forms of seed() of the class"""
    names = [n for n in argnames(g.cls, "seed") if n != "self"]
    r = [("seed",)]
    if "key" in names:
        r.append(("key",))
        if "counter" in names:
            r.append(("key", "counter"))
    for x in names:
        if x not in ("seed", "key"):
            r.append(("seed", x))
    return r


def argval(x):
    return inarg("seed") if x == "seed" else inarg(x, 0, (1 << 256) - 1)


def past(t):
    return set(d for d in X.deps(t) if d[0] in ("init", "undef", "entropy"))


def cforms(g):
    """keyword forms of the constructor"""
    names = [n for n in argnames(g.cls, "__init__") if n != "self"]
    r = [("seed",)]
    if "key" in names:
        r.append(("key",))
        if "counter" in names:
            r.append(("key", "counter"))
    return r


def built(s, cfg, cells):
    """a newly constructed instance: nothing that a draw reads is left unset or comes from anything but the arguments"""
    g = s.g
    out = []
    for form in cforms(g):
        inst = "%s: constructor(%s)" % (label(cfg), ", ".join(form))
        kw = {k: gens.pyconst(v) for k, v in cfg[2].items()}
        kw.update((x, argval(x)) for x in form)
        if form == ("seed",):
            b, st = s.a, s.S0
        else:
            r, st = g.run(g.E.base, lambda: models.construct(g.E, g.cls, [], kw, None))
            if st is None:
                out.append(ob("construction depends on the arguments only", inst + " (always rejected)", True, n=0))
                continue
            b = r.args[0]
        own = g.owned(s.S, s.a)[0]
        own2 = g.owned(st, b)[0]
        amap = dict((oid, own2.get(p)) for p, oid in own.items())
        dead = s.dead(s.fixed_in(st, amap))
        bad, n = [], 0
        for p, oid, off, sz in cells:
            if amap.get(oid) is None:
                bad.append(("%s is missing" % p))
                continue
            t = g.E.w.load(st, amap[oid], off, sz)
            n += 1
            d = set(x for x in X.deps(t) if x[0] in ("undef", "entropy"))
            if d and (oid, off) not in dead:
                bad.append("%s = %s depends on %s" % (s.cname(p, oid, off), X.show(t, 2), ", ".join(sorted(str(x[2]) if len(x) > 2 else str(x) for x in d)[:3])))
        out.append(ob("construction depends on the arguments only", inst, not bad, "; ".join(bad[:4]), n=n))
    return out


def same(s, cfg, cells):
    """a newly constructed instance and one re-seeded with the same value hold the same values"""
    g, S, a = s.g, s.S, s.a
    out = []
    forms = [("seed",)] + [f for f in cforms(g) if f != ("seed",)]
    for form in forms:
        inst = "%s: %s" % (label(cfg), ", ".join(form))
        val = dict((x, inarg(x, 0, (1 << 256) - 1 if x != "seed" else (1 << 64) - 1)) for x in form)
        kw = {k: gens.pyconst(v) for k, v in cfg[2].items()}
        kw.update(val)
        # one state holds both: the instance with an arbitrary past and the new one
        s0, g.E.base = g.E.base, S
        try:
            r, st = g.run(S, lambda: models.construct(g.E, g.cls, [], kw, None))
        finally:
            g.E.base = s0
        if st is None:
            continue
        b = r.args[0]
        r, st = g.method(st, a, "seed", [], val)
        if st is None:
            continue
        own, own2 = g.owned(s.S, s.a)[0], g.owned(st, b)[0]
        amap = dict((oid, own2.get(p)) for p, oid in own.items())
        dead = s.dead(s.fixed(st)) | s.dead(s.fixed_in(st, amap))
        bad, n, t0 = [], 0, time.time()
        for p, oid, off, sz in cells:
            if amap.get(oid) is None or (oid, off) in dead:
                continue
            t1, t2 = g.E.w.load(st, amap[oid], off, sz), g.E.w.load(st, oid, off, sz)
            n += 1
            if t1 is t2 or t1.op == "ptr" and t2.op == "ptr" and amap.get(t2.args[0]) == t1.args[0]:
                continue
            e = evalt.equal(t1, t2) if time.time() - t0 < 15 else None
            if e is True:
                continue
            bad.append((e is not False, "%s = %s when constructed, %s when re-seeded" % (s.cname(p, oid, off), X.show(t1, 2), X.show(t2, 2))))
        v = True if not bad else False if any(not x[0] for x in bad) else None
        out.append(ob("construction and re-seeding with the same seed agree", inst, v, "; ".join(x[1] for x in sorted(bad)[:3]), n=n))
    return out


def work(cfg, root, exts):
    s = Session(cfg, root, exts)
    g, a, S = s.g, s.a, s.S
    cells = s.cells()
    out = built(s, cfg, cells) + same(s, cfg, cells)
    for form in forms(g):
        kw = {x: argval(x) for x in form}
        inst = "%s: seed(%s)" % (label(cfg), ", ".join(form))
        r, st = g.method(S, a, "seed", [], kw)
        if st is None:
            # this form is rejected (for example numpy-compatible seeding with a counter)
            out.append(ob("re-seeding forgets every earlier draw", inst + " (always rejected)", True, n=0))
            continue
        fixed = s.fixed(st)
        dead = s.dead(fixed)
        weak = s.weak(st)
        bad, n = [], 0
        for p, oid, off, sz in cells:
            t = g.E.w.load(st, oid, off, sz)
            n += 1
            d = past(t)
            if d and (oid, off) not in dead:
                bad.append((s.cname(p, oid, off), t, "depends on %s" % ", ".join(sorted(str(x[2]) for x in d)[:3]), d <= weak))
        for name in gens.SLOTS:
            f, sp = g.slot(st, a, name), g.slot(st, a, "state")
            n += 1
            for t in (f, sp):
                if past(t) or t.op == "phi":
                    bad.append((name, t, "is chosen by the past", False))
        out.append(ob("re-seeding forgets every earlier draw", inst, not bad if not bad or not all(x[3] for x in bad) else None,
                      "; ".join("%s = %s %s" % (c, X.show(t, 2), w) for c, t, w, u in sorted(bad, key=lambda x: x[3])[:4]) + (" and %d more" % (len(bad) - 4) if len(bad) > 4 else ""), n=n))
    return out


def tasks(root, exts):
    return configs(skip=("RDRAND",))


name = label
FLOOR = 50
EXPLAIN = ("Abstract interpretation of every generator configuration: the constructor leaves nothing a draw reads unset or taken from anything but its arguments, and gives the same values "
           "as re-seeding with the same seed (where the two terms can be compared); from an arbitrary reachable state seed() is interpreted with each form of its arguments; "
           "every cell that a draw reads before writing must then be a term over the arguments and constants only (or provably never read before it is replaced).")
ASSUME = ["reachable states are those of the constructor, seeding and the four draw functions", "numpy array and SeedSequence primitives behave as modelled (functions of their arguments)",
          "hardware generator RDRAND is excluded"]
