"""Saved state is complete: restoring it into another instance makes every value the draws read equal."""
from .base import *
from .. import evalt

PROP = "C02"


def selectcells(g, st, inst, rd):
    """[(path, oid, off, size)] natural cells of the instance's storage that are in the read set"""
    own, heap = g.owned(st, inst)
    r = []
    for p, oid in sorted(own.items()):
        s = rd.get(oid)
        if not s:
            continue
        o = g.E.w.objs[oid]
        for off, sz in g.grid(o):
            bs = [b for b in range(off, off + sz) if b in s]
            if bs:
                r.append((p, oid, bs[0], bs[-1] + 1 - bs[0]))
    return r


def cellname(g, p, oid, off):
    return p + g.path(g.E.w.objs[oid], off)


def drawreads(g, S, inst):
    """per draw slot the read set"""
    out = {}
    for name in gens.SLOTS:
        r, s, rd = reads(g, lambda st, name=name: g.draw(st, inst, name), S)
        if s is None:
            raise Broken("%s of %s never returns" % (name, label(g.cfg)))
        out[name] = rd
    return out


def second(g, S, kw, tag):
    """another instance (keywords kw) inside state S, all of its non-constant storage unknown: (inst, state)"""
    seed = X.leaf("in", ("seed2",), "o", ("in", "seed2", ""))
    s0, g.E.base = g.E.base, S
    try:
        o, st = g.construct(kw=kw, seed=False if g.cfg[0] == "rdrand" else seed)
    finally:
        g.E.base = s0
    if st is None:
        raise Broken("no second instance of %s" % label(g.cfg))
    b = o.args[0]
    g.type_objects(st, b)
    kinds, rngs = {}, {}
    for (p, oid, off, sz), t in g.shape(st, b).items():
        if X.is_c(t) and (p, off, sz) not in g.mutable or gens.isptr(t) or t.op in ("k", "fc", "g") or t is X.NONE:
            kinds[(p, off, sz)] = t
    tz, g.tzs = g.tzs, {}
    st = g.generalise(st, b, tag, rngs, kinds)
    g.tzs = tz
    return b, st


def same(g, ta, tb, amap):
    """equal values up to the renaming of A's objects to B's"""
    ci = g.E.ci(g.mod)
    ta, tb = ci.bits(ta) if ta.w in ("f64", "f32") else ta, ci.bits(tb) if tb.w in ("f64", "f32") else tb
    if ta is tb:
        return True
    if ta.op == "ptr" and tb.op == "ptr":
        return amap.get(ta.args[0], ta.args[0]) == tb.args[0] and ta.args[1] is tb.args[1]
    if ta.op == "ref" and tb.op == "ref":
        return amap.get(ta.args[0]) == tb.args[0]
    return False


def compare(g, st, a, b, cells):
    """cells of A whose value in B differs: [(name, A's value, B's value)]"""
    oa, ob_ = g.owned(st, a)[0], g.owned(st, b)[0]
    amap = {oid: ob_.get(p) for p, oid in oa.items()}
    bad = []
    for p, oid, off, sz in cells:
        ta = g.E.w.load(st, oid, off, sz)
        o2 = ob_.get(p)
        if o2 is None:
            bad.append((cellname(g, p, oid, off), ta, None, False))
            continue
        tb = g.E.w.load(st, o2, off, sz)
        if not same(g, ta, tb, amap):
            e = verdict(ta, tb)
            if e is not True:
                bad.append((cellname(g, p, oid, off), ta, tb, e))
    return bad


def verdict(ta, tb):
    """True equal, False different, None unknown"""
    e = evalt.equal(ta, tb)
    if e is None and any(d[0] in ("init", "undef", "entropy") and d not in X.deps(ta) and not (d[0] == "init" and d[1] == "A") for d in X.deps(tb)):
        return False
    return e


def roundtrip(g, S, a, b, st):
    """state of A read and assigned to B, from st (A arbitrary reachable, B arbitrary)"""
    d, s1 = g.getstate(st, a)
    if s1 is None:
        return None, "reading the state never succeeds"
    r, s2 = g.setstate(s1, b, d)
    if s2 is None:
        return None, "assigning the saved state never succeeds"
    return s2, None


def settled(g, S, a, kw, name, bad, rt=None):
    """mismatches that remain undecided are looked at case by case (a pre-drawn value matters only while its flag is set)"""
    fb = any(x[3] is False for x in bad)

    def judge(S1):
        r, s, rd = reads(g, lambda st: g.draw(st, a, name), S1)
        if s is None:
            return True, None
        if rt is not None:
            b, s2 = rt(S1)
            if s2 is None:
                return None, None
        else:
            b, st = second(g, S1, kw, "B")
            s2, err = roundtrip(g, S1, a, b, st)
            if err:
                return None, None
        left = compare(g, s2, a, b, selectcells(g, S1, a, rd))
        if not left:
            return True, None
        if any(x[3] is False for x in left):
            return False, left
        return None, left

    names = set()
    for n, x, y, e in bad:
        names |= set(d for t in (x, y) if t is not None for d in X.deps(t) if d[0] == "init" and d[1] == "A")
    for c, lo, hi in controls(g, S, a, set(X.deps(X.TRUE)) | set(d for t in g.shape(S, a).values() if isinstance(t.w, int) for d in X.deps(t))):
        if hi == 1:
            names |= set(d for d in X.deps(g.shape(S, a)[c]) if d[0] == "init")
    v, x = settle(g, S, a, "A", judge, names)
    if v is True:
        return [], ""
    if v is False:
        return x[1], x[0]
    return bad, ""


def work(cfg, root, exts):
    g = gens.Gen(root, exts, cfg)
    o, S0 = g.construct(seed=False if cfg[0] == "rdrand" else None)
    if S0 is None:
        raise Broken("the constructor of %s always raises" % label(cfg))
    a = o.args[0]
    S, g.mutable = g.invariant(S0, a, "A", jumps=False)
    rd = drawreads(g, S, a)
    out = []
    for kw, what in (({}, "default-constructed instance"), (cfg[2], "instance with the same arguments")):
        if what.startswith("inst") and not cfg[2]:
            continue
        b, st = second(g, S, kw, "B")
        s2, err = roundtrip(g, S, a, b, st)
        if err:
            out.append(ob("restore", "%s -> %s" % (label(cfg), what), None, err))
            continue
        for name in gens.SLOTS:
            inst = "%s -> %s: %s" % (label(cfg), what, name)
            fa, fb = g.slot(s2, a, name), g.slot(s2, b, name)
            if fa is not fb:
                out.append(ob("the restored instance uses the same draw function", inst, False if fb.op == "fn" else None,
                              "%s after restoring; the saved instance uses %s" % (X.show(fb), X.show(fa))))
                continue
            cells = selectcells(g, S, a, rd[name])
            bad = compare(g, s2, a, b, cells)
            case = ""
            if bad:
                bad, case = settled(g, S, a, kw, name, bad)
            ok = True if not bad else False if any(x[3] is False for x in bad) else None
            bad.sort(key=lambda x: x[3] is not False)
            out.append(ob("every value the draw reads is restored", inst, ok,
                          case + "; ".join("%s: saved %s, restored %s" % (n, X.show(x, 3), X.show(y, 3) if y is not None else "missing")
                                    for n, x, y, e in bad[:4]) + (" and %d more" % (len(bad) - 4) if len(bad) > 4 else ""), n=len(cells)))
    return out


def tasks(root, exts):
    return configs(skip=("RDRAND",))


name = label
FLOOR = 125
EXPLAIN = ("Abstract interpretation (bit-slice value numbering over the typed Cython trees and the LLVM IR of the C sources) of every generator "
           "configuration: from an arbitrary reachable state of the saved instance the state getter and then the state setter of a second instance in "
           "an arbitrary state are interpreted; the cells each installed draw function reads before writing must then hold the same term in both.")
ASSUME = ["reachable states are those of the constructor and the four draw functions (ranges of the fields)",
          "numpy array and dict primitives behave as modelled", "hardware generator RDRAND is not reproducible and is excluded"]
