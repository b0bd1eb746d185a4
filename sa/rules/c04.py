"""After a move in the stream nothing that was generated in advance is handed out."""
from .base import *

PROP = "C04"
MOVES = ("advance", "jump")


def moves(g):
    """forms of the position-changing methods: (text, method, args, keywords, whether every block must be gone)"""
    r = []
    for m in MOVES:
        if g.cls.method(m) is None:
            continue
        names = [x for x in argnames(g.cls, m) if x != "self"]
        if m == "jump":
            r.append(("jump", m, [X.pyint(1)] if names else [], {}, True))
            continue
        for lo, hi, what, whole in ((1, 1 << 63, "any number of steps", False), (1024, 1 << 63, "more steps than a block holds", True), (1 << 64, 1 << 100, "at least 2**64 steps", False)):
            if hi >> 64 and (g.cfg[2].get("width"), g.cfg[2].get("number")) == (32, 2):
                continue        # a multiple of the period may be no move at all
            d = X.zext(X.leaf("in", ("delta", lo), 64 if hi >> 64 == 0 else 128, ("in", "delta", ""), lo, hi - 1), gens.PYW)
            if "counter" in names:
                for v in (True, False):
                    r.append(("advance(counter=%s) by %s" % (v, what), m, [d], {"counter": X.TRUE if v else X.FALSE}, whole))
            else:
                r.append(("advance by %s" % what, m, [d], {}, whole))
    return r


def plain(t, out):
    """whether t only moves around initial values (collects their dependence labels)"""
    if t.op == "init":
        out |= X.deps(t)
        return True
    if t.op == "cat":
        some = False
        for b, lo, n in t.args:
            if b is None:
                continue
            if not plain(b, out):
                return False
            some = True
        return some
    if t.op in ("bits", "fbits", "frombits", "bitcast"):
        return all(plain(x, out) for x in t.args if isinstance(x, X.T))
    return False


def cases(s):
    """the arbitrary reachable state, then with each control cell at its boundary positions"""
    g, S = s.g, s.S
    yield S
    for c in g.shape(S, s.a):
        t = g.shape(S, s.a)[c]
        if not isinstance(t.w, int) or X.is_c(t) or (c[0], c[2], c[3]) not in g.mutable:
            continue
        lo, hi = S.rng(t)
        if not 0 <= lo < hi <= 4096 or "[" in s.cname(*c[:3]):
            continue
        for v in sorted(set((lo, lo + 1, (lo + hi) // 2, hi - 1, hi))):
            yield restrict(g, S, s.tag, c, v, v)


def caches(s):
    """labels of the storage whose contents a draw hands out as they are"""
    g = s.g
    r = set()
    for S1 in cases(s):
        for name in gens.SLOTS:
            t, st = g.draw(S1, s.a, name)
            if st is None or t is None:
                continue
            got = set()
            if plain(t, got):
                r |= got
    return r


def work(cfg, root, exts):
    s = Session(cfg, root, exts)
    g, a, S = s.g, s.a, s.S
    out = []
    mv = moves(g)
    if not mv:
        return [ob("a move discards what was generated in advance", label(cfg) + ": has no move", True, n=0)]
    made = set(d for d in caches(s) if d[0] == "init")
    for text, m, args, kw, whole in mv:
        inst = "%s: %s" % (label(cfg), text)
        r, st = g.method(S, a, m, args, kw)
        if st is None:
            # not offered by this class: it raises
            out.append(ob("a move discards what was generated in advance", inst + " (always raises)", True, n=0))
            continue
        # the state the generator is made of: storage that is not only a cache
        dead = s.dead(s.fixed(st))
        weak = s.weak(st)
        bad, n = [], 0
        for p, oid, off, sz in s.cells():
            t = g.E.w.load(st, oid, off, sz)
            n += 1
            d = X.deps(t) & made
            if not whole and "[" in s.cname(p, oid, off):
                # a short move may stay inside the block: its values belong to the new position
                continue
            if d and (oid, off) not in dead:
                bad.append((s.cname(p, oid, off), t, d, d <= weak))
        sure = [x for x in bad if not x[3]]
        out.append(ob("a move discards what was generated in advance", inst, False if sure else None if bad else True,
                      "; ".join("%s = %s still depends on %s" % (c, X.show(t, 2), ", ".join(sorted(str(x[2]) for x in d)[:3])) for c, t, d, u in (sure or bad)[:4]), n=n))
    return out


def tasks(root, exts):
    return configs(skip=("RDRAND",))


name = label
FLOOR = 20
EXPLAIN = ("Abstract interpretation of every generator configuration: storage whose contents a draw hands out unchanged (pre-generated values) is identified from the draw functions; "
           "after every position-changing method no cell that a draw still reads may depend on it.")
ASSUME = ["reachable states are those of the constructor, seeding and the four draw functions", "numpy array primitives behave as modelled"]
