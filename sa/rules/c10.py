"""Instances are isolated: no operation on one generator writes anything that another one reads."""
from .alias import *
from . import c03, c08
from .. import effects

PROP = "C10"
SKIP = ("local", "stack", "alloca", "const")


def flips(ref, a, b):
    """a constant that the other instance had already changed is changed back or again"""
    return ref is not None and ref is not a and a is not b and b.op in ("c", "k", "fc", "fn", "g")


def outside(g, s0, s1, mine, heap, ref=None):
    """[text] what s1 changed outside the objects of the instance; ref: the state before the other instance was made"""
    E = g.E
    bad = []
    for oid, o in list(E.w.objs.items()):
        if oid in mine or o.kind in SKIP:
            continue
        m0, m1 = s0.mem.get(oid), s1.mem.get(oid)
        if m0 is m1 or m1 is None:
            continue
        if o.kind not in ("global", "cglobal", "extbuf") and m0 is None:
            continue            # made by the operation itself
        if oid.startswith("var:") or o.kind == "extbuf" and not any(d[0] == "glob" for d in X.deps(o.extra.get("arr", X.NONE))):
            continue
        for off, c in sorted(m1.cells.items()):
            a, b = E.w.load(s0, oid, off, c[0]), c[1]
            if a is b or not (varies(b) or ref is not None and oid in ref.mem and flips(E.w.load(ref, oid, off, c[0]), a, b)):
                continue
            bad.append("%s%s becomes %s" % (o.name or oid, g.path(o, off), X.show(b, 2)))
            break
        else:
            sm = [x for x in m1.smears if m0 is None or x not in m0.smears]
            if sm and any(d[0] not in ("hw", "const") for x in sm for d in x[2]):
                bad.append("%s is written" % (o.name or oid))
    for r, h in s0.heap.items():
        if r in heap or r in mine:
            continue
        h1 = s1.heap.get(r)
        if h1 is not None and h1 is not h and not h1 == h:
            bad.append("%s %s is changed" % (type(h).__name__, r))
    for k in s1.env:
        if isinstance(k, tuple) and k and isinstance(k[0], tuple) and k[0][:1] == ("mod",) and s1.env[k] is not s0.env.get(k) and (
                varies(s1.env[k]) or ref is not None and k in ref.env and k in s0.env and flips(ref.env[k], s0.env[k], s1.env[k])):
            bad.append("module variable %s.%s becomes %s" % (k[0][1], k[1], X.show(s1.env[k], 2)))
    return bad


def varies(t):
    """a value that is not simply determined by the program or the processor"""
    return t.op in ("ref", "phi", "in", "init") or any(d[0] not in ("hw", "const") for d in X.deps(t))


def mine(g, st, inst):
    own, heap = g.owned(st, inst)
    h = set(heap.values())
    todo = list(h) + [inst]
    seen = set()
    m = set(own.values())
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        m |= set(values(st, X.ref(x))[0])
    return m | set(values(st, X.ref(inst))[0]), h | seen


def keygen(root, exts):
    """does the key generator of Squares use what earlier calls left in module level buffers?"""
    cfg = ("squares", "Squares", {})
    g = gens.Gen(root, exts, cfg)
    E = g.E
    pre = "randomgen.squares._SequenceSampler."
    d = frozenset([("in", "seed", "")])
    E.open_keys = True
    E.stubs = {pre + "random_inverval": lambda E, a: X.phi(X.fresh(), d | X.deps(a[1]), 64, 0, 15), pre + "gen_bits": lambda E, a: X.phi(X.fresh(), d, 64, 0, 15),
               pre + "next_word": lambda E, a: X.phi(X.fresh(), d, 8, 0, 15), pre + "refill": lambda E, a: X.NONE}
    r, st = g.run(E.base, lambda: models.construct(E, E.cls("randomgen.squares", "_SequenceSampler"), [g.seed], {}, None))
    st = st.copy()
    # arrays bound to module variables
    bufs = set()
    for oid, o in list(E.w.objs.items()):
        if o.kind == "cglobal":
            for off, c in (st.mem[oid].cells if oid in st.mem else {}).items():
                for x, kind in values(st, c[1])[0].items():
                    if kind == "memory":
                        bufs.add(x)
    for oid in bufs:
        o = E.w.objs[oid]
        for off, sz in g.grid(o):
            E.w.store(st, oid, off, sz, X.leaf("init", ("left", oid, off), 8 * sz, ("init", "left over", o.name or oid)))
    f = E.module("randomgen.squares").funcs.get("generate_key")
    if f is None:
        return None, 0
    v, st2 = g.run(st, lambda: E.call_cdef(f, [r]))
    if st2 is None:
        return None, 0
    return not any(x[0] == "init" for x in X.deps(v)), len(bufs)


def other(cfg):
    """constructor keywords of another configuration of the class"""
    l = [c for c in gens.CONFIGS if c[:2] == cfg[:2]]
    return l[(l.index(cfg) + 1) % len(l)][2]


def work(cfg, root, exts):
    if cfg == "package":
        return module_level(root, exts)
    s = Session(cfg, root, exts)
    g, a, S = s.g, s.a, s.S
    L = label(cfg)
    out = []
    R = "operations change nothing outside the instance"
    # a second instance, made while the first one is in an arbitrary state
    seed2 = X.leaf("in", ("seed2",), "o", ("in", "seed2", ""))
    s0, g.E.base = g.E.base, S
    try:
        r, st = g.construct(seed=False if cfg[0] == "rdrand" else seed2, kw=other(cfg))
    finally:
        g.E.base = s0
    if st is None or r.op != "ref":
        return [ob(R, L, None, "a second instance cannot be made")]
    b = r.args[0]
    ma, ha = mine(g, S, a)
    mb, hb = mine(g, st, b)
    out.append(ob(R, L + ": constructor", not outside(g, S, st, mb, hb), "; ".join(outside(g, S, st, mb, hb)[:3]), n=len(mb)))
    sh = []
    for p, oid in sorted(g.owned(st, b)[0].items()):
        o = g.E.w.objs[oid]
        for off, sz in g.grid(o):
            t = g.E.w.load(st, oid, off, sz)
            for x in ([t] if t.op != "phi" else list(t.args[4] or ())):
                if x.op != "ptr":
                    continue
                q = g.E.w.objs.get(x.args[0])
                if x.args[0] in ma and x.args[0] not in mb or x.args[0] in ma:
                    sh.append("%s%s points into the other instance" % (p, g.path(o, off)))
                elif q is not None and q.kind in ("global", "cglobal") and not q.extra.get("const"):
                    sh.append("%s%s points to %s" % (p, g.path(o, off), q.name))
    sh += ["%s is shared" % x for x in sorted((ma & mb) | (ha & hb))]
    out.append(ob("instances share no storage", L, not sh, "; ".join(sh[:3]), n=len(mb)))
    s.S = S2 = st
    for n, f in c08.ops(s):
        r, s2 = f()
        if s2 is None:
            continue
        extra = set()
        if n == "jumped" and r.op == "ref":
            m2, h2 = mine(g, s2, r.args[0])
            extra = m2 | h2
        bad = outside(g, S2, s2, ma | extra, ha | extra, S)
        out.append(ob(R, L + ": " + n, not bad, "; ".join(bad[:3])))
    return out


def module_level(root, exts):
    """functions of the package that write to module level storage or to default values of parameters"""
    mods = package(root, exts)
    E = effects.Effects(mods, root, exts)
    R = "no function keeps anything at module level"
    out, n, who = [], 0, {}
    for f in E.functions():
        if E.qual(f).split(".")[-1].startswith("__pyx_"):
            continue
        n += 1
        for o, l in E.summary(f).muts.items():
            if o[0] == "global":
                who.setdefault((o[1].replace("randomgen.", ""), o[2]), []).append((E.qual(f), l[0]))
    for (m, v), l in sorted(who.items()):
        inst = "%s.%s" % (m, v)
        if m == "squares":
            ok, nb = keygen(root, exts)
            if ok and nb:
                out.append(ob(R, inst + " (every use starts from fresh contents)", True, n=nb))
                continue
            if ok is None:
                out.append(ob(R, inst, None, "the key generator cannot be analysed"))
                continue
        out.append(ob(R, inst, False, "; ".join("%s: %s (%s)" % (q, w[1], w[0]) for q, w in l[:3]), where=l[0][1][0]))
    out.append(ob(R, "functions of the package", True, n=n))
    return out


def tasks(root, exts):
    return ["package"] + configs()


def name(t):
    return "package" if t == "package" else label(t)

FLOOR = 200
EXPLAIN = ("Abstract interpretation of every generator configuration with a second live instance: no operation of one instance (constructor, seeding, draws, moves, jumped copies, state getter and setter) "
           "changes a memory object, container or module variable that is not its own, except constants of the processor; the objects reachable from two instances are disjoint.")
ASSUME = ["reachable states are those of the constructor, seeding and draws", "numpy's SeedSequence is not shared between the two instances by the caller"]
