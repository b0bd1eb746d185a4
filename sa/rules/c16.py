"""Native memory: everything an operation allocates is owned by an instance or released exactly once by the matching function; deallocation releases all of it."""
from .base import *
from . import c08
from ..pyinterp import HInst

PROP = "C16"
R1 = "an operation leaves no unowned native memory behind"
R2 = "deallocation releases the instance's native memory exactly once"
R3 = "memory is released once, by the function that matches its allocation, and not used afterwards"
KINDS = ("doublefree", "badfree", "memfree", "null", "wild")


def alive(g, st):
    """{oid: True (certainly) / None (on some paths)} native allocations not yet released"""
    r = {}
    for oid, o in g.E.w.objs.items():
        if "alloc" not in o.extra or "live:" + oid not in st.mem:
            continue
        lv = g.E.w.load(st, "live:" + oid, 0, 1)
        hi = st.rng(lv)[1]
        if hi and may(lv, {}) is not False:
            r[oid] = True if st.rng(lv)[0] or may(lv, {}) else None
    return r


def may(t, asm):
    """can the liveness value be 1?  True: on a path with consistent branch outcomes; False: on none; None: unknown"""
    if X.is_c(t):
        return t.lo != 0
    if t not in X.ITE:
        return None
    c, a, b = X.ITE[t]
    if c in asm:
        return may(a if asm[c] else b, asm)
    n = X.not1(c)
    if n in asm:
        return may(b if asm[n] else a, asm)
    r = [may(a, with_(asm, c, True)), may(b, with_(asm, c, False))]
    return True if True in r else None if None in r else False


def with_(asm, c, v):
    r = dict(asm)
    r[c] = v
    return r


def held(g, st, insts):
    r = set()
    for i in insts:
        own, heap = g.owned(st, i)
        r |= set(own.values())
    # anything a C-level global points to
    for oid, m in st.mem.items():
        o = g.E.w.objs.get(oid)
        if o is not None and o.kind in ("global", "cglobal"):
            for off, (sz, t) in m.cells.items():
                for x in ([t] if t.op != "phi" else list(t.args[4] or ())):
                    if x.op == "ptr":
                        r.add(x.args[0])
    return r


def where(g, oid):
    return g.E.w.objs[oid].name.replace("heap@", "allocated in ")


def work(cfg, root, exts):
    s = Session(cfg, root, exts, jumps=cfg[1] not in c08.WIDE)
    g, a, S = s.g, s.a, s.S
    E = g.E
    L = label(cfg)
    out = []

    def judge(what, kinds=KINDS):
        bad = ["%s:%s %s %s" % (e["file"].split("/")[-1], e["line"], e["kind"], ", ".join("%s=%s" % (k, v) for k, v in sorted(e.items()) if k in ("obj", "what"))) for e in E.events if e["kind"] in kinds]
        out.append(ob(R3, L + ": " + what, not bad, "; ".join(sorted(set(bad))[:3])))
        del E.events[:]
    judge("construction and reachable states")
    l0 = alive(g, S)
    h0 = held(g, S, [a])
    lost = sorted(set(l0) - h0)
    sure = [o for o in lost if l0[o]]
    out.append(ob(R1, L + ": construction and reachable states", False if sure else None if lost else True, "; ".join(where(g, o) for o in (sure or lost)[:3]), n=len(l0)))
    ops = c08.ops(s)
    if cfg[1] in c08.WIDE:
        ops.append(("jumped", lambda: g.method(S, a, "jumped", [X.pyint(1)], {})))
    for n, f in ops:
        r, st = f()
        if st is None:
            del E.events[:]
            continue
        judge(n, KINDS[:3] if n == "jumped" and cfg[1] in c08.WIDE else KINDS)
        insts = [a] + ([r.args[0]] if r is not None and r.op == "ref" and isinstance(st.heap.get(r.args[0]), HInst) else [])
        now = alive(g, st)
        h = held(g, st, insts)
        lost = sorted(o for o in now if o not in h and o not in lost)
        sure = [o for o in lost if now[o]]
        out.append(ob(R1, L + ": " + n, False if sure else None if lost else True, "; ".join(where(g, o) for o in (sure or lost)[:3]), n=len(now)))
        lost = []
    # deallocation, of an instance in use and of one whose constructor failed before anything was set
    own = sorted(set(l0) & h0)
    d = g.cls.method("__dealloc__")
    if d is None:
        out.append(ob(R2, L, not own, "; ".join("%s is never released" % where(g, o) for o in own[:3]), n=len(own)))
        return out
    r, st = g.method(S, a, "__dealloc__", [], {})
    if st is None:
        return out + [ob(R2, L, None, "__dealloc__ does not return")]
    judge("deallocation")
    now = alive(g, st)
    left = [o for o in own if o in now]
    sure = [o for o in left if now[o]]
    out.append(ob(R2, L, False if sure else None if left else True, "; ".join("%s is not released" % where(g, o) for o in (sure or left)[:3]), n=len(own)))
    blank = S.copy()
    for oid in sorted(E.w.objs):
        if oid.startswith(a + ".") and oid in blank.mem:
            for off, sz in g.grid(E.w.objs[oid]):
                t = E.w.load(S, oid, off, sz)
                if isinstance(t.w, int):
                    E.w.store(blank, oid, off, sz, X.const(0, 8 * sz))
    r, st = g.method(blank, a, "__dealloc__", [], {})
    judge("deallocation after a failed construction")
    return out


def tasks(root, exts):
    return configs()


name = label
FLOOR = 150
EXPLAIN = ("Abstract interpretation of every generator configuration with a liveness cell per native allocation: after each operation every live allocation is reachable from an instance; "
           "__dealloc__ from an arbitrary reachable state and from a blank instance releases everything once with the matching function.")
ASSUME = ["reachable states are those of the constructor, seeding, draws, moves and restoring a saved state", "allocations succeed", "an instance is initialised once"]
