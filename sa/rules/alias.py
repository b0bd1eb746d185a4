"""Shared by the rules about copies: reachable Python values, differences between two states."""
from .base import *
from ..pyinterp import HDict, HList, HArr, HInst, HObj


def values(st, v, out=None, unk=None):
    """heap objects and array buffers reachable from a Python value: {oid: kind}; unk collects opaque parts that mention references"""
    out = {} if out is None else out
    unk = [] if unk is None else unk
    todo = [v]
    seen = set()
    while todo:
        t = todo.pop()
        if t is None or t in seen:
            continue
        seen.add(t)
        if t.op == "ref":
            h = st.heap.get(t.args[0])
            out[t.args[0]] = type(h).__name__ if h is not None else "?"
            if isinstance(h, HDict):
                for a, b in h.items:
                    todo += [a, b]
            elif isinstance(h, HList):
                todo += list(h.items or ())
            elif isinstance(h, HArr):
                out[h.oid] = "memory"
        elif t.op == "tup":
            todo += list(t.args)
        elif t.op == "phi":
            todo += list(t.args[4] or ())
        elif t.op == "ptr":
            out[t.args[0]] = "memory"
        elif t.op not in ("k", "c", "in", "init", "fn", "g", "fc") and t.w == "o":
            # an opaque Python value computed from references may be one of them
            if refs(t):
                unk.append(t)
    return out, unk


def refs(t, depth=6):
    if not isinstance(t, X.T) or depth == 0:
        return False
    if t.op == "ref":
        return True
    return any(refs(x, depth - 1) for x in t.args if isinstance(x, X.T)) or any(refs(y, depth - 1) for x in t.args if isinstance(x, (tuple, list)) for y in x)


def cpuflag(a, b):
    """a processor capability, determined again"""
    d = X.deps(b)
    return bool(d) and all(x[0] == "hw" for x in d) and X.deps(a) == d and b.w == a.w and str(b) == str(a)


def changes(g, s0, s1, objs, skip=()):
    """what s1 changed in objects that existed before (objs: their ids): [(object id, text)]"""
    E = g.E
    bad = []
    for oid in sorted(objs):
        if oid in skip:
            continue
        m0, m1 = s0.mem.get(oid), s1.mem.get(oid)
        if m0 is m1:
            continue
        o = E.w.objs[oid]
        offs = set((off, c[0]) for m in (m0, m1) if m is not None for off, c in m.cells.items())
        for off, n in sorted(offs):
            a, b = E.w.load(s0, oid, off, n), E.w.load(s1, oid, off, n)
            if a is not b and not cpuflag(a, b):
                bad.append((oid, "%s%s: %s becomes %s" % (o.extra.get("name") or o.name or oid, g.path(o, off), X.show(a, 2), X.show(b, 2))))
                break
        else:
            sm0 = m0.smears if m0 is not None else ()
            if m1 is not None and m1.smears != sm0:
                bad.append((oid, "%s is written" % oid))
    for r, h in s0.heap.items():
        if r in skip:
            continue
        h1 = s1.heap.get(r)
        if h1 is not h and h1 is not None and not h1 == h:
            bad.append((r, "%s %s is changed" % (type(h).__name__, r)))
    return bad


def permanent(g, st):
    """memory objects that outlive a call: instances, heap, array buffers, C and module globals"""
    return set(oid for oid, o in g.E.w.objs.items() if o.kind not in ("local", "stack", "alloca", "const"))
