"""Reading the state changes nothing and hands out copies."""
from .alias import *

PROP = "C06"


def work(cfg, root, exts):
    s = Session(cfg, root, exts)
    g, a, S = s.g, s.a, s.S
    inst = label(cfg)
    out = []
    objs = permanent(g, S)
    old = set(objs) | set(S.heap)
    v, st = g.getstate(S, a)
    if st is None:
        return [ob("reading the state", inst, None, "the getter never returns")]
    bad = changes(g, S, st, objs)
    out.append(ob("reading the state changes nothing", inst, not bad, "; ".join(t for o, t in bad[:5]), n=len(objs)))
    vals, unk = values(st, v)
    shared = sorted(o for o in vals if o in old)
    out.append(ob("the returned state shares no storage with the generator", inst, (False if shared else None) if shared or unk else True,
                  "; ".join("the returned value contains %s %s" % (vals[o], o) for o in shared[:5]) or "; ".join(X.show(u, 3) for u in unk[:3]), n=len(vals)))
    # nothing the generator keeps leads to the returned objects
    own, heap = g.owned(st, a)
    kept = [p for p, o in list(own.items()) + list(heap.items()) if o in vals and o not in old]
    out.append(ob("the generator keeps no reference to the returned state", inst, not kept, ", ".join(kept[:5]), n=len(own)))
    return out


def tasks(root, exts):
    return configs(skip=())


name = label
FLOOR = 70
EXPLAIN = ("Abstract interpretation of every generator configuration: the state getter is interpreted from an arbitrary reachable state; every memory cell and Python object that "
           "existed before must be unchanged, and no object or array buffer reachable from the result may exist before or be reachable from the instance afterwards.")
ASSUME = ["numpy array and dict primitives copy or alias as modelled"]
