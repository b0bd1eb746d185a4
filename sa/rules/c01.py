"""Every draw is made while holding the lock of the generator drawn from, and locks are released on every exit and never re-acquired."""
from .base import *
from .. import prep, pyfront, locks

PROP = "C01"


def tasks(root, exts):
    return ["all"]


def name(t):
    return "package"


def work(task, root, exts):
    mods = {}
    for e in prep.extensions(root):
        if ".tests." not in e:
            mods[e] = pyfront.load(root, e)
    L = locks.Locks(mods)
    out = []
    fns = []
    for mn, m in sorted(mods.items()):
        for f in list(m.entries.values()) + [x for x in m.funcs.values()]:
            if f._sa_mod is m and not any(f is g for g, _ in fns):
                fns.append((f, None))
        for c in m.classes.values():
            for f in list(c.methods.values()) + [g for p in c.props.values() for g in p.values()]:
                if not any(f is g for g, _ in fns):
                    fns.append((f, c))
    sums = []
    for f, c in fns:
        if getattr(f, "body", None) is None:
            continue
        sums.append((f, c, L.summary(f)))
    sites = 0
    for f, c, s in sums:
        q = L.qual(f)
        isdef = type(f).__name__ == "DefNode"
        for rule, w, text in s.problems:
            out.append(ob(rule if rule != "undecided" else "lock identity", q, None if rule == "undecided" else False, text, key="%s | %s" % (rule, text), where=w))
        if s.draws and ((isdef and not locks.internal(f, c)) or not L.called.get(id(f)) and not slotlike(f)):
            for p, (w, what) in s.draws.items():
                out.append(ob("draws hold the generator's lock", q, False, "%s draws from %s (%s) and no caller holds a lock" % (q, p, what), where=w))
        if isdef and s.pairs:
            for (p, l), w in s.pairs.items():
                out.append(ob("the lock belongs to the generator drawn from", q, None, "state %s and lock %s both come from the caller" % (p, l), where=w))
        n = len(s.sites)
        sites += n
        if n and not any(r != "undecided" for r, w, t in s.problems):
            out.append(ob("draws hold the generator's lock", q, True, n=n))
        if s.regions and not s.problems:
            out.append(ob("locks are released on every exit and not re-acquired", q, True, n=s.regions))
        for x in s.locks:
            if x[0] == "store":
                out += bind(L, f, c, x, s)
    for m in mods.values():
        for c in m.classes.values():
            if L.islockclass(c):
                out += protocol(L, c)
    return out


def slotlike(f):
    """a draw function called by C through the interface: its caller holds the lock"""
    a = f.entry.type.args
    return len(a) == 1 and a[0].type.is_ptr and a[0].type.base_type.is_void


def bind(L, f, c, x, s):
    """an instance's lock, interface pointer and wrapped generator are set together and come from the same object"""
    _, attr, v, w = x
    st = {y[1]: y[2] for y in s.locks if y[0] == "store"}
    q = L.qual(f)
    if c is None or "_bit_generator" not in st and "_bitgen" not in st:
        # a generator class may only create its lock once, in the constructor
        if attr == "lock":
            ok = getattr(f, "name", None) in ("__init__", "__cinit__")
            return [ob("the lock is created with the instance", q, ok, "%s replaces the instance's lock outside the constructor" % q, where=w)]
        return []
    if attr != "lock" and not (attr == "_bitgen" and "lock" not in st):
        return []
    src = locks.owner(st.get("_bitgen", ("unk", "no interface pointer")))
    lo = locks.lockowner(st["lock"]) if "lock" in st else None
    ok = lo == src and st["lock"][0] == "attr" and ("_bit_generator" not in st or st["_bit_generator"] == src)
    return [ob("lock and draw interface come from the same generator", q, ok,
               "draws use %s, the lock is %s" % (locks.show(st.get("_bitgen", ("none",))), locks.show(st["lock"]) if "lock" in st else "not set"), where=w)]


def protocol(L, c):
    """acquire() takes the wrapped lock when it returns; release() and __exit__ leave it released on every way out"""
    l = ("attr", ("self",), "lock")
    out = []
    for n, held in (("acquire", frozenset()), ("__enter__", frozenset()), ("release", frozenset([l])), ("__exit__", frozenset([l]))):
        f = c.methods.get(n)
        inst = "%s.%s" % (c.name, n)
        if f is None:
            out.append(ob("lock protocol", inst, False, "%s is missing" % inst))
            continue
        fn = locks.Fn(L, f)
        fn.run(held)
        ret = fn.outcomes.ret + fn.outcomes.fall
        if n in ("acquire", "__enter__"):
            ok = bool(ret) and any(l in p.held for p in ret) and (n != "__enter__" or all(l in p.held for p in ret))
            d = "returns without the lock"
        else:
            bad = [p for p in ret + fn.outcomes.exc if l in p.held]
            ok = not bad and bool(ret)
            d = "can leave with the lock still held"
        dbl = [t for r, w, t in fn.s.problems]
        if dbl:
            ok, d = False, "; ".join(dbl)
        out.append(ob("lock protocol", inst, ok, "%s %s" % (inst, d), n=len(ret), where=fn.where(f)))
    return out


FLOOR = 15
EXPLAIN = ("Interprocedural lockset and typestate analysis over the typed Cython trees of every module of the package: access paths identify generator state and "
           "locks, every call that consumes random values (through the draw interface, a function pointer, a C function taking it, or a helper) is an obligation, "
           "every acquisition is followed to all normal and exceptional exits.")
ASSUME = ["C functions that receive the draw interface draw from it and do not touch locks", "numpy's Generator acquires the same lock in its own methods",
          "callers of the exported C helpers pass a lock and a state that belong together when both are their own parameters"]
