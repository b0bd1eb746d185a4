"""The low-level interfaces (capsule table, ctypes, cffi) hand out the functions and the state the generator itself draws with."""
from .base import *
from fractions import Fraction
from . import c11

PROP = "C14"
FIELDS = ("state_address", "state", "next_uint64", "next_uint32", "next_double", "bit_generator")
CTYPE = {"next_uint64": "c_uint64", "next_uint32": "c_uint32", "next_double": "c_double"}
CFFI = {"next_uint64": ("uint64_t", "unsigned long"), "next_uint32": ("uint32_t", "unsigned int"), "next_double": ("double",)}
INDEX = {"state": 0, "next_uint64": 1, "next_uint32": 2, "next_double": 3}


def parts(t, want, seen=None):
    """subterms with the given operators"""
    seen = set() if seen is None else seen
    if id(t) in seen:
        return []
    seen.add(id(t))
    if t.op in want:
        return [t]
    r = []
    for a in t.args:
        if isinstance(a, X.T):
            r += parts(a, want, seen)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, X.T):
                    r += parts(b, want, seen)
    return r


def names(t):
    """global names and strings inside a term"""
    out = set()
    for x in parts(t, ("g", "k")):
        v = x.args[0] if x.op == "g" else x.args[1]
        if isinstance(v, str):
            out.add(v)
    return out


def judge(g, st, b, nm, r):
    """[(known, what is wrong)] of an interface value against the instance's current table"""
    o = g.E.w.objs[b + "._bitgen"]
    cur = c11.table(g, st, b)
    if r.op != "nt" or len(r.args) < len(FIELDS):
        return [(False, "the interface is %s" % X.show(r, 3))]
    fs = r.args[-len(FIELDS):]
    bad = []
    for f, t in zip(FIELDS, fs):
        ps = parts(t, ("ptr", "fn"))
        if len(ps) != 1:
            bad.append((False, "%s is %s" % (f, X.show(t, 4))))
            continue
        p = ps[0]
        if f == "bit_generator":
            if p.op != "ptr" or p.args[0] != o.oid or not X.is_c(p.args[1]) or X.cval(p.args[1]) != 0:
                bad.append((True, "bit_generator points at %s, not at the table of functions" % X.show(p)))
            continue
        w = cur[INDEX["state" if f.startswith("state") else f]]
        if p is not w:
            bad.append((w.op in ("ptr", "fn"), "%s is %s; the generator itself uses %s" % (f, X.show(p), X.show(w))))
        if f in CTYPE:
            ns = names(t)
            if nm == "ctypes":
                got = set(n.rpartition(".")[2] for n in ns if n.startswith("ctypes.c_")) - {"c_void_p"}
                if got != {CTYPE[f]}:
                    bad.append((bool(got), "%s is declared to return %s" % (f, ", ".join(sorted(got)) or "?")))
            else:
                got = set(n.split("(")[0].strip() for n in ns if "(*)" in n)
                if not got or not got <= set(CFFI[f]):
                    bad.append((bool(got), "%s is declared to return %s" % (f, ", ".join(sorted(got)) or "?")))
    return bad


def verdict(rule, inst, bad, n=6):
    return ob(rule, inst, True if not bad else False if any(k for k, _ in bad) else None, "; ".join(d for _, d in bad[:3]), n=n)


def read(g, st, o, nm):
    return g.run(st, lambda: g.E.getattr(o, nm, None))


def owned_state(g, st, b, what):
    own, heap = g.owned(st, b)
    p = g.E.w.load(st, g.E.w.objs[b + "._bitgen"].oid, 0, 8)
    if p.op != "ptr":
        return ob("the state handed out is the generator's own storage", what, None, "state is %s" % X.show(p))
    ok = p.args[0] in own.values()
    return ob("the state handed out is the generator's own storage", what, ok, "state points into %s" % X.show(p))


RET = {"next_uint64": (64,), "next_uint32": (32,), "next_double": ("f64",), "next_raw": (64,)}


def interval(t):
    """exact bounds of a numeric term, or None"""
    F = Fraction
    if isinstance(t.w, int):
        if t.op == "or":
            a, b = interval(t.args[1]), interval(t.args[2])
            if a[0] >= 0 and b[0] >= 0:
                return max(a[0], b[0]), F((1 << int(max(a[1], b[1])).bit_length()) - 1)
        hi = off = 0
        for base, o, n in X.parts(t):
            if base is not None and base.lo < 0:
                return F(t.lo), F(t.hi)
            hi += (min(base.hi >> o, (1 << n) - 1) if base is not None else o) << off
            off += n
        return max(F(0), F(t.lo)), min(F(hi), F(t.hi))
    if t.op in ("fc", "k"):
        v = [a for a in t.args if isinstance(a, (int, float)) and not isinstance(a, bool)]
        return (F(v[0]), F(v[0])) if len(v) == 1 else None
    if t.op in ("py/", "py*", "py+", "py-") and len(t.args) == 3:
        a, b = interval(t.args[1]), interval(t.args[2])
        if a is None or b is None or t.op == "py/" and b[0] <= 0:
            return None
        vs = [{"py/": lambda x, y: x / y, "py*": lambda x, y: x * y, "py+": lambda x, y: x + y, "py-": lambda x, y: x - y}[t.op](x, y) for x in a for y in b]
        return min(vs), max(vs)
    return None


def subterm(t, x, seen=None):
    seen = set() if seen is None else seen
    if t is x:
        return True
    if id(t) in seen:
        return False
    seen.add(id(t))
    for a in t.args:
        for b in (a if isinstance(a, tuple) else (a,)):
            if isinstance(b, X.T) and subterm(b, x, seen):
                return True
    return False


def casts(t):
    """the callback objects whose address a slot holds"""
    return [c.args[2] for c in parts(t, ("callo",)) if len(c.args) > 2 and isinstance(c.args[1], X.T) and c.args[1].op == "k" and c.args[1].args[1] == "ctypes.cast"]


USER = ("next_raw", "next_64", "next_32", "next_double")
SLOTOF = {"next_raw": "next_raw", "next_64": "next_uint64", "next_32": "next_uint32", "next_double": "next_double"}
UTYPE = {"next_raw": ("c_uint64",), "next_64": ("c_uint64",), "next_32": ("c_uint32", "c_uint64"), "next_double": ("c_double",)}
LIMIT = {"next_raw": 1 << 64, "next_64": 1 << 64, "next_32": 1 << 32, "next_double": 1}


def held(g, st, i):
    """values of the instance's attributes"""
    out = []
    for k, o in g.E.w.objs.items():
        if k.startswith(i + ".") and o.extra and o.extra.get("ct") is not None and o.extra["ct"].kind == "obj" and k in st.mem:
            v = g.E.w.load(st, k, 0, 8)
            out.append(v)
            h = st.heap.get(v.args[0]) if v.op == "ref" else None
            for x in (getattr(h, "items", None) or ()):
                out += list(x) if isinstance(x, tuple) else [x]
    return out


def user(root, exts):
    """UserBitGenerator: each slot holds the address of the callback made from the right function, and the instance keeps it alive"""
    g = gens.Gen(root, exts, [c for c in gens.CONFIGS if c[1] == "SFC64"][0])
    E = g.E
    U = E.cls("randomgen.wrapper", "UserBitGenerator")
    L = lambda n: X.glob("user." + n)
    rawbits = [64]

    def raw(E_, q, args, kw, n):
        return X.phi(X.fresh(), X.deps(X.TRUE), X.PYW, 0, (1 << rawbits[0]) - 1) if q == "user.next_raw" else None
    out = []
    some = [dict(), dict(next_64=L("next_64")), dict(next_32=L("next_32")), dict(next_double=L("next_double")),
            dict(next_64=L("next_64"), next_32=L("next_32"), next_double=L("next_double"))]
    cases = [("UserBitGenerator(next_raw, bits=%d%s)" % (b, "".join(", %s" % k for k in kw)), b, kw, None) for b in (64, 32) for kw in some]
    d = U.method("from_ctypes")
    if d is not None:
        cases.append(("UserBitGenerator.from_ctypes", 64, {k: L(k) for k in USER}, d))
    for what, bits, kw, fn in cases:
        rawbits[0] = bits
        if fn is None:
            k2 = dict(kw, state=L("state"))
            if bits == 32:
                k2["bits"] = X.pyint(32)
            e, S = g.run(E.base, lambda: models.construct(E, U, [L("next_raw")], k2, None))
        else:
            e, S = g.run(E.base, lambda: E.call_def(fn, [X.glob(U.qual)] + [L(n) for n in USER + ("state",)], {}, None))
        if S is None:
            out.append(ob("the user's functions are installed", what, False, "construction never succeeds"))
            continue
        i = e.args[0]
        hv = held(g, S, i)
        st = E.w.load(S, g.E.w.objs[i + "._bitgen"].oid, 0, 8)
        out.append(ob("the user's state is passed to the functions", what, True if subterm(st, L("state.value")) else False if X.is_c(st) else None, "state is %s" % X.show(st, 4)))
        for u in USER:
            t = g.slot(S, i, SLOTOF[u])
            inst = "%s: %s" % (what, SLOTOF[u])
            cs = casts(t)
            if len(cs) != 1:
                out.append(ob("the user's functions are installed", inst, None, "the slot holds %s" % X.show(t, 6)))
                continue
            cb = cs[0]
            out.append(ob("the instance keeps the callback alive", inst, any(v is cb for v in hv), "no attribute holds %s" % X.show(cb, 6)))
            gl = [x for x in parts(cb, ("g",)) if x.args[0].startswith("user.")]
            cl = parts(cb, ("closure",))
            if fn is not None or u in kw or u == "next_raw":
                ok = gl == [L(u)] and not cl
                out.append(ob("the user's functions are installed", inst, ok, "the slot holds %s" % X.show(cb, 6)))
            elif gl:
                ok = gl == [L("next_raw")] and not cl and bits == (64 if u == "next_64" else 32 if u == "next_32" else 0)
                out.append(ob("functions not given are derived from next_raw", inst, ok, "the slot holds %s" % X.show(cb, 6)))
            elif len(cl) == 1:
                E.hooks["glob"] = raw
                try:
                    v, s2 = g.run(S, lambda: E.pycall(cl[0], [L("void")], {}, None))
                finally:
                    del E.hooks["glob"]
                iv = interval(v) if s2 is not None else None
                ok = None if iv is None else iv[0] >= 0 and iv[1] < LIMIT[u]
                out.append(ob("values derived from next_raw stay in range", inst, ok, "the value is %s" % (X.show(v, 8) if v is not None else "never returned") +
                              (", between %s and %s" % (iv[0] if iv[0] else 0, iv[1] if iv[1] < 1 << 70 else "more") if iv else "")))
                w = Fraction(LIMIT[u]) - iv[1] if iv else 0
                if iv is not None:
                    full = Fraction(LIMIT[u], 1 << (32 if u == "next_32" else 53 if u == "next_double" else 64))
                    out.append(ob("values derived from next_raw reach the whole range", inst, w <= full and iv[0] == 0, "the largest value is %s below the limit" % float(w)))
            else:
                out.append(ob("functions not given are derived from next_raw", inst, None, "the slot holds %s" % X.show(cb, 6)))
            ty = set(n.rpartition(".")[2] for n in names(cb) if n.startswith("ctypes.c_")) - {"c_void_p"}
            if fn is None:
                out.append(ob("the callback has the slot's type", inst, True if len(ty) == 1 and ty <= set(UTYPE[u]) else False if ty else None, "declared %s" % ", ".join(sorted(ty))))
        for way in ("ctypes", "cffi"):
            r, s1 = read(g, S, e, way)
            if s1 is None or r.op != "nt":
                out.append(ob("the interface hands out the generator's functions and state", what + "." + way, None, "not understood"))
                continue
            bad = []
            cur = c11.table(g, s1, i)
            for f, t in zip(FIELDS, r.args[-len(FIELDS):]):
                if f in INDEX and not subterm(t, cur[INDEX[f]]):
                    bad.append((False, "%s is %s" % (f, X.show(t, 5))))
            out.append(verdict("the interface hands out the generator's functions and state", what + "." + way, bad))
    return out


def work(cfg, root, exts):
    if cfg == "UserBitGenerator":
        return user(root, exts)
    g = gens.Gen(root, exts, cfg)
    E = g.E
    o, S0 = g.construct(seed=False if cfg[0] == "rdrand" else None)
    if S0 is None:
        raise Broken("the constructor of %s always raises" % label(cfg))
    a = o.args[0]
    S, g.mutable = g.invariant(S0, a, "A", jumps=False)
    nm = label(cfg)
    out = []
    out.append(owned_state(g, S, a, nm))
    for s in gens.SLOTS:
        f = g.slot(S, a, s)
        if f.op != "fn":
            out.append(ob("every draw function is installed", "%s: %s" % (nm, s), None if f.op not in ("c",) else False, X.show(f)))
            continue
        r, s1 = g.run(S, lambda: g.draw_value(a, s)) if hasattr(g, "draw_value") else (None, None)
        out.append(ob("every draw function is installed", "%s: %s" % (nm, s), True, ""))
    read_states = S
    for way in ("ctypes", "cffi"):
        r, s1 = read(g, read_states, o, way)
        if s1 is None:
            out.append(ob("the interface is available", "%s.%s" % (nm, way), False, "reading it never succeeds"))
            continue
        out.append(verdict("the interface hands out the generator's functions and state", "%s.%s" % (nm, way), judge(g, s1, a, way, r)))
        r2, s2 = read(g, s1, o, way)
        if s2 is not None:
            out.append(verdict("reading the interface again gives the same functions and state", "%s.%s" % (nm, way), judge(g, s2, a, way, r2)))
            read_states = s2
    # another instance of the class, its interfaces in use, is given this instance's state
    s0, E.base = E.base, S
    try:
        seed = X.leaf("in", ("seed2",), "o", ("in", "seed2", ""))
        o2, st = g.construct(kw={}, seed=False if cfg[0] == "rdrand" else seed)
    finally:
        E.base = s0
    if st is None:
        raise Broken("no second instance of %s" % nm)
    b = o2.args[0]
    g.type_objects(st, b)
    for way in ("ctypes", "cffi"):
        r, st1 = read(g, st, o2, way)
        if st1 is None:
            continue
        st = st1
    d, s1 = g.getstate(st, a)
    if s1 is not None:
        r, s2 = g.setstate(s1, b, d)
        if s2 is not None:
            out.append(owned_state(g, s2, b, nm + ": after assigning a state"))
            for way in ("ctypes", "cffi"):
                r, s3 = read(g, s2, o2, way)
                if s3 is None:
                    continue
                out.append(verdict("the interface follows an assigned state", "%s.%s after state = saved" % (nm, way), judge(g, s3, b, way, r)))
    # a jumped generator's interfaces are its own
    if E.h(o).cls.method("jumped") is not None if E.st is not None else S.heap[a].cls.method("jumped") is not None:
        j, s4 = g.run(read_states, lambda: models.call_method(E, o, "jumped", [], {}, None))
        if s4 is not None and j.op == "ref":
            g.type_objects(s4, j.args[0])
            out.append(owned_state(g, s4, j.args[0], nm + ".jumped()"))
            for way in ("ctypes", "cffi"):
                r, s5 = read(g, s4, j, way)
                if s5 is None:
                    continue
                out.append(verdict("a jumped generator's interface is its own", "%s.jumped().%s" % (nm, way), judge(g, s5, j.args[0], way, r)))
    return out


def tasks(root, exts):
    return ["UserBitGenerator"] + configs(skip=("RDRAND",))


def name(cfg):
    return cfg if isinstance(cfg, str) else label(cfg)


FLOOR = 250
EXPLAIN = ("Abstract interpretation of every generator configuration: the ctypes and cffi properties are interpreted over the typed Cython trees in an arbitrary "
           "reachable state, again after a state saved by another configuration was assigned, and on a jumped copy; the pointers inside the value handed out must be "
           "exactly those of the generator's current table of draw functions and its own storage, with the declared return types.")
ASSUME = ["ctypes.cast and ffi.cast keep the address they are given", "reachable states are those of the constructor and the four draw functions"]
