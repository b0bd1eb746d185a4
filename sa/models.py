"""Models of the Python and numpy operations used by the interpreted Cython code, and the contracts of
the repository's own argument-normalising helpers (listed as trusted in DESIGN.md)."""
from . import term as X
from .term import T
from .prep import Broken
from .cfront import CT
from .pyinterp import HDict, HList, HArr, HInst, HObj, DT, PYW, Z64, Dead

SEEDSEQ = ("numpy.random.SeedSequence", "randomgen.seed_sequence.SeedSequence", "numpy.random.bit_generator.SeedSequence",
           "randomgen._seed_sequence.SeedSequence")
U64 = CT("int", 8)
U64.signed = False
I64 = CT("int", 8)
I64.signed = True


def install(E):
    for k, v in list(globals().items()):
        if k.startswith("m_"):
            setattr(type(E), k[2:], v)
    E.npm = {k[3:]: v for k, v in globals().items() if k.startswith("np_")}
    E.bim = {k[2:]: v for k, v in globals().items() if k.startswith("b_")}
    E.rgm = {"randomgen.common." + k[3:]: v for k, v in globals().items() if k.startswith("rg_")}
    E.hooks["enter"] = enter
    for k, v in list(globals().items()):
        if k.startswith("c_"):
            E.cmodels[k[2:]] = v


# ---------------------------------------------------------------- helpers
def opaque(E, what, args, n, w="o", raises=True):
    """result of an operation that is not modelled: depends on everything reachable from the arguments"""
    E.opaque_calls[what] = E.opaque_calls.get(what, 0) + 1
    if raises:
        E.mayraise(None, n)
    d = frozenset()
    for a in args:
        if isinstance(a, T):
            d = d | E.vdeps(a)
    ts = tuple(a for a in args if isinstance(a, T))
    # identity of the value: same operation on the same immutable arguments gives the same value
    if all(E.h(a) is None or not isinstance(E.h(a), (HArr, HList, HDict)) for a in ts):
        return X.opq("callo", (X.konst(what),) + ts, w)
    return X.phi(X.fresh(), d, w)


def cval(E, t):
    if t.op == "k" and isinstance(t.args[1], bool):
        return int(t.args[1])
    return E.st.getconst(t) if isinstance(t.w, int) else None


def sarg(t):
    return t.args[1] if t.op == "k" and isinstance(t.args[1], str) else None


def clsname(E, t):
    """interpreted class named by a glob term"""
    if t.op != "g":
        return None
    q = t.args[0]
    mod, _, nm = q.rpartition(".")
    if not mod.startswith("randomgen"):
        return None
    try:
        m = E.module(mod)
    except Broken:
        return None
    if nm in m.classes:
        return E.cls(mod, nm)
    return None


# ---------------------------------------------------------------- attribute access
def m_getattr(E, o, name, n):
    if o.op == "phi" and o.args[4]:
        return E.split_alts(o, lambda x: E.getattr(x, name, n))
    if o.op == "g":
        if name in ("__name__", "__qualname__", "__module__") and clsname(E, o) is not None:
            mod, _, nm = o.args[0].rpartition(".")
            return X.konst(mod if name == "__module__" else nm)
        return X.glob(o.args[0] + "." + name) if not o.args[0].startswith("builtins.None") else None
    h = E.h(o)
    if isinstance(h, HInst):
        return inst_getattr(E, o, h, name, n)
    if isinstance(h, HArr):
        if name == "dtype":
            return X.glob("dtype:" + h.dt)
        if name == "size":
            return h.n
        if name == "ndim":
            return X.pyint(h.ndim)
        if name == "shape":
            if h.ndim == 1:
                return X._mk("tup", (h.n,), "o")
            if h.ndim == 0:
                return X._mk("tup", (), "o")
            return X.opq("shape", (o,), "o")
        if name == "itemsize":
            return X.pyint(DT[h.dt][0])
        if name == "T" and h.ndim == 1:
            return o
        return X.opq("arrattr", (o, X.konst(name)), "o")
    if isinstance(h, HObj):
        if h.kind.startswith("nt:") and name in h.val:
            return h.val[name]
        return X.opq("getattr", (h.val if isinstance(h.val, T) else o, X.konst(name)), "o")
    if isinstance(o.w, int):
        if name == "real":
            return o
        return X.opq("bound", (o, X.konst(name)), "o")
    if o is X.NONE:
        E.raise_("AttributeError", n)
    if isinstance(h, (HDict, HList)) or o.op in ("k", "tup"):
        return X.opq("bound", (o, X.konst(name)), "o")
    E.mayraise("AttributeError", n)
    return X.opq("getattr", (o, X.konst(name)), "o")


def inst_getattr(E, o, h, name, n):
    oid = o.args[0]
    if name == "__class__":
        return X.glob(h.cls.qual)
    p = h.cls.prop(name)
    if p is not None and find_attr(h.cls, name) is None:
        g = p.get("__get__")
        if g is None:
            E.raise_("AttributeError", n)
        return E.call_def(g, [o], {}, n)
    m = h.cls.method(name)
    if m is not None:
        return X.opq("bound", (o, X.konst(name)), "o")
    if name in ("seed_seq",):
        name = "_seed_seq"
    if name == "capsule" and (oid + "._bitgen") in E.w.objs:
        return X.opq("capsule", (o,), "o")
    if (oid + "." + name) in E.w.objs:
        ob = E.w.objs[oid + "." + name]
        v = E.load(X.ptr(ob.oid, Z64), ob.extra["ct"], n)
        return E.topy(v, ob.extra["ct"])
    e = find_attr(h.cls, name)
    if e is not None:
        ob = E.attr_obj(oid, name, e.type)
        v = E.load(X.ptr(ob.oid, Z64), ob.extra["ct"], n)
        return E.topy(v, ob.extra["ct"])
    for c in h.cls.mro:
        if name in c.attrs:
            return E.evdefault(c.attrs[name], fake(c), PyObj)
    if name in ("lock", "_seed_seq", "_ctypes", "_cffi", "__dict__"):
        ob = E.attr_obj(oid, name)
        return E.load(X.ptr(ob.oid, Z64), ob.extra["ct"], n)
    E.mayraise("AttributeError", n)
    return X.opq("getattr", (o, X.konst(name)), "o")


class PyObj(object):
    is_pyobject = True


class fake(object):
    def __init__(self, c):
        self._sa_mod, self._sa_cls = c.mod, c


def find_attr(cls, name):
    for c in cls.mro:
        t = getattr(c, "type", None)
        sc = t.scope if t is not None else None
        while sc is not None:
            e = sc.entries.get(name)
            if e is not None and e.is_variable and (not e.is_property or e.visibility in ("readonly", "public")):
                return e
            bt = getattr(sc.parent_type, "base_type", None) if getattr(sc, "parent_type", None) is not None else None
            sc = bt.scope if bt is not None else None
    return None


def m_setattr(E, o, name, v, n):
    if o.op == "phi" and o.args[4]:
        E.split_alts(o, lambda x: E.setattr(x, name, v, n))
        return
    h = E.h(o)
    if isinstance(h, HInst):
        p = h.cls.prop(name)
        if p is not None and find_attr(h.cls, name) is None:
            s = p.get("__set__")
            if s is None:
                E.raise_("AttributeError", n)
            E.call_def(s, [o, v], {}, n)
            return
        e = find_attr(h.cls, name)
        ob = E.attr_obj(o.args[0], name, e.type if e is not None else None)
        c = ob.extra["ct"]
        if c.kind in ("int", "float") and e is not None:
            v = E.pyto(v, e.type, n)
        E.store(X.ptr(ob.oid, Z64), c, v, n)
        return
    if isinstance(h, HArr) and name == "shape":
        return
    E.event("setattr", n, obj=o, name=name)


# ---------------------------------------------------------------- subscripts
def m_getitem(E, b, i, n):
    if b.op == "phi" and b.args[4]:
        return E.split_alts(b, lambda x: E.getitem(x, i, n))
    h = E.h(b)
    if i.op == "slice":
        return E.slice(b, i.args[0], i.args[1], i.args[2], n)
    if isinstance(h, HDict):
        v = h.get(i)
        if v is not None:
            if ("undef", "maybe-unassigned") in X.deps(v):
                E.mayraise("KeyError", n)
            return v
        if i.op == "phi" and i.args[4]:
            return E.split_alts(i, lambda x: E.getitem(b, x, n))
        if h.open is None and i.op in ("k", "c", "g"):
            E.raise_("KeyError", n)
        if h.open is None and h.items and all(a.op in ("k", "c") for a, _ in h.items):
            # unknown key into a constant table
            E.mayraise("KeyError", n)
            r = h.items[0][1]
            from .mem import join_terms
            for k, v in h.items[1:]:
                r = join_terms(r, v, X.deps(i), ("dk", b.tid, i.tid))
            return r
        E.mayraise("KeyError", n)
        return X.phi(X.fresh(), E.vdeps(b) | X.deps(i), "o")
    if isinstance(h, HList) or b.op == "tup":
        its = E.items_of(b)
        c = E.st.getconst(i) if isinstance(i.w, int) else None
        if its is not None and c is not None:
            if not -len(its) <= c < len(its):
                E.raise_("IndexError", n)
            return its[c]
        E.mayraise("IndexError", n)
        return X.phi(X.fresh(), E.vdeps(b) | X.deps(i), "o")
    if isinstance(h, HArr):
        if i.op == "tup":
            if not i.args and h.ndim == 0:
                return E.arr_load(h, X.pyint(0), n)
            if len(i.args) == 1:
                i = i.args[0]
            else:
                return opaque(E, "getitem", (b, i), n)
        if isinstance(i.w, int):
            if h.ndim != 1:
                return opaque(E, "getitem", (b, i), n)
            return E.arr_load(h, i if i.w == PYW else X.zext(i, PYW), n)
        if E.kindof(i) is None and not isinstance(E.h(i), HArr):
            return opaque(E, "getitem", (b, i), n)
        return opaque(E, "getitem", (b, i), n)
    if b.op == "k" and isinstance(b.args[1], str):
        c = E.st.getconst(i) if isinstance(i.w, int) else None
        if c is not None:
            try:
                return X.konst(b.args[1][c])
            except IndexError:
                E.raise_("IndexError", n)
        return X.opq("strop", (b, i), "o")
    if b is X.NONE or isinstance(b.w, int) and b.w == PYW:
        E.raise_("TypeError", n)
    if isinstance(h, HInst):
        m = h.cls.method("__getitem__")
        if m is not None:
            return E.call_def(m, [b, i], {}, n)
    E.mayraise("KeyError", n)
    E.mayraise("TypeError", n)
    return X.opq("getitem", (b, i), "o")


def m_setitem(E, b, i, v, n):
    if b.op == "phi" and b.args[4]:
        E.split_alts(b, lambda x: E.setitem(x, i, v, n))
        return
    h = E.h(b)
    hk = E.hooks.get("mutate")
    if hk:
        hk(E, b, n)
    if isinstance(h, HDict):
        if i.op in ("k", "c", "g", "tup"):
            E.seth(b, h.set(i, v))
        else:
            E.seth(b, HDict(h.items, (h.open or frozenset()) | X.deps(i) | E.vdeps(v)))
        return
    if isinstance(h, HList):
        c = E.st.getconst(i) if isinstance(i.w, int) else None
        if h.items is not None and c is not None:
            if not -len(h.items) <= c < len(h.items):
                E.raise_("IndexError", n)
            its = list(h.items)
            its[c] = v
            E.seth(b, HList(its))
        else:
            E.seth(b, HList(None, h.deps() | E.vdeps(v) | X.deps(i), h.n))
        return
    if isinstance(h, HArr):
        sz = DT.get(h.dt, (8, 3))[0]
        if i.op == "tup" and len(i.args) == 1:
            i = i.args[0]
        if isinstance(i.w, int) and h.ndim == 1:
            i = i if i.w == PYW else X.zext(i, PYW)
            hv = E.h(v)
            if isinstance(hv, HArr):
                v = E.arr_load(hv, X.pyint(0), n)
            E.arr_store(h, i, v, n)
            return
        cn = E.st.getconst(h.n)
        if i.op == "slice" and i.args[2] is X.NONE and cn is not None and h.ndim == 1:
            lo = 0 if i.args[0] is X.NONE else E.st.getconst(i.args[0])
            hi = cn if i.args[1] is X.NONE else E.st.getconst(i.args[1])
            if lo is not None and hi is not None:
                lo, hi, _ = slice(lo, hi).indices(cn)
                its = E.items_of(v)
                if its is not None and len(its) == 1:
                    its = its * (hi - lo)
                if its is None and isinstance(v.w, int):
                    its = [v] * (hi - lo)
                if its is not None and len(its) == hi - lo:
                    for k, x in enumerate(its):
                        E.arr_store(h, X.pyint(lo + k), x, n)
                    return
                E.w.smear(E.st, h.oid, h.off + lo * sz, h.off + hi * sz, E.vdeps(v))
                return
        E.w.smear(E.st, h.oid, h.off, h.off + ((cn * sz) if cn is not None else (1 << 40)), E.vdeps(v) | E.vdeps(i))
        return
    if b is X.NONE or isinstance(b.w, int):
        E.raise_("TypeError", n)
    E.mayraise("TypeError", n)
    E.event("setitem", n, obj=b)


# ---------------------------------------------------------------- calls
def m_pycall(E, fv, args, kw, n):
    if isinstance(fv, tuple):
        return call_method(E, fv[1], fv[2], args, kw, n)
    if fv.op == "phi" and fv.args[4]:
        return E.split_alts(fv, lambda f: E.pycall(f, args, kw, n))
    if fv.op == "bound":
        return call_method(E, fv.args[1], fv.args[2].args[1], args, kw, n)
    if fv.op == "g":
        return call_glob(E, fv.args[0], args, kw, n)
    if fv.op == "closure":
        return E.call_closure(fv, args, kw, n)
    h = E.h(fv)
    if isinstance(h, HObj) and h.kind == "namedtuple":
        return X.opq("nt", tuple(args), "o")
    return opaque(E, "call", [fv] + list(args) + list(kw.values()), n)


def call_glob(E, q, args, kw, n):
    hk = E.hooks.get("glob")
    if hk:
        r = hk(E, q, args, kw, n)
        if r is not None:
            return r
    # dtype conversions written as calls of module globals that alias numpy names
    if q.startswith("builtins."):
        f = E.bim.get(q[9:])
        if f is not None:
            return f(E, args, kw, n)
        import builtins
        b = getattr(builtins, q[9:], None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return X.opq("exc", (X.konst(q[9:]),), "o")
        return opaque(E, q, list(args) + list(kw.values()), n)
    if q.startswith("numpy."):
        f = E.npm.get(q[6:].replace(".", "_"))
        if q in SEEDSEQ:
            E.mayraise("TypeError", n)
            a = args[0] if args else kw.get("entropy", X.NONE)
            if a is X.NONE and not kw:
                E.event("os-entropy", n)
                return X.leaf("entropy", (X.fresh(),), "o", ("entropy", "SeedSequence()"))
            hk = E.hooks.get("seedseq")
            if hk:
                hk(E, a, n)
            d = E.vdeps(a)
            if E.h(a) is not None:
                return X.opq("SeedSequence", (X.phi(X.fresh(), d, "o"),), "o")
            return X.opq("SeedSequence", (a,), "o")
        if f is not None:
            return f(E, args, kw, n)
        return opaque(E, q, list(args) + list(kw.values()), n)
    if q == "warnings.warn":
        E.mayraise("Warning", n)
        return X.NONE
    if q in ("copy.deepcopy", "copy.copy"):
        return deepcopy(E, args[0], n)
    if q == "collections.namedtuple":
        return E.newref("obj", HObj("namedtuple", X.konst("namedtuple")))
    if q in ("time.time", "os.urandom", "secrets.randbits", "time.perf_counter", "os.getpid", "time.monotonic", "time.time_ns"):
        E.event("os-entropy", n)
        return X.leaf("entropy", (X.fresh(),), "o", ("entropy", q))
    if q.startswith("randomgen"):
        mod, _, nm = q.rpartition(".")
        if q in SEEDSEQ:
            return call_glob(E, SEEDSEQ[0], args, kw, n)
        m = None
        try:
            m = E.module(mod)
        except (Broken, OSError):
            m = None
        if m is not None:
            if nm in m.classes:
                return construct(E, E.cls(mod, nm), args, kw, n)
            d = m.funcs.get(nm)
            if d is not None:
                return call_fn(E, d, args, kw, n)
        elif mod.count(".") >= 1:
            # Class.method
            m2, _, c = mod.rpartition(".")
            try:
                mm = E.module(m2)
            except (Broken, OSError):
                mm = None
            if mm is not None and c in mm.classes and args:
                cl = E.cls(m2, c)
                if nm == "__init__" and m2 == "numpy":
                    pass
                d = cl.method(nm)
                if d is not None:
                    return call_fn(E, d, args, kw, n)
        if m is None and q in E.rgm:
            return E.rgm[q](E, args, n)
    return opaque(E, q, list(args) + list(kw.values()), n)


def call_fn(E, d, args, kw, n):
    if type(d).__name__ == "CFuncDefNode":
        vals = []
        at = d.type.args
        for i, a in enumerate(at):
            if i < len(args):
                v = args[i]
            elif a.name in kw:
                v = kw[a.name]
            else:
                break
            vals.append(E.pyto(v, a.type, n))
        r = E.call_cdef(d, vals, n)
        rt = d.type.return_type
        if not rt.is_pyobject and not rt.is_void:
            r = E.topy(r, E.ct(rt))
        return r
    return E.call_def(d, args, kw, n)


def construct(E, cls, args, kw, n):
    hk = E.hooks.get("construct")
    if hk:
        r = hk(E, cls, args, kw, n)
        if r is not None:
            return r
    o = E.new_instance(cls)
    fresh_bitgen(E, o)
    ci = cls.method("__cinit__")
    if ci is not None:
        E.call_def(ci, [o] + (list(args) if len(ci.args) > 1 or ci.star_arg is not None else []), {}, n)
    i = cls.method("__init__")
    if i is not None:
        E.call_def(i, [o] + list(args), kw, n)
    return o


def fresh_bitgen(E, o):
    """Cython zero-initialises extension instances; every C attribute gets its memory object"""
    h = E.h(o)
    seen = set()
    for c in h.cls.mro:
        t = getattr(c, "type", None)
        while t is not None and t.scope is not None:
            for e in t.scope.var_entries:
                if e.name not in seen and not e.is_property:
                    seen.add(e.name)
                    E.attr_obj(o.args[0], e.name, e.type)
            t = getattr(t, "base_type", None)
    return o


def c_PyCapsule_IsValid(E, vals, n, ft):
    return X.const(1, 32) if vals[0].op == "capsule" else X.phi(X.fresh(), X.deps(vals[0]), 32)


def c_PyCapsule_GetPointer(E, vals, n, ft):
    if vals[0].op == "capsule":
        return X.ptr(E.w.objs[vals[0].args[1].args[0] + "._bitgen"].oid, Z64)
    raise Broken("capsule of %s" % X.show(vals[0]))


def np_random_Generator(E, args, kw, n):
    """numpy's own generator copies the table of functions when it is made"""
    b = args[0] if args else kw.get("bit_generator", X.NONE)
    ob = E.w.objs.get((b.args[0] if b.op == "ref" else "") + "._bitgen")
    if ob is None:
        return opaque(E, "numpy.random.Generator", list(args) + list(kw.values()), n)
    return X.opq("npgen", (b,) + tuple(E.w.load(E.st, ob.oid, 8 * i, 8) for i in range(5)), "o")


def base_init(E, o, args, kw, n):
    """numpy.random.BitGenerator.__init__"""
    seed = args[0] if args else kw.get("seed", X.NONE)
    iid = o.args[0]

    def seta(nm, v):
        h = E.h(o)
        e = find_attr(h.cls, nm)
        ob = E.attr_obj(iid, nm, e.type if e is not None else None)
        E.store(X.ptr(ob.oid, Z64), ob.extra["ct"], v, n)
    E.w.cnt += 1
    seta("lock", E.newref("obj", HObj("lock", X.konst("lock%d" % E.w.cnt))))
    seta("_ctypes", X.NONE)
    seta("_cffi", X.NONE)
    c = is_seedseq(E, seed, n)
    if c is X.B1:
        s = seed
    elif c is X.B0:
        s = call_glob(E, SEEDSEQ[0], [seed], {}, n)
    else:
        s = E.split(c, lambda: seed, lambda: call_glob(E, SEEDSEQ[0], [seed], {}, n))
    seta("_seed_seq", s)
    return X.NONE


def is_seedseq(E, v, n):
    if v.op == "phi" and v.args[4]:
        r = [is_seedseq(E, x, n) for x in v.args[4]]
        if all(x is r[0] for x in r):
            return r[0]
    if v.op in ("SeedSequence", "deepcopy") or v.op == "in" and X.deps(v) and any(d[0] == "entropy" for d in X.deps(v)):
        if v.op == "deepcopy" and v.args[1].op != "SeedSequence":
            return is_seedseq(E, v.args[1], n)
        return X.B1
    k = E.kindof(v)
    if k is not None and not k.startswith("obj"):
        return X.B0
    if any(d[0] == "entropy" for d in X.deps(v)):
        return X.B1
    if any(d == ("in", "seed_seq", "") or d[:2] == ("seedseq", "state") for d in X.deps(v)) and v.op not in ("getitem", "getattr", "callo"):
        return X.B1
    return X.opq("isseedseq", (v,), 1)


def deepcopy(E, v, n):
    h = E.h(v)
    if isinstance(h, HArr):
        return copy_arr(E, h)
    if isinstance(h, HDict):
        return E.newref("dict", HDict([(k, deepcopy(E, x, n)) for k, x in h.items], h.open))
    if isinstance(h, HList):
        return E.newref("list", HList([deepcopy(E, x, n) for x in h.items]) if h.items is not None else h)
    if isinstance(v.w, int) or v.op in ("k", "g", "fc"):
        return v
    if v.op == "phi" and v.args[4]:
        return E.split_alts(v, lambda x: deepcopy(E, x, n))
    return X.opq("deepcopy", (v,), "o")


def copy_arr(E, h, dt=None):
    dt = dt or h.dt
    r = E.new_array(dt, h.n, "zero", "array copy", h.ndim)
    hr = E.h(r)
    fill_from(E, hr, h)
    return r


def fill_from(E, hr, h):
    """elementwise converted copy of h into the fresh array hr"""
    cn = E.st.getconst(h.n)
    a, b = DT.get(h.dt, (8, 3)), DT.get(hr.dt, (8, 3))
    if cn is not None and cn <= 1500 and h.dt == hr.dt and a[1] in (2, 3) and X.is_c(X.pyint(0) if isinstance(h.off, int) else h.off):
        ho = h.off if isinstance(h.off, int) else X.cval(h.off)
        for i in range(cn):
            E.w.store(E.st, hr.oid, hr.off + i * b[0], b[0], E.w.load(E.st, h.oid, ho + i * a[0], a[0]))
        return
    if cn is not None and cn <= 1500 and a[1] < 2 and b[1] < 2:
        for i in range(cn):
            t = X.trunc(E.arr_load(h, X.pyint(i)), 8 * b[0])
            E.w.store(E.st, hr.oid, hr.off + i * b[0], b[0], t)
        return
    if cn is not None and cn <= 1500 and a[1] == 3 and b[1] < 2:
        c = E.arr_elem_ct(hr)
        for i in range(cn):
            E.w.store(E.st, hr.oid, hr.off + i * b[0], b[0], E.toint(E.arr_load(h, X.pyint(i)), c))
        return
    d = E.buf_deps(h)
    o = E.w.objs[hr.oid]
    E.w.smear(E.st, hr.oid, 0, o.size if o.size is not None else 1 << 40, d)


def call_method(E, o, name, args, kw, n):
    if o.op == "phi" and o.args[4]:
        return E.split_alts(o, lambda x: call_method(E, x, name, args, kw, n))
    if o.op == "g":
        c = clsname(E, o)
        if c is not None:
            m = c.method(name)
            if m is not None and args:
                return call_fn(E, m, args, kw, n)
            if name == "__init__" and args and isinstance(E.h(args[0]), HInst):
                return base_init(E, args[0], args[1:], kw, n)
        if o.args[0].startswith("super:"):
            return call_super(E, o, name, args, kw, n)
        return call_glob(E, o.args[0] + "." + name, args, kw, n)
    if o.op == "super":
        return call_super(E, o, name, args, kw, n)
    h = E.h(o)
    if isinstance(h, HInst):
        m = h.cls.method(name)
        if m is not None:
            return call_fn(E, m, [o] + list(args), kw, n)
        a = E.getattr(o, name, n)
        if a.op == "bound" and a.args[1] is o:
            return opaque(E, "method " + name, [o] + list(args) + list(kw.values()), n)
        return E.pycall(a, args, kw, n)
    if isinstance(h, HDict):
        return dict_method(E, o, h, name, args, kw, n)
    if isinstance(h, HList):
        return list_method(E, o, h, name, args, kw, n)
    if isinstance(h, HArr):
        return arr_method(E, o, h, name, args, kw, n)
    if o.op == "k" and isinstance(o.args[1], str) or E.kindof(o) == "str":
        return str_method(E, o, name, args, kw, n)
    if o.op == "tup" and name in ("count", "index"):
        return opaque(E, "tuple." + name, [o] + list(args), n, PYW)
    if isinstance(o.w, int) and o.w == PYW:
        if name in ("bit_length",):
            return X.opq("bitlen", (o,), PYW, 0, PYW)
        if name in ("astype", "squeeze", "item"):
            return o
        E.mayraise("AttributeError", n)
        return opaque(E, "int." + name, [o] + list(args), n)
    if o is X.NONE:
        E.raise_("AttributeError", n)
    if name == "generate_state" and o.op != "fc":
        return generate_state(E, o, args, kw, n)
    if isinstance(h, HObj) and h.kind == "lock":
        hk = E.hooks.get("lock")
        if hk:
            hk(E, o, name, n)
        return X.NONE
    if name == "lower":
        E.mayraise("AttributeError", n)
        return X.opq("strop", (o, X.konst("lower")), "o")
    E.event("opaque-method", n, term=X.show(o), name=name)
    return opaque(E, "." + name, [o] + list(args) + list(kw.values()), n)


def generate_state(E, o, args, kw, n):
    nw = args[0] if args else kw.get("n_words")
    dt = args[1] if len(args) > 1 else kw.get("dtype", X.glob("numpy.uint32"))
    name = E.dtname(dt)
    if name not in ("uint32", "uint64"):
        E.mayraise("ValueError", n)
        return opaque(E, "generate_state", [o, nw, dt], n)
    E.mayraise(None, n)
    c = cval(E, nw)
    r = E.new_array(name, nw if c is None else X.pyint(c), "zero", "seed words")
    h = E.h(r)
    sz = DT[name][0]
    if c is not None and c <= 5000:
        for i in range(c):
            E.w.store(E.st, h.oid, i * sz, sz, X.opq("seedword", (o, X.pyint(c), X.pyint(sz), X.pyint(i)), 8 * sz))
    else:
        E.w.smear(E.st, h.oid, 0, 1 << 40, X.deps(o) | X.deps(nw))
    hk = E.hooks.get("generate_state")
    if hk:
        hk(E, o, n)
    return r


def call_super(E, o, name, args, kw, n):
    selfv, cls = o.args[0], o.args[1].args[1]
    h = E.h(selfv)
    names = [c.name for c in h.cls.mro]
    k = names.index(cls) if cls in names else -1
    for c in h.cls.mro[k + 1:]:
        if name in c.methods:
            return call_fn(E, c.methods[name], [selfv] + list(args), kw, n)
    if name == "__init__":
        return base_init(E, selfv, args, kw, n)
    return opaque(E, "super." + name, [selfv] + list(args), n)


def dict_method(E, o, h, name, args, kw, n):
    if name == "get":
        k = args[0]
        d = args[1] if len(args) > 1 else kw.get("default", X.NONE)
        v = h.get(k)
        if v is not None:
            if ("undef", "maybe-unassigned") in X.deps(v):
                return X.phi(X.fresh(), X.deps(v) | X.deps(d), "o")
            return v
        if h.open is None and k.op in ("k", "c", "g"):
            return d
        return X.phi(X.fresh(), E.vdeps(o) | X.deps(d) | X.deps(k), "o")
    if name in ("keys", "values", "items"):
        if h.open is None:
            its = [X._mk("tup", (k, v), "o") if name == "items" else k if name == "keys" else v for k, v in h.items]
            return E.newref("list", HList(its))
        return E.newref("list", HList(None, E.vdeps(o), X.phi(X.fresh(), E.vdeps(o), PYW, 0, 1 << 40)))
    if name == "copy":
        return E.newref("dict", HDict(h.items, h.open))
    if name == "update":
        hk = E.hooks.get("mutate")
        if hk:
            hk(E, o, n)
        d = h
        if args:
            d = E.merge_dict(d, args[0], n)
        for k, v in kw.items():
            d = d.set(X.konst(k), v)
        E.seth(o, d)
        return X.NONE
    if name in ("pop", "setdefault", "clear", "popitem"):
        hk = E.hooks.get("mutate")
        if hk:
            hk(E, o, n)
        if name == "pop":
            k = args[0]
            v = h.get(k)
            if v is not None:
                E.seth(o, HDict([x for x in h.items if x[0] is not k], h.open))
                return v
            if h.open is None and k.op in ("k", "c", "g"):
                if len(args) > 1:
                    return args[1]
                E.raise_("KeyError", n)
        if name == "setdefault":
            k = args[0]
            v = h.get(k)
            if v is not None:
                return v
            d = args[1] if len(args) > 1 else X.NONE
            E.seth(o, h.set(k, d))
            return d
        dd = E.vdeps(o)
        E.seth(o, HDict((), dd))
        return X.phi(X.fresh(), dd, "o")
    return opaque(E, "dict." + name, [o] + list(args), n)


def list_method(E, o, h, name, args, kw, n):
    if name == "append":
        if h.items is not None:
            E.seth(o, HList(h.items + (args[0],)))
        else:
            E.seth(o, HList(None, h.open | E.vdeps(args[0]), X.add(h.n, X.pyint(1))))
        return X.NONE
    if name == "extend":
        its = E.items_of(args[0])
        if h.items is not None and its is not None:
            E.seth(o, HList(h.items + tuple(its)))
        else:
            d = h.deps() | E.vdeps(args[0])
            E.seth(o, HList(None, d, X.phi(X.fresh(), d, PYW, 0, 1 << 40)))
        return X.NONE
    if name == "copy":
        return E.newref("list", h)
    d = E.vdeps(o)
    for a in args:
        d = d | E.vdeps(a)
    if name in ("sort", "reverse", "insert", "pop", "remove", "clear"):
        E.seth(o, HList(None, d, X.phi(X.fresh(), d, PYW, 0, 1 << 40)))
        return X.phi(X.fresh(), d, "o") if name == "pop" else X.NONE
    return opaque(E, "list." + name, [o] + list(args), n)


def str_method(E, o, name, args, kw, n):
    if o.op == "k" and name in ("lower", "upper", "strip", "title", "replace", "startswith", "endswith", "join", "split"):
        ks = [a.args[1] if a.op == "k" else None for a in args]
        if all(isinstance(k, str) for k in ks) and not kw and name != "join":
            r = getattr(o.args[1], name)(*ks)
            if isinstance(r, list):
                return E.newref("list", HList([X.konst(x) for x in r]))
            return X.konst(r)
    if name in ("startswith", "endswith"):
        return X.opq("truth", (X.opq("strop", (o,) + tuple(args), "o"),), PYW, 0, 1)
    if name == "split":
        d = X.deps(o)
        return E.newref("list", HList(None, d, X.phi(X.fresh(), d, PYW, 0, 1 << 40)))
    if name == "join":
        return X.phi(X.fresh(), X.deps(o) | E.vdeps(args[0]), "o")
    ts = tuple(a for a in list(args) + list(kw.values()))
    d = frozenset()
    for a in ts:
        d = d | E.vdeps(a)
    return X.opq("strop", (o, X.konst(name), X.phi(X.fresh(), d, "o")), "o")


def arr_method(E, o, h, name, args, kw, n):
    if name == "view" and args:
        dt = E.dtname(args[0])
        if dt is None:
            return opaque(E, "array.view", [o] + list(args), n)
        a, b = DT[h.dt][0], DT[dt][0]
        if a == b:
            nn = h.n
        elif a > b:
            nn = X.mul(h.n, X.pyint(a // b))
        else:
            c = E.st.getconst(h.n)
            if c is not None and c * a % b:
                E.raise_("ValueError", n)
            if c is None:
                E.mayraise("ValueError", n)
            nn = X.pyint(c * a // b) if c is not None else X.udiv(h.n, X.pyint(b // a))
        return E.newref("arr", HArr(dt, nn, h.oid, h.off, h.ndim, h.contig, h.src))
    if name == "astype":
        dt = E.dtname(args[0] if args else kw.get("dtype"))
        if dt is None:
            return opaque(E, "array.astype", [o] + list(args), n)
        cp = kw.get("copy")
        if cp is not None and cp is X.FALSE and dt == h.dt:
            return o
        return copy_arr(E, h, dt)
    if name == "copy":
        return copy_arr(E, h)
    if name == "tolist":
        its = E.items_of(o)
        if its is not None:
            return E.newref("list", HList(its))
        d = E.buf_deps(h)
        return E.newref("list", HList(None, d, h.n))
    if name in ("squeeze", "ravel", "flatten", "reshape"):
        if name == "squeeze" and h.ndim == 1 and E.st.getconst(h.n) is not None and E.st.getconst(h.n) != 1:
            return o
        if name in ("ravel",) and h.ndim == 1:
            return o
        if name == "flatten" and h.ndim == 1:
            return copy_arr(E, h)
        if name == "squeeze" and E.st.getconst(h.n) == 1:
            return E.newref("arr", HArr(h.dt, h.n, h.oid, h.off, 0, h.contig, h.src))
        return E.newref("arr", HArr(h.dt, h.n, h.oid, h.off, -1, h.contig, h.src))
    if name == "byteswap":
        r = copy_arr(E, h)
        hr = E.h(r)
        o2 = E.w.objs[hr.oid]
        E.w.smear(E.st, hr.oid, 0, o2.size or 1 << 40, E.buf_deps(h))
        return r
    if name == "sum":
        return X.phi(X.fresh(), E.buf_deps(h), PYW)
    if name == "fill":
        m_setitem(E, o, X._mk("slice", (X.NONE, X.NONE, X.NONE), "o"), args[0], n)
        return X.NONE
    if name in ("sort", "partition", "resize", "setfield", "put", "itemset"):
        hk = E.hooks.get("mutate")
        if hk:
            hk(E, o, n)
        ob = E.w.objs[h.oid]
        E.w.smear(E.st, h.oid, 0, ob.size or 1 << 40, E.buf_deps(h))
        return X.NONE
    if name == "item":
        return E.arr_load(h, args[0] if args else X.pyint(0), n)
    if name in ("any", "all"):
        return X.opq("truth", (X.phi(X.fresh(), E.buf_deps(h), "o"),), PYW, 0, 1)
    return opaque(E, "array." + name, [o] + list(args) + list(kw.values()), n)


# ---------------------------------------------------------------- builtins
def b_isinstance(E, args, kw, n):
    return X.zext(isinst(E, args[0], args[1], n), PYW)


def isinst(E, v, ty, n):
    if ty.op == "tup":
        r = X.B0
        for t in ty.args:
            r = X.or_(r, isinst(E, v, t, n))
        return r
    h = E.h(ty)
    if isinstance(h, HList) and h.items is not None:
        r = X.B0
        for t in h.items:
            r = X.or_(r, isinst(E, v, t, n))
        return r
    if v.op == "phi" and v.args[4]:
        rs = [isinst(E, x, ty, n) for x in v.args[4]]
        if all(r is rs[0] for r in rs):
            return rs[0]
        return X.opq("isinst", (v, ty), 1)
    q = ty.args[0] if ty.op == "g" else None
    if q is None:
        return X.opq("isinst", (v, ty), 1)
    k = E.kindof(v)
    if "ISeedSequence" in q or "SeedSequence" in q and "Seedless" not in q:
        return is_seedseq(E, v, n)
    K = {"builtins.dict": "dict", "builtins.tuple": "tuple", "builtins.list": "list", "builtins.str": "str", "builtins.bool": "bool",
         "builtins.int": "int", "builtins.float": "float", "numpy.ndarray": "array", "numpy.integer": "npint", "numpy.number": "npnum",
         "numpy.floating": "npflt", "builtins.bytes": "bytes", "numbers.Integral": "int", "builtins.set": "set"}
    if q in K:
        w = K[q]
        if k is None:
            if v.op == "pyint" and w == "int":
                return X.B1
            return X.opq("isinst", (v, ty), 1)
        if w == "int" and k == "bool":
            return X.B1
        if w in ("npint", "npnum", "npflt"):
            if k in ("int", "float"):
                return X.B0
            return X.B0 if k in ("dict", "tuple", "list", "str", "none", "array", "bool", "inst") else X.opq("isinst", (v, ty), 1)
        return X.B1 if k == w else X.B0
    h = E.h(v)
    if isinstance(h, HInst):
        c = clsname(E, ty)
        if c is not None:
            return X.B1 if c.info in h.cls.mro else X.B0
        if q.endswith("BitGenerator"):
            return X.B1
        return X.B0
    if k is not None and not k.startswith("obj") and q.startswith(("randomgen", "numpy.random")):
        return X.B0
    return X.opq("isinst", (v, ty), 1)


def b_type(E, args, kw, n):
    v = args[0]
    h = E.h(v)
    if isinstance(h, HInst):
        return X.glob(h.cls.qual)
    k = E.kindof(v)
    if k in ("dict", "tuple", "list", "str", "bool", "int", "float"):
        return X.glob("builtins." + k)
    return X.opq("type", (v,), "o")


def b_super(E, args, kw, n):
    fr = E.fr
    selfv = None
    a0 = fr.fn.args[0].name
    selfv = E.st.env[(fr.id, a0)]
    return X._mk("super", (selfv, X.konst(fr.cls.name)), "o")


def b_len(E, args, kw, n):
    v = args[0]
    its = E.items_of(v)
    if its is not None:
        return X.pyint(len(its))
    h = E.h(v)
    if isinstance(h, HArr):
        if h.ndim == 0:
            E.raise_("TypeError", n)
        return h.n if h.ndim == 1 else X.opq("len", (v,), PYW, 0, 1 << 60)
    if isinstance(h, HList):
        return h.n
    if v is X.NONE or isinstance(v.w, int):
        E.raise_("TypeError", n)
    E.mayraise("TypeError", n)
    return X.opq("len", (v,), PYW, 0, 1 << 60)


def b_int(E, args, kw, n):
    if not args:
        return X.pyint(0)
    v = args[0]
    if v.op == "phi" and v.args[4]:
        return E.split_alts(v, lambda x: b_int(E, [x] + list(args[1:]), kw, n))
    if isinstance(v.w, int):
        return v if v.w == PYW else X.zext(v, PYW)
    if v.op == "k" and isinstance(v.args[1], bool):
        return X.pyint(int(v.args[1]))
    if v.op == "fc":
        return X.pyint(int(v.args[0]))
    h = E.h(v)
    if isinstance(h, HArr):
        if E.st.getconst(h.n) not in (1, None):
            E.raise_("TypeError", n)
        return E.asint(E.arr_load(h, X.pyint(0), n))
    if v is X.NONE:
        E.raise_("TypeError", n)
    E.mayraise("TypeError", n)
    E.mayraise("ValueError", n)
    return E.asint(v)


def b_float(E, args, kw, n):
    if args and args[0].w in ("f64",):
        return args[0]
    if args and X.is_c(args[0]):
        return X.fconst(float(X.sval(args[0])))
    E.mayraise("TypeError", n)
    return X.opq("pyfloat", tuple(args), "f64")


def b_bool(E, args, kw, n):
    return X.zext(E.truth(args[0]), PYW) if args else X.FALSE


def b_str(E, args, kw, n):
    if not args:
        return X.konst("")
    v = args[0]
    if v.op == "k":
        return X.konst(str(v.args[1]))
    c = cval(E, v)
    if c is not None:
        return X.konst(str(c))
    return X.opq("strop", (X.konst("str"), v), "o")


b_repr = b_str


def b_max(E, args, kw, n):
    return minmax(E, args, kw, n, "sgt")


def b_min(E, args, kw, n):
    return minmax(E, args, kw, n, "slt")


def minmax(E, args, kw, n, p):
    if len(args) == 1:
        its = E.items_of(args[0])
        if its is None:
            return opaque(E, "max", args, n)
        args = its
    r = args[0]
    for a in args[1:]:
        if isinstance(r.w, int) and isinstance(a.w, int):
            r0, a0 = r, a
            r = E.split(X.cmp_(p, E.asint(a0), E.asint(r0)), lambda: a0, lambda: r0)
        else:
            return opaque(E, "max", args, n)
    return r


def b_abs(E, args, kw, n):
    v = args[0]
    if isinstance(v.w, int):
        lo, hi = E.st.rng(v)
        if lo >= 0:
            return v
        return X.opq("abs", (v,), PYW, 0, max(abs(v.lo), abs(v.hi)))
    return opaque(E, "abs", args, n)


def b_tuple(E, args, kw, n):
    if not args:
        return X._mk("tup", (), "o")
    its = E.items_of(args[0])
    if its is not None:
        return X._mk("tup", tuple(its), "o")
    return opaque(E, "tuple", args, n)


def b_list(E, args, kw, n):
    if not args:
        return E.newref("list", HList())
    its = E.items_of(args[0])
    if its is not None:
        return E.newref("list", HList(its))
    d = E.vdeps(args[0])
    return E.newref("list", HList(None, d, X.phi(X.fresh(), d, PYW, 0, 1 << 60)))


def b_dict(E, args, kw, n):
    d = HDict()
    if args:
        if not isinstance(E.h(args[0]), HDict):
            return opaque(E, "dict", args, n)
        d = E.merge_dict(d, args[0], n)
    for k, v in kw.items():
        d = d.set(X.konst(k), v)
    return E.newref("dict", d)


def b_range(E, args, kw, n):
    cs = [cval(E, a) for a in args]
    if None not in cs and len(range(*cs)) < 5000:
        return E.newref("list", HList([X.pyint(i) for i in range(*cs)]))
    return opaque(E, "range", args, n)


def b_zip(E, args, kw, n):
    its = [E.items_of(a) for a in args]
    if None not in its:
        return E.newref("list", HList([X._mk("tup", tuple(x), "o") for x in zip(*its)]))
    return opaque(E, "zip", args, n)


def b_enumerate(E, args, kw, n):
    its = E.items_of(args[0])
    if its is not None:
        return E.newref("list", HList([X._mk("tup", (X.pyint(i), x), "o") for i, x in enumerate(its)]))
    return opaque(E, "enumerate", args, n)


def b_hasattr(E, args, kw, n):
    h = E.h(args[0])
    nm = sarg(args[1])
    if isinstance(h, HInst) and nm:
        if h.cls.method(nm) is not None or h.cls.prop(nm) is not None or find_attr(h.cls, nm) is not None:
            return X.TRUE
        if nm == "seed_seq":
            return X.TRUE
        return X.FALSE
    if args[0].op == "k" and nm:
        return X.TRUE if hasattr(args[0].args[1], nm) else X.FALSE
    if isinstance(args[0].w, int) and args[0].w == PYW and nm:
        return X.TRUE if hasattr(0, nm) else X.FALSE
    return X.opq("hasattr", tuple(args), PYW, 0, 1)


def b_getattr(E, args, kw, n):
    nm = sarg(args[1])
    if nm is None:
        return opaque(E, "getattr", args, n)
    return E.getattr(args[0], nm, n)


def b_setattr(E, args, kw, n):
    nm = sarg(args[1])
    if nm is None:
        raise Broken("setattr with an unknown name")
    E.setattr(args[0], nm, args[2], n)
    return X.NONE


def b_sum(E, args, kw, n):
    its = E.items_of(args[0])
    if its is not None:
        r = args[1] if len(args) > 1 else X.pyint(0)
        for x in its:
            r = E.pybinop("+", r, x, n)
        return r
    return opaque(E, "sum", args, n)


def b_print(E, args, kw, n):
    return X.NONE


def b_divmod(E, args, kw, n):
    return X._mk("tup", (E.pybinop("//", args[0], args[1], n), E.pybinop("%", args[0], args[1], n)), "o")


def b_pow(E, args, kw, n):
    if len(args) == 2:
        return E.pybinop("**", args[0], args[1], n)
    return opaque(E, "pow", args, n, PYW)


def b_property(E, args, kw, n):
    return X.opq("property", tuple(args), "o")


# ---------------------------------------------------------------- numpy
def shape_len(E, s, n):
    """(length term, ndim) of a shape argument"""
    if isinstance(s.w, int):
        return (s if s.w == PYW else X.zext(s, PYW)), 1
    if s.op == "tup":
        if len(s.args) == 1:
            return E.asint(s.args[0]), 1
        r = X.pyint(1)
        for a in s.args:
            r = E.pybinop("*", r, a, n)
        return r, len(s.args)
    return X.opq("numel", (s,), PYW, 0, 1 << 60), -1


def mkarr(E, args, kw, n, dflt):
    if args[0].op == "phi" and args[0].args[4]:
        return E.split_alts(args[0], lambda x: mkarr(E, [x] + list(args[1:]), kw, n, dflt))
    dt = args[1] if len(args) > 1 else kw.get("dtype")
    if dt is not None and dt.op == "phi" and dt.args[4]:
        return E.split_alts(dt, lambda x: mkarr(E, [args[0], x], {}, n, dflt))
    nm = E.dtname(dt) if dt is not None else "float64"
    ln, nd = shape_len(E, args[0], n)
    if E.st.getconst(ln) is None:
        E.mayraise("ValueError", n)
        E.mayraise("MemoryError", n)
    if nm is None:
        nm = "object"
    r = E.new_array(nm, ln, dflt, "numpy array", nd)
    return r


def np_empty(E, args, kw, n):
    return mkarr(E, args, kw, n, "undef")


def np_zeros(E, args, kw, n):
    return mkarr(E, args, kw, n, "zero")


def np_ones(E, args, kw, n):
    r = mkarr(E, args, kw, n, "undef")
    h = E.h(r)
    E.w.smear(E.st, h.oid, 0, 1 << 40, frozenset())
    return r


def np_full(E, args, kw, n):
    r = mkarr(E, [args[0]] + list(args[2:3]), kw, n, "undef")
    h = E.h(r)
    c = E.st.getconst(h.n)
    if c is not None and c <= 5000:
        for i in range(c):
            E.arr_store(h, X.pyint(i), args[1], n)
    else:
        E.w.smear(E.st, h.oid, 0, 1 << 40, E.vdeps(args[1]))
    return r


def like(E, a, kw, n, dflt):
    h = E.h(a)
    if isinstance(h, HArr):
        return E.new_array(E.dtname(kw["dtype"]) if "dtype" in kw else h.dt, h.n, dflt, "numpy array", h.ndim)
    return opaque(E, "empty_like", [a], n)


def np_empty_like(E, args, kw, n):
    return like(E, args[0], kw, n, "undef")


def np_zeros_like(E, args, kw, n):
    return like(E, args[0], kw, n, "zero")


def to_array(E, v, dtt, n, copy, kw=None):
    """np.array / np.asarray / np.ascontiguousarray / np.atleast_1d"""
    if v.op == "phi" and v.args[4]:
        return E.split_alts(v, lambda x: to_array(E, x, dtt, n, copy))
    if dtt is not None and dtt.op == "phi" and dtt.args[4]:
        return E.split_alts(dtt, lambda x: to_array(E, v, x, n, copy))
    dt = E.dtname(dtt) if dtt is not None else None
    h = E.h(v)
    if isinstance(h, HArr):
        if not copy and (dt is None or dt == h.dt):
            return v
        return copy_arr(E, h, dt)
    its = E.items_of(v) if v.op == "tup" or isinstance(h, HList) else None
    if its is not None and all(isinstance(x.w, int) or x.w in ("f64",) or x.op == "fc" for x in its):
        if dt is None:
            dt = "float64" if any(not isinstance(x.w, int) for x in its) else "int64"
        r = E.new_array(dt, X.pyint(len(its)), "zero", "array of list")
        hr = E.h(r)
        for i, x in enumerate(its):
            E.arr_store(hr, X.pyint(i), x, n)
        return r
    if isinstance(v.w, int) and v.op not in ("ptr", "fn"):
        if dt is None:
            dt = "int64"
        r = E.new_array(dt, X.pyint(1), "zero", "0-d array", 0)
        E.arr_store(E.h(r), X.pyint(0), v, n)
        return r
    E.mayraise("ValueError", n)
    E.mayraise("TypeError", n)
    # value of unknown type
    nm = dt or None
    d = E.vdeps(v)
    if nm is None:
        return X.opq("asarray" if not copy else "nparray", (v if h is None else X.phi(X.fresh(), d, "o"),), "o")
    r = E.new_array(nm, X.opq("numel", (v if h is None else X.phi(X.fresh(), d, "o"),), PYW, 0, 1 << 60), "undef", "converted array", -1)
    hr = E.h(r)
    E.w.smear(E.st, hr.oid, 0, 1 << 40, d)
    if not copy:
        # may be the caller's own array
        E.w.objs[hr.oid].extra["mayalias"] = d
    return r


def np_array(E, args, kw, n):
    dt = args[1] if len(args) > 1 else kw.get("dtype")
    cp = kw.get("copy")
    return to_array(E, args[0], dt, n, not (cp is not None and cp is not X.TRUE))


def np_asarray(E, args, kw, n):
    return to_array(E, args[0], args[1] if len(args) > 1 else kw.get("dtype"), n, False)


np_ascontiguousarray = np_asarray
np_require = np_asarray


def np_atleast_1d(E, args, kw, n):
    r = to_array(E, args[0], None, n, False)
    h = E.h(r)
    if isinstance(h, HArr) and h.ndim == 0:
        return E.newref("arr", HArr(h.dt, h.n, h.oid, h.off, 1, h.contig, h.src))
    return r


def np_squeeze(E, args, kw, n):
    h = E.h(args[0])
    if isinstance(h, HArr):
        return arr_method(E, args[0], h, "squeeze", [], {}, n)
    if isinstance(args[0].w, int):
        return args[0]
    return X.opq("squeeze", (args[0],), "o") if h is None else opaque(E, "squeeze", args, n)


def np_isscalar(E, args, kw, n):
    k = E.kindof(args[0])
    if k in ("int", "str", "float", "bool"):
        return X.TRUE
    if k in ("none", "array", "list", "dict", "tuple", "inst"):
        return X.FALSE
    return X.opq("isscalar", (args[0],), PYW, 0, 1)


def np_arange(E, args, kw, n):
    cs = [cval(E, a) for a in args]
    dt = E.dtname(kw["dtype"]) if "dtype" in kw else "int64"
    if None not in cs and dt in DT and len(range(*cs)) < 3000:
        its = list(range(*cs))
        r = E.new_array(dt, X.pyint(len(its)), "zero", "arange")
        E.arr_fill(r, [X.const(i, 8 * DT[dt][0]) for i in its])
        return r
    return opaque(E, "arange", args, n)


def np_dtype(E, args, kw, n):
    nm = E.dtname(args[0])
    if nm:
        return X.glob("dtype:" + nm)
    return X.opq("dtype", tuple(args), "o")


def np_concatenate(E, args, kw, n):
    its = E.items_of(args[0])
    if its is not None and all(isinstance(E.h(x), HArr) for x in its):
        hs = [E.h(x) for x in its]
        cs = [E.st.getconst(h.n) for h in hs]
        if None not in cs and len(set(h.dt for h in hs)) == 1:
            r = E.new_array(hs[0].dt, X.pyint(sum(cs)), "zero", "concatenation")
            out = []
            w = 8 * DT[hs[0].dt][0]
            for h, c in zip(hs, cs):
                for i in range(c):
                    out.append(X.trunc(E.arr_load(h, X.pyint(i)), w))
            E.arr_fill(r, out)
            return r
    return opaque(E, "concatenate", args, n)


def npint(dt):
    def f(E, args, kw, n):
        if not args:
            return X.pyint(0)
        v = args[0]
        h = E.h(v)
        if isinstance(h, HArr):
            return copy_arr(E, h, dt)
        sz, k = DT[dt]
        if not isinstance(v.w, int):
            E.mayraise("TypeError", n)
        c = CT("int", sz)
        c.signed = k == 1
        return E.topy(E.toint(v, c, n), c)
    return f


np_uint64, np_uint32, np_uint8, np_int64, np_int32, np_uint16 = [npint(x) for x in ("uint64", "uint32", "uint8", "int64", "int32", "uint16")]


def np_iinfo(E, args, kw, n):
    nm = E.dtname(args[0])
    if nm and DT[nm][1] < 2:
        sz, k = DT[nm]
        lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if k else (0, (1 << (8 * sz)) - 1)
        return E.newref("obj", HObj("nt:iinfo", {"min": X.pyint(lo), "max": X.pyint(hi), "bits": X.pyint(8 * sz)}))
    return X.opq("iinfo", tuple(args), "o")


def np_issubdtype(E, args, kw, n):
    return X.opq("issubdtype", tuple(args), PYW, 0, 1)


def np_all(E, args, kw, n):
    return X.opq("truth", (X.phi(X.fresh(), E.vdeps(args[0]), "o"),), PYW, 0, 1)


np_any = np_all


def np_errstate(E, args, kw, n):
    return X.opq("errstate", (), "o")


# ---------------------------------------------------------------- numpy C API
def c_PyArray_DATA(E, vals, n, ft):
    a = vals[0]
    hk = E.hooks.get("rawdata")
    if hk:
        hk(E, a, n)
    return E.data_of(a, n)


c_PyArray_BYTES = c_PyArray_DATA
c_PyArray_GETPTR1 = c_PyArray_DATA


def c_PyArray_SIZE(E, vals, n, ft):
    h = E.h(vals[0])
    if isinstance(h, HArr):
        return X.trunc(h.n, 64)
    return X.opq("pysize", (vals[0],), 64, 0, 1 << 60)


def c_PyArray_NDIM(E, vals, n, ft):
    h = E.h(vals[0])
    if isinstance(h, HArr) and h.ndim >= 0:
        return X.const(h.ndim, 32)
    return X.opq("ndim", (vals[0],), 32, 0, 32)


NPYTYPES = {1: "int8", 2: "uint8", 3: "int16", 4: "uint16", 5: "int32", 6: "uint32", 7: "int64", 8: "uint64", 9: "int64", 10: "uint64", 11: "float32", 12: "float64"}


def wrap_memory(E, ptr, n_items, dt, n):
    """array that shares the memory behind ptr"""
    if ptr.op != "ptr" or not X.is_c(ptr.args[1]):
        raise Broken("array over unknown memory at %s:%d" % E.pos(n))
    o = E.w.objs[ptr.args[0]]
    if dt is None:
        dt = "uint%d" % (8 * (o.esize or 8))
    return E.newref("arr", HArr(dt, n_items, o.oid, X.sval(ptr.args[1]), 1))


def c_PyArray_SimpleNewFromData(E, vals, n, ft):
    nd = vals[0].args[0] if X.is_c(vals[0]) else 1
    if vals[1].op != "ptr" or not X.is_c(vals[1].args[1]):
        raise Broken("array over unknown memory at %s:%d" % E.pos(n))
    ln = X.pyint(1)
    for i in range(nd):
        ln = X.mul(ln, X.sext(E.w.load(E.st, vals[1].args[0], X.sval(vals[1].args[1]) + 8 * i, 8), PYW))
    return wrap_memory(E, vals[3], ln, NPYTYPES.get(vals[2].args[0]) if X.is_c(vals[2]) else None, n)


def c_PyErr_SetString(E, vals, n, ft):
    E.event("pyerr", n)
    return X.NONE


def c_PyErr_Occurred(E, vals, n, ft):
    return X.NULL


# ---------------------------------------------------------------- contracts of the package's own helpers
def split_none(E, v, f):
    if v.op == "phi" and v.args[4]:
        return E.split_alts(v, f)
    c = E.py_is(v, X.NONE)
    if c is X.B0 or c is X.B1:
        return f(v)
    return E.split(c, lambda: f(X.NONE), lambda: f(v))


def rg_object_to_int(E, env, n):
    val, bits, name = env[0], env[1], env[2]

    def go(v):
        if v is X.NONE:
            return X.NONE
        b = cval(E, bits) if bits is not X.NONE else None
        E.mayraise("ValueError", n)
        E.mayraise("TypeError", n)
        h = E.h(v)
        if isinstance(h, HArr) and DT.get(h.dt, (8, 3))[1] == 0:
            cn = E.st.getconst(h.n)
            if cn is not None and cn <= 64:
                sz = 8 * DT[h.dt][0]
                return X.zext(X.cat([(X.trunc(E.arr_load(h, X.pyint(i)), sz), sz) for i in range(cn)]) if False else catel(E, h, cn, sz), PYW)
        t = v
        if isinstance(v.w, int):
            t = v if v.w == PYW else X.zext(v, PYW)
            if b is not None:
                lo, hi = E.st.rng(t)
                if lo >= 1 << b or hi < 0:
                    E.raise_("ValueError", n)
                if not E.st.assume(X.cmp_("sge", t, X.pyint(0)), True) or not E.st.assume(X.cmp_("slt", t, X.pyint(1 << b)), True):
                    raise Dead()
                return t
            return t
        if h is not None:
            v = X.phi(X.fresh(), E.vdeps(v), "o")
        return X.opq("objint", (v,), PYW, 0, (1 << b) - 1 if b is not None else None)
    return split_none(E, val, go)


def catel(E, h, cn, sz):
    r = X.pyint(0)
    for i in range(cn):
        t = X.trunc(E.arr_load(h, X.pyint(i)), sz)
        r = X.or_(r, X.shl(X.zext(t, PYW), i * sz))
    return r


def rg_int_to_array(E, env, n):
    val, name, bits, us = env[:4]
    u = cval(E, us)
    if u is None:
        if us.op == "phi" and us.args[4]:
            return E.split_alts(us, lambda x: rg_int_to_array(E, [val, name, bits, x], n))
        raise Broken("int_to_array with an unknown element size")
    dt = "uint%d" % u
    if dt not in DT:
        E.raise_("ValueError", n)
    b = cval(E, bits) if bits is not X.NONE else None
    if bits is not X.NONE and b is None:
        raise Broken("int_to_array with an unknown size")

    def go(v):
        if v is X.NONE:
            E.raise_("TypeError", n)
        h = E.h(v)
        E.mayraise("ValueError", n)
        if isinstance(h, HArr):
            if DT.get(h.dt, (8, 3))[0] * 8 == u and b is not None and E.st.getconst(h.n) == b // u:
                return copy_arr(E, h, dt)
            cn = E.st.getconst(h.n)
            if b is not None and cn is not None and cn != b // u:
                E.raise_("ValueError", n)
        if b is None:
            r = E.new_array(dt, X.phi(X.fresh(), E.vdeps(v), PYW, 0, 1 << 40), "zero", "int_to_array")
            E.w.smear(E.st, E.h(r).oid, 0, 1 << 40, E.vdeps(v))
            return r
        ln = b // u
        r = E.new_array(dt, X.pyint(ln), "zero", "int_to_array")
        if isinstance(v.w, int) or v.op in ("objint", "pyint"):
            t = v if v.w == PYW else X.zext(v, PYW) if isinstance(v.w, int) else E.asint(v)
            lo, hi = E.st.rng(t)
            if hi < 0 or lo >= 1 << b:
                E.raise_("ValueError", n)
            E.st.assume(X.cmp_("sge", t, X.pyint(0)), True)
            E.st.assume(X.cmp_("slt", t, X.pyint(1 << b)), True)
            E.arr_fill(r, [X.slice_(t, i * u, u) for i in range(ln)])
            return r
        E.mayraise("TypeError", n)
        key = v if h is None else X.phi(X.fresh(), E.vdeps(v), "o")
        E.arr_fill(r, [X.opq("intword", (key, X.pyint(u), X.pyint(i)), u) for i in range(ln)])
        return r
    if val.op == "phi" and val.args[4]:
        return E.split_alts(val, go)
    return go(val)


def rg_wrap_int(E, env, n):
    v, bits = env[:2]
    b = cval(E, bits)
    if b is None:
        raise Broken("wrap_int with an unknown width")

    def go(v):
        if v is X.NONE:
            E.raise_("TypeError", n)
        if not isinstance(v.w, int):
            E.mayraise("TypeError", n)
        h = E.h(v)
        if h is not None:
            v = X.phi(X.fresh(), E.vdeps(v), "o")
        t = E.asint(v)
        lo, hi = E.st.rng(t)
        if lo is not None and lo >= 0 and hi is not None and hi < 1 << b:
            return t
        return X.zext(X.slice_(t, 0, b), PYW)
    if v.op == "phi" and v.args[4]:
        return E.split_alts(v, go)
    return go(v)


def rg_check_state_array(E, env, n):
    arr, ln, bits, name = env[:4]
    L, b = cval(E, ln), cval(E, bits)
    if L is None or b is None:
        raise Broken("check_state_array with an unknown length")
    dt = "uint%d" % b

    def go(a):
        h = E.h(a)
        if isinstance(h, HArr):
            if DT.get(h.dt, (8, 3))[:2] != DT[dt][:2] or h.ndim not in (1, -1):
                E.raise_("ValueError", n)
            cn = E.st.getconst(h.n)
            if cn is not None and cn != L:
                E.raise_("ValueError", n)
            if cn is None or h.ndim == -1:
                E.mayraise("ValueError", n)
                return E.newref("arr", HArr(dt, X.pyint(L), h.oid, h.off, 1, h.contig, h.src))
            return a
        if a is X.NONE:
            E.raise_("ValueError", n)
        E.mayraise("ValueError", n)
        E.mayraise("TypeError", n)
        its = E.items_of(a) if isinstance(h, HList) or a.op == "tup" else None
        if its is not None and len(its) != L:
            E.raise_("ValueError", n)
        if its is not None and all(isinstance(x.w, int) for x in its):
            return to_array(E, a, X.glob("numpy." + dt), n, True)
        if isinstance(h, (HList, HDict)):
            r = E.new_array(dt, X.pyint(L), "zero", "converted")
            E.w.smear(E.st, E.h(r).oid, 0, L * b // 8, E.vdeps(a))
            return r
        if isinstance(a.w, int):
            E.raise_("ValueError", n)
        # an arbitrary object: the caller's own array (any stride) or a converted copy
        oid = "state-array(%d,%d,%d)" % (a.tid, L, b)
        if oid not in E.w.objs:
            o = E.w.new("extbuf", oid=oid, size=L * b // 8, name="array argument " + X.show(a, 2), dflt="in")
            o.esize = b // 8
            o.extra["arr"] = a
            o.extra["strided"] = True
            o.dflt = lambda st, o_, off, size: X.opq("stelem", (a, X.pyint(L), X.pyint(b), X.pyint(off)), 8 * size)
        return E.newref("arr", HArr(dt, X.pyint(L), oid, 0, 1, False, "arg"))
    if arr.op == "phi" and arr.args[4]:
        return E.split_alts(arr, go)
    return go(arr)


def rg_fully_qualified_name(E, env, n):
    h = E.h(env[0])
    if isinstance(h, HInst):
        return X.konst(h.cls.qual)
    return X.opq("fqn", (env[0],), "o")


def rg_view_little_endian(E, env, n):
    arr, dtt = env[:2]

    def go(a):
        dt = E.dtname(dtt)
        h = E.h(a)
        if isinstance(h, HArr) and dt in ("uint32", "uint64") and h.ndim == 1:
            return arr_method(E, a, h, "view", [dtt], {}, n)
        E.mayraise("ValueError", n)
        d = E.vdeps(a)
        if dt is None:
            return opaque(E, "view_little_endian", env, n)
        r = E.new_array(dt, X.phi(X.fresh(), d, PYW, 0, 1 << 40), "zero", "view")
        E.w.smear(E.st, E.h(r).oid, 0, 1 << 40, d)
        return r
    if arr.op == "phi" and arr.args[4]:
        return E.split_alts(arr, go)
    return go(arr)


def rg_byteswap_little_endian(E, env, n):
    return env[0]


CONTRACTS = {"object_to_int", "int_to_array", "wrap_int", "check_state_array", "fully_qualified_name", "view_little_endian",
             "byteswap_little_endian"}


def enter(E, fr, env):
    sb = getattr(E, "stubs", None)
    if sb and fr.name in sb:
        return (sb[fr.name](E, [v for _, v in env]),)
    if fr.name == "randomgen.squares.generate_key" and not getattr(E, "open_keys", False):
        # the key generator is analysed on its own (see checks): here a function of the seed sequence handed to it
        E.used_contracts = getattr(E, "used_contracts", set())
        E.used_contracts.add(fr.name)
        sm = env[0][1]
        ob = E.w.objs.get(sm.args[0] + ".seed_seq") if sm.op == "ref" else None
        sq = E.load(X.ptr(ob.oid, Z64), ob.extra["ct"], None) if ob is not None else sm
        return (X.opq("squares_key", (sq,), 64),)
    if fr.name.startswith("randomgen.common."):
        f = E.rgm.get(fr.name)
        if f is not None:
            vals = []
            for k, v in env:
                if isinstance(v.w, int) and v.w != PYW and v.op not in ("ptr", "fn"):
                    v = X.zext(v, PYW)
                vals.append(v)
            E.used_contracts = getattr(E, "used_contracts", set())
            E.used_contracts.add(fr.name)
            return (f(E, vals, E.curcall if hasattr(E, "curcall") else None),)
    return None
