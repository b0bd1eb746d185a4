"""Abstract interpreter for the typed Cython syntax trees (structured control flow), sharing memory
model and value domain with the LLVM-level interpreter of the linked C sources."""
import os
import re
from . import term as X
from .term import T
from .mem import World, State, Layout, join_states, join_terms, same_state, alts_of
from .prep import Broken
from .cinterp import CInterp
from .cfront import CT
from . import cfront, pyfront

PYW = X.PYW
Z64 = X.const(0, 64)


class Dead(Exception):
    """the current path does not continue (raise/return/break)"""


# ------------------------------------------------------------------ heap records (immutable)
class HDict(object):
    __slots__ = ("items", "open", "tag")

    def __init__(self, items=(), open_=None, tag=None):
        self.items = tuple(items)      # ((key term, value term) ...)
        self.open = open_              # dependence set of unknown extra content, or None
        self.tag = tag

    def get(self, k):
        for a, b in self.items:
            if a is k:
                return b
        return None

    def set(self, k, v):
        if self.get(k) is not None:
            return HDict([(a, v if a is k else b) for a, b in self.items], self.open, self.tag)
        return HDict(self.items + ((k, v),), self.open, self.tag)

    def join(self, o, jt, cd):
        if not isinstance(o, HDict):
            return HDict((), frozenset(cd), self.tag)
        r = []
        op = self.open
        if o.open is not None:
            op = (op or frozenset()) | o.open
        for a, b in self.items:
            c = o.get(a)
            if c is not None:
                r.append((a, jt(b, c, a)))
            else:
                op = (op or frozenset()) | X.deps(b) | cd
                r.append((a, jt(b, None, a)))
        for a, c in o.items:
            if self.get(a) is None:
                op = (op or frozenset()) | X.deps(c) | cd
                r.append((a, jt(c, None, a)))
        return HDict(r, op, self.tag)

    def __eq__(self, o):
        return isinstance(o, HDict) and self.items == o.items and self.open == o.open

    __hash__ = None


class HList(object):
    __slots__ = ("items", "open", "n")

    def __init__(self, items=(), open_=None, n=None):
        self.items = None if items is None else tuple(items)
        self.open = open_              # deps of elements when items is None
        self.n = n if n is not None else (X.pyint(len(self.items)) if items is not None else None)

    def join(self, o, jt, cd):
        if isinstance(o, HList) and self.items is not None and o.items is not None and len(self.items) == len(o.items):
            return HList([jt(a, b, i) for i, (a, b) in enumerate(zip(self.items, o.items))])
        d = set(cd) | self.deps() | (o.deps() if isinstance(o, HList) else set())
        n = jt(self.n, o.n, "len") if isinstance(o, HList) else X.phi(X.fresh(), frozenset(d), PYW, 0, 1 << 62)
        return HList(None, frozenset(d), n)

    def deps(self):
        if self.items is None:
            return self.open
        r = frozenset()
        for x in self.items:
            r = r | X.deps(x)
        return r

    def __eq__(self, o):
        return isinstance(o, HList) and self.items == o.items and self.open == o.open and self.n is o.n

    __hash__ = None


class HArr(object):
    """numpy array: dtype name, length term (PYW), buffer object, byte offset, ndim"""
    __slots__ = ("dt", "n", "oid", "off", "ndim", "contig", "src")

    def __init__(self, dt, n, oid, off=0, ndim=1, contig=True, src=None):
        self.dt, self.n, self.oid, self.off, self.ndim, self.contig, self.src = dt, n, oid, off, ndim, contig, src

    def key(self):
        return (self.dt, self.n, self.oid, self.off, self.ndim, self.contig)

    def join(self, o, jt, cd):
        if isinstance(o, HArr) and o.key() == self.key():
            return self
        if isinstance(o, HArr) and (o.dt, o.oid, o.off, o.ndim, o.contig) == (self.dt, self.oid, self.off, self.ndim, self.contig):
            return HArr(self.dt, jt(self.n, o.n, "n"), self.oid, self.off, self.ndim, self.contig, self.src)
        raise Broken("join of different arrays %s %s" % (self.key(), getattr(o, "key", str)()))

    def __eq__(self, o):
        return isinstance(o, HArr) and o.key() == self.key()

    __hash__ = None


class HInst(object):
    """instance of an extension type that is interpreted"""
    __slots__ = ("cls",)

    def __init__(self, cls):
        self.cls = cls

    def join(self, o, jt, cd):
        return self

    def __eq__(self, o):
        return isinstance(o, HInst) and o.cls is self.cls

    __hash__ = None


class HObj(object):
    """opaque external object of a known kind"""
    __slots__ = ("kind", "val")

    def __init__(self, kind, val):
        self.kind, self.val = kind, val        # val: term carrying the dependences

    def join(self, o, jt, cd):
        return self if self == o else HObj("object", jt(self.val, o.val, "v"))

    def __eq__(self, o):
        return isinstance(o, HObj) and o.kind == self.kind and o.val is self.val

    __hash__ = None


DT = {"uint64": (8, 0), "uint32": (4, 0), "uint8": (1, 0), "uint16": (2, 0), "int64": (8, 1), "int32": (4, 1), "int8": (1, 1),
      "float64": (8, 2), "float32": (4, 2), "object": (8, 3), "bool": (1, 0), "int": (8, 1), "longdouble": (16, 2), "intp": (8, 1),
      "uint": (8, 0), "bool_": (1, 0), "complex128": (16, 2), "str": (8, 3)}
INTSZ = {"uint64_t": (8, 0), "uint32_t": (4, 0), "uint16_t": (2, 0), "uint8_t": (1, 0), "int64_t": (8, 1), "int32_t": (4, 1),
         "int16_t": (2, 1), "int8_t": (1, 1), "npy_intp": (8, 1), "npy_uint64": (8, 0), "npy_int64": (8, 1), "npy_uint32": (4, 0),
         "npy_int32": (4, 1), "npy_uint16": (2, 0), "npy_uint8": (1, 0), "npy_bool": (1, 0), "size_t": (8, 0), "Py_ssize_t": (8, 1),
         "ssize_t": (8, 1), "uintptr_t": (8, 0), "intptr_t": (8, 1), "int": (4, 1), "unsigned int": (4, 0), "long": (8, 1),
         "unsigned long": (8, 0), "long long": (8, 1), "unsigned long long": (8, 0), "short": (2, 1), "unsigned short": (2, 0),
         "char": (1, 1), "unsigned char": (1, 0), "signed char": (1, 1), "bint": (4, 1), "binomial_t": (8, 0), "Py_hash_t": (8, 1),
         "npy_uintp": (8, 0), "npy_int": (4, 1), "npy_uint": (4, 0), "npy_long": (8, 1), "npy_ulong": (8, 0), "npy_int8": (1, 1),
         "npy_int16": (2, 1), "off_t": (8, 1), "npy_uint8": (1, 0), "_BitGenerator": (8, 0)}


class Cls(object):
    """an interpreted extension class with its method resolution order (list of ClassInfo)"""

    def __init__(self, info, mro):
        self.info, self.mro = info, mro
        self.name = info.name
        self.mod = info.mod
        self.qual = "%s.%s" % (info.mod.name, info.name)

    def method(self, name):
        for c in self.mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def prop(self, name):
        for c in self.mro:
            if name in c.props:
                return c.props[name]
            if name in c.methods:
                return None
        return None


class PFrame(object):
    __slots__ = ("id", "mod", "fn", "cls", "rets", "loops", "name", "selfv", "lines", "nv", "iters", "up")

    def __init__(self, fid, mod, fn, cls, name):
        self.id, self.mod, self.fn, self.cls, self.name = fid, mod, fn, cls, name
        self.rets = []
        self.loops = []
        self.selfv = None
        self.nv = {}
        self.iters = []
        self.up = None      # frame a nested function or generator expression was defined in


TRACE = os.environ.get("SA_TRACE")


class Engine(object):
    """analysis session: world, modules, C programs"""

    def __init__(self, root, exts):
        self.root, self.exts = root, exts
        self.w = World()
        self.mods = {}
        self.progs = {}
        self.cis = {}
        self.classes = {}
        self.modinit = set()
        self.base = State()
        self.st = None
        self.frames = []
        self.trys = []
        self.unchk = False
        self.iters = []
        self.events = []
        self.pymodels = {}
        self.cmodels = {}
        self.onraise = None
        self.calls = []          # stack of (module, line)
        self.analysed = set()
        self.closures, self.closures_name = {}, {}
        self.stmts = 0
        self.opaque_calls = {}
        self.track = None
        self.budget = 400000
        self.strict_lock = None
        self.hooks = {}
        from . import models
        models.install(self)

    # ------------------------------------------------------------ loading
    def module(self, name):
        m = self.mods.get(name)
        if m is None:
            m = self.mods[name] = pyfront.load(self.root, name)
            for n, ci in m.classes.items():
                pass
        if name not in self.modinit:
            self.modinit.add(name)
            self.init_module(m)
        return m

    def prog(self, modname):
        p = self.progs.get(modname)
        if p is None:
            m = self.module(modname)
            if modname not in self.exts:
                raise Broken("no extension for module %s" % modname)
            p = self.progs[modname] = cfront.compile_ext(self.root, self.exts[modname], m, pyfront.c_includes(m))
        return p

    def ci(self, modname):
        c = self.cis.get(modname)
        if c is None:
            c = self.cis[modname] = CInterp(self.w, self.prog(modname), budget=300000)
            c.pyhook = self
            c.events = self.events
            ext = c.external
            for nm in ("PyArray_malloc_aligned", "PyArray_calloc_aligned", "PyArray_free_aligned", "PyArray_realloc_aligned"):
                c.overrides[nm] = (lambda nm: lambda ci, args, st, ins: ci.external(nm, args, st, ins, None))(nm)
            c.trackhook = None
        c.track = self.track
        return c

    def cls(self, modname, name):
        k = (modname, name)
        c = self.classes.get(k)
        if c is None:
            m = self.module(modname)
            info = m.classes.get(name)
            if info is None:
                raise Broken("class %s.%s is gone" % k)
            mro = [info]
            b = info.base
            while b is not None and b[0] and b[0].startswith("randomgen"):
                bi = self.module(b[0]).classes.get(b[1])
                if bi is None:
                    break
                mro.append(bi)
                b = bi.base
            c = self.classes[k] = Cls(info, mro)
        return c

    def init_module(self, m):
        saved = (self.st, self.frames, self.trys)
        self.st, self.frames, self.trys = self.base, [], []
        fr = PFrame(("mod", m.name), m, None, None, "<module>")
        self.frames.append(fr)
        old = self.track
        self.track = None
        try:
            body = m.tree.body
            for s in self.flat(body):
                k = type(s).__name__
                if k in ("SingleAssignmentNode", "ForInStatNode", "FromImportStatNode", "CascadedAssignmentNode", "InPlaceAssignmentNode", "IfStatNode",
                         "TryExceptStatNode", "ExprStatNode"):
                    try:
                        self.exec(s)
                    except (Broken, Dead) as e:
                        self.st = self.base
        finally:
            self.base = self.st if self.st is not None else self.base
            self.st, self.frames, self.trys = saved
            if self.st is not None and self.st is not self.base:
                for k, v in self.base.env.items():
                    if isinstance(k[0], tuple) and k[0][0] == "mod":
                        self.st.env.setdefault(k, v)
                for k, v in self.base.heap.items():
                    self.st.heap.setdefault(k, v)
                for k, v in self.base.mem.items():
                    self.st.mem.setdefault(k, v)
            self.track = old

    def flat(self, b):
        k = type(b).__name__
        if k == "StatListNode":
            for s in b.stats:
                yield from self.flat(s)
        elif k == "CompilerDirectivesNode":
            yield from self.flat(b.body)
        else:
            yield b

    # ------------------------------------------------------------ helpers
    @property
    def fr(self):
        return self.frames[-1]

    def pos(self, n):
        try:
            return (n.pos[0].get_filenametable_entry() if hasattr(n.pos[0], "get_filenametable_entry") else str(n.pos[0]), n.pos[1])
        except Exception:
            return ("?", 0)

    def event(self, kind, n, **kw):
        f, l = self.pos(n) if n is not None else ("?", 0)
        kw.update(kind=kind, fn=self.fr.name if self.frames else "?", file=f, line=l)
        self.events.append(kw)

    def newoid(self, kind, sep):
        """object name; inside the fixpoint iteration of a loop the same allocation gets the same name every time"""
        if self.iters:
            t = self.iters[-1]
            t[1] += 1
            oid = "%s%sL%s.%d" % (kind, sep, t[0], t[1])
            self.st.mem.pop(oid, None)
            return oid
        self.w.cnt += 1
        return "%s%s%d" % (kind, sep, self.w.cnt)

    def newref(self, kind, rec):
        oid = self.newoid(kind, "@")
        self.st.heap[oid] = rec
        return X.ref(oid)

    def h(self, t):
        """heap record of a reference term"""
        if isinstance(t, T) and t.op == "ref":
            return self.st.heap.get(t.args[0])
        return None

    def seth(self, t, rec):
        self.st.heap[t.args[0]] = rec

    def sizeof(self, t):
        return self.ct(t).size

    def ct(self, t):
        c = t.__dict__.get("_sa_ct") if hasattr(t, "__dict__") else None
        if c is not None:
            return c
        c = self._ct(t)
        try:
            t._sa_ct = c
        except Exception:
            pass
        return c

    def _ct(self, t):
        if getattr(t, "is_ptr", False) or getattr(t, "is_cfunction", False):
            c = CT("ptr", 8)
            bt = getattr(t, "base_type", None)
            c.elref = (lambda: self.ct(bt)) if bt is not None else (lambda: CT("void", 0))
            return c
        if getattr(t, "is_const", False) or getattr(t, "is_cv_qualified", False):
            return self.ct(t.cv_base_type)
        if getattr(t, "is_typedef", False):
            nm = t.typedef_name if hasattr(t, "typedef_name") else t.name
            if nm in INTSZ:
                c = CT("int", INTSZ[nm][0])
                c.signed = bool(INTSZ[nm][1])
                return c
            for k in range(2):
                for p in self.progs.values():
                    s = p.structs.get(t.typedef_cname)
                    if s is not None and hasattr(s, "ct"):
                        return s.ct
                if k == 0:
                    # the C definition of an external typedef: from the module's headers
                    for q, m in list(self.mods.items()):
                        if q in self.exts and q not in self.progs and getattr(t, "typedef_is_external", False):
                            e = m.scope.lookup_here(nm)
                            if e is not None and e.type is t:
                                self.prog(q)
            return self.ct(t.typedef_base_type)
        if getattr(t, "is_enum", False):
            c = CT("int", 4)
            c.signed = False
            return c
        if getattr(t, "is_int", False):
            nm = re.sub(r"\s+", " ", t.empty_declaration_code())
            if type(t).__name__ == "CBIntType":
                nm = "bint"
            if nm not in INTSZ:
                nm2 = {"Py_UCS4": "uint32_t"}.get(nm)
                if nm2 is None:
                    raise Broken("unknown C integer type %s" % nm)
                nm = nm2
            c = CT("int", INTSZ[nm][0])
            c.signed = bool(INTSZ[nm][1])
            return c
        if getattr(t, "is_complex", False):
            return CT("float", 16)
        if getattr(t, "is_float", False):
            nm = t.empty_declaration_code()
            return CT("float", 4 if nm == "float" else 16 if "long" in nm else 8)
        if getattr(t, "is_array", False):
            el = self.ct(t.base_type)
            n = t.size if isinstance(t.size, int) else int(t.size) if t.size is not None and str(t.size).isdigit() else None
            if n is None:
                raise Broken("array type of unknown size %s" % t)
            c = CT("array", el.size * n)
            c.el, c.n = el, n
            return c
        if getattr(t, "is_struct_or_union", False):
            cn = t.empty_declaration_code()
            for p in self.progs.values():
                s = p.structs.get(cn) or p.structs.get(cn.replace("struct ", ""))
                if s is not None and hasattr(s, "ct") and s.ct.members:
                    return s.ct
            c = CT("struct", 0)
            c.name = t.name
            c.members = {}
            off = 0
            al = 1
            leaves = []
            for e in t.scope.var_entries:
                m = self.ct(e.type)
                a = self.align(m)
                al = max(al, a)
                o = 0 if getattr(t, "kind", "") == "union" else (off + a - 1) // a * a
                c.members[e.name] = (o, m)
                leaves.append((o, m.size, e.name))
                off = max(off, o + m.size)
            c.size = (off + al - 1) // al * al
            c.layout = Layout(c.size, leaves, t.name)
            return c
        if getattr(t, "is_pyobject", False) or getattr(t, "is_memoryviewslice", False) or getattr(t, "is_buffer", False):
            return CT("obj", 8)
        if getattr(t, "is_void", False):
            return CT("void", 0)
        if getattr(t, "is_ctuple", False):
            return CT("obj", 8)
        if getattr(t, "is_null_ptr", False):
            return CT("ptr", 8)
        if type(t).__name__ in ("UnspecifiedType", "CFakeReferenceType"):
            return CT("obj", 8)
        raise Broken("C type %s (%s)" % (t, type(t).__name__))

    def align(self, c):
        if c.kind == "array":
            return self.align(c.el)
        if c.kind == "struct":
            return max([self.align(m[1]) for m in c.members.values()] or [1])
        return max(1, c.size)

    # ------------------------------------------------------------ instances
    def new_instance(self, cls, oid=None, zero=True):
        self.w.cnt += 1
        oid = oid or "inst%d" % self.w.cnt
        self.st.heap[oid] = HInst(cls)
        return X.ref(oid)

    def attr_obj(self, inst, name, typ=None):
        """memory object of attribute `name` of instance oid `inst`"""
        oid = "%s.%s" % (inst, name)
        o = self.w.objs.get(oid)
        if o is None:
            c = self.ct(typ) if typ is not None else CT("obj", 8)
            lay = None
            if c.kind == "struct":
                lay = c.layout
            o = self.w.new("attr", oid=oid, size=c.size, layout=lay, name=oid, dflt="zero")
            o.esize = c.size if c.kind in ("int", "ptr", "float", "obj") else (c.el.size if c.kind == "array" and c.el.kind != "struct" else 1)
            o.extra["ct"] = c
            if c.kind == "obj":
                o.dflt = lambda st, o_, off, size: X.NONE
                if getattr(typ, "is_memoryviewslice", False):
                    pass
            elif c.kind == "float":
                k = "f64" if c.size == 8 else "f32"
                o.dflt = lambda st, o_, off, size: X.fconst(0.0, k)
        return o

    # ------------------------------------------------------------ numeric conversion
    def conv(self, t, ft, tt):
        """C conversion of term t from cython type ft to tt"""
        a = self.ct(tt)
        if a.kind == "obj" or a.kind == "void":
            return t
        b = self.ct(ft)
        return self.convct(t, b, a, type(tt).__name__ == "CBIntType" and type(ft).__name__ != "CBIntType")

    def convct(self, t, b, a, tobool=False):
        ci = self.cinow()
        if a.kind == "int":
            w = 8 * a.size
            if tobool and isinstance(t.w, int):
                return X.zext(X.cmp_("ne", t, X.const(0, t.w)), w)
            if isinstance(t.w, int):
                if t.w == w:
                    return t
                if t.w > w:
                    return X.trunc(t, w)
                return X.sext(t, w) if b.signed and t.w == 8 * b.size else X.zext(t, w)
            if t.op == "ptr" or t.op == "fn" or t.op == "phi" and not isinstance(t.w, int):
                return t
            if t.w in ("f64", "f32", "f80"):
                return X.opq("fptosi" if a.signed else "fptoui", (t,), w)
            return self.toint(t, a)
        if a.kind == "float":
            k = {8: "f64", 4: "f32", 16: "f80"}[a.size]
            if t.w == k:
                return t
            if isinstance(t.w, int):
                if X.is_c(t):
                    v = X.sval(t) if b.signed or t.w == PYW else t.args[0]
                    return X.fconst(float(v), k)
                return X.itof("sitofp" if b.signed else "uitofp", t, k)
            return X.opq("fpcast", (t,), k)
        return t

    def cinow(self):
        return self.cis.get(self.fr.mod.name) if self.frames else None

    def toint(self, t, a, n=None):
        """Python value -> C int of CT a"""
        w = 8 * a.size
        if t.op == "k":
            v = t.args[1]
            if isinstance(v, bool):
                return X.const(int(v), w)
            if v is None or isinstance(v, str):
                self.raise_("TypeError", n)
            if isinstance(v, float):
                return X.const(int(v), w)
        if t.op == "g" and t.args[0] == "const:maxsize":
            return X.const((1 << 63) - 1, w)
        if isinstance(t.w, int):
            if t.w == PYW:
                lo, hi = self.st.rng(t)
                mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if a.signed else (0, (1 << w) - 1)
                if lo > mx or hi < mn:
                    self.raise_("OverflowError", n)
                if lo < mn or hi > mx:
                    self.mayraise("OverflowError", n)
                    self.st._narrow(t, mn, mx)
                return X.trunc(t, w)
            return self.convct(t, CT("int", t.w // 8), a)
        if t.w in ("f64", "f32"):
            return X.opq("fptoint", (t,), w)
        h = self.h(t)
        if isinstance(h, HArr):
            return self.toint(self.arr_load(h, X.pyint(0)), a, n)
        al = alts_of(t)
        if al and len(al) > 1 and t.op == "phi":
            ok = [x for x in al if not (x.op == "k" and not isinstance(x.args[1], bool))]
            if ok and all(x.op == "c" or x.op == "k" for x in ok):
                self.mayraise("TypeError", n)
                cs = [self.toint(x, a, n) for x in ok]
                r = cs[0]
                for x in cs[1:]:
                    r = join_terms(r, x, X.deps(t), ("ti", t.tid, w))
                return r
        self.mayraise("TypeError", n)
        s = self.asint(t)
        lo, hi = s.lo, s.hi
        return X.trunc(s, w) if lo >= 0 and hi < (1 << w) else X.opq("cint%s" % ("s" if a.signed else "u"), (t,), w)

    def asint(self, t):
        """Python integer view of an opaque object"""
        if isinstance(t.w, int):
            return t if t.w == PYW else X.zext(t, PYW)
        if t.op == "k" and isinstance(t.args[1], bool):
            return X.pyint(int(t.args[1]))
        return X.opq("pyint", (t,), PYW)

    def topy(self, t, ct):
        """C value -> Python object"""
        if isinstance(t.w, int) and t.w != PYW and ct.kind == "int":
            c = X.sext(t, PYW) if ct.signed else X.zext(t, PYW)
            return c
        return t

    # ------------------------------------------------------------ raising
    def raise_(self, name, n):
        self.mayraise(name, n, True)
        raise Dead()

    def mayraise(self, name, n, sure=False):
        if self.onraise is not None:
            self.onraise(self, name, n, sure)
        if self.trys:
            self.trys[-1].append((name, self.st.copy()))

    # ------------------------------------------------------------ branching
    def truth(self, t):
        """1-bit term for the truth value"""
        if t.op == "k":
            v = t.args[1]
            return X.B1 if (bool(v) if v is not Ellipsis else True) else X.B0
        if t.op in ("ptr", "fn", "g"):
            return X.B1
        if t.op == "phi" and t.args[4] and t.w == 64 and all(x.op in ("ptr", "fn", "c") for x in t.args[4]):
            nn = [self.truth(x) for x in t.args[4]]
            if all(x is nn[0] for x in nn):
                return nn[0]
        if isinstance(t.w, int):
            if t.w == 1:
                return t
            return X.cmp_("ne", t, X.const(0, t.w))
        if t.op in ("ptr", "fn", "g"):
            return X.B1
        if t.op == "fc":
            return X.B1 if t.args[0] else X.B0
        if t.op == "tup":
            return X.B1 if t.args else X.B0
        h = self.h(t)
        if isinstance(h, HDict) and h.open is None:
            return X.B1 if h.items else X.B0
        if isinstance(h, HList) and h.items is not None:
            return X.B1 if h.items else X.B0
        if isinstance(h, HList):
            return X.cmp_("ne", h.n, X.pyint(0))
        if isinstance(h, (HInst, HObj)):
            return X.B1
        if t.op == "phi" and t.args[4] and t.w == 64:
            nn = [self.truth(x) for x in t.args[4]]
            if all(x is nn[0] for x in nn):
                return nn[0]
        return X.opq("truth", (t,), 1)

    def split(self, c, ft, ff):
        """run ft under c and ff under not c; both are thunks returning a term or None"""
        st = self.st
        v = st.eval_cmp(c)
        if v is True:
            return ft()
        if v is False:
            return ff()
        n0 = len(st.ctl)
        tok = X.fresh()
        d = X.deps(c)
        sf = st.copy()
        st.ctl = st.ctl + ((tok, d, True),)
        sf.ctl = sf.ctl + ((tok, d, False),)
        key = (self.fr.id, ("tmp", tok))
        outs = []
        for s, val, f in ((st, True, ft), (sf, False, ff)):
            if not s.assume(c, val):
                continue
            self.st = s
            try:
                r = f()
            except Dead:
                continue
            if self.st is None:
                continue
            if r is not None:
                self.st.env[key] = r
            outs.append((self.st, r))
        if not outs:
            self.st = None
            raise Dead()
        if len(outs) == 1:
            self.st = outs[0][0]
            self.st.ctl = self.st.ctl[:n0]
            self.st.env.pop(key, None)
            return outs[0][1]
        self.st = join_states(self.w, outs[0][0], outs[1][0])
        return self.st.env.pop(key, None)

    def split_alts(self, t, f):
        """apply f to each alternative of a joined reference value"""
        al = t.args[4] if t.op == "phi" and t.args[4] is not None else None
        if al is None:
            return f(t)
        al = sorted(al, key=lambda x: x.tid)
        st = self.st
        n0 = len(st.ctl)
        tok = X.fresh()
        key = (self.fr.id, ("tmp", tok))
        res = None
        for i, a in enumerate(al):
            s = st.copy() if i < len(al) - 1 else st
            s.ctl = s.ctl + ((tok, X.deps(t), i),)
            self.st = s
            try:
                r = f(a)
            except Dead:
                continue
            if r is not None:
                self.st.env[key] = r
            self.st_ = self.st
            res = self.st if res is None else join_states(self.w, res, self.st)
        if res is None:
            self.st = None
            raise Dead()
        res.ctl = res.ctl[:n0]
        self.st = res
        return res.env.pop(key, None)

    # ------------------------------------------------------------ memory access
    def load(self, p, c, n=None):
        """load a value of CT c at pointer p"""
        ci = self.memci()
        if c.kind == "array":
            return p
        if c.kind == "obj":
            t = p
            if p.op == "ptr" and X.is_c(p.args[1]):
                if self.track is not None:
                    self.track("load", self.w.objs[p.args[0]], p.args[1], 8, None, self.st)
                return self.w.load(self.st, p.args[0], X.sval(p.args[1]), 8)
            raise Broken("object load through unknown pointer")
        self.curnode = n
        want = "i" if c.kind in ("int", "ptr", "struct") else {8: "f64", 4: "f32", 16: "f80"}[c.size]
        t = ci.load(self.st, p, c.size, None, want)
        v = self.st.getconst(t) if isinstance(t.w, int) else None
        if v is not None and not X.is_c(t):
            t = X.const(v, t.w)
        if c.kind == "ptr" and t.op == "cat" and len(t.args) == 1:
            return t.args[0][0]
        return t

    def store(self, p, c, v, n=None):
        ci = self.memci()
        if c.kind == "array":
            raise Broken("array assignment")
        if c.kind == "obj":
            if p.op == "ptr" and X.is_c(p.args[1]):
                if self.track is not None:
                    self.track("store", self.w.objs[p.args[0]], p.args[1], 8, None, self.st)
                self.w.store(self.st, p.args[0], X.sval(p.args[1]), 8, v)
                return
            raise Broken("object store through unknown pointer")
        if isinstance(v.w, int) and v.w != 8 * c.size:
            v = X.trunc(v, 8 * c.size) if v.w > 8 * c.size else X.zext(v, 8 * c.size)
        ci.store(self.st, p, c.size, v, None)

    def memci(self):
        c = getattr(self, "_memci", None)
        if c is None:
            class _P(object):
                modules = []
                funcs = {}
                globals = {}
            c = self._memci = CInterp(self.w, _P(), budget=1)
            eng = self

            def ev(kind, ins, **kw):
                f, l = eng.pos(eng.curnode) if getattr(eng, "curnode", None) is not None else ("?", 0)
                kw.update(kind=kind, fn=eng.fr.name if eng.frames else "?", file=f, line=l)
                eng.events.append(kw)
            c.event = ev
        c.track = self.track
        return c

    # ------------------------------------------------------------ arrays
    def new_array(self, dt, n, dflt="undef", name="array", ndim=1):
        """n: PYW term; returns ref"""
        sz = DT.get(dt, (8, 3))[0]
        c = self.st.getconst(n) if n is not None else None
        o = self.w.new("buf", oid=self.newoid("buf", "#"), size=c * sz if c is not None else None, dflt=dflt, name=name)
        o.esize = sz
        if DT.get(dt, (8, 3))[1] == 3:
            o.dflt = lambda st, o_, off, size: X.leaf("elem", (o_.oid, off), "o", ("elem", o_.oid))
        o.extra["n"] = n
        o.extra["line"] = self.frames[-1].name if self.frames else ""
        return self.newref("arr", HArr(dt, n if n is not None else X.opq("len", (X.ref(o.oid),), PYW, 0, 1 << 60), o.oid, 0, ndim))

    def arr_fill(self, a, terms):
        h = self.h(a)
        sz = DT[h.dt][0]
        for i, t in enumerate(terms):
            self.w.store(self.st, h.oid, h.off + i * sz, sz, t)

    def arr_elem_ct(self, h):
        sz, k = DT.get(h.dt, (8, 3))
        c = CT("int" if k < 2 else "float" if k == 2 else "obj", sz)
        c.signed = k == 1
        return c

    def arr_load(self, h, idx, n=None):
        """idx: PYW term -> Python object"""
        c = self.arr_elem_ct(h)
        st = self.st
        cn = st.getconst(h.n)
        ic = st.getconst(idx)
        if self.unchk:
            self.unchecked_access(h, idx, cn, c.size, "read", n)
        if ic is not None and ic < 0 and cn is not None:
            ic += cn
        if ic is not None and cn is not None and not 0 <= ic < cn:
            if self.unchk:
                return self.topy(X.phi(X.fresh(), frozenset([("oob", h.oid)]), 8 * c.size), c)
            self.raise_("IndexError", n)
        if ic is None:
            self.mayraise("IndexError", n)
            if cn is not None:
                lo, hi = st.rng(idx)
                if lo >= 0:
                    st._narrow(idx, 0, cn - 1)
                    lo, hi = st.rng(idx)
                    t = self.w.load_unknown(st, h.oid, X.trunc(X.mul(idx, X.pyint(c.size)), 64), h.off + lo * c.size, h.off + (hi + 1) * c.size, c.size)
                else:
                    t = self.w.load_unknown(st, h.oid, X.trunc(idx, 64), h.off, h.off + cn * c.size, c.size)
            else:
                t = self.w.load_unknown(st, h.oid, X.trunc(idx, 64), h.off, h.off + (1 << 40), c.size)
            if self.track is not None:
                self.track("load", self.w.objs[h.oid], X.trunc(idx, 64), c.size, None, st)
        else:
            if c.kind == "obj":
                return self.w.load(st, h.oid, h.off + ic * 8, 8)
            t = self.w.load(st, h.oid, h.off + ic * c.size, c.size)
            if self.track is not None:
                self.track("load", self.w.objs[h.oid], X.const(h.off + ic * c.size, 64), c.size, None, st)
        if c.kind == "float":
            return self.memci().asfloat(t, "f64" if c.size == 8 else "f32" if c.size == 4 else "f80")
        if not isinstance(t.w, int):
            t = self.memci().bits(t)
        return self.topy(t, c)

    def arr_store(self, h, idx, v, n=None):
        """v: Python object term"""
        c = self.arr_elem_ct(h)
        st = self.st
        if c.kind == "int":
            t = self.toint(v, c, n)
        elif c.kind == "float":
            t = self.convct(v, CT("int", 8), c) if isinstance(v.w, int) else v
        else:
            t = v
        self.arr_store_raw(h, idx, t, n)

    def arr_store_raw(self, h, idx, t, n=None):
        st = self.st
        c = self.arr_elem_ct(h)
        cn, ic = st.getconst(h.n), st.getconst(idx)
        if self.unchk:
            self.unchecked_access(h, idx, cn, c.size, "write", n)
        if ic is not None and ic < 0 and cn is not None:
            ic += cn
        if ic is not None and cn is not None and not 0 <= ic < cn:
            self.raise_("IndexError", n)
        if self.track is not None:
            self.track("store", self.w.objs[h.oid], X.trunc(idx, 64), c.size, None, st)
        if ic is not None:
            self.w.store(st, h.oid, h.off + ic * c.size, c.size, t)
        else:
            self.mayraise("IndexError", n)
            lo, hi = st.rng(idx)
            if cn is not None:
                hi = min(hi, cn - 1)
                lo = max(lo, 0) if lo >= 0 else 0
            else:
                lo, hi = 0, 1 << 40
            self.w.smear(st, h.oid, h.off + lo * c.size, h.off + (hi + 1) * c.size, X.deps(t) | X.deps(idx))

    def unchecked_access(self, h, idx, cn, size, what, n):
        """element access compiled without a bounds check"""
        if cn is None:
            return
        lo, hi = self.st.rng(idx)
        if lo < 0 or hi >= cn:
            self.event("oob", n, obj=self.w.objs[h.oid].name, lo=lo * size, hi=(hi + 1) * size, size=cn * size, what=what, term=X.show(idx, 4))

    def nocheck(self):
        """bounds checks are switched off for the function being analysed"""
        fn = self.fr.fn
        sc = getattr(fn, "local_scope", None)
        d = getattr(sc, "directives", None)
        return d is not None and d.get("boundscheck") is False

    def arr_data(self, h):
        return X.ptr(h.oid, X.const(h.off, 64))

    def data_of(self, t, n=None):
        """pointer to the data of an array-valued term"""
        h = self.h(t)
        if isinstance(h, HArr):
            return self.arr_data(h)
        if t.op == "phi" and t.args[4]:
            ps = [self.data_of(x, n) for x in sorted(t.args[4], key=lambda z: z.tid) if not (x.op == "k")]
            r = ps[0]
            for p in ps[1:]:
                r = join_terms(r, p, X.deps(t), ("data", t.tid))
            return r
        oid = "data(%d)" % t.tid
        if oid not in self.w.objs:
            o = self.w.new("extbuf", oid=oid, size=None, name="data of " + X.show(t, 2), dflt="in")
            o.esize = 8
            o.extra["arr"] = t
            o.dflt = lambda st, o_, off, size: X.opq("data", (t, off), 8 * size)
        return X.ptr(oid, Z64)

    # ------------------------------------------------------------ names
    def lookup_global(self, mod, name, n):
        k = (("mod", mod.name), name)
        v = self.st.env.get(k)
        if v is not None:
            return v
        import builtins
        if name in mod.classes:
            return X.glob("%s.%s" % (mod.name, name))
        if name in mod.funcs:
            return X.glob("%s.%s" % (mod.name, name))
        if hasattr(builtins, name):
            return X.glob("builtins." + name)
        return X.glob("%s.%s" % (mod.name, name))

    def modvar(self, entry):
        """memory object of a module-level cdef variable"""
        oid = "cvar:" + str(entry.cname)
        o = self.w.objs.get(oid)
        if o is None:
            c = self.ct(entry.type)
            o = self.w.new("cglobal", oid=oid, size=c.size, layout=c.layout if c.kind == "struct" else None, name=oid,
                           dflt="glob" if c.kind != "obj" else None)
            o.esize = c.size if c.kind in ("int", "ptr", "float", "obj") else c.el.size if c.kind == "array" else 1
            if c.kind == "obj":
                o.dflt = lambda st, o_, off, size: X.leaf("cvar", (o_.oid,), "o", ("glob", o_.oid))
            elif c.kind == "float":
                o.dflt = lambda st, o_, off, size: X.leaf("cvar", (o_.oid,), "f64", ("glob", o_.oid))
            o.extra["ct"] = c
        return o

    # ------------------------------------------------------------ statements
    def exec(self, n):
        """execute a statement node on self.st (None when the path ends)"""
        if n is None or self.st is None:
            return
        self.stmts += 1
        if self.stmts > self.budget:
            raise Broken("statement budget exceeded in %s" % (self.fr.name))
        k = type(n).__name__
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Broken("statement %s at %s:%d is not supported" % ((k,) + self.pos(n)))
        if k == "StatListNode":
            m(n)
            return
        try:
            m(n)
        except Dead:
            self.st = None

    def x_StatListNode(self, n):
        for s in n.stats:
            if self.st is None:
                return
            self.exec(s)

    def x_PassStatNode(self, n):
        pass

    def x_CVarDefNode(self, n):
        pass

    x_CDefExternNode = x_CStructOrUnionDefNode = x_CTypeDefNode = x_CEnumDefNode = x_GlobalNode = x_CFuncDefNode = x_CClassDefNode = x_CVarDefNode
    x_PyClassDefNode = x_GILExitNode = x_CVarDefNode

    def x_DefNode(self, n):
        pass

    def x_CompilerDirectivesNode(self, n):
        self.exec(n.body)

    def x_ExprStatNode(self, n):
        self.ev(n.expr)

    def x_AssertStatNode(self, n):
        if getattr(n, "condition", None) is not None:
            c = self.cond(n.condition)
            v = self.st.eval_cmp(c)
            if v is False:
                self.raise_("AssertionError", n)
            if v is None:
                self.mayraise("AssertionError", n)
                if not self.st.assume(c, True):
                    raise Dead()

    def x_DelStatNode(self, n):
        for a in n.args:
            if type(a).__name__ == "NameNode":
                self.st.env.pop((self.fr.id, a.name), None)

    def x_RaiseStatNode(self, n):
        if TRACE:
            print("RAISE", self.pos(n))

        nm = None
        e = n.exc_type
        while e is not None and type(e).__name__ not in ("NameNode", "AttributeNode"):
            e2 = getattr(e, "function", None)
            if e2 is None:
                e2 = getattr(e, "arg", None)
            e = e2
        if e is not None:
            nm = getattr(e, "name", None) or getattr(e, "attribute", None)
        self.raise_(nm, n)

    def x_ReraiseStatNode(self, n):
        self.raise_(None, n)

    def x_ReturnStatNode(self, n):
        fr = self.fr
        v = self.ev(n.value) if n.value is not None else X.NONE
        fr.rets.append((v, self.st))
        self.st = None
        raise Dead()

    def x_SingleAssignmentNode(self, n):
        r = n.rhs
        if type(r).__name__ == "ImportNode" or type(getattr(r, "arg", None)).__name__ == "ImportNode":
            v = self.ev(r)
        else:
            v = self.ev(r)
        self.assign(n.lhs, v, n.rhs)

    def x_CascadedAssignmentNode(self, n):
        v = self.ev(n.rhs)
        cv = getattr(n, "coerced_values", None) or []
        av = getattr(n, "assignment_overloads", None)
        for c in cv:
            self.ev(c)
        for lhs in n.lhs_list:
            # find the coerced value of the same type
            val = v
            src = n.rhs
            for c in cv:
                if c.type == lhs.type:
                    val = self.ev(c)
                    src = c
                    break
            self.assign(lhs, val, src)

    def x_ParallelAssignmentNode(self, n):
        vals = []
        for s in n.stats:
            vals.append((s, self.ev(s.rhs)))
        for s, v in vals:
            self.assign(s.lhs, v, s.rhs)

    def x_InPlaceAssignmentNode(self, n):
        lhs = n.lhs
        old = self.ev(lhs)
        rhs = self.ev(n.rhs)
        if lhs.type.is_pyobject:
            v = self.pybinop(n.operator, old, rhs, n, inplace=True)
            self.assign(lhs, v, None)
            return
        v = self.cbinop(n.operator, old, rhs, lhs.type, n.rhs.type, lhs.type, n)
        self.assign(lhs, v, None)

    def x_FromImportStatNode(self, n):
        mod = n.module.module_name.value if hasattr(n.module, "module_name") else "?"
        for name, target in n.items:
            self.assign(target, X.glob("%s.%s" % (mod, name)), None)

    def x_IfStatNode(self, n):
        self.ifs(n.if_clauses, 0, n.else_clause)

    def ifs(self, cl, i, els):
        if i == len(cl):
            if els is not None:
                self.exec(els)
            return
        try:
            c = self.cond(cl[i].condition)
        except Dead:
            self.st = None
            return

        def body():
            self.exec(cl[i].body)
            if self.st is None:
                raise Dead()

        def rest():
            self.ifs(cl, i + 1, els)
            if self.st is None:
                raise Dead()
        # alternatives of `x is None` style tests are separated before splitting
        try:
            self.split(c, body, rest)
        except Dead:
            self.st = None

    def x_GILStatNode(self, n):
        self.exec(n.body)

    def x_TryFinallyStatNode(self, n):
        self.trys.append([])
        fr = self.fr
        nr = len(fr.rets)
        nl = [(len(l[0]), len(l[1])) for l in fr.loops]
        self.exec(n.body)
        excs = self.trys.pop()
        # the finally clause runs on every way out
        end = self.st

        def fin(st):
            self.st = st
            self.exec(n.finally_clause)
            return self.st
        end = fin(end) if end is not None else None
        rets = fr.rets[nr:]
        fr.rets = fr.rets[:nr]
        for v, s in rets:
            s = fin(s)
            if s is not None:
                fr.rets.append((v, s))
        for l, (a, b) in zip(fr.loops, nl):
            for j, lst in enumerate(l):
                c = a if j == 0 else b
                ss = lst[c:]
                del lst[c:]
                for s in ss:
                    s = fin(s)
                    if s is not None:
                        lst.append(s)
        for nm, s in excs:
            s = fin(s)
            if s is not None:
                self.st = s
                self.mayraise(nm, n)
        self.st = end

    def x_WithStatNode(self, n):
        mgr = self.ev(n.manager)
        hk = self.hooks.get("with_enter")
        tv = self.ev_with_enter(n, mgr)
        if hk:
            hk(self, mgr, n)
        body = n.body
        # unwrap try/finally + try/except inserted for the with statement
        if type(body).__name__ == "TryFinallyStatNode":
            body = body.body
        if type(body).__name__ == "TryExceptStatNode":
            body = body.body
        fr = self.fr
        nr = len(fr.rets)
        fr.iters.append(tv)
        self.exec(body)
        fr.iters.pop()
        hx = self.hooks.get("with_exit")
        if hx:
            for v, s in fr.rets[nr:]:
                hx(self, mgr, n, s)
            if self.st is not None:
                hx(self, mgr, n, self.st)

    def ev_with_enter(self, n, mgr):
        return X.opq("enter", (mgr,), "o")

    def x_TryExceptStatNode(self, n):
        self.trys.append([])
        self.exec(n.body)
        excs = self.trys.pop()
        if self.st is not None and n.else_clause is not None:
            self.exec(n.else_clause)
        outs = [self.st] if self.st is not None else []
        import builtins

        def matches(pat, nm):
            """True/False/None"""
            if pat is None:
                return True
            pn = getattr(pat, "name", None) or getattr(pat, "attribute", None)
            if nm is None or pn is None:
                return None
            if pn == nm:
                return True
            a, b = getattr(builtins, nm, None), getattr(builtins, pn, None)
            if isinstance(a, type) and isinstance(b, type):
                return issubclass(a, b)
            return None
        for clause in n.except_clauses:
            pats = clause.pattern
            hit, rest = [], []
            for nm, s in excs:
                ms = [matches(p, nm) for p in pats] if pats else [True]
                if any(m is True for m in ms):
                    hit.append(s)
                elif any(m is None for m in ms):
                    hit.append(s)
                    rest.append((nm, s.copy()))
                else:
                    rest.append((nm, s))
            excs = rest
            if hit:
                j = hit[0]
                for s in hit[1:]:
                    j = join_states(self.w, j, s)
                self.st = j
                if clause.target is not None:
                    self.assign(clause.target, X.opq("exc", (X.konst(str(clause.pos[1])),), "o"), None)
                self.exec(clause.body)
                if self.st is not None:
                    outs.append(self.st)
        for nm, s in excs:
            self.st = s
            self.mayraise(nm, n)
        if not outs:
            self.st = None
            return
        j = outs[0]
        for s in outs[1:]:
            j = join_states(self.w, j, s)
        self.st = j

    def x_BreakStatNode(self, n):
        self.fr.loops[-1][0].append(self.st)
        self.st = None
        raise Dead()

    def x_ContinueStatNode(self, n):
        self.fr.loops[-1][1].append(self.st)
        self.st = None
        raise Dead()

    # ---- loops
    def loop(self, n, test, body, els=None, maxu=3000, maxund=8, maxit=None):
        """generic loop: test() -> 1-bit term, body() executes one iteration"""
        fr = self.fr
        exits = []
        und = 0
        n0 = len(self.st.ctl)
        it = 0

        def once():
            """one iteration from self.st; appends exits; leaves self.st at the loop head or None"""
            c = test()
            v = self.st.eval_cmp(c)
            if v is False:
                exits.append(self.st)
                self.st = None
                return v
            if v is None:
                s = self.st.copy()
                tok = X.fresh()
                self.st.ctl += ((tok, X.deps(c), True),)
                s.ctl += ((tok, X.deps(c), False),)
                if s.assume(c, False):
                    exits.append(s)
                if not self.st.assume(c, True):
                    self.st = None
                    return v
            fr.loops.append(([], []))
            try:
                body()
            except Dead:
                self.st = None
            brk, cont = fr.loops.pop()
            for s in brk:
                exits.append(("brk", s))
            for s in cont:
                self.st = s if self.st is None else join_states(self.w, self.st, s)
            return v
        while True:
            it += 1
            try:
                v = once()
            except Dead:
                self.st = None
            if self.st is None:
                break
            if v is None or any(isinstance(e, tuple) for e in exits):
                und += 1
            if und > (maxit or maxund) or it > maxu or self.stmts > self.budget * 0.8:
                # fixpoint
                entry = self.st
                uid = ("ploop", X.fresh())

                def head(H):
                    H.refine = dict(entry.refine)
                    H.truth = dict(entry.truth)
                    H.ctl = entry.ctl
                    return H
                H = head(entry.copy())
                self.w.cnt += 1
                site = str(self.w.cnt) if not self.iters else "%s.%d" % tuple(self.iters[-1])
                for k in range(60):
                    mark = len(exits)
                    ne = len(fr.rets)
                    self.st = H.copy()
                    self.iters.append([site, 0])
                    try:
                        once()
                    except Dead:
                        self.st = None
                    finally:
                        self.iters.pop()
                    if self.st is None:
                        break
                    N = head(join_states(self.w, H, self.st, uid, widen=k > 0))
                    if same_state(H, N):
                        N = head(join_states(self.w, entry, self.st, uid))
                        del exits[mark:]
                        del fr.rets[ne:]
                        self.st = N
                        self.iters.append([site, 0])
                        try:
                            once()
                        except Dead:
                            pass
                        finally:
                            self.iters.pop()
                        break
                    del exits[mark:]
                    del fr.rets[ne:]
                    H = N
                else:
                    raise Broken("no fixpoint for the loop at %s:%d" % self.pos(n))
                self.st = None
                break
        norm = [e for e in exits if not isinstance(e, tuple)]
        brk = [e[1] for e in exits if isinstance(e, tuple)]
        self.st = None
        for s in norm:
            self.st = s if self.st is None else join_states(self.w, self.st, s)
        if self.st is not None and els is not None:
            self.exec(els)
        for s in brk:
            self.st = s if self.st is None else join_states(self.w, self.st, s)
        if self.st is not None:
            self.st.ctl = self.st.ctl[:n0]

    def x_WhileStatNode(self, n):
        self.loop(n, lambda: self.cond(n.condition) if n.condition is not None else X.B1, lambda: self.exec(n.body), n.else_clause)

    def x_ForFromStatNode(self, n):
        a, b = self.ev(n.bound1), self.ev(n.bound2)
        if n.relation1 not in ("<=", "<") or n.relation2 not in ("<", "<="):
            raise Broken("for-from loop relation")
        tc = self.ct(n.target.type)
        a = self.conv(a, n.bound1.type, n.target.type)
        b = self.conv(b, n.bound2.type, n.target.type)
        if n.relation1 == "<":
            a = X.add(a, X.const(1, a.w))
        step = X.const(1, a.w) if n.step is None else self.conv(self.ev(n.step), n.step.type, n.target.type)
        self.count_loop(n, n.target, a, b, step, tc.signed, "le" if n.relation2 == "<=" else "lt")

    def count_loop(self, n, target, a, b, step, signed, rel="lt", conv=None):
        key = (self.fr.id, ("cnt", X.fresh()))
        st = self.st
        st.env[key] = a
        desc = X.is_c(step) and (X.sval(step) if step.w != PYW else step.lo) < 0
        p = ("s" if signed or a.w == PYW else "u") + rel

        def test():
            i = self.st.env[key]
            return X.cmp_(p, b, i) if desc else X.cmp_(p, i, b)

        def body():
            i = self.st.env[key]
            c = self.st.getconst(i)
            if c is not None:
                i = X.const(c, i.w)
            self.assign(target, conv(i) if conv else i, None)
            self.st.env[key] = X.add(i, step)
            self.exec(n.body)
            if self.st is None:
                raise Dead()
            return
        # the increment happens logically after the body; the counter is private so the order is immaterial
        self.loop(n, test, body, n.else_clause)
        if self.st is not None:
            self.st.env.pop(key, None)

    def x_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence
        tgt = n.target
        k = type(seq).__name__
        while k in ("CoerceToTempNode", "NoneCheckNode", "PyTypeTestNode"):
            seq = seq.arg
            k = type(seq).__name__
        rev = False
        if k == "SimpleCallNode" and getattr(seq.function, "name", None) == "range" and not seq.function.type.is_cfunction:
            args = [self.ev(a) for a in seq.arg_tuple.args]
            args = [self.asint(a) if not isinstance(a.w, int) else (a if a.w == PYW else X.zext(a, PYW)) for a in args]
            if len(args) == 1:
                a, b, s = X.pyint(0), args[0], X.pyint(1)
            else:
                a, b = args[0], args[1]
                s = args[2] if len(args) > 2 else X.pyint(1)
            tt = self.ct(tgt.type)
            conv = None
            if tt.kind == "int":
                # C counter: analyse with the counter's own width
                conv = lambda i: X.trunc(i, 8 * tt.size)
                self.event("range", n, ctr=tt.size, signed=tt.signed, bound=b, rng=self.st.rng(b))
            self.count_loop(n, tgt, a, b, s, True, "lt", conv)
            return
        v = self.ev(seq)
        self.iterate(n, tgt, v)

    def iterate(self, n, tgt, v):
        items = self.items_of(v)
        if items is not None:
            fr = self.fr
            exits = []
            n0 = len(self.st.ctl)
            for x in items:
                fr.loops.append(([], []))
                try:
                    self.assign(tgt, x, None)
                    self.exec(n.body)
                except Dead:
                    self.st = None
                brk, cont = fr.loops.pop()
                exits += brk
                for s in cont:
                    self.st = s if self.st is None else join_states(self.w, self.st, s)
                if self.st is None:
                    break
            if self.st is not None and n.else_clause is not None:
                self.exec(n.else_clause)
            for s in exits:
                self.st = s if self.st is None else join_states(self.w, self.st, s)
            if self.st is not None:
                self.st.ctl = self.st.ctl[:n0]
            return
        # unknown number of iterations over opaque elements
        ln = X.opq("len", (v,), PYW, 0, 1 << 62)
        key = (self.fr.id, ("cnt", X.fresh()))
        self.st.env[key] = X.pyint(0)

        def body():
            i = self.st.env[key]
            self.st.env[key] = X.add(i, X.pyint(1))
            self.assign(tgt, X.opq("item", (v, i), "o"), None)
            self.exec(n.body)
            if self.st is None:
                raise Dead()
        self.loop(n, lambda: X.cmp_("slt", self.st.env[key], ln), body, n.else_clause, maxund=1)
        if self.st is not None:
            self.st.env.pop(key, None)

    def items_of(self, v):
        """known element list of an iterable term, or None"""
        if v.op == "tup":
            return list(v.args)
        if v.op == "k" and isinstance(v.args[1], str):
            return [X.konst(c) for c in v.args[1]]
        h = self.h(v)
        if isinstance(h, HList) and h.items is not None:
            return list(h.items)
        if isinstance(h, HDict) and h.open is None:
            return [a for a, b in h.items]
        if isinstance(h, HArr) and h.ndim == 1:
            c = self.st.getconst(h.n)
            if c is not None and c <= 2000:
                return [self.arr_load(h, X.pyint(i)) for i in range(c)]
        return None

    # ------------------------------------------------------------ assignment
    def assign(self, lhs, v, src):
        k = type(lhs).__name__
        t = lhs.type
        if k == "NameNode":
            e = lhs.entry
            if e is not None and (e.is_pyglobal or getattr(e, "is_cglobal", False)) and not e.is_local:
                if getattr(e, "is_cglobal", False) and not e.is_pyglobal and not (e.type.is_pyobject and e.scope and False):
                    o = self.modvar(e)
                    if self.frames and self.fr.name != "<module>":
                        self.event("global-write", lhs, name=e.name)
                    self.store(X.ptr(o.oid, Z64), o.extra["ct"], self.fit(v, lhs, src), lhs)
                    return
                if self.fr.name != "<module>":
                    self.event("global-write", lhs, name=e.name)
                self.st.env[(("mod", self.fr.mod.name), lhs.name)] = v
                return
            fid = self.fr.id
            if self.fr.up is not None and getattr(e, "from_closure", False):
                raise Broken("assignment to a variable of the enclosing function")
            if self.fr.name == "<module>":
                fid = ("mod", self.fr.mod.name)
            if ("addr", lhs.name) in self.fr.nv or t.is_struct_or_union or t.is_array:
                o = self.localobj(lhs)
                self.store(X.ptr(o, Z64), self.ct(t), self.fit(v, lhs, src), lhs)
                return
            self.st.env[(fid, lhs.name)] = self.fit(v, lhs, src)
            return
        if k == "AttributeNode":
            if lhs.is_py_attr or (lhs.obj.type.is_pyobject and not self.is_cattr(lhs)):
                o = self.ev(lhs.obj)
                self.setattr(o, lhs.attribute, v, lhs)
                return
            p, c = self.addr(lhs)
            self.store(p, c, self.fit(v, lhs, src), lhs)
            return
        if k == "IndexNode":
            if lhs.base.type.is_ptr or lhs.base.type.is_array:
                p, c = self.addr(lhs)
                self.store(p, c, self.fit(v, lhs, src), lhs)
                return
            b = self.ev(lhs.base)
            i = self.ev(lhs.index)
            i = self.pyindex(i, lhs.index)
            self.setitem(b, i, v, lhs)
            return
        if k in ("BufferIndexNode", "MemoryViewIndexNode"):
            b = self.ev(lhs.base)
            idx = [self.pyindex(self.ev(i), i) for i in lhs.indices]
            if len(idx) != 1:
                raise Broken("multi-dimensional buffer access")
            h = self.h(b)
            if not isinstance(h, HArr):
                p = self.data_of(b, lhs)
                c = self.ct(t)
                self.store(self.memci().ptradd(p, X.trunc(X.mul(idx[0], X.pyint(c.size)), 64)), c, v, lhs)
                return
            c = self.arr_elem_ct(h)
            if c.kind == "float":
                self.arr_store_raw(h, idx[0], self.convct(v, CT("int", 8), c), lhs)
                return
            if not isinstance(v.w, int):
                v = self.toint(v, c, lhs)
            if v.w != 8 * c.size:
                v = X.trunc(v, 8 * c.size) if v.w > 8 * c.size else X.zext(v, 8 * c.size)
            self.unchk = self.nocheck()
            try:
                self.arr_store_raw(h, idx[0], v, lhs)
            finally:
                self.unchk = False
            return
        if k == "TupleNode" or k == "ListNode":
            items = self.items_of(v)
            if items is None:
                items = [X.opq("getitem", (v, X.pyint(i)), "o") for i in range(len(lhs.args))]
            if len(items) != len(lhs.args):
                self.raise_("ValueError", lhs)
            # unpacked targets may carry a coercion
            cs = getattr(lhs, "coerced_unpacked_items", None)
            ui = getattr(lhs, "unpacked_items", None)
            for i, (a, x) in enumerate(zip(lhs.args, items)):
                self.assign(a, self.pyto(x, a.type, lhs), None)
            return
        if k == "SliceIndexNode":
            b = self.ev(lhs.base)
            a = self.pyindex(self.ev(lhs.start), lhs.start) if lhs.start is not None else X.NONE
            z = self.pyindex(self.ev(lhs.stop), lhs.stop) if lhs.stop is not None else X.NONE
            self.setitem(b, X._mk("slice", (a, z, X.NONE), "o"), v, lhs)
            return
        raise Broken("assignment target %s at %s:%d" % ((k,) + self.pos(lhs)))

    def is_cattr(self, n):
        e = n.entry
        return e is not None and e.is_variable and n.obj.type.is_extension_type and not n.is_py_attr

    def fit(self, v, lhs, src):
        """convert an assigned value to the target's C type"""
        t = lhs.type
        if src is not None and not t.is_pyobject and not getattr(t, "is_memoryviewslice", False):
            st_ = src.type
            if st_ is not None and not st_.is_pyobject:
                return self.conv(v, st_, t)
        if not t.is_pyobject and t.is_numeric if hasattr(t, "is_numeric") else False:
            c = self.ct(t)
            if isinstance(v.w, int) and c.kind == "int" and v.w != 8 * c.size:
                return X.trunc(v, 8 * c.size) if v.w > 8 * c.size else X.zext(v, 8 * c.size)
            if c.kind == "int" and not isinstance(v.w, int):
                return self.toint(v, c, lhs)
        return v

    def pyto(self, v, t, n):
        """Python object -> value of cython type t"""
        if t is None or t.is_pyobject or getattr(t, "is_memoryviewslice", False):
            return v
        c = self.ct(t)
        if c.kind == "int":
            if type(t).__name__ == "CBIntType":
                return X.zext(self.truth(v), 32)
            return self.toint(v, c, n)
        if c.kind == "float":
            if v.w in ("f64", "f32"):
                return v
            if X.is_c(v):
                return X.fconst(float(X.sval(v)))
            self.mayraise("TypeError", n)
            return X.opq("pyfloat", (v,), "f64")
        return v

    def localobj(self, n):
        """memory object of an address-taken or aggregate local"""
        nv = self.fr.nv
        oid = nv.get(("addr", n.name))
        if oid is None:
            c = self.ct(n.type)
            o = self.w.new("local", size=c.size, layout=c.layout if c.kind == "struct" else None, name="local %s" % n.name, dflt="undef")
            o.esize = c.size if c.kind in ("int", "ptr", "float") else c.el.size if c.kind == "array" else 1
            oid = nv[("addr", n.name)] = o.oid
            old = self.st.env.pop((self.fr.id, n.name), None)
            if old is not None:
                self.w.store(self.st, oid, 0, c.size, old)
        return oid

    # ------------------------------------------------------------ C lvalues
    def addr(self, n):
        """(pointer term, CT) of a C lvalue expression"""
        k = type(n).__name__
        if k == "NameNode":
            e = n.entry
            if e.is_cfunction:
                return self.fnaddr(e, n), CT("ptr", 8)
            if e.is_local or e.is_arg:
                return X.ptr(self.localobj(n), Z64), self.ct(n.type)
            if e.visibility == "extern":
                m = self.defmod(e)
                g = self.prog(self.fr.mod.name).globals.get("@" + e.cname)
                if g is not None:
                    ci = self.ci(self.fr.mod.name)
                    o = ci.gobj("@" + e.cname, self.prog(self.fr.mod.name).stub)
                    return X.ptr(o.oid, Z64), self.ct(n.type)
                raise Broken("extern variable %s" % e.cname)
            o = self.modvar(e)
            return X.ptr(o.oid, Z64), o.extra["ct"]
        if k == "AttributeNode":
            ot = n.obj.type
            if ot.is_extension_type or (ot.is_pyobject and n.entry is not None and n.entry.is_variable):
                o = self.ev(n.obj)
                return self.attr_addr(o, n)
            if ot.is_ptr:
                p = self.ev(n.obj)
                c = self.ct(ot.base_type)
            else:
                p, c = self.addr(n.obj)
            mem = n.member if getattr(n, "member", None) else n.attribute
            if not c.members:
                raise Broken("no members for %s at %s:%d" % ((c,) + self.pos(n)))
            f = c.members.get(n.attribute) or c.members.get(mem)
            if f is None:
                # anonymous union/struct declared by name in the pxd: look one level down
                raise Broken("member %s of %s is gone (%s:%d)" % ((n.attribute, c) + self.pos(n)))
            fc = f[1]() if callable(f[1]) else f[1]
            return self.memci().ptradd(p, X.const(f[0], 64)), fc
        if k == "IndexNode":
            bt = n.base.type
            if bt.is_ptr:
                p = self.ev(n.base)
                c = self.ct(bt.base_type)
            else:
                p, ac = self.addr(n.base)
                c = ac.el
            i = self.ev(n.index)
            if isinstance(i.w, int) and i.w != 64:
                ic = self.ct(n.index.type)
                i = X.trunc(i, 64) if i.w > 64 else (X.sext(i, 64) if ic.signed else X.zext(i, 64))
            lo, hi = self.st.rng(i)
            off = X.mul(i, X.const(c.size, 64))
            if not X.is_c(off) and hi < (1 << 62) // max(1, c.size):
                self.st._narrow(off, lo * c.size, hi * c.size)
            return self.memci().ptradd(p, off), c
        if k in ("MemoryViewIndexNode", "BufferIndexNode") and len(n.indices) == 1:
            b = self.ev(n.base)
            i = self.pyindex(self.ev(n.indices[0]), n.indices[0])
            c = self.ct(n.type)
            off = X.trunc(X.mul(i, X.pyint(c.size)), 64)
            lo, hi = self.st.rng(i)
            if not X.is_c(off) and 0 <= lo and hi < (1 << 40):
                self.st._narrow(off, lo * c.size, hi * c.size)
            return self.memci().ptradd(self.data_of(b, n), off), c
        if k in ("TypecastNode", "CoerceToTempNode", "CloneNode", "NoneCheckNode"):
            if k == "TypecastNode":
                raise Broken("address of a cast")
            return self.addr(n.arg)
        raise Broken("address of %s at %s:%d" % ((k,) + self.pos(n)))

    def attr_addr(self, o, n):
        h = self.h(o)
        if isinstance(h, HInst):
            a = self.attr_obj(o.args[0], n.attribute, n.entry.type)
            return X.ptr(a.oid, Z64), a.extra["ct"]
        if o.op == "phi" and o.args[4]:
            raise Broken("attribute address of a joined object")
        if isinstance(h, HArr):
            raise Broken("array field address")
        # unknown instance of an extension type: external object, one memory object per attribute
        oid = "ext(%d).%s" % (o.tid, n.attribute)
        if oid not in self.w.objs:
            c = self.ct(n.entry.type)
            ob = self.w.new("extattr", oid=oid, size=c.size, layout=c.layout if c.kind == "struct" else None, name=oid, dflt="in")
            ob.esize = c.size if c.kind in ("int", "ptr", "float", "obj") else 1
            ob.extra["ct"] = c
            if c.kind == "obj":
                ob.dflt = lambda st, o_, off, size: X.opq("getattr", (o, X.konst(n.attribute)), "o")
        return X.ptr(oid, Z64), self.w.objs[oid].extra["ct"]

    def defmod(self, e):
        sc = e.scope
        while sc is not None and not getattr(sc, "is_module_scope", False):
            sc = sc.parent_scope or sc.outer_scope
        return sc.qualified_name if sc is not None else None

    def fnaddr(self, e, n):
        d = self.find_cdef(e)
        if d is not None:
            nm = "cy:%s:%s" % (d._sa_mod.name, e.func_cname or e.cname)
            self.cyfuncs = getattr(self, "cyfuncs", {})
            self.cyfuncs[nm] = d
            return X.fnptr(nm)
        return X.fnptr(e.func_cname or e.cname)

    def find_cdef(self, e):
        """CFuncDefNode of a cdef function entry, or None for extern C"""
        m = self.fr.mod
        cn = e.func_cname or e.cname
        d = m.entries.get(cn)
        if d is not None:
            return d
        q = self.defmod(e)
        if q and q.startswith("randomgen") and e.visibility != "extern":
            mm = self.module(q)
            d = mm.entries.get(cn) or mm.funcs.get(e.name)
            if d is not None:
                return d
        return None

    # call from C through a Cython function pointer
    def call_from_c(self, name, args, st):
        d = self.cyfuncs[name]
        saved, fs = self.st, self.frames
        self.st = st
        self.frames = list(fs)
        if not self.frames:
            self.frames = [PFrame(("mod", d._sa_mod.name), d._sa_mod, None, None, "<c>")]
        try:
            try:
                r = self.call_cdef(d, args)
            except Dead:
                return None, None
            return r, self.st
        finally:
            self.st, self.frames = saved, fs

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        k = type(n).__name__
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Broken("expression %s at %s:%d is not supported" % ((k,) + self.pos(n)))
        v = m(n)
        self.fr.nv[id(n)] = v
        return v

    def cond(self, n):
        """evaluate a condition to a 1-bit term"""
        v = self.ev(n)
        return self.truth(v)

    def e_IntNode(self, n):
        v = int(self.intval(n.value))
        if n.type.is_pyobject:
            return X.pyint(v)
        c = self.ct(n.type)
        if c.kind == "float":
            return X.fconst(float(v))
        return X.const(v, 8 * c.size)

    def intval(self, s):
        s = str(s).rstrip("uUlL")
        try:
            return int(s, 0)
        except ValueError:
            return int(s, 8)

    def e_FloatNode(self, n):
        return X.fconst(float(n.value))

    def e_UnicodeNode(self, n):
        return X.konst(str(n.value))

    e_IdentifierStringNode = e_UnicodeNode

    def e_StringNode(self, n):
        v = n.value
        return X.konst(v.decode("latin1") if isinstance(v, bytes) else str(v))

    e_BytesNode = e_CharNode = e_StringNode

    def e_NoneNode(self, n):
        return X.NONE

    def e_NullNode(self, n):
        return X.NULL

    def e_EllipsisNode(self, n):
        return X.konst(Ellipsis)

    def e_BoolNode(self, n):
        if n.type.is_pyobject:
            return X.TRUE if n.value else X.FALSE
        return X.const(1 if n.value else 0, 32)

    def e_NameNode(self, n):
        e = n.entry
        name = n.name
        fr = self.fr
        st = self.st
        if e is None:
            return self.lookup_global(fr.mod, name, n)
        if e.is_cfunction and not (e.is_local):
            if n.type.is_pyobject or getattr(e, "as_variable", None) is not None and n.type.is_pyobject:
                return X.glob("%s.%s" % (self.defmod(e) or fr.mod.name, e.name))
            return self.fnaddr(e, n)
        if fr.name == "<module>":
            v = st.env.get((("mod", fr.mod.name), name))
            if v is not None:
                return v
        if e.is_local or e.is_arg or (fr.fn is not None and (fr.id, name) in st.env):
            oid = fr.nv.get(("addr", name))
            if oid is not None:
                if n.type.is_struct_or_union:
                    c = self.ct(n.type)
                    return self.load(X.ptr(oid, Z64), c, n)
                return self.load(X.ptr(oid, Z64), self.ct(n.type), n)
            v = st.env.get((fr.id, name))
            if v is not None:
                return v
            t = n.type
            if fr.up is not None:
                outer = self.closure_lookup(name)
                if outer is not None:
                    return outer
                f = fr.up
                while f is not None:
                    if ("addr", name) in f.nv:
                        return self.load(X.ptr(f.nv[("addr", name)], Z64), self.ct(t), n)
                    f = f.up
            if t.is_array or t.is_struct_or_union:
                oid = self.localobj(n)
                return self.load(X.ptr(oid, Z64), self.ct(t), n)
            if t.is_pyobject or getattr(t, "is_memoryviewslice", False):
                if e.is_local and not e.is_arg:
                    outer = self.closure_lookup(name)
                    if outer is not None:
                        return outer
                self.raise_("UnboundLocalError", n)
            c = self.ct(t)
            key = ("undef", "local %s in %s" % (name, fr.name))
            return X.leaf("undef", (fr.name, name), 8 * c.size if c.kind != "float" else "f64", key)
        if e.is_type or getattr(e, "is_cclass", False) or e.is_builtin and e.is_type:
            q = self.defmod(e)
            if e.is_builtin or q in (None, "builtins", "__builtin__"):
                return X.glob("builtins." + e.name)
            return X.glob("%s.%s" % (q, e.name))
        if getattr(e, "is_builtin", False):
            v = st.env.get((("mod", fr.mod.name), name))
            return v if v is not None else X.glob("builtins." + name)
        if getattr(e, "enum_int_value", None) is not None:
            return X.const(int(e.enum_int_value), 8 * self.ct(n.type).size)
        if getattr(e, "is_const", False) or (e.visibility == "extern" and not e.is_pyglobal and not n.type.is_pyobject):
            return self.extern_value(e, n)
        if n.type.is_pyobject and "ptype" in str(e.cname):
            t = fr.mod.scope.lookup(name)
            if t is not None and t.type is not None and t.type.is_extension_type:
                q = t.type.scope.parent_scope.qualified_name if t.type.scope is not None else self.defmod(t)
                return X.glob("%s.%s" % (q, t.type.name))
        if e.is_cglobal if hasattr(e, "is_cglobal") else False:
            o = self.modvar(e)
            return self.load(X.ptr(o.oid, Z64), o.extra["ct"], n)
        if e.is_pyglobal or e.is_pyclass_attr:
            return self.lookup_global(fr.mod, name, n)
        if e.visibility == "extern" or not n.type.is_pyobject:
            return self.extern_value(e, n)
        o = self.closure_lookup(name)
        if o is not None:
            return o
        return self.lookup_global(fr.mod, name, n)

    def closure_lookup(self, name):
        f = self.fr.up
        while f is not None:
            v = self.st.env.get((f.id, name))
            if v is not None:
                return v
            f = f.up
        for f in reversed(self.frames[:-1]):
            v = self.st.env.get((f.id, name))
            if v is not None:
                return v
        return None

    def extern_value(self, e, n):
        if e.type.is_struct_or_union or e.type.is_array:
            p, c = self.addr(n)
            return p if c.kind == "array" else self.load(p, c, n)
        try:
            p = self.prog(self.fr.mod.name)
        except Broken:
            p = None
        if p is not None:
            v = p.consts.get(e.cname)
            if v is not None:
                return X.const(v, 8 * self.ct(n.type).size)
            if "@" + e.cname in p.globals:
                a, c = self.addr(n)
                return self.load(a, c, n)
        q = self.defmod(e)
        if q and q.startswith("randomgen") and e.visibility != "extern":
            self.module(q)
            o = self.modvar(e)
            return self.load(X.ptr(o.oid, Z64), o.extra["ct"], n)
        c = self.ct(n.type)
        if c.kind == "obj":
            return X.glob("%s.%s" % (q, e.name))
        return X.leaf("const", (e.cname,), 8 * c.size if c.kind != "float" else "f64", ("const", e.cname))

    def e_AttributeNode(self, n):
        ot = n.obj.type
        e = n.entry
        if e is not None and e.is_cfunction and not n.is_py_attr and not e.is_cmethod and (ot is None or not ot.is_pyobject):
            return self.fnaddr(e, n)
        if n.is_py_attr or (ot.is_pyobject and not self.is_cattr(n)):
            if e is not None and e.is_cmethod and not n.is_py_attr:
                o = self.ev(n.obj)
                return X.opq("cmeth", (o, X.konst(n.attribute)), "o")
            o = self.ev(n.obj)
            return self.getattr(o, n.attribute, n)
        if ot.is_extension_type or ot.is_pyobject:
            o = self.ev(n.obj)
            if o.op == "phi" and o.args[4]:
                return self.split_alts(o, lambda x: self.cattr_load(x, n))
            return self.cattr_load(o, n)
        p, c = self.addr(n)
        return self.load(p, c, n)

    def cattr_load(self, o, n):
        h = self.h(o)
        if isinstance(h, HArr):
            return self.getattr(o, n.attribute, n)
        if o.op == "k":
            self.raise_("AttributeError", n)
        p, c = self.attr_addr(o, n)
        if c.kind == "array":
            return p
        return self.load(p, c, n)

    def e_AmpersandNode(self, n):
        return self.addr(n.operand)[0]

    def e_DereferenceNode(self, n):
        p = self.ev(n.operand)
        return self.load(p, self.ct(n.type), n)

    def e_TypecastNode(self, n):
        op = n.operand
        v = self.ev(op)
        t, f = n.type, op.type
        if f is not None and f.is_array and t.is_ptr:
            return v
        if t.is_pyobject or getattr(t, "is_memoryviewslice", False):
            return v
        if f is None or f.is_pyobject:
            if t.is_ptr:
                return X.opq("objptr", (v,), 64)
            return self.pyto(v, t, n)
        if t.is_ptr or f.is_ptr:
            return v
        return self.conv(v, f, t)

    def e_SizeofTypeNode(self, n):
        return X.const(self.sizeof(n.arg_type), 64)

    def e_SizeofVarNode(self, n):
        return X.const(self.sizeof(n.operand.type), 64)

    def e_CythonArrayNode(self, n):
        ptr = self.ev(n.operand)
        ln = X.pyint(1)
        for x in n.shapes or ():
            v = self.ev(x)
            ln = X.mul(ln, X.sext(v, X.PYW) if v.w != X.PYW else v)
        bt = getattr(n.operand.type, "base_type", None)
        while bt is not None and bt.is_array:
            bt = bt.base_type
        c = self.ct(bt) if bt is not None else None
        dt = None
        if c is not None and c.kind == "int":
            dt = "%sint%d" % ("" if c.signed else "u", 8 * c.size)
        elif c is not None and c.kind == "float":
            dt = "float%d" % (8 * c.size)
        from .models import wrap_memory
        return wrap_memory(self, ptr, ln, dt, n)

    def e_CoerceToTempNode(self, n):
        return self.ev(n.arg)

    e_PyTypeTestNode = e_CoerceToTempNode
    e_ProxyNode = e_CoerceToTempNode
    e_CoerceToMemViewSliceNode = e_CoerceToTempNode
    e_PyConstNode = e_CoerceToTempNode

    def e_NoneCheckNode(self, n):
        v = self.ev(n.arg)
        if v is X.NONE:
            self.raise_("TypeError", n)
        return v

    def e_CloneNode(self, n):
        v = self.fr.nv.get(id(n.arg))
        return v if v is not None else self.ev(n.arg)

    e_CMethodSelfCloneNode = e_CloneNode

    def e_ResultRefNode(self, n):
        x = n.expression if n.expression is not None else None
        if x is None:
            v = self.fr.nv.get(("rr", id(n)))
            if v is None:
                raise Broken("unbound temp")
            return v
        v = self.fr.nv.get(id(x))
        return v if v is not None else self.ev(x)

    def e_EvalWithTempExprNode(self, n):
        te = n.temp_expression
        if te is None:
            te = n.lazy_temp.expression
        v = self.ev(te)
        self.fr.nv[("rr", id(n.lazy_temp))] = v
        return self.ev(n.subexpression)

    def e_CoerceToBooleanNode(self, n):
        return X.zext(self.truth(self.ev(n.arg)), 32)

    def e_CoerceFromPyTypeNode(self, n):
        v = self.ev(n.arg)
        return self.pyto(v, n.type, n)

    def e_CoerceToPyTypeNode(self, n):
        v = self.ev(n.arg)
        t = n.arg.type
        if t.is_pyobject:
            return v
        if type(t).__name__ == "CBIntType":
            c = self.st.eval_cmp(self.truth(v))
            if c is not None:
                return X.TRUE if c else X.FALSE
            return X.zext(self.truth(v), PYW)
        if getattr(t, "is_struct_or_union", False):
            raise Broken("struct to dict coercion")
        if getattr(t, "is_enum", False):
            return X.zext(v, PYW)
        if t.is_int:
            return self.topy(v, self.ct(t))
        return v

    def e_IntToBytes(self, n):
        raise Broken("char coercion")

    e_CoerceIntToBytesNode = e_IntToBytes

    def e_NotNode(self, n):
        return X.zext(X.not1(self.truth(self.ev(n.operand))), 32)

    def e_BoolBinopNode(self, n):
        a = self.ev(n.operand1)
        c = self.truth(a)
        if n.type.is_pyobject:
            f = (lambda: self.ev(n.operand2)), (lambda: a)
        else:
            # boolean in C: combine the conditions without joining when the second operand is pure
            f = (lambda: self.ev(n.operand2)), (lambda: a)
        if n.operator == "and":
            if self.st.eval_cmp(c) is None and self.pure(n.operand2) and not n.type.is_pyobject:
                b = self.purecond(n.operand2, c, True)
                if b is not None:
                    return X.zext(X.and_(c, b), 32)
            return self.split(c, f[0], f[1])
        if self.st.eval_cmp(c) is None and self.pure(n.operand2) and not n.type.is_pyobject:
            b = self.purecond(n.operand2, c, False)
            if b is not None:
                return X.zext(X.or_(c, b), 32)
        return self.split(c, f[1], f[0])

    def purecond(self, n, c, val):
        """condition n evaluated under c==val, on a throw-away copy"""
        keep = self.st
        s = keep.copy()
        if not s.assume(c, val):
            return None
        self.st = s
        try:
            nobj = self.w.cnt
            r = self.truth(self.ev(n))
            d = self.st.eval_cmp(r)
            if d is not None:
                r = X.B1 if d else X.B0
        except Dead:
            return None
        finally:
            self.st = keep
        return r

    def pure(self, n):
        """the expression has no effect and cannot raise in a way that matters"""
        p = getattr(n, "_sa_pure", None)
        if p is None:
            p = True
            for x in pyfront.walk_nodes(n):
                k = type(x).__name__
                if k in ("SimpleCallNode", "GeneralCallNode", "IndexNode", "EvalWithTempExprNode", "ComprehensionNode"):
                    if k == "SimpleCallNode" and getattr(x.function, "name", None) in ("isinstance", "len"):
                        continue
                    p = False
                    break
            n._sa_pure = p
        return p

    def e_BoolBinopResultNode(self, n):
        v = self.ev(n.arg)
        return self.ev(n.value) if type(n.value).__name__ != "CloneNode" else v

    def e_CondExprNode(self, n):
        c = self.cond(n.test)
        return self.split(c, lambda: self.ev(n.true_val), lambda: self.ev(n.false_val))

    def e_PrimaryCmpNode(self, n):
        a = self.ev(n.operand1)
        b = self.ev(n.operand2)
        r = self.compare(n.operator, a, b, n.operand1, n.operand2, n)
        c = n.cascade
        prev, pn = b, n.operand2
        while c is not None:
            v = self.ev(c.operand2)
            r2 = self.compare(c.operator, prev, v, pn, c.operand2, n)
            r = X.and_(r, r2)
            prev, pn = v, c.operand2
            c = c.cascade
        if n.type.is_pyobject:
            v = self.st.eval_cmp(r)
            return X.TRUE if v is True else X.FALSE if v is False else X.zext(r, PYW)
        return X.zext(r, 32)

    def compare(self, op, a, b, an, bn, n):
        at, bt = an.type, bn.type
        neg = False
        if op in ("not_in", "not in"):
            return X.not1(self.contains(a, b, n))
        if op == "in":
            return self.contains(a, b, n)
        if op in ("is", "is_not", "is not", "is_not"):
            r = self.py_is(a, b)
            return X.not1(r) if op != "is" else r
        if not at.is_pyobject and not bt.is_pyobject:
            return self.ccompare(op, a, b, at, bt, n)
        return self.pycompare(op, a, b, n)

    def ccompare(self, op, a, b, at, bt, n):
        P = {"==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[op]
        if isinstance(a.w, int) and isinstance(b.w, int):
            if a.op in ("ptr", "fn") or b.op in ("ptr", "fn") or at.is_ptr or bt.is_ptr:
                return self.memci().icmp(P if P in ("eq", "ne") else "u" + P, a, b)
            ca, cb = self.ct(at), self.ct(bt)
            w = max(a.w, b.w, 32)
            sg = all(c.signed or 8 * c.size < w for c in (ca, cb))
            a2 = X.sext(a, w) if ca.signed and a.w < w else X.zext(a, w) if a.w < w else a
            b2 = X.sext(b, w) if cb.signed and b.w < w else X.zext(b, w) if b.w < w else b
            if P in ("eq", "ne"):
                return X.cmp_(P, a2, b2)
            return X.cmp_(("s" if sg else "u") + P, a2, b2)
        if a.op == "ptr" or a.op == "fn" or b.op == "ptr" or b.op == "fn":
            return self.memci().icmp(P, a, b)
        fa = self.convct(a, self.ct(at), CT("float", 8))
        fb = self.convct(b, self.ct(bt), CT("float", 8))
        return self.memci().fcmp("o" + P, fa, fb)

    def py_is(self, a, b):
        if a is b:
            return X.B1
        if b.op == "k" and b.args[1] is None or a.op == "k" and a.args[1] is None:
            o = a if b is X.NONE else b
            if isinstance(o.w, int) or o.op in ("k", "g", "ref", "tup", "fc", "fn", "ptr") or o.w in ("f64", "f32"):
                return X.B0
            if o.op in ("getattr0",):
                return X.B0
            if o.op == "phi" and o.args[4] is not None:
                nn = [x for x in o.args[4] if x is X.NONE]
                if not nn:
                    return X.B0
            if o.op in ("in", "init", "elem", "getitem", "phi", "item", "getattr", "cvar", "callo", "deepcopy", "exc"):
                return X.cmp_("eq", o, X.NONE) if o.tid < X.NONE.tid else X._mk("cmp", ("eq", X.NONE, o), 1)
            return X.B0
        ka, kb = self.kindof(a), self.kindof(b)
        if ka and kb and (ka != kb or a.op in ("k", "g", "ref") and b.op in ("k", "g", "ref")):
            return X.B0
        if a.op == "g" and isinstance(b.w, int) or b.op == "g" and isinstance(a.w, int):
            return X.B0
        x, y = (a, b) if a.tid < b.tid else (b, a)
        if x.op == "phi" and x.args[4] is not None and y.op in ("k", "g") and y not in x.args[4] and all(z.op in ("k", "g", "c") for z in x.args[4]):
            return X.B0
        if y.op == "phi" and y.args[4] is not None and x.op in ("k", "g") and x not in y.args[4] and all(z.op in ("k", "g", "c") for z in y.args[4]):
            return X.B0
        return X._mk("cmp", ("eq", x, y), 1)

    def kindof(self, t):
        """rough Python kind of a term: 'str','int','none','bool','dict','list','array','inst','type','float','tuple' or None"""
        if t.op == "k":
            v = t.args[1]
            return {"str": "str", "NoneType": "none", "bool": "bool", "float": "float", "ellipsis": "ellipsis"}.get(type(v).__name__, "k")
        if isinstance(t.w, int):
            return "int"
        if t.op == "fc" or t.w in ("f64", "f32"):
            return "float"
        if t.op == "tup":
            return "tuple"
        if t.op == "g":
            return "glob"
        h = self.h(t)
        if h is not None:
            return {HDict: "dict", HList: "list", HArr: "array", HInst: "inst", HObj: None}[type(h)] or ("obj:" + h.kind)
        if t.op in ("strop", "format"):
            return "str"
        return None

    DTY = re.compile(r"^(numpy|dtype:)\.?(uint64|uint32|uint8|uint16|int64|int32|int8|float64|float32|object|bool|longdouble|complex128|intp|bool_)$")

    def dtname(self, t):
        if t.op == "g":
            m = self.DTY.match(t.args[0])
            if m:
                return m.group(2)
            return {"builtins.object": "object", "builtins.float": "float64", "builtins.int": "int64", "builtins.bool": "bool",
                    "builtins.complex": "complex128", "numpy.double": "float64", "numpy.single": "float32", "numpy.uint": "uint64",
                    "numpy.int_": "int64"}.get(t.args[0])
        if t.op == "k" and isinstance(t.args[1], str) and t.args[1] in DT:
            return t.args[1]
        return None

    def pyeq(self, a, b):
        """1-bit term a == b for Python objects"""
        if a is b and a.op != "phi":
            return X.B1
        if a.op == "tup" and b.op == "tup":
            if len(a.args) != len(b.args):
                return X.B0
            r = X.B1
            for x, y in zip(a.args, b.args):
                r = X.and_(r, self.pyeq(x, y))
            return r
        da, db = self.dtname(a), self.dtname(b)
        if da and db and (a.op == "g" or b.op == "g"):
            return X.B1 if da == db else X.B0
        if a.op == "k" and isinstance(a.args[1], bool):
            a = X.pyint(int(a.args[1]))
        if b.op == "k" and isinstance(b.args[1], bool):
            b = X.pyint(int(b.args[1]))
        if isinstance(a.w, int) and isinstance(b.w, int):
            w = max(a.w, b.w)
            return X.cmp_("eq", X.zext(a, w), X.zext(b, w)) if a.w != b.w else X.cmp_("eq", a, b)
        if a.op == "fc" and X.is_c(b) or b.op == "fc" and X.is_c(a):
            x, y = (a.args[0], b.lo) if a.op == "fc" else (b.args[0], a.lo)
            return X.B1 if x == y else X.B0
        ka, kb = self.kindof(a), self.kindof(b)
        if ka and kb and ka != kb and not (set((ka, kb)) <= set(("int", "float", "array", "bool"))) and not ka.startswith("obj:") and not kb.startswith("obj:"):
            if "array" not in (ka, kb) and "inst" not in (ka, kb):
                return X.B0
        if ka == kb and ka in ("str", "none", "bool") and a.op == "k" and b.op == "k":
            return X.B1 if a.args[1] == b.args[1] else X.B0
        if a.op == "g" and b.op == "g":
            return X.B1 if a.args[0] == b.args[0] else X.B0
        for x, y in ((a, b), (b, a)):
            if x.op == "phi" and x.args[4] is not None and y.op in ("k", "c", "g"):
                rs = [self.pyeq(z, y) for z in x.args[4]]
                if all(r is X.B1 for r in rs):
                    return X.B1
                if all(r is X.B0 for r in rs):
                    return X.B0
        x, y = (a, b) if a.tid <= b.tid else (b, a)
        return X._mk("cmp", ("eq", x, y), 1)

    def pycompare(self, op, a, b, n):
        if op == "==":
            return self.pyeq(a, b)
        if op == "!=":
            return X.not1(self.pyeq(a, b))
        P = {"<": "slt", "<=": "sle", ">": "sgt", ">=": "sge"}[op]
        if a.op == "fc" and X.is_c(b) or b.op == "fc" and X.is_c(a) or a.op == "fc" and b.op == "fc":
            f = lambda t: t.args[0] if t.op == "fc" else t.lo
            import operator as O
            return X.B1 if {"<": O.lt, "<=": O.le, ">": O.gt, ">=": O.ge}[op](f(a), f(b)) else X.B0
        ka, kb = self.kindof(a), self.kindof(b)
        if "none" in (ka, kb):
            self.raise_("TypeError", n)
        if ka == "array" or kb == "array" or (ka and ka.startswith("obj")):
            return X.opq("cmp" + op, (a, b), 1)
        if not isinstance(a.w, int) or not isinstance(b.w, int):
            self.mayraise("TypeError", n)
            if not isinstance(a.w, int) and a.w in ("f64", "f32") or not isinstance(b.w, int) and b.w in ("f64", "f32"):
                return X.opq("fcmp" + op, (a, b), 1)
        a, b = self.asint(a), self.asint(b)
        return X.cmp_(P, a, b)

    def contains(self, a, b, n):
        items = self.items_of(b)
        if b.op == "k" and isinstance(b.args[1], str):
            if a.op == "k" and isinstance(a.args[1], str):
                return X.B1 if a.args[1] in b.args[1] else X.B0
            return X.opq("contains", (a, b), 1)
        if items is not None:
            r = X.B0
            for x in items:
                r = X.or_(r, self.pyeq(a, x))
            return r
        h = self.h(b)
        if isinstance(h, HDict):
            r = X.B0
            for k, v in h.items:
                if v.op == "phi" and ("undef", "maybe-unassigned") in X.deps(v):
                    return X.opq("contains", (a, b), 1)
                r = X.or_(r, self.pyeq(a, k))
            if r is X.B1:
                return r
            return X.or_(r, X.opq("contains", (a, b), 1))
        return X.opq("contains", (a, b), 1)

    # ---- arithmetic
    def e_binop(self, n):
        a = self.ev(n.operand1)
        b = self.ev(n.operand2)
        if n.type.is_pyobject:
            a2, b2 = a, b
            return self.pybinop(n.operator, a2, b2, n)
        return self.cbinop(n.operator, a, b, n.operand1.type, n.operand2.type, n.type, n)

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_IntBinopNode = e_PowNode = e_MatMultNode = e_NumBinopNode = e_binop

    def cbinop(self, op, a, b, at, bt, rt, n):
        op = op.rstrip("=") if op.endswith("=") and op not in ("==",) else op
        if at.is_ptr or bt.is_ptr or at.is_array or bt.is_array:
            if op in ("+", "-"):
                if bt.is_ptr and not at.is_ptr:
                    a, b, at, bt = b, a, bt, at
                if bt.is_ptr:
                    return self.memci().binop("sub", a, b, None, None) if False else X.opq("ptrdiff", (a, b), 64)
                es = self.ct(at.base_type).size
                ic = self.ct(bt)
                b = X.sext(b, 64) if ic.signed and b.w < 64 else X.zext(b, 64) if b.w < 64 else b
                off = X.mul(b, X.const(es, 64))
                if op == "-":
                    off = X.sub(X.const(0, 64), off)
                return self.memci().ptradd(a, off)
            raise Broken("pointer arithmetic %s" % op)
        c = self.ct(rt)
        if c.kind == "float":
            fa = self.convct(a, self.ct(at), c)
            fb = self.convct(b, self.ct(bt), c)
            o = {"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv", "%": "frem"}.get(op)
            if o is None:
                return X.opq("f" + op, (fa, fb), fa.w)
            return self.memci().fbin(o, fa, fb, fa.w)
        w = 8 * c.size
        if op in ("<<", ">>"):
            a = self.conv(a, at, rt)
            if b.w != w:
                b = X.trunc(b, w) if b.w > w else X.zext(b, w)
            if op == "<<":
                return X.shift("shl", a, b)
            return X.shift("ashr" if c.signed else "lshr", a, b)
        a = self.conv(a, at, rt)
        b = self.conv(b, bt, rt)
        if op == "+":
            return X.add(a, b)
        if op == "-":
            return X.sub(a, b)
        if op == "*":
            return X.mul(a, b)
        if op == "&":
            return X.and_(a, b)
        if op == "|":
            return X.or_(a, b)
        if op == "^":
            return X.xor(a, b)
        if op in ("//", "/"):
            ra, rb = self.st.rng(a), self.st.rng(b)
            H = 1 << (w - 1)
            if not c.signed or (ra[1] < H and rb[1] < H):
                return X.udiv(a, b)
            return X.sdiv(a, b)
        if op == "%":
            ra, rb = self.st.rng(a), self.st.rng(b)
            H = 1 << (w - 1)
            if not c.signed or (ra[1] < H and rb[1] < H):
                return X.urem(a, b)
            return X.opq("pymod", (a, b), w)
        if op == "**":
            if X.is_c(a) and X.is_c(b):
                return X.const(X.sval(a) ** X.sval(b), w)
            return X.opq("pow", (a, b), w)
        raise Broken("C operator %s" % op)

    def pybinop(self, op, a, b, n, inplace=False):
        op = op[:-1] if op.endswith("=") and len(op) > 1 and op not in ("==", "<=", ">=", "!=") else op
        if a.op == "k" and isinstance(a.args[1], bool):
            a = X.pyint(int(a.args[1]))
        if b.op == "k" and isinstance(b.args[1], bool):
            b = X.pyint(int(b.args[1]))
        ka, kb = self.kindof(a), self.kindof(b)
        if isinstance(a.w, int) and isinstance(b.w, int):
            return self.intop(op, X.zext(a, PYW) if a.w != PYW else a, X.zext(b, PYW) if b.w != PYW else b, n)
        if ka == "str" and kb == "str" and op == "+":
            if a.op == "k" and b.op == "k":
                return X.konst(a.args[1] + b.args[1])
            return X.opq("strop", (a, b), "o")
        if ka == "str" and op == "%":
            return X.opq("strop", (a, b), "o")
        if ka == "str" or kb == "str":
            if op == "+" and "none" in (ka, kb) or op == "+" and "int" in (ka, kb):
                self.raise_("TypeError", n)
            if op == "*":
                return X.opq("strop", (a, b), "o")
        if ka == "array" or kb == "array":
            return self.arrop(op, a, b, n, inplace)
        ha, hb = self.h(a), self.h(b)
        if isinstance(ha, HList) and isinstance(hb, HList) and op == "+":
            if ha.items is not None and hb.items is not None:
                return self.newref("list", HList(ha.items + hb.items))
            return self.newref("list", HList(None, ha.deps() | hb.deps(), X.add(ha.n, hb.n)))
        if isinstance(ha, HList) and op == "*" and isinstance(b.w, int):
            c = self.st.getconst(b)
            if ha.items is not None and c is not None and len(ha.items) * c < 5000:
                return self.newref("list", HList(ha.items * max(c, 0)))
            return self.newref("list", HList(None, ha.deps() | X.deps(b), X.mul(ha.n, b)))
        if a.op == "tup" and b.op == "tup" and op == "+":
            return X._mk("tup", a.args + b.args, "o")
        if a.op == "fc" and b.op == "fc" or a.op == "fc" and X.is_c(b) or X.is_c(a) and b.op == "fc":
            f = lambda t: t.args[0] if t.op == "fc" else t.lo
            x, y = f(a), f(b)
            try:
                v = {"+": x + y, "-": x - y, "*": x * y}.get(op)
                if v is None and op == "/":
                    v = x / y
                if v is None and op == "//":
                    v = x // y
                if v is None and op == "%":
                    v = x % y
                if v is None and op == "**":
                    v = x ** y
                if v is not None:
                    return X.fconst(float(v))
            except Exception:
                pass
        if "none" in (ka, kb):
            self.raise_("TypeError", n)
        self.mayraise("TypeError", n)
        if (isinstance(a.w, int) or ka is None) and (isinstance(b.w, int) or kb is None) and op in ("//", "%", "&", ">>") \
                and a.w not in ("f64", "f32") and b.w not in ("f64", "f32"):
            return self.intop(op, self.asint(a), self.asint(b), n)
        if (isinstance(a.w, int) or a.op == "pyint") and (isinstance(b.w, int) or b.op == "pyint"):
            return self.intop(op, self.asint(a), self.asint(b), n)
        return X.opq("py" + op, (a, b), "o")

    def intop(self, op, a, b, n):
        st = self.st
        ca, cb = st.getconst(a), st.getconst(b)
        if ca is not None and cb is not None:
            try:
                if op in ("//", "%", "/") and cb == 0:
                    self.raise_("ZeroDivisionError", n)
                if op == "**":
                    if cb < 0 or abs(ca) > 1 and cb > 3000:
                        return X.opq("py**", (a, b), "o")
                    return X.pyint(ca ** cb)
                if op == "/":
                    return X.fconst(ca / cb)
                if op == "<<" and cb > 4000:
                    return X.opq("py<<", (a, b), PYW)
                v = {"+": lambda: ca + cb, "-": lambda: ca - cb, "*": lambda: ca * cb, "//": lambda: ca // cb, "%": lambda: ca % cb,
                     "&": lambda: ca & cb, "|": lambda: ca | cb, "^": lambda: ca ^ cb, ">>": lambda: ca >> cb, "<<": lambda: ca << cb}[op]()
                if abs(v) < 1 << (PYW - 2):
                    return X.pyint(v)
                return X.opq("py" + op, (a, b), PYW)
            except (KeyError, ValueError):
                pass
        if op == "+":
            return X.add(a, b)
        if op == "-":
            return X.sub(a, b)
        if op == "*":
            return X.mul(a, b)
        if op == "&":
            return X.and_(a, b)
        if op == "|":
            return X.or_(a, b)
        if op == "^":
            return X.xor(a, b)
        if op == "<<" and cb is not None and 0 <= cb < PYW:
            lo, hi = st.rng(a)
            if lo >= 0 and (hi << cb) < 1 << (PYW - 1):
                return X.shl(a, cb)
        if op == ">>" and cb is not None and 0 <= cb < PYW:
            lo, hi = st.rng(a)
            if lo >= 0:
                return X.lshr(a, cb)
            return X.ashr(a, cb)
        if op in ("//", "%") and cb is not None and cb > 0:
            k = cb.bit_length() - 1
            lo, hi = st.rng(a)
            if cb == 1 << k:
                if op == "//":
                    return X.lshr(a, k) if lo >= 0 else X.ashr(a, k)
                return X.and_(a, X.pyint(cb - 1)) if lo < 0 else X.zext(X.slice_(a, 0, k), PYW)
            if op == "//":
                return X.udiv(a, b) if lo >= 0 else X.opq("py//", (a, b), PYW)
            if lo >= 0:
                return X.urem(a, b)
            return X.opq("py%", (a, b), PYW, 0, cb - 1)
        if op == "/":
            return X.opq("py/", (a, b), "f64")
        if op in ("//", "%") and st.rng(b)[0] <= 0 <= st.rng(b)[1]:
            self.mayraise("ZeroDivisionError", n)
        return X.opq("py" + op, (a, b), PYW if op != "**" else "o")

    def arrop(self, op, a, b, n, inplace):
        """elementwise operation of arrays with arrays/scalars"""
        ha, hb = self.h(a), self.h(b)
        h = ha if isinstance(ha, HArr) else hb
        cn = self.st.getconst(h.n)
        if isinstance(ha, HArr) and isinstance(hb, HArr):
            c2 = self.st.getconst(hb.n)
        else:
            c2 = cn
        dt = h.dt
        if op == "/" or DT.get(dt, (8, 3))[1] == 2:
            dt = "float64"
        sz, kd = DT.get(dt, (8, 3))
        if cn is not None and c2 == cn and cn <= 1500 and kd < 2 and DT.get(h.dt, (8, 3))[1] < 2:
            out = []
            for i in range(cn):
                x = self.arr_load(ha, X.pyint(i)) if isinstance(ha, HArr) else self.asint(a)
                y = self.arr_load(hb, X.pyint(i)) if isinstance(hb, HArr) else self.asint(b)
                r = self.intop(op, x, y, n)
                if not isinstance(r.w, int):
                    r = X.opq("pyint", (r,), PYW)
                out.append(X.trunc(r, 8 * sz))
            if inplace and isinstance(ha, HArr):
                for i, t in enumerate(out):
                    self.arr_store_raw(ha, X.pyint(i), t, n)
                return a
            r = self.new_array(dt, h.n, "zero", "array expr")
            self.arr_fill(r, out)
            return r
        d = self.vdeps(a) | self.vdeps(b)
        if inplace and isinstance(ha, HArr):
            self.w.smear(self.st, ha.oid, ha.off, ha.off + (cn if cn is not None else 1 << 37) * DT.get(ha.dt, (8, 3))[0], d)
            return a
        r = self.new_array(dt if kd < 3 else "float64", h.n, "zero", "array expr")
        o = self.w.objs[self.h(r).oid]
        self.w.smear(self.st, o.oid, 0, o.size or (1 << 40), d)
        return r

    def vdeps(self, t):
        """dependences of a Python value including the content of the containers it refers to"""
        seen = set()

        def go(x):
            d = X.deps(x)
            h = self.h(x)
            if h is None or x.args[0] in seen:
                if x.op == "tup":
                    for y in x.args:
                        d = d | go(y)
                if x.op == "phi" and x.args[4]:
                    for y in x.args[4]:
                        d = d | go(y)
                return d
            seen.add(x.args[0])
            if isinstance(h, HDict):
                for k, v in h.items:
                    d = d | go(v)
                if h.open:
                    d = d | h.open
            elif isinstance(h, HList):
                if h.items is None:
                    d = d | h.open
                else:
                    for v in h.items:
                        d = d | go(v)
            elif isinstance(h, HArr):
                d = d | self.buf_deps(h)
            elif isinstance(h, HObj):
                d = d | X.deps(h.val)
            return d
        return go(t)

    def buf_deps(self, h):
        m = self.st.mem.get(h.oid)
        d = set()
        o = self.w.objs[h.oid]
        if m is not None:
            for off, (sz, t) in m.cells.items():
                d |= X.deps(t)
            for s in m.smears:
                d |= s[3]
        if o.dflt in ("in", "init"):
            d.add((o.dflt, o.name, ""))
        d |= X.deps(h.n)
        return frozenset(d)

    def e_TildeNode(self, n):
        v = self.ev(n.operand)
        if isinstance(v.w, int) and v.w != PYW:
            return X.xor(v, X.const(-1, v.w))
        if isinstance(v.w, int):
            c = self.st.getconst(v)
            if c is not None:
                return X.pyint(~c)
            return X.xor(v, X.pyint(-1))
        return X.opq("py~", (v,), "o")

    def e_UnaryMinusNode(self, n):
        v = self.ev(n.operand)
        if v.op == "fc":
            return X.fconst(-v.args[0], v.w)
        if isinstance(v.w, int):
            return X.sub(X.const(0, v.w), v)
        return X.opq("neg", (v,), v.w)

    def e_UnaryPlusNode(self, n):
        return self.ev(n.operand)

    # ---- containers
    def e_TupleNode(self, n):
        if getattr(n, "mult_factor", None) is not None:
            raise Broken("tuple multiplication")
        return X._mk("tup", tuple(self.ev(a) for a in n.args), "o")

    def e_ListNode(self, n):
        its = [self.ev(a) for a in n.args]
        mf = getattr(n, "mult_factor", None)
        if mf is not None:
            b = self.ev(mf)
            r = self.newref("list", HList(its))
            return self.pybinop("*", r, b if b.w == PYW else X.sext(b, PYW), n)
        return self.newref("list", HList(its))

    def e_SetNode(self, n):
        return X._mk("tup", tuple(self.ev(a) for a in n.args), "o")

    def e_DictNode(self, n):
        d = HDict()
        for it in n.key_value_pairs:
            k, v = self.ev(it.key), self.ev(it.value)
            d = d.set(k, v)
        return self.newref("dict", d)

    def e_MergedDictNode(self, n):
        d = HDict()
        for a in n.keyword_args:
            v = self.ev(a)
            d = self.merge_dict(d, v, n)
        return self.newref("dict", d)

    def merge_dict(self, d, v, n):
        h = self.h(v)
        if isinstance(h, HDict):
            for k, x in h.items:
                d = d.set(k, x)
            if h.open is not None:
                d = HDict(d.items, (d.open or frozenset()) | h.open)
            return d
        return HDict(d.items, (d.open or frozenset()) | self.vdeps(v))

    def e_JoinedStrNode(self, n):
        return self.strjoin([self.ev(v) for v in n.values])

    def strjoin(self, ps):
        if all(p.op == "k" for p in ps):
            return X.konst("".join(str(p.args[1]) for p in ps))
        return X.opq("strop", tuple(ps), "o")

    def e_FormattedValueNode(self, n):
        v = self.ev(n.value)
        if v.op == "k" and n.format_spec is None:
            return X.konst(str(v.args[1]))
        if X.is_c(v) and n.format_spec is None:
            return X.konst(str(X.sval(v)))
        return X.opq("format", (v,), "o")

    def e_ImportNode(self, n):
        return X.glob(str(n.module_name.value))

    def e_ComprehensionNode(self, n):
        k = "dict" if n.type.name == "dict" else "list" if n.type.name == "list" else "set"
        r = self.newref(k, HDict() if k == "dict" else HList())
        self.fr.nv[("target", id(n.append))] = r
        lp = n.loop
        self.exec(lp)
        if self.st is None:
            raise Dead()
        return r

    def comp_target(self, n):
        r = self.fr.nv.get(("target", id(n)))
        return r if r is not None else self.fr.nv["gentarget"]

    def e_DictComprehensionAppendNode(self, n):
        r = self.comp_target(n)
        k = self.ev(n.key_expr)
        v = self.ev(n.value_expr)
        h = self.h(r)
        self.seth(r, self.merge_dict(h, v, n) if k is None else h.set(k, v))
        return X.NONE

    def x_DictComprehensionAppendNode(self, n):
        self.e_DictComprehensionAppendNode(n)

    def e_ComprehensionAppendNode(self, n):
        r = self.comp_target(n)
        v = self.ev(n.expr)
        h = self.h(r)
        if h.items is None:
            self.seth(r, HList(None, h.open | self.vdeps(v), X.add(h.n, X.pyint(1))))
        else:
            self.seth(r, HList(h.items + (v,)))
        return X.NONE

    def e_DictComprehensionAppendNode(self, n):
        r = self.comp_target(n)
        self.seth(r, self.h(r).set(self.ev(n.key_expr), self.ev(n.value_expr)))
        return X.NONE

    def x_ComprehensionAppendNode(self, n):
        self.e_ComprehensionAppendNode(n)

    def e_InlinedGeneratorExpressionNode(self, n):
        k = getattr(n, "orig_func", None) or getattr(n.type, "name", "")
        d = n.gen.def_node
        r = None
        if k in ("list", "sorted", "set", "dict"):
            r = self.newref("dict" if k == "dict" else "list", HDict() if k == "dict" else HList())
        v = self.genrun(d, r)
        if k == "sorted":
            raise Broken("sorted() of a generator expression")
        return v if r is None else r

    def e_GeneratorExpressionNode(self, n):
        # evaluated at once: its consumers in the models take every element
        r = self.newref("list", HList())
        self.genrun(n.def_node, r)
        return r

    def genrun(self, d, target):
        fr = PFrame(X.fresh(), self.fr.mod, d, self.fr.cls, self.fr.name + ".<genexpr>")
        fr.up = self.fr
        fr.nv["gentarget"] = target
        return self.run(fr, [], d.gbody.body, None)

    def e_YieldExprNode(self, n):
        r = self.fr.nv.get("gentarget")
        if r is None:
            raise Broken("generator function")
        v = self.ev(n.arg) if n.arg is not None else X.NONE
        h = self.h(r)
        if h.items is None:
            self.seth(r, HList(None, h.open | self.vdeps(v), X.add(h.n, X.pyint(1))))
        else:
            self.seth(r, HList(h.items + (v,)))
        return X.NONE

    def e_InnerFunctionNode(self, n):
        d = n.def_node
        if self.fr.name == "<module>":
            return X.glob("%s.%s" % (self.fr.mod.name, d.entry.name if getattr(d, "entry", None) is not None else d.name))
        k = (id(d), self.fr.id)
        self.closures[k] = (d, self.fr, {e: v for e, v in self.st.env.items() if e[0] == self.fr.id})
        self.closures_name[repr(k)] = k
        return X.opq("closure", (X.konst(repr(k)),), "o")

    def e_DefaultLiteralArgNode(self, n):
        return self.ev(n.arg)

    def call_closure(self, fv, args, kw, n):
        d, up, env = self.closures[self.closures_name[fv.args[1].args[1]]]
        if up not in self.frames:
            # its variables keep the values they had; only when the enclosing function assigns none after
            inner = set(id(x) for x in pyfront.walk_nodes(d.body))
            own = set(x.lhs.name for x in pyfront.walk_nodes(up.fn.body) if id(x) not in inner and type(x).__name__ == "SingleAssignmentNode" and type(x.lhs).__name__ == "NameNode"
                      and x.rhs is not None and type(x.rhs).__name__ != "InnerFunctionNode")
            names = set(x.name for x in pyfront.walk_nodes(d.body) if type(x).__name__ == "NameNode")
            if own & names:
                raise Broken("a nested function outlives its enclosing function")
            self.st.env.update(env)
        if any(type(x).__name__ in ("YieldExprNode", "NonlocalNode") for x in pyfront.walk_nodes(d.body)) and not any(type(x).__name__ == "GeneratorExpressionNode" for x in pyfront.walk_nodes(d.body)):
            raise Broken("generator function")
        d._sa_mod, d._sa_cls = up.mod, up.cls
        return self.call_def(d, args, kw, n, up=up)

    def e_InlinedDefNodeCallNode(self, n):
        fv = self.ev(n.function_name)
        return self.pycall(fv, [self.ev(a) for a in n.args], {}, n)

    e_LambdaNode = e_InnerFunctionNode
    e_PyCFunctionNode = e_InnerFunctionNode

    def e_WithExitCallNode(self, n):
        return X.const(0, 32)

    def e_ExcValueNode(self, n):
        return X.opq("exc", (), "o")

    def e_NextNode(self, n):
        raise Broken("NextNode")

    def e_MemoryViewIndexNode(self, n):
        return self.bufindex(n)

    e_BufferIndexNode = e_MemoryViewIndexNode

    def bufindex(self, n):
        b = self.ev(n.base)
        idx = [self.pyindex(self.ev(i), i) for i in n.indices]
        if len(idx) != 1:
            raise Broken("multi-dimensional buffer access")
        h = self.h(b)
        c = self.ct(n.type)
        if not isinstance(h, HArr):
            p = self.data_of(b, n)
            return self.load(self.memci().ptradd(p, X.trunc(X.mul(idx[0], X.pyint(c.size)), 64)), c, n)
        self.unchk = self.nocheck()
        try:
            v = self.arr_load(h, idx[0], n)
        finally:
            self.unchk = False
        if c.kind == "int":
            return X.trunc(v, 8 * c.size) if isinstance(v.w, int) else v
        return v

    def e_MemoryCopyNode(self, n):
        raise Broken("memory view copy")

    def pyindex(self, i, n):
        if isinstance(i.w, int) and i.w != PYW:
            c = self.ct(n.type) if n is not None and not n.type.is_pyobject else None
            return X.sext(i, PYW) if c is not None and c.signed else X.zext(i, PYW)
        return i

    def e_IndexNode(self, n):
        bt = n.base.type
        if type(n.base).__name__ == "AttributeNode" and n.base.attribute in ("shape", "strides") and getattr(n.base.obj.type, "is_memoryviewslice", False):
            b = self.ev(n.base.obj)
            h = self.h(b)
            if n.base.attribute == "shape" and isinstance(h, HArr):
                return X.trunc(self.asint(h.n), 64)
            t = X.opq("mv" + n.base.attribute, (b,), 64)
            return t
        if bt.is_ptr or bt.is_array:
            p, c = self.addr(n)
            return self.load(p, c, n)
        b = self.ev(n.base)
        i = self.pyindex(self.ev(n.index), n.index)
        v = self.getitem(b, i, n)
        if not n.type.is_pyobject and self.kindof(v) != None:
            return self.pyto(v, n.type, n)
        return v if n.type.is_pyobject else self.pyto(v, n.type, n)

    def e_SliceIndexNode(self, n):
        b = self.ev(n.base)
        if n.base.type.is_ptr or n.base.type.is_array:
            raise Broken("C array slice")
        a = self.pyindex(self.ev(n.start), n.start) if n.start is not None else X.NONE
        z = self.pyindex(self.ev(n.stop), n.stop) if n.stop is not None else X.NONE
        return self.slice(b, a, z, X.NONE, n)

    def e_SliceNode(self, n):
        return X._mk("slice", (self.pyindex(self.ev(n.start), n.start), self.pyindex(self.ev(n.stop), n.stop), self.pyindex(self.ev(n.step), n.step)), "o")

    def slice(self, b, a, z, s, n):
        h = self.h(b)
        st = self.st
        if isinstance(h, HArr) and s is X.NONE:
            cn = st.getconst(h.n)
            lo = 0 if a is X.NONE else st.getconst(a)
            hi = cn if z is X.NONE else st.getconst(z)
            if cn is not None and lo is not None and hi is not None:
                lo, hi, _ = slice(lo, hi).indices(cn)
                return self.newref("arr", HArr(h.dt, X.pyint(max(0, hi - lo)), h.oid, h.off + lo * DT[h.dt][0], 1, h.contig, h.src))
            return self.newref("arr", HArr(h.dt, X.opq("len", (b, a, z), PYW, 0, 1 << 60), h.oid, h.off, 1, h.contig, h.src))
        if isinstance(h, HArr):
            cn, lo = st.getconst(h.n), 0 if a is X.NONE else st.getconst(a)
            hi = cn if z is X.NONE else st.getconst(z)
            sp = st.getconst(s)
            if None not in (cn, lo, hi, sp):
                idx = range(*slice(lo if a is not X.NONE else None, hi if z is not X.NONE else None, sp).indices(cn))
                els = [self.arr_load(h, X.pyint(i)) for i in idx]
                r = self.new_array(h.dt, X.pyint(len(els)), "zero", "strided view")
                self.arr_fill(r, [X.trunc(e, 8 * DT[h.dt][0]) for e in els])
                hr = self.h(r)
                self.seth(r, HArr(hr.dt, hr.n, hr.oid, 0, 1, False, h.oid))
                return r
        its = self.items_of(b)
        if its is not None and b.op in ("tup", "k"):
            lo = None if a is X.NONE else st.getconst(a)
            hi = None if z is X.NONE else st.getconst(z)
            if (lo is not None or a is X.NONE) and (hi is not None or z is X.NONE):
                if b.op == "k":
                    return X.konst(b.args[1][lo:hi])
                return X._mk("tup", tuple(its[lo:hi]), "o")
        if isinstance(h, HList) and h.items is not None:
            lo = None if a is X.NONE else st.getconst(a)
            hi = None if z is X.NONE else st.getconst(z)
            if (lo is not None or a is X.NONE) and (hi is not None or z is X.NONE):
                return self.newref("list", HList(h.items[lo:hi]))
        if isinstance(h, HList):
            return self.newref("list", HList(None, h.deps(), X.phi(X.fresh(), h.deps(), PYW, 0, 1 << 60)))
        self.mayraise("TypeError", n)
        return X.opq("slice", (b, a, z, s), "o")

    # ---- dynamic operations: getattr/setattr/getitem/setitem are in models
    def e_SimpleCallNode(self, n):
        f = n.function
        ft = f.type
        if getattr(n, "self", None) is not None:
            self.ev(n.self)
            if n.coerced_self is not None and id(n.coerced_self) != id(n.self):
                self.fr.nv[id(n.coerced_self)] = self.fr.nv[id(n.self)]
                a = getattr(n.coerced_self, "arg", None)
        if not ft.is_pyobject and n.args is not None and (ft.is_cfunction or ft.is_ptr):
            return self.ccall(n, f, ft if ft.is_cfunction else ft.base_type)
        fv = self.callee(f)
        args = [self.ev(a) for a in (n.arg_tuple.args if n.arg_tuple is not None else n.args)]
        return self.pycall(fv, args, {}, n)

    def callee(self, f):
        k = type(f).__name__
        if k == "AttributeNode" and (f.is_py_attr or f.obj.type.is_pyobject) and not self.is_cattr(f):
            o = self.ev(f.obj)
            return ("meth", o, f.attribute)
        return self.ev(f)

    def e_GeneralCallNode(self, n):
        fv = self.callee(n.function)
        pa = self.ev(n.positional_args)
        args = self.items_of(pa)
        if args is None:
            args = [X.opq("starargs", (pa,), "o")]
        kw = {}
        opn = None
        if n.keyword_args is not None:
            d = self.ev(n.keyword_args)
            h = self.h(d)
            if not isinstance(h, HDict):
                opn = self.vdeps(d)
            else:
                for k, v in h.items:
                    kw[k.args[1]] = v
                opn = h.open
        if opn is not None:
            # keyword arguments present on some paths only
            kw["**"] = X.phi(X.fresh(), opn, "o")
        return self.pycall(fv, args, kw, n)

    def ccall(self, n, f, ft):
        e = getattr(f, "entry", None)
        k = type(f).__name__
        args = []
        if e is not None and e.is_cmethod and k == "AttributeNode":
            o = self.ev(n.self) if n.self is not None and id(n.self) in self.fr.nv else self.ev(f.obj)
            vals = [self.ev(a) for a in n.args]
            vals = self.cargs(vals, n.args, ft)
            return self.split_alts(vals[0], lambda s: self.cmethod(s, f, e, vals, n)) if vals[0].op == "phi" else self.cmethod(vals[0], f, e, vals, n)
        if e is not None and e.is_cfunction:
            vals = [self.ev(a) for a in n.args]
            vals = self.cargs(vals, n.args, ft)
            d = self.find_cdef(e)
            if d is not None:
                return self.call_cdef(d, vals, n)
            return self.extern_call(e, vals, n, ft)
        fp = self.ev(f)
        vals = [self.ev(a) for a in n.args]
        vals = self.cargs(vals, n.args, ft)
        return self.call_ptr(fp, vals, n, ft)

    def cargs(self, vals, nodes, ft):
        out = []
        for i, (v, a) in enumerate(zip(vals, nodes)):
            if i < len(ft.args):
                pt = ft.args[i].type
                if not pt.is_pyobject and a.type is not None and not a.type.is_pyobject and not pt.is_ptr and not a.type.is_ptr and not a.type.is_array \
                        and not pt.is_struct_or_union:
                    v = self.conv(v, a.type, pt)
            out.append(v)
        return out

    def cmethod(self, s, f, e, vals, n):
        h = self.h(s)
        vals = [s] + list(vals[1:])
        if isinstance(h, HInst):
            m = h.cls.method(e.name)
            if m is None:
                raise Broken("no method %s on %s" % (e.name, h.cls.name))
            if type(m).__name__ == "DefNode":
                return self.call_def(m, vals, {}, n)
            return self.call_cdef(m, vals, n)
        if isinstance(h, (HList, HDict)):
            from .models import call_method
            return call_method(self, s, e.name, vals[1:], {}, n)
        if s is X.NONE:
            self.raise_("AttributeError", n)
        ov = self.hooks.get("cmethod")
        if ov:
            return ov(self, s, e, vals, n)
        raise Broken("C method %s on %s at %s:%d" % ((e.name, X.show(s)) + self.pos(n)))

    def call_ptr(self, fp, vals, n, ft):
        ts = [fp] if fp.op == "fn" else sorted(fp.args[4], key=lambda x: x.tid) if fp.op == "phi" and fp.args[4] else None
        ts = [t for t in ts or () if t.op == "fn"]
        if not ts:
            hk = self.hooks.get("indirect")
            if hk:
                return hk(self, fp, vals, n, ft)
            self.event("indirect", n, term=X.show(fp))
            rt = self.ct(ft.return_type)
            return X.phi(X.fresh(), X.deps(fp), 8 * rt.size if rt.kind in ("int", "ptr") else "f64") if rt.kind != "void" else X.NONE
        if len(ts) == 1:
            return self.call_fn(ts[0].args[0], vals, n, ft)
        return self.split_alts(fp, lambda t: self.call_fn(t.args[0], vals, n, ft))

    def call_fn(self, name, vals, n, ft):
        if name.startswith("cy:"):
            return self.call_cdef(self.cyfuncs[name], vals, n)
        ci = self.ci(self.fr.mod.name)
        return self.run_c(ci, name, vals, n, ft)

    def run_c(self, ci, name, vals, n, ft):
        ci.count = 0
        self.curnode = n
        r, s = ci.call(name, vals, self.st)
        if s is None:
            self.st = None
            raise Dead()
        self.st = s
        if ft is not None:
            rt = ft.return_type
            if rt.is_void:
                return X.NONE
            c = self.ct(rt)
            if c.kind == "int" and r is not None and isinstance(r.w, int) and r.w != 8 * c.size:
                r = X.trunc(r, 8 * c.size) if r.w > 8 * c.size else X.zext(r, 8 * c.size)
        return r if r is not None else X.NONE

    def extern_call(self, e, vals, n, ft):
        name = e.cname
        m = self.cmodels.get(name)
        if m is not None:
            return m(self, vals, n, ft)
        bf = self.bim.get(e.name)
        if bf is not None and (getattr(e.scope, "is_builtin_scope", False) or e.is_builtin or name.startswith(("PyObject_", "__Pyx_", "PyType", "Py"))):
            pv = [self.topy(v, self.ct(a.type)) if i < len(ft.args) and not (a := ft.args[i]).type.is_pyobject else v for i, v in enumerate(vals)]
            r = bf(self, pv, {}, n)
            rt = ft.return_type
            if rt.is_pyobject or rt.is_void:
                return r
            return self.pyto(r, rt, n)
        q = self.defmod(e)
        mod = self.fr.mod.name
        if mod in self.exts:
            ci = self.ci(mod)
            f = ci.prog.funcs.get("@" + name)
            if f is not None and not f.decl or name in ci.overrides:
                self.analysed.add("C:" + name)
                return self.run_c(ci, name, vals, n, ft)
        from .cinterp import PURE_LIBC
        rt = self.ct(ft.return_type)
        if name in PURE_LIBC:
            return X.opq("call:" + name, vals, "f64" if rt.kind == "float" else 8 * rt.size)
        if mod in self.exts and f is None and name in ("memcpy", "memset", "malloc", "calloc", "free", "memmove", "PyMem_Malloc", "PyMem_Free", "PyMem_RawMalloc", "PyMem_RawFree"):
            self.curnode = n
            if name == "memset" and vals[1].w == PYW:
                vals[1] = X.trunc(vals[1], 32)
            r, s = self.ci(mod).external(name, vals, self.st, None, None)
            if s is None:
                raise Dead()
            self.st = s
            return r if r is not None else X.NONE
        if mod in self.exts and f is not None:
            r, s = self.ci(mod).external(name, vals, self.st, None, f)
            if s is None:
                raise Dead()
            self.st = s
            self.event("extern", n, name=name)
            return r if r is not None else X.NONE
        raise Broken("C function %s at %s:%d has no definition" % ((name,) + self.pos(n)))

    # ------------------------------------------------------------ calls of interpreted functions
    def call_cdef(self, d, vals, n=None):
        """vals: C-typed argument terms"""
        params = d.declarator.args if hasattr(d, "declarator") else d.args
        at = d.type.args
        fr = PFrame(X.fresh(), d._sa_mod, d, d._sa_cls, self.fname(d))
        vals = list(vals)
        env = []
        for i, a in enumerate(at):
            nm = a.name
            if i < len(vals):
                v = vals[i]
                if not a.type.is_pyobject and not a.type.is_ptr and a.type.is_numeric and isinstance(v.w, int):
                    c = self.ct(a.type)
                    if c.kind == "int" and v.w != 8 * c.size:
                        v = X.trunc(v, 8 * c.size) if v.w > 8 * c.size else X.zext(v, 8 * c.size)
            else:
                dn = d.args[i].default if hasattr(d, "args") and i < len(d.args) else None
                if dn is None:
                    # optional argument of a cdef function declared in a pxd
                    dn = self.cdefault(d, i)
                v = self.evdefault(dn, d, a.type)
            env.append((nm, v))
        return self.run(fr, env, d.body, d.type.return_type)

    def cdefault(self, d, i):
        for src in (d.declarator.args,):
            x = src[i]
            if x.default is not None:
                return x.default
        raise Broken("missing argument %d of %s" % (i, self.fname(d)))

    def evdefault(self, dn, d, typ):
        if getattr(self, "argdefaults", None):
            pass
        fr = PFrame(("mod", d._sa_mod.name), d._sa_mod, None, None, "<module>")
        self.frames.append(fr)
        try:
            v = self.ev(dn)
        finally:
            self.frames.pop()
        if not typ.is_pyobject and dn.type.is_pyobject:
            v = self.pyto(v, typ, dn)
        elif not typ.is_pyobject and not dn.type.is_pyobject:
            v = self.conv(v, dn.type, typ)
        elif typ.is_pyobject and not dn.type.is_pyobject:
            v = self.topy(v, self.ct(dn.type))
            if type(dn).__name__ == "BoolNode":
                v = X.TRUE if dn.value else X.FALSE
        return v

    def fname(self, d):
        nm = d.entry.name if d.entry is not None else getattr(d, "name", "?")
        return "%s.%s%s" % (d._sa_mod.name, (d._sa_cls.name + "." if d._sa_cls is not None else ""), nm)

    def call_def(self, d, args, kw, n=None, up=None):
        """Python-level call of a def function; args: Python object terms"""
        fr = PFrame(X.fresh(), d._sa_mod, d, d._sa_cls, self.fname(d))
        fr.up = up
        env = []
        kw = dict(kw)
        args = list(args)
        openkw = kw.pop("**", None)
        npos = 0
        for a in d.args:
            nm = a.name
            v = None
            if not getattr(a, "kw_only", False) and npos < len(args):
                v = args[npos]
                npos += 1
                if nm in kw:
                    self.raise_("TypeError", n)
            elif nm in kw:
                v = kw.pop(nm)
            elif a.default is not None:
                v = self.evdefault(a.default, d, a.type)
                env.append((nm, v))
                continue
            else:
                self.raise_("TypeError", n)
            if not a.type.is_pyobject and not getattr(a, "is_self_arg", False):
                v = self.pyto(v, a.type, n if n is not None else d)
            env.append((nm, v))
        if d.star_arg is not None:
            env.append((d.star_arg.name, X._mk("tup", tuple(args[npos:]), "o")))
        elif npos < len(args):
            self.raise_("TypeError", n)
        if d.starstar_arg is not None:
            env.append((d.starstar_arg.name, self.newref("dict", HDict([(X.konst(k), v) for k, v in kw.items()],
                                                                     X.deps(openkw) if openkw is not None else None))))
        elif kw:
            self.raise_("TypeError", n)
        return self.run(fr, env, d.body, None)

    def run(self, fr, env, body, rtype):
        if len(self.frames) > 60:
            raise Broken("call depth")
        hk = self.hooks.get("enter")
        if hk:
            r = hk(self, fr, env)
            if r is not None:
                return r[0]
        self.analysed.add(fr.name)
        for k, v in env:
            self.st.env[(fr.id, k)] = v
        ctl0 = self.st.ctl
        self.frames.append(fr)
        try:
            self.exec(body)
        finally:
            self.frames.pop()
        if self.st is not None:
            dv = X.NONE
            if rtype is not None and not rtype.is_pyobject and not rtype.is_void:
                dv = X.leaf("undef", (fr.name, "return"), 8 * self.ct(rtype).size, ("undef", "return of " + fr.name))
            fr.rets.append((dv, self.st))
        if not fr.rets:
            self.st = None
            raise Dead()
        key = (fr.id, ("ret",))
        res = None
        for v, s in fr.rets:
            s.env[key] = v
            res = s if res is None else join_states(self.w, res, s)
        res.ctl = res.ctl[:len(ctl0)] if len(res.ctl) >= len(ctl0) else res.ctl
        v = res.env.pop(key)
        for k in [k for k in res.env if k[0] == fr.id]:
            del res.env[k]
        for k, oid in fr.nv.items():
            if isinstance(k, tuple) and k[0] == "addr":
                res.mem.pop(oid, None)
        self.st = res
        if rtype is not None and not rtype.is_pyobject and not rtype.is_void and isinstance(v.w, int):
            c = self.ct(rtype)
            if c.kind == "int" and v.w != 8 * c.size:
                v = X.trunc(v, 8 * c.size) if v.w > 8 * c.size else X.zext(v, 8 * c.size)
        hx = self.hooks.get("leave")
        if hx:
            hx(self, fr, v)
        return v
