"""Abstract interpreter for the C half: LLVM IR over the term/memory domain of term.py/mem.py.

Branches whose condition is not decided by the abstract state are both taken and joined; loops are
iterated abstractly while their control is decided, otherwise (or when the iteration budget is used up)
a widened fixpoint is computed."""
from . import term as X
from .mem import State, join_states, same_state, alts_of, join_terms, Obj
from .prep import Broken
from . import llparse as L

FW = {"f64": 8, "f32": 4, "f80": 16}


FAMILY = {"malloc": "malloc", "calloc": "malloc", "free": "malloc", "realloc": "malloc", "PyMem_Malloc": "PyMem_Malloc", "PyMem_Free": "PyMem_Malloc", "PyMem_RawMalloc": "PyMem_RawMalloc",
          "PyMem_RawFree": "PyMem_RawMalloc", "PyArray_malloc_aligned": "PyArray_malloc_aligned", "PyArray_calloc_aligned": "PyArray_malloc_aligned", "PyArray_free_aligned": "PyArray_malloc_aligned"}


class Loop(object):
    def __init__(self, header):
        self.header = header
        self.blocks = set([header])
        self.parent = None


class CFG(object):
    """reverse post-order, loops (natural, reducible)"""

    def __init__(self, f):
        self.f = f
        self.succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == "br":
                self.succ[b] = list(dict.fromkeys(t.x))
            elif t.op == "switch":
                self.succ[b] = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
            else:
                self.succ[b] = []
        seen = set()
        post = []
        st = [(f.order[0], iter(self.succ[f.order[0]]))]
        seen.add(f.order[0])
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = list(reversed(post))
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while self.idx[a] > self.idx[c]:
                            a = idom[a]
                        while self.idx[c] > self.idx[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.idx[s] <= self.idx[b]:
                    x = b
                    while x != s and x != self.rpo[0]:
                        x = idom[x]
                    if x != s:
                        raise Broken("irreducible control flow in %s" % f.name)
                    lp = self.loops.setdefault(s, Loop(s))
                    w = [b]
                    while w:
                        y = w.pop()
                        if y not in lp.blocks:
                            lp.blocks.add(y)
                            w.extend(self.pred[y])
        for lp in self.loops.values():
            lp.order = [b for b in self.rpo if b in lp.blocks]


class Frame(object):
    __slots__ = ("f", "ssa", "id", "cfg", "mod", "caller")

    def __init__(self, f, cfg, fid, caller):
        self.f, self.cfg, self.id = f, cfg, fid
        self.ssa = {}
        self.mod = f.module
        self.caller = caller


PURE_PREFIX = ("llvm.x86.", "llvm.ctpop", "llvm.ctlz", "llvm.cttz", "llvm.bswap", "llvm.fabs", "llvm.sqrt", "llvm.floor",
               "llvm.ceil", "llvm.log", "llvm.exp", "llvm.pow", "llvm.sin", "llvm.cos", "llvm.round", "llvm.trunc", "llvm.rint",
               "llvm.fmuladd", "llvm.fma", "llvm.copysign", "llvm.is.fpclass", "llvm.objectsize", "llvm.bitreverse",
               "llvm.minnum", "llvm.maxnum", "llvm.is.constant", "llvm.uadd", "llvm.usub", "llvm.umul", "llvm.sadd", "llvm.ssub", "llvm.smul")
PURE_LIBC = set("""log log1p exp expm1 pow sqrt sin cos tan atan atan2 floor ceil fabs fmod ldexp frexp lgamma tgamma round trunc
logf expf powf sqrtf floorf fabsf isnan isinf npy_log npy_exp abs labs llabs strlen strcmp strncmp memcmp logl expl sqrtl powl floorl
acos asin tanh sinh cosh hypot""".split())
ENTROPY = set("time clock gettimeofday getpid clock_gettime rand random getrandom read open close fopen fread fclose llvm.readcyclecounter".split())


def scan_written(m, _same, out):
    def roots(v, acc):
        if v.k == "glob":
            acc.add(v.v)
        elif v.k == "gep":
            for o in v.v[1]:
                roots(o, acc)
        elif v.k == "cexpr":
            for o in v.v[1]:
                roots(o, acc)
        elif v.k == "agg":
            for o in v.v:
                roots(o, acc)
    cache = getattr(m, "_escaped", None)
    if cache is None:
        cache = set()
        for g in m.globals.values():
            if g.init is not None:
                roots(g.init, cache)
        for f in m.funcs.values():
            der = {}
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.op in ("getelementptr", "bitcast", "phi", "select", "freeze"):
                        acc = set()
                        for o in (ins.ops if ins.op != "phi" else [x[0] for x in ins.x]):
                            roots(o, acc)
                        if acc:
                            der[ins.res] = acc
            ch = True
            while ch:
                ch = False
                for b in f.order:
                    for ins in f.blocks[b]:
                        if ins.op in ("getelementptr", "bitcast", "phi", "select", "freeze"):
                            for o in (ins.ops if ins.op != "phi" else [x[0] for x in ins.x]):
                                if o.k == "loc" and o.v in der:
                                    s0 = der.setdefault(ins.res, set())
                                    if not der[o.v] <= s0:
                                        s0 |= der[o.v]
                                        ch = True
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.op in ("getelementptr", "bitcast", "phi", "select", "freeze", "load", "icmp"):
                        continue
                    if ins.op == "call" and ins.x.k == "glob" and ins.x.v.startswith(("@llvm.memcpy", "@llvm.memmove")):
                        ops = [ins.ops[0]]
                    else:
                        ops = ins.ops
                    for o in ops:
                        acc = set()
                        roots(o, acc)
                        if o.k == "loc" and o.v in der:
                            acc |= der[o.v]
                        cache |= acc
        m._escaped = cache
    out |= cache


class CInterp(object):
    def __init__(self, world, prog, budget=200000, hooks=None):
        self.w = world
        self.prog = prog
        self.cfgs = {}
        self.budget = budget
        self.count = 0
        self.total = 0
        self.events = []
        self.overrides = {}
        self.gobjs = {}
        self.cvals = {}
        self.ctype_obj = None
        self.stack = []
        self.maxdepth = 60
        self.maxundecided = 6
        self.loopbudget = 80000
        self.analysed = set()
        self.fixpoints = 0
        self.track = None

    # ------------------------------------------------------------ events
    def event(self, kind, ins, **kw):
        f, l = ins.fn.module.line(ins) if ins is not None else ("?", 0)
        if ins is None and getattr(self, "pyhook", None) is not None and getattr(self.pyhook, "curnode", None) is not None:
            f, l = self.pyhook.pos(self.pyhook.curnode)
        kw.update(kind=kind, fn=ins.fn.name if ins is not None else "?", file=f, line=l)
        self.events.append(kw)

    # ------------------------------------------------------------ globals
    def gobj(self, name, mod):
        g = mod.globals.get(name) if mod is not None else None
        if g is None or g.ext:
            g = self.prog.globals.get(name, g)
        if g is None:
            raise Broken("unknown global %s" % name)
        o = self.gobjs.get(id(g))
        if o is None:
            size = g.module.sizeof(g.ty) if g.ty.k not in ("opaque",) else None
            o = self.w.new("global", name="glob:" + name[1:], size=size, dflt="glob")
            o.extra["global"] = g
            if g.init is not None and (g.const or g.name not in self.written_globals(g.module)):
                img = {}
                self.image(g.init, g.ty, 0, g.module, img)
                o.extra["img"] = img
                o.dflt = self.cdflt
                o.esize = 1
                o.extra["const"] = True
            else:
                o.esize = 8 if size and size % 8 == 0 else (4 if size and size % 4 == 0 else 1)
                o.dflt = "glob"
            self.gobjs[id(g)] = o
        return o

    def written_globals(self, mod):
        """globals of a module that some instruction may write (address stored, passed on, or stored through)"""
        r = getattr(mod, "_written", None)
        if r is not None:
            return r
        r = set()
        for m in self.prog.modules:
            scan_written(m, r if m is mod else None, r)
        mod._written = r
        return r

    def cdflt(self, st, o, off, size):
        img = o.extra["img"]
        x = img.get(off)
        if x is not None and x[0] == size:
            return x[1]
        ps = []
        pos = off
        while pos < off + size:
            s = pos
            x = None
            for k in range(16):
                c = img.get(pos - k)
                if c is not None and pos - k + c[0] > pos:
                    s, x = pos - k, c
                    break
            if x is None:
                ps.append((None, 0, 8))
                pos += 1
                continue
            e = min(off + size, s + x[0])
            t = x[1]
            if not isinstance(t.w, int):
                t = self.bits(t)
            ps.extend(X.parts(X.slice_(t, 8 * (pos - s), 8 * (e - pos))))
            pos = e
        return X.cat(ps)

    def image(self, v, ty, off, mod, img):
        if v.k in ("zero", "undef"):
            return
        if v.k == "str":
            raw = v.v[2:-1]
            i = 0
            o = off
            while i < len(raw):
                if raw[i] == "\\" and raw[i + 1] == "\\":
                    b = 92
                    i += 2
                elif raw[i] == "\\":
                    b = int(raw[i + 1:i + 3], 16)
                    i += 3
                else:
                    b = ord(raw[i])
                    i += 1
                if b:
                    img[o] = (1, X.const(b, 8))
                o += 1
            return
        if v.k == "agg":
            if ty.k in ("arr", "vec"):
                es = mod.sizeof(ty.el)
                for i, e in enumerate(v.v):
                    self.image(e, ty.el, off + i * es, mod, img)
            else:
                for i, e in enumerate(v.v):
                    o, t = mod.field(ty, i)
                    self.image(e, t, off + o, mod, img)
            return
        t = self.const_val(v, ty, mod)
        img[off] = (mod.sizeof(ty), t if not isinstance(t.w, int) or t.w == 8 * mod.sizeof(ty) else X.zext(t, 8 * mod.sizeof(ty)))

    def const_val(self, v, ty, mod):
        k = v.k
        if k == "int":
            return X.const(v.v, ty.n)
        if k == "flt":
            if ty.k == "f32" and isinstance(v.v, float):
                return X.fconst(v.v, "f32")
            if not isinstance(v.v, float):
                return X.opq("fconst", (X.konst(str(v.v)),), ty.k)
            return X.fconst(v.v, ty.k)
        if k == "zero":
            if ty.k == "ptr":
                return X.NULL
            if ty.k in ("f64", "f32", "f80"):
                return X.fconst(0.0, ty.k)
            if ty.k in ("st", "pst", "arr"):
                return self.agg([self.const_val(L.Val("zero", e), e, mod) for e in self.aggels(ty)])
            return X.const(0, mod.bits(ty))
        if k == "undef":
            if ty.k in ("st", "pst", "arr"):
                return self.agg([self.const_val(L.Val("undef", e), e, mod) for e in self.aggels(ty)])
            if ty.k in ("f64", "f32", "f80"):
                return X.leaf("undef", ("value",), ty.k, ("undef", "undef-value"))
            n = 64 if ty.k == "ptr" else mod.bits(ty)
            return X.leaf("undef", ("value", n), n, ("undef", "undef-value"))
        if k == "agg":
            if ty.k == "vec":
                ps = []
                for e in v.v:
                    t = self.const_val(e, ty.el, mod)
                    ps.extend(X.parts(self.bits(t)))
                return X.cat(ps)
            els = self.aggels(ty)
            return self.agg([self.const_val(e, t, mod) for e, t in zip(v.v, els)])
        if k == "glob":
            if v.v in mod.funcs or v.v in self.prog.funcs:
                return X.fnptr(v.v[1:])
            if v.v in mod.aliases:
                return self.const_val(mod.aliases[v.v], ty, mod)
            return X.ptr(self.gobj(v.v, mod).oid, X.const(0, 64))
        if k == "gep":
            base, ops = v.v
            return self.gep(base, [self.const_val(o, o.ty, mod) for o in ops], mod)
        if k == "cexpr":
            op, ops, pred = v.v
            vals = [self.const_val(o, o.ty, mod) for o in ops]
            if op in L.CASTS:
                return self.cast(op, vals[0], ops[0].ty, v.ty, mod)
            if op in L.BINOPS:
                return self.binop(op, vals[0], vals[1], ty, mod)
            if op == "icmp":
                return self.icmp(pred, vals[0], vals[1])
        if k == "str":
            img = {}
            self.image(v, ty, 0, mod, img)
            raise Broken("string operand")
        if k == "asm":
            return X.fnptr("asm")
        if k == "meta":
            return X.konst("meta")
        raise Broken("constant %r" % k)

    def aggels(self, ty):
        return [ty.el] * ty.n if ty.k == "arr" else ty.el

    def agg(self, vals):
        return X._mk("agg", (None,) + tuple(vals), "a")

    # ------------------------------------------------------------ scalar helpers
    def bits(self, t):
        if isinstance(t.w, int):
            return t
        if t.op == "fbits":
            return t.args[1]
        n = 8 * FW.get(t.w, 8)
        if t.op == "fc":
            import struct
            try:
                if t.w == "f64":
                    return X.const(struct.unpack("<Q", struct.pack("<d", t.args[0]))[0], 64)
                if t.w == "f32":
                    return X.const(struct.unpack("<I", struct.pack("<f", t.args[0]))[0], 32)
            except Exception:
                pass
        return X.opq("bits", (t,), n)

    def asfloat(self, t, w, rng=None):
        if not isinstance(t.w, int):
            return t
        if t.op == "bits" and t.args[1].w == w:
            return t.args[1]
        import struct
        lo = hi = None
        a, b = rng or (t.lo, t.hi)
        if w == "f64" and b < 0x7ff0000000000000:
            lo = struct.unpack("<d", struct.pack("<Q", a))[0]
            hi = struct.unpack("<d", struct.pack("<Q", b))[0]
            if a == b:
                return X.fconst(lo, w)
        if w == "f32" and b < 0x7f800000:
            lo = struct.unpack("<f", struct.pack("<I", a))[0]
            hi = struct.unpack("<f", struct.pack("<I", b))[0]
            if a == b:
                return X.fconst(lo, w)
        return X.opq("fbits", (t,), w, lo, hi)

    def gep(self, base, vals, mod):
        p = vals[0]
        off = X.const(0, 64)
        ty = base
        for i, ix in enumerate(vals[1:]):
            if i == 0:
                es = mod.sizeof(base)
                off = X.add(off, X.mul(X.sext(ix, 64), X.const(es, 64)))
            elif ty.k in ("st", "pst"):
                o, ty = mod.field(ty, X.cval(ix))
                off = X.add(off, X.const(o, 64))
            else:
                es = mod.sizeof(ty.el)
                ty = ty.el
                off = X.add(off, X.mul(X.sext(ix, 64), X.const(es, 64)))
        return self.ptradd(p, off)

    def subscript(self, fr, ins, vals, st):
        """indexing an array whose length the type gives: the element must be one of the array's own"""
        ty = ins.x
        if ty.k not in ("arr", "st", "pst") or len(vals) < 3:
            return
        for ix in vals[2:]:
            if ty.k in ("st", "pst"):
                ty = fr.mod.field(ty, X.cval(ix))[1]
                continue
            if ty.k != "arr":
                return
            n, ty = ty.n, ty.el
            if not n:
                continue
            if X.is_c(ix):
                lo = hi = X.sval(ix)
            else:
                lo, hi = self.srange(st, ix)
            if lo < 0 or hi >= n:
                if lo >= 0 and hi <= n and not self.accessed(fr.f, ins.res):
                    continue            # one past the end is an address, not an access
                self.event("oob", ins, obj="array of %d" % n, lo=lo, hi=hi + 1, size=n, what="index", term=X.show(ix, 4))

    def accessed(self, f, res):
        """whether the address is the operand of a load or store"""
        u = getattr(f, "accessed", None)
        if u is None:
            u = set()
            for b in f.blocks.values() if isinstance(f.blocks, dict) else f.blocks:
                for i in b:
                    if i.op == "load":
                        u.add(i.ops[0].v)
                    elif i.op == "store":
                        u.add(i.ops[1].v)
            f.accessed = u
        return res in u

    def ptradd(self, p, off):
        if p.op == "ptr":
            return X.ptr(p.args[0], X.add(p.args[1], off))
        if p.op == "phi" and p.args[4] is not None:
            alts = frozenset(self.ptradd(a, off) for a in p.args[4])
            return X.phi(("padd", p.args[0], off.tid), X.deps(p) | X.deps(off), 64, None, None, alts)
        if X.is_c(off) and off.lo == 0:
            return p
        return X.add(p, off)

    def binop(self, op, a, b, ty, mod):
        if ty.k == "vec":
            n = ty.n
            ew = mod.bits(ty.el)
            if op in ("and", "or", "xor"):
                return {"and": X.and_, "or": X.or_, "xor": X.xor}[op](a, b)
            ps = []
            for i in range(n):
                x, y = X.slice_(a, i * ew, ew), X.slice_(b, i * ew, ew)
                if ty.el.k != "i":
                    x, y = self.asfloat(x, ty.el.k), self.asfloat(y, ty.el.k)
                ps.extend(X.parts(self.bits(self.binop(op, x, y, ty.el, mod))))
            return X.cat(ps)
        if ty.k in ("f64", "f32", "f80"):
            return self.fbin(op, a, b, ty.k)
        if a.op == "ptr" or b.op == "ptr":
            if op == "add":
                return self.ptradd(a, b) if a.op == "ptr" else self.ptradd(b, a)
            if op == "sub" and a.op == "ptr" and b.op != "ptr":
                return self.ptradd(a, X.sub(X.const(0, 64), b))
            if op == "sub" and a.op == "ptr" and b.op == "ptr" and a.args[0] == b.args[0]:
                return X.sub(a.args[1], b.args[1])
        if op == "add":
            return X.add(a, b)
        if op == "sub":
            return X.sub(a, b)
        if op == "mul":
            return X.mul(a, b)
        if op == "and":
            return X.and_(a, b)
        if op == "or":
            return X.or_(a, b)
        if op == "xor":
            return X.xor(a, b)
        if op in ("shl", "lshr", "ashr"):
            return X.shift(op, a, b)
        return {"udiv": X.udiv, "urem": X.urem, "sdiv": X.sdiv, "srem": X.srem}[op](a, b)

    def fbin(self, op, a, b, w):
        lo = hi = None
        if a.lo is not None and b.lo is not None and w in ("f64",):
            try:
                if op == "fadd":
                    lo, hi = a.lo + b.lo, a.hi + b.hi
                elif op == "fsub":
                    lo, hi = a.lo - b.hi, a.hi - b.lo
                elif op == "fmul":
                    c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
                    lo, hi = min(c), max(c)
                elif op == "fdiv" and (b.lo > 0 or b.hi < 0):
                    c = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi]
                    lo, hi = min(c), max(c)
            except (OverflowError, ZeroDivisionError):
                lo = hi = None
        if lo is not None and (lo != lo or hi != hi):
            lo = hi = None
        if a.op == "fc" and b.op == "fc" and lo is not None and lo == hi:
            return X.fconst(lo, w)
        return X.opq(op, (a, b), w, lo, hi)

    def cast(self, op, a, ft, tt, mod, st=None):
        if tt.k == "vec" and op not in ("bitcast",):
            n = tt.n
            fw, tw = mod.bits(ft.el), mod.bits(tt.el)
            ps = []
            for i in range(n):
                x = X.slice_(a, i * fw, fw)
                if ft.el.k != "i":
                    x = self.asfloat(x, ft.el.k)
                ps.extend(X.parts(self.bits(self.cast(op, x, ft.el, tt.el, mod, st))))
            return X.cat(ps)
        if op == "zext":
            return X.zext(a, tt.n)
        if op == "sext":
            return X.sext(a, tt.n)
        if op == "trunc":
            return X.trunc(a, tt.n)
        if op in ("ptrtoint", "inttoptr"):
            n = 64 if tt.k == "ptr" else tt.n
            return a if a.w == n else X.zext(a, n)
        if op == "bitcast":
            if tt.k in ("f64", "f32", "f80"):
                return self.asfloat(a, tt.k)
            return self.bits(a)
        if op in ("uitofp", "sitofp"):
            return X.itof(op, a, tt.k)
        if op in ("fptoui", "fptosi"):
            return X.opq(op, (a,), tt.n)
        if op in ("fpext", "fptrunc"):
            if a.op == "fc" and tt.k == "f64":
                return X.fconst(a.args[0], tt.k)
            if op == "fpext":
                return X.opq(op, (a,), tt.k, a.lo, a.hi)
            return X.opq(op, (a,), tt.k)
        raise Broken("cast %s" % op)

    def icmp(self, pred, a, b):
        if a.op == "ptr" and b.op == "ptr":
            if a.args[0] == b.args[0]:
                return X.cmp_(pred, a.args[1], b.args[1])
            if pred in ("eq", "ne"):
                return X.B1 if pred == "ne" else X.B0
        for p, q in ((a, b), (b, a)):
            if p.op in ("ptr", "fn") and X.is_c(q) and q.lo == 0 and pred in ("eq", "ne"):
                return X.B1 if pred == "ne" else X.B0
            if p.op == "fn" and q.op == "fn" and pred in ("eq", "ne"):
                return X.const(int((p is q) == (pred == "eq")), 1)
            if p.op == "phi" and p.args[4] is not None and q.op in ("ptr", "fn", "c") and pred in ("eq", "ne") \
                    and all(x.op in ("ptr", "fn", "c") for x in p.args[4]):
                rs = set(self.icmp(pred, x, q) for x in p.args[4])
                if len(rs) == 1:
                    return rs.pop()
        return X.cmp_(pred, a, b)

    # ------------------------------------------------------------ memory access
    def srange(self, st, t):
        l, h = st.rng(t)
        H = 1 << (t.w - 1)
        if h < H:
            return l, h
        if l >= H:
            return l - 2 * H, h - 2 * H
        return X.srange(t) if (l, h) == (t.lo, t.hi) else (-H, H - 1)

    def targets(self, p):
        if p.op == "ptr":
            return [p]
        if p.op == "phi" and p.args[4] is not None:
            return [a for a in p.args[4]]
        return None

    def offrange(self, st, o, off, size, ins, what):
        """(lo, hi) byte range touched; reports an out-of-bounds possibility"""
        if X.is_c(off):
            lo = hi = X.sval(off)
        else:
            lo, hi = self.srange(st, off)
        n = o.size
        if "alloc" in o.extra:
            lv = self.w.load(st, "live:" + o.oid, 0, 1)
            if X.is_c(lv) and lv.lo == 0:
                self.event("memfree", ins, obj=o.name, what=what)
        if n is not None and (lo < 0 or hi + size > n):
            self.event("oob", ins, obj=o.name, lo=lo, hi=hi + size, size=n, what=what, term=X.show(off, 4))
            lo, hi = max(lo, 0), min(hi, n - size)
            if lo > hi:
                return None
        return lo, hi

    def load(self, st, p, size, ins, want="i"):
        """want: 'i' or float kind"""
        ts = self.targets(p)
        if ts is None:
            if X.is_c(p) and p.lo == 0:
                self.event("null", ins, what="load")
            else:
                self.event("wild", ins, what="load", term=X.show(p))
            d = X.deps(p) | frozenset([("wild", "load")])
            return X.phi(X.fresh(), d, 8 * size if want == "i" else want)
        res = None
        for t in ts:
            if t.op != "ptr":
                if len(ts) > 1 and X.is_c(t):
                    continue
                self.event("null", ins, what="load")
                r = X.phi(X.fresh(), X.deps(p), 8 * size)
            else:
                o = self.w.objs[t.args[0]]
                off = t.args[1]
                if self.track is not None:
                    self.track("load", o, off, size, ins, st)
                if X.is_c(off):
                    if self.offrange(st, o, off, size, ins, "read") is None:
                        r = X.phi(X.fresh(), frozenset([("oob", o.name)]), 8 * size)
                    else:
                        r = self.w.load(st, o.oid, X.sval(off), size)
                else:
                    rg = self.offrange(st, o, off, size, ins, "read")
                    if rg is None:
                        r = X.phi(X.fresh(), frozenset([("oob", o.name)]), 8 * size)
                    elif rg[0] == rg[1]:
                        r = self.w.load(st, o.oid, rg[0], size)
                    else:
                        r = self.w.load_unknown(st, o.oid, off, rg[0], rg[1] + size, size)
            if want == "i":
                r = self.bits(r)
                if r.w != 8 * size:
                    r = X.zext(r, 8 * size)
            else:
                r = self.asfloat(r, want)
            res = r if res is None else join_terms(res, r, X.deps(p), ("pl", p.tid, t.tid, res.tid, r.tid))
        if res is None:
            res = X.phi(X.fresh(), X.deps(p), 8 * size if want == "i" else want)
        return res

    def store(self, st, p, size, val, ins):
        ts = self.targets(p)
        if ts is None:
            if X.is_c(p) and p.lo == 0:
                self.event("null", ins, what="store")
            else:
                self.event("wild", ins, what="store", term=X.show(p))
            return
        ts = [t for t in ts if t.op == "ptr"]
        for t in ts:
            o = self.w.objs[t.args[0]]
            off = t.args[1]
            if self.track is not None:
                self.track("store", o, off, size, ins, st)
            if o.extra.get("const"):
                self.event("write-const", ins, obj=o.name)
            rg = self.offrange(st, o, off, size, ins, "write")
            if rg is None:
                continue
            if rg[0] == rg[1]:
                if len(ts) == 1:
                    self.w.store(st, o.oid, rg[0], size, val)
                else:
                    old = self.w.load(st, o.oid, rg[0], size)
                    v = val if old.w == val.w else self.bits(val)
                    self.w.store(st, o.oid, rg[0], size, join_terms(old, v, X.deps(p), ("pw", p.tid, t.tid, old.tid, v.tid)))
            else:
                self.w.smear(st, o.oid, rg[0], rg[1] + size, X.deps(val) | X.deps(off) | X.deps(p), (off.tid, val.tid, len(ts) > 1 and p.tid))
        if not ts:
            self.event("null", ins, what="store")

    def memcpy(self, st, dst, src, n, ins):
        c = st.getconst(n)
        td, ts = self.targets(dst), self.targets(src)
        if td is None or ts is None:
            if c == 0:
                return
            self.event("wild", ins, what="memcpy", term=X.show(dst) + " " + X.show(src))
            if td is None:
                return
        if c is not None and len(td) == 1 and ts is not None and len(ts) == 1 and td[0].op == "ptr" and ts[0].op == "ptr" \
                and X.is_c(td[0].args[1]) and X.is_c(ts[0].args[1]) and c <= 1 << 20:
            do, so = self.w.objs[td[0].args[0]], self.w.objs[ts[0].args[0]]
            d0, s0 = X.sval(td[0].args[1]), X.sval(ts[0].args[1])
            if self.track is not None:
                self.track("load", so, ts[0].args[1], c, ins, st)
                self.track("store", do, td[0].args[1], c, ins, st)
            if c == 0:
                return
            for o, b, what in ((do, d0, "write"), (so, s0, "read")):
                if o.size is not None and (b < 0 or b + c > o.size):
                    self.event("oob", ins, obj=o.name, lo=b, hi=b + c, size=o.size, what=what, term="memcpy")
            items = []
            pos = 0
            sm = st.mem.get(so.oid)
            while pos < c:
                sz = None
                if sm is not None:
                    x = sm.cells.get(s0 + pos)
                    if x is not None:
                        sz = x[0]
                if sz is None:
                    s, k = self.w._leafspan(so, s0 + pos)
                    sz = s + k - (s0 + pos)
                    l = do.layout.leaf(d0 + pos) if do.layout else None
                    if l and so.layout is None:
                        sz = l[0] + l[1] - (d0 + pos)
                    if sm is not None:
                        for j in range(1, sz):
                            if s0 + pos + j in sm.cells:
                                sz = j
                                break
                sz = min(sz, c - pos)
                items.append((pos, sz, self.w.load(st, so.oid, s0 + pos, sz)))
                pos += sz
            for pos, sz, t in items:
                if d0 + pos >= 0 and (do.size is None or d0 + pos + sz <= do.size):
                    self.w.store(st, do.oid, d0 + pos, sz, t)
            return
        d = X.deps(n) | X.deps(dst) | X.deps(src)
        mx = st.rng(n)[1]
        for t in ts or ():
            if t.op != "ptr":
                continue
            so = self.w.objs[t.args[0]]
            lo, hi = self.srange(st, t.args[1])
            if so.size is not None and (lo < 0 or hi + mx > so.size):
                self.event("oob", ins, obj=so.name, lo=lo, hi=hi + mx, size=so.size, what="read", term="memcpy " + X.show(n))
            lo = max(lo, 0)
            end = so.size if so.size is not None else lo + min(mx, 4096)
            end = min(end, hi + mx)
            if self.track is not None:
                self.track("load", so, t.args[1], max(end - lo, 0), ins, st)
            if end > lo:
                d = d | X.deps(self.w.load_unknown(st, so.oid, t.args[1], lo, end, 1))
        for t in td:
            if t.op != "ptr":
                continue
            do = self.w.objs[t.args[0]]
            lo, hi = self.srange(st, t.args[1])
            if do.size is not None and (lo < 0 or hi + mx > do.size):
                self.event("oob", ins, obj=do.name, lo=lo, hi=hi + mx, size=do.size, what="write", term="memcpy " + X.show(n))
            lo = max(lo, 0)
            end = min(do.size if do.size is not None else lo + min(mx, 4096), hi + mx)
            if self.track is not None:
                self.track("store", do, t.args[1], max(end - lo, 0), ins, st)
            if end > lo:
                self.w.smear(st, do.oid, lo, end, d)

    def memset(self, st, dst, val, n, ins):
        c = st.getconst(n)
        td = self.targets(dst)
        if td is None:
            self.event("wild", ins, what="memset")
            return
        for t in td:
            if t.op != "ptr":
                continue
            o = self.w.objs[t.args[0]]
            if c is not None and X.is_c(t.args[1]) and len(td) == 1:
                b = X.sval(t.args[1])
                if o.size is not None and (b < 0 or b + c > o.size):
                    self.event("oob", ins, obj=o.name, lo=b, hi=b + c, size=o.size, what="write", term="memset")
                    c = max(0, min(c, o.size - b))
                if self.track is not None:
                    self.track("store", o, t.args[1], c, ins, st)
                pos = 0
                while pos < c:
                    s, k = self.w._leafspan(o, b + pos)
                    sz = min(max(1, s + k - (b + pos)), c - pos)
                    self.w.store(st, o.oid, b + pos, sz, X.cat(list(X.parts(val)) * sz))
                    pos += sz
            else:
                lo, hi = self.srange(st, t.args[1])
                end = min(o.size if o.size is not None else lo + 4096, hi + st.rng(n)[1])
                self.w.smear(st, o.oid, max(lo, 0), end, X.deps(val) | X.deps(n) | X.deps(dst))

    # ------------------------------------------------------------ execution
    def cfg(self, f):
        c = self.cfgs.get(id(f))
        if c is None:
            c = self.cfgs[id(f)] = CFG(f)
        return c

    def call(self, name, args, st, ins=None):
        """call C function `name` (without @); returns (term or None, state or None)"""
        ov = self.overrides.get(name)
        if ov is not None:
            return ov(self, args, st, ins)
        if name.startswith("cy:"):
            return self.pyhook.call_from_c(name, args, st)
        f = None
        if ins is not None:
            f = ins.fn.module.funcs.get("@" + name)
        if f is None or f.decl:
            f = self.prog.funcs.get("@" + name)
        if f is None or f.decl:
            return self.external(name, args, st, ins, f)
        if len(self.stack) > self.maxdepth or f.name in self.stack[-8:] and self.stack.count(f.name) > 6:
            raise Broken("C call depth in %s" % name)
        self.analysed.add(f.name)
        fr = Frame(f, self.cfg(f), X.fresh(), ins)
        for i, (ty, pn, at) in enumerate(f.params):
            if ty is None:
                continue
            if i >= len(args):
                raise Broken("too few arguments for %s" % name)
            a = args[i]
            bv = [x for x in at if isinstance(x, tuple) and x[0] == "byval"]
            if bv:
                o = self.w.new("byval", size=f.module.sizeof(bv[0][1]), name="arg")
                self.memcpy(st, X.ptr(o.oid, X.const(0, 64)), a, X.const(o.size, 64), ins or f.blocks[f.order[0]][0])
                a = X.ptr(o.oid, X.const(0, 64))
            elif ty.k == "i" and isinstance(a.w, int) and a.w != ty.n:
                a = X.trunc(a, ty.n) if a.w > ty.n else X.zext(a, ty.n)
            fr.ssa[pn] = a
        self.stack.append(f.name)
        allocas = []
        fr.ssa["__allocas"] = allocas
        try:
            back, exits, ret = self.region(fr, fr.cfg.rpo, f.order[0], st, None)
        finally:
            self.stack.pop()
        if ret is None:
            return None, None
        t = ret.env.pop((fr.id, "ret"), None)
        for o in allocas:
            ret.mem.pop(o, None)
        return t, ret

    def mergeinto(self, d, k, st):
        o = d.get(k)
        d[k] = st if o is None else join_states(self.w, o, st)

    def region(self, fr, order, start, st, loop):
        """run the blocks of a region once; returns (state of back edges, {exit block: state}, joined return state)"""
        pend = {start: st}
        back = None
        exits = {}
        ret = None
        inreg = loop.blocks if loop is not None else None
        for b in order:
            s = pend.pop(b, None)
            if s is None:
                continue
            if b in fr.cfg.loops and (loop is None or b != loop.header):
                outs, r = self.loop(fr, fr.cfg.loops[b], s)
                if r is not None:
                    ret = r if ret is None else join_states(self.w, ret, r)
                outs = outs.items()
            else:
                outs = self.block(fr, b, s)
                if isinstance(outs, State):
                    ret = outs if ret is None else join_states(self.w, ret, outs)
                    continue
            for tgt, s2 in outs:
                if loop is not None and tgt == loop.header:
                    back = s2 if back is None else join_states(self.w, back, s2)
                elif inreg is not None and tgt not in inreg:
                    self.mergeinto(exits, tgt, s2)
                else:
                    self.mergeinto(pend, tgt, s2)
        return back, exits, ret

    def loop(self, fr, lp, st):
        exits = {}
        ret = None
        und = 0
        cur = st
        start = self.count
        while self.count <= self.budget:
            back, ex, r = self.region(fr, lp.order, lp.header, cur, lp)
            for k, s in ex.items():
                self.mergeinto(exits, k, s)
            if r is not None:
                ret = r if ret is None else join_states(self.w, ret, r)
            if back is None:
                return exits, ret
            if ex or r is not None:
                und += 1
            cur = back
            n = self.count - start
            if und > self.maxundecided or self.count > self.budget or n > self.loopbudget or und and n > 4000:
                break
        # fixpoint
        self.fixpoints += 1
        uid = ("loop", X.fresh())
        entry = cur

        def head(H):
            H.refine = dict(entry.refine)
            H.truth = dict(entry.truth)
            H.ctl = entry.ctl
            return H
        H = head(cur.copy())
        it = 0
        th = self.thresholds(fr.f)
        while True:
            it += 1
            if it > 80:
                raise Broken("no fixpoint in %s" % fr.f.name)
            back, ex, r = self.region(fr, lp.order, lp.header, H.copy(), lp)
            if back is None:
                break
            N = head(join_states(self.w, H, back, uid, widen=th if it < 60 else True))
            if same_state(H, N):
                # one descending step
                N = head(join_states(self.w, entry, back, uid))
                back, ex, r = self.region(fr, lp.order, lp.header, N, lp)
                break
            H = N
        for k, s in ex.items():
            self.mergeinto(exits, k, s)
        if r is not None:
            ret = r if ret is None else join_states(self.w, ret, r)
        return exits, ret

    def thresholds(self, f):
        """widening thresholds: constants compared against in the function (and their neighbours)"""
        t = self.cfgs.get(("th", id(f)))
        if t is None:
            t = set()
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.op == "icmp":
                        for o in ins.ops:
                            if o.k == "int" and isinstance(o.v, int) and 0 <= o.v < 1 << 62:
                                t |= set((max(o.v - 1, 0), o.v, o.v + 1))
            t = self.cfgs[("th", id(f))] = tuple(sorted(t)) or True
        return t

    def val(self, fr, v):
        if v.k == "loc":
            try:
                return fr.ssa[v.v]
            except KeyError:
                raise Broken("undefined SSA value %s in %s" % (v.v, fr.f.name))
        t = self.cvals.get(id(v))
        if t is None:
            t = self.cvals[id(v)] = self.const_val(v, v.ty, fr.mod)
        return t

    def edge(self, fr, src, tgt, st):
        """evaluate the phi nodes of tgt for the edge src->tgt"""
        new = []
        for ins in fr.f.blocks[tgt]:
            if ins.op != "phi":
                break
            for v, lb in ins.x:
                if lb == src:
                    new.append((ins.res, self.val(fr, v)))
                    break
            else:
                raise Broken("phi without edge %s->%s in %s" % (src, tgt, fr.f.name))
        for k, v in new:
            st.env[(fr.id, k)] = v
        return st

    def block(self, fr, b, st):
        ssa = fr.ssa
        mod = fr.mod
        w = self.w
        for ins in fr.f.blocks[b]:
            self.count += 1
            op = ins.op
            if op == "phi":
                ssa[ins.res] = st.env.pop((fr.id, ins.res))
                continue
            if op == "load":
                p = self.val(fr, ins.ops[0])
                k = ins.ty.k
                if k in ("st", "pst", "arr"):
                    ssa[ins.res] = self.load_agg(st, p, ins.ty, mod, ins)
                else:
                    size = mod.sizeof(ins.ty)
                    t = self.load(st, p, size, ins, k if k in ("f64", "f32", "f80") else "i")
                    if k == "i" and ins.ty.n != 8 * size:
                        t = X.trunc(t, ins.ty.n)
                    c = st.getconst(t) if isinstance(t.w, int) else None
                    ssa[ins.res] = t if c is None or t.op == "c" else X.const(c, t.w)
            elif op == "store":
                v = self.val(fr, ins.ops[0])
                ty = ins.ops[0].ty
                if ty.k in ("st", "pst", "arr"):
                    self.store_agg(st, self.val(fr, ins.ops[1]), v, ty, mod, ins)
                else:
                    size = mod.sizeof(ty)
                    if isinstance(v.w, int) and v.w != 8 * size:
                        v = X.zext(v, 8 * size)
                    self.store(st, self.val(fr, ins.ops[1]), size, v, ins)
            elif op == "getelementptr":
                vals = [self.val(fr, o) for o in ins.ops]
                self.subscript(fr, ins, vals, st)
                ssa[ins.res] = self.gep(ins.x, vals, mod)
            elif op in L.BINOPS:
                ssa[ins.res] = self.binop(op, self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1]), ins.ty, mod)
            elif op == "icmp":
                a, c = self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1])
                if ins.ops[0].ty.k == "vec":
                    ew = mod.bits(ins.ops[0].ty.el)
                    ps = []
                    for i in range(ins.ops[0].ty.n):
                        ps.extend(X.parts(self.icmp(ins.x, X.slice_(a, i * ew, ew), X.slice_(c, i * ew, ew))))
                    ssa[ins.res] = X.cat(ps)
                else:
                    ssa[ins.res] = self.icmp(ins.x, a, c)
            elif op == "fcmp":
                ssa[ins.res] = self.fcmp(ins.x, self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1]))
            elif op in L.CASTS:
                ssa[ins.res] = self.cast(op, self.val(fr, ins.ops[0]), ins.ops[0].ty, ins.ty, mod, st)
            elif op == "select":
                c = self.val(fr, ins.ops[0])
                x, y = self.val(fr, ins.ops[1]), self.val(fr, ins.ops[2])
                if ins.ops[0].ty.k == "vec":
                    ssa[ins.res] = X.opq("vselect", (c, x, y), x.w)
                else:
                    r = st.eval_cmp(c)
                    ssa[ins.res] = x if r is True else y if r is False else self.select(st, c, x, y)
            elif op == "call":
                r, st2 = self.docall(fr, ins, st)
                if st2 is None:
                    return []
                st = st2
                if ins.res is not None:
                    if r is None:
                        r = X.leaf("undef", ("noret", ins.fn.name), 64, ("undef", "no return value"))
                    ssa[ins.res] = r
            elif op == "br":
                if not ins.ops:
                    return [(ins.x[0], self.edge(fr, b, ins.x[0], st))]
                c = self.val(fr, ins.ops[0])
                if ins.x[0] == ins.x[1]:
                    return [(ins.x[0], self.edge(fr, b, ins.x[0], st))]
                r = st.eval_cmp(c)
                if r is not None:
                    t = ins.x[0] if r else ins.x[1]
                    return [(t, self.edge(fr, b, t, st))]
                s2 = st.copy()
                tok = X.fresh()
                d = X.deps(c)
                out = []
                st.ctl = st.ctl + ((tok, d, 1),)
                s2.ctl = s2.ctl + ((tok, d, 0),)
                if st.assume(c, True):
                    out.append((ins.x[0], self.edge(fr, b, ins.x[0], st)))
                if s2.assume(c, False):
                    out.append((ins.x[1], self.edge(fr, b, ins.x[1], s2)))
                return out
            elif op == "switch":
                return self.switch(fr, b, ins, st)
            elif op == "ret":
                if ins.ops:
                    st.env[(fr.id, "ret")] = self.val(fr, ins.ops[0])
                return st
            elif op == "alloca":
                n = 1
                if ins.ops:
                    n = st.getconst(self.val(fr, ins.ops[0]))
                size = mod.sizeof(ins.ty) * n if n is not None else None
                o = w.new("alloca", name="local %s:%s" % (fr.f.name[1:], ins.res[1:]), size=size, dflt="undef")
                ty = ins.ty
                while ty.k == "arr":
                    ty = ty.el
                o.esize = mod.sizeof(ty) if ty.k in ("i", "f64", "f32", "ptr") else 8 if (size or 8) % 8 == 0 else 4 if size % 4 == 0 else 1
                ssa["__allocas"].append(o.oid)
                ssa[ins.res] = X.ptr(o.oid, X.const(0, 64))
            elif op == "unreachable":
                return []
            elif op == "freeze":
                ssa[ins.res] = self.val(fr, ins.ops[0])
            elif op == "fneg":
                a = self.val(fr, ins.ops[0])
                ssa[ins.res] = X.opq("fneg", (a,), a.w, None if a.lo is None else -a.hi, None if a.lo is None else -a.lo)
            elif op == "extractvalue":
                a = self.val(fr, ins.ops[0])
                for k in ins.x:
                    a = a.args[1 + k] if a.op == "agg" else X.opq("xv%d" % k, (a,), self.width(ins.ty, mod))
                ssa[ins.res] = a
            elif op == "insertvalue":
                a, v = self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1])
                ssa[ins.res] = self.insert(a, ins.x, v)
            elif op == "extractelement":
                a, i = self.val(fr, ins.ops[0]), st.getconst(self.val(fr, ins.ops[1]))
                ew = mod.bits(ins.ty)
                if i is None:
                    t = X.opq("xe", (a, self.val(fr, ins.ops[1])), ew)
                else:
                    t = X.slice_(a, i * ew, ew)
                ssa[ins.res] = self.asfloat(t, ins.ty.k) if ins.ty.k in ("f64", "f32") else t
            elif op == "insertelement":
                a, v, i = [self.val(fr, o) for o in ins.ops]
                ew = mod.bits(ins.ty.el)
                v = self.bits(v)
                i = st.getconst(i)
                if i is None:
                    ssa[ins.res] = X.opq("ie", (a, v), a.w)
                else:
                    ps = []
                    for k in range(ins.ty.n):
                        ps.extend(X.parts(v if k == i else X.slice_(a, k * ew, ew)))
                    ssa[ins.res] = X.cat(ps)
            elif op == "shufflevector":
                a, c = self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1])
                ty = ins.ops[0].ty
                ew = mod.bits(ty.el)
                mk = ins.ops[2]
                idx = [0] * ins.ty.n if mk.k == "zero" else [e.v if e.k == "int" else None for e in mk.v] if mk.k == "agg" else [None] * ins.ty.n
                ps = []
                for k in idx:
                    if k is None:
                        ps.extend(X.parts(X.leaf("undef", ("shuf", ew), ew, ("undef", "shuffle"))))
                    elif k < ty.n:
                        ps.extend(X.parts(X.slice_(a, k * ew, ew)))
                    else:
                        ps.extend(X.parts(X.slice_(c, (k - ty.n) * ew, ew)))
                ssa[ins.res] = X.cat(ps)
            else:
                raise Broken("IR op %s" % op)
        raise Broken("block without terminator")

    def width(self, ty, mod):
        return ty.k if ty.k in ("f64", "f32", "f80") else 64 if ty.k == "ptr" else mod.bits(ty)

    def select(self, st, c, x, y):
        if x is y:
            return x
        if isinstance(x.w, int) and x.w == 1:
            if X.is_c(y) and y.lo == 0:
                return X.and_(c, x)
            if X.is_c(x) and x.lo == 1:
                return X.or_(c, y)
        rx = st.rng(x) if isinstance(x.w, int) else None
        ry = st.rng(y) if isinstance(y.w, int) else None
        return join_terms(x, y, X.deps(c), ("sel", c.tid, x.tid, y.tid), False, rx, ry)

    def fcmp(self, pred, a, b):
        if a.lo is not None and b.lo is not None and a.op != "phi":
            p = pred[1:]
            if p == "lt" and a.hi < b.lo or p == "le" and a.hi <= b.lo or p == "gt" and a.lo > b.hi or p == "ge" and a.lo >= b.hi:
                return X.B1
            if p == "lt" and a.lo >= b.hi or p == "le" and a.lo > b.hi or p == "gt" and a.hi <= b.lo or p == "ge" and a.hi < b.lo:
                return X.B0
        return X.opq("fcmp" + pred, (a, b), 1)

    def insert(self, a, idx, v):
        if a.op != "agg":
            return X.opq("insv", (a, v), "a")
        els = list(a.args[1:])
        if len(idx) == 1:
            els[idx[0]] = v
        else:
            els[idx[0]] = self.insert(els[idx[0]], idx[1:], v)
        return self.agg(els)

    def load_agg(self, st, p, ty, mod, ins):
        out = []
        for i, e in enumerate(self.aggels(ty)):
            o, _ = mod.field(ty, i)
            q = self.ptradd(p, X.const(o, 64))
            if e.k in ("st", "pst", "arr"):
                out.append(self.load_agg(st, q, e, mod, ins))
            else:
                n = mod.sizeof(e)
                t = self.load(st, q, n, ins, e.k if e.k in ("f64", "f32", "f80") else "i")
                if e.k == "i" and e.n != 8 * n:
                    t = X.trunc(t, e.n)
                out.append(t)
        return self.agg(out)

    def store_agg(self, st, p, v, ty, mod, ins):
        for i, e in enumerate(self.aggels(ty)):
            o, _ = mod.field(ty, i)
            q = self.ptradd(p, X.const(o, 64))
            x = v.args[1 + i] if v.op == "agg" else X.opq("xv%d" % i, (v,), self.width(e, mod))
            if e.k in ("st", "pst", "arr"):
                self.store_agg(st, q, x, e, mod, ins)
            else:
                n = mod.sizeof(e)
                if isinstance(x.w, int) and x.w != 8 * n:
                    x = X.zext(x, 8 * n)
                self.store(st, q, n, x, ins)

    def switch(self, fr, b, ins, st):
        c = self.val(fr, ins.ops[0])
        dflt, cases = ins.x
        k = st.getconst(c)
        w = c.w
        if k is not None:
            for v, lb in cases:
                if (v & X.mask(w)) == k:
                    return [(lb, self.edge(fr, b, lb, st))]
            return [(dflt, self.edge(fr, b, dflt, st))]
        out = {}
        d = X.deps(c)
        tok = X.fresh()
        lo, hi = st.rng(c)
        rest = st
        for v, lb in cases:
            t = X.cmp_("eq", c, X.const(v, w))
            r = rest.eval_cmp(t)
            if r is False:
                continue
            s = rest.copy()
            s.ctl = s.ctl + ((tok, d, v),)
            if s.assume(t, True):
                self.mergeinto(out, lb, self.edge(fr, b, lb, s))
            if r is True or not rest.assume(t, False):
                return list(out.items())
        rest.ctl = rest.ctl + ((tok, d, "default"),)
        self.mergeinto(out, dflt, self.edge(fr, b, dflt, rest))
        return list(out.items())

    # ------------------------------------------------------------ calls
    def docall(self, fr, ins, st):
        callee = ins.x
        args = [self.val(fr, a) for a in ins.ops]
        if callee.k == "asm":
            d = frozenset().union(*[X.deps(a) for a in args]) if args else frozenset()
            self.event("asm", ins)
            ty = ins.ty
            for a, o in zip(args, ins.ops):
                ts = self.targets(a) if o.ty.k == "ptr" else None
                for t in ts or ():
                    if t.op == "ptr":
                        ob = self.w.objs[t.args[0]]
                        self.w.smear(st, ob.oid, 0, ob.size or 64, d | frozenset([("hw", "asm")]))
            if ty.k == "void":
                return None, st
            d = d | frozenset([("hw", "asm")])
            if ty.k in ("st", "pst"):
                return self.agg([X.phi(X.fresh(), d, self.width(e, fr.mod)) for e in ty.el]), st
            return X.phi(X.fresh(), d, self.width(ty, fr.mod)), st
        t = self.val(fr, callee) if callee.k == "loc" else self.const_val(callee, L.PTR, fr.mod)
        ts = [t] if t.op == "fn" else list(t.args[4]) if t.op == "phi" and t.args[4] else None
        if ts is None or any(x.op != "fn" for x in ts):
            ts2 = [x for x in ts or () if x.op == "fn"]
            if not ts2:
                self.event("indirect", ins, term=X.show(t))
                d = frozenset().union(X.deps(t), *[X.deps(a) for a in args])
                self.havoc_args(st, args, d)
                return (X.phi(X.fresh(), d, self.width(ins.ty, fr.mod)) if ins.ty.k != "void" else None), st
            ts = ts2
        if len(ts) == 1:
            return self.call1(ts[0].args[0], args, st, ins)
        res = None
        key = (fr.id, "callres")
        tok = X.fresh()
        for i, f in enumerate(sorted(ts, key=lambda z: z.args[0])):
            s = st.copy()
            s.ctl = s.ctl + ((tok, X.deps(t), i),)
            r, s = self.call1(f.args[0], args, s, ins)
            if s is None:
                continue
            s.env[key] = r if r is not None else X.NONE
            res = s if res is None else join_states(self.w, res, s)
        if res is None:
            return None, None
        r = res.env.pop(key)
        return (None if r is X.NONE else r), res

    def call1(self, name, args, st, ins):
        return self.call(name, args, st, ins)

    def havoc_args(self, st, args, d):
        for a in args:
            for t in self.targets(a) or ():
                if t.op == "ptr":
                    o = self.w.objs[t.args[0]]
                    if not o.extra.get("const"):
                        self.w.smear(st, o.oid, 0, o.size or 4096, d)

    def external(self, name, args, st, ins, f):
        mod = ins.fn.module if ins is not None else None
        ty = ins.ty if ins is not None else (f.ret if f is not None else L.ity(64))
        if name.startswith("llvm."):
            b = name[5:]
            if b.startswith(("memcpy", "memmove")):
                self.memcpy(st, args[0], args[1], args[2], ins)
                return None, st
            if b.startswith("memset"):
                self.memset(st, args[0], args[1], args[2], ins)
                return None, st
            if b.startswith(("lifetime", "dbg", "assume", "stackrestore", "prefetch", "donothing", "va_")):
                return None, st
            if b.startswith("stacksave"):
                return X.NULL, st
            if b.startswith("expect"):
                return args[0], st
            if b.startswith(("fshl", "fshr")):
                n = st.getconst(args[2])
                if n is not None and isinstance(args[0].w, int):
                    n %= args[0].w
                    hi, lo = args[0], args[1]
                    c = X.cat(list(X.parts(lo)) + list(X.parts(hi)))
                    wd = args[0].w
                    return (X.slice_(c, wd - n, wd) if b.startswith("fshl") else X.slice_(c, n, wd)), st
                return X.opq(name, args, args[0].w), st
            if b.startswith(("umin", "umax", "smin", "smax", "abs")):
                wd = args[0].w
                if b.startswith("umin"):
                    r = [(a.lo, a.hi) for a in args[:2]]
                    return X.opq(name, args[:2], wd, min(r[0][0], r[1][0]), min(r[0][1], r[1][1])), st
                return X.opq(name, args[:2], wd), st
            if b.startswith("x86.rdrand") or b.startswith("x86.rdseed"):
                u = X.fresh()
                return self.agg([X.leaf("hw", (u, i), self.width(e, mod), ("hw", "rdrand"), 0, 1 if i == 1 else None)
                                 if i != 1 else X.leaf("hw", (u, i), self.width(e, mod), ("hw", "rdrand"), 0, 1)
                                 for i, e in enumerate(ty.el)]), st
            if b.startswith(("trap", "ubsantrap")):
                return None, None
            if name.startswith(PURE_PREFIX) or True:
                if ty.k in ("st", "pst"):
                    return self.agg([X.opq("%s.%d" % (name, i), args, self.width(e, mod)) for i, e in enumerate(ty.el)]), st
                if ty.k == "void":
                    return None, st
                if not name.startswith(PURE_PREFIX):
                    self.event("intrinsic", ins, name=name)
                if name == "llvm.fmuladd.f64":
                    # rounding once or twice: both are monotone, so the end points of the two-step form bound either
                    m = self.fbin("fadd", self.fbin("fmul", args[0], args[1], "f64"), args[2], "f64")
                    return X.opq(name, args, "f64", m.lo, m.hi), st
                return X.opq(name, args, self.width(ty, mod)), st
        if name in ("memcpy", "memmove"):
            self.memcpy(st, args[0], args[1], args[2], ins)
            return args[0], st
        if name == "memset":
            self.memset(st, args[0], X.trunc(args[1], 8), args[2], ins)
            return args[0], st
        if name in ("malloc", "calloc", "PyArray_malloc_aligned", "PyArray_calloc_aligned", "PyMem_Malloc", "PyMem_RawMalloc"):
            zero = "calloc" in name
            n = args[0]
            if zero:
                n = X.mul(args[0], args[1])
            c = st.getconst(n)
            o = self.w.new("heap", size=c, dflt="zero" if zero else "undef",
                           name="heap@%s" % (ins.fn.name[1:] if ins is not None else name))
            o.esize = 8 if (c or 8) % 8 == 0 else 4 if c % 4 == 0 else 1
            o.fsize = n
            o.extra["alloc"] = FAMILY[name]
            lv = self.w.new("local", oid="live:" + o.oid, size=1, dflt="zero", name="live")
            self.w.store(st, lv.oid, 0, 1, X.const(1, 8))
            return X.ptr(o.oid, X.const(0, 64)), st
        if name in ("free", "PyArray_free_aligned", "PyMem_Free", "PyMem_RawFree", "realloc"):
            if name == "realloc":
                raise Broken("realloc is not modelled")
            ts = self.targets(args[0])
            if ts is None:
                if not (X.is_c(args[0]) and args[0].lo == 0):
                    self.event("wild", ins, what="free", term=X.show(args[0]))
                elif name == "PyArray_free_aligned":
                    self.event("null", ins, what="free")
                return None, st
            for t in ts:
                if t.op != "ptr":
                    if name == "PyArray_free_aligned":
                        self.event("null", ins, what="free")
                    continue
                o = self.w.objs[t.args[0]]
                if o.extra.get("alloc") != FAMILY[name] or not (X.is_c(t.args[1]) and t.args[1].lo == 0):
                    self.event("badfree", ins, obj=o.name, what="%s of memory from %s" % (name, o.extra.get("alloc", o.kind)))
                    continue
                lv = self.w.load(st, "live:" + o.oid, 0, 1)
                if not (X.is_c(lv) and lv.lo == 1) and st.rng(lv)[0] == 0:
                    self.event("doublefree", ins, obj=o.name, what="free")
                self.w.store(st, "live:" + o.oid, 0, 1, X.const(0, 8) if len(ts) == 1 else X.phi(X.fresh(), frozenset(), 8, 0, 1))
                if len(ts) == 1:
                    st.mem.pop(o.oid, None)
            return None, st
        if name in ("exit", "abort", "__assert_fail", "_exit"):
            return None, None
        if name in ("printf", "fprintf", "puts", "putchar", "fputs", "fflush", "perror", "fputc"):
            return X.phi(X.fresh(), frozenset(), 32), st
        wd = self.width(ty, mod) if ty is not None and ty.k != "void" and mod is not None else (64 if ty is None or ty.k == "void" else ty.k if ty.k in FW else 64 if ty.k == "ptr" else ty.n)
        if name.startswith("__ctype_"):
            if self.ctype_obj is None:
                tab = self.w.new("const", name="ctype-table", size=None)
                tab.dflt = lambda st_, o_, off_, size_: X.leaf("ctab", (off_, size_), 8 * size_, ("const", "ctype"))
                hd = self.w.new("const", name="ctype-head", size=8)
                hd.dflt = lambda st_, o_, off_, size_: X.ptr(tab.oid, X.const(0, 64))
                hd.extra["const"] = tab.extra["const"] = True
                hd.esize = 8
                self.ctype_obj = X.ptr(hd.oid, X.const(0, 64))
            return self.ctype_obj, st
        if name in PURE_LIBC:
            return X.opq("call:" + name, args, wd), st
        d = frozenset().union(*[X.deps(a) for a in args]) if args else frozenset()
        d = d | frozenset([("ext", name)])
        self.havoc_args(st, args, d)
        if ins is not None:
            self.event("extern", ins, name=name)
        if ty is not None and ty.k == "void":
            return None, st
        return X.phi(X.fresh(), d, wd), st
