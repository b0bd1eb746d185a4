"""Bit generator sessions: construct an instance abstractly, compute an invariant of its reachable states, and run the public
operations from an arbitrary reachable state."""
import os, sys, time
from . import term as X
from .term import T
from .prep import Broken
from . import prep, pyinterp, models, mem
from .pyinterp import HDict, HList, HArr, HInst, HObj, Z64, PYW, Dead
from .mem import join_states, join_terms

# module, class, constructor keywords of each analysed configuration
CONFIGS = [
    ("aes", "AESCounter", {}), ("chacha", "ChaCha", {}), ("chacha", "ChaCha", {"rounds": 8}), ("dsfmt", "DSFMT", {}), ("efiix64", "EFIIX64", {}),
    ("hc128", "HC128", {}), ("jsf", "JSF", {}), ("jsf", "JSF", {"size": 32}), ("jsf", "JSF", {"seed_size": 3}), ("jsf", "JSF", {"size": 32, "seed_size": 2}), ("jsf", "JSF", {"p": 11, "q": 29, "r": 3}),
    ("lxm", "LXM", {}), ("lxm", "LXM", {"b": 5}), ("mt19937", "MT19937", {}), ("mt19937", "MT19937", {"numpy_seed": True}),
    ("mt64", "MT64", {}), ("pcg32", "PCG32", {}), ("pcg64", "PCG64", {}), ("pcg64", "PCG64", {"variant": "dxsm"}),
    ("pcg64", "PCG64", {"variant": "dxsm-128"}), ("pcg64", "PCG64", {"numpy_seed": True}), ("pcg64", "PCG64DXSM", {}),
    ("pcg64", "LCG128Mix", {}), ("pcg64", "LCG128Mix", {"output": "dxsm", "post": False}), ("pcg64", "LCG128Mix", {"multiplier": 0x2360ED051FC65DA44385DF649FCCF645 + 8, "dxsm_multiplier": 0xda942042e4dd58b5 + 2}),
    ("philox", "Philox", {}), ("philox", "Philox", {"number": 2}), ("philox", "Philox", {"width": 32}), ("philox", "Philox", {"number": 2, "width": 32}),
    ("philox", "Philox", {"numpy_seed": True}),
    ("rdrand", "RDRAND", {}), ("romu", "Romu", {}), ("romu", "Romu", {"variant": "trio"}), ("sfc", "SFC64", {}), ("sfc", "SFC64", {"numpy_seed": True}),
    ("sfc", "SFC64", {"w": 0, "k": 0}), ("sfmt", "SFMT", {}), ("speck128", "SPECK128", {}), ("speck128", "SPECK128", {"rounds": 33}),
    ("squares", "Squares", {}), ("squares", "Squares", {"variant": 32}),
    ("threefry", "ThreeFry", {}), ("threefry", "ThreeFry", {"number": 2}), ("threefry", "ThreeFry", {"width": 32}),
    ("threefry", "ThreeFry", {"number": 2, "width": 32}), ("tyche", "Tyche", {}), ("tyche", "Tyche", {"original": False}),
    ("xoroshiro128", "Xoroshiro128", {}), ("xoroshiro128", "Xoroshiro128", {"plusplus": True}), ("xorshift1024", "Xorshift1024", {}),
    ("xoshiro256", "Xoshiro256", {}), ("xoshiro512", "Xoshiro512", {}),
]
SLOTS = ("next_uint64", "next_uint32", "next_double", "next_raw")


def label(cfg):
    return "%s(%s)" % (cfg[1], ", ".join("%s=%r" % x for x in sorted(cfg[2].items())))


def pyconst(v):
    if v is None:
        return X.NONE
    if isinstance(v, bool):
        return X.TRUE if v else X.FALSE
    if isinstance(v, int):
        return X.pyint(v)
    return X.konst(v)


def isptr(t):
    return t.op in ("ptr", "fn", "ref") or t.op == "phi" and t.args[4] and all(x.op in ("ptr", "fn", "ref", "k", "c") for x in t.args[4])


class Gen(object):
    """one configuration of one generator class"""

    def __init__(self, root, exts, cfg):
        self.cfg = cfg
        self.mod = "randomgen." + cfg[0]
        self.E = E = pyinterp.Engine(root, exts)
        self.cls = E.cls(self.mod, cfg[1])
        E.prog(self.mod)
        E.frames.append(pyinterp.PFrame(("top",), E.module(self.mod), None, None, "<top>"))
        self.seed = X.leaf("in", ("seed",), "o", ("in", "seed", ""))
        self.n = 0
        self.layout_bitgen()

    def layout_bitgen(self):
        self.slot_off = {"state": 0, "next_uint64": 8, "next_uint32": 16, "next_double": 24, "next_raw": 32}

    # ---------------------------------------------------------------- running things
    def run(self, st, f):
        """run f() from a copy of st; (result, state) with state None when every path raises"""
        E = self.E
        E.st = st.copy()
        E.stmts = 0
        E.trys = []
        E.iters = []
        fr = E.frames[:1]
        E.frames = fr
        fr[0].rets, fr[0].loops, fr[0].iters = [], [], []
        try:
            r = f()
        except Dead:
            return None, None
        s = E.st
        return r, s

    def construct(self, kw=None, seed=None, cls=None):
        E = self.E
        k = {a: pyconst(b) for a, b in (kw if kw is not None else self.cfg[2]).items()}
        if seed is not False:
            k["seed"] = seed if seed is not None else self.seed
        return self.run(E.base, lambda: models.construct(E, cls or self.cls, [], k, None))

    def slot(self, st, inst, name):
        E = self.E
        ob = E.w.objs[inst + "._bitgen"]
        s0 = E.st
        E.st = st
        try:
            return E.w.load(st, ob.oid, self.slot_off[name], 8)
        finally:
            E.st = s0

    def draw(self, st, inst, name):
        """call one of the installed draw functions"""
        E = self.E
        fn, sp = self.slot(st, inst, name), self.slot(st, inst, "state")

        def go(f):
            if f.op != "fn":
                raise Broken("%s of %s is not a function: %s" % (name, label(self.cfg), X.show(f)))
            nm = f.args[0]
            if nm.startswith("cy:"):
                return E.call_cdef(E.cyfuncs[nm], [sp])
            ci = E.ci(self.mod)
            return E.run_c(ci, nm, [sp], None, None)
        if fn.op == "phi":
            return self.run(st, lambda: E.split_alts(fn, go))
        return self.run(st, lambda: go(fn))

    def method(self, st, inst, name, args=(), kw=None):
        E = self.E
        return self.run(st, lambda: models.call_method(E, X.ref(inst), name, list(args), dict(kw or {}), None))

    def getstate(self, st, inst):
        return self.run(st, lambda: self.E.getattr(X.ref(inst), "state", None))

    def setstate(self, st, inst, v):
        return self.run(st, lambda: self.E.setattr(X.ref(inst), "state", v, None))

    # ---------------------------------------------------------------- the instance's own storage
    def owned(self, st, inst):
        """{path: oid} of the memory objects reachable from the instance by C pointers, and {path: heap oid}"""
        E = self.E
        out, heap = {}, {}
        seen = set()
        todo = []
        for oid in sorted(E.w.objs):
            if oid.startswith(inst + "."):
                todo.append((oid[len(inst) + 1:], oid))
        pre = set(o for _, o in todo)
        while todo:
            p, oid = todo.pop(0)
            if oid in seen:
                continue
            seen.add(oid)
            out[p] = oid
            m = st.mem.get(oid)
            if m is None:
                continue
            o = E.w.objs[oid]
            for off, (sz, t) in sorted(m.cells.items()):
                for x in ([t] if t.op != "phi" else list(t.args[4] or ())):
                    if x.op == "ptr" and x.args[0] not in seen and x.args[0] not in pre and x.args[0] in E.w.objs \
                            and E.w.objs[x.args[0]].kind in ("heap", "buf", "attr", "malloc", "alloc"):
                        todo.append(("%s%s->" % (p, self.path(o, off)), x.args[0]))
                    if x.op == "ref":
                        heap.setdefault("%s%s" % (p, self.path(o, off)), x.args[0])
        return out, heap

    def path(self, o, off):
        if o.layout is not None:
            try:
                p = o.layout.path(off)
                return "." + p if p else ""
            except Exception:
                pass
        if o.size is not None and o.size > (o.esize or 1):
            return "[%d]" % (off // (o.esize or 1))
        return ""

    def grid(self, o):
        """[(offset, size)] natural cells of an object"""
        if o.size is None:
            return []
        if o.layout is not None:
            r = []
            pos = 0
            while pos < o.size:
                lf = o.layout.leaf(pos)
                if lf is None:
                    pos += 1
                    continue
                r.append((lf[0], lf[1]))
                pos = lf[0] + lf[1]
            return r
        e = o.esize or 1
        return [(i, e) for i in range(0, o.size - e + 1, e)]

    def cell(self, st, oid, off, size):
        return self.E.w.load(st, oid, off, size)

    # ---------------------------------------------------------------- types of the reachable memory
    def type_objects(self, st, inst):
        """give heap objects reached through typed pointers the layout of the pointed-to C type"""
        E = self.E
        todo = []
        for oid in list(E.w.objs):
            if oid.startswith(inst + "."):
                c = E.w.objs[oid].extra.get("ct")
                if c is not None:
                    todo.append((oid, 0, c))
        seen = set()
        while todo:
            oid, base, c = todo.pop()
            if (oid, base, c.kind, c.size) in seen:
                continue
            seen.add((oid, base, c.kind, c.size))
            if c.kind == "struct" and c.members:
                for nm, m in c.members.items():
                    mc = m[1]() if callable(m[1]) else m[1]
                    todo.append((oid, base + m[0], mc))
            elif c.kind == "ptr" and c.elref is not None:
                t = E.w.load(st, oid, base, 8)
                for x in ([t] if t.op == "ptr" else [y for y in (t.args[4] or ())] if t.op == "phi" else []):
                    if x.op != "ptr" or x.args[0] not in E.w.objs:
                        continue
                    el = c.elref() if callable(c.elref) else c.elref
                    o = E.w.objs[x.args[0]]
                    if o.kind not in ("heap",) or el is None:
                        continue
                    if el.kind == "struct" and el.layout is not None and el.size and o.size is not None and X.is_c(x.args[1]) \
                            and X.sval(x.args[1]) + el.size <= o.size:
                        b = X.sval(x.args[1])
                        if o.layout is None:
                            o.layout = el.layout if b == 0 and o.size == el.size else \
                                mem.Layout(o.size, [(b + a, s, p) for a, s, p in el.layout.leaves])
                        todo.append((o.oid, b, el))
                    elif el.kind in ("int", "float") and o.layout is None:
                        o.esize = el.size

    # ---------------------------------------------------------------- the reachable-state invariant
    def shape(self, st, inst):
        """{(path, oid, off, size): term} of every cell of the instance's C storage"""
        own, heap = self.owned(st, inst)
        r = {}
        for p, oid in own.items():
            o = self.E.w.objs[oid]
            for off, sz in self.grid(o):
                r[(p, oid, off, sz)] = self.E.w.load(st, oid, off, sz)
        return r

    def ops(self, inst, jumps=True):
        """public operations that change the state: [(name, thunk(st) -> (result, state))]"""
        E = self.E
        r = []
        for s in SLOTS:
            r.append((s, lambda st, s=s: self.draw(st, inst, s)))
        if jumps:
            if self.cls.method("advance"):
                d = X.leaf("in", ("delta",), PYW, ("in", "delta", ""), 1, (1 << 256) - 1)
                kws = [{}]
                if any(a.name == "counter" for a in self.cls.method("advance").args):
                    kws = [{"counter": X.TRUE}, {"counter": X.FALSE}]
                for kw in kws:
                    r.append(("advance(%s)" % ", ".join("%s=%s" % (k, v.args[1]) for k, v in kw.items()),
                              lambda st, kw=kw: self.method(st, inst, "advance", [d], kw)))
            if self.cls.method("jump") is not None:
                r.append(("jump", lambda st: self.method(st, inst, "jump", [self.iters()])))
            elif self.cls.method("jump_inplace") is not None:
                r.append(("jump_inplace", lambda st: self.jump_inplace(st, inst)))
        return r

    def iters(self):
        return X.pyint(1)

    def jump_inplace(self, st, inst):
        E = self.E
        m = self.cls.method("jump_inplace")
        if type(m).__name__ == "DefNode":
            return self.method(st, inst, "jump_inplace", [self.iters()])
        a = m.type.args[1].type
        v = self.iters()
        if not a.is_pyobject:
            v = X.trunc(v, 8 * E.ct(a).size)
        return self.run(st, lambda: E.call_cdef(m, [X.ref(inst), v]))

    def generalise(self, st, inst, tag, rngs, kinds):
        """state in which every non-constant cell is an independent unknown of its range"""
        E = self.E
        s = st.copy()
        s.refine, s.truth, s.ctl = {}, {}, ()
        self.vals = {}
        own, heap = self.owned(st, inst)
        for p, oid in own.items():
            o = E.w.objs[oid]
            s.mem.pop(oid, None)
            m = mem.Mem()
            for off, sz in self.grid(o):
                k = (p, off, sz)
                v = kinds.get(k)
                if v is None:
                    v = E.w.load(st, oid, off, sz)
                    w = v.w if not isinstance(v.w, int) else 8 * sz
                    lo, hi = rngs.get(k, (None, None))
                    pth = p + self.path(o, off)
                    z = self.tzs.get(k, 0) if isinstance(w, int) and lo is not None and lo >= 0 else 0
                    if 0 < z < w:
                        lf = X.leaf("init", (tag, pth, off, sz, lo, hi, z), w - z, ("init", tag, pth.split("[")[0]), -(-lo >> z), hi >> z)
                        m.cells[off] = (sz, X.cat([(None, 0, z), (lf, 0, w - z)]))
                        m.maxsz = max(m.maxsz, sz)
                        continue
                    if w == 64 and lo is not None and lo >= 0 and hi < 1 << 32:
                        lf = X.leaf("init", (tag, pth, off, 4, lo, hi), 32, ("init", tag, pth.split("[")[0]), lo, hi)
                        m.cells[off] = (sz, X.cat([(lf, 0, 32), (None, 0, 32)]))
                        m.maxsz = max(m.maxsz, sz)
                        continue
                    v = X.leaf("init", (tag, pth, off, sz, lo, hi), w, ("init", tag, pth.split("[")[0]),
                               *((lo, hi) if isinstance(w, int) else (None, None)))
                    if not isinstance(w, int):
                        v = X.leaf("init", (tag, pth, off, sz), w, ("init", tag, pth.split("[")[0]))
                m.cells[off] = (sz, v)
                m.maxsz = max(m.maxsz, sz)
            if m.cells:
                s.mem[oid] = m
        return s

    def invariant(self, st0, inst, tag="S", jumps=True, maxrounds=40, skip=()):
        """least fixpoint (with widening) of the cell ranges over the state-changing operations; returns (state, mutable cells)"""
        E = self.E
        self.type_objects(st0, inst)
        cur = self.shape(st0, inst)
        kinds, rngs = {}, {}
        self.tzs = {}
        changed_cells = set()
        for (p, oid, off, sz), t in cur.items():
            k = (p, off, sz)
            if X.is_c(t) or isptr(t) or t.op in ("k", "fc", "g") or t is X.NONE:
                kinds[k] = t
            elif isinstance(t.w, int):
                rngs[k] = st0.rng(t)
                self.tzs[k] = X.tz(t)
        ops = [o for o in self.ops(inst, jumps) if o[0] not in skip]
        # chaotic iteration: an operation is repeated until it adds nothing, until a whole pass adds nothing
        grow = {}
        idle, i, steps = 0, 0, 0
        while idle < len(ops):
            name, f = ops[i % len(ops)]
            steps += 1
            if steps > maxrounds * len(ops):
                raise Broken("no invariant for %s" % label(self.cfg))
            S = self.generalise(st0, inst, tag, rngs, kinds)
            r, s = f(S)
            if s is None or not self.absorb(S, s, inst, name, rngs, kinds, changed_cells, grow):
                idle += 1
                i += 1
            else:
                idle = 0
        self.rounds = steps
        S = self.generalise(st0, inst, tag, rngs, kinds)
        return S, changed_cells

    def absorb(self, S, s, inst, name, rngs, kinds, changed_cells, grow):
        """widen the ranges with the cells of s; whether anything grew"""
        E = self.E
        ch = False
        for (p, oid, off, sz), t in self.shape(S, inst).items():
            t2 = E.w.load(s, oid, off, sz)
            if t2 is t:
                continue
            k = (p, off, sz)
            changed_cells.add(k)
            if k in kinds:
                a = kinds[k]
                if t2 is a:
                    continue
                if isptr(a):
                    if not isptr(t2):
                        raise Broken("pointer cell %s of %s becomes %s after %s" % (k, label(self.cfg), X.show(t2), name))
                    kinds[k] = join_terms(a, t2, frozenset(), ("inv", k))
                    ch = ch or kinds[k] is not a
                    continue
                del kinds[k]
                ch = True
                if isinstance(a.w, int) and isinstance(t2.w, int):
                    self.tzs[k] = min(X.tz(a), X.tz(t2))
                    l1, h1 = a.lo, a.hi
                    l2, h2 = s.rng(t2)
                    rngs[k] = (min(l1, l2), max(h1, h2))
                continue
            if isinstance(t2.w, int) and k in rngs:
                l2, h2 = s.rng(t2)
                l1, h1 = rngs[k]
                z = min(self.tzs.get(k, 0), X.tz(t2))
                if z < self.tzs.get(k, 0):
                    self.tzs[k] = z
                    ch = True
                if l2 < l1 or h2 > h1:
                    ch = True
                    n = grow[k] = grow.get(k, 0) + 1
                    if n > 16:
                        rngs[k] = X.full(8 * k[2])
                    elif n > 3:
                        rngs[k] = (l1 if l2 >= l1 else 0, h1 if h2 <= h1 else self.nexth(h2))
                    else:
                        rngs[k] = (min(l1, l2), max(h1, h2))
        return ch

    def nexth(self, h):
        for x in (1, 3, 7, 15, 16, 31, 32, 63, 64, 95, 96, 127, 128, 191, 192, 255, 256, 311, 312, 381, 382, 511, 512, 623, 624, 1023, 1024, 65535):
            if x >= h:
                return x
        return (1 << 64) - 1


def sessions(root=None):
    root = root or prep.scratch()
    return root, prep.extensions(root)
