"""Side effects on arguments and shared storage: flow-sensitive may-alias analysis over the typed Cython trees.

A value is a pair (own, inner) of origin sets: what a write into the value changes, and what is reachable through it.
Origins: ("param", name), ("self",), ("global", module, name), ("default", function, name).  A fresh object has no own origin.
Each function gets a summary: the origins it writes to, and the origins of its result."""
from .prep import Broken
from .pyfront import walk_nodes
from .locks import argname, isbitgen, DROP
from . import cwrites, cfront, pyfront

EMPTY = (frozenset(), frozenset())
MUTATORS = {"sort", "fill", "put", "itemset", "resize", "partition", "setflags", "setfield", "append", "extend", "insert", "pop", "remove", "clear", "reverse", "update", "popitem",
            "setdefault", "add", "discard", "__setitem__", "__delitem__", "__iadd__", "__imul__", "shuffle", "byteswap!"}
FRESHM = {"copy", "astype", "tolist", "tobytes", "flatten", "sum", "prod", "all", "any", "min", "max", "mean", "cumsum", "cumprod", "dot", "nonzero", "repeat", "item", "byteswap", "keys", "format", "join",
          "split", "strip", "lower", "upper", "replace", "startswith", "endswith", "encode", "decode", "hexdigest", "digest", "round", "conj", "conjugate", "argsort", "index", "count", "bit_length", "to_bytes"}
IMMUTABLE_ATTR = {"shape", "dtype", "ndim", "size", "itemsize", "nbytes", "strides", "kind", "name", "__name__", "byteorder", "max", "min", "type", "maxsize"}
PURE_FUN = {"int", "float", "bool", "len", "str", "repr", "isinstance", "issubclass", "hash", "abs", "sum", "min", "max", "range", "bytes", "hasattr", "callable", "id", "divmod", "pow", "round", "ord", "chr",
            "all", "any", "type", "complex", "print"}
CONTAINER_FUN = {"list", "tuple", "dict", "set", "sorted", "zip", "enumerate", "map", "filter", "iter", "reversed", "frozenset"}
NP_ALIAS = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel", "reshape", "squeeze", "transpose", "swapaxes", "moveaxis", "broadcast_to",
            "broadcast_arrays", "expand_dims", "diagonal", "diag", "real", "imag", "split", "array_split", "hsplit", "vsplit", "require", "frombuffer", "nditer", "broadcast", "matrix", "rollaxis",
            "flip", "flipud", "fliplr", "rot90", "view", "lib.stride_tricks.as_strided", "nan_to_num", "ndarray", "memmap", "getbuffer", "MultiIter_DATA", "memoryview"}
NP_MUT = {"copyto": 0, "put": 0, "place": 0, "putmask": 0, "fill_diagonal": 0, "shuffle": 0, "put_along_axis": 0, "at": 0}
PYARRAY_FRESH = {"PyArray_SIZE", "PyArray_NDIM", "PyArray_TYPE", "PyArray_Check", "PyArray_CheckScalar", "PyArray_IsScalar", "PyArray_ISCONTIGUOUS", "PyArray_IS_C_CONTIGUOUS", "PyArray_CHKFLAGS", "PyArray_ISWRITEABLE",
                 "PyArray_Copy", "PyArray_EMPTY", "PyArray_ZEROS", "PyArray_SimpleNew", "PyArray_NewCopy", "PyArray_ITEMSIZE", "PyArray_STRIDES", "PyArray_DIMS", "PyArray_DIM", "PyArray_NBYTES", "PyArray_MultiIter_NEXT",
                 "PyArray_FLAGS", "PyArray_ISONESEGMENT", "PyArray_ISALIGNED", "PyArray_BASE", "PyArray_DESCR", "PyArray_MultiIter_RESET", "PyArray_MultiIter_NOTDONE"}
CMUT = {"memcpy": 0, "memset": 0, "memmove": 0}


def union(*vs):
    o, i = frozenset(), frozenset()
    for a, b in vs:
        o |= a
        i |= b
    return o, i


def all_of(v):
    return v[0] | v[1]


def holds(v):
    """a new container of v"""
    return frozenset(), v[0] | v[1]


class Summary(object):
    def __init__(self):
        self.muts = {}      # origin -> [(where, what)]
        self.ret = EMPTY
        self.calls = 0
        self.stores = 0


def joinenv(envs):
    envs = [e for e in envs if e is not None]
    if not envs:
        return None
    if len(envs) == 1:
        return envs[0]
    r = {}
    for k in set().union(*envs):
        r[k] = union(*[e.get(k, EMPTY) for e in envs])
    return r


class Effects(object):
    def __init__(self, mods, root=None, exts=None):
        self.mods, self.root, self.exts = mods, root, exts or {}
        self.cw = {}
        self.sums = {}
        self.busy = set()
        self.entries = {}
        for m in mods.values():
            for k, d in m.entries.items():
                if d._sa_mod is m:
                    self.entries.setdefault(k, d)

    def cwrites(self, mod, name):
        """parameters the C function may write through, from the module's own sources (None: not known)"""
        if self.root is None or mod not in self.exts:
            return None
        w = self.cw.get(mod)
        if w is None:
            m = self.mods[mod]
            w = self.cw[mod] = cwrites.CWrites(cfront.compile_ext(self.root, self.exts[mod], m, pyfront.c_includes(m)))
        return w.writes(name)

    def qual(self, f):
        c = getattr(f, "_sa_cls", None)
        n = getattr(f, "name", None)
        n = f.entry.name if n is None or callable(n) else n
        return "%s%s.%s" % (f._sa_mod.name.replace("randomgen.", ""), "." + c.name if c is not None else "", n)

    def functions(self):
        for m in self.mods.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for d in c.props.values():
                    for f in d.values():
                        yield f

    def summary(self, f):
        s = self.sums.get(id(f))
        if s is None:
            if id(f) in self.busy:
                return Summary()
            self.busy.add(id(f))
            s = Fn(self, f).run()
            self.busy.discard(id(f))
            self.sums[id(f)] = s
        return s

    def cfunc(self, m, e):
        cn = e.func_cname or e.cname
        return m.entries.get(cn) or (self.entries.get(cn) if e.visibility != "extern" else None)

    def method(self, cls, name):
        seen = set()
        while cls is not None and id(cls) not in seen:
            seen.add(id(cls))
            if name in cls.methods:
                return cls.methods[name]
            b = cls.base
            cls = self.mods[b[0]].classes.get(b[1]) if b and b[0] in self.mods else None
        return None


class Fn(object):
    def __init__(self, E, f):
        self.E, self.f = E, f
        self.m, self.cls = f._sa_mod, getattr(f, "_sa_cls", None)
        self.s = Summary()
        self.loops = []

    def where(self, n):
        return "%s.pyx:%d" % (self.m.name.replace(".", "/"), n.pos[1])

    def run(self):
        f = self.f
        args = list(f.args) if type(f).__name__ == "DefNode" else list(f.declarator.args if hasattr(f, "declarator") else f.args)
        env = {}
        self.params = []
        method = self.cls is not None and not getattr(f, "is_staticmethod", False)
        for i, a in enumerate(args):
            n = argname(a)
            self.params.append(n)
            if i == 0 and method and not getattr(f, "is_classmethod", False):
                env[n] = (frozenset([("self",)]),) * 2
            elif self.scalar(getattr(a, "type", None) or getattr(getattr(a, "entry", None), "type", None)):
                env[n] = EMPTY
            else:
                o = frozenset([("param", n)])
                env[n] = (o, o)
        for x in (getattr(f, "star_arg", None), getattr(f, "starstar_arg", None)):
            if x is not None:
                env[str(x.name)] = (frozenset(), frozenset([("param", str(x.name))]))
        self.locals = set(env)
        for n in walk_nodes(f.body):
            for l in targets(n):
                self.locals.add(l)
        sc = getattr(f, "local_scope", None)
        if sc is not None:
            self.locals |= set(str(k) for k, e in sc.entries.items() if not e.is_pyglobal and not e.is_cglobal)
        self.arrays = set()
        for n in walk_nodes(f.body):
            k = type(n).__name__
            x = base_of(n) if k in ("IndexNode", "MemoryViewIndexNode", "BufferIndexNode", "SliceIndexNode", "MemoryViewSliceNode") else \
                n.obj if k == "AttributeNode" and str(n.attribute) in ("shape", "ndim", "dtype", "astype", "view", "reshape", "flags", "T", "ravel", "copy") else None
            while type(x).__name__ in DROP:
                x = x.arg if hasattr(x, "arg") else x.operand
            if type(x).__name__ == "NameNode":
                self.arrays.add(str(x.name))
        self.globs = set()
        for n in walk_nodes(f.body):
            if type(n).__name__ == "GlobalNode":
                self.globs |= set(str(x) for x in n.names)
        self.rets = []
        self.block(f.body, env)
        if self.rets:
            self.s.ret = union(*self.rets)
        return self.s

    def scalar(self, t):
        """values of this C type own nothing"""
        if t is None:
            return False
        if getattr(t, "is_typedef", False):
            t = t.resolve()
        return bool(getattr(t, "is_numeric", False) or getattr(t, "is_enum", False) or getattr(t, "is_struct_or_union", False) or getattr(t, "is_cfunction", False)
                    or getattr(t, "is_ptr", False) and getattr(t.base_type, "is_cfunction", False))

    # ---------------------------------------------------------------- statements
    def mutate(self, v, n, what):
        self.s.stores += 1
        for o in v[0]:
            l = self.s.muts.setdefault(o, [])
            if len(l) < 4 and (self.where(n), what) not in l:
                l.append((self.where(n), what))

    def block(self, n, env):
        """returns the environment after n (None: does not fall through)"""
        if n is None or env is None:
            return env
        k = type(n).__name__
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Broken("effects: statement %s at %s" % (k, self.where(n)))
        return m(n, env)

    def x_StatListNode(self, n, env):
        for s in n.stats:
            if env is None:
                return None
            env = self.block(s, env)
        return env

    def x_CompilerDirectivesNode(self, n, env):
        return self.block(n.body, env)

    def x_PassStatNode(self, n, env):
        return env

    x_CVarDefNode = x_DefNode = x_GlobalNode = x_GILExitNode = x_CFuncDefNode = x_NonlocalNode = x_CImportStatNode = x_FromCImportStatNode = x_PyClassDefNode = x_PassStatNode

    def x_FromImportStatNode(self, n, env):
        return env

    def x_GILStatNode(self, n, env):
        return self.block(n.body, env)

    def x_ExprStatNode(self, n, env):
        self.ev(n.expr, env)
        return env

    def x_AssertStatNode(self, n, env):
        return env

    def x_SingleAssignmentNode(self, n, env):
        v = self.ev(n.rhs, env)
        env = dict(env)
        self.assign(n.lhs, v, env, n)
        return env

    def x_CascadedAssignmentNode(self, n, env):
        v = self.ev(n.rhs, env)
        env = dict(env)
        for l in n.lhs_list:
            self.assign(l, v, env, n)
        return env

    def x_ParallelAssignmentNode(self, n, env):
        vs = [self.ev(s.rhs, env) if hasattr(s, "rhs") else EMPTY for s in n.stats]
        env = dict(env)
        for s, v in zip(n.stats, vs):
            if hasattr(s, "lhs"):
                self.assign(s.lhs, v, env, n)
        return env

    def x_InPlaceAssignmentNode(self, n, env):
        self.ev(n.rhs, env)
        l = n.lhs
        if self.scalar(l.type):
            # element of memory?
            if type(l).__name__ in ("IndexNode", "MemoryViewIndexNode", "BufferIndexNode") or type(l).__name__ == "AttributeNode":
                self.assign(l, EMPTY, dict(env), n)
            elif type(l).__name__ == "NameNode":
                self.assign(l, EMPTY, dict(env), n)
            return env
        v = self.ev(l, env)
        if type(l).__name__ in ("IndexNode", "MemoryViewIndexNode", "BufferIndexNode", "MemoryViewSliceNode", "SliceIndexNode"):
            self.assign(l, EMPTY, dict(env), n)
        elif type(l).__name__ == "AttributeNode" or type(l).__name__ == "NameNode" and (
                str(l.name) in self.arrays or v[0] and v[0] != frozenset([("param", str(l.name))])):
            # names never used as arrays are taken for numbers
            self.mutate(v, n, "%s is modified in place" % text(l))
        return env

    def x_DelStatNode(self, n, env):
        for a in n.args:
            if type(a).__name__ in ("IndexNode", "SliceIndexNode", "MemoryViewIndexNode"):
                self.mutate(self.ev(a.base, env), n, "an element of %s is deleted" % text(a.base))
        return env

    def x_IfStatNode(self, n, env):
        outs = []
        for c in n.if_clauses:
            self.ev(c.condition, env)
            outs.append(self.block(c.body, narrow(c.condition, dict(env))))
        outs.append(self.block(n.else_clause, dict(env)) if n.else_clause is not None else env)
        return joinenv(outs)

    def loop(self, n, env, pre):
        self.loops.append(([], []))
        cur = dict(env)
        for i in range(8):
            e = dict(cur)
            pre(e)
            e = self.block(n.body, e)
            new = joinenv([cur, e] + self.loops[-1][1])
            if new == cur:
                break
            cur = new
        brk = self.loops.pop()[0]
        pre(cur)
        out = cur
        if getattr(n, "else_clause", None) is not None:
            out = self.block(n.else_clause, dict(cur))
        return joinenv([out] + brk)

    def x_ForInStatNode(self, n, env):
        seq = n.iterator.sequence if hasattr(n.iterator, "sequence") else n.iterator
        v = self.ev(seq, env)
        item = (all_of(v), v[1]) if v[0] else (v[1], v[1])

        def pre(e):
            self.assign(n.target, item, e, n)
        return self.loop(n, env, pre)

    def x_ForFromStatNode(self, n, env):
        for c in (n.bound1, n.bound2, n.step):
            self.ev(c, env)

        def pre(e):
            self.assign(n.target, EMPTY, e, n)
        return self.loop(n, env, pre)

    def x_WhileStatNode(self, n, env):
        return self.loop(n, env, lambda e: self.ev(n.condition, e))

    def x_BreakStatNode(self, n, env):
        if self.loops:
            self.loops[-1][0].append(env)
        return None

    def x_ContinueStatNode(self, n, env):
        if self.loops:
            self.loops[-1][1].append(env)
        return None

    def x_ReturnStatNode(self, n, env):
        if n.value is not None:
            self.rets.append(self.ev(n.value, env))
        return None

    def x_RaiseStatNode(self, n, env):
        for c in (n.exc_type, n.exc_value):
            self.ev(c, env)
        return None

    def x_ReraiseStatNode(self, n, env):
        return None

    def x_WithStatNode(self, n, env):
        v = self.ev(n.manager, env)
        env = dict(env)
        t = getattr(n, "target", None)
        if t is not None:
            self.assign(t, v, env, n)
        body = n.body
        if type(body).__name__ == "TryFinallyStatNode":
            body = body.body
        if type(body).__name__ == "TryExceptStatNode":
            body = body.body
        return self.block(body, env)

    def x_TryFinallyStatNode(self, n, env):
        r = self.block(n.body, dict(env))
        f = self.block(n.finally_clause, joinenv([r, env]))
        return r and f

    def x_TryExceptStatNode(self, n, env):
        r = self.block(n.body, dict(env))
        mid = joinenv([r, env])
        if n.else_clause is not None:
            r = self.block(n.else_clause, r)
        outs = [r]
        for c in n.except_clauses:
            e = dict(mid)
            if c.target is not None:
                self.assign(c.target, EMPTY, e, n)
            outs.append(self.block(c.body, e))
        return joinenv(outs)

    # ---------------------------------------------------------------- assignment
    def assign(self, l, v, env, n):
        while type(l).__name__ in DROP:
            l = l.arg if hasattr(l, "arg") else l.operand
        k = type(l).__name__
        if k == "NameNode":
            nm = str(l.name)
            e = getattr(l, "entry", None)
            if nm in self.globs or e is not None and (e.is_pyglobal or e.is_cglobal) and not e.in_closure:
                self.s.muts.setdefault(("global", self.m.name, nm), []).append((self.where(n), "%s is assigned" % nm))
                self.s.stores += 1
                return
            env[nm] = EMPTY if self.scalar(l.type) else v
        elif k == "AttributeNode":
            b = self.ev(l.obj, env)
            if getattr(l, "is_py_attr", False) or l.obj.type is not None and l.obj.type.is_pyobject or l.obj.type is not None and l.obj.type.is_ptr:
                self.mutate(b, n, "%s is assigned" % text(l))
        elif k in ("TupleNode", "ListNode"):
            for a in l.args:
                self.assign(a, (all_of(v), v[1]) if v[0] else (v[1], v[1]), env, n)
        elif k in ("IndexNode", "MemoryViewIndexNode", "BufferIndexNode", "MemoryViewSliceNode", "SliceIndexNode", "MemoryCopySlice", "MemoryCopyScalar"):
            b = self.ev(base_of(l), env)
            self.mutate(b, n, "an element of %s is assigned" % text(base_of(l)))
            if type(base_of(l)).__name__ == "NameNode" and all_of(v):
                nm = str(base_of(l).name)
                if nm in env:
                    env[nm] = (env[nm][0], env[nm][1] | all_of(v))
        elif k == "DereferenceNode":
            self.mutate(self.ev(l.operand, env), n, "%s is assigned" % text(l))
        elif hasattr(l, "base") or hasattr(l, "dst"):
            b = self.ev(base_of(l), env)
            self.mutate(b, n, "an element of %s is assigned" % text(base_of(l)))
        else:
            raise Broken("effects: assignment to %s at %s" % (k, self.where(n)))

    # ---------------------------------------------------------------- expressions
    def ev(self, n, env):
        if n is None:
            return EMPTY
        while type(n).__name__ in DROP or type(n).__name__ in ("CoerceToComplexNode",):
            n = n.arg if hasattr(n, "arg") else n.operand
        k = type(n).__name__
        m = getattr(self, "e_" + k, None)
        if m is not None:
            r = m(n, env)
        else:
            # operators and constants: evaluate the parts for their effects; the result is new
            parts = []
            for c in (n.child_attrs or n.subexprs or ()):
                v = getattr(n, c, None)
                if isinstance(v, list):
                    parts += [self.ev(x, env) for x in v if hasattr(x, "child_attrs")]
                elif hasattr(v, "child_attrs"):
                    parts.append(self.ev(v, env))
            r = EMPTY
        if self.scalar(getattr(n, "type", None)):
            return EMPTY
        return r

    def e_NameNode(self, n, env):
        nm = str(n.name)
        if nm in env and nm not in self.globs:
            return env[nm]
        e = getattr(n, "entry", None)
        if nm in self.locals and nm not in self.globs:
            return EMPTY
        if e is not None and (e.is_type or e.is_cfunction or e.as_module is not None or e.is_builtin):
            return EMPTY
        if nm in self.m.funcs or nm in self.m.classes:
            o = frozenset([("global", self.m.name, nm)])
            return (o, frozenset()) if nm in self.m.classes else EMPTY
        import builtins
        if hasattr(builtins, nm) and (e is None or not e.is_variable):
            return EMPTY
        o = frozenset([("global", self.m.name, nm)])
        return o, o

    def e_AttributeNode(self, n, env):
        if n.entry is not None and getattr(n.entry, "is_cfunction", False):
            return EMPTY
        b = self.ev(n.obj, env)
        if str(n.attribute) in IMMUTABLE_ATTR:
            return EMPTY
        if str(n.attribute) == "__class__" and b[0]:
            c = frozenset([("global", self.m.name, "class of " + text(n.obj))])
            return c, c
        if getattr(n, "is_called", False) and not getattr(n, "is_py_attr", False):
            return EMPTY
        return (all_of(b), b[1])

    def index(self, n, env):
        b = self.ev(base_of(n), env)
        for c in ("index", "start", "stop", "slice"):
            v = getattr(n, c, None)
            if hasattr(v, "child_attrs"):
                self.ev(v, env)
        for v in getattr(n, "indices", None) or ():
            self.ev(v, env)
        return (all_of(b), b[1]) if b[0] else (b[1], b[1])

    e_IndexNode = e_MemoryViewIndexNode = e_BufferIndexNode = e_MemoryViewSliceNode = e_SliceIndexNode = index

    def e_CondExprNode(self, n, env):
        self.ev(n.test, env)
        return union(self.ev(n.true_val, env), self.ev(n.false_val, env))

    def boolop(self, n, env):
        r = []
        for c in ("operand1", "operand2", "arg"):
            v = getattr(n, c, None)
            if hasattr(v, "child_attrs"):
                r.append(self.ev(v, env))
        return union(*r)

    e_BoolBinopNode = e_BoolBinopResultNode = boolop

    def display(self, n, env):
        return holds(union(*[self.ev(a, env) for a in n.args]))

    e_TupleNode = e_ListNode = e_SetNode = display

    def e_AsTupleNode(self, n, env):
        return holds(self.ev(n.arg, env))

    def e_MergedSequenceNode(self, n, env):
        return holds(union(*[self.ev(a, env) for a in n.args]))

    def e_DictNode(self, n, env):
        return holds(union(*[union(self.ev(p.key, env), self.ev(p.value, env)) for p in n.key_value_pairs]))

    def e_MergedDictNode(self, n, env):
        return holds(union(*[self.ev(a, env) for a in n.keyword_args]))

    def e_AmpersandNode(self, n, env):
        return self.ev(n.operand, env)

    def e_DereferenceNode(self, n, env):
        return self.ev(n.operand, env)

    def e_CoerceToMemViewSliceNode(self, n, env):
        return self.ev(n.arg, env)

    def e_CythonArrayNode(self, n, env):
        return self.ev(n.operand, env)

    def e_AddNode(self, n, env):
        a, b = self.ev(n.operand1, env), self.ev(n.operand2, env)
        t = getattr(n, "type", None)
        if t is not None and t.is_ptr:
            return union(a, b)
        return frozenset(), a[1] | b[1] if False else frozenset()

    e_SubNode = e_AddNode

    def e_ComprehensionNode(self, n, env):
        return holds(self.comp(n, env))

    def e_InlinedGeneratorExpressionNode(self, n, env):
        return EMPTY

    e_GeneratorExpressionNode = e_InlinedGeneratorExpressionNode

    def comp(self, n, env):
        r = []
        for c in walk_nodes(n.loop):
            if type(c).__name__ == "NameNode" and str(c.name) in env:
                r.append(env[str(c.name)])
        return union(*r) if r else EMPTY

    def e_LambdaNode(self, n, env):
        return EMPTY

    def e_SimpleCallNode(self, n, env):
        args = n.args if n.args is not None else (n.arg_tuple.args if getattr(n, "arg_tuple", None) is not None else [])
        return self.call(n, n.function, list(args), {}, env)

    def e_PyMethodCallNode(self, n, env):
        return self.e_SimpleCallNode(n, env)

    def e_PythonCapiCallNode(self, n, env):
        return self.e_SimpleCallNode(n, env)

    def e_GeneralCallNode(self, n, env):
        pos = n.positional_args
        args = list(pos.args) if hasattr(pos, "args") else [pos]
        kw = {}
        ka = n.keyword_args
        if ka is not None and type(ka).__name__ == "DictNode":
            for p in ka.key_value_pairs:
                kw[str(getattr(p.key, "value", "?"))] = p.value
        elif ka is not None:
            kw["**"] = ka
        return self.call(n, n.function, args, kw, env)

    def call(self, n, fn, args, kw, env):
        self.s.calls += 1
        while type(fn).__name__ in DROP:
            fn = fn.arg if hasattr(fn, "arg") else fn.operand
        e = getattr(fn, "entry", None)
        ft = fn.type
        if ft is not None and ft.is_ptr:
            ft = ft.base_type
        vals = [self.ev(a, env) for a in args]
        kvals = {k: self.ev(a, env) for k, a in kw.items()}
        every = union(EMPTY, *(vals + list(kvals.values())))
        # ---- C level calls
        if ft is not None and getattr(ft, "is_cfunction", False):
            d = self.E.cfunc(self.m, e) if e is not None else None
            if d is not None:
                own = self.ev(fn.obj, env) if type(fn).__name__ == "AttributeNode" and d._sa_cls is not None else None
                vs = vals
                if own is not None and len(args) < len(fargs(d)):
                    vs = [own] + vals
                return self.apply(d, vs, {}, n)
            if e is None or not e.is_cfunction:
                # through a function pointer: draws write to the generator's state only
                fa = ft.args
                for i, v in enumerate(vals):
                    t = fa[i].type if i < len(fa) else None
                    if v[0] and t is not None and self.writable(t):
                        self.mutate(v, n, "the function called through %s may write to its argument" % text(fn))
                return EMPTY
            nm = str(e.cname or e.name)
            if nm in CMUT:
                self.mutate(vals[CMUT[nm]], n, "%s writes to its argument" % nm)
                return EMPTY
            if nm in PYARRAY_FRESH or nm.startswith("PyArray_malloc"):
                return EMPTY
            if nm.startswith("Py") or nm.startswith("npy_") or e.scope is not None and not str(getattr(e.scope, "qualified_name", "")).startswith("randomgen"):
                return every
            # a C function of the package: may write through pointers to data that are not const
            fa = ft.args
            for i, v in enumerate(vals):
                t = fa[i].type if i < len(fa) else None
                if v[0] and t is not None and self.writable(t):
                    self.cwrite(nm, i, v, n)
            return every if ft.return_type.is_ptr or ft.return_type.is_pyobject else EMPTY
        # ---- Python level calls
        for k in kw:
            if k == "out" and not (type(kw[k]).__name__ == "NoneNode"):
                self.mutate(kvals[k], n, "passed as out=")
            if k.startswith("overwrite_"):
                self.mutate(every, n, "%s allows the callee to write to its arguments" % k)
        name = str(getattr(fn, "attribute", None) or getattr(fn, "name", None) or "?")
        if type(fn).__name__ == "AttributeNode":
            root = rootname(fn.obj)
            recv = self.ev(fn.obj, env)
            lib = root is not None and root not in env and root not in self.locals and root in ("np", "numpy", "math", "operator", "copy", "sys", "os", "warnings", "secrets", "linalg", "json", "struct", "ctypes", "cffi")
            if lib:
                if name in NP_MUT and len(vals) > NP_MUT[name]:
                    self.mutate(vals[NP_MUT[name]], n, "np.%s writes to its argument" % name)
                if name == "array":
                    c = kw.get("copy")
                    if c is not None and not isTrue(c):
                        return every
                    return frozenset(), frozenset()
                if name in NP_ALIAS:
                    return (every[0], every[1])
                if name in ("deepcopy",):
                    return EMPTY
                if name == "copy" and root == "copy":
                    return holds(every)
                return EMPTY
            if recv[0] == frozenset([("self",)]) and self.cls is not None and rootname(fn.obj) == (self.params[0] if self.params else None) and type(fn.obj).__name__ == "NameNode":
                d = self.E.method(self.cls, name)
                if d is not None:
                    return self.apply(d, [recv] + vals, kvals, n)
            if name == "__new__":
                return EMPTY
            if self.cls is not None and getattr(self.f, "is_classmethod", False) and type(fn.obj).__name__ == "NameNode" and str(fn.obj.name) == self.params[0]:
                d = self.E.method(self.cls, name)
                if d is not None:
                    return self.apply(d, [recv] + vals, kvals, n)
            if name == "byteswap":
                inp = kw.get("inplace") or (args[0] if args else None)
                if inp is not None and not isFalse(inp):
                    self.mutate(recv, n, "%s.byteswap(inplace)" % text(fn.obj))
                    return recv
                return EMPTY
            if name in MUTATORS:
                self.mutate(recv, n, "%s.%s()" % (text(fn.obj), name))
                if type(fn.obj).__name__ == "NameNode" and str(fn.obj.name) in env and all_of(every):
                    v = env[str(fn.obj.name)]
                    env[str(fn.obj.name)] = (v[0], v[1] | all_of(every))
                return (recv[1], recv[1])
            if name == "astype":
                c = kw.get("copy")
                if c is not None and not isTrue(c):
                    return recv
                return EMPTY
            if name == "copy":
                return frozenset(), recv[1] - recv[0]
            if name in FRESHM:
                return EMPTY
            if name in ("get", "items", "values", "__getitem__"):
                return (recv[1], recv[1])
            # unknown method: may return a view of the receiver; assumed not to write
            return union((all_of(recv), recv[1]), (frozenset(), all_of(every)))
        if type(fn).__name__ == "NameNode" and self.params and name == self.params[0] and getattr(self.f, "is_classmethod", False):
            return holds(every)
        if type(fn).__name__ == "NameNode" and name == "type" and len(vals) == 1 and vals[0][0]:
            c = frozenset([("global", self.m.name, "class of " + text(args[0]))])
            return c, c
        if type(fn).__name__ == "NameNode" and name not in env:
            d = self.m.funcs.get(name)
            if d is None and e is not None and name not in self.m.classes:
                d = self.imported(name)
            if d is not None:
                return self.apply(d, vals, kvals, n)
            if name in PURE_FUN:
                return EMPTY
            if name in CONTAINER_FUN:
                return holds(every)
            if name in self.libnames():
                return EMPTY if name not in NP_ALIAS else every
            if name == "getattr":
                return (all_of(every), every[1])
            if name == "setattr":
                self.mutate(vals[0], n, "setattr")
                return EMPTY
        return holds(every)

    def libnames(self):
        """names the function or module imports from numpy, scipy or the standard library"""
        if getattr(self, "_lib", None) is None:
            r = set()
            for s in list(walk_nodes(self.f.body)) + list(walk_top(self.m)):
                if type(s).__name__ == "FromImportStatNode" and not str(s.module.module_name.value).startswith("randomgen"):
                    r |= set(str(i[0]) for i in s.items)
            self._lib = r
        return self._lib

    def imported(self, name):
        for m in self.E.mods.values():
            d = m.funcs.get(name)
            if d is not None and m is not self.m:
                for s in walk_top(self.m):
                    if type(s).__name__ == "FromImportStatNode" and str(s.module.module_name.value) == m.name and any(str(i[0]) == name for i in s.items):
                        return d
        return None

    def cwrite(self, nm, i, v, n):
        w = self.E.cwrites(self.m.name, nm)
        if w is None or i in w:
            self.mutate(v, n, "C function %s writes to its argument" % nm)

    def writable(self, t):
        """pointer to data that is not constant, other than the draw interface and untyped state"""
        if not t.is_ptr or isbitgen(t):
            return False
        b = t.base_type
        return not (b.is_const or b.is_void or b.is_cfunction)

    def apply(self, d, vals, kvals, n):
        """effects of calling a function of the package"""
        s = self.E.summary(d)
        ps = [argname(a) for a in fargs(d)]
        b = dict(zip(ps, vals))
        b.update(kvals)
        star = getattr(d, "star_arg", None)
        if star is not None:
            b[str(star.name)] = holds(union(EMPTY, *vals[len(ps):]))
        ss = getattr(d, "starstar_arg", None)
        if ss is not None:
            b[str(ss.name)] = holds(union(EMPTY, *[v for k, v in kvals.items() if k not in ps]))

        def sub(os, inner):
            r = frozenset()
            for o in os:
                if o[0] == "param":
                    v = b.get(o[1], EMPTY)
                    r |= (all_of(v) if inner else v[0])
                elif o[0] == "self":
                    if ps and ps[0] in b:
                        r |= b[ps[0]][0]
                else:
                    r |= frozenset([o])
            return r
        for o, l in s.muts.items():
            v = (sub([o], o[0] == "param" and str(o[1]) in (str(getattr(star, "name", "")), str(getattr(ss, "name", "")))), frozenset())
            for w, what in l[:1]:
                if v[0]:
                    if o[0] == "global":
                        self.s.muts.setdefault(o, [(w, what)])
                    else:
                        self.mutate(v, n, "%s: %s (%s)" % (self.E.qual(d), what, w))
        return sub(s.ret[0], False), sub(s.ret[1], True)


def fargs(d):
    return list(d.args) if type(d).__name__ == "DefNode" else list(d.declarator.args if hasattr(d, "declarator") else d.args)


def walk_top(m):
    b = m.tree.body
    todo = list(b.stats if hasattr(b, "stats") else [b])
    while todo:
        s = todo.pop()
        yield s
        if type(s).__name__ == "StatListNode":
            todo += s.stats
        elif type(s).__name__ == "CompilerDirectivesNode":
            todo.append(s.body)
        elif type(s).__name__ in ("TryExceptStatNode", "IfStatNode"):
            for c in walk_nodes(s):
                if type(c).__name__ == "FromImportStatNode":
                    yield c


def targets(n):
    k = type(n).__name__
    ls = []
    if k in ("SingleAssignmentNode", "InPlaceAssignmentNode"):
        ls = [n.lhs]
    elif k == "CascadedAssignmentNode":
        ls = n.lhs_list
    elif k in ("ForInStatNode", "ForFromStatNode"):
        ls = [n.target]
    elif k == "CVarDefNode":
        return [str(getattr(d, "name", "") or getattr(getattr(d, "base", None), "name", "")) for d in n.declarators]
    r = []
    while ls:
        l = ls.pop()
        if type(l).__name__ in DROP:
            ls.append(l.arg if hasattr(l, "arg") else l.operand)
        elif type(l).__name__ == "NameNode":
            r.append(str(l.name))
        elif type(l).__name__ in ("TupleNode", "ListNode"):
            ls = list(ls) + list(l.args)
    return r


def base_of(n):
    b = getattr(n, "base", None)
    if b is None:
        b = getattr(n, "dst", None)
    if b is None:
        b = getattr(n, "operand", None)
    return b


def rootname(n):
    while True:
        k = type(n).__name__
        if k in DROP:
            n = n.arg if hasattr(n, "arg") else n.operand
        elif k == "AttributeNode":
            n = n.obj
        elif k == "NameNode":
            return str(n.name)
        else:
            return None


def isTrue(n):
    while type(n).__name__ in DROP:
        n = n.arg if hasattr(n, "arg") else n.operand
    return type(n).__name__ == "BoolNode" and bool(n.value)


def isFalse(n):
    while type(n).__name__ in DROP:
        n = n.arg if hasattr(n, "arg") else n.operand
    return type(n).__name__ == "BoolNode" and not n.value or type(n).__name__ == "NoneNode"


def text(n):
    while type(n).__name__ in DROP:
        n = n.arg if hasattr(n, "arg") else n.operand
    k = type(n).__name__
    if k == "NameNode":
        return str(n.name)
    if k == "AttributeNode":
        return text(n.obj) + "." + str(n.attribute)
    if base_of(n) is not None:
        return text(base_of(n)) + "[]"
    return "value"


def narrow(c, env):
    """in a branch taken for numbers the tested variable owns nothing"""
    while type(c).__name__ in DROP:
        c = c.arg if hasattr(c, "arg") else c.operand
    if type(c).__name__ == "SimpleCallNode" and getattr(c.function, "name", None) == "isinstance":
        a = c.args if c.args is not None else c.arg_tuple.args
        if len(a) == 2:
            x, t = a
            while type(x).__name__ in DROP:
                x = x.arg if hasattr(x, "arg") else x.operand
            names = set()
            for q in walk_nodes(t):
                if type(q).__name__ == "NameNode":
                    names.add(str(q.name))
                elif type(q).__name__ == "AttributeNode":
                    names.add(str(q.attribute))
            if type(x).__name__ == "NameNode" and names and names <= {"int", "float", "integer", "np", "str", "bool", "numbers", "Integral", "bytes", "tuple"}:
                env[str(x.name)] = EMPTY
    if type(c).__name__ == "PrimaryCmpNode" and c.operator in ("is",) and type(c.operand2).__name__ == "NoneNode" and type(c.operand1).__name__ == "NameNode":
        env[str(c.operand1.name)] = EMPTY
    return env
