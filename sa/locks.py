"""Lock discipline: interprocedural typestate/lockset analysis over the typed Cython trees.

Values are access paths (self, parameters, attributes of them, results of calls), so that `lock = self.lock`, `b = &self._bitgen` and
casts do not matter.  A path state is (locks held, environment); states with the same locks are merged.  Each function gets a summary:
which state parameters it draws from without holding a lock, and which (state, lock) parameters have to belong together."""
from .prep import Broken
from .pyfront import walk_nodes

DROP = ("CoerceToTempNode", "NoneCheckNode", "PyTypeTestNode", "TypecastNode", "CoerceToPyTypeNode", "CoerceFromPyTypeNode", "ProxyNode", "CloneNode",
        "BoolBinopResultNode", "CoerceToBooleanNode", "CoerceToComplexNode", "CoerceToMemViewSliceNode")


def canon(v):
    """equivalent spellings of one object"""
    if v[0] == "attr":
        b = canon(v[1])
        # the wrapped generator's lock is the one that was copied at construction (checked separately)
        if v[2] == "lock" and b[0] == "attr" and b[2] in ("_bit_generator", "bit_generator") and b[1] == ("self",):
            return ("attr", ("self",), "lock")
        return ("attr", b, v[2])
    return v


def owner(v):
    """the object a pointer to generator state belongs to"""
    if v[0] == "capsuleptr":
        v = v[1]
        return v[1] if v[0] == "attr" and v[2] == "capsule" else ("unk", "capsule")
    if v[0] == "attr" and v[2] in ("_bitgen", "rng_state", "state"):
        return owner(v[1]) if v[1][0] in ("attr", "param", "capsuleptr") and v[2] == "state" else v[1]
    return v


def lockowner(v):
    return v[1] if v[0] == "attr" and v[2] == "lock" else v


def show(v):
    if v[0] == "self":
        return "self"
    if v[0] == "param":
        return v[1]
    if v[0] == "attr":
        return show(v[1]) + "." + v[2]
    if v[0] == "capsuleptr":
        return "pointer of " + show(v[1])
    return "<%s>" % (v[1] if len(v) > 1 else v[0],)


PROTOCOL = ("acquire", "release", "__enter__", "__exit__")


class Path(object):
    __slots__ = ("held", "env")

    def __init__(self, held, env):
        self.held, self.env = held, env

    def copy(self):
        return Path(self.held, dict(self.env))


def merge(ps):
    """one state per set of held locks"""
    d = {}
    for p in ps:
        q = d.get(p.held)
        if q is None:
            d[p.held] = Path(p.held, dict(p.env))
            continue
        for k in set(q.env) | set(p.env):
            a, b = q.env.get(k), p.env.get(k)
            if a != b:
                s = set()
                for x in (a, b):
                    if x is None:
                        continue
                    s |= x[2] if x[0] == "phi" else {x}
                q.env[k] = ("phi", k, frozenset(s)) if len(s) < 8 else ("unk", k)
    return list(d.values())


class Summary(object):
    def __init__(self):
        self.draws = {}     # state parameter -> where: drawn from without a lock
        self.pairs = {}     # (state parameter, lock parameter) -> where
        self.locks = set()  # lock parameters / own locks acquired
        self.problems = []  # (rule, where, text)
        self.sites = []     # draws judged: (where, what, by)
        self.regions = 0    # acquisitions followed to every exit


class Out(object):
    def __init__(self):
        self.fall, self.brk, self.cont, self.ret, self.exc = [], [], [], [], []


class Locks(object):
    def __init__(self, mods):
        self.mods = mods
        self.sums = {}
        self.busy = set()
        self.called = {}
        self.dr = {}
        self.entries = {}
        for m in mods.values():
            for k, d in m.entries.items():
                if d._sa_mod is m:
                    self.entries.setdefault(k, d)

    # ------------------------------------------------------------ functions
    def qual(self, f):
        c = getattr(f, "_sa_cls", None)
        n = getattr(f, "name", None) or f.entry.name
        if callable(n):
            n = f.entry.name
        return "%s%s.%s" % (f._sa_mod.name.replace("randomgen.", ""), "." + c.name if c is not None else "", n)

    def summary(self, f):
        s = self.sums.get(id(f))
        if s is not None:
            return s
        if id(f) in self.busy:
            return Summary()
        self.busy.add(id(f))
        s = Fn(self, f).run()
        self.busy.discard(id(f))
        self.sums[id(f)] = s
        return s

    def cdef(self, m, e):
        cn = e.func_cname or e.cname
        return m.entries.get(cn) or (self.entries.get(cn) if e.visibility != "extern" else None)

    def islockclass(self, cls):
        return cls is not None and "acquire" in cls.methods and "release" in cls.methods

    def drawers(self, m):
        """C functions that the module's draw slots call: they generate values from the state"""
        if m.name not in self.dr:
            d = set()
            for f in m.entries.values():
                if f._sa_mod is not m or getattr(f, "_sa_cls", None) is not None:
                    continue
                rt = f.type.return_type if hasattr(f, "type") and f.type is not None else f.entry.type.return_type
                a = f.entry.type.args
                if len(a) != 1 or not a[0].type.is_ptr or not a[0].type.base_type.is_void or not (rt.is_float or rt.is_int):
                    continue
                for c in walk_nodes(f.body):
                    if type(c).__name__ == "SimpleCallNode" and getattr(c.function, "entry", None) is not None and c.function.entry.is_cfunction:
                        e = c.function.entry
                        t = e.type.return_type
                        n = t.empty_declaration_code()
                        if self.cdef(m, e) is None and e.type.args and e.type.args[0].type.is_ptr and (t.is_float or n in ("uint64_t", "uint32_t")):
                            d.add(e.cname)
            self.dr[m.name] = d
        return self.dr[m.name]

    def method(self, cls, name):
        seen = set()
        while cls is not None and id(cls) not in seen:
            seen.add(id(cls))
            if name in cls.methods:
                return cls.methods[name]
            b = cls.base
            cls = self.mods[b[0]].classes.get(b[1]) if b and b[0] in self.mods else None
        return None


def internal(f, cls):
    """a method only the package itself calls"""
    if cls is None:
        return False
    if type(f).__name__ == "CFuncDefNode":
        return not f.overridable
    n = str(f.name)
    return n.startswith("_") and not n.endswith("__")


def selfname(f):
    a = f.declarator.args if type(f).__name__ == "CFuncDefNode" else f.args
    return argname(a[0]) if a else "self"


def argname(a):
    n = a.name
    if n:
        return str(n)
    d = a.declarator
    while getattr(d, "base", None) is not None:
        d = d.base
    return str(d.name)


def pure(n):
    while type(n).__name__ in DROP:
        n = n.arg if hasattr(n, "arg") else n.operand
    return type(n).__name__ in ("IntNode", "FloatNode", "BoolNode", "NoneNode")


def isbitgen(t):
    """pointer to the drawing interface"""
    while t is not None and getattr(t, "is_ptr", False):
        t = t.base_type
        if getattr(t, "is_struct_or_union", False) and t.name in ("bitgen", "bitgen_t"):
            return True
        if getattr(t, "is_typedef", False):
            t = t.resolve()
            if getattr(t, "is_struct_or_union", False) and t.name in ("bitgen", "bitgen_t"):
                return True
    return False


class Fn(object):
    def __init__(self, L, f):
        self.L, self.f = L, f
        self.m, self.cls = f._sa_mod, getattr(f, "_sa_cls", None)
        self.s = Summary()
        self.params = []
        # raw helpers of a bit generator class draw through C functions on their own state
        self.raw = self.cls is not None and (getattr(f, "name", None) in ("random_raw", "_benchmark"))
        self.n = 0

    def where(self, n):
        p = n.pos
        return "%s.pyx:%d" % (self.m.name.replace(".", "/"), p[1])

    def run(self, held=frozenset()):
        f = self.f
        args = list(f.args) if type(f).__name__ == "DefNode" else list(f.declarator.args if hasattr(f, "declarator") else f.args)
        env = {}
        method = self.cls is not None and not getattr(f, "is_staticmethod", False)
        for i, a in enumerate(args):
            n = argname(a)
            if i == 0 and method:
                env[n] = ("self",) if not getattr(f, "is_classmethod", False) else ("param", n)
            else:
                env[n] = ("param", n)
                self.params.append(n)
        self.allparams = [argname(a) for a in args]
        self.entryheld = held
        o = self.block(f.body, [Path(held, env)])
        self.outcomes = o
        self.exits = [("return", p) for p in o.ret + o.fall] + [("exception", p) for p in o.exc]
        self.check_exits()
        return self.s

    def check_exits(self):
        name = getattr(self.f, "name", None)
        if name in PROTOCOL and self.L.islockclass(self.cls):
            return      # judged by the protocol of lock classes
        seen = set()
        for how, p in self.exits:
            for l in p.held - self.entryheld:
                if (how, l) not in seen:
                    seen.add((how, l))
                    self.s.problems.append(("locks are released on every exit", self.where(self.f),
                                            "%s can leave by %s with %s still held" % (self.L.qual(self.f), how, show(l))))

    # ------------------------------------------------------------ statements
    def block(self, n, ps):
        o = Out()
        k = type(n).__name__
        m = getattr(self, "x_" + k, None)
        if not ps:
            return o
        if m is not None:
            m(n, ps, o)
        else:
            o.fall = self.plain(n, ps, o)
        o.fall = merge(o.fall)
        for a in ("brk", "cont", "ret", "exc"):
            v = getattr(o, a)
            if len(v) > 1:
                setattr(o, a, merge(v))
        return o

    def seq(self, stats, ps, o):
        for s in stats:
            if not ps:
                break
            r = self.block(s, ps)
            ps = r.fall
            o.brk += r.brk
            o.cont += r.cont
            o.ret += r.ret
            o.exc += r.exc
        return ps

    def x_StatListNode(self, n, ps, o):
        o.fall = self.seq(n.stats, ps, o)

    def x_CompilerDirectivesNode(self, n, ps, o):
        o.fall = self.seq([n.body], ps, o)

    def x_PassStatNode(self, n, ps, o):
        o.fall = ps

    x_CVarDefNode = x_DefNode = x_GlobalNode = x_GILExitNode = x_CFuncDefNode = x_PassStatNode

    def plain(self, n, ps, o):
        """assignments and expression statements"""
        k = type(n).__name__
        if k not in ("ExprStatNode", "SingleAssignmentNode", "CascadedAssignmentNode", "ParallelAssignmentNode", "InPlaceAssignmentNode", "DelStatNode",
                     "FromImportStatNode", "AssertStatNode", "CImportStatNode", "FromCImportStatNode", "NonlocalNode", "PyClassDefNode"):
            raise Broken("statement %s at %s is not supported" % (k, self.where(n)))
        out = []
        for p in ps:
            pre = p.held
            qs = [p.copy()]
            if k == "ExprStatNode":
                self.ev(n.expr, qs, top=True)
            elif k == "SingleAssignmentNode":
                vs = self.ev(n.rhs, qs)
                for q, v in zip(qs, vs):
                    self.assign(n.lhs, v, q)
            elif k == "CascadedAssignmentNode":
                vs = self.ev(n.rhs, qs)
                for l in n.lhs_list:
                    for q, v in zip(qs, vs):
                        self.assign(l, v, q)
            elif k == "ParallelAssignmentNode":
                for s in n.stats:
                    vs = self.ev(s.rhs, qs)
                    for q, v in zip(qs, vs):
                        self.assign(s.lhs, v, q)
            elif k == "AssertStatNode":
                pass
            else:
                for c in walk_nodes(n):
                    if type(c).__name__ in ("SimpleCallNode", "GeneralCallNode"):
                        self.ev(c, qs)
            if self.mayraise(n):
                o.exc.append(Path(pre, dict(p.env)))
                # a callee may also fail after changing the held set only if it is not an acquire/release itself
            out += qs
        return out

    def mayraise(self, n):
        for c in walk_nodes(n):
            k = type(c).__name__
            if k in ("GeneralCallNode", "ImportNode"):
                return True
            if k == "SimpleCallNode":
                ft = c.function.type
                if ft.is_pyobject:
                    if getattr(c.function, "attribute", None) in ("release", "__exit__"):
                        continue
                    return True
                if ft.is_ptr:
                    ft = ft.base_type
                if getattr(ft, "is_cfunction", False) and (ft.return_type.is_pyobject or ft.exception_check or ft.exception_value is not None):
                    return True
            elif k == "CoerceFromPyTypeNode" and not pure(c.arg):
                return True
            elif k in ("AttributeNode",) and c.type is not None and c.type.is_pyobject and c.obj.type is not None and c.obj.type.is_pyobject and getattr(c, "is_py_attr", False) \
                    and c.attribute not in ("release", "__exit__"):
                return True
            elif k == "IndexNode" and c.base.type is not None and c.base.type.is_pyobject:
                return True
            elif k.endswith(("AddNode", "SubNode", "MulNode", "DivNode", "ModNode")) and c.type is not None and c.type.is_pyobject:
                return True
        return False

    def evcond(self, c, ps, o):
        if c is None:
            return
        for p in ps:
            self.ev(c, [p])
        if self.mayraise(c):
            o.exc += [p.copy() for p in ps]

    def x_IfStatNode(self, n, ps, o):
        for c in n.if_clauses:
            self.evcond(c.condition, ps, o)
            o.fall += self.seq([c.body], [p.copy() for p in ps], o)
        o.fall += self.seq([n.else_clause], [p.copy() for p in ps], o) if n.else_clause is not None else ps

    def loop(self, n, ps, o, pre):
        body = n.body
        seen = {}
        work = merge([p.copy() for p in ps])
        exits = []
        for i in range(6):
            for p in work:
                pre(p, o)
            r = self.block(body, [p.copy() for p in work])
            o.ret += r.ret
            o.exc += r.exc
            exits += r.brk
            new = merge([p.copy() for p in work] + r.fall + r.cont)
            key = sorted((repr(sorted(p.held)), repr(sorted(p.env.items(), key=repr))) for p in new)
            if key == seen.get("k"):
                break
            seen["k"] = key
            work = new
        els = getattr(n, "else_clause", None)
        end = [p.copy() for p in work]
        if els is not None:
            end = self.seq([els], end, o)
        o.fall = end + exits

    def x_ForInStatNode(self, n, ps, o):
        self.evcond(n.iterator.sequence if hasattr(n.iterator, "sequence") else n.iterator, ps, o)

        def pre(p, o):
            self.assign(n.target, ("unk", "item"), p)
        self.loop(n, ps, o, pre)

    def x_ForFromStatNode(self, n, ps, o):
        for c in (n.bound1, n.bound2, n.step):
            self.evcond(c, ps, o)

        def pre(p, o):
            self.assign(n.target, ("unk", "item"), p)
        self.loop(n, ps, o, pre)

    def x_WhileStatNode(self, n, ps, o):
        def pre(p, o):
            self.evcond(n.condition, [p], o)
        self.loop(n, ps, o, pre)

    def x_BreakStatNode(self, n, ps, o):
        o.brk = ps

    def x_ContinueStatNode(self, n, ps, o):
        o.cont = ps

    def x_ReturnStatNode(self, n, ps, o):
        if n.value is not None:
            for p in ps:
                pre = p.held
                self.ev(n.value, [p], ret=True)
                if self.mayraise(n.value):
                    o.exc.append(Path(pre, dict(p.env)))
        o.ret = ps

    def x_RaiseStatNode(self, n, ps, o):
        for c in (n.exc_type, n.exc_value):
            if c is not None:
                for p in ps:
                    self.ev(c, [p])
        o.exc += ps

    def x_ReraiseStatNode(self, n, ps, o):
        o.exc += ps

    def x_GILStatNode(self, n, ps, o):
        o.fall = self.seq([n.body], ps, o)

    def x_WithStatNode(self, n, ps, o):
        body = n.body
        if type(body).__name__ == "TryFinallyStatNode":
            body = body.body
        if type(body).__name__ == "TryExceptStatNode":
            body = body.body
        rs = []
        for p in ps:
            v = canon(self.ev(n.manager, [p])[0])
            if self.islock(v, n.manager):
                self.acquire(v, p, n)
                rs.append((v, p))
            else:
                rs.append((None, p))
        for v, p in rs:
            r = self.block(body, [p])

            def fin(lst):
                for q in lst:
                    if v is not None:
                        if v not in q.held:
                            self.s.problems.append(("a lock is released once", self.where(n), "%s is released inside its with block in %s" % (show(v), self.L.qual(self.f))))
                        q.held = q.held - {v}
                return lst
            o.fall += fin(r.fall)
            o.brk += fin(r.brk)
            o.cont += fin(r.cont)
            o.ret += fin(r.ret)
            o.exc += fin(r.exc)

    def x_TryFinallyStatNode(self, n, ps, o):
        r = self.block(n.body, ps)
        f = n.finally_clause

        def fin(lst):
            return self.seq([f], lst, o) if lst else []
        o.fall += fin(r.fall)
        o.brk += fin(r.brk)
        o.cont += fin(r.cont)
        o.ret += fin(r.ret)
        o.exc += fin(r.exc)

    def x_TryExceptStatNode(self, n, ps, o):
        r = self.block(n.body, [p.copy() for p in ps])
        o.brk += r.brk
        o.cont += r.cont
        o.ret += r.ret
        fall = r.fall
        if n.else_clause is not None:
            fall = self.seq([n.else_clause], fall, o)
        o.fall += fall
        catchall = False
        for c in n.except_clauses:
            pats = [getattr(p, "name", None) for p in c.pattern or ()]
            if not c.pattern or "BaseException" in pats or "Exception" in pats:
                catchall = True
            hs = [p.copy() for p in merge(r.exc)]
            if c.target is not None:
                for h in hs:
                    self.assign(c.target, ("unk", "exc"), h)
            o.fall += self.seq([c.body], hs, o)
        if not catchall:
            o.exc += r.exc

    # ------------------------------------------------------------ expressions
    def assign(self, l, v, p):
        k = type(l).__name__
        if k == "NameNode":
            p.env[str(l.name)] = v
        elif k == "AttributeNode":
            b = self.val(l.obj, p)
            p.env[("attr", canon(b), str(l.attribute))] = v
            self.store(canon(b), str(l.attribute), v, l, p)
        elif k in ("TupleNode", "ListNode"):
            for a in l.args:
                self.assign(a, ("unk", "item"), p)

    def store(self, b, attr, v, n, p):
        if b == ("self",) and attr in ("lock", "_bitgen", "_bit_generator"):
            self.s.locks.add(("store", attr, canon(v), self.where(n)))

    def strip(self, n):
        while True:
            k = type(n).__name__
            if k in ("TypecastNode",):
                n = n.operand
            elif k in ("AmpersandNode", "DereferenceNode"):
                n = n.operand
            elif k in DROP:
                n = n.arg
            elif k == "IndexNode" and n.base.type is not None and n.base.type.is_ptr and type(n.index).__name__ == "IntNode":
                n = n.base
            else:
                return n

    def val(self, n, p):
        """access path of an expression (no effects)"""
        n = self.strip(n)
        k = type(n).__name__
        if k == "NameNode":
            return p.env.get(str(n.name), ("glob", str(n.name)))
        if k == "AttributeNode":
            b = canon(self.val(n.obj, p))
            a = p.env.get(("attr", b, str(n.attribute)))
            if a is not None and b == ("self",) and n.attribute not in ("lock", "_bitgen", "_bit_generator"):
                return a
            return canon(("attr", b, str(n.attribute)))
        if k == "SimpleCallNode":
            e = getattr(n.function, "entry", None)
            if e is not None and e.cname == "PyCapsule_GetPointer":
                return ("capsuleptr", canon(self.val((n.args or n.arg_tuple.args)[0], p)))
        return ("unk", "%s@%d:%d" % (k, n.pos[1], n.pos[2]))

    def ev(self, n, ps, top=False, ret=False):
        """effects of all calls in the expression, innermost first; the access paths of the result"""
        calls = []
        inner = set()

        def collect(x):
            x_ = x
            k = type(x_).__name__
            if k in ("InnerFunctionNode", "LambdaNode", "DefNode"):
                return
            for c in (x_.child_attrs or ()):
                v = getattr(x_, c, None)
                if isinstance(v, list):
                    for y in v:
                        if y is not None:
                            collect(y)
                elif v is not None and hasattr(v, "child_attrs"):
                    collect(v)
            if k == "SimpleCallNode":
                # the coerced self argument and clones are shared
                if id(x_) not in inner:
                    inner.add(id(x_))
                    calls.append(x_)
            elif k == "GeneralCallNode":
                calls.append(x_)
        collect(n)
        for c in calls:
            for p in list(ps):
                self.call(c, p, ps, top=top or ret)
        return [self.val(n, p) for p in ps]

    def islock(self, v, n):
        if v[0] == "attr" and v[2] == "lock":
            return True
        if v[0] == "param":
            # used as a context manager / acquired: parameters are only used so for locks
            t = getattr(self.strip(n), "type", None)
            return t is None or t.is_pyobject
        return v[0] == "phi" and all(x[0] == "attr" and x[2] == "lock" for x in v[2])

    def acquire(self, v, p, n):
        self.s.regions += 1
        self.s.locks.add(("acquire", v))
        if v in p.held:
            self.s.problems.append(("a held lock is not acquired again", self.where(n), "%s acquires %s while already holding it (deadlock)" % (self.L.qual(self.f), show(v))))
        p.held = p.held | {v}

    def draw(self, v, p, n, what):
        """generator state reached through v is drawn from"""
        o = owner(canon(v))
        w = self.where(n)
        if o[0] == "phi":
            os = [owner(x) for x in o[2]]
        else:
            os = [o]
        for o in os:
            if o[0] == "param":
                if o[1] not in self.allparams:
                    raise Broken("unknown state parameter %s" % o[1])
                lp = [l for l in p.held if l[0] == "param"]
                if lp:
                    self.s.pairs.setdefault((o[1], lp[0][1]), w)
                    self.s.sites.append((w, what, show(lp[0])))
                elif p.held:
                    self.s.pairs.setdefault((o[1], sorted(p.held)[0]), w)
                    self.s.sites.append((w, what, show(sorted(p.held)[0])))
                else:
                    self.s.draws.setdefault(o[1], (w, what))
            else:
                need = canon(("attr", o, "lock"))
                if need in p.held:
                    self.s.sites.append((w, what, show(need)))
                elif o == ("self",) and internal(self.f, self.cls):
                    # a helper method: its callers hold the lock
                    self.s.draws.setdefault(selfname(self.f), (w, what))
                elif o[0] in ("unk", "glob"):
                    self.s.problems.append(("undecided", w, "%s draws from a generator whose lock cannot be identified: %s" % (what, show(o))))
                else:
                    self.s.problems.append(("draws hold the generator's lock", w, "%s: %s draws from %s without holding %s%s"
                                            % (self.L.qual(self.f), what, show(v), show(need), " (held: %s)" % ", ".join(map(show, p.held)) if p.held else "")))

    def call(self, n, p, ps, top):
        f = n.function
        ft = f.type
        k = type(n).__name__
        if k == "SimpleCallNode" and not ft.is_pyobject and n.args is not None and (ft.is_cfunction or ft.is_ptr):
            return self.ccall(n, f, ft if ft.is_cfunction else ft.base_type, p)
        # Python call
        a = f
        while type(a).__name__ in DROP:
            a = a.arg
        if type(a).__name__ == "AttributeNode":
            r = canon(self.val(a.obj, p))
            name = str(a.attribute)
            if name in ("acquire", "release", "__enter__", "__exit__") and self.islock(r, a.obj):
                if name in ("acquire", "__enter__"):
                    cond = k != "SimpleCallNode" or len(n.arg_tuple.args if n.arg_tuple is not None else n.args) > 0
                    if cond and name == "acquire":
                        q = p.copy()
                        if not any(x.held == q.held and x is not p for x in ps):
                            ps.append(q)
                    self.acquire(r, p, n)
                else:
                    if r not in p.held and not (getattr(self.f, "name", None) in PROTOCOL and self.L.islockclass(self.cls) and not self.entryheld):
                        self.s.problems.append(("a lock is released once", self.where(n), "%s releases %s without holding it" % (self.L.qual(self.f), show(r))))
                    p.held = p.held - {r}
                return
            self.pymeth(r, name, p, n)
            return
        if p.held:
            self.pyargs(n, p)

    def pymeth(self, r, name, p, n):
        """method call on a Python object"""
        if r == ("self",) and self.cls is not None:
            m = self.L.method(self.cls, name)
            if m is not None:
                self.L.called.setdefault(id(m), []).append(self.where(n))
                if m is not self.f:
                    s = self.L.summary(m)
                    self.reenter(s, ("self",), p, n, name)
                    if selfname(m) in s.draws:
                        self.draw(("self",), p, n, "%s() (through %s)" % (name, s.draws[selfname(m)][1]))
                self.lockclass(m, name, p)
                return
        if p.held:
            if r[0] == "attr" and r[2] in ("_generator", "_bit_generator", "bit_generator") or any(lockowner(l) == r for l in p.held):
                self.s.problems.append(("a held lock is not acquired again", self.where(n),
                                        "%s calls %s.%s while holding %s, which that call acquires" % (self.L.qual(self.f), show(r), name, ", ".join(map(show, p.held)))))
            self.pyargs(n, p)

    def lockclass(self, m, name, p):
        """methods of a lock class's own protocol"""
        if not self.L.islockclass(self.cls):
            return
        l = ("attr", ("self",), "lock")
        if name in ("acquire", "__enter__"):
            p.held = p.held | {l}
        elif name in ("release", "__exit__"):
            p.held = p.held - {l}

    def pyargs(self, n, p):
        k = type(n).__name__
        args = list(n.arg_tuple.args if n.arg_tuple is not None else n.args) if k == "SimpleCallNode" else [n.positional_args]
        for a in args:
            v = canon(self.val(a, p))
            if v == ("self",) or v[0] == "attr" and v[2] in ("_generator", "_bit_generator", "bit_generator"):
                self.s.problems.append(("undecided", self.where(n), "%s hands the generator to an unknown function while holding its lock" % self.L.qual(self.f)))

    def reenter(self, s, me, p, n, name):
        for x in s.locks:
            if x[0] != "acquire":
                continue
            l = x[1]
            if l[0] == "attr" and l[1] == ("self",) and me == ("self",) and l in p.held:
                self.s.problems.append(("a held lock is not acquired again", self.where(n),
                                        "%s calls %s while holding %s, which that call acquires (deadlock)" % (self.L.qual(self.f), name, show(l))))
            if l[0] == "attr" and l[1] == ("self",) and me == ("self",):
                self.s.locks.add(x)

    def ccall(self, n, f, ft, p):
        e = getattr(f, "entry", None)
        args = [canon(self.val(a, p)) for a in n.args]
        if type(f).__name__ == "AttributeNode" and str(f.attribute) in ("next_uint64", "next_uint32", "next_double", "next_raw") and not f.type.is_cfunction:
            return self.draw(self.val(f.obj, p), p, n, "%s()" % f.attribute)
        if type(f).__name__ == "AttributeNode" and e is not None and e.is_cmethod:
            # C method of an extension class
            o = canon(self.val(f.obj, p))
            ci = None
            t = f.obj.type
            for m in self.L.mods.values():
                for c in m.classes.values():
                    if getattr(c, "type", None) is not None and t is not None and c.name == getattr(t, "name", None) and m.name == t.scope.parent_scope.qualified_name:
                        ci = c
            d = self.L.method(ci, e.name) if ci is not None else None
            if d is None:
                return
            return self.summarised(d, [o] + args[1:] if len(args) == len(ft.args) else [o] + args, o, p, n, e.name)
        if e is not None and e.is_cfunction:
            d = self.L.cdef(self.m, e)
            if d is not None:
                return self.summarised(d, args, None, p, n, e.name)
            # C function outside the package's Cython code
            for i, a in enumerate(n.args):
                if i < len(ft.args) and isbitgen(ft.args[i].type):
                    self.draw(args[i], p, n, "%s()" % e.cname)
                    return
            if self.raw or e.cname in self.L.drawers(self.m):
                for i, a in enumerate(args):
                    if i < len(ft.args) and ft.args[i].type.is_ptr and a[0] == "attr" and a[1] == ("self",):
                        self.draw(a, p, n, "%s()" % e.cname)
                        return
            return
        # through a function pointer
        for i, a in enumerate(n.args):
            t = ft.args[i].type if i < len(ft.args) else a.type
            if isbitgen(t) or t is not None and t.is_ptr and t.base_type.is_void:
                self.draw(args[i], p, n, "call through a function pointer")
                return

    def summarised(self, d, args, me, p, n, name):
        self.L.called.setdefault(id(d), []).append(self.where(n))
        if d is self.f:
            return
        s = self.L.summary(d)
        names = [argname(a) for a in d.declarator.args] if type(d).__name__ == "CFuncDefNode" else [argname(a) for a in d.args]
        amap = dict(zip(names, args))
        if me is not None and names:
            amap[names[0]] = me
        for q, (w, what) in s.draws.items():
            if q in amap:
                self.draw(amap[q], p, n, "%s() (through %s)" % (name, what))
        for (q, l), w in s.pairs.items():
            if q not in amap:
                continue
            lv = amap.get(l) if isinstance(l, str) else l
            a = owner(amap[q])
            if lv is None:
                self.s.problems.append(("undecided", self.where(n), "no lock argument for %s" % name))
                continue
            lv = canon(lv)
            if a[0] == "param":
                if lv[0] == "param":
                    self.s.pairs.setdefault((a[1], lv[1]), self.where(n))
                    self.s.sites.append((self.where(n), name, show(lv)))
                else:
                    self.s.problems.append(("the lock belongs to the generator drawn from", self.where(n), "%s: %s gets %s together with %s" % (self.L.qual(self.f), name, show(a), show(lv))))
                continue
            if a[0] in ("unk", "glob", "phi") or lv[0] in ("unk", "glob", "phi"):
                self.s.problems.append(("undecided", self.where(n), "%s: %s gets %s together with %s" % (self.L.qual(self.f), name, show(a), show(lv))))
                continue
            if lv != canon(("attr", a, "lock")):
                self.s.problems.append(("the lock belongs to the generator drawn from", self.where(n), "%s: %s draws from %s but is given %s" % (self.L.qual(self.f), name, show(a), show(lv))))
            else:
                self.s.sites.append((self.where(n), name, show(lv)))
        for x in s.locks:
            if x[0] != "acquire":
                continue
            l = x[1]
            lv = amap.get(l[1]) if l[0] == "param" else l if me == ("self",) and l[0] == "attr" and l[1] == ("self",) else None
            if lv is None:
                continue
            lv = canon(lv)
            if lv in p.held:
                self.s.problems.append(("a held lock is not acquired again", self.where(n), "%s calls %s while holding %s, which that call acquires (deadlock)" % (self.L.qual(self.f), name, show(lv))))
            self.s.locks.add(("acquire", lv))
