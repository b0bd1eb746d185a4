"""Reader for textual LLVM 18 IR: types, constants, functions, blocks, instructions, debug info."""
import re
from .prep import Broken

TOK = re.compile(r'''
 (?P<ws>\s+)|
 (?P<dots>\.\.\.)|
 (?P<str>c?"(?:[^"])*")|
 (?P<loc>[%@](?:[-a-zA-Z$._0-9]+|"[^"]*"))|
 (?P<meta>![-a-zA-Z$._0-9\\]*)|
 (?P<attr>\#\d+)|
 (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
 (?P<flt>-?\d+\.\d*(?:[eE][-+]?\d+)?)|
 (?P<int>-?\d+)|
 (?P<id>[-a-zA-Z$._][-a-zA-Z$._0-9]*)|
 (?P<p>[(){}\[\]<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Broken("IR token %r" % s[i:i + 60])
        if m.lastgroup != "ws":
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


# ---------------------------------------------------------------- types
class Ty(object):
    __slots__ = ("k", "n", "el", "name")

    def __init__(self, k, n=0, el=None, name=None):
        self.k, self.n, self.el, self.name = k, n, el, name

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.n
        if self.k in ("arr", "vec"):
            return "%s[%d x %r]" % (self.k, self.n, self.el)
        if self.k in ("st", "pst"):
            return "{%s}" % ", ".join(map(repr, self.el or ()))
        return self.name or self.k


I = {}


def ity(n):
    t = I.get(n)
    if t is None:
        t = I[n] = Ty("i", n)
    return t


PTR = Ty("ptr", name="ptr")
F64 = Ty("f64", name="double")
F32 = Ty("f32", name="float")
F80 = Ty("f80", name="x86_fp80")
VOID = Ty("void", name="void")
META = Ty("meta", name="metadata")
SIMPLE = {"ptr": PTR, "double": F64, "float": F32, "x86_fp80": F80, "void": VOID, "metadata": META, "half": Ty("f16"),
          "label": Ty("label"), "token": Ty("token"), "fp128": Ty("f128", name="fp128")}


class Val(object):
    """operand: kind in loc, glob, int, flt, null, undef, zero, agg, str, gep, cast, meta"""
    __slots__ = ("k", "ty", "v")

    def __init__(self, k, ty, v=None):
        self.k, self.ty, self.v = k, ty, v

    def __repr__(self):
        return "%s:%r" % (self.k, self.v)


class Instr(object):
    __slots__ = ("op", "res", "ty", "ops", "x", "dbg", "fn", "blk")

    def __init__(self, op, res, ty, ops, x=None, dbg=None):
        self.op, self.res, self.ty, self.ops, self.x, self.dbg = op, res, ty, ops, x, dbg


class Func(object):
    def __init__(self, name):
        self.name = name
        self.params = []      # (ty, name, attrs)
        self.ret = None
        self.blocks = {}      # label -> [Instr]
        self.order = []
        self.dbg = None
        self.module = None
        self.decl = True
        self.attrs = ""
        self.linkage = ""


class Global(object):
    def __init__(self, name, ty, const, init, ext):
        self.name, self.ty, self.const, self.init, self.ext = name, ty, const, init, ext
        self.module = None


PARAM_ATTRS = set("""noundef nonnull signext zeroext noalias nocapture readonly writeonly readnone returned inreg nest
immarg noinline nofree allocptr allocalign""".split())
LINKAGE = set("""private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr
external dso_local dso_preemptable hidden protected default local_unnamed_addr unnamed_addr thread_local
externally_initialized""".split())
FASTMATH = set("nnan ninf nsz arcp contract afn reassoc fast nuw nsw exact inbounds volatile atomic nneg disjoint tail musttail notail".split())
CCONV = set("ccc fastcc coldcc".split())
BINOPS = set("add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem".split())
CASTS = set("zext sext trunc bitcast ptrtoint inttoptr uitofp sitofp fptoui fptosi fpext fptrunc addrspacecast".split())


class P(object):
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def acc(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        x = self.next()
        if x[1] != s:
            raise Broken("IR parse: expected %r got %r in %r" % (s, x[1], " ".join(y[1] for y in self.t[:40])))

    def skipparen(self):
        self.exp("(")
        d = 1
        while d:
            x = self.next()[1]
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1
            elif x is None:
                raise Broken("IR parse: unbalanced")

    def type(self):
        k, v = self.next()
        t = None
        if k == "id":
            if v in SIMPLE:
                t = SIMPLE[v]
            elif v[0] == "i" and v[1:].isdigit():
                t = ity(int(v[1:]))
            elif v == "opaque":
                t = Ty("opaque")
            elif v == "target":
                self.skipparen()
                t = Ty("opaque")
            else:
                raise Broken("IR type %r" % v)
        elif v == "[":
            n = int(self.next()[1])
            self.exp("x")
            e = self.type()
            self.exp("]")
            t = Ty("arr", n, e)
        elif v == "<":
            if self.acc("{"):
                t = Ty("pst", el=self.types("}"))
                self.exp(">")
            else:
                n = int(self.next()[1])
                self.exp("x")
                e = self.type()
                self.exp(">")
                t = Ty("vec", n, e)
        elif v == "{":
            t = Ty("st", el=self.types("}"))
        elif k == "loc":
            t = self.m.types.get(v)
            if t is None:
                t = self.m.types[v] = Ty("st", name=v)
        else:
            raise Broken("IR type token %r" % (v,))
        if self.peek()[1] == "addrspace":
            self.next()
            self.skipparen()
        if self.peek()[1] == "(":      # function type
            self.i += 1
            self.types(")")
            t = Ty("fn", el=t)
        while self.acc("*"):
            t = PTR
        return t

    def types(self, end):
        out = []
        if self.acc(end):
            return out
        while True:
            if self.peek()[0] == "dots":
                self.next()
            else:
                out.append(self.type())
            if self.acc(end):
                return out
            self.exp(",")

    def attrs(self):
        """skip parameter/return attributes"""
        out = []
        while True:
            k, v = self.peek()
            if k == "id" and (v in PARAM_ATTRS):
                self.i += 1
                out.append(v)
            elif k == "id" and v in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "range", "memory",
                                     "alignstack", "elementtype", "captures", "allocsize", "initializes", "nofpclass"):
                self.i += 1
                if self.peek()[1] == "(":
                    if v in ("byval", "sret"):
                        self.i += 1
                        out.append((v, self.type()))
                        self.exp(")")
                    else:
                        self.skipparen()
                else:
                    self.next()
            else:
                return out

    def value(self, ty):
        k, v = self.next()
        if k == "loc":
            return Val("loc" if v[0] == "%" else "glob", ty, v)
        if k == "int":
            return Val("int", ty, int(v))
        if k == "flt":
            return Val("flt", ty, float(v))
        if k == "hex":
            import struct
            if v.startswith("0xK") or v[2] in "LMHR":
                return Val("flt", ty, ("hex", v))
            return Val("flt", ty, struct.unpack("<d", struct.pack("<Q", int(v, 16)))[0])
        if k == "str":
            return Val("str", ty, v)
        if v == "true":
            return Val("int", ty, 1)
        if v == "false":
            return Val("int", ty, 0)
        if v in ("null", "zeroinitializer", "none"):
            return Val("zero", ty)
        if v in ("undef", "poison"):
            return Val("undef", ty)
        if v in ("<", "[", "{"):
            packed = v == "<" and self.peek()[1] == "{"
            if packed:
                self.i += 1
            end = {"<": ">", "[": "]", "{": "}"}[v] if not packed else "}"
            out = []
            if not self.acc(end):
                while True:
                    t = self.type()
                    out.append(self.value(t))
                    if self.acc(end):
                        break
                    self.exp(",")
            if packed:
                self.exp(">")
            return Val("agg", ty, out)
        if v == "getelementptr":
            while self.peek()[1] in ("inbounds", "inrange"):
                self.next()
            self.exp("(")
            base = self.type()
            self.exp(",")
            ops = []
            while True:
                self.acc("inrange")
                t = self.type()
                ops.append(self.value(t))
                if self.acc(")"):
                    break
                self.exp(",")
            return Val("gep", PTR, (base, ops))
        if v in CASTS or v in BINOPS or v in ("icmp", "select"):
            pred = None
            while self.peek()[1] in FASTMATH:
                self.next()
            if v == "icmp":
                pred = self.next()[1]
            self.exp("(")
            ops = []
            to = None
            while True:
                t = self.type()
                ops.append(self.value(t))
                if self.acc("to"):
                    to = self.type()
                    self.exp(")")
                    break
                if self.acc(")"):
                    break
                self.exp(",")
            return Val("cexpr", to or ops[0].ty, (v, ops, pred))
        if v == "asm":
            while self.peek()[0] == "id":
                self.next()
            a = self.next()[1]
            self.exp(",")
            b = self.next()[1]
            return Val("asm", ty, (a, b))
        if v == "splat":
            self.exp("(")
            t = self.type()
            x = self.value(t)
            self.exp(")")
            return Val("agg", ty, [x] * ty.n)
        if k == "meta":
            # metadata operand
            d = 0
            while self.peek()[1] is not None:
                x = self.peek()[1]
                if d == 0 and x in (",", ")"):
                    break
                if x in "({":
                    d += 1
                if x in ")}":
                    d -= 1
                self.next()
            return Val("meta", ty, v)
        raise Broken("IR value %r (%s)" % (v, " ".join(y[1] for y in self.t[max(0, self.i - 5):self.i + 5])))


class Module(object):
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.md = {}
        self.aliases = {}

    # -------- layout
    def sizeof(self, t):
        k = t.k
        if k == "i":
            n = t.n
            return 16 if n > 64 and n <= 128 else (1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else (n + 63) // 64 * 8)
        if k in ("ptr", "f64"):
            return 8
        if k == "f32":
            return 4
        if k in ("f80", "f128"):
            return 16
        if k == "f16":
            return 2
        if k == "arr":
            return t.n * self.sizeof(t.el)
        if k == "vec":
            return t.n * self.bits(t.el) // 8
        if k == "st":
            if t.el is None:
                raise Broken("opaque struct %s" % t.name)
            off = 0
            al = 1
            for e in t.el:
                a = self.alignof(e)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.sizeof(e)
            return (off + al - 1) // al * al
        if k == "pst":
            return sum(self.sizeof(e) for e in t.el)
        raise Broken("sizeof %r" % t)

    def bits(self, t):
        if t.k == "i":
            return t.n
        return 8 * self.sizeof(t)

    def alignof(self, t):
        k = t.k
        if k == "i":
            return min(16, self.sizeof(t))
        if k == "arr":
            return self.alignof(t.el)
        if k == "vec":
            return self.sizeof(t)
        if k == "st":
            return max([self.alignof(e) for e in t.el] or [1])
        if k == "pst":
            return 1
        return self.sizeof(t)

    def field(self, t, i):
        """offset, type of element i of aggregate type t"""
        if t.k in ("arr",):
            return i * self.sizeof(t.el), t.el
        if t.k == "vec":
            return i * self.bits(t.el) // 8, t.el
        off = 0
        for j, e in enumerate(t.el):
            if t.k == "st":
                a = self.alignof(e)
                off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += self.sizeof(e)
        raise Broken("field %d of %r" % (i, t))

    # -------- debug locations
    def line(self, ins):
        """(file, line) of an instruction"""
        if ins.dbg is None:
            return (self.name, 0)
        r = self.loc_cache.get(ins.dbg)
        if r is None:
            d = self.md.get(ins.dbg, "")
            m = re.search(r"line: (\d+)", d)
            s = re.search(r"scope: (!\d+)", d)
            r = (self.scope_file(s.group(1)) if s else self.name, int(m.group(1)) if m else 0)
            self.loc_cache[ins.dbg] = r
        return r

    loc_cache = None

    def scope_file(self, ref):
        for _ in range(30):
            d = self.md.get(ref, "")
            f = re.search(r"\bfile: (!\d+)", d)
            if f:
                fm = re.search(r'filename: "([^"]*)"', self.md.get(f.group(1), ""))
                return fm.group(1) if fm else self.name
            s = re.search(r"scope: (!\d+)", d)
            if not s:
                break
            ref = s.group(1)
        return self.name


LABEL = re.compile(r'^([-a-zA-Z$._0-9]+|"[^"]*"):')


def parse(text, name):
    m = Module(name)
    m.loc_cache = {}
    lines = text.split("\n")
    i = 0
    n = len(lines)
    # types first (forward references)
    for l in lines:
        if l.startswith("%") and " = type " in l:
            nm, rest = l.split(" = type ", 1)
            t = m.types.get(nm)
            if t is None:
                t = m.types[nm] = Ty("st", name=nm)
            x = P(m, tokenize(rest)).type()
            t.k, t.n, t.el = x.k, x.n, x.el
    while i < n:
        l = lines[i]
        if l.startswith("@"):
            parse_global(m, l)
        elif l.startswith("define "):
            f = parse_header(m, l)
            f.decl = False
            i += 1
            cur = None
            while not lines[i].startswith("}"):
                b = lines[i]
                s = b.strip()
                if not s or s.startswith(";"):
                    i += 1
                    continue
                lm = LABEL.match(b)
                if lm:
                    cur = lm.group(1).strip('"')
                    f.blocks[cur] = []
                    f.order.append(cur)
                    i += 1
                    continue
                if cur is None:
                    cur = str(len([p for p in f.params]))
                    cur = "%entry"
                    f.blocks[cur] = []
                    f.order.append(cur)
                if s.startswith("switch ") and not s.rstrip().endswith("]") and "]" not in s:
                    while "]" not in lines[i]:
                        i += 1
                        s += " " + lines[i].strip()
                if s.startswith("#dbg") or "call void @llvm.dbg." in s or "@llvm.lifetime." in s:
                    i += 1
                    continue
                ins = parse_instr(m, s)
                if ins is not None:
                    ins.fn, ins.blk = f, cur
                    f.blocks[cur].append(ins)
                i += 1
            m.funcs[f.name] = f
        elif l.startswith("declare "):
            f = parse_header(m, re.sub(r"^declare !dbg !\d+ ", "declare ", l))
            m.funcs.setdefault(f.name, f)
        elif l.startswith("!"):
            k, _, v = l.partition(" = ")
            m.md[k] = v
        i += 1
    for f in m.funcs.values():
        f.module = m
    for g in m.globals.values():
        g.module = m
    return m


def parse_global(m, l):
    p = P(m, tokenize(l))
    name = p.next()[1]
    p.exp("=")
    ext = False
    while True:
        k, v = p.peek()
        if v in LINKAGE:
            if v in ("external", "extern_weak"):
                ext = True
            p.next()
            if v == "thread_local" and p.peek()[1] == "(":
                p.skipparen()
        elif v == "addrspace":
            p.next()
            p.skipparen()
        else:
            break
    if p.peek()[1] == "alias":
        p.next()
        t = p.type()
        p.exp(",")
        t2 = p.type()
        m.aliases[name] = p.value(t2)
        return
    v = p.next()[1]
    const = v == "constant"
    t = p.type()
    init = None
    if not ext:
        init = p.value(t)
    m.globals[name] = Global(name, t, const, init, ext)


def parse_header(m, l):
    p = P(m, tokenize(l))
    p.next()
    link = []
    while True:
        k, v = p.peek()
        if v in LINKAGE or v in CCONV:
            link.append(v)
            p.next()
        else:
            a = p.i
            p.attrs()
            if p.i == a:
                break
    f = Func(None)
    f.linkage = " ".join(link)
    f.ret = p.type()
    f.name = p.next()[1]
    p.exp("(")
    if not p.acc(")"):
        k = 0
        while True:
            if p.peek()[0] == "dots":
                p.next()
                f.params.append((None, "...", []))
            else:
                t = p.type()
                at = p.attrs()
                nm = None
                if p.peek()[0] == "loc":
                    nm = p.next()[1]
                f.params.append((t, nm or "%%%d" % k, at))
            k += 1
            if p.acc(")"):
                break
            p.exp(",")
    mm = re.search(r"!dbg (!\d+)", l)
    f.dbg = mm.group(1) if mm else None
    mm = re.search(r"\) .*?(#\d+)", l)
    f.attrs = mm.group(1) if mm else ""
    return f


DBG = re.compile(r", !dbg (!\d+)")
MDTAIL = re.compile(r", ![a-zA-Z][-a-zA-Z_.]* !\d+")


def parse_instr(m, s):
    dbg = None
    mm = DBG.search(s)
    if mm:
        dbg = mm.group(1)
        s = s[:mm.start()] + s[mm.end():]
    s = MDTAIL.sub("", s)
    p = P(m, tokenize(s))
    res = None
    if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
        res = p.next()[1]
        p.next()
    while p.peek()[1] in ("tail", "musttail", "notail"):
        p.next()
    op = p.next()[1]
    fl = []
    while p.peek()[1] in FASTMATH:
        fl.append(p.next()[1])

    def tv():
        t = p.type()
        p.attrs()
        return p.value(t)
    if op in BINOPS:
        t = p.type()
        a = p.value(t)
        p.exp(",")
        b = p.value(t)
        return Instr(op, res, t, [a, b], fl, dbg)
    if op in ("fneg", "freeze"):
        a = tv()
        return Instr(op, res, a.ty, [a], None, dbg)
    if op in ("icmp", "fcmp"):
        pred = p.next()[1]
        while pred in FASTMATH:
            pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(",")
        b = p.value(t)
        rt = ity(1) if t.k != "vec" else Ty("vec", t.n, ity(1))
        return Instr(op, res, rt, [a, b], pred, dbg)
    if op in CASTS:
        a = tv()
        p.exp("to")
        return Instr(op, res, p.type(), [a], None, dbg)
    if op == "alloca":
        t = p.type()
        cnt = None
        if p.acc(","):
            if p.peek()[1] != "align":
                cnt = tv()
        return Instr(op, res, t, [cnt] if cnt else [], None, dbg)
    if op == "load":
        t = p.type()
        p.exp(",")
        a = tv()
        return Instr(op, res, t, [a], None, dbg)
    if op == "store":
        a = tv()
        p.exp(",")
        b = tv()
        return Instr(op, res, VOID, [a, b], None, dbg)
    if op == "getelementptr":
        base = p.type()
        ops = []
        while p.acc(","):
            ops.append(tv())
        return Instr(op, res, PTR, ops, base, dbg)
    if op == "select":
        c = tv()
        p.exp(",")
        a = tv()
        p.exp(",")
        b = tv()
        return Instr(op, res, a.ty, [c, a, b], None, dbg)
    if op == "phi":
        t = p.type()
        inc = []
        while True:
            p.exp("[")
            v = p.value(t)
            p.exp(",")
            lb = p.next()[1][1:].strip('"')
            p.exp("]")
            inc.append((v, lb))
            if not p.acc(","):
                break
        return Instr(op, res, t, [], inc, dbg)
    if op == "br":
        if p.acc("label"):
            return Instr(op, None, VOID, [], [p.next()[1][1:].strip('"')], dbg)
        c = tv()
        p.exp(",")
        p.exp("label")
        a = p.next()[1][1:].strip('"')
        p.exp(",")
        p.exp("label")
        b = p.next()[1][1:].strip('"')
        return Instr(op, None, VOID, [c], [a, b], dbg)
    if op == "switch":
        c = tv()
        p.exp(",")
        p.exp("label")
        d = p.next()[1][1:].strip('"')
        p.exp("[")
        cases = []
        while not p.acc("]"):
            t = p.type()
            v = p.value(t)
            p.exp(",")
            p.exp("label")
            cases.append((v.v, p.next()[1][1:].strip('"')))
        return Instr(op, None, VOID, [c], (d, cases), dbg)
    if op == "ret":
        t = p.type()
        if t is VOID:
            return Instr(op, None, VOID, [], None, dbg)
        return Instr(op, None, t, [p.value(t)], None, dbg)
    if op == "unreachable":
        return Instr(op, None, VOID, [], None, dbg)
    if op == "call":
        while p.peek()[1] in CCONV:
            p.next()
        p.attrs()
        t = p.type()
        if t.k == "fn":
            t = t.el
        callee = p.value(PTR)
        p.exp("(")
        args = []
        if not p.acc(")"):
            while True:
                at = p.type()
                attrs = p.attrs()
                v = p.value(at)
                args.append(v)
                if p.acc(")"):
                    break
                p.exp(",")
        return Instr(op, res, t, args, callee, dbg)
    if op == "extractvalue":
        a = tv()
        idx = []
        while p.acc(","):
            idx.append(int(p.next()[1]))
        t = a.ty
        for k in idx:
            t = m.field(t, k)[1]
        return Instr(op, res, t, [a], idx, dbg)
    if op == "insertvalue":
        a = tv()
        p.exp(",")
        b = tv()
        idx = []
        while p.acc(","):
            idx.append(int(p.next()[1]))
        return Instr(op, res, a.ty, [a, b], idx, dbg)
    if op == "extractelement":
        a = tv()
        p.exp(",")
        b = tv()
        return Instr(op, res, a.ty.el, [a, b], None, dbg)
    if op == "insertelement":
        a = tv()
        p.exp(",")
        b = tv()
        p.exp(",")
        c = tv()
        return Instr(op, res, a.ty, [a, b, c], None, dbg)
    if op == "shufflevector":
        a = tv()
        p.exp(",")
        b = tv()
        p.exp(",")
        c = tv()
        return Instr(op, res, Ty("vec", c.ty.n, a.ty.el), [a, b, c], None, dbg)
    if op == "fence":
        return None
    if op in ("atomicrmw", "cmpxchg"):
        raise Broken("IR op %s" % op)
    raise Broken("IR instruction %r" % s)
