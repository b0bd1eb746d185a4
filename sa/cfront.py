"""The C half of an extension module: compiled to LLVM IR with the extension's own flags (no optimisation
that exploits undefined behaviour), plus C struct layouts from the debug information."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import llparse
from .prep import Broken
from .mem import Layout

LLVM = "/usr/lib/llvm-18/bin/"
OPT = "always-inline,function(sroa,loop-simplify,lcssa)"


def tool(n):
    p = LLVM + n
    return p if os.path.exists(p) else n


def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.returncode, r.stdout, r.stderr


def flags(ext):
    import sysconfig
    out = ["-I.", "-Irandomgen", "-I" + sysconfig.get_paths()["include"]]
    for d in ext.kw.get("include_dirs", []):
        out.append("-I" + d)
    for k, v in ext.kw.get("define_macros", []):
        out.append("-D%s=%s" % (k, v) if v is not None else "-D" + k)
    for u in ext.kw.get("undef_macros", []):
        out.append("-U" + u)
    out += list(ext.kw.get("extra_compile_args", []))
    return out + ["-w"]


def to_ir(root, src, fl, extra=()):
    bc = "%s.%d.ll" % (src, os.getpid())
    rc, o, e = run([tool("clang"), "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-discard-value-names", "-S", "-emit-llvm",
                    src, "-o", bc] + fl + list(extra), root)
    if rc:
        return None, e
    rc, o, e = run([tool("opt"), "-S", "-passes=" + OPT, bc, "-o", bc], root)
    if rc:
        raise Broken("opt failed on %s: %s" % (src, e[-500:]))
    with open(os.path.join(root, bc)) as f:
        return f.read(), ""


class CT(object):
    """C type tree: kind int|float|ptr|array|struct|void"""

    def __init__(self, kind, size):
        self.kind, self.size = kind, size
        self.signed = False
        self.el = None
        self.n = 0
        self.members = None
        self.elref = None
        self.layout = None
        self.name = None

    def __repr__(self):
        if self.kind == "array":
            return "%r[%d]" % (self.el, self.n)
        return "%s%d%s" % (self.kind, self.size * 8, ":" + self.name if self.name else "")


class CProg(object):
    """linked view of all translation units of one extension"""

    def __init__(self):
        self.modules = []
        self.funcs = {}     # name -> Func (definitions first)
        self.globals = {}
        self.structs = {}   # C name -> Layout
        self.stub = None

    def add(self, m):
        self.modules.append(m)
        for n, f in m.funcs.items():
            if not f.decl and (n not in self.funcs or self.funcs[n].decl):
                self.funcs[n] = f
            else:
                self.funcs.setdefault(n, f)
        for n, g in m.globals.items():
            if n not in self.globals or (self.globals[n].ext and not g.ext):
                self.globals[n] = g


def compile_ext(root, ext, m, includes):
    """ext: prep.Ext; m: pyfront.Module; includes: (headers, C functions, struct/typedef names)"""
    incs, funcs, types, consts = includes
    fl = flags(ext)
    prog = CProg()
    csrc = [s for s in ext.sources if s.endswith(".c")]
    drop = set()
    stubn = "sa_stub_%s_%d.c" % (m.name.replace(".", "_"), os.getpid())
    text = err = None
    for _ in range(40):
        src = ['#include <stddef.h>', '#include <stdint.h>']
        src += ['#include "%s"' % h for h in incs]
        src.append("struct sa_fp { void *p; };")
        for i, f in enumerate(sorted(funcs - drop)):
            src.append("void *sa_fn_%d = (void*)&%s;" % (i, f))
        for i, c in enumerate(sorted(consts - drop)):
            src.append("const long long sa_en_%s = (long long)(%s);" % (c, c))
        for i, t in enumerate(sorted(types - drop)):
            src.append("%s *sa_ty_%d; unsigned long sa_sz_%d = sizeof(%s);" % (t, i, i, t))
        with open(os.path.join(root, stubn), "w") as fh:
            fh.write("\n".join(src) + "\n")
        text, err = to_ir(root, stubn, fl + ["-ferror-limit=0", "-Irandomgen/src"])
        if text is not None:
            break
        n0 = len(drop)
        for x in re.findall(r"error: use of undeclared identifier '(\w+)'", err):
            drop.add(x)
        for x in re.findall(r"error: unknown type name '(\w+)'", err):
            drop.add(x)
        for x in re.findall(r"error: .*incomplete type '(?:struct )?(\w+)", err):
            drop.add(x)
            drop.add("struct " + x)
        for mm in re.finditer(r"%s:(\d+):" % re.escape(stubn), err):
            ln = src[int(mm.group(1)) - 1]
            q = re.match(r"void \*sa_fn_\d+ = \(void\*\)&(\w+);", ln)
            if q:
                drop.add(q.group(1))
            else:
                q = re.match(r"(.*?) \*sa_ty_", ln) or re.match(r"const long long sa_en_(\w+) ", ln)
                if q:
                    drop.add(q.group(1))
        if len(drop) == n0:
            raise Broken("cannot compile the header stub of %s: %s" % (m.name, err[:1500]))
    if text is None:
        raise Broken("cannot compile the header stub of %s" % m.name)
    mod = llparse.parse(text, stubn)
    prog.stub = mod
    prog.add(mod)
    structs_of(mod, prog.structs)

    def one(s):
        t, e = to_ir(root, s, fl)
        if t is None:
            raise Broken("cannot compile %s: %s" % (s, e[:1500]))
        return llparse.parse(t, s)
    for s in csrc:
        mm = one(s)
        prog.add(mm)
        structs_of(mm, prog.structs)
    prog.dropped = drop
    prog.consts = {}
    for n, g in mod.globals.items():
        if n.startswith("@sa_en_") and g.init is not None:
            prog.consts[n[7:]] = g.init.v if g.init.k == "int" else 0
    prog.sizes = {}
    return prog


# ---------------------------------------------------------------- struct layouts from DWARF
def structs_of(mod, out):
    md = mod.md
    num = {}

    def fld(d, k):
        mm = re.search(r"\b%s: (![0-9]+|\"[^\"]*\"|[-\w|]+)" % k, d)
        return mm.group(1) if mm else None

    def elems(ref):
        d = md.get(ref, "")
        return re.findall(r"!\d+", d)

    def size(ref):
        d = md.get(ref, "")
        s = fld(d, "size")
        if s:
            return int(s) // 8
        if "DIDerivedType" in d:
            b = fld(d, "baseType")
            return size(b) if b and b != "null" else 0
        return 0

    def leaves(ref, off, path, acc, depth=0):
        d = md.get(ref, "")
        if "DIDerivedType" in d:
            tag = fld(d, "tag")
            if tag == "DW_TAG_pointer_type":
                acc.append((off, 8, path))
                return
            b = fld(d, "baseType")
            if b and b != "null":
                leaves(b, off, path, acc, depth + 1)
            return
        if "DIBasicType" in d:
            acc.append((off, int(fld(d, "size")) // 8, path))
            return
        if "DICompositeType" in d:
            tag = fld(d, "tag")
            if tag == "DW_TAG_array_type":
                b = fld(d, "baseType")
                if "DIFlagVector" in d:
                    acc.append((off, size(ref), path))
                    return
                cnts = []
                for e in elems(fld(d, "elements")):
                    c = fld(md.get(e, ""), "count")
                    cnts.append(int(c) if c and c.lstrip("-").isdigit() else 0)
                tot = 1
                for c in cnts:
                    tot *= c
                es = size(b)
                if tot > 20000:
                    acc.append((off, tot * es, path))
                    return
                sub = []
                leaves(b, 0, "", sub, depth + 1)
                for i in range(tot):
                    for o, n, q in sub:
                        acc.append((off + i * es + o, n, "%s[%d]%s" % (path, i, q)))
                return
            if tag == "DW_TAG_enumeration_type":
                acc.append((off, int(fld(d, "size")) // 8, path))
                return
            els = fld(d, "elements")
            mem = []
            for e in elems(els) if els else []:
                x = md.get(e, "")
                if "DW_TAG_member" not in x:
                    continue
                nm = (fld(x, "name") or '""').strip('"')
                o = int(fld(x, "offset") or 0)
                mem.append((nm, o // 8, fld(x, "baseType")))
            if tag == "DW_TAG_union_type":
                best = None
                for nm, o, b in mem:
                    a2 = []
                    leaves(b, off + o, path, a2, depth + 1)
                    cov = sum(x[1] for x in a2)
                    key = (cov, len(a2))
                    # widest coverage, then natural 64-bit leaves
                    score = (cov, -abs(8 - (a2[0][1] if a2 else 99)))
                    if best is None or score > best[0]:
                        best = (score, a2)
                if best:
                    acc.extend(best[1])
                return
            for nm, o, b in mem:
                leaves(b, off + o, (path + "." + nm) if path else nm, acc, depth + 1)
            return

    def members(ref):
        """direct member name -> (offset, type ref) (anonymous members flattened)"""
        d = md.get(ref, "")
        res = {}
        els = fld(d, "elements")
        for e in elems(els) if els else []:
            x = md.get(e, "")
            if "DW_TAG_member" not in x:
                continue
            nm = (fld(x, "name") or '""').strip('"')
            o = int(fld(x, "offset") or 0) // 8
            b = fld(x, "baseType")
            if nm:
                res[nm] = (o, b)
            else:
                for k, (o2, b2) in members(b).items():
                    res[k] = (o + o2, b2)
        return res

    cts = {}

    def ctype(ref):
        """type tree of a DWARF type (through typedefs)"""
        if ref is None or ref == "null":
            return CT("void", 0)
        if ref in cts:
            return cts[ref]
        d = md.get(ref, "")
        if "DIDerivedType" in d:
            if fld(d, "tag") == "DW_TAG_pointer_type":
                t = cts[ref] = CT("ptr", 8)
                t.elref = lambda: ctype(fld(d, "baseType"))
                return t
            b = fld(d, "baseType")
            t = ctype(b) if b != "null" else CT("void", 0)
            cts[ref] = t
            return t
        if "DIBasicType" in d:
            enc = fld(d, "encoding") or ""
            t = CT("float" if "float" in enc else "int", int(fld(d, "size")) // 8)
            t.signed = enc in ("DW_ATE_signed", "DW_ATE_signed_char")
            cts[ref] = t
            return t
        if "DICompositeType" in d:
            tag = fld(d, "tag")
            if tag == "DW_TAG_array_type":
                if "DIFlagVector" in d:
                    t = cts[ref] = CT("int", size(ref))
                    return t
                el = ctype(fld(d, "baseType"))
                cnts = []
                for e in elems(fld(d, "elements")):
                    c = fld(md.get(e, ""), "count")
                    cnts.append(int(c) if c and c.lstrip("-").isdigit() else 0)
                for c in reversed(cnts):
                    a = CT("array", c * el.size)
                    a.el, a.n = el, c
                    el = a
                cts[ref] = el
                return el
            if tag == "DW_TAG_enumeration_type":
                t = cts[ref] = CT("int", int(fld(d, "size")) // 8)
                return t
            t = cts[ref] = CT("struct", size(ref))
            t.name = (fld(d, "name") or "").strip('"')
            t.members = {}
            for mn, (o, b) in members(ref).items():
                t.members[mn] = (o, ctype(b))
            return t
        return CT("void", 0)

    def strip(ref):
        """through typedefs/const to the composite"""
        for _ in range(20):
            d = md.get(ref, "")
            if "DIDerivedType" in d and fld(d, "tag") in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type"):
                ref = fld(d, "baseType")
                if ref is None or ref == "null":
                    return None
                continue
            return ref
        return None

    for k, d in list(md.items()):
        name = None
        comp = None
        if "DICompositeType" in d and fld(d, "tag") in ("DW_TAG_structure_type", "DW_TAG_union_type"):
            nm = (fld(d, "name") or "").strip('"')
            if nm:
                name = ("union " if "union" in fld(d, "tag") else "struct ") + nm
                comp = k
        elif "DIDerivedType" in d and fld(d, "tag") == "DW_TAG_typedef":
            name = (fld(d, "name") or "").strip('"')
            comp = strip(fld(d, "baseType"))
            if comp is None or "DICompositeType" not in md.get(comp, "") or "array" in fld(md[comp], "tag"):
                if comp is not None and name:
                    s = size(comp)
                    if s:
                        out.setdefault("sizeof " + name, s)
                continue
        if not name or not comp:
            continue
        sz = size(comp)
        if not sz or name in out:
            continue
        acc = []
        leaves(comp, 0, "", acc)
        lay = Layout(sz, acc, name)
        lay.ct = ctype(comp)
        lay.ct.layout = lay
        out[name] = lay
    return out
