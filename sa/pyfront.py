"""Typed Cython syntax trees of the package's .pyx files (Cython's own front end, stopped
after expression analysis: every name, attribute, call and coercion is resolved)."""
import os, re, sys, io, contextlib
from .prep import Broken

sys.setrecursionlimit(20000)


class Module(object):
    def __init__(self, name, tree, scope, path):
        self.name, self.tree, self.scope, self.path = name, tree, scope, path
        self.funcs = {}      # cname/def name -> node   (module level)
        self.classes = {}    # class name -> ClassInfo
        self.entries = {}    # func_cname -> CFuncDefNode


class ClassInfo(object):
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.methods = {}    # name -> node  (DefNode/CFuncDefNode)
        self.props = {}      # name -> {'__get__': node, '__set__': node}
        self.base = None     # (module name, class name)
        self.attrs = {}


def load(root, modname, until="AnalyseExpressionsTransform"):
    from Cython.Compiler import Pipeline, Main, Errors
    from Cython.Compiler.Main import Context, CompilationOptions, CompilationSource, default_options
    from Cython.Compiler.Scanning import FileSourceDescriptor
    import numpy
    rel = modname.replace(".", "/") + ".pyx"
    path = os.path.join(root, rel)
    if not os.path.exists(path) and os.path.exists(path[:-3] + "py"):
        rel, path = rel[:-3] + "py", path[:-3] + "py"
    if not os.path.exists(path):
        raise Broken("source %s is gone" % rel)
    opts = CompilationOptions(default_options, include_path=[root, numpy.get_include()], language_level=3,
                              compiler_directives={"language_level": 3, "binding": True})
    cwd = os.getcwd()
    os.chdir(root)
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            ctx = Context.from_options(opts)
            cs = CompilationSource(FileSourceDescriptor(path, rel), modname, root)
            result = Main.create_default_resultobj(cs, opts)
            out = []
            for p in Pipeline.create_pyx_pipeline(ctx, opts, result):
                out.append(p)
                if type(p).__name__ == until:
                    break
            Errors.init_thread()
            e, tree = Pipeline.run_pipeline(out, cs)
    finally:
        os.chdir(cwd)
    if e is not None or tree is None:
        raise Broken("Cython cannot analyse %s: %s %s" % (rel, e, err.getvalue()[-2000:]))
    m = Module(modname, tree, tree.scope, path)
    m.context = ctx
    index(m)
    for name, (stats, sc) in ctx.pxds.items():
        # inline functions defined in declaration files
        if name.startswith("randomgen") and name != modname:
            for s in (stats.stats if hasattr(stats, "stats") else [stats]):
                if type(s).__name__ == "CFuncDefNode":
                    m.entries.setdefault(s.entry.func_cname or s.entry.cname, s)
                    s._sa_mod, s._sa_cls = m, None
    return m


def index(m):
    from Cython.Compiler import Nodes

    def walk(stats, cls):
        for s in stats:
            n = type(s).__name__
            if n == "StatListNode":
                walk(s.stats, cls)
            elif n == "CompilerDirectivesNode":
                walk(s.body.stats if hasattr(s.body, "stats") else [s.body], cls)
            elif n in ("CClassDefNode", "PyClassDefNode"):
                name = getattr(s, "class_name", None) or s.name
                ci = ClassInfo(name, s, m)
                if n == "CClassDefNode":
                    bt = s.entry.type.base_type
                    if bt is not None:
                        ci.base = (bt.scope.parent_scope.qualified_name if bt.scope and bt.scope.parent_scope else None, bt.name)
                    ci.type = s.entry.type
                m.classes[name] = ci
                if s.body is not None:
                    walk(s.body.stats if hasattr(s.body, "stats") else [s.body], ci)
            elif n == "DefNode":
                (cls.methods if cls else m.funcs)[s.name] = s
                s._sa_mod, s._sa_cls = m, cls
            elif n == "CFuncDefNode":
                nm = s.entry.name
                (cls.methods if cls else m.funcs)[nm] = s
                m.entries[s.entry.func_cname or s.entry.cname] = s
                s._sa_mod, s._sa_cls = m, cls
            elif n == "PropertyNode":
                d = cls.props.setdefault(s.name, {})
                for x in s.body.stats:
                    if type(x).__name__ == "DefNode":
                        d[x.name] = x
                        x._sa_mod, x._sa_cls = m, cls
            elif n == "SingleAssignmentNode" and cls is not None and type(s.lhs).__name__ == "NameNode":
                cls.attrs.setdefault(s.lhs.name, s.rhs)
    body = m.tree.body
    walk(body.stats if hasattr(body, "stats") else [body], None)


def walk_nodes(n):
    """all descendant nodes"""
    from Cython.Compiler.Nodes import Node
    st = [n]
    while st:
        x = st.pop()
        yield x
        for c in (x.child_attrs or ()):
            v = getattr(x, c, None)
            if isinstance(v, list):
                st.extend(y for y in v if isinstance(y, Node))
            elif isinstance(v, Node):
                st.append(v)


def _own(e):
    """declared in a file of the repository's package"""
    try:
        f = e.pos[0].get_filenametable_entry() if hasattr(e.pos[0], "get_filenametable_entry") else str(e.pos[0])
    except Exception:
        return False
    return "randomgen" in f and "site-packages" not in f


def _is_local(m, h):
    return os.path.exists(os.path.join(os.path.dirname(m.path), h))


def c_includes(m):
    """headers of the repository that the module's declarations come from, and the C functions and
    struct types declared there"""
    incs, funcs, types, consts = [], set(), set(), set()
    seen = set()
    todo = [m.scope]
    while todo:
        sc = todo.pop()
        if id(sc) in seen:
            continue
        seen.add(id(sc))
        for name, ic in getattr(sc, "c_includes", {}).items():
            mm = re.match(r'#include\s*[<"](src/[^">]+|[^"/>]+\.h)[">]', str(name))
            if mm and (mm.group(1).startswith("src/") or _is_local(m, mm.group(1))) and mm.group(1) not in incs:
                incs.append(mm.group(1))
        for e in list(sc.entries.values()):
            if e.visibility == "extern" and _own(e):
                if e.is_cfunction:
                    funcs.add(e.cname)
                elif (getattr(e.type, "is_int", False) or getattr(e.type, "is_enum", False)) and not e.is_type:
                    consts.add(e.cname)
                elif e.is_type and getattr(e.type, "is_struct_or_union", False):
                    types.add(e.type.empty_declaration_code())
                elif e.is_type and getattr(e.type, "is_typedef", False):
                    types.add(e.type.empty_declaration_code())
            if e.as_module is not None and e.as_module.qualified_name.startswith("randomgen"):
                todo.append(e.as_module)
    return incs, funcs, types, consts
