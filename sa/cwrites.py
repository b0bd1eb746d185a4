"""Which pointer parameters a C function may write through: flow-insensitive provenance over LLVM IR, bottom-up over calls."""
PASS = {"getelementptr", "bitcast", "freeze", "addrspacecast", "inttoptr", "ptrtoint", "add", "sub", "and", "or", "insertvalue", "extractvalue", "zext", "sext"}


class CWrites(object):
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def writes(self, name):
        """set of parameter indices (None: unknown function)"""
        name = name.lstrip("@")
        if name in self.memo:
            return self.memo[name]
        f = self.prog.funcs.get("@" + name) or self.prog.funcs.get(name)
        if f is None or f.decl:
            return None
        self.memo[name] = set()
        while True:
            r = self.one(f)
            if r == self.memo[name]:
                return r
            self.memo[name] = r

    def one(self, f):
        prov = {}
        idx = {}
        for i, p in enumerate(f.params):
            nm = p[1]
            prov[nm] = {i}
        slot = {}       # alloca -> provenance of what was stored there
        allocas = {}    # value -> allocas it points to
        out = set()

        def pv(v):
            return prov.get(v.v, set()) if v.k == "loc" else set()

        def al(v):
            return allocas.get(v.v, set()) if v.k == "loc" else set()
        changed = True

        def add(d, k, s):
            nonlocal changed
            if s and not s <= d.get(k, set()):
                d[k] = d.get(k, set()) | s
                changed = True
        while changed:
            changed = False
            for b in f.order:
                for ins in f.blocks[b]:
                    op = ins.op
                    if op == "alloca":
                        add(allocas, ins.res, {ins.res})
                    elif op in PASS:
                        for o in ins.ops:
                            add(prov, ins.res, pv(o))
                            add(allocas, ins.res, al(o))
                    elif op == "phi":
                        for o, _ in ins.x:
                            add(prov, ins.res, pv(o))
                            add(allocas, ins.res, al(o))
                    elif op == "select":
                        for o in ins.ops[1:]:
                            add(prov, ins.res, pv(o))
                            add(allocas, ins.res, al(o))
                    elif op == "load":
                        if ins.ty.k == "ptr":
                            add(prov, ins.res, pv(ins.ops[0]))
                        for a in al(ins.ops[0]):
                            add(prov, ins.res, slot.get(a, set()))
                    elif op == "store":
                        v, p = ins.ops
                        for a in al(p):
                            add(slot, a, pv(v))
                        out |= pv(p)
                    elif op == "call":
                        nm = ins.x.v if ins.x.k == "glob" else None
                        if nm and nm.startswith(("@llvm.dbg", "@llvm.lifetime")):
                            continue
                        if nm and nm.startswith(("@llvm.memcpy", "@llvm.memmove", "@llvm.memset", "@memcpy", "@memset", "@memmove")):
                            out |= pv(ins.ops[0])
                            for a in al(ins.ops[0]):
                                if len(ins.ops) > 1:
                                    for a2 in al(ins.ops[1]):
                                        add(slot, a, slot.get(a2, set()))
                            continue
                        w = self.writes(nm) if nm else None
                        for i, o in enumerate(ins.ops):
                            if w is None or i in w:
                                if w is None and nm and nm.startswith("@llvm."):
                                    continue
                                out |= pv(o)
                                for a in al(o):
                                    out |= slot.get(a, set()) if w is None else set()
                        if ins.res:
                            for o in ins.ops:
                                add(prov, ins.res, pv(o))
        return out
