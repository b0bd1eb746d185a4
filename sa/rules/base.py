"""Shared by the rules: obligations, read tracking, state comparison between two instances."""
import time, traceback
from .. import term as X
from .. import gens, models, pyinterp
from ..prep import Broken
from ..gens import label


class Ob(dict):
    """one obligation: rule, instance, ok (True / False / None = undecided), detail"""


def ob(rule, inst, ok, detail="", key=None, n=1, where=""):
    """n: number of elementary facts (cells, call sites, paths) behind the obligation"""
    return Ob(rule=rule, inst=inst, ok=ok, detail=detail, key=key or "%s | %s" % (rule, inst), n=n, where=where)


def reads(g, f, *a):
    """run f(*a) recording which bytes of which objects are read before being overwritten: (result, state, {oid: set(bytes)})"""
    E = g.E
    got = {}
    pre = {}

    def hook(kind, o, off, size, ins, st):
        if kind != "load" or o.kind in ("global", "const"):
            return
        if X.is_c(off):
            lo, hi = X.sval(off), X.sval(off) + size
        else:
            l, h = st.rng(off)
            lo, hi = l, h + size
        if o.size is not None:
            lo, hi = max(lo, 0), min(hi, o.size)
        elif hi - lo > 1 << 16:
            hi = lo + (1 << 16)
        m0 = pre[0].mem.get(o.oid)
        m = st.mem.get(o.oid)
        if m is m0:
            got.setdefault(o.oid, set()).update(range(lo, hi))
            return
        s = got.setdefault(o.oid, set())
        c0 = m0.cells if m0 else {}
        c1 = m.cells if m else {}
        wild = m is not None and m.smears != (m0.smears if m0 else ())
        for b in range(lo, hi):
            if b in s:
                continue
            if wild:
                s.add(b)
                continue
            x0, x1 = cover(c0, b, m0), cover(c1, b, m)
            if x0 == x1 or x1 is not None and x0 is not None and mayold(x1[1], x0[1]):
                s.add(b)
    E.track = hook
    try:
        pre[0] = a[0]
        r, s = f(*a)
    finally:
        E.track = None
        for c in list(E.cis.values()) + [getattr(E, "_memci", None)]:
            if c is not None:
                c.track = None
    return r, s, got


def mayold(t, old):
    """t is old on some path (a join) or contains it"""
    return t is old or t.op in ("phi", "cat") and bool(X.deps(t) & X.deps(old))


def cover(cells, b, m):
    if m is None:
        return None
    for s in range(b, b - m.maxsz, -1):
        c = cells.get(s)
        if c is not None and s + c[0] > b:
            return (s, c[1], c[0])
    return None


def catching(cfg, f):
    try:
        return f()
    except Broken as e:
        return [ob("analysis", label(cfg), None, "cannot analyse: %s" % e)]
    except RecursionError as e:
        return [ob("analysis", label(cfg), None, "recursion: %s" % e)]


SLOW = ["RDRAND", "AESCounter", "ChaCha", "HC128", "SPECK128", "DSFMT", "SFMT", "MT19937", "ThreeFry", "Philox"]


def configs(skip=()):
    """configurations, the expensive ones first"""
    cf = [c for c in gens.CONFIGS if c[1] not in skip]
    return sorted(cf, key=lambda c: (SLOW.index(c[1]) if c[1] in SLOW else len(SLOW), gens.CONFIGS.index(c)))


class Session(object):
    """one configuration: constructed state S0, arbitrary reachable state S, and the read sets of its draws"""

    def __init__(self, cfg, root, exts, tag="A", jumps=False):
        self.cfg = cfg
        self.g = g = gens.Gen(root, exts, cfg)
        o, self.S0 = g.construct(seed=False if cfg[0] == "rdrand" else None)
        if self.S0 is None:
            raise Broken("the constructor of %s always raises" % label(cfg))
        self.a = o.args[0]
        self.tag = tag
        self.S, g.mutable = g.invariant(self.S0, self.a, tag, jumps=jumps)
        self._rd = None
        self._dead = {}

    def drawreads(self, S=None):
        g = self.g
        out = {}
        for name in gens.SLOTS:
            r, s, rd = reads(g, lambda st, name=name: g.draw(st, self.a, name), S or self.S)
            if s is None:
                if S is not None:
                    continue
                raise Broken("%s of %s never returns" % (name, label(g.cfg)))
            out[name] = rd, s
        return out

    @property
    def rd(self):
        if self._rd is None:
            self._rd = self.drawreads()
        return self._rd

    def cells(self, name=None, rd=None):
        """[(path, oid, off, size)] parts of the instance's storage that the draws may read"""
        g = self.g
        rds = [x[0] for n, x in (rd or self.rd).items() if name is None or n == name]
        own, heap = g.owned(self.S, self.a)
        r = []
        for p, oid in sorted(own.items()):
            s = set()
            for x in rds:
                s |= x.get(oid, set())
            if not s:
                continue
            o = g.E.w.objs[oid]
            for off, sz in g.grid(o):
                bs = [b for b in range(off, off + sz) if b in s]
                if bs:
                    r.append((p, oid, bs[0], bs[-1] + 1 - bs[0]))
        return r

    def cname(self, p, oid, off):
        return p + self.g.path(self.g.E.w.objs[oid], off)

    def fixed(self, st):
        """control cells (small range, changed by draws) that hold one constant in st: {(oid, off, size): constant}"""
        g = self.g
        r = {}
        for (p, oid, off, sz), t in g.shape(self.S, self.a).items():
            if not isinstance(t.w, int) or X.is_c(t) or (p, off, sz) not in g.mutable:
                continue
            lo, hi = self.S.rng(t)
            if hi - lo > 4096:
                continue
            v = g.E.w.load(st, oid, off, sz)
            if isinstance(v.w, int):
                c = st.getconst(v)
                if c is not None:
                    r[(oid, off, sz)] = c
        return r

    def fixed_in(self, st, amap):
        """as fixed(), for another instance whose objects are amap[oid]; keyed by the cells of this one"""
        g = self.g
        r = {}
        for (p, oid, off, sz), t in g.shape(self.S, self.a).items():
            if not isinstance(t.w, int) or X.is_c(t) or (p, off, sz) not in g.mutable or amap.get(oid) is None:
                continue
            lo, hi = self.S.rng(t)
            if hi - lo > 4096:
                continue
            v = g.E.w.load(st, amap[oid], off, sz)
            if isinstance(v.w, int):
                c = st.getconst(v)
                if c is not None:
                    r[(oid, off, sz)] = c
        return r

    def weak(self, st):
        """contents that st overwrites at unknown positions only: whether all of it is replaced cannot be told"""
        g = self.g
        r = set()
        for p, oid in g.owned(self.S, self.a)[0].items():
            m0, m = self.S.mem.get(oid), st.mem.get(oid)
            if m is None or m0 is None or not m.smears:
                continue
            for x in m.smears:
                if x in m0.smears:
                    continue
                for off, (sz, t) in m0.cells.items():
                    if x[0] < off + sz and x[1] > off:
                        r |= X.deps(t)
        return r

    def deads(self, consts):
        """cells without influence given these constants, each flag also considered alone"""
        r = set(self.dead(consts)) if consts else set()
        if len(consts) > 1:
            for k, v in consts.items():
                if self.S.rng(self.g.E.w.load(self.S, *k)) == (0, 1):
                    r |= self.dead({k: v})
        return r

    def dead(self, consts):
        """cells whose old value cannot matter while the control cells hold these constants: no draw reads them before writing
        them, and each draw either leaves the control cells alone or has replaced the value"""
        k = tuple(sorted(consts.items()))
        if k in self._dead:
            return self._dead[k]
        g = self.g
        S1 = self.S.copy()
        for (oid, off, sz), v in consts.items():
            g.E.w.store(S1, oid, off, sz, X.const(v, 8 * sz))
        rd = self.drawreads(S1)
        live = set((oid, off) for p, oid, off, sz in self.cells(rd=rd))
        dead = set()
        for p, oid, off, sz in self.cells():
            if any((oid, b) in live for b in range(off, off + sz)):
                continue
            old = g.E.w.load(S1, oid, off, sz)
            d = X.deps(old)
            ok = True
            for n, (x, s) in rd.items():
                if all(s.getconst(g.E.w.load(s, q[0], q[1], q[2])) == v for q, v in consts.items()):
                    continue
                if X.deps(g.E.w.load(s, oid, off, sz)) & d:
                    ok = False
                    break
            if ok:
                dead.add((oid, off))
        self._dead[k] = dead
        return dead


def inarg(name, lo=None, hi=None, w=None):
    if lo is None and w is None:
        return X.leaf("in", (name,), "o", ("in", name, ""))
    return X.leaf("in", (name,), w or gens.PYW, ("in", name, ""), lo, hi)


def argnames(cls, m):
    f = cls.method(m)
    if f is None:
        return []
    r = []
    for a in f.args:
        n = a.name
        if not n and a.declarator is not None:
            d = a.declarator
            while getattr(d, "base", None) is not None:
                d = d.base
            n = d.name
        r.append(str(n))
    return r


def restrict(g, S, tag, ctl, lo, hi):
    """S with a control cell (path, oid, off, size) limited to lo..hi"""
    p, oid, off, sz = ctl
    S1 = S.copy()
    if lo == hi:
        v = X.const(lo, 8 * sz)
    else:
        pth = p + g.path(g.E.w.objs[oid], off)
        v = X.leaf("init", (tag, pth, off, sz, lo, hi), 8 * sz, ("init", tag, pth.split("[")[0]), lo, hi)
    g.E.w.store(S1, oid, off, sz, v)
    return S1


def controls(g, S, inst, names, most=65536):
    """control cells of the instance whose unknown initial value is among the names (labels of dependences)"""
    r = []
    for (p, oid, off, sz), t in sorted(g.shape(S, inst).items(), key=lambda x: x[0]):
        if not isinstance(t.w, int) or X.is_c(t) or not X.deps(t) & names:
            continue
        lo, hi = S.rng(t)
        if 0 <= lo < hi and hi - lo <= most:
            r.append(((p, oid, off, sz), lo, hi))
    return sorted(r, key=lambda x: x[2] - x[1])


def settle(g, S, inst, tag, judge, names, budget=40, limit=60.0):
    """case analysis on the control cells the open question depends on: judge(S1) returns (verdict, payload) with verdict True, False
    or None; the whole is True if every case is, False (with the payload and the case) as soon as one case is"""
    t0 = time.time()
    left = [budget]

    def go(S1, ctls):
        for i, (c, lo, hi) in enumerate(ctls):
            todo = [(lo, hi)]
            allok = True
            while todo:
                l, h = todo.pop()
                if left[0] <= 0 or time.time() - t0 > limit:
                    return None, None
                left[0] -= 1
                S2 = restrict(g, S1, tag, c, l, h)
                v, x = judge(S2)
                if v is False:
                    fl = [q for q in ctls[i + 1:] if q[2] == 1]
                    if fl:
                        # a value that matters only while a flag is set
                        v2, x2 = go(S2, fl)
                        if v2 is True:
                            continue
                        if v2 is False:
                            return v2, x2
                    return False, ("%s in %d..%d: " % (c[0] + g.path(g.E.w.objs[c[1]], c[2]), l, h) if l < h else
                                   "%s = %d: " % (c[0] + g.path(g.E.w.objs[c[1]], c[2]), l), x)
                if v is None:
                    if l < h:
                        m = (l + h) // 2
                        # the ends first: block boundaries are the interesting positions
                        todo += [(l, m), (m + 1, h)] if h - l < 8 else [(l, l + 1), (l + 2, m), (m + 1, h - 2), (h - 1, h)]
                        continue
                    v2, x2 = go(S2, ctls[i + 1:])
                    if v2 is False:
                        return v2, x2
                    allok = allok and v2 is True
            if allok:
                return True, None
        return None, None

    return go(S, controls(g, S, inst, names))


def package(root, exts):
    """typed trees of every module of the package"""
    from .. import pyfront
    return {e: pyfront.load(root, e) for e in sorted(exts) if ".tests." not in e}
