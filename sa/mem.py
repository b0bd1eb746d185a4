"""Abstract memory: objects made of disjoint cells, copy-on-write states, joins."""
from . import term as X
from .term import T

MAXALTS = 12


class Layout(object):
    """byte offset -> (start, size, name) of the scalar leaves of a C type; names for dependence keys"""

    def __init__(self, size, leaves, name=""):
        self.size = size
        self.name = name
        self.leaves = sorted(leaves)          # (off, size, path)
        self.byoff = {}
        for off, sz, path in self.leaves:
            for b in range(off, off + sz):
                self.byoff[b] = (off, sz, path)

    def leaf(self, off):
        return self.byoff.get(off)

    def path(self, off):
        l = self.byoff.get(off)
        return l[2] if l else "+%d" % off


class Obj(object):
    """static description of a memory object (shared by all states)"""

    def __init__(self, oid, kind, size=None, layout=None, name=None, esize=None, src=None, dflt="undef"):
        self.oid, self.kind, self.size, self.layout = oid, kind, size, layout
        self.name = name or str(oid)
        self.esize = esize
        self.src = src            # for arrays that come from outside: identity of the source
        self.dflt = dflt          # undef | zero | init | elem | (list)
        self.fsize = size         # allocated size (term or int)
        self.extra = {}


class Mem(object):
    """contents of one object in one state"""
    __slots__ = ("cells", "maxsz", "smears", "ver", "own")

    def __init__(self):
        self.cells = {}
        self.maxsz = 1
        self.smears = ()
        self.ver = 0
        self.own = None

    def copy(self, own):
        m = Mem()
        m.cells = dict(self.cells)
        m.maxsz = self.maxsz
        m.smears = self.smears
        m.ver = self.ver
        m.own = own
        return m


class State(object):
    __slots__ = ("mem", "heap", "env", "refine", "truth", "ctl", "tok", "objs")

    def __init__(self):
        self.mem = {}         # oid -> Mem
        self.heap = {}        # oid -> python heap object (immutable records, replaced on write)
        self.env = {}         # (frame, name) -> T
        self.refine = {}      # T -> (lo, hi)
        self.truth = {}       # T -> bool
        self.ctl = ()
        self.tok = object()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.heap = dict(self.heap)
        s.env = dict(self.env)
        s.refine = dict(self.refine)
        s.truth = dict(self.truth)
        s.ctl = self.ctl
        self.tok = object()
        s.tok = object()
        return s

    # -- objects
    def wmem(self, oid):
        m = self.mem.get(oid)
        if m is None:
            m = Mem()
            m.own = self.tok
            self.mem[oid] = m
        elif m.own is not self.tok:
            m = m.copy(self.tok)
            self.mem[oid] = m
        return m

    # -- ranges
    def rng(self, t):
        r = self.refine.get(t)
        if r is not None:
            return r
        op = t.op
        if not self.refine or not isinstance(t.w, int) or op in ("c", "init", "phi", "ld"):
            return (t.lo, t.hi)
        return self._rng(t, 4)

    def _rng(self, t, d):
        r = self.refine.get(t)
        if r is not None:
            return r
        base = (t.lo, t.hi)
        if d == 0 or not isinstance(t.w, int):
            return base
        op = t.op
        w = t.w
        lo, hi = base
        if op == "add":
            a = self._rng(t.args[1], d - 1)
            b = self._rng(t.args[2], d - 1)
            l, h = a[0] + b[0], a[1] + b[1]
            if X.fitsrange(w, l, h):
                lo, hi = max(lo, l), min(hi, h)
            elif w != X.PYW and X.is_c(t.args[2]):
                s = X.sval(t.args[2])
                l, h = a[0] + s, a[1] + s
                if X.fitsrange(w, l, h):
                    lo, hi = max(lo, l), min(hi, h)
                else:
                    # signed no-wrap: small magnitudes
                    pass
        elif op == "sub":
            a = self._rng(t.args[1], d - 1)
            b = self._rng(t.args[2], d - 1)
            l, h = a[0] - b[1], a[1] - b[0]
            if X.fitsrange(w, l, h):
                lo, hi = max(lo, l), min(hi, h)
        elif op == "mul":
            a = self._rng(t.args[1], d - 1)
            b = self._rng(t.args[2], d - 1)
            c = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
            if X.fitsrange(w, min(c), max(c)):
                lo, hi = max(lo, min(c)), min(hi, max(c))
        elif op == "cat":
            ps = t.args
            if w == X.PYW and not (ps[-1][0] is None and ps[-1][1] == 0):
                b = ps[-1][0]
                if b is not None and b.op == "sgn" and len(ps) == 2 and ps[0][0] is b.args[1] and ps[0][2] == b.args[1].w:
                    a = self._rng(b.args[1], d - 1)
                    H = 1 << (b.args[1].w - 1)
                    if a[1] < H:
                        return a
                    if a[0] >= H:
                        return (a[0] - 2 * H, a[1] - 2 * H)
                return base
            l2 = h2 = 0
            sh = 0
            for b, l, n in ps:
                if b is None:
                    l2 |= l << sh
                    h2 |= l << sh
                elif b.op == "sgn":
                    a = self._rng(b.args[1], d - 1)
                    H = 1 << (b.args[1].w - 1)
                    if a[1] < H:
                        pass
                    elif a[0] >= H:
                        l2 |= X.mask(n) << sh
                        h2 |= X.mask(n) << sh
                    else:
                        h2 |= X.mask(n) << sh
                elif not isinstance(b.w, int):
                    h2 |= X.mask(n) << sh
                else:
                    a = self._rng(b, d - 1)
                    if a[0] >= 0 and (a[1] >> l) <= X.mask(n):
                        l2 += (a[0] >> l) << sh
                        h2 += (a[1] >> l) << sh
                    else:
                        h2 |= X.mask(n) << sh
                sh += n
            lo, hi = max(lo, l2), min(hi, h2)
        elif op == "udiv" or op == "lshr":
            a = self._rng(t.args[1], d - 1)
            b = t.args[2]
            if X.is_c(b) and b.lo > 0 and op == "udiv":
                lo, hi = max(lo, a[0] // b.lo), min(hi, a[1] // b.lo)
        if lo > hi:
            return base
        return lo, hi

    def getconst(self, t):
        """int value if the term is known to be one constant in this state"""
        if t.op == "c":
            return t.lo
        if isinstance(t.w, int):
            lo, hi = self.rng(t)
            if lo == hi:
                return lo
        return None

    def assume(self, c, val):
        """assume boolean term c has value val; False if contradictory"""
        if c.op == "c":
            return bool(c.args[0]) == val
        if c in self.truth:
            return self.truth[c] == val
        self.truth[c] = val
        op = c.op
        if op == "cmp":
            pred, a, b = c.args
            if not val:
                pred = X.NEG[pred]
            if isinstance(a.w, int):
                return self._assume_cmp(pred, a, b)
            return True
        if op == "xor" and X.is_c(c.args[2]):
            return self.assume(c.args[1], not val)
        if op == "xor" and X.is_c(c.args[1]):
            return self.assume(c.args[2], not val)
        if op == "and" and val:
            return self.assume(c.args[1], True) and self.assume(c.args[2], True)
        if op == "or" and not val:
            return self.assume(c.args[1], False) and self.assume(c.args[2], False)
        if isinstance(c.w, int) and c.w == 1:
            self.refine[c] = (1, 1) if val else (0, 0)
        return True

    def _narrow(self, t, lo, hi):
        cl, ch = self.rng(t)
        lo, hi = max(lo, cl), min(hi, ch)
        if lo > hi:
            return False
        if (lo, hi) != (cl, ch):
            if t.op != "c":
                self.refine[t] = (lo, hi)
                # push through simple wrappers
                if t.op == "cat":
                    ps = t.args
                    nz = [p for p in ps if not (p[0] is None)]
                    if len(nz) == 1 and nz[0] is ps[0] and nz[0][0].op != "sgn" and nz[0][1] == 0 \
                            and isinstance(nz[0][0].w, int) and nz[0][0].w != X.PYW and nz[0][2] == nz[0][0].w \
                            and all(p[1] == 0 for p in ps[1:]):
                        return self._narrow(nz[0][0], lo, hi)
                    if len(ps) == 2 and ps[1][0] is not None and ps[1][0].op == "sgn" and ps[0][0] is ps[1][0].args[1] \
                            and ps[0][1] == 0 and ps[0][2] == ps[0][0].w:
                        b = ps[0][0]
                        H = 1 << (b.w - 1)
                        if t.w == X.PYW:
                            if lo >= 0:
                                return self._narrow(b, lo, min(hi, H - 1))
                            if hi < 0:
                                return self._narrow(b, max(lo, -H) + 2 * H, hi + 2 * H)
                        else:
                            if hi < (1 << (t.w - 1)):
                                return self._narrow(b, lo, min(hi, H - 1))
                    k = 0
                    if len(ps) > 1 and ps[0][0] is None and ps[0][1] == 0:
                        k = ps[0][2]
                        ps = ps[1:]
                    if k and ps[0][0] is not None and ps[0][0].op != "sgn" and isinstance(ps[0][0].w, int) and ps[0][1] == 0 \
                            and all(p[0] is None and p[1] == 0 for p in ps[1:]) and lo >= 0:
                        b, _, bn = ps[0]
                        if bn == b.w or b.w != X.PYW and self.rng(b)[1] <= X.mask(bn):
                            return self._narrow(b, -(-lo >> k), hi >> k)
                elif t.op == "add" and X.is_c(t.args[2]):
                    s = X.sval(t.args[2])
                    bl, bh = lo - s, hi - s
                    if t.w == X.PYW or (X.fitsrange(t.w, bl, bh)):
                        # valid only if the addition cannot wrap for base values outside [bl,bh];
                        # with wrap-around arithmetic the pre-image of [lo,hi] is exactly [bl,bh]
                        return self._narrow(t.args[1], bl, bh)
        return True

    def _assume_cmp(self, pred, a, b):
        if pred in ("ugt", "uge", "sgt", "sge"):
            pred, a, b = X.SWAP[pred], b, a
        w = a.w
        al, ah = self.rng(a)
        bl, bh = self.rng(b)
        if pred == "eq":
            lo, hi = max(al, bl), min(ah, bh)
            if lo > hi:
                return False
            return self._narrow(a, lo, hi) and self._narrow(b, lo, hi)
        if pred == "ne":
            if bl == bh:
                if a.op == "cat":
                    p = a.args[0]
                    if p[0] is not None and p[0].op != "sgn" and p[1] == 0 and p[2] < 64 and p[0].w != X.PYW and isinstance(p[0].w, int) \
                            and p[2] < p[0].w and all(q[0] is None and q[1] == 0 for q in a.args[1:]):
                        # the low bits of p[0] differ from a constant: drop matching end points
                        m = X.mask(p[2])
                        l, h = self.rng(p[0])
                        if l == h and l & m == bl:
                            return False
                        if l & m == bl:
                            l += 1
                        if h & m == bl:
                            h -= 1
                        if not self._narrow(p[0], l, h):
                            return False
                if al == bl:
                    return self._narrow(a, al + 1, ah)
                if ah == bl:
                    return self._narrow(a, al, ah - 1)
            if al == ah:
                if bl == al:
                    return self._narrow(b, bl + 1, bh)
                if bh == al:
                    return self._narrow(b, bl, bh - 1)
            return True
        signed = pred[0] == "s" and w != X.PYW
        if signed:
            H = 1 << (w - 1)
            # only refine when the ranges are sign-homogeneous, or against constants
            def sr(l, h):
                if h < H:
                    return (l, h)
                if l >= H:
                    return (l - 2 * H, h - 2 * H)
                return (-H, H - 1)
            sal, sah = sr(al, ah)
            sbl, sbh = sr(bl, bh)
            d = 1 if pred == "slt" else 0
            nah = min(sah, sbh - d)
            nbl = max(sbl, sal + d)
            if nah < sal or nbl > sbh:
                return False
            ok = True
            # map back to unsigned when homogeneous
            def back(l, h):
                if l >= 0:
                    return (l, h)
                if h < 0:
                    return (l + 2 * H, h + 2 * H)
                return None
            r = back(sal, nah)
            if r:
                ok = ok and self._narrow(a, *r)
            r = back(nbl, sbh)
            if r:
                ok = ok and self._narrow(b, *r)
            return ok
        d = 1 if pred in ("ult", "slt") else 0
        if bh - d < al or al + d > bh:
            return False
        return self._narrow(a, al, min(ah, bh - d)) and self._narrow(b, max(bl, al + d), bh)

    def eval_cmp(self, c):
        """True/False/None for a boolean term in this state"""
        if c.op == "c":
            return bool(c.args[0])
        v = self.truth.get(c)
        if v is not None:
            return v
        if c.op == "cmp":
            pred, a, b = c.args
            if isinstance(a.w, int) and isinstance(b.w, int):
                r = X.cmprange(pred, self.rng(a), self.rng(b), a.w, a is b)
                if r is not None:
                    return r
            n = X._table.get(("cmp", (X.NEG[pred], a, b), 1))
            if n is not None and n in self.truth:
                return not self.truth[n]
        elif c.op == "xor":
            for i, j in ((1, 2), (2, 1)):
                if X.is_c(c.args[j]):
                    r = self.eval_cmp(c.args[i])
                    if r is not None:
                        return r != bool(c.args[j].args[0])
        elif c.op == "and":
            a, b = self.eval_cmp(c.args[1]), self.eval_cmp(c.args[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
        elif c.op == "or":
            a, b = self.eval_cmp(c.args[1]), self.eval_cmp(c.args[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
        r = self.refine.get(c)
        if r and r[0] == r[1]:
            return bool(r[0])
        return None


# ------------------------------------------------------------------ object store
class World(object):
    """static object descriptions plus load/store on states"""

    def __init__(self):
        self.objs = {}
        self.events = None          # callback(kind, info) for checks
        self.cnt = 0

    def new(self, kind, **kw):
        self.cnt += 1
        oid = kw.pop("oid", None) or "%s#%d" % (kind, self.cnt)
        o = Obj(oid, kind, **kw)
        self.objs[oid] = o
        return o

    def default(self, st, o, off, size):
        """term for never-written bytes [off, off+size)"""
        if callable(o.dflt):
            return o.dflt(st, o, off, size)
        if o.dflt == "zero":
            return X.const(0, 8 * size)
        if o.dflt == "bytes":
            d = o.extra["data"]
            return X.const(int.from_bytes(d[off:off + size], "little"), 8 * size)
        key = (o.dflt, o.name, o.layout.path(off).split("[")[0] if o.layout else "")
        return X.leaf(o.dflt, (o.name, off, size), 8 * size, key)

    def _leafspan(self, o, off):
        """natural cell (start, size) containing byte off of never-written memory"""
        if o.layout:
            l = o.layout.leaf(off)
            if l:
                return l[0], l[1]
        e = o.esize or 1
        return off - off % e, e

    def load(self, st, oid, off, size):
        """off: int"""
        o = self.objs[oid]
        m = st.mem.get(oid)
        if m is not None:
            c = m.cells.get(off)
            if c is not None and c[0] == size:
                return c[1]
        if m is None or not m.cells:
            overl = ()
        else:
            overl = []
            for s in range(off - m.maxsz + 1, off + size):
                c = m.cells.get(s)
                if c is not None and s + c[0] > off:
                    overl.append((s, c[0], c[1]))
        ps = []
        pos = off
        end = off + size
        k = 0
        while pos < end:
            if k < len(overl) and overl[k][0] <= pos:
                s, n, t = overl[k]
                k += 1
                e = min(end, s + n)
                if not isinstance(t.w, int):
                    # floats / opaque values stored in memory: whole access handled above
                    if s == off and n == size:
                        return t
                    t = X.opq("bits", (t,), 8 * n)
                ps.extend(X.parts(X.slice_(t, 8 * (pos - s), 8 * (e - pos))))
                pos = e
                continue
            lim = overl[k][0] if k < len(overl) else end
            lim = min(lim, end)
            s, n = self._leafspan(o, pos)
            e = min(lim, s + n)
            if m is not None and m.smears and any(x[0] < e and x[1] > pos for x in m.smears):
                d = frozenset().union(*[x[3] for x in m.smears if x[0] < e and x[1] > pos])
                if not any(x[0] <= pos and x[1] >= e and not x[4] for x in m.smears):
                    base = self.default(st, o, s, n)
                    d = d | X.deps(base)
                t = X.phi(("sm", oid, tuple(x[2] for x in m.smears if x[0] < e and x[1] > pos), s, n), d, 8 * n)
            else:
                if o.dflt in ("zero", "bytes"):
                    t = self.default(st, o, pos, e - pos)
                    ps.extend(X.parts(t))
                    pos = e
                    continue
                t = self.default(st, o, s, n)
            if s == pos and e == s + n and not isinstance(t.w, int):
                if s == off and n == size:
                    return t
                t = X.opq("bits", (t,), 8 * n)
            ps.extend(X.parts(X.slice_(t, 8 * (pos - s), 8 * (e - pos))))
            pos = e
        return X.cat(ps)

    def store(self, st, oid, off, size, t):
        m = st.wmem(oid)
        m.ver += 1
        c = m.cells.get(off)
        if c is not None and c[0] == size:
            m.cells[off] = (size, t)
            return
        if m.cells:
            for s in range(off - m.maxsz + 1, off + size):
                c = m.cells.get(s)
                if c is not None and s + c[0] > off:
                    n, old = c
                    del m.cells[s]
                    if not isinstance(old.w, int):
                        old = X.opq("bits", (old,), 8 * n)
                    if s < off:
                        m.cells[s] = (off - s, X.slice_(old, 0, 8 * (off - s)))
                    if s + n > off + size:
                        k = off + size
                        m.cells[k] = (s + n - k, X.slice_(old, 8 * (k - s), 8 * (s + n - k)))
        m.cells[off] = (size, t)
        if size > m.maxsz:
            m.maxsz = size

    def content(self, m, lo, hi):
        """identity of the contents of bytes [lo,hi)"""
        if m is None:
            return 0
        k = (frozenset((s, n, t.tid) for s, (n, t) in m.cells.items() if s < hi and s + n > lo),
             tuple(x for x in m.smears if x[0] < hi and x[1] > lo))
        return CONTENT.setdefault(k, len(CONTENT) + 1)

    def smear(self, st, oid, lo, hi, t_deps, key=None):
        """unknown store somewhere in bytes [lo,hi); key: what identifies the store apart from the old contents"""
        m = st.wmem(oid)
        m.ver += 1
        if key is not None:
            k = ("smear", oid, lo, hi, key, self.content(m, lo, hi))
            u = TOKENS.get(k)
            if u is None:
                u = TOKENS[k] = X.fresh()
        else:
            u = X.fresh()
        dd = frozenset(t_deps)
        base = True
        if hi - lo >= 256:
            r = self._collapse(m, lo, hi)
            if r is not None:
                dd = dd | r
                base = False
        if base:
            for s, (n, t) in list(m.cells.items()):
                if s < hi and s + n > lo:
                    m.cells[s] = (n, X.phi(u * 1000003 + s, X.deps(t) | t_deps, t.w))
        rest = []
        for x in m.smears:
            if x[0] == lo and x[1] == hi:
                dd = dd | x[3]
                base = base and x[4]
            elif not base and lo <= x[0] and x[1] <= hi:
                dd = dd | x[3]
            else:
                rest.append(x)
        m.smears = tuple(rest) + ((lo, hi, u, dd, base),)

    def _collapse(self, m, lo, hi):
        """if [lo,hi) is fully covered by cells (or by a base-less smear), drop the cells and return their
        dependences, else None"""
        pos = lo
        d = set()
        dele = []
        while pos < hi:
            c = m.cells.get(pos)
            if c is None or pos + c[0] > hi:
                break
            dele.append(pos)
            dd = X.deps(c[1])
            if not dd <= d:
                d |= dd
            pos += c[0]
        if pos < hi:
            cov = [x for x in m.smears if x[0] <= lo and x[1] >= hi and not x[4]]
            if not cov:
                return None
            for s, (n, t) in list(m.cells.items()):
                if s < hi and s + n > lo:
                    if s < lo or s + n > hi:
                        return None
                    if s not in dele:
                        dele.append(s)
                        d |= X.deps(t)
            for x in cov:
                d |= x[3]
        for k in dele:
            del m.cells[k]
        return frozenset(d)

    def load_unknown(self, st, oid, offt, lo, hi, size):
        """load of `size` bytes at unknown offset in [lo,hi)"""
        o = self.objs[oid]
        m = st.mem.get(oid)
        d = set(X.deps(offt))
        ver = m.ver if m is not None else 0
        vlo = vhi = None
        unk = False
        cover = 0
        cells = m.cells if m is not None else {}
        if m is not None and cells:
            if len(cells) <= hi - lo + 16:
                it = cells.items()
            else:
                it = [(k, cells[k]) for k in range(lo - m.maxsz, hi) if k in cells]
            for k, (n, t) in it:
                if k >= hi or k + n <= lo:
                    continue
                cover += min(k + n, hi) - max(k, lo)
                dd = X.deps(t)
                if not dd <= d:
                    d |= dd
                if isinstance(t.w, int) and t.w == 8 * size:
                    vlo = t.lo if vlo is None else min(vlo, t.lo)
                    vhi = t.hi if vhi is None else max(vhi, t.hi)
                else:
                    unk = True
        nobase = m is not None and any(x[0] <= lo and x[1] >= hi and not x[4] for x in m.smears)
        if m is not None:
            for x in m.smears:
                if x[0] < hi and x[1] > lo:
                    d |= x[3]
                    unk = True
        if cover < hi - lo and not nobase:
            if o.dflt == "zero":
                vlo = 0 if vlo is None else min(vlo, 0)
                vhi = 0 if vhi is None else max(vhi, 0)
            elif callable(o.dflt) or o.dflt == "bytes":
                if hi - lo > 1 << 16:
                    unk = True
                else:
                    for k in range(lo, hi - size + 1, size):
                        t = self.default(st, o, k, size)
                        d |= X.deps(t)
                        if isinstance(t.w, int):
                            vlo = t.lo if vlo is None else min(vlo, t.lo)
                            vhi = t.hi if vhi is None else max(vhi, t.hi)
                        else:
                            unk = True
            else:
                unk = True
                if o.layout:
                    for off, n, path in o.layout.leaves:
                        if off < hi and off + n > lo:
                            c = cells.get(off)
                            if c is None or c[0] < n:
                                d.add((o.dflt, o.name, path.split("[")[0]))
                else:
                    d.add((o.dflt, o.name, ""))
        if unk or vlo is None or vlo < 0 or vhi is None:
            vlo, vhi = 0, X.mask(8 * size)
        return X.phi(("ld", oid, self.content(m, lo, hi), offt.tid, size), frozenset(d), 8 * size, vlo, vhi)


# ------------------------------------------------------------------ joins
def alts_of(t):
    if t.op == "phi" and t.args[4] is not None:
        return t.args[4]
    if t.op in ("ptr", "ref", "k", "g", "fn", "in", "bm") or (t.op == "c" and t.w != X.PYW) or t.op == "c":
        return frozenset((t,))
    return None


CONTENT = {}
TOKENS = {}


def join_terms(a, b, cd, uid, widen=False, ra=None, rb=None):
    """uid: identity of the joined value (hashable)"""
    if a is b:
        return a
    if a is None or b is None:
        t = a or b
        return X.phi(uid, X.deps(t) | cd | frozenset([("undef", "maybe-unassigned")]), t.w)
    d = X.deps(a) | X.deps(b) | cd
    aa, bb = alts_of(a), alts_of(b)
    alts = None
    if aa is not None and bb is not None and len(aa | bb) <= MAXALTS:
        alts = aa | bb
    if a.w != b.w:
        if alts is None:
            alts = None
        return X.phi(uid, d, "o", None, None, alts)
    if isinstance(a.w, int):
        la, ha = ra or (a.lo, a.hi)
        lb, hb = rb or (b.lo, b.hi)
        lo, hi = min(la, lb), max(ha, hb)
        if widen:
            lo, hi = widen_rng(a.w, (la, ha), (lb, hb), widen)
            if alts is not None and any(x.op == "c" for x in alts):
                alts = None
        if alts is None and 8 <= a.w <= 64 and lo >= 0:
            k = min(X.tz(a), X.tz(b))
            if 1 < k < a.w:
                # common low-order zero bits are kept
                hi = min(hi, X.mask(a.w))
                lo = -(-lo >> k)
                t = X.phi(uid, d, a.w - k, lo, max(lo, hi >> k), None)
                return X.cat([(None, 0, k)] + [(t, 0, a.w - k)])
        return X.phi(uid, d, a.w, lo, hi, alts)
    return X.phi(uid, d, a.w, None, None, alts)


def widen_rng(w, old, new, th=True):
    lo, hi = old
    f = X.full(w)
    if new[0] < lo:
        lo = 0 if new[0] >= 0 else f[0]
        if th is not True:
            c = [x for x in th if x <= new[0]]
            lo = max(lo, max(c)) if c else lo
    if new[1] > hi:
        hi = f[1]
        if th is not True:
            c = [x for x in th if x >= new[1]]
            hi = min(hi, min(c)) if c else hi
    return lo, hi


def join_states(world, s1, s2, uid=None, widen=False):
    """join s2 into s1 -> new state.  uid fixed (hashable) in fixpoint mode."""
    if s1 is None:
        return s2
    if s2 is None:
        return s1
    fix = uid is not None
    dec = None
    if uid is None:
        uid = ("j", X.fresh())
        # the condition that decides between the two sides: the joined values are then the same function of it wherever they are joined
        d1 = [(c, v) for c, v in s1.truth.items() if s2.truth.get(c) is not v]
        d2 = [(c, v) for c, v in s2.truth.items() if s1.truth.get(c) is not v]
        for flip, dd, so in ((False, d1, s2), (True, d2, s1)):
            for c, v1 in dd:
                if dec is not None and dec[0].tid <= c.tid:
                    continue
                v2 = so.truth.get(c)
                if v2 is None and dec is None:
                    v2 = so.eval_cmp(c)
                if v2 is not None and bool(v1) != bool(v2):
                    dec = (c, bool(v1) != flip)
    n = 0
    while n < len(s1.ctl) and n < len(s2.ctl) and s1.ctl[n] == s2.ctl[n]:
        n += 1
    cd = set()
    for e in s1.ctl[n:]:
        cd |= e[1]
    for e in s2.ctl[n:]:
        cd |= e[1]
    cd = frozenset(cd)
    s = State()
    s.ctl = s1.ctl[:n]

    def jt(a, b, loc):
        if a is b:
            return a
        ra = s1.rng(a) if a is not None and isinstance(a.w, int) else None
        rb = s2.rng(b) if b is not None and isinstance(b.w, int) else None
        if a is not None and b is not None and a.w == 1 and b.w == 1 and not fix and (a.op == "c" or b.op == "c"):
            # short-circuit conditions: the joined truth value as a formula over the deciding comparison
            for c, v1 in s1.truth.items():
                v2 = s2.truth.get(c)
                if v2 is None or v1 is v2:
                    continue
                c1 = c if v1 else X.not1(c)
                c2 = X.not1(c1)
                if a.op == "c" and b.op == "c":
                    return c1 if a.args[0] else c2
                k, o, oc, kc = (a, b, c2, c1) if a.op == "c" else (b, a, c1, c2)
                return X.or_(kc, o) if k.args[0] else X.and_(oc, o)
        if dec is not None and a is not None and b is not None:
            x, y = (a, b) if dec[1] else (b, a)
            r = join_terms(a, b, cd, ("ite", dec[0].tid, x.tid, y.tid), widen, ra, rb)
            if r.op == "phi":
                X.ITE[r] = (dec[0], x, y)
            return r
        return join_terms(a, b, cd, (uid, loc), widen, ra, rb)
    # env
    if s1.env is s2.env:
        s.env = dict(s1.env)
    else:
        e1, e2 = s1.env, s2.env
        for k, a in e1.items():
            b = e2.get(k)
            s.env[k] = a if a is b else jt(a, b, k)
        for k, b in e2.items():
            if k not in e1:
                s.env[k] = jt(None, b, k)
    # memory
    arrs = {}
    for oid in set(s1.mem) | set(s2.mem):
        m1, m2 = s1.mem.get(oid), s2.mem.get(oid)
        if m1 is m2:
            s.mem[oid] = m1
            continue
        if (m1 is None) != (m2 is None) and oid in world.objs and world.objs[oid].kind == "buf":
            # an array that one side has not created: its contents cannot be asked for there
            so = s1 if m1 is None else s2
            if id(so) not in arrs:
                arrs[id(so)] = set(getattr(h, "oid", None) for h in so.heap.values())
            if oid not in arrs[id(so)]:
                s.mem[oid] = m2 if m1 is None else m1
                continue
        if fix and m1 is not None and m2 is not None and m1.smears != m2.smears:
            # loop heads: bring both sides to the collapsed form of the other
            for ma, mb, k in ((m1, m2, 2), (m2, m1, 1)):
                for x in ma.smears:
                    if not x[4] and not any(y[0] == x[0] and y[1] == x[1] for y in mb.smears):
                        c = mb.copy(None)
                        r = world._collapse(c, x[0], x[1])
                        if r is not None:
                            c.smears = c.smears + ((x[0], x[1], ("col", uid, oid), r, False),)
                            if k == 2:
                                m2 = mb = c
                            else:
                                m1 = mb = c
        m = Mem()
        m.own = s.tok
        m.ver = max(m1.ver if m1 else 0, m2.ver if m2 else 0) + 1
        m.maxsz = max(m1.maxsz if m1 else 1, m2.maxsz if m2 else 1)
        sm1 = m1.smears if m1 else ()
        sm2 = m2.smears if m2 else ()
        if sm1 == sm2:
            m.smears = sm1
        else:
            by = {}
            for x in sm1 + sm2:
                k = (x[0], x[1])
                by.setdefault(k, []).append(x)
            r = []
            for k in sorted(by):
                xs = by[k]
                d3 = frozenset().union(*[x[3] for x in xs]) | cd
                base = len(xs) < 2 or any(x[4] for x in xs)
                r.append((k[0], k[1], xs[0][2] if len(xs) == 2 and xs[0] == xs[1] else ("jsm", uid, oid), d3, base))
            m.smears = tuple(r)
        c1 = m1.cells if m1 else {}
        c2 = m2.cells if m2 else {}
        done = set()
        for off, (n1, t1) in c1.items():
            x = c2.get(off)
            if x is not None and x[0] == n1:
                m.cells[off] = (n1, jt(t1, x[1], (oid, off)))
            else:
                t2 = world.load(s2, oid, off, n1) if m2 is not None or True else None
                m.cells[off] = (n1, jt(t1, t2, (oid, off)))
            done.add(off)
        for off, (n2, t2) in c2.items():
            if off in done:
                continue
            # skip if covered by cells of c1
            if any((o2 in c1 and o2 + c1[o2][0] > off) for o2 in range(off - m.maxsz + 1, off + n2)):
                # partially overlapping granularity: use bytes of m (already joined) where covered
                pos = off
                while pos < off + n2:
                    cov = None
                    for o2 in range(pos - m.maxsz + 1, pos + 1):
                        if o2 in c1 and o2 + c1[o2][0] > pos:
                            cov = o2
                            break
                    if cov is not None:
                        pos = cov + c1[cov][0]
                        continue
                    ta = world.load(s1, oid, pos, 1)
                    tb = world.load(s2, oid, pos, 1)
                    m.cells[pos] = (1, jt(ta, tb, (oid, pos)))
                    pos += 1
                continue
            t1 = world.load(s1, oid, off, n2)
            m.cells[off] = (n2, jt(t1, t2, (oid, off)))
        s.mem[oid] = m
    # python heap
    for oid in set(s1.heap) | set(s2.heap):
        h1, h2 = s1.heap.get(oid), s2.heap.get(oid)
        if h1 is h2 or h2 is None:
            s.heap[oid] = h1
        elif h1 is None:
            s.heap[oid] = h2
        else:
            s.heap[oid] = h1.join(h2, lambda a, b, loc: jt(a, b, (oid, loc)), cd)
    # facts
    for t, r in s1.refine.items():
        r2 = s2.rng(t)
        r = (min(r[0], r2[0]), max(r[1], r2[1]))
        if r != (t.lo, t.hi):
            s.refine[t] = r
    for t, v in s1.truth.items():
        if s2.truth.get(t) == v:
            s.truth[t] = v
    if not fix and d1 and d2 and len(d1) < 7 and len(d2) < 7 and not (len(d1) == len(d2) == 1 and dec is not None):
        # what the two sides have in common: one or the other set of facts
        f = X.or_(conj(d1), conj(d2))
        if not X.is_c(f) and size(f) < 40:
            s.truth[f] = True
    return s


def conj(ls):
    r = None
    for c, v in sorted(ls, key=lambda x: x[0].tid):
        x = c if v else X.not1(c)
        r = x if r is None else X.and_(r, x)
    return r


def size(f):
    return 1 + (size(f.args[1]) + size(f.args[2]) if f.op in ("and", "or") else 0)


def same_state(s1, s2):
    """equality used for loop stabilisation: cells, env, heap (refinements ignored)"""
    if s1.env != s2.env:
        return False
    for oid in set(s1.mem) | set(s2.mem):
        m1, m2 = s1.mem.get(oid), s2.mem.get(oid)
        if m1 is m2:
            continue
        if m1 is None or m2 is None or m1.cells != m2.cells:
            return False
        if set((x[0], x[1], x[3], x[4]) for x in m1.smears) != set((x[0], x[1], x[3], x[4]) for x in m2.smears):
            return False
    for oid in set(s1.heap) | set(s2.heap):
        if s1.heap.get(oid) is not s2.heap.get(oid) and s1.heap.get(oid) != s2.heap.get(oid):
            return False
    return True
