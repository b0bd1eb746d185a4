"""Random interpretation of value terms (Gulwani/Necula): two exact terms that evaluate differently under some valuation of
their leaves denote different functions of the inputs."""
import hashlib, struct
from . import term as X

FLOAT = {"uitofp", "sitofp", "fadd", "fsub", "fmul", "fdiv", "llvm.fmuladd", "llvm.fmuladd.f64", "bits", "fbits"}
EXACT = {"c", "cat", "sgn", "and", "or", "xor", "add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "cmp"}
LEAVES = {"init", "in", "undef", "seedword", "call", "k", "g", "ref", "fn", "ptr", "fc"}


def h(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=64).digest(), "little")


def sg(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class Ev(object):
    def __init__(self, seed):
        self.seed = seed
        self.memo = {}
        self.inex = set()      # terms whose value is not exactly that of the operation

    def __call__(self, t):
        stack = [t]
        memo = self.memo
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop()
                continue
            todo = [] if x.op in LEAVES else [s for s in X.ITE.get(x, ()) if s not in memo] if x.op == "phi" else [s for s in X.subterms(x) if s not in memo]
            if todo:
                stack.extend(todo)
                continue
            self.exact = True
            memo[x] = self.step(x)
            stack.pop()
            if self.exact and x.op not in LEAVES:
                if x.op == "phi":
                    c, a, b = X.ITE[x]
                    self.exact = c not in self.inex and (a if memo[c] else b) not in self.inex
                elif self.inex:
                    self.exact = not any(s in self.inex for s in X.subterms(x))
            if not self.exact:
                self.inex.add(x)
        return memo[t]

    def leaf(self, x):
        v = h(self.seed, x.op, x.tid)
        if isinstance(x.w, int):
            lo, hi = x.lo, x.hi
            m = h(self.seed, "m", x.tid) % 8
            if m == 0:
                r = lo
            elif m == 1:
                r = hi
            else:
                r = lo + v % (hi - lo + 1)
            return r & X.mask(x.w)
        if x.w == "f64" and x.op != "fc":
            # a number of the range if it is known, otherwise of the unit interval
            lo, hi = (x.lo, x.hi) if x.lo is not None and x.hi is not None else (0.0, 1.0)
            return lo + (hi - lo) * ((v & X.mask(53)) / float(1 << 53))
        return v

    def flt(self, x):
        """exact double arithmetic; None where it is not modelled"""
        op, m = x.op, self.memo
        a = [m[y] for y in x.args[1:] if isinstance(y, X.T)]
        if op in ("uitofp", "sitofp") and x.w == "f64":
            y = x.args[1]
            try:
                return float(sg(a[0], y.w) if op == "sitofp" else a[0])
            except OverflowError:
                return None
        if op == "bits":
            if x.args[1].w != "f64" or not isinstance(a[0], float):
                return None
            return struct.unpack("<Q", struct.pack("<d", a[0]))[0]
        if x.w != "f64":
            return None
        if op == "fbits":
            return struct.unpack("<d", struct.pack("<Q", a[0] & X.mask(64)))[0]
        if not all(isinstance(v, float) for v in a):
            return None
        try:
            if op == "fadd":
                return a[0] + a[1]
            if op == "fsub":
                return a[0] - a[1]
            if op == "fmul":
                return a[0] * a[1]
            if op == "fdiv":
                return a[0] / a[1] if a[1] else None
            return a[0] * a[1] + a[2]
        except OverflowError:
            return None

    def step(self, x):
        op, w, m = x.op, x.w, self.memo
        if op == "fc" and w == "f64":
            return float(x.args[0])
        if op in FLOAT:
            v = self.flt(x)
            if v is not None:
                return v
        if op == "c":
            return x.args[0]
        if op in LEAVES:
            return self.leaf(x)
        if op == "phi" and x in X.ITE:
            c, a, b = X.ITE[x]
            return m[a] if m[c] else m[b]
        if op == "phi" or op not in EXACT:
            self.exact = False
            if op == "phi":
                return self.leaf(x)
            v = h(self.seed, op, w, tuple(m[a] if isinstance(a, X.T) else a for a in x.args[1:] if not isinstance(a, tuple)))
            return v & X.mask(w) if isinstance(w, int) else v
        if op == "cat":
            r = sh = 0
            for b, lo, n in x.args:
                if b is None:
                    v = lo
                elif b.op == "sgn":
                    v = X.mask(n) if m[b] else 0
                elif not isinstance(b.w, int):
                    v = m[b] >> lo
                else:
                    v = m[b] >> lo
                r |= (v & X.mask(n)) << sh
                sh += n
            return r
        if op == "sgn":
            return m[x.args[1]] >> (x.args[1].w - 1) & 1
        if op == "cmp":
            p, a, b = x.args
            va, vb = m[a], m[b]
            if not isinstance(a.w, int) or not isinstance(b.w, int):
                self.exact = False
                return h(self.seed, p, va, vb) & 1
            if (p[0] == "s" or a.w == X.PYW):
                va, vb = sg(va, a.w), sg(vb, b.w)
            p = p[-2:]
            return int({"eq": va == vb, "ne": va != vb, "lt": va < vb, "le": va <= vb, "gt": va > vb, "ge": va >= vb}[p])
        a, b = x.args[1], x.args[2]
        va, vb = m[a], m[b]
        if op in ("udiv", "urem") and w == X.PYW:
            va, vb = sg(va, w), sg(vb, w)
            if vb == 0:
                return 0
            return (va // vb if op == "udiv" else va % vb) & X.mask(w)
        if op in ("and",):
            return va & vb
        if op == "or":
            return va | vb
        if op == "xor":
            return va ^ vb
        if op == "add":
            return (va + vb) & X.mask(w)
        if op == "sub":
            return (va - vb) & X.mask(w)
        if op == "mul":
            return va * vb & X.mask(w)
        if op == "udiv":
            return va // vb if vb else 0
        if op == "urem":
            return va % vb if vb else 0
        if op in ("sdiv", "srem"):
            va, vb = sg(va, w), sg(vb, w)
            if vb == 0:
                return 0
            q = abs(va) // abs(vb) * (1 if (va < 0) == (vb < 0) else -1)
            return (q if op == "sdiv" else va - q * vb) & X.mask(w)
        vb = min(vb, w)
        if op == "shl":
            return va << vb & X.mask(w)
        if op == "lshr":
            return va >> vb
        return sg(va, w) >> vb & X.mask(w)


def equal(ta, tb, n=24):
    """True: equal under every valuation tried; False: they differ and both are exact; None: they differ only as far as known"""
    if ta is tb:
        return True
    if isinstance(ta.w, int) != isinstance(tb.w, int):
        return None
    for i in range(n):
        e = EVS.get(i)
        if e is None or len(e.memo) > 400000:
            e = EVS[i] = Ev(i)
        a, b = e(ta), e(tb)
        if isinstance(ta.w, int) and ta.w != tb.w:
            w = min(ta.w, tb.w)
            a, b = a & X.mask(w), b & X.mask(w)
        if a != b:
            return None if ta in e.inex or tb in e.inex else False
    return True


EVS = {}
