"""Hash-consed value terms used by the abstract interpreters.

A term denotes one run-time value.  Integers of width w are kept in a bit-slice
normal form ('cat'), so that the many ways of splitting and re-assembling a word
(shift/mask/or, two 64-bit halves, byte copies) compare equal when they carry
the same bits.  Every term knows a range (unsigned for C widths, signed for
Python ints) and, lazily, the set of dependence keys (leaves) it is built from.
"""
import itertools

PYW = 4096                      # Python ints are modelled as very wide two's complement
_uid = itertools.count(1)


def fresh():
    return next(_uid)


class T(object):
    __slots__ = ("op", "args", "w", "lo", "hi", "tid", "_deps", "key")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.tid < o.tid


_table = {}
_tid = itertools.count(1)


def _mk(op, args, w, lo=None, hi=None, key=None):
    k = (op, args, w)
    t = _table.get(k)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.w = op, args, w
    t.tid = next(_tid)
    t._deps = None
    t.key = key
    if isinstance(w, int):
        if lo is None or hi is None:
            f = full(w)
            lo = f[0] if lo is None else lo
            hi = f[1] if hi is None else hi
        t.lo, t.hi = lo, hi
    else:
        t.lo, t.hi = lo, hi
    _table[k] = t
    return t


def full(w):
    if w == PYW:
        return (-(1 << (PYW - 1)), (1 << (PYW - 1)) - 1)
    return (0, (1 << w) - 1)


def mask(w):
    return (1 << w) - 1


# ------------------------------------------------------------------ leaves
def const(v, w):
    v &= mask(w)
    s = v
    if w == PYW and v >> (PYW - 1):
        s = v - (1 << PYW)
    return _mk("c", (v,), w, s, s)


def pyint(v):
    return const(v, PYW)


def is_c(t):
    return t.op == "c"


def cval(t):
    """value of a constant int (signed for Python ints)"""
    return t.lo


def sval(t):
    v = t.args[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v


def leaf(kind, ident, w, key, lo=None, hi=None):
    """kind: 'init' 'in' 'undef' 'call' ...; key: dependence key"""
    return _mk(kind, ident, w, lo, hi, key)


def konst(v):
    """Python constant object (str/bytes/None/bool/Ellipsis/float)"""
    return _mk("k", (type(v).__name__, v), "o")


NONE = konst(None)
TRUE = konst(True)
FALSE = konst(False)


def glob(name):
    return _mk("g", (name,), "o")


def ref(oid):
    return _mk("ref", (oid,), "o")


def fnptr(name):
    return _mk("fn", (name,), 64)


def ptr(obj, off):
    """pointer into memory object obj, off a 64-bit term"""
    return _mk("ptr", (obj, off), 64)


NULL = None  # set below


ITE = {}    # phi -> (condition, value if it holds, value otherwise), where one condition decides


def phi(uid, deps, w, lo=None, hi=None, alts=None):
    if isinstance(w, int) and (lo is None or hi is None):
        lo, hi = full(w)
    t = _mk("phi", (uid, deps, lo, hi, alts), w, lo, hi)
    return t


def opq(op, args, w, lo=None, hi=None, uid=None):
    """opaque operation over argument terms"""
    return _mk(op, (uid,) + tuple(args), w, lo, hi)


def itof(op, a, w):
    """integer to floating point; op is sitofp or uitofp"""
    lo, hi = a.lo, a.hi
    if a.w != PYW:
        H = 1 << (a.w - 1)
        if op == "sitofp":
            lo, hi = (lo, hi) if hi < H else ((lo - 2 * H, hi - 2 * H) if lo >= H else (-H, H - 1))
    try:
        lo, hi = float(lo), float(hi)
    except OverflowError:
        return opq(op, (a,), w)
    if w == "f32":
        import struct
        try:
            lo, hi = [struct.unpack("<f", struct.pack("<f", v))[0] for v in (lo, hi)]
        except OverflowError:
            return opq(op, (a,), w)
    if a.op == "c":
        return fconst(lo, w)
    return opq(op, (a,), w, lo, hi)


def fconst(v, w="f64"):
    return _mk("fc", (v,), w, v, v)


# ------------------------------------------------------------------ deps
def deps(t):
    d = t._deps
    if d is not None:
        return d
    stack = [t]
    while stack:
        x = stack[-1]
        if x._deps is not None:
            stack.pop()
            continue
        if x.key is not None:
            x._deps = frozenset((x.key,))
            stack.pop()
            continue
        if x.op == "phi":
            x._deps = x.args[1]
            stack.pop()
            continue
        subs = subterms(x)
        todo = [s for s in subs if s._deps is None]
        if todo:
            stack.extend(todo)
            continue
        if not subs:
            x._deps = EMPTY
        elif len(subs) == 1:
            x._deps = subs[0]._deps
        else:
            r = subs[0]._deps
            for s in subs[1:]:
                if not (s._deps <= r):
                    r = r | s._deps
            x._deps = r
        stack.pop()
    return t._deps


EMPTY = frozenset()


def subterms(x):
    op = x.op
    if op in ("c", "k", "g", "ref", "fn", "fc"):
        return ()
    if op == "cat":
        return tuple(p[0] for p in x.args if p[0] is not None)
    out = []
    for a in x.args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            out.extend(b for b in a if isinstance(b, T))
    return tuple(out)


# ------------------------------------------------------------------ slices
# part: (base T or None, lo, n): bits [lo,lo+n) of base, or for base None the constant lo
def parts(t):
    if t.op == "cat":
        return t.args
    if t.op == "c":
        return ((None, t.args[0], t.w),)
    return ((t, 0, t.w),)


def _merge(ps):
    out = []
    for p in ps:
        if p[2] == 0:
            continue
        if out:
            q = out[-1]
            if p[0] is None and q[0] is None:
                out[-1] = (None, q[1] | (p[1] << q[2]), q[2] + p[2])
                continue
            if p[0] is not None and p[0] is q[0]:
                if p[0].op == "sgn":
                    out[-1] = (p[0], 0, q[2] + p[2])
                    continue
                if q[1] + q[2] == p[1]:
                    out[-1] = (p[0], q[1], q[2] + p[2])
                    continue
        if p[0] is not None and p[0].op == "sgn":
            p = (p[0], 0, p[2])
        out.append(p)
    return out


def cat(ps):
    ps = _merge(ps)
    w = sum(p[2] for p in ps)
    if len(ps) == 1:
        b, lo, n = ps[0]
        if b is None:
            return const(lo, w)
        if lo == 0 and b.w == n:
            return b
    # range
    if w == PYW:
        b, l, n = ps[-1]
        if b is None and (l >> (n - 1)) == 0:
            lo, hi = _crange(ps)
        elif b is not None and b.op == "sgn" and len(ps) == 2 and ps[0][0] is b.args[1] \
                and ps[0][1] == 0 and ps[0][2] == b.args[1].w:
            lo, hi = srange(b.args[1])
        else:
            lo, hi = full(w)
    else:
        lo, hi = _crange(ps)
    return _mk("cat", tuple(ps), w, lo, hi)


def _crange(ps):
    lo = hi = 0
    sh = 0
    for b, l, n in ps:
        if b is None:
            lo |= l << sh
            hi |= l << sh
        elif b.op == "sgn" or b.w == PYW or not isinstance(b.w, int):
            hi |= mask(n) << sh
        elif l == 0 and b.hi <= mask(n):
            lo += b.lo << sh
            hi += b.hi << sh
        elif l + n == b.w:
            lo += (b.lo >> l) << sh
            hi += (b.hi >> l) << sh
        elif (b.hi >> l) <= mask(n):
            lo += (b.lo >> l) << sh
            hi += (b.hi >> l) << sh
        else:
            hi |= mask(n) << sh
        sh += n
    return lo, hi


def srange(t):
    """signed range"""
    if t.w == PYW:
        return t.lo, t.hi
    h = 1 << (t.w - 1)
    if t.hi < h:
        return t.lo, t.hi
    if t.lo >= h:
        return t.lo - (1 << t.w), t.hi - (1 << t.w)
    return -h, h - 1


def slice_(t, lo, n):
    if lo == 0 and n == t.w:
        return t
    out = []
    pos = 0
    for b, l, k in parts(t):
        a = max(lo, pos)
        e = min(lo + n, pos + k)
        if a < e:
            if b is None:
                out.append((None, (l >> (a - pos)) & mask(e - a), e - a))
            elif b.op == "sgn":
                out.append((b, 0, e - a))
            else:
                out.append((b, l + a - pos, e - a))
        pos += k
        if pos >= lo + n:
            break
    return cat(out)


def zext(t, w):
    if w == t.w:
        return t
    if w < t.w:
        return slice_(t, 0, w)
    return cat(list(parts(t)) + [(None, 0, w - t.w)])


def sext(t, w):
    if w == t.w:
        return t
    if w < t.w:
        return slice_(t, 0, w)
    if t.op == "c":
        return const(sval(t), w)
    ps = list(parts(t))
    b, l, n = ps[-1]
    if b is None:
        v = mask(w - t.w) if (l >> (n - 1)) else 0
        return cat(ps + [(None, v, w - t.w)])
    if t.hi < (1 << (t.w - 1)):
        return cat(ps + [(None, 0, w - t.w)])
    if b.op == "sgn":
        return cat(ps + [(b, 0, w - t.w)])
    s = _mk("sgn", (None, t), 1, 0, 1)
    return cat(ps + [(s, 0, w - t.w)])


def trunc(t, w):
    return slice_(t, 0, w)


def shl(t, n):
    if n == 0:
        return t
    if n >= t.w:
        return const(0, t.w)
    return cat([(None, 0, n)] + list(parts(slice_(t, 0, t.w - n))))


def lshr(t, n):
    if n == 0:
        return t
    if n >= t.w:
        return const(0, t.w)
    return cat(list(parts(slice_(t, n, t.w - n))) + [(None, 0, n)])


def ashr(t, n):
    if n == 0:
        return t
    n = min(n, t.w - 1)
    return sext(slice_(t, n, t.w - n), t.w)


def _align(a, b):
    """split two part lists at common boundaries"""
    pa, pb = list(parts(a)), list(parts(b))
    ia = ib = 0
    oa = ob = 0
    res = []
    while ia < len(pa) and ib < len(pb):
        ba, la, na = pa[ia]
        bb, lb, nb = pb[ib]
        n = min(na - oa, nb - ob)
        x = (None, (la >> oa) & mask(n), n) if ba is None else (ba, 0 if ba.op == "sgn" else la + oa, n)
        y = (None, (lb >> ob) & mask(n), n) if bb is None else (bb, 0 if bb.op == "sgn" else lb + ob, n)
        res.append((x, y))
        oa += n
        ob += n
        if oa == na:
            ia += 1
            oa = 0
        if ob == nb:
            ib += 1
            ob = 0
    return res


def _bits_runs(v, w):
    """runs of equal bits, LSB first: (bit, n)"""
    out = []
    i = 0
    while i < w:
        b = (v >> i) & 1
        j = i
        if v >> i == (mask(w - i) if b else 0):
            j = w
        else:
            while j < w and ((v >> j) & 1) == b:
                j += 1
        out.append((b, j - i))
        i = j
    return out


def _popruns(v, w):
    n = 0
    prev = None
    for i in range(min(w, v.bit_length() + 1)):
        b = (v >> i) & 1
        if b != prev:
            n += 1
            prev = b
    return n


def tz(t, d=8):
    """number of low-order bits known to be zero"""
    if not isinstance(t.w, int):
        return 0
    op = t.op
    if op == "c":
        v = t.args[0]
        return t.w if v == 0 else (v & -v).bit_length() - 1
    if d == 0:
        return 0
    if op == "cat":
        n = 0
        for b, l, k in t.args:
            if b is None:
                z = k if l == 0 else min(k, (l & -l).bit_length() - 1)
            elif b.op == "sgn" or not isinstance(b.w, int):
                z = 0
            else:
                z = max(0, min(tz(b, d - 1) - l, k))
            n += z
            if z < k:
                break
        return n
    if op in ("add", "sub", "or", "xor"):
        return min(tz(t.args[1], d - 1), tz(t.args[2], d - 1))
    if op == "and":
        return max(tz(t.args[1], d - 1), tz(t.args[2], d - 1))
    if op == "mul":
        return min(t.w, tz(t.args[1], d - 1) + tz(t.args[2], d - 1))
    if op == "phi" and t.args[4] and all(x.op == "c" for x in t.args[4]):
        return min(tz(x) for x in t.args[4])
    return 0


def and_(a, b):
    if a is b:
        return a
    w = a.w
    if is_c(a) and is_c(b):
        return const(a.args[0] & b.args[0], w)
    if is_c(a):
        a, b = b, a
    if is_c(b):
        v = b.args[0]
        if v == 0:
            return b
        if v == mask(w):
            return a
        if _popruns(v, w) <= 8:
            out = []
            pos = 0
            for bit, n in _bits_runs(v, w):
                if bit:
                    out.extend(parts(slice_(a, pos, n)))
                else:
                    out.append((None, 0, n))
                pos += n
            return cat(out)
    lo, hi = (0, min(a.hi, b.hi)) if a.lo >= 0 and b.lo >= 0 else full(w)
    if is_c(b) and w == PYW and b.lo >= 0:
        lo, hi = 0, b.hi
    if b.tid < a.tid:
        a, b = b, a
    return _mk("and", (None, a, b), w, lo, hi)


def _orlike(op, a, b):
    w = a.w
    if is_c(a) and is_c(b):
        v = (a.args[0] | b.args[0]) if op == "or" else (a.args[0] ^ b.args[0])
        return const(v, w)
    if a is b:
        return a if op == "or" else const(0, w)
    al = _align(a, b)
    if len(al) <= 24:
        out = []
        for x, y in al:
            if x[0] is None and x[1] == 0:
                out.append(y)
            elif y[0] is None and y[1] == 0:
                out.append(x)
            elif op == "or" and x[0] is None and x[1] == mask(x[2]):
                out.append(x)
            elif op == "or" and y[0] is None and y[1] == mask(y[2]):
                out.append(y)
            elif x[0] is None and y[0] is None:
                out.append((None, x[1] | y[1] if op == "or" else x[1] ^ y[1], x[2]))
            elif x == y:
                out.append(x if op == "or" else (None, 0, x[2]))
            else:
                out = None
                break
        if out is not None:
            return cat(out)
    if b.tid < a.tid:
        a, b = b, a
    lo, hi = full(w)
    if a.lo >= 0 and b.lo >= 0:
        n = max(a.hi.bit_length(), b.hi.bit_length())
        lo, hi = (max(a.lo, b.lo) if op == "or" else 0), mask(n)
    return _mk(op, (None, a, b), w, lo, hi)


def or_(a, b):
    return _orlike("or", a, b)


def xor(a, b):
    return _orlike("xor", a, b)


def _disjoint(a, b):
    al = _align(a, b)
    if len(al) > 24:
        return None
    for x, y in al:
        if not ((x[0] is None and x[1] == 0) or (y[0] is None and y[1] == 0)):
            return None
    return True


def fitsrange(w, lo, hi):
    a, b = full(w)
    return a <= lo and hi <= b


def add(a, b):
    w = a.w
    if is_c(a) and is_c(b):
        return const(a.args[0] + b.args[0], w)
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b.args[0] == 0:
            return a
        if a.op == "add" and is_c(a.args[2]):
            return add(a.args[1], const(a.args[2].args[0] + b.args[0], w))
    if _disjoint(a, b):
        return or_(a, b)
    lo, hi = a.lo + b.lo, a.hi + b.hi
    if w != PYW and is_c(b) and not fitsrange(w, lo, hi):
        # adding a negative constant
        s = sval(b)
        if s < 0 and a.lo + s >= 0:
            lo, hi = a.lo + s, a.hi + s
    if not fitsrange(w, lo, hi):
        lo, hi = full(w)
    if not is_c(b) and b.tid < a.tid:
        a, b = b, a
    return _mk("add", (None, a, b), w, lo, hi)


def sub(a, b):
    w = a.w
    if a is b:
        return const(0, w)
    if is_c(b):
        return add(a, const(-b.args[0], w))
    if is_c(a) and a.args[0] == mask(w):
        return xor(a, b)
    if a.op == "add":
        if a.args[1] is b:
            return a.args[2]
        if a.args[2] is b:
            return a.args[1]
    lo, hi = a.lo - b.hi, a.hi - b.lo
    if not fitsrange(w, lo, hi):
        lo, hi = full(w)
    return _mk("sub", (None, a, b), w, lo, hi)


def mul(a, b):
    w = a.w
    if is_c(a) and is_c(b):
        return const(a.args[0] * b.args[0], w)
    if is_c(a):
        a, b = b, a
    if is_c(b):
        v = b.args[0]
        if v == 0:
            return b
        if v == 1:
            return a
        if v & (v - 1) == 0:
            return shl(a, v.bit_length() - 1)
    c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
    lo, hi = min(c), max(c)
    if not fitsrange(w, lo, hi):
        lo, hi = full(w)
    if not is_c(b) and b.tid < a.tid:
        a, b = b, a
    return _mk("mul", (None, a, b), w, lo, hi)


def udiv(a, b):
    w = a.w
    if is_c(b):
        v = b.lo
        if v == 0:
            return _mk("udiv", (None, a, b), w)
        if is_c(a):
            return const(a.lo // v, w)
        if v > 0 and v & (v - 1) == 0:
            n = v.bit_length() - 1
            return ashr(a, n) if w == PYW else lshr(a, n)
        if v > 0:
            return _mk("udiv", (None, a, b), w, a.lo // v, a.hi // v)
    lo, hi = full(w)
    if a.lo >= 0 and b.lo >= 0:
        lo, hi = 0, a.hi // max(b.lo, 1)
    return _mk("udiv", (None, a, b), w, lo, hi)


def urem(a, b):
    w = a.w
    if is_c(b):
        v = b.lo
        if v == 0:
            return _mk("urem", (None, a, b), w)
        if is_c(a):
            return const(a.lo % v, w)
        if v > 0 and v & (v - 1) == 0:
            n = v.bit_length() - 1
            return zext(slice_(a, 0, n), w) if n else const(0, w)
        if v > 0:
            if a.lo >= 0 and a.hi < v:
                return a
            return _mk("urem", (None, a, b), w, 0, v - 1)
    lo, hi = full(w)
    if a.lo >= 0 and b.lo >= 0:
        lo, hi = 0, max(min(a.hi, b.hi - 1), 0)
    return _mk("urem", (None, a, b), w, lo, hi)


def sdiv(a, b):
    al, ah = srange(a)
    bl, bh = srange(b)
    w = a.w
    if al >= 0 and bl > 0:
        return udiv(a, b)
    if is_c(a) and is_c(b) and sval(b) != 0:
        x, y = sval(a), sval(b)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, w)
    return _mk("sdiv", (None, a, b), w)


def srem(a, b):
    al, ah = srange(a)
    bl, bh = srange(b)
    w = a.w
    if al >= 0 and bl > 0:
        return urem(a, b)
    if is_c(a) and is_c(b) and sval(b) != 0:
        x, y = sval(a), sval(b)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, w)
    if is_c(b) and sval(b) > 0:
        pass
    return _mk("srem", (None, a, b), w)


def shift(op, a, b):
    w = a.w
    if is_c(b):
        n = b.lo
        return {"shl": shl, "lshr": lshr, "ashr": ashr}[op](a, n)
    lo, hi = full(w)
    if op == "lshr" and a.lo >= 0:
        lo, hi = 0, a.hi >> max(b.lo, 0) if b.lo < w else 0
    if op == "ashr" and w == PYW and a.lo >= 0:
        lo, hi = 0, a.hi
    if op == "shl" and w == PYW and b.lo >= 0 and b.hi <= 4000 and a.lo >= 0 and (a.hi << b.hi).bit_length() < PYW - 1:
        lo, hi = a.lo << b.lo, a.hi << b.hi
    if op == "shl" and w != PYW and b.hi < w and (a.hi << b.hi) <= mask(w):
        lo, hi = a.lo << b.lo, a.hi << b.hi
    return _mk(op, (None, a, b), w, lo, hi)


B1 = const(1, 1)
B0 = const(0, 1)
NULL = const(0, 64)


def not1(t):
    return xor(t, B1) if t.op != "cmp" else cmp_(NEG[t.args[0]], t.args[1], t.args[2])


NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule",
       "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule",
        "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}


def cmp_(pred, a, b):
    """comparison term, canonical: preds eq, ne, ult, ule, slt, sle"""
    if pred in ("ugt", "uge", "sgt", "sge"):
        pred, a, b = SWAP[pred], b, a
    if pred in ("eq", "ne"):
        if is_c(a) and not is_c(b):
            a, b = b, a
        elif not is_c(b) and b.tid < a.tid:
            a, b = b, a
        # strip common zero-extension against constants
        if is_c(b) and a.op == "cat" and isinstance(a.w, int):
            ps = a.args
            if ps[-1][0] is None and ps[-1][1] == 0:
                n = a.w - ps[-1][2]
                if b.args[0] >> n:
                    return B0 if pred == "eq" else B1
                return cmp_(pred, slice_(a, 0, n), const(b.args[0], n))
        # (cond ? 1:0) compared with 0/1
        if is_c(b) and a.w == 1:
            if (b.args[0] == 1) == (pred == "eq"):
                return a
            return not1(a)
    if isinstance(a.w, int) and a.w == b.w:
        r = cmprange(pred, (a.lo, a.hi), (b.lo, b.hi), a.w, a is b)
        if r is not None:
            return B1 if r else B0
    return _mk("cmp", (pred, a, b), 1)


def cmprange(pred, ra, rb, w, same=False):
    al, ah = ra
    bl, bh = rb
    if pred in ("slt", "sle") and w != PYW:
        def s(l, h):
            H = 1 << (w - 1)
            if h < H:
                return l, h
            if l >= H:
                return l - (1 << w), h - (1 << w)
            return -H, H - 1
        al, ah = s(al, ah)
        bl, bh = s(bl, bh)
    if pred == "eq":
        if same or (al == ah == bl == bh):
            return True
        if ah < bl or bh < al:
            return False
    elif pred == "ne":
        if same or (al == ah == bl == bh):
            return False
        if ah < bl or bh < al:
            return True
    elif pred in ("ult", "slt"):
        if same:
            return False
        if ah < bl:
            return True
        if al >= bh:
            return False
    elif pred in ("ule", "sle"):
        if same:
            return True
        if ah <= bl:
            return True
        if al > bh:
            return False
    return None


# ------------------------------------------------------------------ printing
def show(t, depth=3):
    if not isinstance(t, T):
        return repr(t)
    op = t.op
    if op == "c":
        return "%d:%s" % (t.lo, "py" if t.w == PYW else t.w)
    if op == "k":
        return repr(t.args[1])
    if op == "fc":
        return repr(t.args[0])
    if op == "g":
        return "<%s>" % t.args[0]
    if op == "ref":
        return "&obj%s" % (t.args[0],)
    if op == "fn":
        return "&%s()" % t.args[0]
    if op in ("init", "in", "undef", "call", "elem"):
        return "%s%r" % (op, t.args)
    if depth <= 0:
        return "..."
    if op == "ptr":
        return "&%s+%s" % (t.args[0], show(t.args[1], depth - 1))
    if op == "cat":
        r = []
        for b, l, n in reversed(t.args):
            if b is None:
                r.append("%x#%d" % (l, n) if n < 200 else ("0.." if l == 0 else "k.."))
            else:
                r.append("%s[%d+:%d]" % (show(b, depth - 1), l, n))
        return "{%s}" % ",".join(r)
    if op == "phi":
        return "phi(%s)[%s..%s]" % (",".join(map(str, sorted(map(str, t.args[1]))[:6])),
                                   t.lo if t.lo is None or abs(t.lo) < 1 << 70 else "-big",
                                   t.hi if t.hi is None or abs(t.hi) < 1 << 70 else "big")
    return "%s(%s)" % (op, ",".join(show(a, depth - 1) for a in t.args if a is not None))
