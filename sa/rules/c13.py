"""The four draw functions of a generator are views of one stream of words."""
from .base import *
from .. import evalt

PROP = "C13"
R1 = "a double is the fixed function of the words drawn from the same state"
R2 = "a 32-bit draw hands out each half of a word exactly once, low half first"
R3 = "a raw draw is the native word"


def eqv(a, b):
    return True if a is b else evalt.equal(a, b)


class Cmp(object):
    def __init__(self, s):
        self.s = s
        self.cells = s.cells()

    def state(self, x, y, skip=(), both=True):
        """verdict and description: states x and y agree in everything draws read"""
        s = self.s
        E = s.g.E
        dead = None
        bad = []
        for p, oid, off, sz in self.cells:
            if (oid, off) in skip:
                continue
            a, b = E.w.load(x, oid, off, sz), E.w.load(y, oid, off, sz)
            if a is b:
                continue
            v = eqv(a, b)
            if v is True:
                continue
            if dead is None:
                fx, fy = s.fixed(x), s.fixed(y)
                dead = s.deads(dict(k for k in fx.items() if fy.get(k[0]) == k[1]))
            if (oid, off) in dead:
                continue
            bad.append((v is not False, "%s is %s instead of %s" % (s.cname(p, oid, off), X.show(a, 2), X.show(b, 2))))
            if len(bad) > 40:
                break
        if not bad:
            return True, ""
        return (False if any(not b[0] for b in bad) else None), "; ".join(b[1] for b in sorted(bad)[:2])


def best(vs):
    """one of several admissible forms: True if one holds, None if one may hold, otherwise False with the first reason"""
    vs = list(vs)
    if any(v[0] is True for v in vs):
        return True, ""
    if any(v[0] is None for v in vs):
        return None, next(v[1] for v in vs if v[0] is None)
    return vs[0] if vs else (None, "no form applies")


def both(*vs):
    r = True
    why = []
    for v in vs:
        if callable(v):
            if r is False:
                continue
            v = v()
        v, t = v
        if v is False:
            r = False
        elif v is None and r is True:
            r = None
        if v is not True and t:
            why.append(t)
    return r, "; ".join(why)


def val(a, b, what):
    v = eqv(a, b)
    return v, "" if v is True else "%s is %s instead of %s" % (what, X.show(a, 3), X.show(b, 3))


SC = X.fconst(1.0 / 9007199254740992.0)


def form64(ci, w):
    return ci.fbin("fmul", X.itof("uitofp", X.zext(X.slice_(w, 11, 53), 64), "f64"), SC, "f64")


def form32(ci, a, b):
    x = X.itof("sitofp", X.zext(X.slice_(a, 5, 27), 32), "f64")
    y = X.itof("sitofp", X.zext(X.slice_(b, 6, 26), 32), "f64")
    return ci.fbin("fdiv", ci.fbin("fadd", ci.fbin("fmul", x, X.fconst(67108864.0), "f64"), y, "f64"), X.fconst(9007199254740992.0), "f64")


class Views(object):
    def __init__(self, s, S1, cmp):
        self.s, self.S, self.cmp = s, S1, cmp
        self.g, self.a = s.g, s.a
        self.memo = {}

    def draw(self, path):
        """result and state after the draws of the path (a tuple of slot names)"""
        if not path:
            return None, self.S
        r = self.memo.get(path)
        if r is None:
            st = self.draw(path[:-1])[1]
            r = self.memo[path] = (None, None) if st is None else self.g.draw(st, self.a, path[-1])
        return r


def flagcells(s):
    """(flag, value) cells of a buffered half word: a 0/1 cell that 32-bit draws read and 64-bit draws neither read nor write"""
    g = s.g
    r32 = set((p, o, f, z) for p, o, f, z in s.cells("next_uint32"))
    r64 = set((p, o, f, z) for p, o, f, z in s.cells("next_uint64"))
    fl = []
    for c in sorted(r32 - r64):
        t = g.E.w.load(s.S, c[1], c[2], c[3])
        if isinstance(t.w, int) and not X.is_c(t) and s.S.rng(t) == (0, 1):
            fl.append(c)
    return fl, sorted(x for x in r32 - r64 if x not in fl)


def setcell(g, S, c, v):
    S1 = S.copy()
    g.E.w.store(S1, c[1], c[2], c[3], X.const(v, 8 * c[3]))
    return S1


def decide(s, S, f):
    """judge f over the cases of the control cells; (verdict, text)"""
    v, t = f(S)
    if v is True or v is False:
        return v, t
    names = set(d for x in s.g.shape(s.S, s.a).values() if isinstance(x.w, int) for d in X.deps(x))
    v2, x = settle(s.g, S, s.a, "A", f, names, budget=150, limit=100.0)
    if v2 is True:
        return True, ""
    if v2 is False:
        return False, (x[0] + str(x[1])) if isinstance(x, tuple) else str(x)
    return None, t


def work(cfg, root, exts):
    s = Session(cfg, root, exts)
    g, a = s.g, s.a
    ci = g.E.ci(g.mod)
    cmp = Cmp(s)
    out = []
    flags, vals = flagcells(s)
    if len(flags) > 1:
        return [ob("analysis", label(cfg), None, "more than one flag of buffered halves")]
    idle = setcell(g, s.S, flags[0], 0) if flags else s.S
    n = len(cmp.cells)

    def dbl(S1):
        v = Views(s, S1, cmp)
        d, Sd = v.draw(("next_double",))
        w, Sw = v.draw(("next_uint64",))
        if Sd is None or Sw is None:
            return None, "never returns"
        c = [both(val(d, form64(ci, w), "the double"), lambda: cmp.state(Sd, Sw))]
        if c[0][0] is not True:
            a1, _ = v.draw(("next_uint32",))
            b1, Sb = v.draw(("next_uint32", "next_uint32"))
            if Sb is not None and not flags:
                c.append(both(val(d, form32(ci, a1, b1), "the double"), lambda: cmp.state(Sd, Sb)))
            raw, Sr = v.draw(("next_raw",))
            if Sr is not None and raw.w == 64:
                f = ci.fbin("fsub", ci.asfloat(raw, "f64"), X.fconst(1.0), "f64")
                c.append(both(val(d, f, "the double"), lambda: cmp.state(Sd, Sr)))
        return best(c)

    def raw(S1):
        v = Views(s, S1, cmp)
        r, Sr = v.draw(("next_raw",))
        w, Sw = v.draw(("next_uint64",))
        if Sr is None or Sw is None:
            return None, "never returns"
        c = [both(val(r, w, "the raw value"), lambda: cmp.state(Sr, Sw))]
        if c[0][0] is not True and not flags:
            h, Sh = v.draw(("next_uint32",))
            if Sh is not None:
                c.append(both(val(r, X.zext(h, 64), "the raw value"), lambda: cmp.state(Sr, Sh)))
            d, Sd = v.draw(("next_double",))
            if Sd is not None:
                c.append(both(val(d, ci.fbin("fsub", ci.asfloat(r, "f64"), X.fconst(1.0), "f64"), "the double"), lambda: cmp.state(Sd, Sr)))
        return best(c)

    def halves(S1):
        v = Views(s, S1, cmp)
        w, Sw = v.draw(("next_uint64",))
        x, Sx = v.draw(("next_uint32",))
        y, Sy = v.draw(("next_uint32", "next_uint32"))
        if Sw is None or Sy is None:
            return None, "never returns"
        if flags:
            return both(val(x, X.trunc(w, 32), "the first 32-bit draw"), val(y, X.slice_(w, 32, 32), "the second 32-bit draw"),
                        cmp.state(Sy, Sw))
        c = [both(val(w, X.cat([(lo, 0, 32), (hi, 0, 32)]), "the 64-bit draw"), lambda: cmp.state(Sw, Sy)) for lo, hi in ((y, x), (x, y))]
        return best(c)

    def keep(S1):
        """with a buffered half: 64-bit draws and doubles neither use nor drop it, the next 32-bit draw returns it and moves nothing else"""
        v = Views(s, S1, cmp)
        S0 = setcell(g, S1, flags[0], 0)
        v0 = Views(s, S0, cmp)
        res = []
        for k in ("next_uint64", "next_double", "next_raw"):
            (w, Sw), (w0, S0w) = v.draw((k,)), v0.draw((k,))
            if Sw is None or S0w is None:
                return None, "never returns"
            h, Sh = v.draw((k, "next_uint32"))
            buf = g.E.w.load(S1, *vals[0][1:]) if len(vals) == 1 else None
            res += [val(w, w0, k), cmp.state(Sh, S0w)]
            if buf is not None:
                res.append(val(h, X.trunc(buf, 32), "the buffered half after %s" % k))
        return both(*res)

    for rule, inst, f, S1 in ((R1, "next_double", dbl, s.S), (R3, "next_raw", raw, s.S), (R2, "next_uint32 and next_uint64", halves, idle)):
        v, t = decide(s, S1, f)
        out.append(ob(rule, "%s: %s" % (label(cfg), inst), v, t, n=n))
    if flags:
        v, t = decide(s, setcell(g, s.S, flags[0], 1), keep)
        out.append(ob(R2, "%s: a buffered half survives other draws" % label(cfg), v, t, n=n))
    return out


def tasks(root, exts):
    return configs(skip=("RDRAND",))


name = label
FLOOR = 60
EXPLAIN = ("Abstract interpretation of every generator configuration: from an arbitrary reachable state the installed draw functions are interpreted alone and one after the other; the resulting value terms and "
           "the states left behind are compared with the defining combination of the words (53 high bits of a 64-bit word, 27 and 26 bits of two 32-bit words, the native double minus one; halves low first).")
ASSUME = ["reachable states are those of the constructor, seeding, moves and the four draw functions", "hardware generator RDRAND is excluded: two of its draws are never the same"]
