"""Pickled and copied generators continue the same stream, and a generator always draws through its bit generator's current functions."""
from .base import *
from . import c02
from ..pyinterp import HDict

PROP = "C11"

GENCLS = ("randomgen.generator", "ExtendedGenerator")
PROTO = ("__reduce__", "__reduce_ex__", "__getstate__", "__setstate__", "__copy__", "__deepcopy__", "__getnewargs__", "__getnewargs_ex__")


def tables(g, st, e):
    """[(attribute, five terms)]: every table of draw functions a generator object holds, copied or by pointer"""
    out = []
    for k, o in g.E.w.objs.items():
        if not k.startswith(e + ".") or o.extra is None or "ct" not in o.extra:
            continue
        nm = k[len(e) + 1:]
        ct = o.extra["ct"]
        if ct.size == 40 and ct.kind not in ("int", "float", "ptr", "obj"):
            out.append((nm, tuple(g.E.w.load(st, o.oid, 8 * i, 8) for i in range(5))))
        elif ct.size == 8:
            v = g.E.w.load(st, o.oid, 0, 8)
            if v.op == "ptr" and v.args[0].endswith("._bitgen") and X.is_c(v.args[1]):
                p = g.E.w.objs[v.args[0]]
                out.append((nm, tuple(g.E.w.load(st, p.oid, X.cval(v.args[1]) + 8 * i, 8) for i in range(5))))
            elif v.op == "opq" and v.args[0] == "npgen" or v.op == "npgen":
                out.append((nm, v.args[-5:]))
    return out


def table(g, st, b):
    o = g.E.w.objs[b + "._bitgen"]
    return tuple(g.E.w.load(st, o.oid, 8 * i, 8) for i in range(5))


NAMES = ("state",) + tuple(gens.SLOTS)


def same_tables(g, st, e, b, what):
    ts = tables(g, st, e)
    cur = table(g, st, b)
    bad = []
    for nm, t in ts:
        for i, (x, y) in enumerate(zip(t, cur)):
            if x is not y:
                known = x.op in ("ptr", "fn") and y.op in ("ptr", "fn")
                bad.append((known, "%s: %s is %s, the bit generator's is %s" % (nm, NAMES[i], X.show(x), X.show(y))))
    if not ts:
        return ob("the generator draws through its bit generator's functions", what, None, "no table of draw functions found in the generator object")
    return ob("the generator draws through its bit generator's functions", what,
              True if not bad else False if any(k for k, _ in bad) else None, "; ".join(d for _, d in bad[:3]), n=5 * len(ts))


def streams(g, st, a, b, rd, what, rule):
    out = []
    for name in gens.SLOTS:
        fa, fb = g.slot(st, a, name), g.slot(st, b, name)
        if fa is not fb:
            out.append(ob(rule, what + ": " + name, False if fb.op == "fn" else None, "draws with %s; the original uses %s" % (X.show(fb), X.show(fa))))
            continue
        cells = c02.selectcells(g, st, a, rd[name])
        bad = c02.compare(g, st, a, b, cells)
        out.append((name, bad, cells))
    return out


def work(cfg, root, exts):
    g = gens.Gen(root, exts, cfg)
    E = g.E
    for m in ("randomgen.generator", "randomgen._pickle"):
        E.module(m)
    o, S0 = g.construct(seed=False if cfg[0] == "rdrand" else None)
    if S0 is None:
        raise Broken("the constructor of %s always raises" % label(cfg))
    a = o.args[0]
    S, g.mutable = g.invariant(S0, a, "A", jumps=False)
    rd = c02.drawreads(g, S, a)
    nm = label(cfg)
    out = []

    def settle_streams(st, b, what, rule, rt):
        for x in streams(g, st, a, b, rd, what, rule):
            if isinstance(x, Ob):
                out.append(x)
                continue
            name, bad, cells = x
            case = ""
            if bad:
                bad, case = c02.settled(g, S, a, {}, name, bad, rt)
            ok = True if not bad else False if any(y[3] is False for y in bad) else None
            out.append(ob(rule, what + ": " + name, ok, case + "; ".join("%s: original %s, copy %s" % (c, X.show(p, 3), X.show(q, 3) if q is not None else "missing")
                                                                  for c, p, q, e in bad[:3]), n=len(cells)))

    def at(st, f):
        s0, E.base = E.base, st
        try:
            return g.run(st, f)
        finally:
            E.base = s0

    # --- the bit generator's own pickling protocol
    cls = S.heap[a].cls
    own = [m for m in PROTO if cls.method(m) is not None]
    for m in ("__copy__", "__deepcopy__"):
        if m in own:
            own.remove(m)

            def bgc(S_, m=m):
                x, s = copied(g, S_, o, m)
                if s is None or x.op != "ref":
                    return None, None
                g.type_objects(s, x.args[0])
                return x.args[0], s
            b, s2 = bgc(S)
            out.append(ob("a copied bit generator is a separate object", nm + ": " + m, b not in (None, a), "the copy is the original object" if b else "copying never succeeds"))
            if b not in (None, a):
                settle_streams(s2, b, nm + ": " + m, "a copied bit generator continues the stream", bgc)
    if own:
        what = nm + ": " + ", ".join(own)

        def bgcopy(S_):
            r, s1 = reduce_(g, S_, o, "bit generator")
            if s1 is None:
                return None, None
            b, s2 = rebuild(g, s1, r)
            if s2 is None:
                return None, None
            g.type_objects(s2, b.args[0])
            return b.args[0], s2
        b, s2 = bgcopy(S)
        if s2 is None:
            out.append(ob("a pickled bit generator is restored", what, False, "pickling or unpickling never succeeds"))
        else:
            out.append(ob("a pickled bit generator is a separate object", what, b != a, "the copy is the original object"))
            settle_streams(s2, b, what, "a pickled bit generator continues the stream", bgcopy)
    else:
        out.append(ob("the bit generator keeps numpy's pickling protocol (default instance, then the saved state)", nm, True, ""))

    # --- the generator object
    G = E.cls(*GENCLS)

    def wrap(S_, o_):
        e, s = at(S_, lambda: models.construct(E, G, [o_], {}, None))
        if s is None:
            raise Broken("no generator object over %s" % nm)
        return e, s

    def unpickled(S_):
        """(generator, the rebuilt generator, its bit generator, state, the value of __reduce__) or None"""
        e1, s1 = wrap(S_, o)
        r, s2 = reduce_(g, s1, e1, "generator")
        if s2 is None:
            return None
        e2, s3 = rebuild(g, s2, r)
        if s3 is None:
            return None
        b2 = bitgenof(g, s3, e2)
        if b2 is None:
            raise Broken("no bit generator in the unpickled %s" % nm)
        g.type_objects(s3, b2)
        return e1, e2, b2, s3, r

    e1, S1 = wrap(S, o)
    out.append(same_tables(g, S1, e1.args[0], a, nm + ": constructed"))
    u = unpickled(S)
    if u is None:
        out.append(ob("a pickled generator continues the stream", nm, False, "pickling or unpickling never succeeds"))
    else:
        e1, e2, b2, s3, r = u
        e4, s4 = rebuild(g, s3, r)
        b4 = bitgenof(g, s4, e4) if s4 is not None else None
        out.append(ob("unpickled generators are separate from the original and from each other", nm, e2 is not e1 and b2 != a and e4 is not e2 and b4 not in (None, b2, a),
                      "they share a bit generator"))
        out.append(same_tables(g, s3, e2.args[0], b2, nm + ": unpickled"))
        settle_streams(s3, b2, nm + ": unpickled generator", "a pickled generator continues the stream", lambda S_: (lambda u: (u[2], u[3]) if u else (None, None))(unpickled(S_)))

    for m in ("__copy__", "__deepcopy__"):
        if G.method(m) is not None:
            def gcopy(S_, m=m):
                e, s1 = wrap(S_, o)
                x, s2 = copied(g, s1, e, m)
                if s2 is None or x.op != "ref":
                    return None, None, None
                b2 = bitgenof(g, s2, x)
                if b2 is not None:
                    g.type_objects(s2, b2)
                return x, b2, s2
            x, b2, s2 = gcopy(S)
            out.append(ob("a copied generator is separate from the original", nm + ": " + m, x is not None and b2 is not None and b2 != a,
                          "it shares the bit generator" if x is not None else "copying never succeeds"))
            if x is not None and b2 not in (None, a):
                out.append(same_tables(g, s2, x.args[0], b2, nm + ": " + m))
                settle_streams(s2, b2, nm + ": " + m, "a copied generator continues the stream", lambda S_, gcopy=gcopy: gcopy(S_)[1:])

    # --- assigning a state to a generator made over another variant
    def assigned(S_, how):
        e1, s1 = wrap(S_, o)
        seed = X.leaf("in", ("seed2",), "o", ("in", "seed2", ""))
        s0, E.base = E.base, s1
        try:
            ob2, s4 = g.construct(kw={}, seed=False if cfg[0] == "rdrand" else seed)
        finally:
            E.base = s0
        if s4 is None:
            raise Broken("no second instance of %s" % nm)
        b = ob2.args[0]
        g.type_objects(s4, b)
        e3, s5 = wrap(s4, ob2)
        d, s6 = at(s5, lambda: E.getattr(e1, "state", None))
        if s6 is None:
            return e3, b, None
        _, s7 = at(s6, lambda: (setattr_(E, e3, "state", d) if how == "state" else setattr_(E, E.getattr(e3, "bit_generator", None), "state", d)))
        return e3, b, s7

    for how, txt in (("state", "generator.state = saved"), ("bit", "generator.bit_generator.state = saved")):
        e3, b, s7 = assigned(S, how)
        if s7 is None:
            out.append(ob("the saved state can be assigned", nm + ": " + txt, False, "it never succeeds"))
            continue
        out.append(same_tables(g, s7, e3.args[0], b, nm + ": after " + txt))
        settle_streams(s7, b, nm + ": " + txt, "a generator given a saved state continues the stream", lambda S_, how=how: assigned(S_, how)[1:])
    return out


def setattr_(E, o, name, v):
    models.m_setattr(E, o, name, v, None)
    return X.NONE


def bitgenof(g, st, e):
    for nm in ("_bit_generator", "bit_generator"):
        ob_ = g.E.w.objs.get(e.args[0] + "." + nm)
        if ob_ is not None:
            v = g.E.w.load(st, ob_.oid, 0, 8)
            if v.op == "ref":
                return v.args[0]
    v, s = g.run(st, lambda: g.E.getattr(e, "bit_generator", None))
    return v.args[0] if s is not None and v.op == "ref" else None


def reduce_(g, st, o, what):
    E = g.E
    cls = st.heap[o.args[0]].cls
    for m in ("__reduce_ex__", "__reduce__"):
        if cls.method(m) is not None:
            args = [X.pyint(4)] if m == "__reduce_ex__" else []
            r, s = g.run(st, lambda: models.call_method(E, o, m, args, {}, None))
            if s is None:
                return None, None
            if r.op != "tup":
                raise Broken("%s.%s returns %s" % (what, m, X.show(r)))
            return r, s
    # numpy's BitGenerator: (class constructor, (type,), (state, seed sequence))
    st_, s = g.run(st, lambda: models.call_method(E, o, "__getstate__", [], {}, None) if cls.method("__getstate__") is not None else E.getattr(o, "state", None))
    return (X._mk("tup", (X.glob(cls.qual), X._mk("tup", (), "o"), st_), "o"), s) if s is not None else (None, None)


def rebuild(g, st, r):
    """what pickle and copy do with the value of __reduce__, with copied arguments and state"""
    E = g.E

    def go():
        fn, ar = r.args[0], r.args[1]
        x = E.pycall(fn, [models.deepcopy(E, v, None) for v in ar.args], {}, None)
        if len(r.args) > 2 and r.args[2] is not X.NONE:
            d = models.deepcopy(E, r.args[2], None)
            if E.h(x) is None or not hasattr(E.h(x), "cls"):
                raise Broken("the pickling helper returns %s" % X.show(x))
            c = E.h(x).cls
            if c.method("__setstate__") is not None:
                models.call_method(E, x, "__setstate__", [d], {}, None)
            else:
                models.m_setattr(E, x, "state", d.args[0] if d.op == "tup" else d, None)
        return x
    s0, E.base = E.base, st
    try:
        return g.run(st, go)
    finally:
        E.base = s0


def copied(g, st, o, m):
    """(copy, state) made by the object's own __copy__ or __deepcopy__"""
    E = g.E
    s0, E.base = E.base, st
    try:
        return g.run(st, lambda: models.call_method(E, o, m, [E.newref("dict", HDict())] if m == "__deepcopy__" else [], {}, None))
    finally:
        E.base = s0


def tasks(root, exts):
    return configs(skip=("RDRAND",))


name = label
FLOOR = 300
EXPLAIN = ("Abstract interpretation of every generator configuration: from an arbitrary reachable state of a bit generator, ExtendedGenerator's constructor, "
           "__reduce__, the pickling helper it names, __setstate__ and the state property are interpreted over the typed Cython trees; the rebuilt object's "
           "table of draw functions must be that of its bit generator, its draw functions those of the original, and every cell they read before writing "
           "must hold the same term as in the original.")
ASSUME = ["pickle and copy call __reduce__, the named constructor and __setstate__ with copies of the values", "numpy's BitGenerator protocol builds a default instance and assigns the state",
          "reachable states are those of the constructor and the four draw functions (ranges of the fields)"]
