"""Functions never write to what the caller passes in, except to the array given as out."""
from .base import *
from .. import effects

PROP = "C09"
OUT = ("out",)


def public(f):
    """callable from Python"""
    if type(f).__name__ == "DefNode":
        return True
    return bool(getattr(f, "overridable", False)) or bool(getattr(f, "visibility", "") == "public")


def generated(q):
    n = q.split(".")[-1]
    return n.startswith("__pyx_") or n in ("__reduce_cython__", "__setstate_cython__")


def work(task, root, exts):
    mods = package(root, exts)
    E = effects.Effects(mods, root, exts)
    out = []
    for f in E.functions():
        q = E.qual(f)
        if generated(q) or not public(f):
            continue
        s = E.summary(f)
        bad = [(o, l) for o, l in sorted(s.muts.items()) if o[0] == "param" and o[1] not in OUT]
        where = bad[0][1][0][0] if bad else ""
        out.append(ob("arguments are left alone", q + (" setter" if q.endswith("__set__") else ""), not bad,
                      "; ".join("%s: %s (%s)" % (o[1], l[0][1], l[0][0]) for o, l in bad[:3]), n=s.calls + s.stores + 1, where=where,
                      key="arguments are left alone | %s" % q))
    return out


def tasks(root, exts):
    return ["package"]


def name(t):
    return t


FLOOR = 100
EXPLAIN = ("Flow-sensitive may-alias and effect analysis over the typed Cython trees of every module, with provenance analysis of the LLVM IR of the C functions called: for each function callable from Python "
           "the set of parameters whose storage it may write to (directly, in place operators and methods, out= arguments, raw pointers, callees) must be empty apart from `out`.")
ASSUME = ["numpy and scipy functions write to an argument only where documented (out=, overwrite_*, copyto, put, place, ...)", "methods outside the list of mutating methods do not modify their receiver",
          "names never used as arrays in a function are numbers"]
