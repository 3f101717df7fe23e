"""Contracts of the report sorts in src/ohcount.c

Ghost: back (payload -> node) is kept up by every store of a payload into a node of the list; a permutation is then: every
record of the list before is the payload of exactly the node `back` names, and every node's payload is a record of the list.
"""
import z3
from z3 import And, Or, Not, Implies, ForAll, Select, Store, Const, If, Function
from ovc.sym import *
from ovc.sym import A1, AB, A2, I, B, R
from ovc.contract import *
from .loc import LL, list_templates

IR = ["ohcount", "loc"]
CONTRACTS = {}
BACK = "back:LocListItem"


def C(*a, **k):
    c = Contract(*a, **k)
    CONTRACTS[c.name] = c
    return c


def moved(e, st, node, p):
    """ghost code: payload p now sits in node"""
    e.map_sorts[BACK] = A1
    e.setmap(st, BACK, Store(e.map(st, BACK, A1), toz(p), toz(node)), ("obj", toz(p)))


def payloads(v, L):
    i = Const("i?s", I)
    d = LL.N(v, L, i)
    p = LL.payload(v, d)
    q = v.f("Loc", "language", p)
    return ForAll([i], Implies(And(0 <= i, i < LL.n(v, L)), And(
        p != 0, v.alive(p), v.typ(p, "Loc"), v.own(p) == toz(L), LL.back(v, p) == d, v.m("heap", AB)[p], v.cstr(q),
        v.own(q.obj) != toz(L))), patterns=[p])


def perm(pre, v, L):
    """every record of the list before is in the list now, in the node that back names"""
    i = Const("i?t", I)
    d = LL.N(pre, L, i)
    p = LL.payload(pre, d)
    b = LL.back(v, p)
    return ForAll([i], Implies(And(0 <= i, i < LL.n(pre, L)), And(LL.isnode(v, L, b), LL.payload(v, b) == p)), patterns=[b])


def recs(pre, v, L):
    """every entry now is a record the list had before"""
    i = Const("i?r", I)
    d = LL.N(v, L, i)
    p = LL.payload(v, d)
    b = LL.back(pre, p)
    return ForAll([i], Implies(And(0 <= i, i < LL.n(v, L)), And(LL.isnode(pre, L, b), LL.payload(pre, b) == p)), patterns=[b])


def others(pre, v, L):
    """nodes and records of other lists are as before"""
    x = Const("x?ot", I)
    a, b = v.m("F:LocListItem.loc", A1), pre.m("F:LocListItem.loc", A1)
    c, d = v.m(BACK, A1), pre.m(BACK, A1)
    return [ForAll([x], Implies(pre.own(x) != toz(L), m[x] == o[x]), patterns=[m[x]]) for m, o in ((a, b), (c, d))]


def rank(v, p):
    """the language of record p: keyof, by its defining axiom; no function here writes a language or a string"""
    e = v.e
    if not hasattr(e, "rank"):
        e.rank = Function("rank", I, R)
        x = Const("x?rk", I)
        e.axioms.append(ForAll([x], e.rank(x) == LL.keyof(e.ctx.pre, x), patterns=[e.rank(x)]))
    return e.rank(toz(p))


def by_language(v, p, q):
    return rank(v, p) <= rank(v, q)


def by_code(v, p, q):
    return v.f("Loc", "code", p) >= v.f("Loc", "code", q)


def ordered(v, L, le, lo=None, hi=None):
    """entries at positions below `lo` are in order with everything after them"""
    i, j = Const("i?o", I), Const("j?o", I)
    n = LL.n(v, L)
    return ForAll([i, j], Implies(And(0 <= i, i < j, j < n, i < (n if lo is None else lo)),
                                  le(v, LL.payload(v, LL.N(v, L, i)), LL.payload(v, LL.N(v, L, j)))),
                  patterns=[z3.MultiPattern(LL.N(v, L, i), LL.N(v, L, j))])


def sort(name, le, how):
    def hints(lc):
        e = lc.eng
        L = e.args[0].obj
        pre = e.ctx.pre
        out = list_templates(lambda e: [("list", LL, e.args[0].obj)])(lc)
        out.append(("the payloads are the list's records", lambda st: [payloads(V(e, st), L)]))
        out.append(("no record is lost", lambda st: [perm(pre, V(e, st), L)]))
        out.append(("every entry is a record of the list", lambda st: [recs(pre, V(e, st), L)]))
        out.append(("other lists are untouched", lambda st: others(pre, V(e, st), L)))
        ch = [k for k in lc.changed_cells() if isinstance(lc.ent.cells[k], Ptr)]
        al = [k for k in lc.ent.cells if isinstance(lc.ent.cells[k], Ptr) and lc.ent.cells[k].tag is None
              and not k[1].endswith(".addr")]
        cp = lambda v, st, k: LL.curpos(v, L, st.cells[k].obj)
        for x in al:
            out.append(("ordered up to %s" % x[1], lambda st, x=x: [ordered(V(e, st), L, le, lo=cp(V(e, st), st, x))]))
        for y in ch:
            out.append(("%s is a node" % y[1], lambda st, y=y: [LL.isnode(V(e, st), L, st.cells[y].obj)]))
            for o in al:
                if o == y:
                    continue
                out.append(("%s is not before %s" % (y[1], o[1]), lambda st, y=y, o=o: [
                    cp(V(e, st), st, y) >= cp(V(e, st), st, o)]))
                for x in ch:
                    if x in (y, o):
                        continue

                    def f(st, x=x, y=y, o=o):
                        v = V(e, st)
                        j = Const("j?m", I)
                        return [ForAll([j], Implies(And(cp(v, st, o) <= j, j < cp(v, st, x)),
                                                    le(v, LL.payload(v, st.cells[y].obj), LL.payload(v, LL.N(v, L, j)))),
                                       patterns=[LL.N(v, L, j)])]
                    out.append(("%s is first of those from %s to %s" % (y[1], o[1], x[1]), f))
        return out

    def ens(c):
        L = c.args[0].obj
        v = c.post
        return [("the list keeps its %s (shape %d)" % ("form", k), g) for k, g in enumerate(LL.shape(v, L))] + [
            ("no record is lost", perm(c.pre, v, L)),
            ("the list has as many entries as before", LL.n(v, L) == LL.n(c.pre, L)),
            ("every entry is one of the list's records", recs(c.pre, v, L)),
            (how, ordered(v, L, le))]
    C(name, requires=lambda c: [("list is well formed (shape %d)" % k, g) for k, g in enumerate(LL.shape(c.pre, c.args[0].obj))], ensures=ens, hints=hints,
      modifies=lambda c: {"F:LocListItem.loc": OWN(c.args[0].obj), BACK: OWN(c.args[0].obj)},
      opts={"onstore": {("LocListItem", "loc"): moved}, "hint_timeout": 8000})


sort("sort_loc_list_by_language", by_language, "languages are in ascending order")
sort("sort_loc_list_by_code", by_code, "code counts are in descending order")
