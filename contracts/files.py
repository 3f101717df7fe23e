"""Contracts of the functions that own whole files: license lists, source files, source file lists (src/licenses.c,
src/sourcefile.c), and the analyses built on them."""
from z3 import And, Or, Not, Implies, ForAll, Select, Store, Const, If, Function
from ovc.sym import *
from ovc.sym import A1, AB, A2, I, B, R
from ovc.contract import *
from ovc import libc
from .lists import ListT
from .loc import fresh_in, forkeys, list_templates, prefix_templates, KEY, LL, DL, PS, mods_payload
from .parsed import PL, MAXBUF, P as PLP, SIDES
from .sourcefile import SF, ownbuf

IR = ["sourcefile", "parsed_language", "loc", "licenses"]
CONTRACTS = {}


def C(*a, **k):
    c = Contract(*a, **k)
    CONTRACTS[c.name] = c


LIC = ListT("LicenseListItem", "lic", "License", owns_pay=False)
UP = "up"          # ghost: what a file owns -> the file


def up(v, o):
    return Select(v.m(UP, A1), toz(o))


def licshape(v, L):
    """a licence list: its nodes; the licences are entries of the constant table and not looked at"""
    L = toz(L)
    T, S = LIC, LIC.S
    n = T.n(v, L)
    i = Const("i?lic", I)
    d = T.N(v, L, i)
    return [And(v.valid(L, S), v.own(L) == L, v.m("heap", AB)[L], n >= 0, (T.head(v, L) == 0) == (n == 0)),
            Implies(n > 0, And(T.head(v, L) == L, T.N(v, L, 0) == L, T.pos(v, L) == 0, T.tail(v, L) == T.N(v, L, n - 1))),
            ForAll([i], Implies(And(0 <= i, i < n), And(
                d != 0, v.alive(d), v.typ(d, S), v.own(d) == L, T.pos(v, d) == i, v.m("heap", AB)[d],
                T.next(v, d) == If(i + 1 < n, T.N(v, L, i + 1), 0))), patterns=[d])]


def lic_new_mod(c):
    d = dict(ALLOC)
    for m in LIC.maps():
        d[m] = FRESH
    d["n:" + LIC.S] = FRESH
    return d


C("ohcount_license_list_new", modifies=lic_new_mod, ghost=lambda c, st: LIC.init_empty(c.e, st, c.ret.obj),
  ensures=lambda c: [("result is new", fresh_in(c, c.ret.obj)), ("it is empty", LIC.n(c.post, c.ret.obj) == 0)] +
  [("result is well formed (%d)" % k, g) for k, g in enumerate(licshape(c.post, c.ret.obj))])


def nodes_freed(T, extra=None):
    """postcondition of a list's free function"""
    def ens(c):
        L = toz(c.args[0].obj)
        i = Const("i?f", I)
        d = T.N(c.pre, L, i)
        os = [d] + (extra(c.pre, d) if extra else [])
        return [("the list object is freed", Not(c.post.alive(L))),
                ("every node and everything it owns is freed", ForAll([i], Implies(
                    And(0 <= i, i < T.n(c.pre, L)), And(*[Not(c.post.alive(o)) for o in os])), patterns=[d]))]
    return ens


def walk_hints(T, freed, mine):
    """freed(v0, d): objects freed with node d; mine(v0, x): position of the node x is freed with"""
    def t(lc):
        e = lc.eng
        L = toz(e.args[0].obj)
        p = V(e, e.ctx.pre.st)
        out = []
        i, x = Const("i?fh", I), Const("x?fh", I)
        d = T.N(p, L, i)
        for k in lc.changed_cells():
            if not isinstance(lc.ent.cells[k], Ptr):
                continue
            cp = lambda st, k=k: T.curpos(p, L, st.cells[k].obj)
            for wn, wf in T.walked(lc):
                out.append(("%s is a %s" % (k[1], wn), lambda st, k=k, wf=wf: [wf(p, L, st.cells[k].obj)]))
            out.append(("what comes before %s is freed" % k[1], lambda st, cp=cp: [ForAll([i], Implies(
                And(0 <= i, i < cp(st)), And(*[Not(V(e, st).alive(o)) for o in freed(p, d)])), patterns=[d])]))
            out.append(("what is not freed before %s is untouched" % k[1], lambda st, cp=cp: [ForAll([x], Implies(
                Or(*[And(own, at >= cp(st)) for own, at in mine(p, x, L)] + [And(*[Not(own) for own, at in mine(p, x, L)])]),
                V(e, st).alive(x) == p.alive(x)), patterns=[V(e, st).alive(x)])]))
        return out
    return t


C("ohcount_license_list_free", ensures=nodes_freed(LIC),
  requires=lambda c: [("list is well formed (%d)" % k, g) for k, g in enumerate(licshape(c.pre, c.args[0].obj))],
  modifies=lambda c: {"alive": STRICT(OWN(c.args[0].obj))},
  hints=walk_hints(LIC, lambda v, d: [d], lambda v, x, L: [(v.own(x) == L, LIC.pos(v, x))]))

FILEBUFS = ["filepath", "diskpath", "contents"]
FILELISTS = [("parsed_language_list", lambda v, L: PL.shape(v, L) + PL.keyed(v, L)), ("license_list", licshape),
             ("loc_list", lambda v, L: LL.shape(v, L) + LL.keyed(v, L))]


def nobodys(v, o):
    """a string that belongs to no list and no file (a literal or a table's)"""
    return And(v.own(o) == toz(o), up(v, o) == toz(o))


def owned(v, sf):
    """what a source file owns, each part its own and complete"""
    out = [("source file is valid", And(v.valid(sf, SF), v.m("heap", AB)[toz(sf)]))]
    bs = [v.f(SF, f, sf) for f in FILEBUFS]
    for f, b in zip(FILEBUFS, bs):
        out.append(("its %s is its own" % f, And(ownbuf(v, sf, f), Implies(b.obj != 0, And(v.own(b.obj) == b.obj, up(v, b.obj) == toz(sf))))))
    out.append(("its path is set", bs[0].obj != 0))
    out.append(("its buffers are distinct", And(*[Or(bs[i].obj == 0, bs[i].obj != bs[j].obj) for i in range(3) for j in range(i)])))
    for f, wf in FILELISTS:
        L = v.f(SF, f, sf)
        for k, g in enumerate(wf(v, L)):
            out.append(("its %s is null or well formed (%d)" % (f, k), Or(L == 0, g)))
        out.append(("its %s is its own" % f, Or(L == 0, And(up(v, L) == toz(sf), v.own(sf) != L))))
    for f, T in (("parsed_language_list", PL), ("loc_list", LL)):
        L = v.f(SF, f, sf)
        i = Const("i?nm", I)
        q = v.f(T.P, T.key, T.payload(v, T.N(v, L, i)))
        out.append(("the language names in its %s are stored elsewhere" % f, Or(L == 0, ForAll([i], Implies(
            And(0 <= i, i < T.n(v, L)), nobodys(v, q.obj)), patterns=[T.N(v, L, i)]))))
    return out


def file_objs(v, sf):
    return [sf] + [v.f(SF, f, sf).obj for f in FILEBUFS] + [v.f(SF, f, sf) for f, _ in FILELISTS]


def of_file(e, st, x, sf):
    m = e.map(st, UP, A1)
    own = e.map(st, "own")
    return Or(x == toz(sf), Select(m, Select(own, x)) == toz(sf))


C("ohcount_sourcefile_free", requires=lambda c: owned(c.pre, c.args[0].obj),
  ensures=lambda c: [("the file and every part it owns is freed", And(*[
      Or(toz(o) == 0, Not(c.post.alive(o))) for o in file_objs(c.pre, c.args[0].obj)]))] +
  [(nm + " (%s)" % f, Implies(c.pre.f(SF, f, c.args[0].obj) != 0, g))
   for f, T, fr in (("parsed_language_list", PL, True), ("loc_list", LL, True), ("license_list", LIC, False))
   for nm, g in sub_freed(c, f, T, fr)],
  modifies=lambda c: {"alive": STRICT(Mod([c.args[0].obj], lambda e, st, x: of_file(e, st, x, c.args[0].obj)))})


def sub_freed(c, f, T, pay):
    L = c.pre.f(SF, f, c.args[0].obj)
    i = Const("i?sf", I)
    d = T.N(c.pre, L, i)
    os = [d] + ([T.payload(c.pre, d)] if pay else [])
    if T is PL:
        os += [c.pre.f(PLP, x, T.payload(c.pre, d)).obj for x, s in SIDES]
    return [("every node and record is freed", ForAll([i], Implies(And(0 <= i, i < T.n(c.pre, L)), And(
        *[Not(c.post.alive(o)) for o in os])), patterns=[d]))]


# ---- lists of source files -----------------------------------------------------------------------------------------
def sfpay(v, p, L):
    return [g for nm, g in owned(v, p)]


SFL = ListT("SourceFileListItem", "sf", SF, payinv=sfpay, iv="F")


def sflwf(v, L, nm="list"):
    return SFL.wfl(v, L, nm) + [("%s belongs to no file" % nm, up(v, L) == toz(L))]


def setup_ghost(e, st, o, f):
    e.setmap(st, UP, Store(e.map(st, UP, A1), toz(o), toz(f)), ("obj", toz(o)))


def sfl_new_ghost(c, st):
    SFL.init_empty(c.e, st, c.ret.obj)
    setup_ghost(c.e, st, c.ret.obj, c.ret.obj)


def sfl_new_mod(c):
    d = dict(ALLOC)
    for m in SFL.maps():
        d[m] = FRESH
    d["n:" + SFL.S] = d[UP] = FRESH
    return d


C("ohcount_sourcefile_list_new", modifies=sfl_new_mod, ghost=sfl_new_ghost,
  ensures=lambda c: [("result is new", fresh_in(c, c.ret.obj)), ("it is empty", SFL.n(c.post, c.ret.obj) == 0),
                     ("its links are null", And(SFL.payload(c.post, c.ret.obj) == 0, SFL.next(c.post, c.ret.obj) == 0,
                                                SFL.head(c.post, c.ret.obj) == 0))] + sflwf(c.post, c.ret.obj, "result"))


def of_files(e, st, x, L):
    """x is a node of the list or belongs to one of its files"""
    own = e.map(st, "own")
    return Or(Select(own, x) == toz(L), Select(own, Select(e.map(st, UP, A1), Select(own, x))) == toz(L))


def sflpos(v, x):
    """position of the node a file is freed with"""
    return SFL.pos(v, SFL.back(v, x))


def sfl_mine(v, x, L):
    isn = v.typ(x, SFL.S)
    f = up(v, v.own(x))
    return [(And(v.own(x) == L, isn), SFL.pos(v, x)), (And(v.own(x) == L, Not(isn)), sflpos(v, x)),
            (And(v.own(x) != L, v.own(f) == L), sflpos(v, f))]


C("ohcount_sourcefile_list_free", requires=lambda c: sflwf(c.pre, c.args[0].obj),
  ensures=nodes_freed(SFL, lambda v, d: [SFL.payload(v, d)]),
  modifies=lambda c: {"alive": STRICT(Mod([c.args[0].obj], lambda e, st, x: of_files(e, st, x, c.args[0].obj)))},
  hints=walk_hints(SFL, lambda v, d: [d, SFL.payload(v, d)], sfl_mine))


def addf_ghost(c, st):
    e = c.e
    L = toz(c.args[0].obj)
    pre, v = c.pre, V(e, st)
    n0 = SFL.n(pre, L)
    t1 = SFL.tail(v, L)
    grew = And(SFL.head(v, L) != 0, Or(n0 == 0, t1 != SFL.tail(pre, L)))
    SFL.push(e, st, L, n0, t1, grew)
    sf = SFL.payload(v, t1)
    b = toz(v.f(SF, "filepath", sf).obj)
    m = e.map(st, UP, A1)
    e.setmap(st, UP, If(grew, Store(m, b, sf), m), ("obj", b))


def addf_ens(c):
    L = toz(c.args[0].obj)
    pre, v = c.pre, c.post
    n0 = SFL.n(pre, L)
    i, j = Const("i?af", I), Const("j?af", I)
    sf = SFL.payload(v, SFL.N(v, L, n0))
    fp = v.f(SF, "filepath", sf)
    n = pre.slen(c.args[1])
    a = Select(v.m("Mi8", A2), toz(fp.obj))
    s = Select(pre.m("Mi8", A2), toz(c.args[1].obj))
    return sflwf(v, L) + [
        ("one file is added", SFL.n(v, L) == n0 + 1),
        ("the files before it stay, in order", ForAll([i], Implies(And(0 <= i, i < n0), And(
            SFL.N(v, L, i) == SFL.N(pre, L, i), SFL.payload(v, SFL.N(v, L, i)) == SFL.payload(pre, SFL.N(pre, L, i)))),
            patterns=[SFL.N(v, L, i)])),
        ("it is a new file", fresh_in(c, sf)),
        ("with exactly that path", And(fp.off == 0, Select(a, n) == 0, ForAll([j], Implies(
            And(0 <= j, j < n), Select(a, j) == Select(s, toz(c.args[1].off) + j)), patterns=[Select(a, j)])))]


def addf_mod(c):
    L = c.args[0].obj
    d = dict(ALLOC, Mi8=FRESH)
    d["own"] = d[UP] = FRESH
    from .sourcefile import sfm, FIELDS
    for m in sfm(*FIELDS):
        d[m] = FRESH
    for m in SFL.maps():
        d[m] = Mod([L], lambda e, st, x: And(Select(e.map(st, "own"), x) == toz(L),
                                             Select(e.map(st, "typ"), x) == e.prog.typeid(SFL.S)))
    for g in ("n:", "N:"):
        d[g + SFL.S] = OBJ(L)
    for g in ("pos:", "back:"):
        d[g + SFL.S] = OWN(L)
    return d


C("ohcount_sourcefile_list_add_file", ghost=addf_ghost, ensures=addf_ens, modifies=addf_mod,
  requires=lambda c: sflwf(c.pre, c.args[0].obj) + [("the path is a string", c.pre.cstr(c.args[1])), (
      "of int length", c.pre.slen(c.args[1]) <= MAXBUF), ("not stored in the list's own memory", And(
          c.pre.own(c.args[1].obj) != toz(c.args[0].obj)))])
