"""Contracts of the line counts of a file (src/sourcefile.c): parse once, and the count list built from the parsed list."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Select, Store, Const, If, Function
from ovc.sym import *
from ovc.sym import A1, AB, A2, I, B, R
from ovc.contract import *
from .loc import fresh_in, forkeys, LL, LF, mods_payload
from .parsed import PL, MAXBUF, P as PLP, SIDES
from .parsed import S as PLS
from .sourcefile import SF, ownbuf

IR = ["sourcefile", "parsed_language", "loc"]
CONTRACTS = {}
PAIRS = [("code", "code_count"), ("comments", "comments_count"), ("blanks", "blanks_count")]


def C(*a, **k):
    c = Contract(*a, **k)
    CONTRACTS[c.name] = c


def parsed(v, sf):
    return toz(v.f(SF, "parsed_language_list", sf))


def counted(v, sf):
    return toz(v.f(SF, "loc_list", sf))


def names_apart(v, L):
    """the language names in a parsed list are not stored in anything a list or a file owns"""
    i = Const("i?na", I)
    q = v.f(PLP, "name", PL.payload(v, PL.N(v, L, i)))
    return ForAll([i], Implies(And(0 <= i, i < PL.n(v, L)), And(v.own(q.obj) == toz(q.obj), v.alive(q.obj), v.typ(q.obj, "raw:i8"))),
                  patterns=[PL.N(v, L, i)])


def names_not_in(v, L, o):
    """no language name of the list is stored in o"""
    i = Const("i?nn", I)
    q = v.f(PLP, "name", PL.payload(v, PL.N(v, L, i)))
    return ForAll([i], Implies(And(0 <= i, i < PL.n(v, L)), q.obj != toz(o)), patterns=[PL.N(v, L, i)])


def plist(v, sf, nm="the parsed list"):
    """the parsed list of a file: well formed, with language names of its own nowhere"""
    L = parsed(v, sf)
    return [(nm + " is well formed (%d)" % k, g) for k, g in enumerate([g for _, g in PL.wfl(v, L)] + [names_apart(v, L)])]


def agree(v, sf):
    """[(label, formula)]: the count list has exactly one entry per parsed language, with the parsed figures and one file"""
    L, Q = counted(v, sf), parsed(v, sf)
    z = Const("z?ag", R)
    out = [("the count list is well formed (%d)" % k, g) for k, (_, g) in enumerate(LL.wfl(v, L))]
    out.append(("a language is in the count list iff it was parsed", forkeys(z, LL.has(v, L, z) == PL.has(v, Q, z))))
    for f, g in PAIRS:
        out.append(("%s of a language is what was parsed" % f, forkeys(z, LL.cnt(v, L, z, f) == PL.cnt(v, Q, z, g))))
    out.append(("the file count of a language is one", forkeys(z, LL.cnt(v, L, z, "filecount") == If(PL.has(v, Q, z), 1, 0))))
    return out


def valid(c):
    sf = c.args[0].obj
    v = c.pre
    return [("source file is valid", And(v.valid(sf, SF), v.own(sf) == toz(sf))), ("its contents are its own", ownbuf(v, sf, "contents")),
            ("its contents belong to no list", Or(v.f(SF, "contents", sf).obj == 0,
                                                  v.own(v.f(SF, "contents", sf).obj) == v.f(SF, "contents", sf).obj))]


def when(null, objs):
    """may change at the given objects, if null holds of the state before the call"""
    return Mod(objs, lambda e, st, x: And(null(e, st), Or(*[x == toz(o) for o in objs])))


def parse_mod(c):
    """nothing at all changes when the file is parsed already"""
    sf = c.args[0].obj
    pre = c.pre
    Q, co = parsed(pre, sf), pre.f(SF, "contents", sf).obj
    null = lambda e, st: Q == 0
    d = dict(ALLOC)
    d["alive"] = when(null, [co])
    for f in ("parsed_language_list", "contents:o", "contents:p", "size", "language:o", "language:p", "language_detected",
              "filenames:o", "filenames:p"):
        d["F:%s.%s" % (SF, f)] = when(null, [sf])
    for f in ["name:o", "name:p", "buffer_size", "code:o", "code:p", "code_p:o", "code_p:p", "code_count", "comments:o",
              "comments:p", "comments_p:o", "comments_p:p", "comments_count", "blanks_count"]:
        d["F:%s.%s" % (PLP, f)] = FRESH
    d["Mi8"] = FRESH
    for m in PL.maps() + PL.ghostmaps() + ["bk:" + PLP, "sd:" + PLP]:
        d[m] = FRESH
    return d


def parse_ens(c):
    sf = c.args[0].obj
    pre, v = c.pre, c.post
    Q0, Q = parsed(pre, sf), parsed(v, sf)
    return ([("there is a parsed list", Q != 0),
             ("a parsed list already there stays", Implies(Q0 != 0, Q == Q0)),
             ("a new parsed list is new", Implies(Q0 == 0, fresh_in(c, Q))),
             ("the contents stay its own", ownbuf(v, sf, "contents")),
             ("the contents are released with a first parse", Implies(Q0 == 0, v.f(SF, "contents", sf).obj == 0))] + plist(v, sf))


def parse_req(c):
    sf = c.args[0].obj
    Q = parsed(c.pre, sf)
    return valid(c) + [(l, Or(Q == 0, g)) for l, g in plist(c.pre, sf)] + [
        ("the contents are not the list", Or(Q == 0, c.pre.f(SF, "contents", sf).obj != Q))]


def ohparse_req(c):
    sf, count, cb, ud = c.args
    v = c.pre
    return [("source file is valid", v.valid(sf.obj, SF)), ("lines are counted", toz(count) != 0),
            ("the counting callback is given", isinstance(cb, FnPtr) and cb.name == "parser_callback"),
            ("the callback is given the file", And(toz(ud.obj) == toz(sf.obj), toz(ud.off) == 0))] + [
            (l, g) for l, g in plist(v, sf.obj)] + [("the parsed list is empty", PL.n(v, parsed(v, sf.obj)) == 0),
            ("its contents are its own", ownbuf(v, sf.obj, "contents"))]


def ohparse_mod(c):
    sf = c.args[0].obj
    pre = c.pre
    Q = parsed(pre, sf)
    d = dict(ALLOC)
    for f in ("contents:o", "contents:p", "size", "language:o", "language:p", "language_detected", "filenames:o", "filenames:p"):
        d["F:%s.%s" % (SF, f)] = OBJ(sf)
    for f in ["name:o", "name:p", "buffer_size", "code:o", "code:p", "code_p:o", "code_p:p", "code_count", "comments:o",
              "comments:p", "comments_p:o", "comments_p:p", "comments_count", "blanks_count"]:
        d["F:%s.%s" % (PLP, f)] = OWN(Q)
    d["Mi8"] = OWN(Q)
    for m in PL.maps() + PL.ghostmaps() + ["bk:" + PLP, "sd:" + PLP]:
        d[m] = OWN(Q)
    for g in ("n:", "N:", "kx:"):
        d[g + PLS] = OBJ(Q)
    return d


def ohparse_ens(c):
    sf = c.args[0].obj
    v = c.post
    x = Const("x?op", I)
    co = v.f(SF, "contents", sf).obj
    return ([("the list is the file's list", parsed(v, sf) == parsed(c.pre, sf)), ("the contents are its own", ownbuf(v, sf, "contents")),
             ("the contents are the file's old ones or new", Or(co == 0, co == c.pre.f(SF, "contents", sf).obj, And(
                 Not(c.pre.alive(co)), v.own(co) == co))),
             ("no language name is stored in the contents", Or(co == 0, names_not_in(v, parsed(v, sf), co)))] + plist(v, sf))


# the callback is the only thing a parser calls (C16), it is called with the entities and ranges parser_callback's contract asks
# for (C16), and it keeps the list (C05); detection and reading the contents leave lists alone
C("ohcount_parse", requires=ohparse_req, ensures=ohparse_ens, modifies=ohparse_mod, trusted=True)

C("ohcount_sourcefile_parse", requires=parse_req, ensures=parse_ens, modifies=parse_mod)


def getp_ens(c):
    return parse_ens(c) + [("the result is the file's parsed list", And(toz(c.ret.obj) == parsed(c.post, c.args[0].obj), c.ret.off == 0))]


C("ohcount_sourcefile_get_parsed_language_list", requires=parse_req, ensures=getp_ens, modifies=parse_mod)


def gl_req(c):
    sf = c.args[0].obj
    L, Q = counted(c.pre, sf), parsed(c.pre, sf)
    return parse_req(c) + [("counted files are parsed", Or(L == 0, Q != 0))] + [
        ("if counted: " + l, Or(L == 0, g)) for l, g in agree(c.pre, sf)]


def gl_ens(c):
    sf = c.args[0].obj
    L0, L = counted(c.pre, sf), counted(c.post, sf)
    Q0, Q = parsed(c.pre, sf), parsed(c.post, sf)
    return ([("the result is the file's count list", And(toz(c.ret.obj) == L, L != 0)),
             ("a count list already there stays", Implies(L0 != 0, L == L0)), ("a new count list is new", Implies(L0 == 0, fresh_in(c, L))),
             ("the file is parsed", Q != 0), ("a parsed list already there stays", Implies(Q0 != 0, Q == Q0))] +
            plist(c.post, sf) + agree(c.post, sf))


def gl_mod(c):
    sf = c.args[0].obj
    L0 = counted(c.pre, sf)
    d = parse_mod(c)
    d["F:%s.loc_list" % SF] = when(lambda e, st: L0 == 0, [sf])
    for f in LL.fields + ["language:o", "language:p"]:
        d["F:Loc.%s" % f] = FRESH
    for m in LL.maps() + LL.ghostmaps():
        d[m] = FRESH
    # the contents, once released, may be given out again
    Q, co = parsed(c.pre, sf), c.pre.f(SF, "contents", sf).obj
    for k in d:
        if d[k] is FRESH:
            d[k] = when(lambda e, st: Q == 0, [co])
        elif k.startswith("F:SourceFile.") and not k.endswith(".loc_list"):
            d[k] = when(lambda e, st: Q == 0, [sf, co])
    return d


def gl_hints(lc):
    e = lc.eng
    ent = V(e, lc.ent)
    sf = toz(e.args[0].obj)
    Q = parsed(ent, sf)
    out = []
    z = Const("z?h", R)
    walk = [k for k in lc.changed_cells() if isinstance(lc.ent.cells[k], Ptr)]
    news = [k for k in lc.all_cells() if isinstance(lc.ent.cells[k], Ptr) and k not in lc.changed_cells()
            and not k[1].endswith(".addr")]
    for k in walk:
        for wn, wf in PL.walked(lc):
            out.append(("%s is a %s of the parsed list" % (k[1], wn), lambda st, k=k, wf=wf: [wf(V(e, st), Q, st.cells[k].obj)]))
    for nl in news:
        out.append(("%s is well formed" % nl[1], lambda st, nl=nl: [g for _, g in LL.wfl(V(e, st), st.cells[nl].obj)]))
        for k in walk:
            def done(st, z, k=k):
                v = V(e, st)
                return And(PL.has(v, Q, z), PL.kx(v, Q, z) < PL.curpos(v, Q, st.cells[k].obj))
            out.append(("languages counted before %s" % k[1], lambda st, k=k, nl=nl, done=done: [
                forkeys(z, LL.has(V(e, st), st.cells[nl].obj, z) == done(st, z, k))]))
            for f, g in PAIRS + [("filecount", None)]:
                def fig(st, nl=nl, k=k, f=f, g=g, done=done):
                    v = V(e, st)
                    return [forkeys(z, LL.cnt(v, st.cells[nl].obj, z, f) == If(done(st, z, k), PL.cnt(v, Q, z, g) if g else 1, 0))]
                out.append(("%s counted before %s" % (f, k[1]), fig))
    return out


C("ohcount_sourcefile_get_loc_list", requires=gl_req, ensures=gl_ens, modifies=gl_mod, hints=gl_hints, opts={"ovf": "assume"})
