"""Contracts of src/parsed_language.c and of parser_callback (src/sourcefile.c)"""
from z3 import And, Or, Not, Implies, ForAll, Select, Store, Const, If, Function
from ovc.sym import *
from ovc.sym import A1, AB, A2, I, B, R
from ovc.contract import *
from ovc import libc
from .lists import ListT
from .loc import fresh_in, forkeys, list_templates, prefix_templates, KEY

IR = ["parsed_language", "sourcefile", "loc"]
P, S = "ParsedLanguage", "ParsedLanguageListItem"
MAXBUF = 2 ** 31 - 16          # buffer_size + 5 must not overflow int
SIDES = [("code", 0), ("comments", 1)]


def bk(v, o):
    return Select(v.m("bk:" + P, A1), toz(o))


def sd(v, o):
    return Select(v.m("sd:" + P, A1), toz(o))


def plinv(v, p):
    """the two text buffers of a parsed language"""
    bs = v.f(P, "buffer_size", p)
    out = [bs >= 0, bs <= MAXBUF]
    for f, s in SIDES:
        c, q = v.f(P, f, p), v.f(P, f + "_p", p)
        out += [c.obj != 0, c.off == 0, v.alive(c.obj), v.typ(c.obj, "raw:i8"), v.m("heap", AB)[toz(c.obj)],
                v.size(c.obj) == bs + 5, bk(v, c.obj) == toz(p), sd(v, c.obj) == s,
                q.obj == c.obj, q.off >= 0, q.off <= bs + 4,
                Select(Select(v.m("Mi8", A2), toz(c.obj)), q.off) == 0]
    return out


def payinv(v, p, L):
    return plinv(v, p) + [v.own(v.f(P, f, p).obj) == toz(L) for f, s in SIDES]


PL = ListT(S, "pl", P, key="name", fields=["code_count", "comments_count", "blanks_count"], payinv=payinv)
PF = ["name:o", "name:p", "buffer_size", "code:o", "code:p", "code_p:o", "code_p:p", "code_count", "comments:o",
      "comments:p", "comments_p:o", "comments_p:p", "comments_count", "blanks_count"]
CONTRACTS = {}


def C(*a, **k):
    c = Contract(*a, **k)
    CONTRACTS[c.name] = c


# ---- text skipping -----------------------------------------------------------------------------------
SKIP = Function("skip", A1, I, I, I)     # first position >= start that is not a space or tab, at most end


def skip_def(e, a, s, t):
    key = ("skip", a.get_id(), s.get_id(), t.get_id())
    if key in e.slens:
        return SKIP(a, s, t)
    e.slens[key] = (a, s, t)
    k = SKIP(a, s, t)
    j = Const("j?sk", I)
    bl = lambda x: Or(x == 32, x == 9)
    e.axioms += [Implies(s <= t, And(s <= k, k <= t)), Or(k >= t, Not(bl(Select(a, k)))),
                 ForAll([j], Implies(And(s <= j, j < k), bl(Select(a, j))), patterns=[Select(a, j)])]
    return k


# ---- parsed_language.c ----------------------------------------------------------------------------------
def new_ens(c):
    r = c.ret.obj
    q = c.post.f(P, "name", r)
    o = [("result is new", And(fresh_in(c, r), c.post.typ(r, P), c.post.own(r) == toz(r), c.post.m("heap", AB)[toz(r)])),
         ("the name is stored", And(q.obj == toz(c.args[0].obj), q.off == toz(c.args[0].off))),
         ("the buffer size is stored", c.post.f(P, "buffer_size", r) == toz(c.args[1])),
         ("no lines yet", And(*[c.post.f(P, f, r) == 0 for f in PL.fields])),
         ("its buffers are sound", And(*plinv(c.post, r)))]
    for f, s in SIDES:
        b = c.post.f(P, f, r).obj
        o += [("%s buffer is new" % f, And(fresh_in(c, b), c.post.own(b) == b)),
              ("%s text is empty" % f, And(c.post.f(P, f + "_p", r).off == 0,
                                           Select(Select(c.post.m("Mi8", A2), b), 0) == 0))]
    return o


def new_ghost(c, st):
    e = c.e
    v = V(e, st)
    for m in ("bk:" + P, "sd:" + P):
        e.map_sorts[m] = A1
    for f, s in SIDES:
        b = toz(v.f(P, f, c.ret.obj).obj)
        e.setmap(st, "bk:" + P, Store(e.map(st, "bk:" + P, A1), b, toz(c.ret.obj)), ("obj", b))
        e.setmap(st, "sd:" + P, Store(e.map(st, "sd:" + P, A1), b, IntVal(s)), ("obj", b))


def new_mod(c):
    d = dict(ALLOC, Mi8=FRESH)
    for f in PF:
        d["F:%s.%s" % (P, f)] = FRESH
    d["bk:" + P] = d["sd:" + P] = FRESH
    return d


C("ohcount_parsed_language_new", ensures=new_ens, ghost=new_ghost, modifies=new_mod,
  requires=lambda c: [("the buffer size is a size", And(toz(c.args[1]) >= 0, toz(c.args[1]) <= MAXBUF))])


def addtext(side):
    def req(c):
        p, t, n = c.args
        pl = p.obj
        b = c.pre.f(P, side, pl).obj
        return [("parsed language is valid", c.pre.valid(pl, P)), ("its buffers are sound", And(*plinv(c.pre, pl))),
                ("the text is readable", And(toz(n) >= 0, toz(t.obj) != 0, c.pre.alive(t.obj), c.pre.typ(t.obj, "raw:i8"),
                                             toz(t.off) >= 0, toz(t.off) + toz(n) <= c.pre.size(t.obj))),
                ("the text is not in the buffer itself", toz(t.obj) != toz(b))]

    def ens(c):
        p, t, n = c.args
        pl = p.obj
        n = toz(n)
        b = toz(c.pre.f(P, side, pl).obj)
        o0 = toz(c.pre.f(P, side + "_p", pl).off)
        fits = o0 + n < c.pre.f(P, "buffer_size", pl) + 5
        q1 = c.post.f(P, side + "_p", pl)
        j = Const("j?at", I)
        a0, a1 = Select(c.pre.m("Mi8", A2), b), c.e.let(Select(c.post.m("Mi8", A2), b))
        src = Select(c.pre.m("Mi8", A2), toz(t.obj))
        sl = c.pre.slen(t)
        return [("the line is counted iff its text fits", c.post.f(P, side + "_count", pl) ==
                 c.pre.f(P, side + "_count", pl) + If(fits, 1, 0)),
                ("the text end moves by the length iff it fits", And(q1.obj == b, q1.off == o0 + If(fits, n, 0))),
                ("the text before is kept", ForAll([j], Implies(And(0 <= j, j < o0), Select(a1, j) == Select(a0, j)),
                                                   patterns=[Select(a1, j)])),
                ("the text is appended", Implies(fits, ForAll([j], Implies(
                    And(o0 <= j, j < o0 + n), Select(a1, j) == If(Or(sl == -1, j - o0 < sl), Select(
                        src, j - o0 + toz(t.off)), 0)), patterns=[Select(a1, j)]))),
                ("its buffers stay sound", And(*plinv(c.post, pl)))]

    def mod(c):
        pl = c.args[0].obj
        return {"F:%s.%s_count" % (P, side): OBJ(pl), "F:%s.%s_p:o" % (P, side): OBJ(pl),
                "F:%s.%s_p:p" % (P, side): OBJ(pl), "Mi8": OBJ(c.pre.f(P, side, pl).obj)}
    return dict(requires=req, ensures=ens, modifies=mod, opts={"ovf": "assume"})


C("ohcount_parsed_language_add_code", **addtext("code"))
C("ohcount_parsed_language_add_comment", **addtext("comments"))


def pfree_req(c):
    p = c.args[0].obj
    return [("record is an allocated block", And(c.pre.valid(p, P), c.pre.m("heap", AB)[toz(p)])),
            ("its buffers are sound", And(*plinv(c.pre, p)))]


def freed(c, *os):
    return And(*[Not(c.post.alive(o)) for o in os])


C("ohcount_parsed_language_free", requires=pfree_req,
  modifies=lambda c: {"alive": STRICT(OBJ(c.args[0].obj, *[c.pre.f(P, f, c.args[0].obj).obj for f, s in SIDES]))},
  ensures=lambda c: [("the record and its buffers are freed", freed(
      c, c.args[0].obj, *[c.pre.f(P, f, c.args[0].obj).obj for f, s in SIDES]))])


def lnew_mod(c):
    d = dict(ALLOC)
    for m in PL.maps():
        d[m] = FRESH
    d["n:" + S] = FRESH
    return d


C("ohcount_parsed_language_list_new", modifies=lnew_mod, ghost=lambda c, st: PL.init_empty(c.e, st, c.ret.obj),
  ensures=lambda c: [("result is new", fresh_in(c, c.ret.obj)), ("it is empty", PL.n(c.post, c.ret.obj) == 0),
                     ("its links are null", And(PL.payload(c.post, c.ret.obj) == 0, PL.next(c.post, c.ret.obj) == 0,
                                                PL.head(c.post, c.ret.obj) == 0))] + PL.wfl(c.post, c.ret.obj, "result"))


def lfree_ens(c):
    L = toz(c.args[0].obj)
    i = Const("i?f", I)
    d = PL.N(c.pre, L, i)
    p = PL.payload(c.pre, d)
    return [("the list object is freed", Not(c.post.alive(L))),
            ("every node, record and buffer is freed", ForAll([i], Implies(And(0 <= i, i < PL.n(c.pre, L)), freed(
                c, d, p, *[c.pre.f(P, f, p).obj for f, s in SIDES])), patterns=[d]))]


def lfree_hints(lc):
    e = lc.eng
    L = toz(e.args[0].obj)
    p = V(e, e.ctx.pre.st)
    out = []
    i = Const("i?fh", I)
    d = PL.N(p, L, i)
    pl = PL.payload(p, d)
    os = [d, pl] + [p.f(P, f, pl).obj for f, s in SIDES]
    for k in lc.changed_cells():
        if not isinstance(lc.ent.cells[k], Ptr):
            continue
        for wn, wf in PL.walked(lc):
            out.append(("%s is a %s" % (k[1], wn), lambda st, k=k, wf=wf: [wf(p, L, st.cells[k].obj)]))
        out.append(("nodes before %s are freed" % k[1], lambda st, k=k: [ForAll([i], Implies(
            And(0 <= i, i < PL.curpos(p, L, st.cells[k].obj)), And(*[Not(V(e, st).alive(o)) for o in os])), patterns=[d])]))
        out.append(("nodes from %s on are live" % k[1], lambda st, k=k: [ForAll([i], Implies(
            And(i < PL.n(p, L), i >= PL.curpos(p, L, st.cells[k].obj)), And(*[V(e, st).alive(o) for o in os])),
            patterns=[d])]))
    return out


C("ohcount_parsed_language_list_free", requires=lambda c: PL.wfl(c.pre, c.args[0].obj), ensures=lfree_ens,
  modifies=lambda c: {"alive": STRICT(OWN(c.args[0].obj))}, hints=lfree_hints,
  opts={"owners": lambda lc: [("the list", lc.eng.args[0].obj)]})


# ---- parser_callback ------------------------------------------------------------------------------------
def sfcontents(v, sf):
    c = v.f("SourceFile", "contents", sf)
    n = v.f("SourceFile", "size", sf)
    return [("contents are a buffer of the recorded size", And(
        c.obj != 0, c.off == 0, v.alive(c.obj), v.typ(c.obj, "raw:i8"), n >= 0, n <= MAXBUF, v.size(c.obj) >= n + 1))]


def cb_list(v, sf):
    return v.f("SourceFile", "parsed_language_list", sf)


def cb_req(c):
    lang, ent, s, t, sf = c.args
    sf = sf.obj
    L = cb_list(c.pre, sf)
    return ([("userdata is the source file", And(c.pre.valid(sf, "SourceFile"), toz(c.args[4].off) == 0))] + sfcontents(c.pre, sf) +
            PL.wfl(c.pre, L, "the parsed language list") +
            [("language is a string", c.pre.cstr(lang)), ("entity is a string", c.pre.cstr(ent)),
             ("the language is not stored in the list itself", c.pre.own(lang.obj) != toz(L)),
             ("the contents are not stored in the list", c.pre.own(c.pre.f("SourceFile", "contents", sf).obj) != toz(L)),
             ("the range lies in the contents", And(0 <= toz(s), toz(s) <= toz(t), toz(t) <= c.pre.f("SourceFile", "size", sf)))])


def cb_ens(c):
    lang, ent, s, t, sf = c.args
    sf, s, t = sf.obj, toz(s), toz(t)
    pre, post, e = c.pre, c.post, c.e
    L = toz(cb_list(pre, sf))
    k = pre.sid(lang)
    en = pre.sid(ent)
    was = PL.has(pre, L, k)
    n0 = PL.n(pre, L)
    x0 = PL.kx(pre, L, k)
    x = If(was, x0, n0)
    z, i, j = Const("z?cb", R), Const("i?cb", I), Const("j?cb", I)
    cont = Select(pre.m("Mi8", A2), toz(pre.f("SourceFile", "contents", sf).obj))
    q = skip_def(e, cont, s, t)
    ln = t - q
    e.slen_def(cont, q)
    sl = SLEN(cont, q)
    pl1 = PL.payload(post, PL.N(post, L, PL.kx(post, L, k)))
    pl0 = PL.payload(pre, PL.N(pre, L, x0))
    o = [("the list is the file's list", cb_list(post, sf) == L)] + PL.wfl(post, L, "list")
    o += [("an entry is added iff the language is new", PL.n(post, L) == n0 + If(was, 0, 1)),
          ("existing entries stay in place, new ones go to the end", ForAll([i], Implies(And(0 <= i, i < n0), And(
              PL.N(post, L, i) == PL.N(pre, L, i),
              PL.payload(post, PL.N(post, L, i)) == PL.payload(pre, PL.N(pre, L, i)),
              PL.lang(post, L, i) == PL.lang(pre, L, i))), patterns=[PL.N(post, L, i)])),
          ("the language is present afterwards", And(PL.has(post, L, k), PL.kx(post, L, k) == x)),
          ("no other language appears or disappears", forkeys(z, Implies(z != k, And(
              PL.has(post, L, z) == PL.has(pre, L, z),
              Implies(PL.has(pre, L, z), PL.kx(post, L, z) == PL.kx(pre, L, z)))))),
          ("blank lines: counted for that language iff the entity is lblank",
           PL.cnt(post, L, k, "blanks_count") == PL.cnt(pre, L, k, "blanks_count") +
           If(en == libc.sidconst(e, b"lblank"), 1, 0))]
    bs = If(was, pre.f(P, "buffer_size", pl0), pre.f("SourceFile", "size", sf))
    for f, side in SIDES:
        is_ = en == libc.sidconst(e, b"lcode" if f == "code" else b"lcomment")
        o0 = If(was, toz(pre.f(P, f + "_p", pl0).off), 0)
        hit = And(is_, o0 + ln < bs + 5)
        b1 = toz(post.f(P, f, pl1).obj)
        a1 = e.let(Select(post.m("Mi8", A2), b1))
        a0 = Select(pre.m("Mi8", A2), toz(pre.f(P, f, pl0).obj))
        o += [("%s lines: counted for that language iff the entity says so and the text fits" % f,
               PL.cnt(post, L, k, f + "_count") == PL.cnt(pre, L, k, f + "_count") + If(hit, 1, 0)),
              ("%s text grows by the line without leading blanks" % f, post.f(P, f + "_p", pl1).off == o0 + If(hit, ln, 0)),
              ("%s text before is kept" % f, Implies(was, ForAll([j], Implies(
                  And(0 <= j, j < o0), Select(a1, j) == Select(a0, j)), patterns=[Select(a1, j)]))),
              ("%s text is the line without leading blanks" % f, Implies(hit, ForAll([j], Implies(
                  And(o0 <= j, j < o0 + ln), Select(a1, j) == If(Or(sl == -1, j - o0 < sl), Select(cont, j - o0 + q), 0)),
                  patterns=[Select(a1, j)]))),
              ("%s text is NUL-terminated" % f, Select(a1, toz(post.f(P, f + "_p", pl1).off)) == 0)]
    for f in PL.fields:
        o.append(("%s: no other language's figure changes" % f, forkeys(z, Implies(
            z != k, PL.cnt(post, L, z, f) == PL.cnt(pre, L, z, f)))))
    for f, side in SIDES:
        p_ = PL.payload(pre, PL.N(pre, L, i))
        b = toz(pre.f(P, f, p_).obj)
        o.append(("%s: no other language's text changes" % f, ForAll([i], Implies(
            And(0 <= i, i < n0, PL.lang(pre, L, i) != k), And(
                Select(post.m("Mi8", A2), b) == Select(pre.m("Mi8", A2), b),
                post.f(P, f, p_).obj == b, post.f(P, f + "_p", p_).off == pre.f(P, f + "_p", p_).off)),
            patterns=[PL.N(post, L, i)])))
    return o


def cb_ghost(c, st):
    e = c.e
    L = toz(cb_list(c.pre, c.args[4].obj))
    pre, v = c.pre, V(e, st)
    n0 = PL.n(pre, L)
    t1 = PL.tail(v, L)
    grew = And(PL.head(v, L) != 0, Or(n0 == 0, t1 != PL.tail(pre, L)))
    p = PL.payload(v, t1)
    PL.push(e, st, L, n0, t1, grew)
    for f, s in SIDES:
        b = toz(v.f(P, f, p).obj)
        old = e.map(st, "own")
        e.setmap(st, "own", If(grew, Store(old, b, L), old), ("obj", b))


def cb_mod(c):
    L = cb_list(c.pre, c.args[4].obj)
    d = dict(ALLOC)
    for f in PF:
        d["F:%s.%s" % (P, f)] = OWN(L)
    d["Mi8"] = OWN(L)
    for m in PL.maps():
        d[m] = OWN(L)
    for g in ("n:", "N:", "kx:"):
        d[g + S] = OBJ(L)
    for g in ("pos:" + S, "back:" + S, "bk:" + P, "sd:" + P):
        d[g] = OWN(L)
    return d


def cb_hints(lc):
    e = lc.eng
    p = V(e, e.ctx.pre.st)
    L = toz(cb_list(p, e.args[4].obj))
    ls = lambda e: [("the list", PL, L)]

    def differs(e):
        return [("language differs", lambda v, T, L, j: T.lang(v, L, j) != p.sid(e.args[0]))]
    out = list_templates(ls)(lc) + prefix_templates(ls, differs)(lc)
    co = p.f("SourceFile", "contents", e.args[4].obj).obj
    q = skip_def(e, Select(p.m("Mi8", A2), toz(co)), toz(e.args[2]), toz(e.args[3]))
    for k in lc.changed_cells():
        v = lc.ent.cells[k]
        if isinstance(v, Ptr):
            out.append(("%s is at or before the first non-blank" % k[1], lambda st, k=k: [
                And(toz(st.cells[k].obj) == toz(co), toz(st.cells[k].off) <= q, toz(st.cells[k].off) >= toz(e.args[2]))]))
        elif is_expr(v) or isc(v):
            out.append(("%s is at or before the first non-blank" % k[1], lambda st, k=k: [
                And(toz(st.cells[k]) <= q, toz(st.cells[k]) >= toz(e.args[2]))]))
    return out


C("parser_callback", requires=cb_req, ensures=cb_ens, ghost=cb_ghost, modifies=cb_mod, hints=cb_hints, opts={"ovf": "assume"})
