"""Contracts of src/loc.c"""
import z3
from z3 import And, Or, Not, Implies, ForAll, Select, Store, Const, If, Function
from ovc.sym import *
from ovc.sym import A1, AB, A2, I, B, R
from ovc.contract import *
from .lists import ListT

LF = ["code", "comments", "blanks", "filecount"]
DF = ["code_added", "code_removed", "comments_added", "comments_removed", "blanks_added", "blanks_removed"]
LL = ListT("LocListItem", "loc", "Loc", key="language", fields=LF)
DL = ListT("LocDeltaListItem", "delta", "LocDelta", key="language", fields=DF)
NET = {"net_code": ("code_added", "code_removed"), "net_comments": ("comments_added", "comments_removed"),
       "net_blanks": ("blanks_added", "blanks_removed")}


def C(out, *a, **k):
    k["opts"] = dict(k.get("opts") or {}, ovf="assume")      # figures are assumed to fit an int, sums included
    c = Contract(*a, **k)
    out[c.name] = c
    return c


def mods_payload(T, L):
    d = dict(ALLOC)
    for f in T.fields:
        d["F:%s.%s" % (T.P, f)] = OWN(L)
    d["F:%s.language:o" % T.P] = OWN(L)
    d["F:%s.language:p" % T.P] = OWN(L)
    for m in T.maps():
        d[m] = OWN(L)
    d["n:" + T.S] = OBJ(L)
    d["N:" + T.S] = OBJ(L)
    d["kx:" + T.S] = OBJ(L)
    d["pos:" + T.S] = FRESHL(T, L)
    d["back:" + T.S] = OWN(L)
    return d


def FRESHL(T, L):
    return OWN(L)


def fresh_in(c, o):
    """o did not exist before the call, and no object belonged to it"""
    x = Const("x?fr", I)
    return And(Not(c.pre.alive(o)), c.post.alive(o), toz(o) > 0,
               ForAll([x], Implies(c.pre.alive(x), c.pre.own(x) != toz(o)), patterns=[c.pre.own(x)]))


# ---- prefix sums (ghost): PS(T,f)(state of the maps involved, L, i) ---------------------------------
KEY = Function("key", R, B)     # instantiation marker: languages the argument is about


def forkeys(z, body):
    """for all languages z (proved for an arbitrary marker predicate, hence for all z)"""
    return ForAll([z], Implies(KEY(z), body), patterns=[KEY(z)])


def PS(v, T, L, i, fn, nm):
    """sum of fn over the first i entries of L; an uninterpreted function of (n, N, figures) defined by its
    recursion equations, instantiated by ps_axioms for the current state"""
    key = (nm, v.m("N:" + T.S, A2).get_id(), v.m("F:%s.%s" % (T.S, T.pay), A1).get_id()) + tuple(
        v.m("F:%s.%s" % (T.P, f), A1).get_id() for f in T.fields)
    e = v.e
    tab = e.__dict__.setdefault("ps", {})
    if key not in tab:
        g = Function("PS:%s:%d" % (nm, len(tab)), I, I, I)
        tab[key] = (g, v.m("N:" + T.S, A2), [v.m("F:%s.%s" % (T.P, f), A1) for f in T.fields])
        l, j = Const("l?ps", I), Const("j?ps", I)
        ax = [ForAll([l], g(l, 0) == 0, patterns=[g(l, 0)]),
              ForAll([l, j], Implies(j >= 0, g(l, j + 1) == g(l, j) + fn(v, l, j)),
                     patterns=[z3.MultiPattern(g(l, j), T.N(v, l, j))])]
        e.axioms.extend(ax)
    return tab[key][0](toz(L), toz(i))


def figure(T, f):
    return lambda v, L, i: T.at(v, L, i, f)


def total(T):
    return lambda v, L, i: sum([T.at(v, L, i, f) for f in ("code", "comments", "blanks")])


def netf(T, f):
    a, b = NET[f]
    return lambda v, L, i: T.at(v, L, i, a) - T.at(v, L, i, b)


def nettotal(T):
    return lambda v, L, i: sum([T.at(v, L, i, a) - T.at(v, L, i, b) for a, b in NET.values()])


# ---- list-walk templates: for every pointer local x and every list -----------------------------------------
def list_templates(lists):
    """lists: function(engine) -> [(label, ListT, list object)]"""
    def t(lc):
        e = lc.eng
        out = []
        ls = lists(e)
        for k in lc.changed_cells():
            if not isinstance(lc.ent.cells[k], Ptr):
                continue
            for lab, T, L in ls:
                for wn, wf in T.walked(lc):
                    def f(st, k=k, wf=wf, L=L):
                        v = V(e, st)
                        return [wf(v, L, st.cells[k].obj)]
                    out.append(("%s is a %s of %s" % (k[1], wn, lab), f))
        return out
    return t


def prefix_templates(lists, facts):
    """facts(v, T, L, j) -> formula about entry j; candidate: it holds for all entries before the cursor"""
    def t(lc):
        e = lc.eng
        out = []
        for k in lc.changed_cells():
            if not isinstance(lc.ent.cells[k], Ptr):
                continue
            for lab, T, L in lists(e):
                for flab, fn in facts(e):
                    def f(st, k=k, T=T, L=L, fn=fn):
                        v = V(e, st)
                        j = Const("j?p", I)
                        x = st.cells[k].obj
                        return [ForAll([j], Implies(And(0 <= j, j < T.curpos(v, L, x)), fn(v, T, L, j)),
                                       patterns=[T.N(v, L, j)])]
                    out.append(("%s before %s in %s" % (flab, k[1], lab), f))
        return out
    return t


def sum_templates(lists, sums):
    """candidates: an integer local equals the prefix sum up to a cursor"""
    def t(lc):
        e = lc.eng
        out = []
        ints = [k for k in lc.changed_cells() if not isinstance(lc.ent.cells[k], Ptr)]
        for k in lc.changed_cells():
            if not isinstance(lc.ent.cells[k], Ptr):
                continue
            for s in ints:
                for lab, T, L in lists(e):
                    for slab, fn in sums:
                        def f(st, k=k, T=T, L=L, fn=fn, s=s, slab=slab):
                            v = V(e, st)
                            return [toz(st.cells[s]) == PS(v, T, L, T.curpos(v, L, st.cells[k].obj), fn, slab)]
                        out.append(("%s = sum of %s before %s in %s" % (s[1], slab, k[1], lab), f))
        return out
    return t


def build(T):
    out = {}
    dl = T is DL
    pre = "ohcount_loc_delta" if dl else "ohcount_loc"
    LP = pre + "_list"
    Fs = T.fields
    P, S = T.P, T.S

    # record constructor -------------------------------------------------
    def new_ens(c):
        r = c.ret.obj
        q = c.post.f(P, "language", r)
        o = [("result is a new %s" % P, And(fresh_in(c, r), c.post.typ(r, P), c.post.own(r) == toz(r),
                                             c.post.m("heap", AB)[toz(r)])),
             ("language is stored", And(q.obj == toz(c.args[0].obj), q.off == toz(c.args[0].off)))]
        for i, f in enumerate(Fs):
            o.append(("%s is stored" % f, c.post.f(P, f, r) == toz(c.args[1 + i])))
        return o

    def new_mod(c):
        d = dict(ALLOC)
        for f in Fs + ["language:o", "language:p"]:
            d["F:%s.%s" % (P, f)] = FRESH
        return d
    C(out, pre + "_new", ensures=new_ens, modifies=new_mod, requires=lambda c: [])

    def valid1(c, i=0):
        return [("record is valid", c.pre.valid(c.args[i].obj, P))]

    def validk(c, i):
        p = c.args[i].obj
        q = c.pre.f(P, "language", p)
        return [("record %d is valid" % i, c.pre.valid(p, P)), ("its language is a string", c.pre.cstr(q))]

    key = lambda v, p: T.keyof(v, toz(p.obj))
    if not dl:
        C(out, pre + "_total", requires=lambda c: valid1(c),
          ensures=lambda c: [("total = code + comments + blanks", toz(c.ret) == sum(
              [c.pre.f(P, f, c.args[0].obj) for f in ("code", "comments", "blanks")]))], opts={"ovf": "assume"})
    else:
        for nf, (a, b) in NET.items():
            C(out, pre + "_" + nf, requires=lambda c: valid1(c), opts={"ovf": "assume"},
              ensures=lambda c, a=a, b=b: [("net = added - removed", toz(c.ret) == c.pre.f(P, a, c.args[0].obj) -
                                            c.pre.f(P, b, c.args[0].obj))])
        C(out, pre + "_net_total", requires=lambda c: valid1(c), opts={"ovf": "assume"},
          ensures=lambda c: [("net total = sum of the nets", toz(c.ret) == sum(
              [c.pre.f(P, a, c.args[0].obj) - c.pre.f(P, b, c.args[0].obj) for a, b in NET.values()]))])
        C(out, pre + "_is_changed", requires=lambda c: valid1(c),
          ensures=lambda c: [("true iff some figure is non-zero", (toz(c.ret) != 0) == Or(
              *[c.pre.f(P, f, c.args[0].obj) != 0 for f in Fs]))])

    # record addition: same language -> figures added, else nothing
    def addrec_ens(c):
        a, b = c.args
        same = key(c.pre, a) == key(c.pre, b)
        return [("%s added iff the languages are equal" % f,
                 c.post.f(P, f, a.obj) == c.pre.f(P, f, a.obj) + If(same, c.pre.f(P, f, b.obj), 0)) for f in Fs]
    C(out, pre + ("_add_loc_delta" if dl else "_add_loc"), requires=lambda c: validk(c, 0) + validk(c, 1),
      ensures=addrec_ens, modifies=lambda c: {"F:%s.%s" % (P, f): OBJ(c.args[0].obj) for f in Fs},
      opts={"ovf": "assume"})

    C(out, pre + "_is_equal", requires=lambda c: validk(c, 0) + validk(c, 1),
      ensures=lambda c: [("true iff language and all figures are equal", (toz(c.ret) != 0) == And(
          key(c.pre, c.args[0]) == key(c.pre, c.args[1]),
          *[c.pre.f(P, f, c.args[0].obj) == c.pre.f(P, f, c.args[1].obj) for f in Fs]))])

    C(out, pre + "_free", requires=lambda c: [("record is an allocated block", And(
        c.pre.valid(c.args[0].obj, P), c.pre.m("heap", AB)[toz(c.args[0].obj)]))],
      modifies=lambda c: {"alive": STRICT(OBJ(c.args[0].obj))},
      ensures=lambda c: [("the record is freed", Not(c.post.alive(c.args[0].obj)))])

    # list constructor --------------------------------------------------------
    def lnew_ghost(c, st):
        T.init_empty(c.e, st, c.ret.obj)

    def lnew_mod(c):
        d = dict(ALLOC)
        for m in T.maps():
            d[m] = FRESH
        d["n:" + S] = FRESH
        return d
    C(out, LP + "_new", modifies=lnew_mod, ghost=lnew_ghost,
      ensures=lambda c: [("result is new", fresh_in(c, c.ret.obj)), ("it is empty", T.n(c.post, c.ret.obj) == 0),
                         ("its links are null", And(T.payload(c.post, c.ret.obj) == 0,
                                                    T.next(c.post, c.ret.obj) == 0,
                                                    T.head(c.post, c.ret.obj) == 0)),
                         ] + T.wfl(c.post, c.ret.obj, "result"))

    lists1 = lambda e: [("list", T, e.args[0].obj)]

    # lookup --------------------------------------------------------------------
    def get_ens(c):
        L = c.args[0].obj
        k = SID(Select(c.pre.m("Mi8", A2), toz(c.args[1].obj)), toz(c.args[1].off))
        r = toz(c.ret.obj)
        return [("a hit is the entry of that language", Implies(r != 0, And(
                    T.has(c.pre, L, k), r == T.payload(c.pre, T.N(c.pre, L, T.kx(c.pre, L, k))),
                    T.keyof(c.pre, r) == k))),
                ("a miss means the language is absent", Implies(r == 0, Not(T.has(c.pre, L, k))))]

    def differs(e):
        a = e.args[1]

        def fn(v, T, L, j):
            if "record" in e.__dict__:
                pass
            return T.lang(v, L, j) != SID(Select(v.m("Mi8", A2), toz(a.obj)), toz(a.off))
        return [("language differs", fn)]

    C(out, LP + ("_get_loc_delta" if dl else "_get_loc"),
      requires=lambda c: T.wfl(c.pre, c.args[0].obj) + [("language is a string", c.pre.cstr(c.args[1]))],
      ensures=get_ens,
      hints=lambda lc: list_templates(lists1)(lc) + prefix_templates(lists1, differs)(lc))

    # insertion ---------------------------------------------------------------------
    def add_req(c):
        L, p = c.args
        return T.wfl(c.pre, L.obj) + validk(c, 1) + [
            ("its language is not stored in the list itself",
             c.pre.own(c.pre.f(P, "language", p.obj).obj) != toz(L.obj))]

    def add_ens(c):
        L, p = toz(c.args[0].obj), c.args[1]
        k = key(c.pre, p)
        was = T.has(c.pre, L, k)
        n0 = T.n(c.pre, L)
        i = Const("i?a", I)
        z = Const("z?a", R)
        o = T.wfl(c.post, L, "list")
        o += [("an entry is added iff the language is new", T.n(c.post, L) == n0 + If(was, 0, 1)),
              ("existing entries stay in place", ForAll([i], Implies(And(0 <= i, i < n0), And(
                  T.N(c.post, L, i) == T.N(c.pre, L, i),
                  T.payload(c.post, T.N(c.post, L, i)) == T.payload(c.pre, T.N(c.pre, L, i)),
                  T.lang(c.post, L, i) == T.lang(c.pre, L, i))), patterns=[T.N(c.post, L, i)])),
              ("the language is present afterwards", And(T.has(c.post, L, k), T.kx(c.post, L, k) ==
                                                         If(was, T.kx(c.pre, L, k), n0))),
              ("no other language appears or disappears", forkeys(z, Implies(z != k, And(
                  T.has(c.post, L, z) == T.has(c.pre, L, z),
                  Implies(T.has(c.pre, L, z), T.kx(c.post, L, z) == T.kx(c.pre, L, z))))))]
        for f in Fs:
            o.append(("%s: that language gains exactly the added figure" % f,
                      T.cnt(c.post, L, k, f) == T.cnt(c.pre, L, k, f) + c.pre.f(P, f, p.obj)))
            o.append(("%s: no other language's figure changes" % f, forkeys(z, Implies(
                z != k, T.cnt(c.post, L, z, f) == T.cnt(c.pre, L, z, f)))))
            o.append(("%s: every other entry is unchanged" % f, ForAll([i], Implies(
                And(0 <= i, i < n0, T.lang(c.pre, L, i) != k),
                T.at(c.post, L, i, f) == T.at(c.pre, L, i, f)), patterns=[T.N(c.post, L, i)])))
        return o

    def add_ghost(c, st):
        T.ghost_append(c, st, c.args[0].obj)

    def differs_add(e):
        a = e.args[1]

        def fn(v, T, L, j):
            return T.lang(v, L, j) != T.keyof(V(e, e.ctx.pre.st), a.obj)
        return [("language differs", fn)]
    C(out, LP + ("_add_loc_delta" if dl else "_add_loc"), requires=add_req, ensures=add_ens, ghost=add_ghost,
      modifies=lambda c: mods_payload(T, c.args[0].obj), opts={"ovf": "assume"},
      hints=lambda lc: list_templates(lists1)(lc) + prefix_templates(lists1, differs_add)(lc))

    # adding a whole list -----------------------------------------------------------------
    def addl_req(c):
        L, O = c.args[0].obj, c.args[1].obj
        i = Const("i?r", I)
        q = c.pre.f(P, "language", T.payload(c.pre, T.N(c.pre, O, i)))
        return T.wfl(c.pre, L) + T.wfl(c.pre, O, "other") + [
            ("the lists are different", toz(L) != toz(O)),
            ("other's languages are not stored in list", ForAll([i], Implies(
                And(0 <= i, i < T.n(c.pre, O)), c.pre.own(q.obj) != toz(L)), patterns=[T.N(c.pre, O, i)]))]

    def addl_ens(c):
        L, O = toz(c.args[0].obj), toz(c.args[1].obj)
        z = Const("z?l", R)
        o = T.wfl(c.post, L, "list")
        o.append(("languages are the union", forkeys(z, T.has(c.post, L, z) == Or(
            T.has(c.pre, L, z), T.has(c.pre, O, z)))))
        for f in Fs:
            o.append(("%s: per-language sums" % f, forkeys(z, T.cnt(c.post, L, z, f) ==
                                                          T.cnt(c.pre, L, z, f) + T.cnt(c.pre, O, z, f))))
        return o

    def addl_hints(lc):
        e = lc.eng
        L, O = toz(e.args[0].obj), toz(e.args[1].obj)
        p = V(e, e.ctx.pre.st)
        out = list_templates(lambda e: [("other", T, O)])(lc)
        out.append(("list is well formed", lambda st: [g for _, g in T.wfl(V(e, st), L)]))
        z = Const("z?h", R)
        for k in lc.changed_cells():
            if not isinstance(lc.ent.cells[k], Ptr):
                continue

            def done(st, z, k=k):
                return And(T.has(p, O, z), T.kx(p, O, z) < T.curpos(V(e, st), O, st.cells[k].obj))
            out.append(("languages seen before %s" % k[1], lambda st, k=k: [
                forkeys(z, T.has(V(e, st), L, z) == Or(T.has(p, L, z), done(st, z, k)))]))
            for f in Fs:
                out.append(("%s summed before %s" % (f, k[1]), lambda st, k=k, f=f: [
                    forkeys(z, T.cnt(V(e, st), L, z, f) == T.cnt(p, L, z, f) + If(done(st, z, k), T.cnt(p, O, z, f), 0))]))
        return out
    C(out, LP + ("_add_loc_delta_list" if dl else "_add_loc_list"), requires=addl_req, ensures=addl_ens,
      modifies=lambda c: mods_payload(T, c.args[0].obj), hints=addl_hints)

    # sums ---------------------------------------------------------------------------------
    sums = [(f, figure(T, f)) for f in Fs]
    if not dl:
        sums.append(("total", total(T)))
    else:
        sums += [(f, netf(T, f)) for f in NET] + [("net_total", nettotal(T))]
    for nm, fn in sums:
        C(out, LP + "_" + nm, requires=lambda c: T.wfl(c.pre, c.args[0].obj),
          ensures=lambda c, nm=nm, fn=fn: [("result is the sum of %s over the entries" % nm, toz(c.ret) == PS(
              c.pre, T, c.args[0].obj, T.n(c.pre, c.args[0].obj), fn, nm))],
          hints=lambda lc, nm=nm, fn=fn: list_templates(lists1)(lc) + sum_templates(lists1, [(nm, fn)])(lc),
          opts={"ovf": "assume"})

    # compaction --------------------------------------------------------------------------------
    def keepf(v, L, z):
        x = T.kx(v, L, z)
        if dl:
            return Or(*[T.at(v, L, x, f) != 0 for f in Fs])
        return total(T)(v, L, x) != 0

    def comp_ens(c):
        L, r = toz(c.args[0].obj), toz(c.ret.obj)
        z = Const("z?c", R)
        o = [("result is new", fresh_in(c, r))] + T.wfl(c.post, r, "result")
        o.append(("exactly the languages with a non-zero %s are kept" % ("figure" if dl else "total"), forkeys(z, T.has(c.post, r, z) == And(T.has(c.pre, L, z), keepf(c.pre, L, z)))))
        for f in Fs:
            o.append(("%s: kept unchanged" % f, forkeys(z, Implies(T.has(c.post, r, z), T.at(
                c.post, r, T.kx(c.post, r, z), f) == T.at(c.pre, L, T.kx(c.pre, L, z), f)))))
        return o

    def comp_hints(lc):
        e = lc.eng
        L = toz(e.args[0].obj)
        p = V(e, e.ctx.pre.st)
        out = list_templates(lists1)(lc)
        z = Const("z?h", R)
        news = [k for k in lc.all_cells() if isinstance(lc.ent.cells[k], Ptr) and k not in lc.changed_cells()
                and not (is_expr(lc.ent.cells[k].obj) and lc.ent.cells[k].obj.eq(L))]
        for nl in news:
            out.append(("%s is well formed" % nl[1], lambda st, nl=nl: [g for _, g in T.wfl(V(e, st), st.cells[nl].obj)]))
            for k in lc.changed_cells():
                if not isinstance(lc.ent.cells[k], Ptr):
                    continue

                def done(st, z, k=k):
                    return And(T.has(p, L, z), T.kx(p, L, z) < T.curpos(V(e, st), L, st.cells[k].obj),
                               keepf(p, L, z))
                out.append(("languages kept before %s" % k[1], lambda st, k=k, nl=nl: [
                    forkeys(z, T.has(V(e, st), st.cells[nl].obj, z) == done(st, z, k))]))
                for f in Fs:
                    out.append(("%s kept before %s" % (f, k[1]), lambda st, k=k, f=f, nl=nl: [
                        forkeys(z, Implies(T.has(V(e, st), st.cells[nl].obj, z), T.at(V(e, st), st.cells[nl].obj, T.kx(V(e, st), st.cells[nl].obj, z), f) == T.at(p, L, T.kx(p, L, z), f)))]))
        return out

    def comp_mod(c):
        d = dict(ALLOC)
        for f in T.fields + ["language:o", "language:p"]:
            d["F:%s.%s" % (P, f)] = FRESH
        for m in T.maps():
            d[m] = FRESH
        for m in T.ghostmaps():
            d[m] = FRESH
        return d
    C(out, LP + "_new_compact", requires=lambda c: T.wfl(c.pre, c.args[0].obj), ensures=comp_ens,
      modifies=comp_mod, hints=comp_hints)

    # release --------------------------------------------------------------------------------------
    def free_ens(c):
        L = toz(c.args[0].obj)
        i = Const("i?f", I)
        n = T.n(c.pre, L)
        d = T.N(c.pre, L, i)
        return [("the list object is freed", Not(c.post.alive(L))),
                ("every node and record is freed", ForAll([i], Implies(And(0 <= i, i < n), And(
                    Not(c.post.alive(d)), Not(c.post.alive(T.payload(c.pre, d))))), patterns=[d]))]

    def free_hints(lc):
        e = lc.eng
        L = toz(e.args[0].obj)
        p = V(e, e.ctx.pre.st)
        out = []
        i = Const("i?fh", I)
        for k in lc.changed_cells():
            if not isinstance(lc.ent.cells[k], Ptr):
                continue
            for wn, wf in T.walked(lc):
                out.append(("%s is a %s" % (k[1], wn), lambda st, k=k, wf=wf: [wf(p, L, st.cells[k].obj)]))
            out.append(("nodes before %s are freed" % k[1], lambda st, k=k: [ForAll([i], Implies(
                And(0 <= i, i < T.curpos(p, L, st.cells[k].obj)), And(
                    Not(V(e, st).alive(T.N(p, L, i))), Not(V(e, st).alive(T.payload(p, T.N(p, L, i)))))),
                patterns=[T.N(p, L, i)])]))
            out.append(("nodes from %s on are live" % k[1], lambda st, k=k: [ForAll([i], Implies(
                And(i < T.n(p, L), i >= T.curpos(p, L, st.cells[k].obj)), And(
                    V(e, st).alive(T.N(p, L, i)), V(e, st).alive(T.payload(p, T.N(p, L, i))))),
                patterns=[T.N(p, L, i)])]))
        return out
    C(out, LP + "_free", requires=lambda c: T.wfl(c.pre, c.args[0].obj), ensures=free_ens,
      modifies=lambda c: {"alive": STRICT(OWN(c.args[0].obj))}, hints=free_hints,
      opts={"owners": lambda lc: [("the list", lc.eng.args[0].obj)]})
    return out


CONTRACTS = {}
CONTRACTS.update(build(LL))
CONTRACTS.update(build(DL))
LISTS = [LL, DL]
