"""Contracts of src/sourcefile.c"""
from z3 import And, Or, Not, Implies, ForAll, Select, Store, Const, If, Function
from ovc.sym import *
from ovc.sym import A1, AB, A2, I, B, R
from ovc.contract import *
from ovc import libc
from .lists import ListT
from .loc import fresh_in, forkeys, list_templates, prefix_templates, KEY, LL, DL, PS
from .parsed import PL, MAXBUF, P as PLP

IR = ["sourcefile", "parsed_language", "loc"]
SF = "SourceFile"
FIELDS = ["filepath:o", "filepath:p", "filename:o", "filename:p", "ext:o", "ext:p", "dirpath", "diskpath:o", "diskpath:p",
          "contents:o", "contents:p", "size", "language:o", "language:p", "language_detected", "parsed_language_list",
          "license_list", "loc_list", "filenames:o", "filenames:p"]
CONTRACTS = {}
SPECS = {}


def C(*a, **k):
    c = Contract(*a, **k)
    CONTRACTS[c.name] = c


def sfm(*fs):
    return ["F:%s.%s" % (SF, f) for f in fs]


def ch(v, o, j):
    return Select(Select(v.m("Mi8", A2), toz(o)), toz(j))


def issep(c):
    return Or(c == 47, c == 92)


# ---- ohcount_sourcefile_new (C03) ----------------------------------------------------------------------
def none_in(v, o, lo, hi, pred, nm):
    j = Const("j?" + nm, I)
    a = v.e.let(Select(v.m("Mi8", A2), toz(o)))
    return ForAll([j], Implies(And(toz(lo) <= j, j < toz(hi)), Not(pred(Select(a, j)))), patterns=[Select(a, j)])


def copy_of(v1, b, v0, src, n, nm="cp"):
    """the n bytes at b.obj are those at src, followed by a NUL"""
    j = Const("j?" + nm, I)
    a = v1.e.let(Select(v1.m("Mi8", A2), toz(b)))
    s = Select(v0.m("Mi8", A2), toz(src.obj))
    return And(ForAll([j], Implies(And(0 <= j, j < n), Select(a, j) == Select(s, toz(src.off) + j)), patterns=[Select(a, j)]),
               Select(a, n) == 0)


def new_ens(c):
    v, r = c.post, c.ret.obj
    n = c.pre.slen(c.args[0])
    fp, fn, ex = v.f(SF, "filepath", r), v.f(SF, "filename", r), v.f(SF, "ext", r)
    o = toz(fp.obj)
    f, x = toz(fn.off), toz(ex.off)
    dot = lambda k: k == 46
    return [("result is new", And(fresh_in(c, r), v.typ(r, SF), v.m("heap", AB)[toz(r)], v.own(r) == toz(r))),
            ("the path is a private block", And(fresh_in(c, o), toz(fp.off) == 0, o != toz(r), v.typ(o, "raw:i8"),
                                                v.size(o) == n + 1, v.m("heap", AB)[o], v.own(o) == o)),
            ("the path is an unmodified copy", copy_of(v, o, c.pre, c.args[0], n)),
            ("file name and extension point into the path", And(fn.obj == o, ex.obj == o, 0 <= f, f <= n, f <= x, x <= n)),
            ("the file name starts after a separator or is the whole path", Or(f == 0, issep(ch(v, o, f - 1)))),
            ("the file name contains no separator", none_in(v, o, f, n, issep, "a")),
            ("the extension is the text after the last dot of the file name", Or(
                And(x == n, none_in(v, o, f, n, dot, "b")),
                And(x > f, ch(v, o, x - 1) == 46, none_in(v, o, x, n, dot, "c")))),
            ("the directory length is the position of the last separator", v.f(SF, "dirpath", r) == If(f > 0, f - 1, 0)),
            ("no contents yet", And(v.f(SF, "contents", r).obj == 0, v.f(SF, "contents", r).off == 0, v.f(SF, "size", r) == -1)),
            ("no disk path yet", And(v.f(SF, "diskpath", r).obj == 0, v.f(SF, "diskpath", r).off == 0)),
            ("no language yet", And(v.f(SF, "language", r).obj == 0, v.f(SF, "language", r).off == 0,
                                    v.f(SF, "language_detected", r) == 0)),
            ("no cached results", And(v.f(SF, "parsed_language_list", r) == 0, v.f(SF, "license_list", r) == 0,
                                      v.f(SF, "loc_list", r) == 0, v.f(SF, "filenames", r).obj == 0))]


def new_mod(c):
    d = dict(ALLOC, Mi8=FRESH)
    for m in sfm(*FIELDS):
        d[m] = FRESH
    return d


def new_hints(lc):
    e = lc.eng
    out = []
    n = e.ctx.pre.slen(e.args[0])

    def cand(nm, obj, off):
        for cn, pred in (("separator", issep), ("dot", lambda c: c == 46),
                         ("separator or dot", lambda c: Or(issep(c), c == 46))):
            out.append(("no %s from %s to the end" % (cn, nm), lambda st, pred=pred, obj=obj, off=off: [
                none_in(V(e, st), obj(st), off(st), n, pred, "h")]))
            out.append(("no %s from the file name's start to %s" % (cn, nm), lambda st, pred=pred, obj=obj, off=off: [
                none_in(V(e, st), obj(st), 0, off(st), pred, "h")]))
        out.append(("%s is inside the path" % nm, lambda st, off=off: [And(toz(off(st)) >= 0, toz(off(st)) <= n)]))
    bases = [k for k in lc.all_cells() if isinstance(lc.ent.cells[k], Ptr)]
    for k in lc.changed_cells():
        x = lc.ent.cells[k]
        if isinstance(x, Ptr):
            cand(k[1], lambda st, k=k: st.cells[k].obj, lambda st, k=k: st.cells[k].off)
        elif isc(x) or is_expr(x):
            for w in lc.ent.notes.values():
                pass
            for s in [m for m in lc.ent.maps if m == "F:SourceFile.filepath:o"]:
                for b in bases:
                    cand("%s(%s)" % (k[1], b[1]), lambda st, b=b: e.fld(st, SF, "filepath", st.cells[b].obj).obj,
                         lambda st, k=k: st.cells[k])
    return out


C("ohcount_sourcefile_new", requires=lambda c: [("the path is a string", c.pre.cstr(c.args[0])),
                                                ("of int length", c.pre.slen(c.args[0]) <= MAXBUF)],
  ensures=new_ens, modifies=new_mod, hints=new_hints)


# ---- copies (C04) -----------------------------------------------------------------------------------------
def ownbuf(v, sf, f):
    """the file's buffer in field f: null, or a heap block that starts there"""
    b = v.f(SF, f, sf)
    return Or(And(b.obj == 0, b.off == 0), And(b.obj != 0, b.off == 0, v.alive(b.obj), v.m("heap", AB)[toz(b.obj)],
                                               v.typ(b.obj, "raw:i8")))


def setter(f, sized):
    def req(c):
        sf, t = c.args
        return [("source file is valid", c.pre.valid(sf.obj, SF)), ("its old buffer is its own", ownbuf(c.pre, sf.obj, f)),
                ("the text is a string", c.pre.cstr(t)), ("of int length", c.pre.slen(t) <= MAXBUF),
                ("the text is not the old buffer", toz(t.obj) != toz(c.pre.f(SF, f, sf.obj).obj))]

    def ens(c):
        sf, t = c.args
        v = c.post
        n = c.pre.slen(t)
        b = v.f(SF, f, sf.obj)
        old = c.pre.f(SF, f, sf.obj).obj
        o = [("a private block of the text's length is stored", And(
            fresh_in(c, b.obj), b.off == 0, v.typ(b.obj, "raw:i8"), v.size(b.obj) == n + 1, v.m("heap", AB)[toz(b.obj)])),
             ("it is a complete, NUL-terminated copy", copy_of(v, b.obj, c.pre, t, n)),
             ("the previous one is released", Or(old == 0, Not(v.alive(old))))]
        if sized:
            o.append(("its length is the size", v.f(SF, "size", sf.obj) == n))
        return o

    def mod(c):
        sf = c.args[0].obj
        d = dict(ALLOC, Mi8=FRESH)
        d["alive"] = OBJ(c.pre.f(SF, f, sf).obj)
        for m in sfm(f + ":o", f + ":p", *(["size"] if sized else [])):
            d[m] = OBJ(sf)
        return d
    return dict(requires=req, ensures=ens, modifies=mod)


C("ohcount_sourcefile_set_diskpath", **setter("diskpath", False))
C("ohcount_sourcefile_set_contents", **setter("contents", True))

# files on disk, as the C library shows them: bytes and length are functions of the path
FLEN = Function("file_len", R, I)
FBYTES = Function("file_bytes", R, A1)
OPENS = Function("file_opens", R, B)
READS = Function("file_reads", R, B)      # sizing and reading the file works
LONG_MAX = 2 ** 63 - 1


def s_fopen(e, st, a, where, rt, at):
    s, _ = libc.sidterm(e, st, a[0], where, "fopen path")
    o = e.new_object(st, 1, "FILE")
    m = e.map(st, "fpath", ArraySort(I, R))
    e.setmap(st, "fpath", Store(m, o, s), ("obj", o))
    e.assumed.add("files: a file's bytes and length do not change between opening and reading; it is shorter than 2 GB")
    r = If(OPENS(s), o, 0)
    e.assume(st, And(FLEN(s) >= 0, FLEN(s) <= MAXBUF))
    return Ptr(e.let(r), 0)


def openfile(e, st, p, where, what):
    e.oblige(st, And(toz(p.obj) != 0, e.alive_f(st, p.obj), toz(p.off) == 0), "memory: %s of an open file" % what, where)
    return Select(e.map(st, "fpath", ArraySort(I, R)), toz(p.obj))


def s_fseek(e, st, a, where, rt, at):
    openfile(e, st, a[0], where, "fseek")
    if not (isc(a[1]) and isc(a[2])):
        raise Unsupported("fseek with computed position")
    st.notes["fpos"] = (a[1], a[2])
    r = e.fresh("fseek")
    e.rangefact(st, r, 32)
    return r


def s_rewind(e, st, a, where, rt, at):
    openfile(e, st, a[0], where, "rewind")
    st.notes["fpos"] = (0, 0)
    return None


def s_ftell(e, st, a, where, rt, at):
    s = openfile(e, st, a[0], where, "ftell")
    r = e.fresh("ftell")
    e.rangefact(st, r, 64)
    if st.notes.get("fpos") == (0, 2):
        # at the end: the length, or an error (-1), or what Linux gives for a directory
        e.assume(st, And(Or(r == FLEN(s), r == -1, r == LONG_MAX), Implies(READS(s), r == FLEN(s))))
    return r


def s_fread(e, st, a, where, rt, at):
    d, sz, n, f = a
    s = openfile(e, st, f, where, "fread")
    if isc(n) and n == 1:
        tot, full = sz, 1
    elif isc(sz) and sz == 1:
        tot = full = n
    else:
        raise Unsupported("fread of several items")
    libc.buf(e, st, d, tot, where, "fread destination", True)
    r = e.fresh("fread")
    e.assume(st, And(r >= 0, r <= toz(full), Implies(toz(tot) <= 0, r == 0)))
    ok = st.notes.get("fpos") == (0, 0)
    junk = e.fresh("junk", A1)
    e.assume(st, Implies(And(r == toz(full), toz(tot) > 0), toz(tot) <= FLEN(s)))
    e.assume(st, Implies(And(READS(s), ok, toz(tot) > 0, toz(tot) <= FLEN(s)), r == toz(full)))
    libc.write_range(e, st, d, tot, lambda j: If(And(r == toz(full), ok), Select(FBYTES(s), j - toz(d.off)), Select(junk, j)), "fread")
    st.notes["fpos"] = None
    return r


def s_fclose(e, st, a, where, rt, at):
    openfile(e, st, a[0], where, "fclose")
    al = e.map(st, "alive")
    o = toz(a[0].obj)
    e.setmap(st, "alive", Store(al, o, False), ("obj", o))
    r = e.fresh("fclose")
    e.rangefact(st, r, 32)
    return r


libc.SPECS.update({"fopen": s_fopen, "fseek": s_fseek, "rewind": s_rewind, "ftell": s_ftell, "fread": s_fread, "fclose": s_fclose})


def gc_req(c):
    sf = c.args[0].obj
    v = c.pre
    fp, dp = v.f(SF, "filepath", sf), v.f(SF, "diskpath", sf)
    return [("source file is valid", v.valid(sf, SF)), ("its contents are its own", ownbuf(v, sf, "contents")),
            ("its path is a string", v.cstr(fp)), ("its disk path is null or a string", Or(And(dp.obj == 0, dp.off == 0), v.cstr(dp)))]


def gc_ens(c, cond=True):
    sf = c.args[0].obj
    pre, v = c.pre, c.post
    had = Or(pre.f(SF, "contents", sf).obj != 0, Not(cond) if cond is not True else False)
    b = v.f(SF, "contents", sf)
    n = v.f(SF, "size", sf)
    dp = pre.f(SF, "diskpath", sf)
    path = If(dp.obj == 0, pre.sid(pre.f(SF, "filepath", sf)), pre.sid(dp))
    a = v.e.let(Select(v.m("Mi8", A2), toz(b.obj)))
    j = Const("j?gc", I)
    return [("contents already present stay as they are", Implies(had, And(
                b.obj == pre.f(SF, "contents", sf).obj, b.off == pre.f(SF, "contents", sf).off, n == pre.f(SF, "size", sf)))),
            ("no contents: the size is 0", Implies(And(Not(had), b.obj == 0), And(b.off == 0, n == 0))),
            ("contents read: a private block of the file's size, NUL-terminated", Implies(And(Not(had), b.obj != 0), And(
                fresh_in(c, b.obj), b.off == 0, v.typ(b.obj, "raw:i8"), v.m("heap", AB)[toz(b.obj)], v.own(b.obj) == b.obj,
                OPENS(path), n == FLEN(path), v.size(b.obj) == n + 1, n >= 0, n <= MAXBUF, Select(a, n) == 0))),
            ("a readable file that is not empty is read", Implies(And(Not(had), OPENS(path), READS(path), FLEN(path) > 0), b.obj != 0)),
            ("contents read: exactly the file's bytes", Implies(And(Not(had), b.obj != 0), ForAll([j], Implies(
                And(0 <= j, j < n), Select(a, j) == Select(FBYTES(path), j)), patterns=[Select(a, j)])))]


def gc_mod(c):
    sf = c.args[0].obj
    d = dict(ALLOC, Mi8=FRESH)
    empty = c.pre.f(SF, "contents", sf).obj == 0
    d["fpath"] = FRESH
    for m in sfm("contents:o", "contents:p", "size"):
        d[m] = OBJ(If(empty, toz(sf), 0))
    return d


C("ohcount_sourcefile_get_contents", requires=gc_req, modifies=gc_mod,
  ensures=lambda c: gc_ens(c) + [("the contents are returned", And(
      toz(c.ret.obj) == c.post.f(SF, "contents", c.args[0].obj).obj, toz(c.ret.off) == c.post.f(SF, "contents", c.args[0].obj).off))])


def gs_mod(c):
    d = gc_mod(c)
    sf = c.args[0].obj
    w = And(c.pre.f(SF, "contents", sf).obj == 0, c.pre.f(SF, "size", sf) < 0)
    for m in sfm("contents:o", "contents:p", "size"):
        d[m] = OBJ(If(w, toz(sf), 0))
    return d


C("ohcount_sourcefile_get_contents_size", requires=gc_req, modifies=gs_mod,
  ensures=lambda c: [("the size is returned", toz(c.ret) == c.post.f(SF, "size", c.args[0].obj))] +
  gc_ens(c, c.pre.f(SF, "size", c.args[0].obj) < 0))
