"""Specifications (trusted) of the C library functions the code calls."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, Select, Store, Const, If, is_expr, IntVal
from .sym import *
from .sym import A1, AB, A2, I, B, R


def strfacts(e, st, p):
    """definition of slen at p, as facts; returns (arr, off, n)"""
    if p.tag and p.tag[0] == "glob":
        b = e.prog.gbytes(p.tag[1])
        if b is not None and isc(p.off):
            k = b.index(0, p.off)
            return None, p.off, k - p.off
    a = e.arr8(st, p.obj)
    off = toz(p.off)
    e.slen_def(a, off)
    n = SLEN(a, off)
    return a, off, n


def need_cstr(e, st, p, where, what):
    if not isinstance(p, Ptr):
        raise Unsupported("string argument")
    a, off, n = strfacts(e, st, p)
    if a is None:
        return a, off, n
    if not e.opts.get("nomem"):
        e.settype(st, p.obj, "raw:i8")
        sz = Select(e.map(st, "size"), toz(p.obj))
        ty = Select(e.map(st, "typ"), toz(p.obj))
        e.oblige(st, And(e.alive_f(st, p.obj), off >= 0, n >= 0, off + n < sz, ty == e.prog.typeid("raw:i8")),
                 "memory: %s is a NUL-terminated string" % what, where)
    else:
        e.assume(st, n >= 0)
    return a, off, n


def strconst(e, p):
    if isinstance(p, Ptr) and p.tag and p.tag[0] == "glob" and isc(p.off):
        b = e.prog.gbytes(p.tag[1])
        if b is not None:
            return b[p.off:b.index(0, p.off)]
    return None


def sidterm(e, st, p, where, what):
    k = strconst(e, p)
    if k is not None:
        return sidconst(e, k), k
    a, off, n = need_cstr(e, st, p, where, what)
    return SID(a, off), None


def sidconst(e, k):
    if k not in e.strconsts:
        c = Const("str:" + k.decode("latin1"), R)
        for o, oc in e.strconsts.items():
            e.axioms.append(c < oc if k < o else c > oc)
        e.strconsts[k] = c
    return e.strconsts[k]


def content_is(e, st, p, k):
    """formula: the bytes at p are the string k"""
    a = e.arr8(st, p.obj)
    off = toz(p.off)
    return And(*([Select(a, off + i) == (b - 256 if b > 127 else b) for i, b in enumerate(k)] +
                 [Select(a, off + len(k)) == 0]))


def s_strcmp(e, st, a, where, rt, at):
    x, kx = sidterm(e, st, a[0], where, "strcmp argument")
    y, ky = sidterm(e, st, a[1], where, "strcmp argument")
    r = e.fresh("strcmp")
    e.rangefact(st, r, 32)
    e.assume(st, And((r == 0) == (x == y), (r < 0) == (x < y)))
    p, q = a[0], a[1]
    if kx is None and ky is None and not (isc(p.off) and p.off == 0) and not (isc(q.off) and q.off == 0):
        # equal tails after equal characters: equal strings
        ap, aq = e.arr8(st, p.obj), e.arr8(st, q.obj)
        pp, qq = toz(p.off) - 1, toz(q.off) - 1
        e.assume(st, Implies(And(r == 0, Select(ap, pp) == Select(aq, qq), Select(ap, pp) != 0, pp >= 0, qq >= 0),
                             SID(ap, pp) == SID(aq, qq)))
    for p, q, kq in ((a[0], a[1], ky), (a[1], a[0], kx)):
        # the same against the tail of a literal
        if kq is not None and strconst(e, p) is None and q.off > 0 and not (isc(p.off) and p.off == 0):
            c = e.prog.gbytes(q.tag[1])[q.off - 1]
            if c:
                ap, pp = e.arr8(st, p.obj), toz(p.off) - 1
                e.assume(st, Implies(And(r == 0, pp >= 0, Select(ap, pp) == (c - 256 if c > 127 else c)),
                                     SID(ap, pp) == sidconst(e, bytes([c]) + kq)))
    if e.opts.get("content"):
        for p, k in ((a[0], ky), (a[1], kx)):
            if k is not None and strconst(e, p) is None:
                e.assume(st, (r == 0) == content_is(e, st, p, k))
    return r


def s_strlen(e, st, a, where, rt, at):
    _, _, n = need_cstr(e, st, a[0], where, "strlen argument")
    return n


def s_malloc(e, st, a, where, rt, at):
    n = a[0]
    e.assumed.add("malloc/realloc succeed (the code does not test for NULL)")
    if not isc(n):
        e.oblige(st, toz(n) >= 0, "memory: allocation size is not negative", where)
    o = e.new_object(st, n, "heap")
    hp = e.map(st, "heap", AB)
    e.setmap(st, "heap", Store(hp, o, True), ("new",))
    return Ptr(o, 0)


def s_free(e, st, a, where, rt, at):
    p = a[0]
    if p.isnull():
        return None
    al = e.map(st, "alive")
    hp = e.map(st, "heap", AB)
    o = toz(p.obj)
    isn = e.pnull(p)
    e.oblige(st, Or(toz(isn), And(e.alive_f(st, p.obj), Select(hp, o), toz(p.off) == 0)),
             "memory: freed pointer is null or an allocated, not yet freed block", where)
    if is_expr(p.obj):
        st.untyped.discard(p.obj.get_id())
    e.setmap(st, "alive", Store(al, o, False if isn is False else And(toz(isn), Select(al, o))), ("obj", o))
    return None


def buf(e, st, p, n, where, what, write):
    """obligation: n bytes at p are accessible as chars"""
    if p.tag and p.tag[0] == "glob" and not write:
        ty = e.prog.globals[p.tag[1]][0]
        e.oblige(st, Or(toz(n) == 0, And(toz(n) > 0, toz(p.off) >= 0, toz(p.off) + toz(n) <= e.prog.sizeof(ty))),
                 "memory: in-bounds %s" % what, where)
        return
    if e.opts.get("nomem"):
        return
    e.settype(st, p.obj, "raw:i8")
    sz = Select(e.map(st, "size"), toz(p.obj))
    ty = Select(e.map(st, "typ"), toz(p.obj))
    e.oblige(st, Or(toz(n) == 0, And(toz(n) > 0, e.alive_f(st, p.obj), toz(p.off) >= 0, toz(p.off) + toz(n) <= sz,
                                     ty == e.prog.typeid("raw:i8"))),
             "memory: in-bounds %s" % what, where)


def write_range(e, st, p, n, content, name):
    """M8[obj] := array equal to the old one outside [off,off+n), content(j) inside (j absolute)"""
    m = e.map(st, "Mi8", A2)
    old = toz(e.rd(m, p.obj))
    new = e.fresh(name, A1)
    j = Const("j?w", I)
    off = toz(p.off)
    e.assume(st, ForAll([j], Select(new, j) == If(And(j >= off, j < off + toz(n)), content(j), Select(old, j)),
                        patterns=[Select(new, j)]))
    e.setmap(st, "Mi8", Store(m, toz(p.obj), new), ("obj", toz(p.obj)))
    return new


def src_reader(e, st, p):
    if p.tag and p.tag[0] == "glob":
        b = e.prog.gbytes(p.tag[1])
        if b is not None:
            a = e.prog.karr(e, p.tag[1], b)
            return a
    return toz(e.arr8(st, p.obj))


def s_strncpy(e, st, a, where, rt, at):
    d, s, n = a
    a_, off, sl = strfacts(e, st, s)
    if a_ is None:
        src = src_reader(e, st, s)
    else:
        src = a_
    nz = toz(n)
    e.oblige(st, nz >= 0, "memory: strncpy length is not negative", where)
    # reads min(n, strlen+1) bytes of s
    if a_ is not None and not e.opts.get("nomem"):
        e.settype(st, s.obj, "raw:i8")
        sz = Select(e.map(st, "size"), toz(s.obj))
        ty = Select(e.map(st, "typ"), toz(s.obj))
        e.oblige(st, Or(nz == 0, And(e.alive_f(st, s.obj), toz(s.off) >= 0, ty == e.prog.typeid("raw:i8"),
                                     Or(toz(s.off) + nz <= sz, And(sl >= 0, toz(s.off) + sl < sz)))),
                 "memory: strncpy source is readable", where)
    buf(e, st, d, n, where, "strncpy destination", True)
    slz = toz(sl)
    delta = toz(s.off) - toz(d.off)
    write_range(e, st, d, n, lambda j: If(Or(slz == -1, j - toz(d.off) < slz), Select(src, j + delta), 0), "scpy")
    return d


def s_memcpy(e, st, a, where, rt, at):
    d, s, n = a[0], a[1], a[2]
    if d.tag and d.tag[0] == "fld" or e.opts.get("memcpy"):
        return e.opts["memcpy"](e, st, a, where)
    buf(e, st, d, n, where, "memcpy destination", True)
    buf(e, st, s, n, where, "memcpy source", False)
    src = src_reader(e, st, s)
    delta = toz(s.off) - toz(d.off)
    write_range(e, st, d, n, lambda j: Select(src, j + delta), "mcpy")
    return d


def s_strncmp(e, st, a, where, rt, at):
    """r==0 iff the strings agree on their first n characters"""
    p, q, n = a
    for s in (p, q):
        if strconst(e, s) is None:
            # reading stops at a NUL or after n characters
            a_, off, sl = strfacts(e, st, s)
            if not e.opts.get("nomem"):
                e.settype(st, s.obj, "raw:i8")
                sz = Select(e.map(st, "size"), toz(s.obj))
                ty = Select(e.map(st, "typ"), toz(s.obj))
                e.oblige(st, Or(toz(n) == 0, And(e.alive_f(st, s.obj), off >= 0, ty == e.prog.typeid("raw:i8"),
                                                 Or(off + toz(n) <= sz, And(sl >= 0, off + sl < sz)))),
                         "memory: strncmp argument is readable", where)
    r = e.fresh("strncmp")
    e.rangefact(st, r, 32)
    k = strconst(e, q)
    o = p
    if k is None:
        k, o = strconst(e, p), q
    if k is not None and isc(n) and strconst(e, o) is None:
        arr = e.arr8(st, o.obj)
        m = min(n, len(k) + 1)
        kk = (k + b"\0")[:m]
        e.assume(st, (r == 0) == And(*[Select(arr, toz(o.off) + i) == (b - 256 if b > 127 else b)
                                      for i, b in enumerate(kk)] or [True]))
    elif not (strconst(e, p) is not None and strconst(e, q) is not None):
        j = Const("j?n", I)
        A_ = src_reader(e, st, p)
        B_ = src_reader(e, st, q)
        po, qo = toz(p.off), toz(q.off)
        # equal up to n or to a common NUL
        _, _, ln = strfacts(e, st, p)
        m = toz(ln)
        e.assume(st, Implies(r == 0, ForAll([j], Implies(And(j >= po, j < po + toz(n), Or(m == -1, j <= po + m)),
                                                         Select(A_, j) == Select(B_, j - po + qo)),
                                            patterns=[Select(A_, j)])))
    return r


def s_printf(e, st, a, where, rt, at):
    r = e.fresh("printf")
    return r


def s_ctype(e, st, a, where, rt, at):
    return CTab("loc")


def s_tolower(e, st, a, where, rt, at):
    c = a[0]
    if isc(c):
        return c + 32 if 65 <= c <= 90 else c
    return If(And(c >= 65, c <= 90), c + 32, c)


def s_exit(e, st, a, where, rt, at):
    return []


def s_realloc(e, st, a, where, rt, at):
    p, n = a
    e.assumed.add("malloc/realloc succeed (the code does not test for NULL)")
    raise Unsupported("realloc")


SPECS = {"strcmp": s_strcmp, "strlen": s_strlen, "malloc": s_malloc, "free": s_free, "strncpy": s_strncpy,
         "strncmp": s_strncmp, "printf": s_printf, "__ctype_b_loc": s_ctype, "tolower": s_tolower,
         "exit": s_exit, "realloc": s_realloc, "memcpy": s_memcpy, "llvm.memcpy.p0.p0.i64": s_memcpy}
