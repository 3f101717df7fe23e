"""Keyword tables (C12) and agreement of the registries (C13): src/hash/*.gperf as compiled by gperf."""
import re, time, z3
from z3 import And, Or, Not, Implies, Function, Const, Select
from ovc.sym import *
from ovc.sym import A1, AB, A2, I, B, R, SID
from ovc.contract import *
from ovc import libc
from ovc.interp import Interp, Fault
from ovc.ir import Ty

# lookup function -> (module, gperf file, entry struct)
TABLES = {
    "ohcount_hash_language_from_name": ("hash/language_hash", "languages.gperf", "LanguageMap"),
    "ohcount_hash_language_from_ext": ("detector", "extensions.gperf", "ExtensionMap"),
    "ohcount_hash_language_from_filename": ("detector", "filenames.gperf", "FilenameMap"),
    "ohcount_hash_disambiguate_func_from_id": ("detector", "disambiguatefuncs.gperf", "DisambiguateFuncsMap"),
    "ohcount_hash_is_cppheader": ("detector", "cppheaders.gperf", "CppHeaderMap"),
    "ohcount_hash_parser_from_language": ("parser", "parsers.gperf", "ParserMap"),
    "ohcount_hash_command_from_flag": ("ohcount", "options.gperf", "OhcountOption"),
}
CONTRACTS = {}


def wordlist(prog, fn):
    """the table of entries a lookup function returns from: (global name, entry type, count)"""
    g = [n for n in prog.globals if n.startswith(fn + ".") and prog.globals[n][0].k == "arr"
         and prog.globals[n][0].b.k == "struct"]
    if len(g) != 1:
        raise Unsupported("%s: %d tables of entries" % (fn, len(g)))
    t = prog.globals[g[0]][0]
    return g[0], t.b, t.a


def KSID(fn):
    return Function("key of " + fn, I, R)


def KOBJ(fn):
    return Function("key object of " + fn, I, I)


def only(e, st, t):
    """the one value t can have here, or None"""
    s = z3.Solver()
    s.set("timeout", 2000)
    for c in st.pc:
        if not has_q(c):
            s.add(c)
    if s.check() != z3.sat:
        return None
    v = s.model().eval(toz(t), model_completion=True)
    if not z3.is_int_value(v):
        return None
    v = v.as_long()
    return v if e.check(st, toz(t) == v, 2000, 0)[0] else None


def has_q(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if z3.is_expr(x) and x.get_id() not in seen:
            seen.add(x.get_id())
            todo.extend(x.children())
    return False


def tables(e, st, name, p, t, where):
    """read of a constant table at an unknown index: the value is one of the table's"""
    prog = e.prog
    ty, init, const, _ = prog.globals[name]
    es = prog.sizeof(ty.b)
    if ty.b.k in ("i8", "i16", "i32"):
        o = only(e, st, p.off)
        if o is not None and o % es == 0 and 0 <= o < es * ty.a:
            return prog.constval(e, st, prog.ginit_at(name, o, t), t)
        if es != prog.sizeof(t):
            raise Unsupported("table read of another width")
        vs = [prog.constval(e, st, prog.ginit_at(name, i * es, t), t) for i in range(ty.a)]
        v = e.fresh("tab")
        # the values, as intervals
        us, iv = sorted(set(vs)), []
        for u in us:
            if iv and u == iv[-1][1] + 1:
                iv[-1][1] = u
            else:
                iv.append([u, u])
        e.assume(st, Or(*[And(v >= a, v <= b) for a, b in iv]))
        return v
    if ty.b.k == "struct" and t.k == "ptr":
        fn = name.split(".")[0]
        offs = prog.layout(ty.b)[0]
        for k, fo in enumerate(offs):
            if prog.fields(ty.b)[k].k == "ptr" and e.check(st, toz(p.off) % es == fo, 2000, 0)[0]:
                i = e.fresh("idx")
                e.assume(st, And(toz(p.off) == i * es + fo, i >= 0, i < ty.a))
                r = Ptr(KOBJ(fn)(i) if k == 0 else e.fresh("tabp"), 0)
                v = V(e, st)
                e.assume(st, And(v.cstr(r)))
                if k == 0:
                    e.assume(st, v.sid(r) == KSID(fn)(i))
                return r
    raise Unsupported("table read of " + name)


def lookup_req(c):
    return [("the text is a string", c.pre.cstr(c.args[0])), ("its length is given", toz(c.args[1]) == c.pre.slen(c.args[0]))]


def lookup_ens(fn):
    def ens(c):
        prog = c.e.prog
        g, t, n = wordlist(prog, fn)
        es = prog.sizeof(t)
        i = Const("i?tab", I)
        ob = c.e.gobj(None, g)
        off = toz(c.ret.off)
        o = conc(c.ret.off)
        if isc(o) and 0 <= o < n * es and o % es == 0:
            k = libc.sidconst(c.e, entries(prog, fn)[o // es][0])
        else:
            k = KSID(fn)(off / es)
        return [("nothing, or the entry whose key is the text", Or(
            And(toz(c.ret.obj) == 0, off == 0),
            And(toz(c.ret.obj) == ob, off % es == 0, off >= 0, off < n * es, c.pre.sid(c.args[0]) == k)))]
    return ens


for _f in TABLES:
    CONTRACTS[_f] = Contract(_f, requires=lookup_req, ensures=lookup_ens(_f), modifies=lambda c: {},
                             opts={"tables": tables, "unroll": 6})


def rows(tree, f):
    txt = open("%s/hash/%s" % (tree.src, f), encoding="latin1").read()
    body = txt.split("%%")[1]
    return [[x.strip() for x in l.split(",")] for l in body.split("\n") if l.strip() and not l.startswith("#")]


def entries(prog, fn):
    """the table as compiled: list of entries, each a list of field values (bytes, int, function name or None)"""
    g, t, n = wordlist(prog, fn)
    ip = Interp(prog)
    es, offs, fl = prog.sizeof(t), prog.layout(t)[0], prog.fields(t)
    out = []
    for i in range(n):
        e = []
        for o, ft in zip(offs, fl):
            v = ip.load(("p", ("g", g), i * es + o), ft)
            e.append(None if v == 0 and ft.k == "ptr" else v[1] if isinstance(v, tuple) and v[0] == "fn" else
                     ip.cstr(v) if isinstance(v, tuple) else v)
        out.append(e)
    return out


def writers(prog, S):
    """functions that may write an entry of struct S"""
    out = []
    for n, (f, m) in prog.funcs.items():
        geps = {}
        for b in f.blocks.values():
            for x in b:
                if x.op == "getelementptr" and x.a[0].k == "struct" and prog.sname(x.a[0].a) == S:
                    geps[x.res] = 1
                if x.op == "store" and x.a[1][1][0] == "reg" and x.a[1][1][1] in geps:
                    out.append(n)
    return out


def complete(G, fn):
    """every key of the table is found, as its own entry; the compiled table is the source table"""
    prog, t0 = G["prog"], time.time()
    g, t, n = wordlist(prog, fn)
    es = prog.sizeof(t)
    obs = []
    E = entries(prog, fn)
    src = rows(G["tree"], TABLES[fn][1])
    want = sorted(r[0].strip('"').encode("latin1") for r in src)
    have = sorted(e[0] for e in E)
    obs.append(("%s: the compiled table has exactly the keys of %s" % (fn, TABLES[fn][1]), want == have, "ground evaluation",
                None if want == have else "differ: %s" % sorted(set(want) ^ set(have))[:5]))
    for i, e in enumerate(E):
        try:
            r = Interp(prog).call(fn, [Interp(prog).string(e[0]), len(e[0])])
            # (a row given twice with the same fields is one entry)
            ok = isinstance(r, tuple) and r[1] == ("g", g) and r[2] % es == 0 and E[r[2] // es] == e
            d = "returns %s" % (r,)
        except Fault as x:
            ok, d = False, str(x)
        obs.append(("%s: key %s gives its own entry" % (fn, e[0].decode("latin1")), ok, "ground evaluation", None if ok else d))
    w = writers(prog, TABLES[fn][2])
    obs.append(("%s: no function writes a table entry" % fn, not w, "frame scan of the IR", str(w)))
    return {"obligations": obs, "solver": time.time() - t0, "extra": True}


def _mk(fn):
    def f(G):
        return complete(G, fn)
    return f


for _f in TABLES:
    globals()["complete_" + _f] = _mk(_f)

IR = ["parser"]
VERIFY = list(TABLES)


# ---- C13: the registries agree -----------------------------------------------------------------------------
class Flow:
    """which values a pointer can be, over a whole function, whatever the order of statements: every constant that is
    stored to the variable, followed through variables, calls and table fields"""

    def __init__(self, prog):
        self.prog, self.memo = prog, {}

    def fn(self, name):
        f, m = self.prog.funcs[name]
        d, st = {}, {}
        for b in f.blocks.values():
            for x in b:
                if x.res:
                    d[x.res] = x
                if x.op == "store" and x.a[1][1][0] == "reg":
                    st.setdefault(x.a[1][1][1], []).append(x.a[0])
        return f, d, st

    def value(self, name, tv, seen=()):
        """set of ("text", bytes) | ("null",) | ("field", struct, name) | ("fn", name) | ("?", what)"""
        t, c = tv
        prog = self.prog
        if c[0] == "null" or c[0] == "zero":
            return {("null",)}
        if c[0] == "glob":
            b = prog.gbytes(c[1])
            if b is not None:
                return {("text", b[(c[2] if len(c) > 2 and type(c[2]) is int else 0):].split(b"\0")[0])}
            if c[1] in prog.funcs:
                return {("fn", c[1])}
            return {("?", "address of " + c[1])}
        if c[0] == "reg":
            if (name, c[1]) in seen:
                return set()
            seen += ((name, c[1]),)
            f, d, st = self.get(name)
            x = d.get(c[1])
            if x is None:
                return {("?", "parameter %s of %s" % (c[1], name))}
            if x.op == "load":
                pt, pc = x.a[1]
                if pc[0] == "reg":
                    y = d.get(pc[1])
                    if y is not None and y.op == "alloca":
                        r = set()
                        for v in st.get(pc[1], []):
                            r |= self.value(name, v, seen)
                        return r or {("?", "uninitialised %s" % pc[1])}
                    if y is not None and y.op == "getelementptr" and y.a[0].k == "struct":
                        k = y.a[2][-1][1][1]
                        return {("field", prog.sname(y.a[0].a), prog.fname(prog.sname(y.a[0].a), k))}
                if pc[0] == "glob":
                    return {("global", pc[1])}
                return {("?", "load in " + name)}
            if x.op == "phi":
                r = set()
                for v, b in x.a[1]:
                    r |= self.value(name, v, seen)
                return r
            if x.op == "select":
                return self.value(name, x.a[1], seen) | self.value(name, x.a[2], seen)
            if x.op == "call":
                g = x.a[1]
                if g[0] == "glob":
                    return self.ret(g[1])
                r = set()
                for y in self.value(name, (x.a[0], g), seen):
                    if y == ("field", "DisambiguateFuncsMap", "value"):
                        for e in entries(prog, "ohcount_hash_disambiguate_func_from_id"):
                            r |= self.ret(e[1])
                    elif y[0] == "fn":
                        r |= self.ret(y[1])
                    else:
                        r.add(("?", "indirect call in " + name))
                return r
        return {("?", "%s in %s" % (c[0], name))}

    def get(self, name):
        if name not in self.memo:
            self.memo[name] = self.fn(name)
        return self.memo[name]

    busy = set()

    def ret(self, name):
        busy = self.busy
        if name not in self.prog.funcs:
            return {("?", "result of " + name)}
        if name in TABLES:
            return {("entry", TABLES[name][2])}
        if name in busy:
            return set()
        busy.add(name)
        try:
            f, d, st = self.get(name)
            r = set()
            for b in f.blocks.values():
                for x in b:
                    if x.op == "ret" and x.a and x.a[0] is not None:
                        r |= self.value(name, x.a[0])
            return r
        finally:
            busy.discard(name)

    def reported(self, name, parsers=()):
        """what a parser passes as the language of a report: the first argument of its callback and of enqueue.  A global it
        names is one of its initial value and what this parser stores to it (C19: every parser restores it)"""
        f, d, st = self.get(name)
        r, own, subs = set(), {}, set()
        for b in f.blocks.values():
            for x in b:
                if x.op == "store" and x.a[1][1][0] == "glob" and x.a[0][0].k == "ptr":
                    own.setdefault(x.a[1][1][1], set()).update(self.value(name, x.a[0]))
                if x.op == "call" and x.a[1][0] == "glob" and x.a[1][1] in parsers:
                    subs.add(x.a[1][1])
                if x.op == "call" and x.a[2] and (x.a[1][0] == "reg" or x.a[1] == ("glob", "enqueue")):
                    r |= self.value(name, x.a[2][0])
        for s in subs:
            g = self.get(s)[0]
            r |= self.reported(s) if s != name else set()
            for b in g.blocks.values():
                for x in b:
                    if x.op == "call" and x.a[2] and (x.a[1][0] == "reg" or x.a[1] == ("glob", "enqueue")):
                        r |= self.value(s, x.a[2][0])
        out, done = set(), set()
        todo = list(r)
        while todo:
            v = todo.pop()
            if v in done:
                continue
            done.add(v)
            if v[0] == "global":
                g = self.prog.globals.get(v[1])
                todo += own.get(v[1], ())
                if g is not None and g[1] is not None:
                    todo += self.value("", (g[0], g[1]))
            elif v[:2] != ("field", "CallbackItem") and v != ("null",):
                out.add(v)
        return out


def agree(G):
    prog, t0 = G["prog"], time.time()
    ob = []
    how = "ground evaluation"
    lang = entries(prog, "ohcount_hash_language_from_name")
    names = set(e[1] for e in lang)
    F = Flow(prog)
    pars = dict((e[0], e[1]) for e in entries(prog, "ohcount_hash_parser_from_language"))
    counted = set(v[1] for f in set(pars.values()) if f in prog.funcs for v in F.reported(f, set(pars.values())) if v[0] == "text")
    ob.append(("parsers report languages", len(counted) > 0, "vacuity"))
    # the aliases: keys that are another name for a language; they must lead to a registered key
    keys = dict((e[0], e) for e in lang)
    for e in lang:
        k = e[0].decode("latin1")
        ob.append(("language %s: its name is itself a key with the same name" % k, e[1] in keys and keys[e[1]][1] == e[1], how, str(e)))
        ob.append(("language %s has a nice name" % k, e[2] is not None and (bool(e[2]) or e[1] not in counted), how, str(e)))
        ob.append(("language %s has a category" % k, e[3] in (0, 1, 2), how, str(e)))
        if e[1] in keys:
            ob.append(("language %s is its own name or an alias of it" % k, e[0] == e[1] or keys[e[1]][2:] == e[2:], how, str(e)))
    ids = dict((e[0], e[1]) for e in entries(prog, "ohcount_hash_disambiguate_func_from_id"))
    for e in entries(prog, "ohcount_hash_language_from_ext"):
        k = e[0].decode("latin1")
        if e[1][:1] == b"\2":
            ob.append(("extension %s: its disambiguation routine is registered" % k, e[1][1:] in ids, how, str(e)))
        else:
            ob.append(("extension %s: a registered language, or binary" % k, e[1] in names or e[1][:1] == b"\1", how, str(e)))
    for e in entries(prog, "ohcount_hash_language_from_filename"):
        k = e[0].decode("latin1")
        if e[1][:1] == b"\2":
            ob.append(("file name %s: its disambiguation routine is registered" % k, e[1][1:] in ids, how, str(e)))
        else:
            ob.append(("file name %s: a registered language, or binary" % k, e[1] in names or e[1][:1] == b"\1", how, str(e)))
    for k, f in sorted(ids.items()):
        ob.append(("disambiguation %s: %s is defined" % (k.decode(), f), f in prog.funcs, how))
    det = prog.m0.funcs
    flows = "value flow over the IR"
    for f in sorted(det):
        if det[f].ret.k != "ptr" or f in TABLES or f not in ids.values() and f not in (
                "ohcount_detect_language", "detect_language_magic", "magic_parse"):
            continue
        for v in sorted(F.ret(f), key=str):
            if v == ("text", b"\1"):
                ob.append(("%s: the binary marker is the only other text it can return" % f, True, flows))
            elif v[0] == "text":
                ob.append(("%s: the language \"%s\" it can return is registered" % (f, v[1].decode("latin1")), v[1] in names, flows))
            elif v[0] == "field":
                ob.append(("%s: what it returns from %s.%s is a checked column" % (f, v[1], v[2]), (v[1], v[2]) in (
                    ("LanguageMap", "name"), ("ExtensionMap", "value"), ("FilenameMap", "value"), ("SourceFile", "language")), flows))
            elif v[0] != "null":
                ob.append(("%s: where it returns a value from is known" % f, False, flows, str(v)))
    for n, (f, m) in sorted(prog.funcs.items()):
        g, d, st = F.get(n)
        for b in f.blocks.values():
            for x in b:
                if x.op == "store" and x.a[1][1][0] == "reg":
                    y = d.get(x.a[1][1][1])
                    if y is not None and y.op == "getelementptr" and y.a[0].k == "struct" and prog.sname(y.a[0].a) == "SourceFile" \
                            and prog.fname("SourceFile", y.a[2][-1][1][1]) == "language":
                        for v in F.value(n, x.a[0]):
                            ok = v == ("null",) or v == ("text", b"\1") or v[0] == "text" and v[1] in names or v[0] == "field" and \
                                v[1:] in (("LanguageMap", "name"), ("ExtensionMap", "value"), ("FilenameMap", "value"), ("SourceFile", "language"))
                            ob.append(("%s stores a language: %s" % (n, " ".join(str(z) for z in v)), ok, flows))
    for n in sorted(names):
        ob.append(("language %s has a parser" % n.decode(), n in pars, how))
    for k, f in sorted(pars.items()):
        k = k.decode("latin1")
        ob.append(("parser table: %s is a registered language" % k, k.encode("latin1") in names, how))
        if f not in prog.funcs:
            ob.append(("parser table: %s is defined" % f, False, how))
            continue
        rep = F.reported(f, set(pars.values()))
        bad = [v for v in rep if not (v[0] == "text" and v[1] in names)]
        ob.append(("%s (%s) reports under registered languages" % (f, k), not bad and bool(rep), flows, str(bad[:4])))
        if k.encode("latin1") in counted:
            ob.append(("%s (%s) can report under %s itself" % (f, k, k), ("text", k.encode("latin1")) in rep, flows, str(sorted(rep, key=str)[:6])))
    return {"obligations": ob, "solver": time.time() - t0, "extra": True}
