"""C16 to C19: every language parser that Ragel generates, under a loop invariant inferred and checked by ovc.ragfix.

Each parser function (the ones the parser table names) has the contract: for a buffer of `length` bytes followed by a NUL,
any counting mode, any callback, any global state left from before,
  C16  every report names a registered language, a valid kind, and a non-empty byte range of the input; no byte outside the
       input and its terminator is read; the user data is passed on
  C17  (counting) on return every byte that is not white space has been reported or precedes, on its line, a blank report
  C18  (counting) the reports are exactly the lines of the input, in order
  C19  no decision and no report depends on a value left from before the call; the caller-chosen language names (globals) are
       as at program start on return
The obligations are generated path by path; a path that fails gives an input prefix that leads to it, for the replay.
"""
import time
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, Select, Store, Const, If, Function, IntVal
from ovc.sym import *
from ovc.sym import A1, AB, A2, I, B, R
from ovc.contract import *
from ovc import rag, ragfix
from .hash import entries
from .loc import fresh_in
from .parsed import skip_def, SKIP

IR = ["parser", "hash/language_hash"]
CONTRACTS = {}


# ---- contracts of the functions the parsers call ------------------------------------------------------------------
def C(*a, **k):
    c = Contract(*a, **k)
    CONTRACTS[c.name] = c


def all_in(a, lo, hi, pred, nm):
    j = Const("j?" + nm, I)
    return ForAll([j], Implies(And(toz(lo) <= j, j < toz(hi)), pred(Select(a, j), j)), patterns=[Select(a, j)])


def blank(x, j=None):
    return Or(x == 32, x == 9, x == 11)


def isnl(x):
    return Or(x == 10, x == 13, x == 12)


def text_hints(obj, lo, hi, pred):
    """for every cursor into the text: it lies between lo and hi, and every byte before it satisfies pred"""
    def t(lc):
        e = lc.eng
        out = []
        for k in lc.changed_cells():
            x = lc.ent.cells[k]

            def at(st, k=k):
                v = st.cells[k]
                return (toz(v.obj) == toz(obj(e)), toz(v.off)) if isinstance(v, Ptr) else (True, toz(v))
            if not isinstance(x, Ptr) and not isc(x) and not is_expr(x):
                continue
            a = Select(V(e, e.ctx.pre.st).m("Mi8", A2), toz(obj(e)))
            out.append(("%s is in the text" % (k[1],), lambda st, at=at: [And(at(st)[0], lo(e) <= at(st)[1], at(st)[1] <= hi(e))]))
            out.append(("all is blank before %s" % (k[1],), lambda st, at=at: [all_in(a, lo(e), at(st)[1], pred(e), "h")]))
        return out
    return t


def rest_pred(t):
    return lambda x, j: Or(blank(x), And(x == 13, j + 1 == t))


def br_ens(c):
    s, t = c.args
    a = Select(c.pre.m("Mi8", A2), toz(s.obj))
    return [("true iff nothing but white space is left", (toz(c.ret) != 0) == all_in(a, s.off, t.off, rest_pred(toz(t.off)), "br")),
            ("false only for a text that is not empty", Implies(toz(c.ret) == 0, toz(s.off) < toz(t.off)))]


C("is_blank_rest", ensures=br_ens, requires=lambda c: [("the range lies in a buffer", And(
    toz(c.args[0].obj) == toz(c.args[1].obj), toz(c.args[0].obj) != 0, c.pre.alive(c.args[0].obj),
    c.pre.typ(c.args[0].obj, "raw:i8"), 0 <= toz(c.args[0].off), toz(c.args[0].off) <= toz(c.args[1].off),
    toz(c.args[1].off) <= c.pre.size(c.args[0].obj)))],
  hints=text_hints(lambda e: e.args[0].obj, lambda e: toz(e.args[0].off), lambda e: toz(e.args[1].off),
                   lambda e: rest_pred(toz(e.args[1].off))))


def be_setup(e, st, args):
    k = ("out", 0)
    args[0] = Ptr(0, 0, ("cell", k))
    e.entry = st.cells[k] = Ptr(e.fresh("entry.o"), e.fresh("entry.p"))


def be_req(c):
    p = c.e.entry
    a = Select(c.pre.m("Mi8", A2), toz(p.obj))
    n = c.pre.size(p.obj)
    return [("the byte after the entry is in the input", And(toz(p.obj) != 0, c.pre.alive(p.obj), c.pre.typ(p.obj, "raw:i8"),
                                                             toz(p.off) >= 0, toz(p.off) + 1 < n)),
            ("the input ends in a NUL", Select(a, n - 1) == 0)]


def be_ens(c):
    p, q = c.e.entry, c.post.st.cells[("out", 0)]
    a = Select(c.pre.m("Mi8", A2), toz(p.obj))
    x = c.e.fresh("x?be")
    j = Const("j?be2", I)
    nl = Select(a, toz(q.off))
    two = And(Select(a, toz(q.off) - 1) == 13, nl == 10, toz(q.off) - 1 > toz(p.off))
    end = If(two, toz(q.off) - 1, toz(q.off))
    return [("1 or 0", Or(toz(c.ret) == 0, toz(c.ret) == 1)),
            ("true: the position is moved to the end of the line, over blanks only", Implies(toz(c.ret) == 1, And(
                toz(q.obj) == toz(p.obj), toz(q.off) > toz(p.off), isnl(nl), toz(q.off) < c.pre.size(p.obj),
                all_in(a, toz(p.off) + 1, end, blank, "be")))),
            ("true: CR LF is one line end", Implies(And(toz(c.ret) == 1, nl == 13), Select(a, toz(q.off) + 1) != 10)),
            ("false: the position stays", Implies(toz(c.ret) == 0, And(toz(q.obj) == toz(p.obj), toz(q.off) == toz(p.off)))),
            ("false: something else comes first", Implies(toz(c.ret) == 0, Not(And(
                x > toz(p.off), x < c.pre.size(p.obj), isnl(Select(a, x)), ForAll([j], Implies(
                    And(toz(p.off) < j, j < x), blank(Select(a, j))), patterns=[Select(a, j)])))))]


C("is_blank_entry", setup=be_setup, requires=be_req, ensures=be_ens, hints=text_hints(
    lambda e: e.entry.obj, lambda e: toz(e.entry.off) + 1,
    lambda e: V(e, e.ctx.pre.st).size(e.entry.obj) - 1, lambda e: blank))


# the queue of reports (globals callback_list_head, callback_list_tail); ghost: its length, index -> item, item -> index
CI, HEAD, TAIL = "CallbackItem", ("G", "callback_list_head", 0), ("G", "callback_list_tail", 0)
CIF = ["lang:o", "lang:p", "entity:o", "entity:p", "s", "e", "udata:o", "udata:p", "next"]


def q_setup(e, st, args):
    e.map_sorts["Q"] = A1
    e.map_sorts["Qpos"] = A1
    e.qn = e.fresh("queue.n")
    e.q0 = (Ptr(e.fresh("head"), 0), Ptr(e.fresh("tail"), 0))
    st.cells[HEAD], st.cells[TAIL] = e.q0


def queue(v, h, t, n):
    i = Const("i?q", I)
    Q, P = v.m("Q", A1), v.m("Qpos", A1)
    d = Select(Q, i)
    return [And(n >= 0, (toz(h.obj) == 0) == (n == 0), toz(h.off) == 0, toz(t.off) == 0),
            Implies(n > 0, And(toz(h.obj) == Select(Q, 0), toz(t.obj) == Select(Q, n - 1))),
            ForAll([i], Implies(And(0 <= i, i < n), And(
                d != 0, v.alive(d), v.typ(d, CI), v.m("heap", AB)[d], Select(P, d) == i,
                v.f(CI, "next", d) == If(i + 1 < n, Select(Q, i + 1), 0))), patterns=[d])]


def q_req(c):
    return [("the queue is well formed (%d)" % k, g) for k, g in enumerate(queue(c.pre, c.e.q0[0], c.e.q0[1], c.e.qn))]


def enq_ghost(c, st):
    e = c.e
    o = toz(st.cells[TAIL].obj)
    e.setmap(st, "Q", Store(e.map(st, "Q", A1), e.qn, o), ("all",))
    e.setmap(st, "Qpos", Store(e.map(st, "Qpos", A1), o, e.qn), ("obj", o))


def enq_ens(c):
    v, e = c.post, c.e
    h, t = v.st.cells[HEAD], v.st.cells[TAIL]
    i = Const("i?qe", I)
    d = Select(c.pre.m("Q", A1), i)
    o = [("the queue stays well formed (%d)" % k, g) for k, g in enumerate(queue(v, h, t, e.qn + 1))]
    lang, ent, s, t_, ud = c.args
    o += [("the new item is last and new", fresh_in(c, t.obj)),
          ("it holds the report", And(*[x == y for f, a in (("lang", lang), ("entity", ent), ("udata", ud)) for x, y in (
              (toz(v.f(CI, f, t.obj).obj), toz(a.obj)), (toz(v.f(CI, f, t.obj).off), toz(a.off)))] +
              [v.f(CI, "s", t.obj) == toz(s), v.f(CI, "e", t.obj) == toz(t_)])),
          ("the items before are kept, in order", ForAll([i], Implies(And(0 <= i, i < e.qn), And(
              Select(v.m("Q", A1), i) == d, *[x == y for f in ("lang", "entity", "udata") for x, y in (
                  (v.f(CI, f, d).obj, c.pre.f(CI, f, d).obj), (v.f(CI, f, d).off, c.pre.f(CI, f, d).off))] +
              [v.f(CI, f, d) == c.pre.f(CI, f, d) for f in ("s", "e")])), patterns=[d]))]
    return o


def enq_mod(c):
    m = dict(ALLOC, Q=None, Qpos=FRESH)
    for f in CIF[:-1]:
        m["F:%s.%s" % (CI, f)] = FRESH
    m["F:%s.next" % CI] = OBJ(c.e.q0[1].obj)
    return m


C("enqueue", setup=q_setup, requires=q_req, ensures=enq_ens, ghost=enq_ghost, modifies=enq_mod)


def fq_ens(c):
    v, e = c.post, c.e
    i = Const("i?qf", I)
    d = Select(c.pre.m("Q", A1), i)
    return [("the queue is empty", And(*[toz(x) == 0 for k in (HEAD, TAIL) for x in (v.st.cells[k].obj, v.st.cells[k].off)])),
            ("every item is freed", ForAll([i], Implies(And(0 <= i, i < e.qn), Not(v.alive(d))), patterns=[d]))]


def fq_hints(lc):
    e = lc.eng
    p = V(e, e.ctx.pre.st)
    out = []
    i = Const("i?fq", I)
    Q, P = p.m("Q", A1), p.m("Qpos", A1)
    d = Select(Q, i)
    for k in lc.changed_cells():
        if not isinstance(lc.ent.cells[k], Ptr):
            continue

        def pos(st, k=k):
            x = toz(st.cells[k].obj)
            return If(x == 0, e.qn, Select(P, x))
        out.append(("%s is a cursor of the queue" % (k[1],), lambda st, k=k, pos=pos: [Or(toz(st.cells[k].obj) == 0, And(
            0 <= Select(P, toz(st.cells[k].obj)), Select(P, toz(st.cells[k].obj)) < e.qn,
            Select(Q, Select(P, toz(st.cells[k].obj))) == toz(st.cells[k].obj)))]))
        out.append(("items before %s are freed" % (k[1],), lambda st, pos=pos: [ForAll([i], Implies(
            And(0 <= i, i < pos(st)), Not(V(e, st).alive(d))), patterns=[d])]))
        out.append(("items from %s on are live" % (k[1],), lambda st, pos=pos: [ForAll([i], Implies(
            And(pos(st) <= i, i < e.qn), V(e, st).alive(d)), patterns=[d])]))
    x = Const("x?fq", I)
    out.append(("objects outside the queue are left alone", lambda st: [ForAll([x], Implies(Not(in_queue(e, e.ctx.pre.st, x)), V(
        e, st).alive(x) == p.alive(x)), patterns=[V(e, st).alive(x)])]))
    return out


def in_queue(e, st, x):
    i = Select(e.map(st, "Qpos", A1), x)
    return And(0 <= i, i < e.qn, Select(e.map(st, "Q", A1), i) == x)


C("free_queue", setup=q_setup, requires=q_req, ensures=fq_ens, hints=fq_hints,
  modifies=lambda c: {"alive": STRICT(Mod([], in_queue))})

HELPERS = ("enqueue", "free_queue", "is_blank_entry", "is_blank_rest")
TABLE = "ohcount_hash_parser_from_language"

# the parsers C17 is not claimed for, and those C18 is claimed for (the statements name them)
LOST = set("""parse_lua parse_coffeescript parse_haml parse_cshtml parse_jsp parse_cs_aspx
    parse_vb_aspx parse_phtml parse_rhtml""".split())
EXACT = set("""parse_ada parse_automake parse_awk parse_bat parse_brainfuck parse_classic_basic parse_clearsilver parse_cmake
    parse_crystal parse_dcl parse_ebuild parse_eiffel parse_erlang parse_exheres parse_fortranfixed parse_grace
    parse_idl_pvwave parse_jam parse_limbo parse_makefile parse_metafont parse_metapost parse_postscript parse_r parse_ruby
    parse_scilab parse_shell parse_structured_basic parse_tex parse_tex_dtx parse_vhdl parse_visual_basic""".split())


def prepare(G):
    """what the jobs share; runs once, before the workers are forked"""
    prog = G["prog"]
    if "parsers" in G:
        return G["parsers"]
    s = {}
    prog.stored = rag.stored_globals(prog.mods[0])
    s["table"] = [(e[0].decode("latin1"), e[1]) for e in entries(prog, TABLE)]
    s["langs"] = set(e[1] for e in entries(prog, "ohcount_hash_language_from_name"))
    s["keys"] = set(e[0] for e in entries(prog, "ohcount_hash_language_from_name"))
    s["parsers"] = set(f for k, f in s["table"])
    # language names a caller may choose: pointer globals that start as a string and are stored to
    s["rigid"] = set((n, 0) for n, g in prog.globals.items() if not g[2] and g[0].k == "ptr" and n in prog.stored
                     and g[1] is not None and g[1][0] == "glob")
    G["parsers"] = s
    return s


def jobs(G, prop):
    s = prepare(G)
    f = sorted(s["parsers"], key=lambda n: -sum(len(b) for b in G["prog"].funcs[n][0].blocks.values())
               if n in G["prog"].funcs else 0)
    if prop == "C17":
        f = [x for x in f if x not in LOST]
    if prop == "C18":
        f = [x for x in f if x in EXACT]
    return [("parser", prop, x) for x in f]


def text(prog, v):
    b = prog.gbytes(v[1]) if type(v) is tuple and v[0] == "p" and type(v[1]) is str else None
    return None if b is None else b[v[2]:].split(b"\0")[0]


GOAL = {"C16": "reports are valid and lie in the input; no byte outside it is read",
        "C17": "every significant byte is reported before the parser returns",
        "C18": "the reports are the lines of the input, each once and in order",
        "C19": "nothing depends on a value left from before the call"}


def parser(G, prop, fn):
    """the obligations of one parser"""
    prog, s, t0 = G["prog"], G["parsers"], time.time()
    ob, tries, assumed = [], [], set()
    keys = [k for k, f in s["table"] if f == fn]
    if fn not in prog.funcs:
        return {"obligations": [("%s exists" % fn, False, "missing")], "keys": keys}
    strs = lambda v: text(prog, v)
    n = 0
    try:
        e = rag.Engine(prog, fn, set(HELPERS), s["parsers"], s["rigid"])
        ent, out = e.explore()
        if e.cut is None:
            r = wrapper(prog, s, prop, fn, ent, ob)
            return {"obligations": r, "keys": keys, "solver": time.time() - t0}
        rets = 0
        modes = (1, 0) if prop in ("C16", "C19") else (1,)
        for cnt in modes:
            F = ragfix.Fix(e, ent, out, "C16" if prop == "C19" else prop, s["langs"], strs, s["rigid"], cnt)
            k = F.solve(t0 + G.get("limit", 600))
            mode = "counting" if cnt else "entities"
            n += k
            f = {m: d for (c, m), d in F.fails.items() if c == prop}
            for m, (cs, expl, tr) in sorted(f.items()):
                ob.append(("%s, %s: %s" % (fn, mode, m), False, "difference bounds", expl[:1500]))
                if tr is not None:
                    tries += [(key, cnt, tr) for key in keys]
            good = k - len(f)
            for cs in sorted(F.sums):
                j = sum(v for key, v in F.nob.items() if key[0] == cs)
                if j and not f:
                    ob.append(("%s, %s, state %s: %d path obligations: %s" % (fn, mode, cs, j, GOAL[prop]), True, "difference bounds"))
            if cnt:
                ob.append(("%s reports lines under some language" % fn, bool(F.reported), "vacuity"))
            rets += sum(1 for ss in out.values() for x in ss if x.end == "ret") + sum(1 for x in ent if x.end == "ret")
        ob.append(("%s returns on some path" % fn, rets > 0, "vacuity"))
        init = initial(prog, s)
        for c in sorted(s["rigid"]):
            ws = [(x, k) for k, ss in [(0, ent)] + [(1, ss) for ss in out.values()] for x in ss if c in x.writes]
            if not ws:
                continue
            if prop == "C16":
                ob.append(("%s: %s is only ever set to registered languages" % (fn, c[0]),
                           all(text(prog, x.writes[c]) in s["langs"] for x, k in ws), "ground evaluation"))
            if prop == "C19":
                ob.append(("%s: a language name it changes is the same for every call, and as at program start on return: %s" % (fn, c[0]),
                           all(c in x.writes and text(prog, x.writes[c]) is not None for x in ent if x.end != "ret")
                           and len(set(text(prog, x.writes.get(c)) for x in ent if x.end != "ret")) == 1
                           and all(text(prog, x.writes[c]) == text(prog, init[c]) for x, k in ws if x.end == "ret")
                           and all(x.end == "ret" for x, k in ws if k)
                           and all(c in x.writes for ss in out.values() for x in ss if x.end == "ret"), "path enumeration"))
    except (rag.Unsup, KeyError, IndexError, TypeError, ValueError, AttributeError) as x:
        import traceback
        ob.append(("%s within the verifier's reach" % fn, False, "unsupported", traceback.format_exc()[-1500:]))
    return {"obligations": ob, "keys": keys, "tries": tries, "solver": time.time() - t0, "queries": n,
            "back": {"difference bounds": sum(1 for o in ob if o[1])}, "paths": n}


def initial(prog, s):
    """the values the language-name globals start with"""
    init = {}
    for c in s["rigid"]:
        g = prog.globals[c[0]][1]
        init[c] = ("p", g[1], g[2] if len(g) > 2 else 0)
    return init


def wrapper(prog, s, prop, fn, ent, ob):
    """a parser that chooses a language name, calls another parser and restores the name"""
    init = initial(prog, s)
    want = (("t", "B", 0), ("u", "E", 0), ("cnt",), ("cb",), ("ud",))
    ob.append(("%s returns on some path" % fn, any(x.end == "ret" for x in ent), "vacuity"))
    for i, x in enumerate(ent):
        calls = [v for v in x.events if v[0] == "parse"]
        other = [v[0] for v in x.events if v[0] not in ("parse", "havoc")]
        nm = "%s, path %d: " % (fn, i)
        ob.append((nm + "hands the whole input over once, with the caller's arguments",
                   len(calls) == 1 and not other and tuple(calls[0][2][:5]) == want and x.end == "ret", "path enumeration",
                   str((calls, other))))
        for v in calls:
            ob.append((nm + "calls a parser of the table, not itself", v[1] in s["parsers"] and v[1] != fn, "path enumeration"))
            if prop == "C17":
                ob.append((nm + "calls a parser C17 is shown for", v[1] not in LOST, "path enumeration"))
            for c, val in v[3]:
                if prop == "C16":
                    ob.append((nm + "%s is a registered language during the call" % c[0],
                               val == ("t", c, 0) or text(prog, val) in s["langs"], "ground evaluation", str(val)))
        if prop == "C19":
            for c in sorted(s["rigid"]):
                v = x.writes.get(c, ("t", c, 0))
                ob.append((nm + "%s is as at program start afterwards" % c[0], v == ("t", c, 0) or
                           text(prog, v) is not None and text(prog, v) == text(prog, ("p",) + init[c][1:]), "ground evaluation", str(v)))
    return ob


def shared(G, prop):
    """obligations on the whole set of parsers"""
    prog, s = G["prog"], G["parsers"]
    ob = []
    if prop in ("C16", "C19"):
        for c in sorted(s["rigid"]):
            g = prog.globals[c[0]][1]
            t = text(prog, ("p", g[1], g[2] if len(g) > 2 else 0))
            ob.append(("%s starts as a registered language" % c[0], t in s["langs"], "ground evaluation", str(t)))
    if prop == "C19":
        names = set(c[0] for c in s["rigid"])
        for f in prog.funcs:
            if f in s["parsers"]:
                continue
            w = set()
            for b in prog.funcs[f][0].blocks.values():
                for x in b:
                    if x.op == "store" and x.a[1][1][0] == "glob" and x.a[1][1][1] in names:
                        w.add(x.a[1][1][1])
            if w:
                ob.append(("%s leaves the language names alone" % f, False, "frame scan of the IR", str(w)))
        ob.append(("only parsers write the caller-chosen language names", not any(not o[1] for o in ob), "frame scan of the IR"))
    if prop == "C16":
        ob.append(("there are parsers", len(s["parsers"]) > 0, "ground evaluation"))
    if not ob:
        ob.append(("the parser table is read", bool(s["table"]), "ground evaluation"))
    return {"obligations": ob, "extra": True}
