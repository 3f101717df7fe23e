"""Symbolic execution of LLVM IR with contracts: the core of ovc.

Values     : i1 -> z3 Bool / python bool; iN -> z3 Int / python int in the signed range of iN
             (iN arithmetic is exact: results are wrapped to two's complement unless shown in range);
             pointers -> Ptr(obj, off) pairs, objects are integers, 0 is the null object.
Memory     : one map per struct field, F[S.f] : obj -> value (Burstall/Bornat), guarded by a ghost type tag
             per object (typ) so that no two types overlap; untyped memory (buffers, arrays) is
             M<k> : obj -> (byte offset -> value), per access width.  alive/size/typ/own are ghost maps.
Loops      : cut at the header; written cells and maps are havocked; the invariant is the largest
             inductive subset (Houdini) of the candidates proposed by templates and contracts.
Calls      : contract if there is one, external specification if there is one, else inlined.
"""
import itertools, os, re, subprocess, tempfile, time
import z3
from z3 import (Int, IntSort, BoolSort, RealSort, ArraySort, Const, Select, Store, And, Or, Not, Implies,
                If, ForAll, Exists, BoolVal, IntVal, is_expr, simplify, substitute, Function)

I, B, R = IntSort(), BoolSort(), RealSort()
A1 = ArraySort(I, I)
AB = ArraySort(I, B)
A2 = ArraySort(I, A1)


Z3NEW = z3.get_version_string()
OLDZ3 = "/usr/bin/z3"


GHOST_SORTS = {"fpath": ArraySort(I, R), "n:": A1, "N:": A2, "pos:": A1, "back:": A1, "bk:": A1, "sd:": A1,
               "kx:": ArraySort(I, ArraySort(R, I))}


class Unsupported(Exception):
    pass


class VFail(Exception):
    pass


class Ptr:
    __slots__ = ("obj", "off", "tag")

    def __init__(self, obj, off=0, tag=None):
        self.obj, self.off, self.tag = obj, off, tag

    def __repr__(self):
        return "Ptr(%s,%s%s)" % (self.obj, self.off, "" if not self.tag else "," + str(self.tag))

    def isnull(self):
        return isinstance(self.obj, int) and self.obj == 0


NULL = Ptr(0, 0)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class SymFn:
    """A function pointer whose target is unknown (a callback parameter)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class PInt:
    """ptrtoint result."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class CT:
    """ctype flag word of character c."""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


class Opq:
    """A value ovc does not model (floating point)."""


OPQ = Opq()


def isc(x):
    return isinstance(x, (int, bool))


def toz(x):
    if isinstance(x, bool):
        return BoolVal(x)
    if isinstance(x, int):
        return IntVal(x)
    return x


def conc(x):
    """Simplify to a python constant when possible."""
    if isc(x) or not is_expr(x):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def smp(x):
    if isc(x) or not is_expr(x):
        return x
    return conc(simplify(x))


def add(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return smp(toz(a) + toz(b))


def sub(a, b):
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0:
        return a
    return smp(toz(a) - toz(b))


def mul(a, b):
    if isc(a) and isc(b):
        return a * b
    if isc(a) and a == 1:
        return b
    if isc(b) and b == 1:
        return a
    return smp(toz(a) * toz(b))


def eq(a, b):
    if isc(a) and isc(b):
        return a == b
    if is_expr(a) and is_expr(b) and a.eq(b):
        return True
    return smp(toz(a) == toz(b))


def ite(c, a, b):
    if isc(c):
        return a if c else b
    if isc(a) and isc(b) and a == b and type(a) == type(b):
        return a
    if is_expr(a) and is_expr(b) and a.eq(b):
        return a
    return If(c, toz(a), toz(b))


def band(*xs):
    ys = []
    for x in xs:
        if x is True or (is_expr(x) and z3.is_true(x)):
            continue
        if x is False or (is_expr(x) and z3.is_false(x)):
            return False
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else And(*ys)


def bor(*xs):
    ys = []
    for x in xs:
        if x is False or (is_expr(x) and z3.is_false(x)):
            continue
        if x is True or (is_expr(x) and z3.is_true(x)):
            return True
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else Or(*ys)


def bnot(x):
    if isc(x):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return Not(x)


def bimp(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return bnot(a)
    return Implies(a, b)


# uninterpreted vocabulary of strings (used by contracts as well)
SLEN = Function("slen", A1, I, I)     # least k>=0 with arr[off+k]==0, -1 if there is none
SID = Function("sid", A1, I, R)       # order-embedding of C strings into the reals
POW = {8: 2 ** 8, 16: 2 ** 16, 32: 2 ** 32, 64: 2 ** 64, 1: 2}


def bits(t):
    if t.k[0] == "i":
        return int(t.k[1:])
    raise Unsupported("bits of %r" % t)


class State:
    __slots__ = ("pc", "maps", "cells", "regs", "untyped", "serial", "dead", "strings", "notes")

    def __init__(self):
        self.pc = []
        self.maps = {}
        self.cells = {}
        self.regs = {}
        self.untyped = set()
        self.dead = False
        self.strings = {}
        self.notes = {}

    def copy(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.maps = dict(self.maps)
        s.cells = dict(self.cells)
        s.regs = dict(self.regs)
        s.untyped = set(self.untyped)
        s.dead = self.dead
        s.strings = self.strings
        s.notes = dict(self.notes)
        return s


class Loop:
    def __init__(self, header, body):
        self.header, self.body = header, body
        self.parent = None


def cfg_info(f):
    """successors, RPO order, loops of a function (cached on the Func)."""
    if hasattr(f, "_cfg"):
        return f._cfg
    succ = {}
    for b, ins in f.blocks.items():
        t = ins[-1] if ins else None
        if t is None:
            succ[b] = []
        elif t.op == "br":
            succ[b] = [t.a[0]]
        elif t.op == "condbr":
            succ[b] = [t.a[1], t.a[2]]
        elif t.op == "switch":
            succ[b] = [t.a[1]] + [l for _, l in t.a[2]]
        else:
            succ[b] = []
    color, order, back = {}, [], []
    stack = [(f.entry, iter(succ[f.entry]))]
    color[f.entry] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s, 0) == 0:
                color[s] = 1
                stack.append((s, iter(succ[s])))
                break
            elif color[s] == 1:
                back.append((b, s))
        else:
            color[b] = 2
            order.append(b)
            stack.pop()
    order.reverse()
    pred = {}
    for b in order:
        for s in succ[b]:
            pred.setdefault(s, []).append(b)
    loops = {}
    for u, h in back:
        body = loops.setdefault(h, {h})
        w = [u]
        while w:
            x = w.pop()
            if x not in body:
                body.add(x)
                w.extend(pred.get(x, []))
    L = {h: Loop(h, frozenset(b)) for h, b in loops.items()}
    rpo = {b: i for i, b in enumerate(order)}
    f._cfg = (succ, rpo, L)
    return f._cfg


class Frame:
    def __init__(self, f, uid, mod):
        self.f, self.uid, self.mod = f, uid, mod


class WriteSet:
    def __init__(self):
        self.cells = {}
        self.maps = {}      # map -> list of writes; write = ('obj', term, serial) | ('mod', closure, key) | ('all',)

    def size(self):
        return len(self.cells), sum(len(v) for v in self.maps.values()), len(self.maps)


class Obligation:
    __slots__ = ("name", "ok", "how", "t", "where", "detail")

    def __init__(self, name, ok, how, t, where=""):
        self.name, self.ok, self.how, self.t, self.where = name, ok, how, t, where
        self.detail = None


_hq = {}


def hasquant(f):
    k = f.get_id()
    if k not in _hq:
        r, todo, seen = False, [f], set()
        while todo and not r:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            r = z3.is_quantifier(x)
            todo.extend(x.children())
        _hq[k] = (r, f)
    return _hq[k][0]


def conjuncts(g):
    """goals that together are equivalent to g"""
    if z3.is_and(g):
        return [x for c in g.children() for x in conjuncts(c)]
    if z3.is_implies(g):
        ps = conjuncts(g.arg(1))
        return [Implies(g.arg(0), x) for x in ps] if len(ps) > 1 else [g]
    if z3.is_not(g) and z3.is_or(g.arg(0)):
        return [x for c in g.arg(0).children() for x in conjuncts(Not(c))]
    return [g]


class Engine:
    """One engine per verified function."""

    def __init__(self, prog, contracts, specs, opts=None):
        self.prog = prog              # Program: modules, functions by name, globals
        self.contracts = contracts
        self.specs = specs            # external functions: name -> python
        self.opts = opts or {}
        self.n = itertools.count(1)
        self.obls = []
        self.dry = 0
        self.suppress = 0
        self.wstack = []              # active write sets (dry discovery)
        self.init_maps = {}
        self.defnames, self.defs, self.defmemo = {}, {}, {}
        self.map_sorts = {}
        self.globobj = {}
        self.constfacts = []
        self.depth = 0
        self.solver_time = 0.0
        self.nq = 0
        self.assumed = set()
        self.inlined = set()
        self.called = set()
        self.loopcache = {}
        self.merge = self.opts.get("merge", "loops")
        self.timeout = self.opts.get("timeout", 40000)
        self.hint_timeout = self.opts.get("hint_timeout", 20000)
        self.cand_timeout = self.opts.get("cand_timeout", 2000)
        self.feas_timeout = self.opts.get("feas_timeout", 500)
        self.strconsts = {}
        self.slens = {}
        self.log = self.opts.get("log")
        self.loopstats = []
        self.axioms = []
        self.extra_templates = []

    # ---- fresh symbols -------------------------------------------------
    def fresh(self, name, sort=I):
        k = next(self.n)
        c = Const("%s!%d" % (name, k), sort)
        return c

    def serial_of(self, e):
        """largest fresh-symbol serial occurring in a term"""
        if not is_expr(e):
            return 0
        best, todo, seen = 0, [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if "!" in nm:
                    try:
                        best = max(best, int(nm.rsplit("!", 1)[1]))
                    except ValueError:
                        pass
            todo.extend(x.children())
        return best

    # ---- maps ----------------------------------------------------------
    def map(self, st, name, sort=None):
        if name not in st.maps:
            if name not in self.init_maps:
                s = sort if sort is not None else self.map_sorts.get(name)
                if s is None:
                    s = self.default_sort(name)
                self.map_sorts[name] = s
                self.init_maps[name] = Const(name + "@0", s)
            st.maps[name] = self.init_maps[name]
        return st.maps[name]

    def default_sort(self, name):
        if name in ("alive", "heap"):
            return AB
        if name in GHOST_SORTS:
            return GHOST_SORTS[name]
        g = GHOST_SORTS.get(name.split(":")[0] + ":")
        if g is not None:
            return g
        if name[0] == "M":
            return A2
        if name[0] == "F" or name in ("size", "typ", "own"):
            return A1
        raise Unsupported("sort of map " + name)

    def setmap(self, st, name, new, write):
        self.map(st, name)
        st.maps[name] = self.named(new, name)
        for w in self.wstack:
            w.maps.setdefault(name, []).append(write)

    def named(self, expr, name):
        """a constant standing for a map expression (definitions are added to queries that need them)"""
        if z3.is_const(expr):
            return expr
        key = expr.get_id()
        if key not in self.defnames:
            c = self.fresh("d:" + name, expr.sort())
            self.defnames[key] = (c, expr)
            self.defs[c.get_id()] = (c, expr, c == expr)
        return self.defnames[key][0]

    def defsof(self, e):
        """ids of the defined constants a formula depends on (transitively)"""
        k = e.get_id()
        r = self.defmemo.get(k)
        if r is not None:
            return r[0]
        out, todo, seen = set(), [e], set()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if i in self.defs and i not in out:
                out.add(i)
                out |= self.defsof(self.defs[i][1])
                continue
            todo.extend(x.children())
        self.defmemo[k] = (out, e)
        return out

    def adddefs(self, s, fs):
        ids = set()
        for f in fs:
            ids |= self.defsof(f)
        for i in ids:
            s.add(self.defs[i][2])

    def fld(self, st, S, f, obj):
        """Contract-level read of a struct field."""
        kind = self.prog.field_kind(S, f)
        if kind == "pair":
            return Ptr(self.rd(self.map(st, "F:%s.%s:o" % (S, f), A1), obj),
                       self.rd(self.map(st, "F:%s.%s:p" % (S, f), A1), obj))
        return self.rd(self.map(st, "F:%s.%s" % (S, f), A1), obj)

    def rd(self, arr, i):
        # read over write, when decided syntactically
        a0 = arr
        while True:
            d = self.defs.get(arr.get_id())
            if d is not None:
                arr = d[1]
            if arr.decl().kind() != z3.Z3_OP_STORE:
                if d is not None:
                    arr = d[0]
                break
            j = arr.arg(1)
            q = eq(j, i)
            if q is True:
                return conc(arr.arg(2))
            if q is False:
                arr = a0 = arr.arg(0)
                continue
            arr = a0
            break
        return Select(a0 if arr.decl().kind() == z3.Z3_OP_STORE else arr, toz(i))

    # ---- solver ----------------------------------------------------------
    def mk(self, timeout, mbqi=False, seed=0):
        s = z3.SimpleSolver()
        s.set("timeout", timeout)
        s.set("auto_config", False)
        s.set("smt.mbqi", mbqi)
        s.set("smt.random_seed", seed or self.opts.get("seed", 0))
        s.set("smt.arith.solver", 2) if self.opts.get("old_arith") else None
        for c in self.axioms:
            s.add(c)
        return s

    def check(self, st, goal, timeout, effort=1):
        """is goal implied by st.pc? -> (bool, prover).  effort 0: one quick query; 1: z3, then the other
        provers while z3 gives up early; 2: the whole portfolio for the full time"""
        if goal is True:
            return True, "trivial"
        goal = toz(goal)
        t0 = time.time()
        self.nq += 1
        try:
            s = self.mk(timeout if effort < 2 else min(timeout, 3000))
            for c in st.pc:
                s.add(c)
            s.add(Not(goal))
            self.adddefs(s, st.pc + [goal])
            r = s.check()
            if r == z3.unsat:
                return True, "z3 " + Z3NEW
            if effort == 0:
                return False, str(r)
            ps = conjuncts(goal)
            if len(ps) == 1:
                s = self.mk(timeout)        # a fresh one: check() rewrites the assertions of the first in place
                for c in st.pc:
                    s.add(c)
                s.add(Not(goal))
                self.adddefs(s, st.pc + [goal])
                how = self.portfolio(s, timeout, effort)
                return (True, how) if how else (False, "unknown")
        finally:
            self.solver_time += time.time() - t0
        hows, t = [], st.copy()
        for g in ps:
            ok, how = self.check(t, g, timeout, effort)
            if not ok:
                return False, how
            hows.append(how)
            t.pc.append(g)
        return True, max(hows, key=lambda h: (h != "trivial", not h.startswith("z3 " + Z3NEW), h))

    def portfolio(self, s, timeout, effort):
        """the provers run side by side on the SMT-LIB text of the query; the first `unsat` wins"""
        txt = s.to_smt2()
        z = "(set-option :auto_config false)(set-option :smt.mbqi false)(set-option :timeout %d)%s\n"
        jobs = [("z3 4.8.12", [OLDZ3, "-in", "-memory:3000"], z % (timeout, "") + txt)]
        if effort >= 2:
            jobs.append(("cvc5", ["cvc5", "--lang=smt2", "--tlimit=%d" % timeout, "-"], txt))
            jobs.append(("z3 (seed 7)", ["z3-new", "-in", "-memory:3000"],
                         z % (timeout, "(set-option :smt.random_seed %d)" % (7 + self.opts.get("seed", 0))) + txt))
            jobs.append(("z3 (arith 2)", ["z3-new", "-in", "-memory:3000"],
                         z % (timeout, "(set-option :smt.random_seed %d)(set-option :smt.arith.solver 2)" % (
                             23 + self.opts.get("seed", 0))) + txt))
        if effort in (1, 3):
            jobs.append(("z3 (mbqi)", ["z3-new", "-in", "-memory:3000"],
                         "(set-option :timeout %d)\n" % timeout + txt))
        ps = []
        for nm, cmd, inp in jobs:
            f = tempfile.TemporaryFile()
            f.write(inp.encode())
            f.seek(0)
            try:
                ps.append((nm, subprocess.Popen(cmd, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)))
            except OSError:
                pass
            f.close()
        won, end, live = None, time.time() + timeout / 1000 + 2, ps
        while live and won is None and time.time() < end:
            nxt = []
            for nm, p in live:
                if p.poll() is None:
                    nxt.append((nm, p))
                elif p.stdout.read().strip().split(b"\n")[-1:] == [b"unsat"]:
                    won = nm
            live = nxt
            time.sleep(0.01)
        for nm, p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()
        return won

    def feasible(self, st, cond):
        if cond is True:
            return True
        if cond is False:
            return False
        if self.dry:
            return True
        t0 = time.time()
        s = self.mk(self.feas_timeout)
        for c in st.pc:
            s.add(c)
        s.add(cond)
        self.adddefs(s, st.pc + [cond])
        r = s.check()
        self.solver_time += time.time() - t0
        self.nq += 1
        return r != z3.unsat

    def oblige(self, st, goal, name, where=""):
        """Obligation: goal must follow from the path; then it is assumed."""
        if self.dry or self.suppress:
            self.assume(st, goal)
            return
        t0 = time.time()
        nf = sum(1 for x in self.obls if not x.ok)       # enough has failed already: keep the run short
        ok = False
        if name.startswith("frame: ") and is_expr(goal):
            # a second try leaves out hypotheses about other maps (leaving hypotheses out is sound)
            ok, how = self.check(st, goal, 1500, 0)
            if not ok:
                ok, how = self.check(self.only(st, goal), goal, 4000, 2)
        if not ok:
            ok, how = self.check(st, goal, self.timeout if nf < 3 else 3000 if nf < 8 else 1000, 3 if nf < 3 else 1)
        o = Obligation(name, ok, how, time.time() - t0, where)
        if not ok:
            o.detail = str(simplify(toz(goal)))[:1500]
            if self.log:
                self.log("  FAILED %s [%s] %s" % (name, where, o.detail[:300]))
        self.obls.append(o)
        self.assume(st, goal)

    def mapsof(self, f):
        """names of the maps a formula reads"""
        k = f.get_id()
        memo = self.__dict__.setdefault("mapmemo", {})
        if k not in memo:
            out, todo, seen = set(), [f], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    todo.append(x.body())
                elif z3.is_const(x) and z3.is_array(x):
                    d = self.defs.get(x.get_id())
                    if d is not None and d[0].decl().name().startswith("let"):
                        todo.append(d[1])
                    else:
                        out.add(re.sub(r"^(mg|d|h|c):", "", re.split("[@!]", x.decl().name())[0]))
                elif z3.is_app(x):
                    if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                    todo.extend(x.children())
            memo[k] = (out, f)
        return memo[k][0]

    def only(self, st, goal):
        """the state without the quantified hypotheses that read maps the goal does not"""
        keep = self.mapsof(goal) | {"alive", "own", "heap", "typ", "size"}
        s = st.copy()
        s.pc = [c for c in st.pc if not is_expr(c) or not hasquant(c)
                or all(m in keep or m.startswith("F:SourceFile.") for m in self.mapsof(c))]
        return s

    def assume(self, st, c):
        if c is True:
            return
        if c is False:
            st.pc.append(BoolVal(False))
            return
        st.pc.append(c)

    # ---- values ----------------------------------------------------------
    def inrange(self, b):
        return -(1 << (b - 1)), (1 << (b - 1)) - 1

    def rangefact(self, st, v, b):
        if is_expr(v):
            lo, hi = self.inrange(b)
            self.assume(st, And(v >= lo, v <= hi))

    def wrap(self, st, v, b):
        """two's complement value of the integer v at b bits"""
        v = smp(v)
        lo, hi = self.inrange(b)
        if isc(v):
            v &= POW[b] - 1
            return v - POW[b] if v > hi else v
        if not self.dry:
            ok, _ = self.check(st, And(v >= lo, v <= hi), 300, 0)
            if ok:
                return v
        else:
            r = self.fresh("wrap")
            self.rangefact(st, r, b)
            return r
        r = self.fresh("wrap")
        k = self.fresh("wrapk")
        self.assume(st, r == v - k * POW[b])
        self.rangefact(st, r, b)
        return r

    def uns(self, v, b):
        if isc(v):
            return v & (POW[b] - 1)
        return If(v < 0, v + POW[b], v)

    def tobool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if z3.is_bool(v):
            return v
        return smp(v != 0)

    def let(self, term):
        """a constant standing for a ground term (usable in patterns)"""
        term = toz(term)
        if z3.is_const(term):
            return term
        k = ("let", term.get_id())
        if k not in self.slens:
            c = self.fresh("let", term.sort())
            self.slens[k] = (c, term)
            self.defs[c.get_id()] = (c, term, c == term)
        return self.slens[k][0]

    def slen_def(self, a, off):
        """the definition of slen(a, off), for a ground term"""
        key = (a.get_id(), off.get_id())
        if key in self.slens:
            return
        self.slens[key] = (a, off)
        todo, seen = [a, off], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and "?" in (x.decl().name() if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else ""):
                return
            todo.extend(x.children())
        n = SLEN(a, off)
        j = Const("j?s", I)
        self.axioms += [n >= -1, Implies(n >= 0, Select(a, off + n) == 0), Or(n == 0, Select(a, off) != 0),
                        ForAll([j], Implies(And(j >= off, Or(n == -1, j < off + n)), Select(a, j) != 0),
                               patterns=[Select(a, j)])]

    # ---- objects -----------------------------------------------------------
    def new_object(self, st, size, name="obj"):
        o = self.fresh(name)
        al = self.map(st, "alive")
        self.assume(st, And(Not(Select(al, o)), o > 0))
        if "alive" in self.init_maps and not al.eq(self.init_maps["alive"]):
            # objects are named by their allocation: one that existed at function entry is not allocated again
            self.assume(st, Not(Select(self.init_maps["alive"], o)))
        self.setmap(st, "alive", Store(al, o, BoolVal(True)), ("new",))
        sz = self.map(st, "size")
        self.setmap(st, "size", Store(sz, o, toz(size)), ("new",))
        ow = self.map(st, "own")
        x = Const("x?n", I)
        self.assume(st, ForAll([x], Select(ow, x) != o, patterns=[Select(ow, x)]))   # never used before
        if "own" in self.init_maps and not ow.eq(self.init_maps["own"]):            # nor at function entry
            w0 = self.init_maps["own"]
            self.assume(st, ForAll([x], Select(w0, x) != o, patterns=[Select(w0, x)]))
        self.setmap(st, "own", Store(ow, o, o), ("new",))
        st.untyped.add(o.get_id())
        st.notes[("objterm", o.get_id())] = o
        return o

    def settype(self, st, obj, tname):
        if is_expr(obj) and obj.get_id() in st.untyped:
            st.untyped.discard(obj.get_id())
            ty = self.map(st, "typ")
            self.setmap(st, "typ", Store(ty, obj, self.prog.typeid(tname)), ("new",))

    def typed(self, st, obj, tname):
        """formula: obj has type tag tname (fixing the type of a new object)"""
        self.settype(st, obj, tname)
        return eq(self.rd(self.map(st, "typ"), obj), self.prog.typeid(tname))

    def alive(self, st, obj):
        return smp(self.rd(self.map(st, "alive"), obj))

    def alive_f(self, st, obj):
        return Select(self.map(st, "alive"), toz(obj))

    def gobj(self, st, name):
        """object id (a negative constant) of a global"""
        key = "g:" + name
        if key not in self.globobj:
            self.globobj[key] = -(len(self.globobj) + 2)
        return self.globobj[key]

    # ---- memory access -------------------------------------------------------
    def load(self, st, p, t, where=""):
        if isinstance(p, CTab):
            return p.load()
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        tag = p.tag
        if tag and tag[0] == "cell":
            return self.load_cell(st, tag[1], t)
        if tag and tag[0] == "ctab":
            return CT(tag[1])
        g = self.global_of(p)
        if g is not None:
            r = self.load_global(st, g, p, t, where)
            if r is not None:
                return r
        if tag and tag[0] == "fld":
            _, S, f, boff = tag
            self.access(st, p.obj, S, boff, where, "read of %s.%s" % (S, f))
            v = self.fld(st, S, f, p.obj)
            kind = self.prog.field_kind(S, f)
            if kind == "obj":
                return Ptr(conc(v), 0)
            if kind == "pair":
                return Ptr(conc(v.obj), conc(v.off))
            if kind == "fn":
                return SymFn("fld:%s.%s" % (S, f))
            b = bits(t)
            if is_expr(v):
                self.rangefact(st, v, b)
            return v
        return self.load_raw(st, p, t, where)

    def rawname(self, t):
        if t.k == "ptr":
            return "ptr"
        return t.k

    def load_raw(self, st, p, t, where):
        n = self.prog.sizeof(t)
        self.raw_access(st, p, n, t, where, "read")
        if t.k == "ptr":
            o = self.rd2(st, "Mptr:o", p.obj, p.off)
            f = self.rd2(st, "Mptr:p", p.obj, p.off)
            return Ptr(conc(o), conc(f))
        v = self.rd2(st, "M" + t.k, p.obj, p.off)
        if is_expr(v):
            self.rangefact(st, v, bits(t))
        return v

    def rd2(self, st, m, obj, off):
        a = self.map(st, m, A2)
        inner = self.rd(a, obj)
        return self.rd(inner, off)

    def arr8(self, st, obj):
        return self.rd(self.map(st, "Mi8", A2), obj)

    def raw_access(self, st, p, n, t, where, what):
        if self.opts.get("nomem"):
            return
        self.settype(st, p.obj, "raw:" + self.rawname(t))
        sz = self.rd(self.map(st, "size"), p.obj)
        off = toz(p.off)
        ty = self.rd(self.map(st, "typ"), p.obj)
        g = And(self.alive_f(st, p.obj), off >= 0, off + n <= toz(sz),
                toz(eq(ty, self.prog.typeid("raw:" + self.rawname(t)))))
        self.oblige(st, g, "memory: in-bounds %s" % what, where)

    def access(self, st, obj, S, boff, where, what):
        if self.opts.get("nomem"):
            return
        self.settype(st, obj, S)
        g = And(self.alive_f(st, obj), toz(eq(self.rd(self.map(st, "typ"), obj), self.prog.typeid(S))),
                toz(eq(boff, 0)))
        if is_expr(obj) and ("acc", obj.get_id(), S, self.map(st, "alive").get_id(),
                             self.map(st, "typ").get_id()) in st.notes and isc(boff):
            return
        self.oblige(st, g, "memory: valid %s" % what, where)
        if is_expr(obj):
            st.notes[("acc", obj.get_id(), S, self.map(st, "alive").get_id(), self.map(st, "typ").get_id())] = obj

    def store(self, st, p, t, v, where=""):
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        tag = p.tag
        if tag and tag[0] == "cell":
            self.store_cell(st, tag[1], v)
            return
        g = self.global_of(p)
        if g is not None:
            if self.store_global(st, g, p, t, v, where):
                return
        if tag and tag[0] == "fld":
            _, S, f, boff = tag
            self.access(st, p.obj, S, boff, where, "write of %s.%s" % (S, f))
            kind = self.prog.field_kind(S, f)
            ob = toz(p.obj)
            if kind in ("obj", "pair"):
                if isinstance(v, (FnPtr, SymFn)):
                    raise Unsupported("function pointer stored")
                if kind == "obj":
                    if not (isc(v.off) and v.off == 0):
                        self.oblige(st, toz(eq(v.off, 0)), "struct pointer %s.%s points at an object start" % (S, f), where)
                    m = "F:%s.%s" % (S, f)
                    self.setmap(st, m, Store(self.map(st, m, A1), ob, toz(v.obj)), ("obj", ob))
                    h = self.opts.get("onstore", {}).get((S, f))       # ghost code
                    if h is not None:
                        h(self, st, ob, v.obj)
                    if is_expr(v.obj):
                        self.settype(st, v.obj, self.prog.pointee(S, f))
                else:
                    if v.tag and v.tag[0] != "fld":
                        raise Unsupported("address of a local stored")
                    m = "F:%s.%s:o" % (S, f)
                    self.setmap(st, m, Store(self.map(st, m, A1), ob, toz(v.obj)), ("obj", ob))
                    m = "F:%s.%s:p" % (S, f)
                    self.setmap(st, m, Store(self.map(st, m, A1), ob, toz(v.off)), ("obj", ob))
            else:
                m = "F:%s.%s" % (S, f)
                self.setmap(st, m, Store(self.map(st, m, A1), ob, toz(v)), ("obj", ob))
            return
        self.store_raw(st, p, t, v, where)

    def store_raw(self, st, p, t, v, where):
        n = self.prog.sizeof(t)
        self.raw_access(st, p, n, t, where, "write")
        if t.k == "ptr":
            if isinstance(v, (FnPtr, SymFn)) or (v.tag and v.tag[0] == "cell"):
                raise Unsupported("address stored in raw memory")
            self.wr2(st, "Mptr:o", p.obj, p.off, v.obj)
            self.wr2(st, "Mptr:p", p.obj, p.off, v.off)
            return
        self.wr2(st, "M" + t.k, p.obj, p.off, v)

    def wr2(self, st, m, obj, off, v):
        a = self.map(st, m, A2)
        inner = toz(self.rd(a, obj))
        self.setmap(st, m, Store(a, toz(obj), Store(inner, toz(off), toz(v))), ("obj", toz(obj)))

    # ---- cells (scalar locals) -------------------------------------------------
    def load_cell(self, st, key, t):
        if key not in st.cells:
            # uninitialised local: arbitrary value
            st.cells[key] = self.fresh_val(st, t, "uninit")
        return st.cells[key]

    def store_cell(self, st, key, v):
        st.cells[key] = v
        for w in self.wstack:
            w.cells[key] = True

    def fresh_val(self, st, t, name):
        if t.k == "ptr":
            return Ptr(self.fresh(name + ".o"), self.fresh(name + ".p"))
        if t.k == "i1":
            return self.fresh(name, B)
        if t.k[0] == "i":
            v = self.fresh(name)
            self.rangefact(st, v, bits(t))
            return v
        return OPQ

    # ---- globals -----------------------------------------------------------------
    def global_of(self, p):
        if p.tag and p.tag[0] == "glob":
            return p.tag
        return None

    def glob_ptr(self, st, name):
        if name in self.prog.funcs or name in self.prog.decls:
            return FnPtr(name)
        return Ptr(self.gobj(st, name), 0, ("glob", name))

    def load_global(self, st, g, p, t, where):
        return self.prog.load_global(self, st, g, p, t, where)

    def store_global(self, st, g, p, t, v, where):
        return self.prog.store_global(self, st, g, p, t, v, where)

    # ---- operands -------------------------------------------------------------------
    def val(self, st, fr, tv):
        t, c = tv
        k = c[0]
        if k == "reg":
            return st.regs[(fr.uid, c[1])]
        if k == "int":
            if t.k == "i1":
                return bool(c[1])
            b = bits(t)
            v = c[1] & (POW[b] - 1)
            return v - POW[b] if v >= POW[b] // 2 else v
        if k == "zero":
            if t.k == "ptr":
                return NULL
            if t.k == "i1":
                return False
            if t.k in ("float", "double"):
                return OPQ
            return 0
        if k == "undef":
            return self.fresh_val(st, t, "undef")
        if k == "glob":
            return self.glob_ptr(st, c[1])
        if k == "float":
            return OPQ
        if k == "gep":
            base = self.val(st, fr, (P_T, c[2]))
            return self.gep(st, c[1], base, [self.val(st, fr, (I64_T, i)) for i in c[3]])
        raise Unsupported("operand %r" % (c,))

    def gep(self, st, t, p, idx):
        if isinstance(p, CTab):
            if len(idx) != 1:
                raise Unsupported("ctype gep")
            return CTab(p.kind, idx[0])
        if not isinstance(p, Ptr):
            raise Unsupported("gep on %r" % (p,))
        off = p.off
        tag = p.tag
        lay = self.prog
        first = idx[0]
        if tag and tag[0] in ("fld", "cell") and not (isc(first) and first == 0):
            if tag[0] == "cell":
                raise Unsupported("pointer arithmetic on a scalar local")
            # arithmetic on an interior array field
            tag = ("arrfld",) + tuple(tag[1:])
        if isc(first) and first == 0 and len(idx) == 1:
            return p
        o = mul(first, lay.sizeof(t))
        off = add(off, o)
        cur = t
        glob = tag[1] if tag and tag[0] == "glob" else None
        gpath = None
        newtag = tag if tag and tag[0] in ("glob", "arrfld") else None
        if tag and tag[0] == "fld" and isc(first) and first == 0:
            newtag = tag
        for i in idx[1:]:
            if cur.k == "arr":
                off = add(off, mul(i, lay.sizeof(cur.b)))
                cur = cur.b
                if newtag and newtag[0] == "fld":
                    newtag = ("arrfld",) + tuple(newtag[1:])
            elif cur.k in ("struct", "lit"):
                if not isc(i):
                    raise Unsupported("symbolic struct index")
                fo = lay.layout(cur)[0][i]
                if newtag is None and cur.k == "struct":
                    S = lay.sname(cur.a)
                    fname = lay.fname(S, i)
                    newtag = ("fld", S, fname, off)
                off = add(off, fo)
                cur = lay.fields(cur)[i]
            else:
                raise Unsupported("gep into %r" % cur)
        return Ptr(p.obj, off, newtag)

    # ---- comparison ----------------------------------------------------------------------
    def pnull(self, p):
        """formula: p is null"""
        if isinstance(p, (FnPtr,)):
            return False
        if isinstance(p, SymFn):
            return Const("fnnull:" + p.name, B)
        if p.tag and p.tag[0] in ("cell", "glob"):
            return False
        return eq(p.obj, 0)

    def icmp(self, st, pred, t, a, b, where):
        if t.k == "ptr":
            if isinstance(a, SymFn) or isinstance(b, SymFn) or isinstance(a, FnPtr) or isinstance(b, FnPtr):
                if isinstance(b, Ptr) and b.isnull():
                    r = self.pnull(a)
                elif isinstance(a, Ptr) and a.isnull():
                    r = self.pnull(b)
                elif isinstance(a, FnPtr) and isinstance(b, FnPtr):
                    r = a.name == b.name
                else:
                    raise Unsupported("function pointer comparison")
                return r if pred == "eq" else bnot(r)
            if pred in ("eq", "ne"):
                if b.isnull():
                    r = self.pnull(a)
                elif a.isnull():
                    r = self.pnull(b)
                else:
                    r = band(eq(a.obj, b.obj), eq(a.off, b.off))
                return r if pred == "eq" else bnot(r)
            same = eq(a.obj, b.obj)
            if same is not True:
                self.oblige(st, toz(same), "memory: compared pointers are into one object", where)
            x, y = toz(a.off), toz(b.off)
            d = {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred]
            return smp(d)
        if isinstance(a, CT) or isinstance(b, CT):
            raise Unsupported("ctype word compared")
        if isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt):
                same = eq(a.p.obj, b.p.obj)
                if same is not True:
                    self.oblige(st, toz(same), "memory: compared pointers are into one object", where)
                a, b = a.p.off, b.p.off
            else:
                raise Unsupported("integer/pointer comparison")
        if t.k == "i1":
            a, b = self.tobool(a), self.tobool(b)
            r = eq(a, b)
            return r if pred == "eq" else bnot(r)
        if a is OPQ or b is OPQ:
            return self.fresh("opq", B)
        n = bits(t)
        if pred[0] == "u":
            a, b = self.uns(a, n), self.uns(b, n)
        p2 = pred[1:] if pred[0] in "us" else pred
        if isc(a) and isc(b):
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p2]
        x, y = toz(a), toz(b)
        r = {"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: x < y, "le": lambda: x <= y,
             "gt": lambda: x > y, "ge": lambda: x >= y}[p2]()
        return smp(r)

    def binop(self, st, op, t, a, b, flags, where):
        if a is OPQ or b is OPQ or op[0] == "f":
            return OPQ
        if t.k == "i1":
            a, b = self.tobool(a), self.tobool(b)
            if op == "and":
                return smp(band(a, b))
            if op == "or":
                return smp(bor(a, b))
            if op == "xor":
                return smp(bnot(eq(a, b)))
            raise Unsupported("i1 " + op)
        n = bits(t)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
                same = eq(a.p.obj, b.p.obj)
                if same is not True:
                    self.oblige(st, toz(same), "memory: subtracted pointers are into one object", where)
                return sub(a.p.off, b.p.off)
            raise Unsupported("arithmetic on a pointer as an integer")
        if isinstance(a, CT):
            if op == "and" and isc(b):
                return ite(ctype_pred(a.c, b), b, 0)
            raise Unsupported("ctype word arithmetic")
        if op in ("add", "sub", "mul"):
            if op == "mul" and not isc(a) and not isc(b):
                v = toz(a) * toz(b)
            else:
                v = {"add": add, "sub": sub, "mul": mul}[op](a, b)
            if isc(v):
                return self.wrap(st, v, n)
            if "nsw" in flags:
                lo, hi = self.inrange(n)
                g = And(v >= lo, v <= hi)
                if self.opts.get("ovf", "oblige") == "assume":
                    self.assumed.add("signed int arithmetic of counters does not overflow")
                    self.assume(st, g)
                else:
                    self.oblige(st, g, "arithmetic: no signed overflow", where)
                return v
            return self.wrap(st, v, n)
        if op == "sdiv":
            if isc(b) and b != 0:
                if isc(a):
                    q = abs(a) // abs(b)
                    return q if (a >= 0) == (b > 0) else -q
                if b > 0:
                    return If(a >= 0, a / b, -((-a) / b))
            self.oblige(st, toz(bnot(eq(b, 0))), "arithmetic: no division by zero", where)
            q = self.fresh("sdiv")
            self.rangefact(st, q, n)
            az, bz = toz(a), toz(b)
            self.assume(st, If(And(az >= 0, bz > 0), q == az / bz, True))
            return q
        if op == "udiv" and isc(b) and b > 0:
            return self.uns(a, n) // b if isc(a) else toz(self.uns(a, n)) / b
        if op == "srem" and isc(b) and b > 0:
            if isc(a):
                return abs(a) % b * (1 if a >= 0 else -1)
            return If(a >= 0, a % b, -((-a) % b))
        if op == "urem" and isc(b) and b > 0:
            return self.uns(a, n) % b
        if op == "and":
            if isc(a) and isc(b):
                return self.wrap(st, a & b, n)
            if isc(a):
                a, b = b, a
            if isc(b) and b >= 0 and (b & (b + 1)) == 0:
                return a % (b + 1)
            if isc(b) and b < 0 and ((-b) & (-b - 1)) == 0:
                return a - a % (-b)
            if isc(b) and b > 0:
                # sum of the selected bits, in maximal runs
                out, k = 0, 0
                while b >> k:
                    if (b >> k) & 1:
                        j = k
                        while (b >> j) & 1:
                            j += 1
                        out = out + (toz(a) % (1 << j)) - (toz(a) % (1 << k))
                        k = j
                    else:
                        k += 1
                return out
        if op == "or":
            if isc(a) and isc(b):
                return self.wrap(st, a | b, n)
            if isc(a) and a == 0:
                return b
            if isc(b) and b == 0:
                return a
            r = self.fresh("or")
            self.rangefact(st, r, n)
            az, bz = toz(a), toz(b)
            self.assume(st, And((r == 0) == And(az == 0, bz == 0)))
            return r
        if op == "shl" and isc(b) and 0 <= b < n:
            v = mul(a, 1 << b)
            if "nsw" in flags and not isc(v):
                lo, hi = self.inrange(n)
                self.oblige(st, And(v >= lo, v <= hi), "arithmetic: no signed overflow", where)
                return v
            return self.wrap(st, v, n)
        if op == "ashr" and isc(b) and 0 <= b < n:
            return a >> b if isc(a) else toz(a) / (1 << b)
        if op == "lshr" and isc(b) and 0 <= b < n:
            u = self.uns(a, n)
            return u >> b if isc(u) else u / (1 << b)
        r = self.fresh("bits")
        self.rangefact(st, r, n)
        return r

    def cast(self, st, op, v, t0, t1):
        if op == "bitcast":
            return v
        if op == "ptrtoint":
            return PInt(v)
        if op == "inttoptr":
            if isinstance(v, PInt):
                return v.p
            if isc(v) and v == 0:
                return NULL
            raise Unsupported("inttoptr")
        if v is OPQ or op in ("sitofp", "uitofp", "fpext", "fptrunc"):
            return OPQ
        if isinstance(v, CT):
            return v
        if isinstance(v, PInt):
            raise Unsupported("cast of a pointer integer")
        if op == "sext":
            if t0.k == "i1":
                return ite(self.tobool(v), -1, 0)
            return v
        if op == "zext":
            if t0.k == "i1":
                return ite(self.tobool(v), 1, 0)
            n = bits(t0)
            return self.uns(v, n)
        if op == "trunc":
            if t1.k == "i1":
                return smp(toz(v) % 2 == 1) if not isc(v) else bool(v & 1)
            return self.wrap(st, v, bits(t1))
        raise Unsupported(op)

    # ---- execution -------------------------------------------------------------------------
    def where(self, fr, ins):
        ln = self.prog.line_of(fr.mod, ins.dbg)
        return "%s:%s" % (fr.f.name, ln)

    def run_function(self, name, args, st, uid):
        """inline execution; returns [(state, retval)]"""
        f, mod = self.prog.funcs[name]
        self.depth += 1
        if self.depth > 12:
            raise Unsupported("inlining too deep at " + name)
        fr = Frame(f, uid, mod)
        for (t, r), v in zip(f.params, args):
            st.regs[(uid, r)] = v
        exits, rets = self.region(fr, f.entry, [(None, st)], None)
        out = []
        for s, v in rets:
            for k in [k for k in s.notes if k[0] == "stk" and k[1] == uid]:
                o = s.notes.pop(k)       # automatic storage ends here
                self.setmap(s, "alive", Store(self.map(s, "alive"), o, BoolVal(False)), ("obj", o))
            for k in [k for k in s.regs if k[0][:len(uid)] == uid]:
                del s.regs[k]
            if len(uid) > 1:
                for k in [k for k in s.cells if k[0][:len(uid)] == uid]:
                    del s.cells[k]
            out.append((s, v))
        self.depth -= 1
        return out

    def region(self, fr, start, states, loop):
        """Execute the blocks of a region (function body, or a loop body) in topological order.
        returns (exits, rets): exits = [(target, pred, state)] leaving the loop or back to the header."""
        succ, rpo, loops = cfg_info(fr.f)
        pend = {start: list(states)}
        exits, rets = [], []
        first = True
        while pend:
            b = min(pend, key=lambda x: rpo.get(x, 1 << 30))
            sts = pend.pop(b)
            if b in loops and not (loop is not None and b == loop.header):
                if len(sts) > 1 and (self.dry or self.merge != "none"):
                    sts = self.merge_states(fr, b, sts)
                for pred, s in sts:
                    ex, rt = self.handle_loop(fr, loops[b], pred, s)
                    rets.extend(rt)
                    for tgt, pr, s2 in ex:
                        if loop is not None and (tgt == loop.header or tgt not in loop.body):
                            exits.append((tgt, pr, s2))
                        else:
                            pend.setdefault(tgt, []).append((pr, s2))
                continue
            if len(sts) > 1 and (self.dry or self.merge == "all" or len(sts) > self.opts.get("maxpaths", 64)):
                sts = self.merge_states(fr, b, sts)
            for pred, s in sts:
                for kind, x in self.block(fr, b, pred, s):
                    if kind == "ret":
                        rets.append(x)
                    else:
                        tgt, s2 = x
                        if loop is not None and (tgt == loop.header or tgt not in loop.body):
                            exits.append((tgt, b, s2))
                        else:
                            pend.setdefault(tgt, []).append((b, s2))
        return exits, rets

    def block(self, fr, b, pred, st):
        """run one block from st; yields ('ret',(st,v)) / ('goto',(label,st))"""
        work = [(0, st)]
        out = []
        ins = fr.f.blocks[b]
        # phis first
        i0 = 0
        phis = {}
        while i0 < len(ins) and ins[i0].op == "phi":
            t, inc = ins[i0].a
            for v, l in inc:
                if l == pred:
                    phis[ins[i0].res] = self.val(st, fr, v)
                    break
            i0 += 1
        for r, v in phis.items():
            st.regs[(fr.uid, r)] = v
        work = [(i0, st)]
        while work:
            i, s = work.pop()
            while i < len(ins):
                x = ins[i]
                if x.op == "call":
                    outs = self.call(fr, b, i, x, s)
                    if len(outs) == 1:
                        s, v = outs[0]
                        if x.res is not None:
                            s.regs[(fr.uid, x.res)] = v
                        i += 1
                        continue
                    for s2, v in outs:
                        if x.res is not None:
                            s2.regs[(fr.uid, x.res)] = v
                        work.append((i + 1, s2))
                    break
                r = self.step(fr, x, s)
                if r is None:
                    i += 1
                    continue
                out.extend(r)
                break
        return out

    def step(self, fr, x, st):
        op = x.op
        u = fr.uid
        if op == "dbgdeclare":
            return None
        if op == "alloca":
            self.alloca(fr, x, st)
            return None
        if op == "load":
            t, p = x.a
            pv = self.val(st, fr, p)
            st.regs[(u, x.res)] = self.load(st, pv, t, self.where(fr, x))
            return None
        if op == "store":
            v, p = x.a
            self.store(st, self.val(st, fr, p), v[0], self.val(st, fr, v), self.where(fr, x))
            return None
        if op == "getelementptr":
            t, base, idx = x.a
            st.regs[(u, x.res)] = self.gep(st, t, self.val(st, fr, base), [self.val(st, fr, i) for i in idx])
            return None
        if op == "icmp":
            pred, t, a, b = x.a
            st.regs[(u, x.res)] = self.icmp(st, pred, t, self.val(st, fr, a), self.val(st, fr, b), self.where(fr, x))
            return None
        if op == "fcmp":
            st.regs[(u, x.res)] = self.fresh("fcmp", B)
            return None
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "ashr", "lshr",
                  "fadd", "fsub", "fmul", "fdiv"):
            t, a, b, fl = x.a
            if t.k in ("float", "double"):
                st.regs[(u, x.res)] = OPQ
            else:
                st.regs[(u, x.res)] = self.binop(st, op, t, self.val(st, fr, a), self.val(st, fr, b), fl,
                                                 self.where(fr, x))
            return None
        if op in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fpext", "fptrunc",
                  "fptosi", "fptoui"):
            v, t1 = x.a
            st.regs[(u, x.res)] = self.cast(st, op, self.val(st, fr, v), v[0], t1)
            return None
        if op == "select":
            c, a, b = x.a
            cv = self.tobool(self.val(st, fr, c))
            av, bv = self.val(st, fr, a), self.val(st, fr, b)
            st.regs[(u, x.res)] = self.itev(cv, av, bv)
            return None
        if op == "br":
            return [("goto", (x.a[0], st))]
        if op == "condbr":
            c = self.tobool(self.val(st, fr, x.a[0]))
            if c is True:
                return [("goto", (x.a[1], st))]
            if c is False:
                return [("goto", (x.a[2], st))]
            out = []
            nc = bnot(c)
            f1 = self.feasible(st, c)
            f2 = self.feasible(st, nc) if f1 else True
            if f1 and f2:
                s2 = st.copy()
                self.assume(st, c)
                self.assume(s2, nc)
                return [("goto", (x.a[1], st)), ("goto", (x.a[2], s2))]
            if f1:
                self.assume(st, c)
                return [("goto", (x.a[1], st))]
            self.assume(st, nc)
            return [("goto", (x.a[2], st))]
        if op == "switch":
            v, d, cases = x.a
            vv = self.val(st, fr, v)
            out = []
            if isc(vv):
                for k, l in cases:
                    if k == vv:
                        return [("goto", (l, st))]
                return [("goto", (d, st))]
            bylab = {}
            for k, l in cases:
                bylab.setdefault(l, []).append(k)
            for l, ks in bylab.items():
                c = bor(*[vv == k for k in ks])
                if self.feasible(st, c):
                    s2 = st.copy()
                    self.assume(s2, c)
                    out.append(("goto", (l, s2)))
            c = And([vv != k for k, _ in cases])
            if self.feasible(st, c):
                self.assume(st, c)
                out.append(("goto", (d, st)))
            return out
        if op == "ret":
            v = x.a[0]
            return [("ret", (st, self.val(st, fr, v) if v is not None else None))]
        if op == "unreachable":
            return []
        raise Unsupported("instruction " + x.txt)

    def itev(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.tag == b.tag or (not a.tag and b.isnull()) or (not b.tag and a.isnull()):
                return Ptr(ite(c, a.obj, b.obj), ite(c, a.off, b.off), a.tag if a.tag == b.tag else None)
            ta = None if a.tag and a.tag[0] in ("glob",) else a.tag
            tb = None if b.tag and b.tag[0] in ("glob",) else b.tag
            if ta == tb or a.isnull() or b.isnull():
                return Ptr(ite(c, a.obj, b.obj), ite(c, a.off, b.off), ta or tb)
            raise Unsupported("merge of pointers %r %r" % (a, b))
        if isinstance(a, bool) or isinstance(b, bool) or (is_expr(a) and z3.is_bool(a)):
            return smp(If(c, toz(a), toz(b)))
        if isinstance(a, CT) and isinstance(b, CT):
            return CT(ite(c, a.c, b.c))
        if isinstance(a, PInt) and isinstance(b, PInt):
            return PInt(self.itev(c, a.p, b.p))
        if isinstance(a, (Ptr, FnPtr, SymFn, CT, PInt)) or isinstance(b, (Ptr, FnPtr, SymFn, CT, PInt)):
            if type(a) == type(b) and getattr(a, "name", 1) == getattr(b, "name", 2):
                return a
            raise Unsupported("merge of %r and %r" % (a, b))
        if a is OPQ or b is OPQ:
            return OPQ
        return ite(c, a, b)

    # ---- merging ------------------------------------------------------------------------------
    def merge_states(self, fr, b, sts):
        """merge several states arriving at block b (phi values are resolved first)"""
        ins = fr.f.blocks[b]
        for pred, s in sts:
            vals = {}
            for x in ins:
                if x.op != "phi":
                    break
                for v, l in x.a[1]:
                    if l == pred:
                        vals[x.res] = self.val(s, fr, v)
            for r, v in vals.items():
                s.regs[(fr.uid, r)] = v
        live = [s for _, s in sts]
        try:
            m = self.merge_list(live)
        except Unsupported:
            return [(p, s) for p, s in sts]
        return [(MERGED, m)]

    def merge_list(self, live):
        n = min(len(s.pc) for s in live)
        k = 0
        while k < n and all(s.pc[k].get_id() == live[0].pc[k].get_id() for s in live):
            k += 1
        m = live[0].copy()
        m.pc = list(live[0].pc[:k])
        bs = [self.fresh("br", B) for _ in live]
        m.pc.append(Or(*bs))
        for b, s in zip(bs, live):
            for c in s.pc[k:]:
                m.pc.append(Implies(b, c))

        def comb(vals):
            r = vals[-1]
            for b, v in zip(reversed(bs[:-1]), reversed(vals[:-1])):
                if same_val(v, r):
                    continue
                r = self.itev(b, v, r)
            return r
        for name in set().union(*[set(s.maps) for s in live]):
            vals = [self.map(s, name) for s in live]
            r = vals[-1]
            for b, v in zip(reversed(bs[:-1]), reversed(vals[:-1])):
                if v.eq(r):
                    continue
                r = If(b, v, r)
            if is_expr(r) and z3.is_app(r) and r.decl().kind() == z3.Z3_OP_ITE:
                c = self.fresh("mg:" + name, r.sort())
                m.pc.append(And(*[Implies(b, c == v) for b, v in zip(bs, vals)]))
                r = c
            m.maps[name] = r
        for key in set().union(*[set(s.cells) for s in live]):
            if all(key in s.cells for s in live):
                m.cells[key] = comb([s.cells[key] for s in live])
            else:
                m.cells.pop(key, None)
        for key in set().union(*[set(s.regs) for s in live]):
            if all(key in s.regs for s in live):
                try:
                    m.regs[key] = comb([s.regs[key] for s in live])
                except Unsupported:
                    m.regs.pop(key, None)
            else:
                m.regs.pop(key, None)
        m.untyped = set.intersection(*[s.untyped for s in live])
        m.notes = {k: v for k, v in live[0].notes.items() if all(k in s.notes for s in live)}
        return m

    # ---- alloca -----------------------------------------------------------------------------------
    def alloca(self, fr, x, st):
        t, cnt = x.a
        u = fr.uid
        if cnt is not None:
            n = self.val(st, fr, cnt)
            if not (isc(n) and n == 1):
                # variable length array
                if not isc(n):
                    self.oblige(st, toz(n) >= 0, "memory: array length is not negative", self.where(fr, x))
                o = self.new_object(st, mul(n, self.prog.sizeof(t)), "vla")
                st.notes[("stk", u, x.res)] = o
                st.regs[(u, x.res)] = Ptr(o, 0)
                return
        if t.k in ("arr", "struct"):
            o = self.new_object(st, self.prog.sizeof(t), "loc")
            st.notes[("stk", u, x.res)] = o
            if t.k == "struct":
                self.settype(st, o, self.prog.sname(t.a))
            else:
                e = t
                while e.k == "arr":
                    e = e.b
                if e.k != "struct":
                    self.settype(st, o, "raw:" + self.rawname(e))
            st.regs[(u, x.res)] = Ptr(o, 0)
            return
        key = (u, x.res)
        st.cells.pop(key, None)
        st.regs[(u, x.res)] = Ptr(0, 0, ("cell", key))

    # ---- calls --------------------------------------------------------------------------------------
    def call(self, fr, b, i, x, st):
        rt, callee, args = x.a
        where = self.where(fr, x)
        if callee[0] == "glob":
            name = callee[1]
        elif callee[0] == "reg":
            fv = st.regs[(fr.uid, callee[1])]
            if isinstance(fv, FnPtr):
                name = fv.name
            elif isinstance(fv, SymFn):
                name = "*" + fv.name
            else:
                name = "*"
        else:
            raise Unsupported("callee")
        if name.startswith("llvm.lifetime") or name.startswith("llvm.dbg"):
            return [(st, None)]
        av = [self.val(st, fr, a) if a[0].k != "metadata" else None for a in args]
        at = [a[0] for a in args]
        if name in ("llvm.stacksave", "llvm.stacksave.p0"):
            return [(st, NULL)]
        if name.startswith("llvm.stackrestore"):
            return [(st, None)]
        c = self.contracts.get(name)
        if c is not None and not (c.inline_in and self.top in c.inline_in):
            self.called.add(name)
            return c.apply(self, st, av, where)
        sp = self.specs.get(name)
        if sp is None and name.startswith("*"):
            sp = self.specs.get("*")
        if sp is not None:
            self.called.add(name)
            r = sp(self, st, av, where, rt, at)
            if isinstance(r, list):
                return r
            return [(st, r)]
        if name in self.prog.funcs:
            self.inlined.add(name)
            return self.run_function(name, av, st, fr.uid + ((name, b, i),))
        raise Unsupported("call of %s without contract, specification or body" % name)

    # ---- loops -----------------------------------------------------------------------------------------
    def havoc(self, st, W, serial0, ent):
        """havoc the cells/maps in W; ent: state at loop entry"""
        notes = []
        for key in W.cells:
            if key in st.cells:
                old = st.cells[key]
                nm = key[1]
                if isinstance(old, Ptr):
                    if old.tag and old.tag[0] == "cell":
                        raise Unsupported("pointer to local modified in loop")
                    kindtag = None
                    st.cells[key] = Ptr(self.fresh(nm + ".o"), self.fresh(nm + ".p"), kindtag)
                elif isinstance(old, (FnPtr, SymFn, CTab)):
                    raise Unsupported("function pointer modified in loop")
                elif old is OPQ:
                    pass
                elif isinstance(old, bool) or (is_expr(old) and z3.is_bool(old)):
                    st.cells[key] = self.fresh(nm, B)
                else:
                    v = self.fresh(nm)
                    b = self.cellbits(key)
                    self.rangefact(st, v, b)
                    st.cells[key] = v
        framers = {}
        for m, ws in W.maps.items():
            cur = self.map(st, m)
            objs, full = [], False
            for w in ws:
                if w[0] == "obj" and self.serial_of(w[1]) <= serial0:
                    if not any(o.eq(w[1]) for o in objs):
                        objs.append(w[1])
                else:
                    full = True
            if full:
                nv = self.fresh("h:" + m, cur.sort())
                st.maps[m] = nv
                framers[m] = ws
            else:
                for o in objs:
                    es = cur.sort().range()
                    cur = Store(cur, o, self.fresh("h:" + m, es))
                st.maps[m] = self.named(cur, m)
        st.untyped = set()
        return framers

    def cellbits(self, key):
        uid, reg = key
        fname = uid[-1][0] if len(uid) > 1 else uid[0]
        f, _ = self.prog.funcs[fname if isinstance(fname, str) else fname[0]]
        t = f.allocs[reg][0]
        return bits(t)

    def celltype(self, key):
        """ditype of a local scalar, from the debug info"""
        uid, reg = key
        fname = uid[-1][0] if len(uid) > 1 else uid[0]
        f, mod = self.prog.funcs[fname]
        return self.prog.local_type(f, mod, reg)

    def handle_loop(self, fr, L, pred, st):
        key = (fr.uid, L.header)
        # resolve phis of the header on entry: clang -O0 loops have none that are loop-carried,
        # except short-circuit values, which are recomputed in the body
        hdr = fr.f.blocks[L.header]
        if hdr and hdr[0].op == "phi" and pred is not MERGED:
            pass
        if self.opts.get("unroll") and not self.dry:
            # exact, when the loop ends by itself within a few rounds on every path
            n = len(self.obls)
            ss, exs, rts = [(pred, st.copy())], [], []
            for _ in range(self.opts["unroll"]):
                ex, rt = self.region(fr, L.header, ss, L)
                rts += rt
                exs += [x for x in ex if x[0] != L.header]
                ss = [(p, s) for t, p, s in ex if t == L.header]
                if not ss:
                    return exs, rts
            del self.obls[n:]
        serial0 = next(self.n)
        # 1. write discovery
        W = WriteSet()
        self.dry += 1
        for _ in range(8):
            s = st.copy()
            before = W.size()
            self.havoc(s, W, serial0, st)
            self.wstack.append(W2 := WriteSet())
            ex, rt = self.region(fr, L.header, [(pred, s)], L)
            self.wstack.pop()
            W.cells.update(W2.cells)
            for m, ws in W2.maps.items():
                lst = W.maps.setdefault(m, [])
                for w in ws:
                    if w[0] == "obj":
                        if any(v[0] == "obj" and v[1].eq(w[1]) for v in lst):
                            continue
                        if self.serial_of(w[1]) > serial0:
                            if any(v[0] == "inst" for v in lst):
                                continue
                            lst.append(("inst",))
                            continue
                    elif w[0] == "mod" and w[3] > serial0:
                        if not any(v[0] == "inst" for v in lst):
                            lst.append(("inst",))
                        continue
                    elif w[0] == "mod":
                        if any(v[0] == "mod" and v[2] == w[2] for v in lst):
                            continue
                    elif any(v[0] == w[0] for v in lst):
                        continue
                    lst.append(w)
            if W.size() == before:
                break
        self.dry -= 1
        for ow in self.wstack:
            ow.cells.update({k: True for k in W.cells})
            for m, ws in W.maps.items():
                ow.maps.setdefault(m, []).extend(ws)
        if self.dry:
            s = st.copy()
            self.havoc(s, W, serial0, st)
            return self.split_exits(self.region(fr, L.header, [(pred, s)], L), L)
        # 2. candidates
        probe = st.copy()
        fram = self.havoc(probe, W, serial0, st)
        lctx = LoopCtx(self, fr, L, st, W, fram, key)
        cands = []
        for tmpl in [frame_templates, cell_templates] + self.extra_templates:
            cs = tmpl(lctx)
            if tmpl not in (frame_templates, cell_templates):
                cs = [(c[0], c[1], "hint") for c in cs]
            cands.extend(cs)
        if key in self.loopcache:
            keep = self.loopcache[key]
            cands = [c for c in cands if c[0] in keep]
        total = len(cands)
        # 3. initiation
        cands = [c for c in cands if self.holds(st, c, st)]
        # 4. consecution
        rounds = 0
        while True:
            rounds += 1
            h = st.copy()
            self.havoc(h, W, serial0, st)
            for c in cands:
                for g in c[1](h):
                    self.assume(h, g)
            if not cands:
                break
            self.suppress += 1
            ex, rt = self.region(fr, L.header, [(pred, h.copy())], L)
            self.suppress -= 1
            backs = [s for t, p, s in ex if t == L.header]
            drop = []
            for c in cands:
                for s in backs:
                    if not self.holds(s, c, st):
                        drop.append(c[0])
                        break
            if self.log and self.opts.get("vv"):
                self.log("    loop %s round %d: %d candidates, drop %s" % (L.header, rounds, len(cands), drop))
            if not drop:
                break
            cands = [c for c in cands if c[0] not in drop]
        self.loopcache[key] = set(c[0] for c in cands)
        if not self.suppress:
            self.loopstats.append((fr.f.name, L.header, total, [c[0] for c in cands]))
            # record the inductiveness obligations that were discharged
            for c in cands:
                self.obls.append(Obligation("loop invariant: " + c[0], True, "z3", 0.0, "%s:%s" % (fr.f.name, L.header)))
        # 5. final pass
        ex, rt = self.region(fr, L.header, [(pred, h)], L)
        return self.split_exits((ex, rt), L)

    def split_exits(self, er, L):
        ex, rt = er
        return [(t, p, s) for t, p, s in ex if t != L.header], rt

    def holds(self, st, cand, ent):
        try:
            gs = cand[1](st)
        except KeyError:
            return False
        for g in gs:
            t0 = time.time()
            ok, how = self.check(st, g, self.hint_timeout if cand[2:] else self.cand_timeout, 2 if cand[2:] else 1)
            if self.log and self.opts.get("vv") and time.time() - t0 > 1:
                self.log("      %.1fs %s: %s" % (time.time() - t0, cand[0], how))
            if not ok:
                return False
        return True


MERGED = object()


def same_val(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return same_val(a.obj, b.obj) and same_val(a.off, b.off) and a.tag == b.tag
    if isc(a) and isc(b):
        return a == b and type(a) == type(b)
    if is_expr(a) and is_expr(b):
        return a.eq(b)
    return a is b


class CTab:
    """value returned by __ctype_b_loc(), and pointers derived from it"""

    def __init__(self, kind, idx=0):
        self.kind, self.idx = kind, idx

    def load(self):
        if self.kind == "loc":
            return CTab("tab", 0)
        return CT(self.idx)


# C locale character classes, glibc bit masks (<ctype.h>, little endian)
CLASSES = {256: "upper", 512: "lower", 1024: "alpha", 2048: "digit", 4096: "xdigit", 8192: "space", 16384: "print",
           32768: "graph", 1: "blank", 2: "cntrl", 4: "punct", 8: "alnum"}


def in_class(ch, cls):
    c = chr(ch)
    if ch > 127:
        return False
    U, Lw, D = "A" <= c <= "Z", "a" <= c <= "z", "0" <= c <= "9"
    return {"upper": U, "lower": Lw, "alpha": U or Lw, "digit": D, "alnum": U or Lw or D,
            "xdigit": D or "a" <= c <= "f" or "A" <= c <= "F", "space": ch in (32, 9, 10, 11, 12, 13),
            "print": 32 <= ch < 127, "graph": 32 < ch < 127, "blank": ch in (32, 9), "cntrl": ch < 32 or ch == 127,
            "punct": 32 < ch < 127 and not (U or Lw or D)}[cls]


def ctype_pred(c, mask):
    """formula: the class bit(s) `mask` are set for character c (C locale; c in -128..255)"""
    out = []
    for m, cls in CLASSES.items():
        if mask & m or (mask < 0 and (mask & 0xffff) & m):
            k = 0
            while k < 128:
                if in_class(k, cls):
                    j = k
                    while j + 1 < 128 and in_class(j + 1, cls):
                        j += 1
                    if isc(c):
                        out.append(k <= c <= j)
                    else:
                        out.append(c == k if j == k else And(c >= k, c <= j))
                    k = j + 1
                else:
                    k += 1
    return bor(*out)


class LoopCtx:
    def __init__(self, eng, fr, L, ent, W, framers, key):
        self.eng, self.fr, self.L, self.ent, self.W, self.framers, self.key = eng, fr, L, ent, W, framers, key

    def changed_cells(self):
        return [k for k in self.W.cells if k in self.ent.cells]

    def all_cells(self):
        return list(self.ent.cells)


def frame_templates(lc):
    """Frame of fully havocked maps: objects not covered by the recorded write predicates keep their value."""
    e, ent = lc.eng, lc.ent
    out = []
    al0 = e.map(ent, "alive")
    x = Const("o?f", I)
    for m, ws in lc.framers.items():
        m0 = e.map(ent, m)
        mods = [w for w in ws if w[0] == "mod"]
        objs = [w[1] for w in ws if w[0] == "obj"]
        inst = any(w[0] in ("inst", "all") for w in ws)
        base = [x != o for o in objs]

        def mk(cond, m=m, m0=m0, guard=True):
            def f(st):
                cur = e.map(st, m)
                return [ForAll([x], Implies(And(Select(al0, x) if guard else True, *cond), Select(cur, x) == Select(m0, x)),
                               patterns=[Select(cur, x)])]
            return f
        c0 = list(base)
        for w in mods:
            c0.append(Not(w[1](e, ent, x)))
        if not inst:
            out.append(("frame %s: outside the callee's footprint" % m, mk(c0)))
        own0 = e.map(ent, "own")
        if e.opts.get("owners"):
            for lab, L in e.opts["owners"](lc):
                out.append(("frame %s: not owned by %s" % (m, lab), mk(c0 + [Select(own0, x) != toz(L)])))
                out.append(("strict frame %s: not owned by %s" % (m, lab), mk(c0 + [Select(own0, x) != toz(L)], guard=False)))
        if m == "alive":
            out.append(("nothing comes to life", lambda st: [ForAll([x], Implies(
                Select(e.map(st, "alive"), x), Select(al0, x)), patterns=[Select(e.map(st, "alive"), x)])]))
        if inst and m in ("alive",):
            out.append(("frame alive: grows", lambda st, m=m: [ForAll([x], Implies(
                Select(al0, x), Select(e.map(st, "alive"), x)), patterns=[Select(e.map(st, "alive"), x)])]))
        if m == "alive":
            out.append(("alive grows", lambda st: [ForAll([x], Implies(
                Select(al0, x), Select(e.map(st, "alive"), x)), patterns=[Select(e.map(st, "alive"), x)])]))
        if m in ("size", "typ", "own"):
            out.append(("%s fixed for existing objects" % m, lambda st, m=m, m0=m0: [ForAll([x], Implies(
                Select(al0, x), Select(e.map(st, m), x) == Select(m0, x)), patterns=[Select(e.map(st, m), x)])]))
    return out


def cell_templates(lc):
    """Generic relations between scalar cells: bounds against entry values, constancy, same object."""
    e, ent = lc.eng, lc.ent
    out = []
    for k in lc.changed_cells():
        v0 = ent.cells[k]
        nm = "%s" % (k[1],)
        if isinstance(v0, Ptr):
            out.append(("%s stays in its object" % nm, lambda st, k=k, v0=v0: [toz(eq(st.cells[k].obj, v0.obj))]))
            out.append(("%s offset >= entry" % nm, lambda st, k=k, v0=v0: [toz(st.cells[k].off) >= toz(v0.off)]))
            out.append(("%s offset <= entry" % nm, lambda st, k=k, v0=v0: [toz(st.cells[k].off) <= toz(v0.off)]))
            out.append(("%s at object start" % nm, lambda st, k=k, v0=v0: [toz(eq(st.cells[k].off, 0))]))
        elif is_expr(v0) and z3.is_bool(v0) or isinstance(v0, bool):
            pass
        elif isc(v0) or is_expr(v0):
            out.append(("%s >= entry" % nm, lambda st, k=k, v0=v0: [toz(st.cells[k]) >= toz(v0)]))
            out.append(("%s <= entry" % nm, lambda st, k=k, v0=v0: [toz(st.cells[k]) <= toz(v0)]))
            if not (isc(v0) and v0 == 0):
                out.append(("%s >= 0" % nm, lambda st, k=k: [toz(st.cells[k]) >= 0]))
    return out


# primitive type objects used by the engine
class _T:
    def __init__(self, k):
        self.k = k
        self.a = self.b = None


P_T, I64_T, I32_T, I8_T = _T("ptr"), _T("i64"), _T("i32"), _T("i8")
