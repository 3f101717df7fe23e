"""Contracts: requires / ensures / modifies / ghost, and the verification of a function against one."""
import time, traceback
import z3
from z3 import (And, Or, Not, Implies, ForAll, Select, Store, Const, IntSort, BoolVal, IntVal, is_expr)
from .sym import *
from .sym import A1, AB, A2, I, B, R


class V:
    """Read access to one state, for contracts."""

    def __init__(self, e, st):
        self.e, self.st = e, st

    def f(self, S, f, obj):
        return self.e.fld(self.st, S, f, obj)

    def m(self, name, sort=None):
        return self.e.map(self.st, name, sort)

    def alive(self, o):
        return Select(self.m("alive"), toz(o))

    def typ(self, o, S):
        return Select(self.m("typ"), toz(o)) == self.e.prog.typeid(S)

    def own(self, o):
        return Select(self.m("own"), toz(o))

    def size(self, o):
        return Select(self.m("size"), toz(o))

    def arr(self, o):
        return Select(self.m("Mi8", A2), toz(o))

    def valid(self, o, S):
        return And(toz(o) != 0, self.alive(o), self.typ(o, S))

    def slen(self, p):
        self.e.slen_def(self.arr(p.obj), toz(p.off))
        return SLEN(self.arr(p.obj), toz(p.off))

    def cstr(self, p):
        """p points at a NUL-terminated string inside a live byte buffer"""
        n = self.slen(p)
        return And(toz(p.obj) != 0, self.alive(p.obj), self.typ(p.obj, "raw:i8"), toz(p.off) >= 0, n >= 0,
                   toz(p.off) + n < self.size(p.obj))

    def sid(self, p):
        return SID(self.arr(p.obj), toz(p.off))


class Mod:
    """footprint: which existing objects a map may change at"""

    strict = False      # strict: objects that are not alive are not touched either (nothing is allocated)

    def __init__(self, terms, fn):
        self.terms, self.fn = terms, fn

    def key(self):
        return tuple(str(t) for t in self.terms)

    def __call__(self, e, st, x):
        return self.fn(e, st, x)


FRESH = Mod([], lambda e, st, x: False)


def OWN(*ls):
    return Mod(list(ls), lambda e, st, x: Or(*[Select(e.map(st, "own"), x) == toz(l) for l in ls]))


def OBJ(*os):
    return Mod(list(os), lambda e, st, x: Or(*[x == toz(o) for o in os]))


def STRICT(m):
    m.strict = True
    return m


def OWNOBJ(ls, os):
    return Mod(list(ls) + list(os), lambda e, st, x: Or(*([Select(e.map(st, "own"), x) == toz(l) for l in ls] +
                                                          [x == toz(o) for o in os])))


ALLOC = {"alive": FRESH, "size": FRESH, "typ": FRESH, "own": FRESH, "heap": FRESH}


class Ctx:
    def __init__(self, e, pre, args):
        self.e, self.args = e, args
        self.pre = V(e, pre)
        self.post = None
        self.ret = None


class Contract:
    """One function contract; subclasses or keyword functions give the clauses.
      requires(c) -> [(label, formula)]
      modifies(c) -> {map: predicate(engine, state, objvar) or None for 'whole map'}
      ensures(c)  -> [(label, formula)]   over c.pre, c.post, c.args, c.ret
      ghost(c, st)-> update ghost maps of the exit state (verification side only)
      hints(lc)   -> loop invariant candidates
    """

    def __init__(self, name, requires=None, ensures=None, modifies=None, ghost=None, hints=None, outparams=(),
                 trusted=False, opts=None, frees=False, setup=None, assumes=None, inline_in=None, retkind=None):
        self.name = name
        self._req, self._ens, self._mod, self._ghost, self._hints = requires, ensures, modifies, ghost, hints
        self.outparams, self.trusted, self.opts = outparams, trusted, opts or {}
        self.setup, self.assumes = setup, assumes
        self.inline_in = inline_in
        self.retkind = retkind

    def requires(self, c):
        return self._req(c) if self._req else []

    def ensures(self, c):
        return self._ens(c) if self._ens else []

    def modifies(self, c):
        return self._mod(c) if self._mod else {}

    # ---- call side ----------------------------------------------------
    def apply(self, e, st, args, where):
        pre = st.copy()
        c = Ctx(e, pre, args)
        for lab, g in self.requires(c):
            e.oblige(st, g, "precondition of %s: %s" % (self.name, lab), where)
        mods = self.modifies(c)
        x = Const("o?c", I)
        al0 = e.map(pre, "alive")
        for m, pred in mods.items():
            old = e.map(st, m)
            new = e.fresh("c:" + m, old.sort())
            if pred is None:
                e.setmap(st, m, new, ("all",))
                continue
            p = pred(e, pre, x)
            ser = max([e.serial_of(t) for t in pred.terms] + [0])
            w = ("mod", pred, (self.name, m) + pred.key(), ser)
            e.setmap(st, m, new, w)
            e.assume(st, ForAll([x], Implies(And(True if pred.strict else Select(al0, x), Not(toz(p))),
                                             Select(new, x) == Select(old, x)),
                                patterns=[Select(new, x)]))
        f = e.prog.funcs.get(self.name)
        rt = f[0].ret if f else None
        c.post = V(e, st)
        c.outs = {}
        for i in self.outparams:
            v = e.fresh("out%d" % i)
            e.rangefact(st, v, 32)
            c.outs[i] = v
            c.args_old = None
        if self.retkind is not None:
            c.ret = self.retkind(e, st)
        elif rt is not None and rt.k != "void":
            v = e.fresh_val(st, rt, "ret")
            if rt.k == "ptr" and self.ret_struct(e):
                v = Ptr(v.obj, 0)
            c.ret = v
        for lab, g in self.ensures(c):
            e.assume(st, g)
        for i in self.outparams:
            if isinstance(args[i], Ptr):
                e.store(st, args[i], I32_T, c.outs[i], where)
        return [(st, c.ret)]

    def ret_struct(self, e):
        f, m = e.prog.funcs[self.name]
        if f.dbg is None:
            return False
        import re
        body = m.md[f.dbg]
        t = m.md[m.mdfield(body, "type").lstrip("!")]
        lst = re.findall(r"!(\d+)|(null)", m.md[m.mdfield(t, "types").lstrip("!")])
        r = m.ditype(lst[0][0]) if lst and lst[0][0] else ("void",)
        return r[0] == "ptr" and r[1][0] == "struct"

    # ---- callee side -----------------------------------------------------
    def verify(self, prog, contracts, specs, opts=None, templates=(), log=None):
        o = dict(self.opts)
        o.update(opts or {})
        if log:
            o["log"] = log
        e = Engine(prog, contracts, specs, o)
        e.top = self.name
        e.contract = self
        res = Result(self.name, e)
        t0 = time.time()
        try:
            if self.name not in prog.funcs:
                e.obls.append(Obligation("function %s exists" % self.name, False, "missing", 0))
                return res
            f, m = prog.funcs[self.name]
            st = State()
            args = []
            dts = prog.ditypes(self.name)
            for k, ((t, r), d) in enumerate(zip(f.params, dts)):
                args.append(make_arg(e, st, t, r, d, k if k in self.outparams else False))
            e.args = args
            if self.setup:
                self.setup(e, st, args)
            c = Ctx(e, st.copy(), args)
            e.ctx = c
            for lab, g in self.requires(c):
                e.assume(st, g)
            if self.assumes:
                for lab, g in self.assumes(c):
                    e.assume(st, g)
                    e.assumed.add(lab)
            # the precondition must be satisfiable: `false` must not follow from it
            ok, how = e.check(st, False, 2000, 1)
            if ok:
                e.obls.append(Obligation("precondition of %s is satisfiable" % self.name, False, "vacuous", 0))
                return res
            if templates:
                e.extra_templates.extend(templates)
            if self._hints:
                e.extra_templates.append(self._hints)
            pre = st.copy()
            c.pre = V(e, pre)
            rets = e.run_function(self.name, args, st, (self.name,))
            res.paths = len(rets)
            if not rets:
                e.obls.append(Obligation("some path of %s returns" % self.name, False, "no path", 0))
            for s, v in rets:
                if self.outparams:
                    c.outs = {i: s.cells.get(("out", i)) for i in self.outparams}
                c.ret = v
                c.post = V(e, s)
                c.pre = V(e, pre)
                if self._ghost:
                    self._ghost(c, s)
                for lab, g in self.ensures(c):
                    e.oblige(s, g, "postcondition: " + lab, self.name)
                self.check_frame(e, c, pre, s)
        except Unsupported as x:
            e.obls.append(Obligation("within the verifier's reach: %s" % x, False, "unsupported", 0))
            res.error = traceback.format_exc()
        except z3.Z3Exception as x:
            e.obls.append(Obligation("within the verifier's reach: %s" % x, False, "unsupported", 0))
            res.error = traceback.format_exc()
        except (KeyError, AttributeError, TypeError, ValueError, IndexError, RecursionError) as x:
            e.obls.append(Obligation("within the verifier's reach: %r" % x, False, "unsupported", 0))
            res.error = traceback.format_exc()
        finally:
            res.t = time.time() - t0
        return res

    def check_frame(self, e, c, pre, s):
        mods = self.modifies(c)
        al0 = e.map(pre, "alive")
        x = e.fresh("o?frame")
        for m in sorted(s.maps):
            if m in ("size", "typ", "own", "alive", "heap") and m not in mods:
                cur, old = e.map(s, m), e.map(pre, m)
                if not cur.eq(old):
                    e.oblige(s, Implies(Select(al0, x), Select(cur, x) == Select(old, x)),
                             "frame: %s of existing objects is unchanged" % m, self.name)
                continue
            cur, old = e.map(s, m), e.map(pre, m)
            if cur.eq(old):
                continue
            if m in mods and mods[m] is None:
                continue
            p = mods[m](e, pre, x) if m in mods else False
            g = True if m in mods and mods[m].strict else Select(al0, x)
            e.oblige(s, Implies(And(g, Not(toz(p))), Select(cur, x) == Select(old, x)),
                     "frame: %s unchanged outside the modifies clause" % m, self.name)


class Result:
    def __init__(self, name, e):
        self.name, self.e = name, e
        self.t = 0
        self.paths = 0
        self.error = None

    def ok(self):
        return bool(self.e.obls) and all(o.ok for o in self.e.obls)

    def failed(self):
        return [o for o in self.e.obls if not o.ok]


def make_arg(e, st, t, r, d, out):
    if t.k == "ptr":
        if out is not False:
            v = e.fresh("out." + r)
            e.rangefact(st, v, 32)
            st.cells[("out", out)] = v
            return Ptr(0, 0, ("cell", ("out", out)))
        if d and d[0] == "ptr" and d[1][0] == "struct":
            return Ptr(e.fresh("arg." + r), 0)
        if d and d[0] == "ptr" and d[1][0] == "fn":
            return SymFn("callback")
        return Ptr(e.fresh("arg." + r + ".o"), e.fresh("arg." + r + ".p"))
    v = e.fresh("arg." + r)
    e.rangefact(st, v, bits(t))
    return v
