"""Symbolic execution, path by path, of the table-driven scanners that Ragel generates, from the LLVM IR.

A parser function is cut at the head of its outermost loop.  For every value of the state register `cs` the loop body is
executed once, from the cut back to the cut (or to the return), with every other cell symbolic; each complete path gives a
summary: the conditions on the cells' initial values and on the input bytes under which it is taken, the observable events
in order, and the final value of every cell written.  Nothing is assumed about the tables or the actions: they are read from
the IR.  ragfix.py checks an inductive invariant edge by edge over these summaries.

values   int                      integers, characters of constant tables, null pointers (0)
         ('p', object, offset)    pointer into a global or a local variable
         ('fn', name)             function
         ('t', base, k)           initial value of a cell plus k, or the buffer start ('B') / end ('E') / skip target plus k
         ('u', base, k)           the integer (base + k) - buffer
         ('c', key, add)          input byte at position key = (base, k) as a signed char, plus add
         ('cb',) ('ud',) ('cnt',) the parameters callback, userdata and count
         ('Q', i) ('qv', f)       queue iterator and the fields of the item it is at
         ('x', n)                 an unknown value
conditions  ('==', x, y, c)  x - y == c   (y None: x == c)      ('<=', x, y, c)  x - y <= c
"""
import re
from .sym import bits
from .ir import Ty

ALL = (1 << 256) - 1          # every byte value, bit v + 128
NUL = 1 << 128


class Unsup(Exception):
    pass


def sccs(nodes, succ):
    """strongly connected components (iterative Tarjan)"""
    idx, low, on, st, out, n = {}, {}, set(), [], [], 0
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in succ(v):
                        out.append(c)
    return out


class Fn:
    """a function decoded for execution"""

    def __init__(self, eng, name):
        f, m = eng.prog.funcs[name]
        self.name, self.entry, self.params, self.eng = name, f.entry, [r for t, r in f.params], eng
        self.ptys = [t for t, r in f.params]
        self.raw = f.blocks
        self.blocks = {}
        self.allocas = {}
        for b, ins in f.blocks.items():
            for x in ins:
                if x.op == "alloca":
                    self.allocas[x.res] = x.a[0]
        self.m = m

    def block(self, b):
        r = self.blocks.get(b)
        if r is None:
            r = self.blocks[b] = [y for y in (self.decode(x) for x in self.raw[b]) if y is not None]
        return r

    def v(self, tv):
        t, c = tv
        if c[0] == "reg":
            return (True, c[1])
        return (False, self.eng.const(c, t))

    def decode(self, x):
        op, a = x.op, x.a
        if op == "dbgdeclare":
            return None
        ln = x.dbg
        P = self.eng.prog
        if op == "alloca":
            return None
        if op == "load":
            return ("load", x.res, self.v(a[1]), a[0], ln)
        if op == "store":
            return ("store", None, self.v(a[1]), self.v(a[0]), a[0][0], ln)
        if op == "getelementptr":
            idx = []
            cur, sz = a[0], P.sizeof(a[0])
            idx.append((self.v(a[2][0]), sz, None))
            off = 0
            for i in a[2][1:]:
                if cur.k == "arr":
                    es = P.sizeof(cur.b)
                    idx.append((self.v(i), es, cur.a))
                    cur = cur.b
                else:
                    k = i[1][1]
                    off += P.layout(cur)[0][k]
                    cur = P.fields(cur)[k]
            return ("gep", x.res, self.v(a[1]), idx, off, ln)
        if op == "icmp":
            return ("icmp", x.res, a[0], self.v(a[2]), self.v(a[3]), a[1], ln)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "ashr", "lshr", "sdiv", "udiv", "srem", "urem"):
            return ("bin", x.res, op, self.v(a[1]), self.v(a[2]), a[0], ln)
        if op in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
            return ("conv", x.res, op, self.v(a[0]), a[0][0], a[1], ln)
        if op == "br":
            return ("br", None, a[0], ln)
        if op == "condbr":
            return ("condbr", None, self.v(a[0]), a[1], a[2], ln)
        if op == "switch":
            return ("switch", None, self.v(a[0]), a[1], [(self.eng.sgn(c, a[0][0]), l) for c, l in a[2]], a[0][0], ln)
        if op == "phi":
            return ("phi", x.res, [(self.v(v), l) for v, l in a[1]], ln)
        if op == "select":
            return ("select", x.res, self.v(a[0]), self.v(a[1]), self.v(a[2]), ln)
        if op == "ret":
            return ("ret", None, None if a[0] is None else self.v(a[0]), ln)
        if op == "unreachable":
            return ("unreachable", None, ln)
        if op == "call":
            c = a[1]
            if c[0] == "glob" and c[1].startswith("llvm.dbg"):
                return None
            return ("call", x.res, (True, c[1]) if c[0] == "reg" else (False, self.eng.const(c, None)), [self.v(z) for z in a[2]], ln)
        return ("unsup", None, x.txt, ln)


class Frame:
    __slots__ = ("fn", "b", "i", "prev", "regs", "ret", "id")

    def copy(self):
        f = Frame()
        f.fn, f.b, f.i, f.prev, f.regs, f.ret, f.id = self.fn, self.b, self.i, self.prev, dict(self.regs), self.ret, self.id
        return f


class Path:
    __slots__ = ("frames", "mem", "masks", "order", "facts", "guards", "events", "qs", "qit", "seen", "skips", "known", "end", "steps",
                 "reads", "nframe")

    def copy(self):
        p = Path()
        p.frames = self.frames[:-1] + [self.frames[-1].copy()]
        p.mem, p.masks, p.facts = dict(self.mem), dict(self.masks), dict(self.facts)
        p.order = list(self.order)
        p.guards, p.events = list(self.guards), list(self.events)
        p.qs, p.qit, p.seen, p.skips, p.known = self.qs, self.qit, set(self.seen), self.skips, dict(self.known)
        p.end, p.steps, p.reads, p.nframe = None, self.steps, set(self.reads), self.nframe
        return p


class Summary:
    """one complete path"""
    __slots__ = ("guards", "masks", "order", "events", "writes", "end", "reads", "skips", "src")


class Engine:
    """paths of one parser function"""
    MAXPATHS = 20000
    MAXSTEPS = 200000

    def __init__(self, prog, name, contracts, parsers, rigid):
        """contracts: functions specified here; parsers: functions verified on their own; rigid: cells that hold a language
        name chosen by the caller"""
        self.prog, self.name = prog, name
        self.contracts, self.parsers, self.rigid = contracts, parsers, rigid
        self.fns = {}
        self.main = self.fn(name)
        self.cut = self.cutpoint()
        self.konst = {}          # cells the loop never writes, with the value they have from the entry on
        self.retvals = set()     # constants stored into arrays of state numbers
        self.csvals = {}
        self.instrs = 0
        self.cell_cs = ("cs", 0)
        offs = prog.layout(Ty("struct", "struct.CallbackItem"))[0]
        self.qoff = {prog.fname("CallbackItem", i): o for i, o in enumerate(offs)}

    def explore(self):
        """paths from the entry, and paths from the cut for every state reachable"""
        self.usedret = False
        ent = self.run(True)
        if self.cut is None:
            return ent, {}
        ls = self.loopstores()
        # cells the loop never writes keep the value every entry path agrees on
        k = {}
        for s in ent:
            if s.end == "cut":
                for c, v in s.writes.items():
                    k.setdefault(c, []).append(v)
        n = sum(1 for s in ent if s.end == "cut")
        for c, vs in k.items():
            nm = c[0] if type(c[0]) is str else c[0]
            if nm not in ls and len(vs) == n and all(v == vs[0] for v in vs):
                self.konst[c] = vs[0]
        out, done = {}, set()
        todo = []

        def succ(ss):
            for s in ss:
                if s.end == "cut":
                    v = s.writes.get(self.cell_cs)
                    if type(v) is int:
                        if v not in out:
                            out[v] = None
                            todo.append(v)
                    elif v is not None:
                        for r in list(self.retvals):
                            if r not in out:
                                out[r] = None
                                todo.append(r)
        self.rets = {}
        succ(ent)
        while True:
            while todo:
                c = todo.pop()
                self.usedret = False
                n = len(self.retvals)
                out[c] = self.run(False, [(self.cell_cs, c)])
                self.rets[c] = set(self.retvals) if self.usedret else None
                for s in out[c]:
                    s.writes.setdefault(self.cell_cs, c)
                succ(out[c])
            again = [c for c in out if self.rets.get(c) is not None and self.rets[c] != self.retvals]
            if not again:
                return ent, out
            todo += again

    def fn(self, n):
        if n not in self.fns:
            self.fns[n] = Fn(self, n)
        return self.fns[n]

    def sgn(self, v, t):
        b = bits(t)
        v &= (1 << b) - 1
        return v - (1 << b) if b > 1 and v >> (b - 1) else v

    def const(self, c, t):
        k = c[0]
        if k == "int":
            return self.sgn(c[1], t) if t.k != "i1" else int(bool(c[1]))
        if k in ("zero", "null"):
            return 0
        if k == "undef":
            return ("x", "undef")
        if k == "glob":
            if c[1] in self.prog.funcs or c[1] in self.prog.decls:
                return ("fn", c[1])
            return ("p", c[1], 0)
        if k == "gep":
            from .sym import P_T, I64_T
            p = self.const(c[2], P_T)
            idx = [self.const(i, I64_T) for i in c[3]]
            off, cur = p[2] + idx[0] * self.prog.sizeof(c[1]), c[1]
            for i in idx[1:]:
                if cur.k == "arr":
                    off += i * self.prog.sizeof(cur.b)
                    cur = cur.b
                else:
                    off += self.prog.layout(cur)[0][i]
                    cur = self.prog.fields(cur)[i]
            return ("p", p[1], off)
        if k == "md":
            return 0
        return ("x", repr(c))

    # ---- the cut ----------------------------------------------------------
    def cutpoint(self):
        f = self.main

        def succ(b):
            t = f.raw[b][-1]
            if t.op == "br":
                return [t.a[0]]
            if t.op == "condbr":
                return [t.a[1], t.a[2]]
            if t.op == "switch":
                return [t.a[1]] + [l for c, l in t.a[2]]
            return []
        S = {b: succ(b) for b in f.raw}
        self.succ = S
        comps = sccs(list(f.raw), lambda b: S[b])
        if not comps:
            return None
        big = max(comps, key=len)
        if len(comps) > 1 and len(big) < 30:
            raise Unsup("several loops")
        self.loop = set(big)
        preds = {}
        for b in big:
            for s in S[b]:
                if s in self.loop:
                    preds.setdefault(s, []).append(b)
        # the block whose removal leaves only small loops; among those the one entered from outside first
        cands = [b for b in big if len(preds.get(b, [])) >= 1 and any(s == b for x in f.raw if x not in self.loop for s in S[x])]
        if not cands:
            cands = big
        best = None
        for b in sorted(cands, key=list(f.raw).index):
            rest = sccs([x for x in big if x != b], lambda x: [s for s in S[x] if s in self.loop and s != b])
            k = max([len(c) for c in rest] or [0])
            if best is None or k < best[0]:
                best = (k, b)
        return best[1]

    def loopstores(self):
        """names of cells that the loop may write: globals and locals stored to, or whose address is passed on"""
        out, todo, seen = set(), [(self.name, b) for b in self.loop], set()
        fseen = {self.name}
        while todo:
            fn, b = todo.pop()
            for x in self.prog.funcs[fn][0].blocks[b]:
                if x.op == "store":
                    out.update(self.root(fn, x.a[1]))
                if x.op == "call":
                    for t, v in x.a[2]:
                        if v[0] == "glob" or v[0] == "reg":
                            if t.k == "ptr":
                                out.update(self.root(fn, (t, v), only_addr=True))
                    c = x.a[1]
                    if c[0] == "glob" and c[1] in self.prog.funcs and c[1] not in fseen and c[1] not in self.parsers:
                        fseen.add(c[1])
                        todo += [(c[1], b2) for b2 in self.prog.funcs[c[1]][0].blocks]
        return out

    def root(self, fn, tv, only_addr=False):
        t, c = tv
        while c[0] == "gep":
            c = c[2]
        if c[0] == "glob":
            return [c[1]]
        if c[0] != "reg":
            return []
        d = self.defs(fn)
        r = c[1]
        while r in d and d[r].op == "getelementptr":
            b = d[r].a[1][1]
            while b[0] == "gep":
                b = b[2]
            if b[0] == "glob":
                return [b[1]]
            if b[0] != "reg":
                return []
            r = b[1]
        if r in d and d[r].op == "alloca":
            return [("L", 0, r)] if fn == self.name else []
        return []

    def defs(self, fn):
        k = ("defs", fn)
        if k not in self.fns:
            self.fns[k] = {x.res: x for b in self.prog.funcs[fn][0].blocks.values() for x in b if x.res}
        return self.fns[k]

    # ---- execution ---------------------------------------------------------
    def start(self, entry, known):
        p = Path()
        fr = Frame()
        fr.fn, fr.i, fr.prev, fr.ret, fr.id = self.main, 0, None, None, 0
        fr.b = self.main.entry if entry else self.cut
        fr.regs = {}
        p.nframe = 0
        self.locals(fr)
        p.frames = [fr]
        p.mem, p.masks, p.facts, p.guards, p.events = {}, {}, {}, [], []
        p.order = []
        p.qs, p.qit, p.seen, p.skips, p.end, p.steps, p.reads = "init", None, set(), 0, None, 0, set()
        p.known = dict(known)
        if entry:
            for r, t, i in zip(self.main.params, self.main.ptys, range(9)):
                fr.regs[r] = [("t", "B", 0), ("u", "E", 0), ("cnt",), ("cb",), ("ud",)][i]
        return p

    def locals(self, fr):
        for a in fr.fn.allocas:
            fr.regs[a] = ("p", ("L", fr.id, a), 0)

    def run(self, entry=False, known=()):
        """all complete paths from the entry, or from the cut with the known initial values of some cells"""
        work, out = [self.start(entry, known)], []
        while work:
            p = work.pop()
            self.work = work
            self.go(p, entry)
            if p.end is not None and p.end != "prune":
                s = Summary()
                s.guards, s.masks, s.order, s.events, s.end, s.reads, s.skips = p.guards, p.masks, p.order, p.events, p.end, p.reads, p.skips
                s.writes = {c: v for c, v in p.mem.items()}
                out.append(s)
                if len(out) > self.MAXPATHS:
                    raise Unsup("too many paths")
        return out

    def fork(self, p, fr):
        """a copy of the state that re-executes the current instruction"""
        q = p.copy()
        q.frames[-1].i -= 1
        self.work.append(q)
        return q

    def go(self, p, entry):
        fr = p.frames[-1]
        blk = fr.fn.block(fr.b)
        regs = fr.regs
        first = True
        while True:
            ins = blk[fr.i]
            fr.i += 1
            op = ins[0]
            self.instrs += 1
            p.steps += 1
            if p.steps > self.MAXSTEPS:
                raise Unsup("a path does not end")
            if op == "load":
                a = ins[2]
                regs[ins[1]] = self.load(p, fr, regs[a[1]] if a[0] else a[1], ins[3], ins[4])
            elif op == "store":
                a, v = ins[2], ins[3]
                self.store(p, regs[a[1]] if a[0] else a[1], regs[v[1]] if v[0] else v[1], ins[4])
            elif op == "gep":
                a = ins[2]
                b = regs[a[1]] if a[0] else a[1]
                regs[ins[1]] = self.gep(p, fr, b, ins[3], ins[4], regs)
                if p.end:
                    return
            elif op == "icmp":
                x, y = ins[3], ins[4]
                r = self.icmp(p, fr, ins[2], regs[x[1]] if x[0] else x[1], regs[y[1]] if y[0] else y[1], ins[5])
                regs[ins[1]] = r
            elif op == "bin":
                x, y = ins[3], ins[4]
                regs[ins[1]] = self.bin(p, fr, ins[2], regs[x[1]] if x[0] else x[1], regs[y[1]] if y[0] else y[1], ins[5])
            elif op == "conv":
                x = ins[3]
                regs[ins[1]] = self.conv(p, fr, ins[2], regs[x[1]] if x[0] else x[1], ins[4], ins[5])
            elif op == "br" or op == "condbr" or op == "switch":
                if op == "br":
                    b = ins[2]
                elif op == "condbr":
                    c = ins[2]
                    v = regs[c[1]] if c[0] else c[1]
                    if type(v) is not int:
                        raise Unsup("branch on %r" % (v,))
                    b = ins[3] if v else ins[4]
                else:
                    c = ins[2]
                    b = self.switch(p, fr, regs[c[1]] if c[0] else c[1], ins[3], ins[4])
                fr.prev, fr.b, fr.i = fr.b, b, 0
                if b == self.cut and len(p.frames) == 1:
                    p.end = "cut"
                    return
                if p.qit is not None:
                    k = (fr.id, b, tuple(sorted(p.mem.items(), key=repr)), len(p.events), p.qit)
                    if k in p.seen:
                        p.end = "prune"
                        return
                    p.seen.add(k)
                blk = fr.fn.block(b)
            elif op == "phi":
                v = next(v for v, l in ins[2] if l == fr.prev)
                regs[ins[1]] = regs[v[1]] if v[0] else v[1]
            elif op == "select":
                c = ins[2]
                v = regs[c[1]] if c[0] else c[1]
                if type(v) is not int:
                    raise Unsup("select on %r" % (v,))
                w = ins[3] if v else ins[4]
                regs[ins[1]] = regs[w[1]] if w[0] else w[1]
            elif op == "call":
                c = ins[2]
                f = regs[c[1]] if c[0] else c[1]
                args = [regs[z[1]] if z[0] else z[1] for z in ins[3]]
                r = self.call(p, fr, f, args, ins)
                if p.end:
                    return
                if r is ENTER:
                    fr = p.frames[-1]
                    blk, regs = fr.fn.block(fr.b), fr.regs
                elif ins[1] is not None:
                    regs[ins[1]] = r
            elif op == "ret":
                v = None
                if ins[2] is not None:
                    v = regs[ins[2][1]] if ins[2][0] else ins[2][1]
                if len(p.frames) == 1:
                    p.end = "ret"
                    return
                done = p.frames.pop()
                fr = p.frames[-1] = p.frames[-1].copy()
                if done.ret is not None:
                    fr.regs[done.ret] = v
                blk, regs = fr.fn.block(fr.b), fr.regs
            elif op == "unreachable":
                p.events.append(("bad", "unreachable code"))
                p.end = "bad"
                return
            else:
                raise Unsup("instruction %s" % (ins,))

    # ---- memory ------------------------------------------------------------
    def cell(self, p, c, t):
        """value of a cell, its initial value if this path has not written it"""
        v = p.mem.get(c)
        if v is None:
            if c in self.konst:
                return self.konst[c]
            p.reads.add(c)
            if c in p.known:
                return p.known[c]
            v = ("t", c, 0)
        if type(v) is tuple and v[0] == "t" and v[1] in p.known and type(p.known[v[1]]) is int:
            v = p.known[v[1]] + v[2]
        return v

    def load(self, p, fr, a, t, ln):
        if type(a) is tuple:
            k = a[0]
            if k == "p":
                o = a[1]
                if type(o) is tuple:
                    return self.cell(p, (o, a[2]), t)
                g = self.prog.globals.get(o)
                if g is None or g[1] is None:
                    raise Unsup("external " + o)
                if g[2]:
                    if not (0 <= a[2] and a[2] + self.prog.sizeof(t) <= self.prog.sizeof(g[0])):
                        p.events.append(("bad", "read outside table " + o))
                        p.end = "bad"
                        return 0
                    return self.tab(o, a[2], t)
                if o == "callback_list_head" or o == "callback_list_tail":
                    return self.queue(p, o)
                if not self.stored(o):
                    return self.tab(o, a[2], t)
                return self.cell(p, (o, a[2]), t)
            if k == "t":
                if t.k != "i8":
                    raise Unsup("wide read of the input")
                key = (a[1], a[2])
                if key not in p.masks:
                    p.masks[key] = ALL
                    p.order.append(key)
                    p.events.append(("access", key))
                return ("c", key, 0)
            if k == "qf":
                if a[2] == self.qoff["next"]:
                    if p.qit != "reported":
                        p.events.append(("bad", "a queued report is skipped"))
                    p.qit = "pending"
                    return ("Q", "n")
                return ("qv", a[2])
        raise Unsup("load through %r" % (a,))

    def tab(self, o, off, t):
        k = (o, off, t.k)
        r = TAB.get(k)
        if r is None:
            try:
                c = self.prog.ginit_at(o, off, t)
            except Exception as x:
                raise Unsup(str(x))
            r = TAB[k] = self.const(c, t)
        return r

    def stored(self, o):
        """may any function write this global? (a scan of the text of the IR: its name in anything but a load, or the
        result of address arithmetic on it in anything but a load)"""
        s = self.prog.__dict__.get("stored")
        if s is None:
            s = self.prog.stored = set()
            for m in self.prog.mods:
                s |= stored_globals(m)
        return o in s

    def store(self, p, a, v, t):
        if type(a) is tuple and a[0] == "p":
            o = a[1]
            if o == "callback_list_head" or o == "callback_list_tail":
                if v != 0:
                    raise Unsup("queue pointer set to %r" % (v,))
                if o == "callback_list_head":
                    p.qs, p.qit = "empty", None
                    p.events.append(("drop",))
                return
            if type(o) is str and self.prog.globals[o][2]:
                p.events.append(("bad", "writes to a constant"))
            c = (o, a[2])
            if type(v) is int and type(o) is str and self.prog.globals[o][0].k == "arr" and v not in self.retvals:
                self.retvals.add(v)
            p.mem[c] = v
            return
        if type(a) is tuple and a[0] == "t":
            p.events.append(("bad", "writes to the input"))
            return
        raise Unsup("store through %r" % (a,))

    def queue(self, p, o):
        if p.qs == "empty":
            return 0
        if o == "callback_list_tail":
            raise Unsup("tail of the queue read")
        if p.qs == "items":
            return ("Q", "i")
        return ("Q", "h")

    def gep(self, p, fr, b, idx, off, regs):
        if type(b) is int:
            p.events.append(("bad", "arithmetic on a null pointer"))
            p.end = "bad"
            return None
        if type(b) is not tuple:
            raise Unsup("arithmetic on %r" % (b,))
        for i, (v, sz, n) in enumerate(idx):
            x = regs[v[1]] if v[0] else v[1]
            if type(x) is not int:
                if x[0] == "t":
                    x = self.pick(p, fr, x, n)
                    if x is None:
                        return None
                elif x[0] == "u" and i == 0 and sz == 1 and b == ("t", "B", 0) and len(idx) == 1:
                    return ("t", x[1], x[2] + off)
                elif x[0] == "c" and x[1] in p.masks:
                    x = self.charval(p, fr, x)
                else:
                    raise Unsup("index %r" % (x,))
            if n is not None and not 0 <= x < n:
                p.events.append(("bad", "index %d outside an array of %d" % (x, n)))
                p.end = "bad"
                return None
            off += x * sz
        k = b[0]
        if k == "p":
            return ("p", b[1], b[2] + off)
        if k == "t":
            return ("t", b[1], b[2] + off)
        if k == "Q":
            return ("qf", b[1], off)
        raise Unsup("arithmetic on %r" % (b,))

    def charval(self, p, fr, x):
        """fork over the byte values (small sets only)"""
        m = p.masks[x[1]]
        vs = [i - 128 for i in range(256) if m >> i & 1]
        if len(vs) > 40:
            raise Unsup("index by an input byte")
        for v in vs[1:]:
            q = self.fork(p, fr)
            q.masks[x[1]] = 1 << (v + 128)
        p.masks[x[1]] = 1 << (vs[0] + 128)
        return vs[0] + x[2]

    def pick(self, p, fr, x, n):
        """a concrete value for a cell used as an index: one path per value it may have, and one for none of them"""
        c = x[1]
        if c in ("B", "E") or type(c[0]) is str and c[0] == "SK":
            raise Unsup("index by a position")
        if c in p.known and type(p.known[c]) is int:
            return p.known[c] + x[2]
        if type(c[0]) is str and self.prog.globals[c[0]][0].k == "arr":
            dom = sorted(self.retvals)
            self.usedret = True
        elif n is not None and n <= 64:
            dom = [i - x[2] for i in range(n)]
        else:
            raise Unsup("index %r" % (x,))
        dom = [v for v in dom if p.facts.get(("==", c, None, v)) is not False]
        for v in dom:
            q = self.fork(p, fr)
            self.assume(q, ("==", c, None, v), True)
        for v in dom:
            self.assume(p, ("==", c, None, v), False)
        p.events.append(("bad", "%s has a value outside the expected ones when used as an index" % (c,)))
        p.end = "bad"
        return None

    def assume(self, p, cond, truth):
        p.facts[cond] = truth
        p.guards.append((cond, truth))
        if truth and cond[0] == "==" and cond[2] is None:
            p.known[cond[1]] = cond[3]
            k = p.known[cond[1]]
            for r in p.frames[-1].regs:
                v = p.frames[-1].regs[r]
                if type(v) is tuple and v[0] == "t" and v[1] == cond[1] and (type(k) is int):
                    p.frames[-1].regs[r] = k + v[2]

    # ---- comparison -----------------------------------------------------------
    def icmp(self, p, fr, pred, a, b, t):
        ta, tb = type(a), type(b)
        if ta is int and tb is int:
            if pred[0] == "u":
                k = (1 << bits(t)) - 1
                a, b = a & k, b & k
            return CMP[pred](a, b)
        if ta is int:
            a, b, ta, tb = b, a, tb, ta
            pred = SWAP[pred]
        k = a[0]
        if k == "c" and tb is int:
            if pred[0] == "u" and b < 0:
                raise Unsup("unsigned comparison of a byte")
            m = p.masks[a[1]]
            sel = SEL[pred](b - a[2])
            if pred[0] == "u" and (m & ((1 << max(0, min(256, 128 - a[2]))) - 1)):
                raise Unsup("unsigned comparison of a negative byte")
            y = m & sel
            n = m & ~sel & ALL
            if not n:
                return 1
            if not y:
                return 0
            q = self.fork(p, fr)
            q.masks[a[1]] = n
            p.masks[a[1]] = y
            return 1
        if k == "cnt" and b == 0 and pred in ("eq", "ne"):
            return self.decide(p, fr, ("==", "cnt", None, 0), pred == "eq")
        if k in ("cb", "p", "fn") and b == 0 and tb is int and pred in ("eq", "ne"):
            return int(pred == "ne")
        if k == "Q" and b == 0 and tb is int and pred in ("eq", "ne"):
            return self.qnull(p, fr, a, pred == "eq")
        if k == "ud":
            return self.decide(p, fr, ("any", repr(a), pred, repr(b)), True)
        if k == "u":
            a = ("t", a[1], a[2])
            k = "t"
            if tb is tuple and b[0] == "u":
                b = ("t", b[1], b[2])
            elif tb is int:
                b, tb = ("t", "B", b), tuple
            else:
                raise Unsup("comparison of %r with %r" % (a, b))
        elif tb is tuple and b[0] == "u":
            if k != "t":
                raise Unsup("comparison")
            b = ("t", b[1], b[2])
        if k in ("p", "fn") and tb is tuple and b[0] in ("p", "fn"):
            if a[0] == "p" and a[1] == b[1] and type(a[2]) is int:
                return CMP[pred](a[2], b[2])
            if pred in ("eq", "ne"):
                return int((a == b) == (pred == "eq"))
        if k == "p" and tb is tuple and b[0] == "t":
            a, b = b, a
            k, pred = "t", SWAP[pred]
        if k == "t":
            if tb is int or b[0] == "p":
                if tb is not int and a[2]:
                    raise Unsup("comparison")
                x, y, c = a[1], None, (b - a[2] if tb is int else b)
                # null is below every position
            elif b[0] == "t":
                if a[1] == b[1]:
                    return CMP[pred](a[2], b[2])
                x, y, c = a[1], b[1], b[2] - a[2]
                if repr(x) > repr(y):                   # one form for x < y and y > x
                    x, y, c, pred = y, x, -c, SWAP[pred]
            else:
                return self.decide(p, fr, ("any", repr(a), pred, repr(b)), True)
            op = pred if pred in ("eq", "ne") else pred[1:]
            if y is None and pred[0] == "u" and t.k != "ptr" and tb is int:
                if b == 0 and op in ("gt", "le"):        # x > 0u is x != 0
                    op = "ne" if op == "gt" else "eq"
                else:
                    return self.decide(p, fr, ("any", repr(a), pred, repr(b)), True)
            if y is None and tb is int and t.k == "ptr":
                if b == 0 and op in ("gt", "le"):
                    op = "ne" if op == "gt" else "eq"
                if op not in ("eq", "ne"):
                    raise Unsup("pointer ordered against a constant")
                if b == 0 and a[2] != 0:
                    return int(op == "ne")               # a position plus an offset is not null (if the cell is a position)
            if op == "eq":
                return self.decide(p, fr, ("==", x, y, c), True)
            if op == "ne":
                return self.decide(p, fr, ("==", x, y, c), False)
            if op == "le":
                return self.decide(p, fr, ("<=", x, y, c), True)
            if op == "gt":
                return self.decide(p, fr, ("<=", x, y, c), False)
            if op == "lt":
                return self.decide(p, fr, ("<=", x, y, c - 1), True)
            return self.decide(p, fr, ("<=", x, y, c - 1), False)
        if k == "c" and tb is tuple and b[0] == "c":
            return self.decide(p, fr, ("any", repr(a), pred, repr(b)), True)
        if k in ("x", "qv") or (tb is tuple and b[0] in ("x", "qv")):
            return self.decide(p, fr, ("any", repr(a), pred, repr(b)), True)
        raise Unsup("comparison %s of %r with %r" % (pred, a, b))

    def decide(self, p, fr, cond, pos):
        """truth of cond (pos) or of its negation, forking if the path does not know it"""
        f = p.facts.get(cond)
        if f is None and cond[0] != "any":
            x = cond[1]
            kx = p.known.get(x)
            if kx is None and type(x) is tuple and x in self.konst:
                kx = self.konst[x]
            if kx is not None and cond[2] is None:
                if cond[0] == "==":
                    f = kx == cond[3]
                elif type(kx) is int:
                    f = kx <= cond[3]
        if f is None:
            q = self.fork(p, fr)
            self.assume(q, cond, False)
            self.assume(p, cond, True)
            f = True
        return int(f == pos)

    def qnull(self, p, fr, a, iseq):
        w = a[1]
        if w == "i":
            p.qit = p.qit or "pending"
            return int(not iseq)
        if w == "h":
            f = p.facts.get(("q", "null"))
            if f is None:
                q = self.fork(p, fr)
                q.facts[("q", "null")] = False
                q.events.append(("qnull", False))
                p.facts[("q", "null")] = True
                p.events.append(("qnull", True))
                f = True
            if not f and p.qit is None:
                p.qit = "pending"
            return int(f == iseq)
        # the next item: the rest of the list is like the whole list, all earlier items reported
        f = p.facts.pop(("q", "n"), None)
        if f is None:
            q = self.fork(p, fr)
            q.facts[("q", "n")] = False
            f = True
        if f:
            p.events.append(("commit",))
            p.qit = None
        return int(f == iseq)

    def switch(self, p, fr, v, d, cases):
        if type(v) is int:
            for c, l in cases:
                if c == v:
                    return l
            return d
        if v[0] == "c":
            for c, l in cases:
                m, sel = p.masks[v[1]], SEL["eq"](c - v[2])
                if not m & sel:
                    continue
                if m & ~sel & ALL:
                    q = self.fork(p, fr)
                    q.masks[v[1]] = m & ~sel & ALL
                p.masks[v[1]] = m & sel
                return l
            return d
        if v[0] != "t":
            raise Unsup("switch on %r" % (v,))
        if v[1] in p.known and type(p.known[v[1]]) is int:
            return self.switch(p, fr, p.known[v[1]] + v[2], d, cases)
        for c, l in cases:
            cond = ("==", v[1], None, c - v[2])
            f = p.facts.get(cond)
            if f is None:
                q = self.fork(p, fr)
                self.assume(q, cond, False)
                self.assume(p, cond, True)
                return l
            if f:
                return l
        return d

    # ---- arithmetic -------------------------------------------------------------
    def bin(self, p, fr, op, a, b, t):
        if type(a) is int and type(b) is int:
            k = (1 << bits(t)) - 1
            if op in ("add", "sub", "mul", "and", "or", "xor", "shl"):
                r = a + b if op == "add" else a - b if op == "sub" else a * b if op == "mul" else a & b if op == "and" else \
                    a | b if op == "or" else a ^ b if op == "xor" else a << (b & 63)
            elif op == "ashr":
                r = a >> b
            elif op == "lshr":
                r = (a & k) >> b
            elif op in ("sdiv", "srem"):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                r = q if op == "sdiv" else a - q * b
            else:
                r = (a & k) // (b & k) if op == "udiv" else (a & k) % (b & k)
            return self.sgn(r, t) if t.k != "i1" else r & 1
        if op == "add" and type(a) is int:
            a, b = b, a
        if op in ("add", "sub") and type(b) is int and a[0] in ("t", "u", "c"):
            r = (a[0], a[1], a[2] + (b if op == "add" else -b))
            if a[0] == "c":
                lo, hi = span(p.masks[a[1]])
                k = bits(t)
                if not (-(1 << (k - 1)) <= lo + r[2] and hi + r[2] < 1 << (k - 1)):
                    raise Unsup("byte arithmetic wraps")
            return r
        if op == "sub" and type(a) is tuple and type(b) is tuple:
            if a[0] == "p" and b[0] == "p" and a[1] == b[1]:
                return a[2] - b[2]
            if a[0] == b[0] and a[0] in ("t", "u", "c") and a[1] == b[1]:
                return a[2] - b[2]
            if a[0] == "t" and b[0] == "t" and b[1] == "B":
                return ("u", a[1], a[2] - b[2])
        if op == "and" and type(b) is int and a[0] == "c" and a[2] == 0 and b == 255:
            lo, hi = span(p.masks[a[1]])
            if lo >= 0:
                return a
        return ("x", "%s %s %s" % (a, op, b))

    def conv(self, p, fr, op, a, ft, tt):
        if type(a) is int:
            if op == "zext":
                return self.sgn(a & ((1 << bits(ft)) - 1), tt)
            if op == "sext" and ft.k == "i1":
                return -a
            if op in ("sext", "trunc"):
                return self.sgn(a, tt) if tt.k != "i1" else a & 1
            return a
        if op in ("ptrtoint", "inttoptr", "bitcast"):
            return a
        if a[0] == "c":
            lo, hi = span(p.masks[a[1]])
            if op == "trunc":
                k = bits(tt)
                if not (-(1 << (k - 1)) <= lo + a[2] and hi + a[2] < 1 << (k - 1)):
                    raise Unsup("byte truncated")
            if op == "zext" and lo + a[2] < 0:
                neg = SEL["slt"](-a[2])
                m = p.masks[a[1]]
                if m & ~neg & ALL:
                    q = self.fork(p, fr)
                    q.masks[a[1]] = m & ~neg & ALL
                p.masks[a[1]] = m & neg
                return ("c", a[1], a[2] + (1 << bits(ft)))
            return a
        if a[0] in ("t", "u"):
            if op == "zext" and bits(ft) < 64:
                return a
            return a
        return ("x", "%s %s" % (op, a))

    # ---- calls ------------------------------------------------------------------
    def call(self, p, fr, f, args, ins):
        if f == ("cb",):
            if args and type(args[0]) is tuple and args[0][0] == "qv":
                want = [("qv", self.qoff[k]) for k in ("lang", "entity", "s", "e", "udata")]
                if args != want or p.qit != "pending":
                    p.events.append(("bad", "a queued report is not reported once, as it was enqueued"))
                p.qit = "reported"
                return None
            p.events.append(("report",) + tuple(args) + (ins[-1],))
            return None
        if type(f) is not tuple or f[0] != "fn":
            raise Unsup("call of %r" % (f,))
        n = f[1]
        if n in self.contracts:
            return getattr(self, "c_" + n)(p, fr, args, ins)
        if n in self.parsers:
            if n == self.name:
                raise Unsup("recursive parser")
            p.events.append(("parse", n, tuple(args), tuple(sorted((c, v) for c, v in p.mem.items() if c in self.rigid))))
            for c in list(p.mem):
                if c not in self.rigid and type(c[0]) is str:
                    p.mem[c] = ("x", "after " + n)
            p.qs = "empty" if p.qs == "empty" else "init"
            p.events.append(("havoc", n))
            return None
        if n in self.prog.funcs:
            if len(p.frames) > 8:
                raise Unsup("deep calls")
            g = self.fn(n)
            x = Frame()
            p.nframe += 1
            x.fn, x.b, x.i, x.prev, x.ret, x.id = g, g.entry, 0, None, ins[1], p.nframe
            x.regs = dict(zip(g.params, args))
            self.locals(x)
            p.frames.append(x)
            return ENTER
        if n in ("printf", "puts", "fprintf", "fputs", "putchar"):
            return ("x", "result of " + n)
        raise Unsup("call of " + n)

    def c_enqueue(self, p, fr, args, ins):
        p.events.append(("enq",) + tuple(args) + (ins[-1],))
        if p.qit is not None and p.qs != "init":
            raise Unsup("queue changed while it is walked")
        p.qs = "items"
        return None

    def c_free_queue(self, p, fr, args, ins):
        p.events.append(("drop",))
        p.qs, p.qit = "empty", None
        return None

    def c_is_blank_entry(self, p, fr, args, ins):
        a = args[0]
        if type(a) is not tuple or a[0] != "p":
            raise Unsup("is_blank_entry(%r)" % (a,))
        c = (a[1], a[2])
        v = self.cell(p, c, None)
        if type(v) is not tuple or v[0] != "t":
            raise Unsup("is_blank_entry at %r" % (v,))
        d = ("blank", p.skips, v)
        f = p.facts.get(d)
        if f is None:
            q = self.fork(p, fr)
            q.facts[d] = False
            f = p.facts[d] = True
        p.events.append(("access", (v[1], v[2] + 1)))      # its precondition: the byte after *p is in the input
        if not f:
            p.events.append(("nbentry", (v[1], v[2] + 1)))     # its postcondition: not blanks up to the end of the line
            return 0
        k = ("SK", p.skips)
        p.skips += 1
        p.mem[c] = ("t", k, 0)
        p.events.append(("skip", v, k))
        return 1


    def c_is_blank_rest(self, p, fr, args, ins):
        s, e = args
        if type(s) is int or type(e) is int or s[0] != "t" or e[0] != "t":
            raise Unsup("is_blank_rest(%r, %r)" % (s, e))
        d = ("blankrest", s, e)
        f = p.facts.get(d)
        if f is None:
            q = self.fork(p, fr)
            q.facts[d] = False
            f = p.facts[d] = True
        p.events.append(("range", s, e))
        p.events.append(("blank" if f else "notblank", s, e))
        return int(f)


def span(m):
    """least and greatest byte in a mask"""
    return (m & -m).bit_length() - 1 - 128, m.bit_length() - 1 - 128


NAME = re.compile(r'@("?)([-\w.$]+)\1')
GEP = re.compile(r'  (%"?[-\w.$]+"?) = getelementptr ')


def stored_globals(m):
    out, addr, infn = set(), {}, False
    for ln in open(m.path, encoding="utf-8", errors="replace"):
        if ln[0] == "}":
            infn, addr = False, {}
        elif ln.startswith("define"):
            infn = True
        elif infn:
            if " = load " in ln:
                continue
            g = GEP.match(ln)
            if g:
                x = NAME.search(ln)
                if x:
                    addr[g.group(1)] = x.group(2)
                    continue
            for x in NAME.finditer(ln):
                out.add(x.group(2))
            if addr:
                for r in re.findall(r'%"?[-\w.$]+"?', ln):
                    if r in addr:
                        out.add(addr[r])
    return out


def _low(k):
    """mask of the bytes v with v < k"""
    k += 128
    return 0 if k <= 0 else ALL if k >= 256 else (1 << k) - 1


SEL = {
    "eq": lambda c: 1 << (c + 128) if -128 <= c < 128 else 0,
    "ne": lambda c: ALL & ~(1 << (c + 128) if -128 <= c < 128 else 0),
    "slt": _low, "ult": _low,
    "sle": lambda c: _low(c + 1), "ule": lambda c: _low(c + 1),
    "sgt": lambda c: ALL & ~_low(c + 1), "ugt": lambda c: ALL & ~_low(c + 1),
    "sge": lambda c: ALL & ~_low(c), "uge": lambda c: ALL & ~_low(c),
}
CMP = {"eq": lambda a, b: int(a == b), "ne": lambda a, b: int(a != b)}
for _s in "us":
    CMP[_s + "lt"] = lambda a, b: int(a < b)
    CMP[_s + "le"] = lambda a, b: int(a <= b)
    CMP[_s + "gt"] = lambda a, b: int(a > b)
    CMP[_s + "ge"] = lambda a, b: int(a >= b)
SWAP = {"eq": "eq", "ne": "ne"}
for _s in "us":
    SWAP.update({_s + "lt": _s + "gt", _s + "gt": _s + "lt", _s + "le": _s + "ge", _s + "ge": _s + "le"})
ENTER = object()
TAB = {}
