"""Ghost theory of the {payload,next,head,tail} lists used everywhere in ohcount.

Ghost maps (per list struct S):  n:S  : list -> number of nodes
                                 N:S  : list -> (index -> node)
                                 pos:S: node -> index          back:S : payload -> node
                                 kx:S : list -> (key -> index)  (keyed lists; witnesses uniqueness)
own: object -> owning list object (nodes and payloads of a list are owned by it).
"""
import z3
from z3 import And, Or, Not, Implies, ForAll, Select, Store, Const, If, IntSort, RealSort, ArraySort
from ovc.sym import *
from ovc.sym import A1, AB, A2, I, B, R

AK = ArraySort(I, ArraySort(R, I))


class ListT:
    def __init__(self, S, pay, P, key=None, fields=(), owns_pay=True, payinv=None, iv=""):
        self.S, self.pay, self.P, self.key, self.fields = S, pay, P, key, fields
        self.owns_pay, self.payinv = owns_pay, payinv
        self.iv = iv          # suffix of the bound index: lists whose payloads hold lists need their own

    # ghost readers -------------------------------------------------------
    def n(self, v, L):
        return Select(v.m("n:" + self.S, A1), toz(L))

    def Narr(self, v, L):
        return Select(v.m("N:" + self.S, A2), toz(L))

    def N(self, v, L, i):
        return Select(self.Narr(v, L), toz(i))

    def pos(self, v, d):
        return Select(v.m("pos:" + self.S, A1), toz(d))

    def back(self, v, p):
        return Select(v.m("back:" + self.S, A1), toz(p))

    def kx(self, v, L, k):
        return Select(Select(v.m("kx:" + self.S, AK), toz(L)), k)

    def next(self, v, d):
        return v.f(self.S, "next", d)

    def head(self, v, L):
        return v.f(self.S, "head", L)

    def tail(self, v, L):
        return v.f(self.S, "tail", L)

    def payload(self, v, d):
        return v.f(self.S, self.pay, d)

    def keyof(self, v, p):
        """the language of payload p, as the order-embedded string"""
        q = v.f(self.P, self.key, p)
        return SID(Select(v.m("Mi8", A2), toz(q.obj)), toz(q.off))

    def keyptr_ok(self, v, p, L=None):
        q = v.f(self.P, self.key, p)
        return And(v.cstr(q), v.own(q.obj) != toz(L) if L is not None else True)

    def lang(self, v, L, i):
        return self.keyof(v, self.payload(v, self.N(v, L, i)))

    def at(self, v, L, i, f):
        return v.f(self.P, f, self.payload(v, self.N(v, L, i)))

    def has(self, v, L, k):
        """k is the language of some entry of L"""
        x = self.kx(v, L, k)
        return And(0 <= x, x < self.n(v, L), self.lang(v, L, x) == k)

    def cnt(self, v, L, k, f):
        """figure f of language k in L (0 when absent)"""
        return If(self.has(v, L, k), self.at(v, L, self.kx(v, L, k), f), 0)

    # predicates ----------------------------------------------------------------
    def isnode(self, v, L, x):
        """x is a node of L (x is not null)"""
        i = self.pos(v, x)
        return And(toz(x) != 0, 0 <= i, i < self.n(v, L), self.N(v, L, i) == toz(x))

    def cur(self, v, L, x):
        """x is a cursor of L: null (past the end) or a node"""
        return Or(toz(x) == 0, self.isnode(v, L, x))

    def walked(self, lc):
        """invariants of a pointer that walks L: a cursor; when the loop is not left at its head, perhaps a node"""
        atend = all(b in lc.L.body for b in cfg_info(lc.fr.f)[0][lc.L.header])
        return [("cursor", self.cur)] + ([("node", self.isnode)] if atend else [])

    def curpos(self, v, L, x):
        return If(toz(x) == 0, self.n(v, L), self.pos(v, x))

    def shape(self, v, L):
        """[formula] the representation invariant, without the key part"""
        L = toz(L)
        n, S = self.n(v, L), self.S
        i = Const("i?l" + self.iv, I)
        d = self.N(v, L, i)
        p = self.payload(v, d)
        out = [And(v.valid(L, S), v.own(L) == L, n >= 0, (self.head(v, L) == 0) == (n == 0)),
               Implies(n > 0, And(self.head(v, L) == L, self.N(v, L, 0) == L, self.pos(v, L) == 0,
                                  self.tail(v, L) == self.N(v, L, n - 1))),
               Implies(n == 0, self.next(v, L) == 0)]
        node = [d != 0, v.alive(d), v.typ(d, S), v.own(d) == L, self.pos(v, d) == i, v.m("heap", AB)[d]]
        pl = [p != 0, v.alive(p), v.typ(p, self.P)]
        if self.owns_pay:
            pl += [v.own(p) == L, self.back(v, p) == d, v.m("heap", AB)[p]]
        if self.key:
            q = v.f(self.P, self.key, p)
            pl += [v.cstr(q), v.own(q.obj) != L]
        if self.payinv:
            pl += self.payinv(v, p, L)
        rng = And(0 <= i, i < n)
        out.append(ForAll([i], Implies(rng, And(*node)), patterns=[d]))
        out.append(ForAll([i], Implies(rng, And(*pl)), patterns=[d]))
        out.append(ForAll([i], Implies(rng, self.next(v, d) == If(i + 1 < n, self.N(v, L, i + 1), 0)),
                          patterns=[self.next(v, d)]))
        out.append(v.m("heap", AB)[L])
        return out

    def keyed(self, v, L):
        """no language twice: kx inverts the language of every entry"""
        L = toz(L)
        i = Const("i?k" + self.iv, I)
        k = self.lang(v, L, i)
        return [ForAll([i], Implies(And(0 <= i, i < self.n(v, L)), self.kx(v, L, k) == i), patterns=[self.N(v, L, i)])]

    def wf(self, v, L):
        return And(*(self.shape(v, L) + (self.keyed(v, L) if self.key else [])))

    def wfl(self, v, L, nm="list"):
        out = [("%s is well formed (shape %d)" % (nm, k), g) for k, g in enumerate(self.shape(v, L))]
        if self.key:
            out += [("%s has no language twice" % nm, g) for g in self.keyed(v, L)]
        return out

    def maps(self):
        S = self.S
        fm = ["F:%s.%s" % (S, x) for x in (self.pay, "next", "head", "tail")]
        return fm

    def ghostmaps(self):
        g = ["n:" + self.S, "N:" + self.S, "pos:" + self.S]
        if self.owns_pay:
            g.append("back:" + self.S)
        if self.key:
            g.append("kx:" + self.S)
        return g

    def gm_sort(self, m):
        return {"n": A1, "N": A2, "pos": A1, "back": A1, "kx": AK, "own": A1}[m.split(":")[0]]

    def declare(self, e):
        for m in self.ghostmaps():
            e.map_sorts[m] = self.gm_sort(m)

    # ghost code: the list L may have got one node more, found through its tail ---------------------
    def ghost_append(self, c, st, L):
        e = c.e
        pre, v = c.pre, V_(e, st)
        S = self.S
        L = toz(L)
        n0 = self.n(pre, L)
        t1 = self.tail(v, L)
        grew = And(self.head(v, L) != 0, Or(n0 == 0, t1 != self.tail(pre, L)))
        self.push(e, st, L, n0, t1, grew)

    def push(self, e, st, L, n0, node, cond):
        v = V_(e, st)
        p = self.payload(v, node)

        def upd(m, idx, val, inner=None):
            s = self.gm_sort(m)
            old = e.map(st, m, s)
            if inner is not None:
                new = Store(old, idx, Store(Select(old, idx), inner, val))
            else:
                new = Store(old, idx, val)
            e.setmap(st, m, If(cond, new, old), ("obj", idx))
        upd("N:" + self.S, L, node, n0)
        upd("pos:" + self.S, node, n0)
        if self.owns_pay:
            upd("back:" + self.S, p, node)
            upd("own", p, L)
        upd("own", node, L)
        if self.key:
            upd("kx:" + self.S, L, n0, self.keyof(v, p))
        upd("n:" + self.S, L, n0 + 1)

    def init_empty(self, e, st, L):
        m = "n:" + self.S
        e.setmap(st, m, Store(e.map(st, m, A1), toz(L), IntVal(0)), ("obj", toz(L)))


class V_:
    pass


from ovc.contract import V as V_  # noqa


def wf_templates(lc, lists):
    pass
