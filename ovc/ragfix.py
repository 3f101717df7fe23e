"""Inductive invariant of a scanner loop, checked edge by edge over the path summaries of rag.py.

The invariant at the loop head is a disjunction: for each control valuation (state register, flags, language variables, which
position cells are null, status of the queue of pending reports, ...) one conjunction of difference bounds x - y <= c over
the position cells, the input's start and end and the ghost positions.  `Fix.solve` infers it and establishes that it holds
at the first arrival and that every path from every disjunct leads into some disjunct; on the way every obligation is proved
from the path's own hypotheses.  The prover is the closure of difference bounds (complete for such conjunctions).

Ghost positions
  C17  g: every significant byte before g lies inside some report made so far (insignificant: space, tab, vertical tab, and a
       carriage return that precedes a newline or ends the input); h: the same not counting the reports still queued
  C18  b: start of the first line not reported yet; m: no line ends in [b, m), or (bit td) the first one ends exactly at m;
       B2, M2 (bit td2): the same not counting the reports still queued
"""
import numpy as np
from .rag import ALL, NUL, Unsup

INF = 1 << 20
LIM = 4


def mask(s):
    m = 0
    for ch in s:
        m |= 1 << (ord(ch) + 128)
    return m


WS, LF, CR = mask(" \t\v"), mask("\n\f"), mask("\r")
NLONLY = mask("\n")


class Sort:
    """markers for cells without a concrete value"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


POS, STALE, DEAD, ANY = Sort("pos"), Sort("stale"), Sort("dead"), Sort("any")


def cls(m):
    """class of a set of bytes, as far as the ghosts care"""
    z = 0 if m & NUL else 1
    for i, k in enumerate((WS, NLONLY, LF, CR)):
        if not m & ~k:
            return (z, "wnfr"[i])
    return (z, "o" if not m & (WS | LF | CR) else "b" if not m & (LF | CR) else "x" if not m & NLONLY else "?")


class Node:
    __slots__ = ("leaves", "kids")

    def __init__(self):
        self.leaves, self.kids = [], {}


class Leaf:
    __slots__ = ("masks", "events", "writes", "end", "n", "reads", "skips", "late")


def trie(sums):
    """summaries as a tree of conditions; paths that differ only in bytes of the same class are one leaf"""
    root = Node()
    for s in sums:
        nd = root
        for g in s.guards:
            nd = nd.kids.setdefault(g, None) or nd.kids.__setitem__(g, Node()) or nd.kids[g]
        for l in nd.leaves:
            if l.events == s.events and l.writes == s.writes and l.end == s.end and set(l.masks) == set(s.masks) and \
                    all(cls(l.masks[k]) == cls(s.masks[k]) for k in l.masks):
                for k in l.masks:
                    l.masks[k] |= s.masks[k]
                l.n += 1
                break
        else:
            l = Leaf()
            l.masks, l.events, l.writes, l.end, l.n, l.reads, l.skips = dict(s.masks), s.events, s.writes, s.end, 1, s.reads, s.skips
            l.late = [g for g in s.guards if l.skips and any(type(x) is tuple and x[0] == "SK" for x in g[0])]
            nd.leaves.append(l)
    return root


class Fix:
    watch = None

    def __init__(self, eng, ent, sums, prop, langs, strs, rigid, count):
        """langs: registered language names (bytes); strs: object name -> text of a constant string"""
        self.eng, self.prop, self.langs, self.strs, self.rigid, self.count = eng, prop, langs, strs, rigid, count
        self.ent = trie(ent)
        self.sums = {c: trie(s) for c, s in sums.items()}
        self.fails = {}
        self.nob = {}
        self.reported = set()
        # does any path look at the byte before the current one?
        self.looksback = prop != "C16" and any((("p", 0), -1) in s.masks for ss in sums.values() for s in ss)
        self.hasnb = any(ev[0] == "nbentry" for ss in sums.values() for s in ss for ev in s.events)
        self.infer(ent, sums)
        self.gh = {"C16": [], "C17": ["g", "h", "t", "u"], "C18": ["b", "m", "b2", "m2"]}[prop]
        self.vars = ["B", "E"] + self.pos + ["#" + x for x in self.gh]
        self.ix = {v: i for i, v in enumerate(self.vars)}
        self.n = len(self.vars)
        self.gi = [self.ix["#" + x] for x in self.gh]
        self.inv = {}

    # ---- which cells hold positions, which are live --------------------------
    def isnum(self, c):
        """an integer cell (not a pointer)"""
        if type(c[0]) is str:
            t = self.eng.prog.globals[c[0]][0]
            if t.k == "arr":
                t = t.b
        else:
            t = self.eng.main.allocas.get(c[0][2])
        return t is None or t.k != "ptr"

    def infer(self, ent, sums):
        allp = list(ent) + [s for ss in sums.values() for s in ss]
        for s in allp:
            for c, v in list(s.writes.items()):
                if type(v) is tuple and v[0] == "t" and type(v[1]) is tuple and v[1] in dict(s_known(s)):
                    k = dict(s_known(s))[v[1]]
                    if type(k) is int:
                        s.writes[c] = k + v[2]
        # positions: cells assigned from the buffer, or from a position; counters: integer cells stepped from their own value
        pos = set()
        idx = set(c for s in allp for (cond, t) in s.guards if cond[0] == "==" and cond[2] is None
                  for c in [cond[1]] if type(c) is tuple)
        while True:
            n = len(pos)
            for s in allp:
                for c, v in s.writes.items():
                    if type(v) is tuple and v[0] == "t" and (v[1] in ("B", "E") or v[1] in pos or v[1][0] == "SK"):
                        pos.add(c)
                    if type(v) is tuple and v[0] == "t" and v[1] == c and v[2] != 0 and self.isnum(c) and c[0] != "top":
                        pos.add(c)
            if n == len(pos):
                break
        live = {c: set() for c in sums}
        nxt = {}
        for c, ss in sums.items():
            for s in ss:
                live[c] |= s.reads
        ch = True
        while ch:
            ch = False
            for c, ss in sums.items():
                n = len(live[c])
                for s in ss:
                    if s.end == "cut":
                        v = s.writes[self.eng.cell_cs]
                        for d in ([v] if type(v) is int else list(sums)):
                            live[c] |= live[d] - set(s.writes)
                if len(live[c]) != n:
                    ch = True
        cells = set()
        for c in live:
            live[c] = set(x for x in live[c] if x not in self.rigid and x not in self.eng.konst and x != self.eng.cell_cs)
            cells |= live[c]
        self.live = {c: sorted(live[c], key=repr) for c in live}
        self.pos = sorted([c for c in pos if c in cells], key=repr)
        self.posset = set(self.pos)

    # ---- difference bounds -----------------------------------------------------
    def close(self, D):
        for k in range(len(D)):
            np.minimum(D, D[:, k, None] + D[None, k, :], out=D)
        return D

    def add(self, D, i, j, c):
        """D and x_i - x_j <= c; None if empty.  D must be closed and stays so"""
        if c >= D[i, j]:
            return D
        if D[j, i] + c < 0:
            return None
        return np.minimum(D, (D[:, i, None] + c) + D[None, j, :])

    # ---- obligations --------------------------------------------------------------
    def need(self, ok, cat, msg, cs):
        self.cnt += 1
        if not ok:
            k = (cat, msg)
            if k not in self.fails:
                self.fails[k] = (cs, self.explain(), self.trace())
        return ok

    def explain(self):
        """the path and the disjunct of a failed obligation"""
        l, key = self.leafnow, self.key
        if l is None:
            return "state %s" % (key[0],)

        def chars(m):
            v = [i - 128 for i in range(256) if m >> i & 1]
            if len(v) > 12:
                return "%d bytes" % len(v)
            return repr(bytes(x & 255 for x in v))
        return "state %s cells %s queue %s ghosts %s | bytes %s | events %s | end %s" % (
            key[0], dict(zip([c[0] for c in self.live.get(key[0], [])], key[1] or ())), key[2], tuple.__repr__(key[3]),
            {("%s%+d" % (k[0][0] if type(k[0]) is tuple else k[0], k[1])): chars(m) for k, m in l.masks.items()},
            [e[:5] for e in l.events if e[0] != "access"], l.end)

    def trace(self):
        """an input that leads along the first known way to the failed path (bytes), or None"""
        steps, key = [self.leafnow], self.key
        while key in self.parent:
            key, l = self.parent[key]
            steps.append(l)
        cell, data, n = {}, {}, None
        sk = {}

        def pos(v):
            if v[1] == "B":
                return v[2]
            if v[1] == "E":
                return None
            if v[1] in sk:
                return sk[v[1]] + v[2]
            x = cell.get(v[1])
            return x + v[2] if type(x) is int else None
        for l in reversed(steps):
            if l is None:
                continue
            sk = {}
            for ev in l.events:
                if ev[0] == "skip":
                    a = pos(ev[1])
                    if a is None:
                        return None
                    sk[ev[2]] = a + 2
                    data[a + 1] = data.get(a + 1, ALL) & mask(" ")
                    data[a + 2] = data.get(a + 2, ALL) & NLONLY
            for kx, m in l.masks.items():
                a = pos(("t",) + kx)
                if a is None or a < 0:
                    continue
                data[a] = data.get(a, ALL) & m
            new = {}
            for c, v in l.writes.items():
                if type(v) is tuple and v[0] == "t":
                    new[c] = pos(v)
                elif type(v) is int:
                    new[c] = None
            cell.update(new)
        if not data:
            return b""
        out = []
        for i in range(max(data) + 1):
            m = data.get(i, ALL)
            if not m:
                return None
            vs = [x - 128 for x in range(256) if m >> x & 1]
            good = [x for x in vs if 97 <= x <= 122] or [x for x in vs if 33 <= x < 127] or [x for x in vs if x > 0] or vs
            out.append(good[0] & 255)
        return bytes(out)

    # ---- solving --------------------------------------------------------------------
    def solve(self, deadline=None):
        D0 = np.full((self.n, self.n), INF, dtype=np.int64)
        for i in range(self.n):
            D0[i, i] = 0
        D0[0, 1] = 0
        for g in self.gi:                  # every ghost starts at the start of the input
            D0[g, 0] = D0[0, g] = 0
        self.close(D0)
        self.todo, self.inq, self.parent = [], set(), {}
        st = (None, None, "F", TB((0, 0, None, 0, None, None)))
        self.edges(st, D0, self.ent, {})
        import time
        while self.todo:
            k = self.todo.pop()
            self.inq.discard(k)
            if deadline and time.time() > deadline:
                raise Unsup("invariant inference out of time")
            D = self.close(self.inv[k].copy())
            cs, vals, qc, tb = k
            val = dict(zip(self.live[cs], vals))
            self.edges(k, D, self.sums[cs], val)
        return sum(self.nob.values())

    def edges(self, key, D, tree, val):
        self.cnt = 0
        self.key = key
        cs, _, qc, tb = key
        self.leafnow = None
        stack = [(tree, D)]
        while stack:
            nd, D = stack.pop()
            for l in nd.leaves:
                self.leaf(key, D, l, val)
            for (cond, truth), kid in nd.kids.items():
                for E in self.cond(D, cond, truth, val):
                    stack.append((kid, E))
        self.nob[key] = self.cnt

    def term(self, x, val):
        """('v', index, k) or a concrete value or a marker"""
        if x in ("B", "E"):
            return ("v", self.ix[x], 0)
        if x in self.rigid:
            return ("t", x, 0)
        if type(x) is tuple and x[0] == "SK":
            return ("v", self.n + x[1], 0)
        if x == "cnt":
            return self.count
        v = val.get(x, STALE if self.key[0] is None else DEAD)
        if v is POS:
            return ("v", self.ix[x], 0)
        return v

    def cond(self, D, cond, truth, val):
        """the ways D can satisfy the condition"""
        if cond[0] == "any":
            return [D]
        op, x, y, c = cond
        a = self.term(x, val)
        b = self.term(y, val) if y is not None else None
        for z in (a, b):
            if z is STALE or z is DEAD:
                self.need(False, "C19" if z is STALE else "C16", "a decision depends on a value left from before (%s)" % (
                    x if z is a else y,), self.key[0])
                return [D]
            if z is ANY:
                return [D]
        va = type(a) is tuple and a[0] == "v"
        vb = type(b) is tuple and b[0] == "v"
        if va and (vb or (y is None and type(c) is int and self.isnum(x) and x not in ("B", "E"))):
            i, j = a[1], (b[1] if vb else None)
            if j is None:
                j = 0                      # counters are kept relative to the start
            if i >= len(D) or j >= len(D):
                return [D]
            if op == "<=":
                r = self.add(D, i, j, c) if truth else self.add(D, j, i, -c - 1)
                return [] if r is None else [r]
            if truth:
                r = self.add(D, i, j, c)
                if r is not None:
                    r = self.add(r, j, i, -c)
                return [] if r is None else [r]
            out = []
            r = self.add(D, i, j, c - 1)
            if r is not None:
                out.append(r)
            r = self.add(D, j, i, -c - 1)
            if r is not None:
                out.append(r)
            if len(out) == 2:
                return [D]
            return out
        if y is None:
            if va:                         # a position against a constant: it is not null
                if op == "==" and c == 0:
                    return [] if truth else [D]
                return [D]
            if type(a) is tuple and a[0] == "t":          # a language chosen by the caller
                if c == 0 and op == "==":
                    return [] if truth else [D]
                if c == a:
                    return [D] if truth else []
                return [D]
            if op == "==":
                return [D] if (a == c) == truth else []
            if type(a) is int and type(c) is int:
                return [D] if (a <= c) == truth else []
            return [D]
        # two cells, at least one of them concrete
        if op == "==":
            if va or vb:
                z = b if va else a
                if z == 0:
                    return [] if truth else [D]
                return [D]
            ra, rb = type(a) is tuple and a[0] == "t", type(b) is tuple and b[0] == "t"
            if a == b and c == 0:
                return [D] if truth else []
            if ra != rb and (a != 0 and b != 0):
                return [D]
            if ra and rb:
                return [D]
            if type(a) is int and type(b) is int:
                return [D] if (a - b == c) == truth else []
            return [] if truth else [D]
        if va and b == 0:                  # position <= null
            return [] if truth else [D]
        if vb and a == 0:
            return [D] if truth else []
        if type(a) is int and type(b) is int:
            return [D] if (a - b <= c) == truth else []
        return [D]

    # ---- one complete path --------------------------------------------------------------
    def leaf(self, key, D, l, val):
        cs, _, qc, (td, td2) = key
        prop = self.prop
        self.leafnow = l
        ahead = key[3][-1]                 # what the last path learned of the byte now at p
        masks = l.masks
        if ahead is not None and (("p", 0), 0) in masks:
            m = masks[(("p", 0), 0)] & ahead
            if not m:
                return
            masks = dict(masks)
            masks[(("p", 0), 0)] = m
        behind = key[3][-2]                # and of the byte before it
        if behind is not None and (("p", 0), -1) in masks:
            m = masks[(("p", 0), -1)] & behind
            if not m:
                return
            masks = dict(masks)
            masks[(("p", 0), -1)] = m
        if l.skips:
            k = len(D) + l.skips
            E = np.full((k, k), INF, dtype=np.int64)
            E[:len(D), :len(D)] = D
            for i in range(len(D), k):
                E[i, i] = 0
            D = E
            for ev in l.events:
                if ev[0] == "skip":
                    f = self.tv(ev[1], val)
                    if f is None:
                        self.need(False, "C16", "is_blank_entry is not given a position", cs)
                        return
                    i = self.n + ev[2][1]
                    D[f[0], i] = -f[1] - 1
                    D[i, 1] = -1
            self.close(D)
            if (np.diag(D) < 0).any():
                return
            Ds = [D]
            for c, truth in l.late:
                Ds = [y for x in Ds for y in self.cond(x, c, truth, val)]
            if not Ds:
                return
            D = Ds[0] if len(Ds) == 1 else np.maximum.reduce(Ds)
        T = {}
        for kx in masks:
            T[kx] = self.tv(("t",) + kx, val)
        # every byte looked at is in the input, or its terminator
        for kx in masks:
            t = T[kx]
            if t is None:
                self.need(False, "C16", "reads a byte at a value that is not a position", cs)
                return
            self.need(D[0, t[0]] <= t[1] and D[t[0], 1] <= -t[1], "C16", "every byte read is in the input or its terminator", cs)
        for kx, m in masks.items():
            if not m & NUL:
                t = T[kx]
                D = self.add(D, t[0], 1, -t[1] - 1)
                if D is None:
                    return
        # after is_blank_entry failed: the blanks at p do not run up to the end of the line
        nb = (self.ix[("p", 0)], 0) if key[3][-3] else None
        for ev in l.events:
            if ev[0] == "nbentry":
                nb = self.tv(("t",) + ev[1], val)
        go = nb is not None and prop != "C16"
        while go:
            go = False
            for kx, t in T.items():
                if self.eq(D, t, nb):
                    m = masks[kx]
                    if not m & ~(LF | CR):
                        return             # impossible
                    masks = dict(masks)
                    masks[kx] = m = m & ~(LF | CR)
                    if not m & ~WS:
                        nb = (nb[0], nb[1] + 1)
                        go = True
                    else:
                        nb = None
                    break
        g = [(i, 0) for i in self.gi]
        facts = [(T[kx], self.kind(masks, kx, D, T[kx])) for kx in sorted(masks, key=lambda z: z[1])] if prop != "C16" else []

        if prop == "C18":
            # no line ends between b and m, or (td) the first one exactly at m
            for t, (ins, step, stop) in facts:
                for i, d in ((0, td), (2, td2)):
                    if i == 2 and qc != "N" or not (stop or step and d) or not self.le(D, g[i], t):
                        continue
                    m = g[i + 1]
                    if stop:
                        D = self.add(D, m[0], t[0], t[1] + d - m[1])                 # m <= t + d
                    elif self.le(D, (t[0], t[1] + 1), m):
                        D = self.add(D, t[0], m[0], m[1] - t[1] - 2)                 # t + 2 <= m
                    if D is None:
                        return

        def absorb():
            """move the ghosts over the bytes this path knows (facts about the input, so at any time)"""
            nonlocal td, td2
            for t, (ins, step, stop) in facts:
                if prop == "C17":
                    for i in (0, 1):
                        if ins and self.eq(D, g[i], t):
                            g[i] = (t[0], t[1] + 1)
                        if (ins or step) and self.eq(D, g[i + 2], t):
                            g[i + 2] = (t[0], t[1] + 1)
                elif step or stop:
                    if not td and self.eq(D, g[1], t):
                        g[1] = (t[0], t[1] + 1)
                        td = int(stop)
                    if not td2 and self.eq(D, g[3], t):
                        g[3] = (t[0], t[1] + 1)
                        td2 = int(stop)
        absorb()
        for ev in l.events:
            k = ev[0]
            if k == "report" or k == "enq":
                lang, ent, s, e, ud = ev[1:6]
                lv = self.cv(lang, val)
                self.lang(lv, cs)
                ok = self.cv(ent, val)
                if self.count:
                    self.need(type(ok) is tuple and ok[0] == "p" and self.text(ok) in (b"lcode", b"lcomment", b"lblank"), "C16",
                              "the kind reported is code, comment or blank", cs)
                else:
                    self.need(type(ok) is tuple and ok[0] == "p" and self.text(ok) is not None, "C16",
                              "the entity reported is a string", cs)
                self.need(ud == ("ud",), "C16", "the user data is passed on", cs)
                s, e = self.tu(s, val), self.tu(e, val)
                if not self.need(s is not None and e is not None, "C16", "a report starts and ends at positions", cs):
                    continue
                self.need(D[0, s[0]] <= s[1], "C16", "a report starts inside the input", cs)
                self.need(D[e[0], 1] <= -e[1], "C16", "a report ends inside the input", cs)
                self.need(self.le(D, (s[0], s[1] + 1), e), "C16", "a report is not empty", cs)
                if k == "report":
                    if qc == "N":
                        qc = "S"
                        if prop == "C17":
                            g[0], g[2] = g[1], g[3]
                        elif prop == "C18":
                            g[0], g[1], td = g[2], g[3], td2
                else:
                    if qc == "E":
                        qc = "N"
                        if prop == "C17":
                            g[1], g[3] = g[0], g[2]
                        elif prop == "C18":
                            g[2], g[3], td2 = g[0], g[1], td
                    elif qc != "N":
                        qc = "F"
                        continue
                if prop == "C17":
                    if self.le(D, s, g[0]) and not self.le(D, e, g[0]):
                        g[0] = e
                    if self.le(D, s, g[2]):
                        # what precedes a blank report on its line need not be in the report
                        if type(ok) is tuple and ok[0] == "p" and self.text(ok) == b"lblank" and not self.le(D, e, g[0]):
                            g[0] = e
                        if not self.le(D, e, g[2]):
                            g[2] = e
                    if self.le(D, g[2], g[0]) and not self.le(D, g[0], g[2]):
                        g[2] = g[0]            # terminators are significant
                elif prop == "C18":
                    self.need(self.le(D, g[0], s), "C18", "a report starts where the lines reported before end, or later", cs)
                    if td:
                        self.need(self.eq(D, e, g[1]), "C18", "a report ends where its line ends", cs)
                    else:
                        self.need(self.eq(D, e, g[1]) and self.eq(D, e, (1, 0)), "C18", "a report ends where its line ends", cs)
                    g[0], g[1], td = e, e, 0
                absorb()
            elif k == "drop":
                if qc == "N":
                    if prop == "C17":
                        g[0], g[2] = g[1], g[3]
                    elif prop == "C18":
                        g[0], g[1], td = g[2], g[3], td2
                    absorb()
                qc = "E"
            elif k == "commit":
                self.need(qc in ("N", "E"), "C19" if qc == "F" else "C18", "the reports committed are those queued since the queue was last emptied", cs)
                qc = "D"
            elif k == "qnull":
                if ev[1] and qc in "NSD" or not ev[1] and qc == "E":
                    return
                if ev[1]:
                    qc = "E"
            elif k == "access":
                t = self.tv(("t",) + ev[1], val)
                if not self.need(t is not None and D[0, t[0]] <= t[1] and D[t[0], 1] <= -t[1], "C16",
                                 "every byte read is in the input or its terminator", cs):
                    return
            elif k == "range":
                s, e = self.tv(ev[1], val), self.tv(ev[2], val)
                if not self.need(s is not None and e is not None and D[0, s[0]] <= s[1] and D[e[0], 1] <= -e[1], "C16",
                                 "every byte read is in the input or its terminator", cs):
                    return
            elif k == "blank":
                # is_blank_rest(s, e): the bytes from s to e are insignificant (when e is the end)
                s, e = self.tv(ev[1], val), self.tv(ev[2], val)
                if any(not m & (WS | CR) and self.le(D, s, T[kx]) and self.le(D, (T[kx][0], T[kx][1] + 1), e)
                       for kx, m in masks.items()):
                    return                     # not blank: this path is impossible
                if prop == "C17" and self.eq(D, e, (1, 0)):
                    for i in (0, 1):
                        if self.le(D, s, g[i]):
                            g[i] = e
                        if self.le(D, s, g[i + 2]):
                            g[i + 2] = e
            elif k == "notblank":
                s, e = self.tv(ev[1], val), self.tv(ev[2], val)
                D = self.add(D, s[0], e[0], e[1] - s[1] - 1)       # a byte of the range is not blank
                if D is None:
                    return
            elif k == "skip":
                if prop == "C17":
                    f = self.tv(ev[1], val)
                    for i in (0, 1, 2, 3):
                        if self.le(D, (f[0], f[1] + 1), g[i]) and self.le(D, g[i], (self.n + ev[2][1], 0)):
                            g[i] = (self.n + ev[2][1], 0)
            elif k == "nbentry":
                pass
            elif k == "bad":
                self.need(False, "C16", ev[1], cs)
            else:
                raise Unsup("event %r" % (ev,))
        if l.end == "bad":
            return
        if l.end == "ret":
            if prop == "C17" and self.count:
                x = g[1] if qc == "N" else g[0]
                self.need(self.le(D, (1, 0), x), "C17", "every significant byte was reported when the parser returns", cs)
            return
        # ---- the cut again: into which disjunct?
        ncs = l.writes.get(self.eng.cell_cs)
        if type(ncs) is not int:
            ncs = self.cv(ncs, val)
        if ncs not in self.sums:
            self.need(False, "C16", "the next state is known", cs)
            return
        nv, tt = {}, {}
        for c in self.live[ncs]:
            if c in l.writes:
                v = l.writes[c]
            else:
                v = ("t", c, 0)
            if type(v) is tuple and v[0] == "t":
                if v[1] in ("B", "E") or v[1] in self.rigid or v[1][0] == "SK":
                    w = self.term(v[1], val)
                else:
                    w = val.get(v[1], STALE if cs is None else DEAD)
                    if w is POS:
                        w = ("v", self.ix[v[1]], 0)
                if type(w) is tuple and w[0] == "v":
                    if c in self.posset:
                        tt[c] = (w[1], v[2])
                        w = POS
                    else:
                        w = ANY
                elif type(w) is int and v[2]:
                    w = w + v[2] if self.isnum(c) else DEAD
                nv[c] = w
            elif type(v) is tuple and v[0] in ("u", "c", "x", "qv"):
                nv[c] = ANY
            elif type(v) is tuple and v[0] == "Q":
                nv[c] = DEAD
            else:
                nv[c] = v
            if c in self.posset and self.isnum(c) and type(nv[c]) is int:
                tt[c] = (0, nv[c])          # a counter is a number relative to zero
                nv[c] = POS
        if nv.get(("inqueue", 0)) == 0:
            for c in nv:
                if type(c[0]) is str and c[0].startswith("last_"):
                    nv[c] = DEAD
        tp = nv.get(("top", 0))
        if type(tp) is int:
            for c in nv:
                if c[0] == "stack" and c[1] >= 4 * tp:
                    nv[c] = DEAD
        if nv.get(("ts", 0), 1) == 0 and nv.get(("te", 0)) is POS:
            nv[("te", 0)] = DEAD
        # difference bounds of the next arrival
        idx, off = [0, 1], [0, 0]
        gone = []
        for c in self.pos:
            if nv.get(c) is POS:
                idx.append(tt[c][0])
                off.append(tt[c][1])
            else:
                gone.append(len(idx))
                idx.append(0)
                off.append(0)
        if prop == "C17" and qc != "N":
            g[1] = g[3] = (0, 0)
        if prop == "C18" and qc != "N":
            g[2] = g[3] = (0, 0)
            td2 = 0
        for t in g:
            idx.append(t[0])
            off.append(t[1])
        o = np.array(off)
        N = D[np.ix_(idx, idx)] + o[:, None] - o[None, :]
        for i in gone:
            N[i, :] = INF
            N[:, i] = INF
            N[i, i] = 0
        N[N > LIM] = INF
        N[N < -LIM] = -LIM
        # one disjunct for each way the ghosts lie to the current position
        variants = [(N, ())]
        pi = self.ix.get(("p", 0))
        if prop != "C16" and pi is not None:
            for q in ([0, 1, 2, 3] if prop == "C17" else [1, 3]):
                i, vs = self.gi[q], []
                for M, bits in variants:
                    lo, hi = M[i, pi], M[pi, i]               # ghost - p <= lo, p - ghost <= hi
                    if lo <= 0 and hi <= 0:
                        vs.append((M, bits + (0,)))
                    elif lo < 0:
                        vs.append((M, bits + (-1,)))
                    elif hi < 0:
                        vs.append((M, bits + (1,)))
                    elif hi == 0 or lo == 0:
                        eq = self.add(self.add(M, i, pi, 0), pi, i, 0)
                        ne = self.add(M, pi, i, -1) if hi == 0 else self.add(M, i, pi, -1)
                        vs += [(x, bits + (y,)) for x, y in ((eq, 0), (ne, 1 if hi == 0 else -1)) if x is not None]
                    else:
                        eq = self.add(M, i, pi, 0)
                        eq = eq if eq is None else self.add(eq, pi, i, 0)
                        vs += [(x, bits + (y,)) for x, y in ((eq, 0), (self.add(M, pi, i, -1), 1), (self.add(M, i, pi, -1), -1))
                               if x is not None]
                variants = vs
        ahead = teb = None
        pv = l.writes.get(("p", 0))
        ev = l.writes.get(("te", 0))
        if prop != "C16":
            if type(pv) is tuple and pv[0] == "t" and (pv[1], pv[2]) in masks:
                m = masks[(pv[1], pv[2])]
                ks = (NLONLY, ALL & ~(LF | CR), ALL & ~NLONLY) if prop == "C17" else (NLONLY, LF, CR, ALL & ~(LF | CR), ALL & ~NLONLY)
                if self.hasnb:
                    ks = (ALL & ~(LF | CR | WS),) + ks
                ahead = next((x for x in ks if not m & ~x), None)
            elif pv == ("t", ("te", 0), 0):
                ahead = key[3][-4]         # back to the end of the last match: that byte was read before
                if ahead is None and prop == "C18":
                    t = self.tv(("t", ("te", 0), 0), val)
                    m = next((m for kx, m in masks.items() if t is not None and self.eq(D, T[kx], t)), None)
                    if m is not None:
                        ahead = next((x for x in (NLONLY, LF, CR, ALL & ~(LF | CR)) if not m & ~x), None)
            # what is known of the byte at te
            if nv.get(("te", 0)) is POS:
                if ev is None:
                    teb = key[3][-4]
                if teb is None:
                    for kx, t in T.items():
                        if not masks[kx] & (LF | CR) and self.eq(D, t, tt[("te", 0)]):
                            teb = ALL & ~(LF | CR)
                            break
        behind = None
        if self.looksback and type(pv) is tuple and pv[0] == "t" and (pv[1], pv[2] - 1) in masks:
            m = masks[(pv[1], pv[2] - 1)]
            behind = LF | CR if not m & ~(LF | CR) else ALL & ~(LF | CR) if not m & (LF | CR) else None
        elif self.looksback and (pv is None or pv == ("t", ("p", 0), 0)):
            behind = key[3][-2]
        nbit = 0
        if nb is not None and prop != "C16":
            pt = self.tv(pv, val) if pv is not None else (pi, 0)
            nbit = int(pt is not None and self.eq(D, pt, nb))
        vals = tuple(nv[c] for c in self.live[ncs])
        for N, bits in variants:
            N[N > LIM] = INF
            k = (ncs, vals, qc, TB((td, td2) + bits + (teb, nbit, behind, ahead)))
            old = self.inv.get(k)
            if self.watch:
                self.watch(self, k, N, old, key, l)
            if old is None:
                self.inv[k] = N
                self.parent[k] = (key, l)
            else:
                J = np.maximum(old, N)
                if (J == old).all():
                    continue
                self.inv[k] = J
            if k not in self.inq:
                self.inq.add(k)
                self.todo.append(k)

    def kind(self, masks, kx, D, t):
        """(insignificant, ends no line, ends a line) for the byte at kx"""
        m = masks[kx]
        ins, step, stop = not m & ~WS, not m & (CR | LF), not m & ~LF
        if not m & ~CR:
            nx = masks.get((kx[0], kx[1] + 1), ALL)
            if not nx & ~NLONLY or self.le(D, (1, 0), (t[0], t[1] + 1)):
                ins = step = True
            elif not nx & NLONLY and self.le(D, (t[0], t[1] + 2), (1, 0)):
                stop = True
        return ins, step, stop

    def lang(self, lv, cs):
        self.reported.add(lv)
        ok = lv in self.rigid_vals() or (type(lv) is tuple and lv[0] == "p" and self.text(lv) in self.langs)
        self.need(ok, "C16" if lv is not STALE else "C19", "the language reported is a registered one", cs)

    def rigid_vals(self):
        return {("t", c, 0) for c in self.rigid}

    def text(self, v):
        return self.strs(v)

    def le(self, D, a, b):
        """a <= b for terms (index, k)"""
        return D[a[0], b[0]] <= b[1] - a[1]

    def eq(self, D, a, b):
        return self.le(D, a, b) and self.le(D, b, a)

    def tv(self, v, val):
        """a position value as a term, or None"""
        if type(v) is not tuple or v[0] != "t":
            return None
        t = self.term(v[1], val)
        if type(t) is tuple and t[0] == "v":
            return (t[1], t[2] + v[2])
        return None

    def tu(self, v, val):
        if type(v) is int:
            return (0, v)
        if type(v) is tuple and v[0] == "u":
            return self.tv(("t", v[1], v[2]), val)
        return None

    def cv(self, v, val):
        """a value with the initial values of the cells put in"""
        if type(v) is tuple and v[0] == "t":
            if v[1] in self.rigid:
                return v
            w = self.term(v[1], val)
            if type(w) is int:
                return w + v[2]
            return w if v[2] == 0 else ANY
        return v


class TB(tuple):
    """(td, td2, bits...) that unpacks as two"""

    def __iter__(self):
        return iter((self[0], self[1]))


def s_known(s):
    for cond, truth in s.guards:
        if truth and cond[0] == "==" and cond[2] is None:
            yield cond[1], cond[3]
