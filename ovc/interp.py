"""Ground evaluation of small functions on concrete arguments, from the same IR (tables, keyword lookups)."""
from .ir import Ty
from .sym import bits, P_T, I64_T


class Fault(Exception):
    pass


class Interp:
    """values: int, ('p', object, offset) or 0 (null), ('fn', name).  objects: ('g', name) globals, ('s', bytes) strings,
    ('a', n) locals"""

    def __init__(self, prog, externs=None, fuel=200000):
        self.prog, self.mem, self.n, self.fuel = prog, {}, 0, fuel
        self.externs = dict(EXT, **(externs or {}))

    def string(self, b):
        return ("p", ("s", bytes(b) + b"\0"), 0)

    def signed(self, v, t):
        b = bits(t)
        v &= (1 << b) - 1
        return v - (1 << b) if b > 1 and v >> (b - 1) else v

    def const(self, c, t):
        k = c[0]
        if k == "int":
            return self.signed(c[1], t) if t.k != "i1" else int(bool(c[1]))
        if k in ("zero", "null"):
            return 0
        if k == "glob":
            if c[1] in self.prog.funcs or c[1] in self.prog.decls:
                return ("fn", c[1])
            return ("p", ("g", c[1]), 0)
        if k == "gep":
            return self.gep(c[1], self.const(c[2], P_T), [self.const(i, I64_T) for i in c[3]])
        raise Fault("constant %r" % (c,))

    def gep(self, t, p, idx):
        if p == 0:
            raise Fault("arithmetic on null")
        off = p[2] + idx[0] * self.prog.sizeof(t)
        cur = t
        for i in idx[1:]:
            if cur.k == "arr":
                off += i * self.prog.sizeof(cur.b)
                cur = cur.b
            else:
                off += self.prog.layout(cur)[0][i]
                cur = self.prog.fields(cur)[i]
        return ("p", p[1], off)

    def load(self, p, t):
        if not isinstance(p, tuple) or p[0] != "p":
            raise Fault("load through %r" % (p,))
        o, off = p[1], p[2]
        if (o, off) in self.mem:
            return self.mem[(o, off)]
        if o[0] == "s":
            if not 0 <= off < len(o[1]):
                raise Fault("read outside the text")
            return self.signed(o[1][off], t)
        if o[0] == "g":
            ty = self.prog.globals[o[1]][0]
            if not (0 <= off and off + self.prog.sizeof(t) <= self.prog.sizeof(ty)):
                raise Fault("read outside " + o[1])
            return self.const(self.prog.ginit_at(o[1], off, t), t)
        raise Fault("uninitialised read")

    def byte(self, p, k):
        return self.load(("p", p[1], p[2] + k), Ty("i8")) & 255

    def cstr(self, p):
        out = bytearray()
        while True:
            c = self.byte(p, len(out))
            if not c:
                return bytes(out)
            out.append(c)

    def call(self, name, args):
        if name in self.externs:
            return self.externs[name](self, args)
        f, m = self.prog.funcs[name]
        regs = {r: v for (t, r), v in zip(f.params, args)}

        def val(tv):
            t, c = tv
            return regs[c[1]] if c[0] == "reg" else self.const(c, t)
        b, prev = f.entry, None
        while True:
            for x in f.blocks[b]:
                self.fuel -= 1
                if self.fuel < 0:
                    raise Fault("does not end")
                op, a = x.op, x.a
                if op == "dbgdeclare":
                    continue
                if op == "alloca":
                    self.n += 1
                    r = ("p", ("a", self.n), 0)
                elif op == "load":
                    r = self.load(val(a[1]), a[0])
                elif op == "store":
                    p = val(a[1])
                    if p[1][0] != "a":
                        raise Fault("writes to a table")
                    self.mem[(p[1], p[2])] = val(a[0])
                    continue
                elif op == "getelementptr":
                    r = self.gep(a[0], val(a[1]), [val(i) for i in a[2]])
                elif op == "icmp":
                    u, v = val(a[2]), val(a[3])
                    if isinstance(u, tuple) and isinstance(v, tuple) and u[1] == v[1]:
                        u, v = u[2], v[2]
                    elif isinstance(u, tuple) or isinstance(v, tuple):
                        if a[0] not in ("eq", "ne"):
                            raise Fault("pointer comparison")
                        u, v = (0, 0) if u == v else (0, 1)
                    elif a[0][0] == "u":
                        k = (1 << bits(a[1])) - 1
                        u, v = u & k, v & k
                    r = int({"eq": u == v, "ne": u != v, "gt": u > v, "ge": u >= v, "lt": u < v, "le": u <= v}[
                        a[0] if a[0] in ("eq", "ne") else a[0][1:]])
                elif op in ("add", "sub", "mul", "and", "or", "xor", "shl"):
                    u, v = val(a[1]), val(a[2])
                    r = self.signed({"add": u + v, "sub": u - v, "mul": u * v, "and": u & v, "or": u | v, "xor": u ^ v,
                                     "shl": u << (v & 63)}[op], a[0])
                elif op in ("sext", "zext", "trunc"):
                    v, t0 = val(a[0]), a[0][0]
                    r = v & ((1 << bits(t0)) - 1) if op == "zext" else -v if op == "sext" and t0.k == "i1" else self.signed(v, a[1])
                    r = self.signed(r, a[1]) if a[1].k != "i1" else r & 1
                elif op == "phi":
                    r = next(val(v) for v, l in a[1] if l == prev)
                elif op == "select":
                    r = val(a[1]) if val(a[0]) else val(a[2])
                elif op == "call":
                    c = a[1]
                    cn = c[1] if c[0] == "glob" else val((P_T, c))[1]
                    r = None if cn.startswith("llvm.") else self.call(cn, [val(v) for v in a[2]])
                elif op == "ret":
                    return None if a[0] is None else val(a[0])
                elif op == "br":
                    prev, b = b, a[0]
                    break
                elif op == "condbr":
                    prev, b = b, a[1] if val(a[0]) else a[2]
                    break
                elif op == "switch":
                    v = val(a[0])
                    k = (1 << bits(a[0][0])) - 1
                    prev, b = b, next((l for cv, l in a[2] if (cv & k) == (v & k)), a[1])
                    break
                else:
                    raise Fault("instruction " + op)
                if x.res is not None:
                    regs[x.res] = r


def x_strcmp(i, a):
    k = 0
    while True:
        u, v = i.byte(a[0], k), i.byte(a[1], k)
        if u != v or u == 0:
            return u - v
        k += 1


EXT = {"strcmp": x_strcmp, "strlen": lambda i, a: len(i.cstr(a[0]))}
