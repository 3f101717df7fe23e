"""A set of IR modules seen as one program: types, field names (from debug info), globals."""
import re
from .ir import Module, Ty
from .sym import (Ptr, FnPtr, SymFn, Unsupported, isc, conc, toz, add, eq, smp, ite, Opq, OPQ, bits, NULL, P_T, I64_T)
import z3
from z3 import And, Or, If, Const, IntSort, ArraySort, is_expr

I = IntSort()


class Program:
    def __init__(self, modules):
        self.mods = modules
        self.funcs, self.decls, self.structs = {}, set(), {}
        self.globals = {}
        self.dis = {}
        self.tids = {}
        for m in modules:
            for n, f in m.funcs.items():
                if n not in self.funcs:
                    self.funcs[n] = (f, m)
            self.decls |= m.decls
            for n, fl in m.structs.items():
                if fl or n not in self.structs:
                    if n in self.structs and self.structs[n] and repr(self.structs[n]) != repr(fl):
                        if not n.startswith("struct.anon"):
                            raise Unsupported("conflicting struct " + n)
                    self.structs[n] = fl
            for n, g in m.globals.items():
                if n not in self.globals or self.globals[n][1] is None:
                    self.globals[n] = g
            for n, fl in m.distructs().items():
                self.dis.setdefault(n, fl)
        self.decls -= set(self.funcs)
        self.m0 = modules[0]
        self.m0.structs = self.structs
        self.m0._lay = {}
        # keyword tables (function-static; contracts/hash.py has the obligation that nothing writes them)
        self.readonly = set(n for n in self.globals if n.startswith("ohcount_hash_") and "." in n)
        self.gstrings = {}
        self._lt = {}

    def typeid(self, name):
        return self.tids.setdefault(name, len(self.tids) + 1)

    def sizeof(self, t):
        return self.m0.size(t) if t.k != "ptr" else 8

    def layout(self, t):
        return self.m0.layout(t)

    def fields(self, t):
        return self.m0.fields(t)

    def sname(self, llname):
        return re.sub(r"^(struct|union)\.", "", llname)

    def fname(self, S, i):
        d = self.dis.get(S)
        if d and i < len(d):
            return d[i][0]
        return "#%d" % i

    def ftype(self, S, f):
        for n, t in self.dis.get(S, []):
            if n == f:
                return t
        return None

    def field_kind(self, S, f):
        t = self.ftype(S, f)
        if t is None:
            # no debug info: use the IR type
            fl = self.structs.get("struct." + S)
            if fl and f.startswith("#"):
                k = fl[int(f[1:])].k
                return "pair" if k == "ptr" else "int"
            return "int"
        if t[0] == "ptr":
            if t[1][0] == "struct":
                return "obj"
            if t[1][0] == "fn":
                return "fn"
            return "pair"
        return "int"

    def pointee(self, S, f):
        return self.ftype(S, f)[1][1]

    def ditypes(self, name):
        """parameter di types of a function"""
        f, m = self.funcs[name]
        if f.dbg is None:
            return [None] * len(f.params)
        body = m.md[f.dbg]
        t = m.md[m.mdfield(body, "type").lstrip("!")]
        types = m.mdfield(t, "types")
        lst = re.findall(r"!(\d+)|(null)", m.md[types.lstrip("!")])
        r = [m.ditype(a) if a else ("void",) for a, b in lst]
        r = r[1:]
        while len(r) < len(f.params):
            r.append(None)
        return r

    def local_type(self, f, m, reg):
        key = (f.name, reg)
        if key not in self._lt:
            d = {}
            for b in f.blocks.values():
                for i in b:
                    if i.op == "dbgdeclare":
                        body = m.md[i.a[1]]
                        d[i.a[0]] = m.ditype(m.mdfield(body, "type"))
            for r in f.allocs:
                self._lt[(f.name, r)] = d.get(r)
        return self._lt.get(key)

    def line_of(self, m, dbg):
        if dbg is None:
            return "?"
        r = m.mdfield(m.md[dbg], "line")
        return r or "?"

    # ---- globals -----------------------------------------------------
    def gbytes(self, name):
        """bytes of a constant string global, or None"""
        g = self.globals.get(name)
        if not g:
            return None
        t, init, const, _ = g
        if t.k == "arr" and t.b.k == "i8" and init is not None:
            if init[0] == "str":
                return init[1]
            if init[0] == "zero":
                return bytes(t.a)
            if init[0] == "agg":
                return bytes((x[1] & 255) if x[0] == "int" else 0 for x in init[1])
        return None

    def ginit_at(self, name, off, t):
        """constant initializer value at a concrete byte offset"""
        ty, init, const, _ = self.globals[name]
        return self._at(ty, init, off, t)

    def _at(self, ty, init, off, t):
        if init is None:
            raise Unsupported("external global read")
        if init[0] in ("zero",):
            return ("zero",)
        if init[0] == "undef":
            return ("undef",)
        if ty.k == "arr":
            es = self.sizeof(ty.b)
            i = off // es
            if i < 0 or i >= ty.a:
                raise Unsupported("constant table read out of bounds")
            if init[0] == "str":
                v = init[1][i]
                return ("int", v)
            return self._at(ty.b, init[1][i], off - i * es, t)
        if ty.k in ("struct", "lit", "packed"):
            if ty.k == "packed":
                o = 0
                for ft, fi in zip(ty.a, init[1]):
                    n = self.sizeof(ft)
                    if o <= off < o + n:
                        return self._at(ft, fi, off - o, t)
                    o += n
                raise Unsupported("packed read")
            offs, sz = self.layout(ty)
            fl = self.fields(ty)
            for k in range(len(fl) - 1, -1, -1):
                if offs[k] <= off:
                    return self._at(fl[k], init[1][k], off - offs[k], t)
        return init

    def load_global(self, e, st, g, p, t, where):
        name = g[1]
        if name not in self.globals:
            raise Unsupported("global " + name)
        ty, init, const, link = self.globals[name]
        if const or name in getattr(self, "readonly", ()):
            if isc(p.off):
                if not e.opts.get("nomem") and not (0 <= p.off and p.off + self.sizeof(t) <= self.sizeof(ty)):
                    e.oblige(st, False, "memory: in-bounds read of constant " + name, where)
                    return e.fresh_val(st, t, "oob")
                c = self.ginit_at(name, p.off, t)
                return self.constval(e, st, c, t)
            b = self.gbytes(name)
            e.oblige(st, And(toz(p.off) >= 0, toz(p.off) + self.sizeof(t) <= self.sizeof(ty)),
                     "memory: in-bounds read of constant " + name, where)
            if t.k == "i8" and b is not None and len(b) <= 300:
                v = e.fresh("k")
                e.rangefact(st, v, 8)
                a = self.karr(e, name, b)
                e.assume(st, v == a[toz(p.off)])
                return v
            if ty.k == "arr" and e.opts.get("tables"):
                return e.opts["tables"](e, st, name, p, t, where)
            return e.fresh_val(st, t, "tab")
        # mutable globals: one cell per constant offset
        if isc(p.off):
            key = ("G", name, p.off)
            if key not in st.cells:
                st.cells[key] = self.ginitcell(e, st, key, t)
            return st.cells[key]
        if ty.k == "arr" and ty.a <= 4:
            es = self.sizeof(ty.b)
            rest = p.off
            e.oblige(st, Or(*[toz(rest) == i * es for i in range(ty.a)]), "memory: in-bounds read of " + name, where)
            vals = [self.load_global(e, st, g, Ptr(p.obj, i * es, p.tag), t, where) for i in range(ty.a)]
            r = vals[-1]
            for i in range(ty.a - 2, -1, -1):
                r = e.itev(smp(toz(rest) == i * es), vals[i], r)
            return r
        return None

    def ginitcell(self, e, st, key, t):
        d = e.__dict__.setdefault("ginit", {})
        if key not in d:
            tmp = type(st)()
            v = e.fresh_val(tmp, t, "G." + key[1])
            d[key] = (v, tmp.pc)
        v, pc = d[key]
        for c in pc:
            st.pc.append(c)
        return v

    def store_global(self, e, st, g, p, t, v, where):
        name = g[1]
        if name not in self.globals:
            raise Unsupported("global " + name)
        ty, init, const, link = self.globals[name]
        if const:
            e.oblige(st, False, "memory: write to constant " + name, where)
            return True
        if isc(p.off):
            e.store_cell(st, ("G", name, p.off), v)
            return True
        if ty.k == "arr" and ty.a <= 4:
            es = self.sizeof(ty.b)
            e.oblige(st, Or(*[toz(p.off) == i * es for i in range(ty.a)]), "memory: in-bounds write of " + name, where)
            for i in range(ty.a):
                old = self.load_global(e, st, g, Ptr(p.obj, i * es, p.tag), t, where)
                e.store_cell(st, ("G", name, i * es), e.itev(smp(toz(p.off) == i * es), v, old))
            return True
        return False

    def constval(self, e, st, c, t):
        if c[0] == "zero":
            return NULL if t.k == "ptr" else 0
        if c[0] == "undef":
            return e.fresh_val(st, t, "undef")
        if c[0] == "int":
            b = bits(t)
            v = c[1] & ((1 << b) - 1)
            return v - (1 << b) if v >= (1 << (b - 1)) else v
        if c[0] == "glob":
            return e.glob_ptr(st, c[1])
        if c[0] == "gep":
            base = self.constval(e, st, c[2], P_T)
            return e.gep(st, c[1], base, [i[1] if i[0] == "int" else 0 for i in c[3]])
        raise Unsupported("constant %r" % (c,))

    def karr(self, e, name, b):
        """ground array of a constant string, with its content as axioms"""
        key = "K:" + name
        if key not in self.gstrings.setdefault(id(e), {}):
            a = Const(key, ArraySort(I, I))
            for i, x in enumerate(b):
                e.axioms.append(a[i] == (x - 256 if x > 127 else x))
            self.gstrings[id(e)][key] = a
        return self.gstrings[id(e)][key]
