"""Reader for the textual LLVM IR (clang -O0 -g -fno-discard-value-names) that ovc verifies."""
import re

PRIM = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8,
        "x86_fp80": 16, "i128": 16}

TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|%"[^"]+"|@"[^"]+"|[%@!][-\w.$]+|\.\.\.|'''
                 r'''-?\d+\.\d+e[+-]?\d+|0x[0-9A-Fa-f]+|-?\d+|[A-Za-z_][\w.]*|[()\[\]{}<>,=*#|:!])''')


def lex(s):
    out, i = [], 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise ValueError("lex: %r" % s[i:i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


class Ty:
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == "arr":
            return "[%d x %r]" % (self.a, self.b)
        if self.k == "struct":
            return "%%%s" % self.a
        if self.k == "lit":
            return "{%s}" % ", ".join(map(repr, self.a))
        return self.k

    def __eq__(self, o):
        return repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


class Instr:
    __slots__ = ("op", "res", "a", "dbg", "txt")

    def __init__(self, op, res, a, txt, dbg=None):
        self.op, self.res, self.a, self.txt, self.dbg = op, res, a, txt, dbg

    def __repr__(self):
        return self.txt


class Func:
    """a function; its body is parsed when first asked for"""

    def __init__(self, name):
        self.name = name
        self.params = []        # (ty, regname)
        self.ret = None
        self.dbg = None
        self.static = False
        self._load = None

    def __getattr__(self, k):
        # blocks: label -> [Instr]; entry: label; allocs: alloca reg -> (ty, count)
        if k in ("blocks", "entry", "allocs") and self.__dict__.get("_load"):
            ld, self._load = self._load, None
            self.blocks, self.entry, self.allocs = {}, None, {}
            ld()
            return self.__dict__[k]
        raise AttributeError(k)


class Cursor:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        y = self.next()
        if y != x:
            raise ValueError("expected %r got %r in %r" % (x, y, " ".join(self.t)))


ATTRS = {"noundef", "nonnull", "noalias", "signext", "zeroext", "nocapture", "readonly", "writeonly",
         "immarg", "returned", "readnone", "dso_local", "internal", "private", "unnamed_addr", "external",
         "local_unnamed_addr", "common", "hidden", "inbounds", "nuw", "nsw", "exact", "volatile", "tail",
         "notail", "musttail", "fastcc", "ccc", "linkonce_odr", "weak", "available_externally", "disjoint", "nneg",
         "allocptr", "inalloca", "weak_odr", "samesign"}


class Module:
    def __init__(self, path):
        self.path = path
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.md = {}
        self._lay = {}
        self.parse(open(path, encoding="utf-8", errors="replace").read())

    # ---- types -------------------------------------------------------
    def ty(self, c):
        x = c.next()
        if x == "[":
            n = int(c.next())
            c.need("x")
            t = self.ty(c)
            c.need("]")
            r = Ty("arr", n, t)
        elif x == "{":
            l = []
            while not c.eat("}"):
                l.append(self.ty(c))
                c.eat(",")
            r = Ty("lit", l)
        elif x == "<":
            l = []
            c.need("{")
            while not c.eat("}"):
                l.append(self.ty(c))
                c.eat(",")
            c.need(">")
            r = Ty("packed", l)
        elif x.startswith("%"):
            r = Ty("struct", x[1:].strip('"'))
        else:
            r = Ty(x)
        if c.peek() == "(" and False:
            pass
        while c.eat("*"):
            r = Ty("ptr")
        return r

    def align(self, t):
        if t.k == "arr":
            return self.align(t.b)
        if t.k == "packed":
            return 1
        if t.k in ("struct", "lit"):
            return max([self.align(x) for x in self.fields(t)] or [1])
        return PRIM[t.k]

    def fields(self, t):
        return self.structs[t.a] if t.k == "struct" else t.a

    def layout(self, t):
        key = repr(t)
        if key not in self._lay:
            off, offs = 0, []
            for f in self.fields(t):
                a = self.align(f)
                off = (off + a - 1) // a * a
                offs.append(off)
                off += self.size(f)
            a = self.align(t)
            self._lay[key] = (offs, (off + a - 1) // a * a)
        return self._lay[key]

    def size(self, t):
        if t.k == "arr":
            return t.a * self.size(t.b)
        if t.k == "packed":
            return sum(self.size(x) for x in t.a)
        if t.k in ("struct", "lit"):
            return self.layout(t)[1]
        return PRIM[t.k]

    # ---- constants ---------------------------------------------------
    def const(self, c, t):
        """Parse a constant / operand of type t; returns a tuple tree."""
        x = c.next()
        if x in ("getelementptr", "inttoptr", "ptrtoint", "bitcast", "trunc", "sub", "add"):
            return self.constexpr(c, x)
        if x in ("null", "undef", "poison", "zeroinitializer", "none"):
            return ("zero" if x in ("null", "zeroinitializer", "none") else "undef",)
        if x == "true":
            return ("int", 1)
        if x == "false":
            return ("int", 0)
        if x.startswith('c"'):
            return ("str", unesc(x[2:-1]))
        if x == "[":
            l = []
            while not c.eat("]"):
                et = self.ty(c)
                l.append(self.const(c, et))
                c.eat(",")
            return ("agg", l)
        if x == "<":
            c.need("{")
            l = []
            while not c.eat("}"):
                et = self.ty(c)
                l.append(self.const(c, et))
                c.eat(",")
            c.need(">")
            return ("agg", l)
        if x == "{":
            l = []
            while not c.eat("}"):
                et = self.ty(c)
                l.append(self.const(c, et))
                c.eat(",")
            return ("agg", l)
        if x.startswith("%"):
            return ("reg", x[1:].strip('"'))
        if x.startswith("@"):
            return ("glob", x[1:].strip('"'))
        if re.match(r"-?\d+$", x):
            return ("int", int(x))
        if x.startswith("0x") or "." in x:
            return ("float", x)
        raise ValueError("const %r" % x)

    def constexpr(self, c, op):
        while c.peek() in ATTRS:
            c.next()
        c.need("(")
        if op == "getelementptr":
            t = self.ty(c)
            c.need(",")
            bt = self.ty(c)
            base = self.const(c, bt)
            idx = []
            while c.eat(","):
                it = self.ty(c)
                idx.append(self.const(c, it))
            c.need(")")
            return ("gep", t, base, idx)
        raise ValueError("constexpr %s" % op)

    # ---- top level ---------------------------------------------------
    def parse(self, text):
        # string literals are private to their module
        text = text.replace("@.str", "@%s.str" % re.sub(r"\W", "_", self.path.split("/")[-1][:-3]))
        lines = text.split("\n")
        i, n = 0, len(lines)
        cur = None
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] == ";":
                continue
            if ln[0] == "%":
                m = re.match(r'%("?)([^"=]+?)\1 = type (.*)$', ln)
                if m:
                    name, body = m.group(2), m.group(3)
                    if body.startswith("opaque"):
                        self.structs[name] = []
                    elif body.startswith("<"):
                        self.structs[name] = []
                    else:
                        c = Cursor(lex(body))
                        self.structs[name] = self.ty(c).a
                continue
            if ln[0] == "@":
                self.parse_global(ln)
                continue
            if ln[0] == "!":
                m = re.match(r"!(\d+) = (?:distinct )?!?(.*)$", ln)
                if m:
                    self.md[m.group(1)] = m.group(2)
                continue
            if ln.startswith("declare"):
                m = re.search(r'@("?)([-\w.$]+)\1\(', ln)
                self.decls.add(m.group(2))
                continue
            if ln.startswith("define"):
                i = self.parse_func(lines, i - 1)

    def parse_global(self, ln):
        m = re.match(r'@("?)([^"=]+?)\1 = (.*)$', ln)
        name, rest = m.group(2), m.group(3)
        rest = re.sub(r", !dbg !\d+.*$", "", rest)
        words = rest.split(" ")
        k = 0
        kind = None
        ext = False
        linkage = []
        while k < len(words):
            if words[k] in ("global", "constant"):
                kind = words[k]
                break
            if words[k] in ("external",):
                ext = True
            linkage.append(words[k])
            k += 1
        body = " ".join(words[k + 1:])
        body = re.sub(r", align \d+.*$", "", body)
        body = re.sub(r", comdat.*$", "", body)
        c = Cursor(lex(body))
        t = self.ty(c)
        init = None
        if not ext and c.peek() is not None:
            init = self.const(c, t)
        self.globals[name] = (t, init, kind == "constant", linkage)

    def parse_func(self, lines, i):
        ln = lines[i]
        m = re.match(r'define (.*?)@("?)([-\w.$]+)\2\((.*)\)([^)]*)\{$', ln)
        f = Func(m.group(3))
        f.static = " internal " in " " + m.group(1) + " "
        d = re.search(r"!dbg !(\d+)", m.group(5))
        f.dbg = d.group(1) if d else None
        c = Cursor([t for t in lex(m.group(1)) if t not in ATTRS])
        f.ret = self.ty(c)
        c = Cursor([t for t in lex(m.group(4)) if t not in ATTRS])
        while c.peek() is not None:
            if c.eat("..."):
                break
            t = self.ty(c)
            while c.peek() == "align" or c.peek() == "byval" or c.peek() == "sret":
                w = c.next()
                if w == "align":
                    c.next()
                else:
                    c.need("(")
                    self.ty(c)
                    c.need(")")
            r = c.next() if c.peek() and c.peek().startswith("%") else None
            f.params.append((t, r[1:].strip('"') if r else str(len(f.params))))
            c.eat(",")
        j = i
        while lines[j] != "}":
            j += 1
        f._load = lambda: self.parse_body(f, lines, i)
        self.funcs[f.name] = f
        return j + 1

    def parse_body(self, f, lines, i):
        i += 1
        lab = "entry"
        if not re.match(r'^("?)[-\w.$]+\1:', lines[i]):
            f.entry = lab
            f.blocks[lab] = []
        while True:
            ln = lines[i]
            i += 1
            if ln == "}":
                break
            if not ln.strip() or ln.lstrip().startswith(";"):
                continue
            m = re.match(r'^("?)([-\w.$]+)\1:', ln)
            if m:
                lab = m.group(2)
                f.blocks[lab] = []
                if f.entry is None:
                    f.entry = lab
                continue
            s = ln.strip()
            if s.startswith("switch") and not s.rstrip().endswith("]") and "]" not in s:
                while "]" not in lines[i]:
                    s += " " + lines[i].strip()
                    i += 1
                s += " " + lines[i].strip()
                i += 1
            ins = self.instr(s)
            if ins is not None:
                f.blocks[lab].append(ins)
                if ins.op == "alloca":
                    f.allocs[ins.res] = ins.a

    def operand(self, c, t):
        return (t, self.const(c, t))

    def typed(self, c):
        t = self.ty(c)
        if t.k == "metadata":
            while c.peek() is not None and c.peek() not in (",", ")"):
                if c.peek() == "ptr":
                    c.next()
                    return (t, ("md", c.next()))
                x = c.next()
                if c.peek() == "(":
                    d = 0
                    while True:
                        y = c.next()
                        d += (y == "(") - (y == ")")
                        if d == 0:
                            break
                return (t, ("md", x))
        while c.peek() in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret"):
            w = c.next()
            if w == "align":
                c.next()
            else:
                c.need("(")
                if w in ("byval", "sret"):
                    self.ty(c)
                else:
                    c.next()
                c.need(")")
        return (t, self.const(c, t))

    def instr(self, s):
        txt = s
        dbg = None
        m = re.search(r", !dbg !(\d+)", s)
        if m:
            dbg = m.group(1)
        s = re.sub(r", ![a-zA-Z.]+ !\d+", "", s)
        s = re.sub(r" #\d+(?=$|,)", "", s)
        res = None
        m = re.match(r'%("?)([-\w.$]+)\1 = (.*)$', s)
        if m:
            res, s = m.group(2), m.group(3)
        if s.startswith("call void @llvm.dbg.declare"):
            m = re.match(r"call void @llvm.dbg.declare\(metadata ptr (%\S+?), metadata !(\d+)", s)
            if m:
                return Instr("dbgdeclare", None, (m.group(1)[1:].strip('"'), m.group(2)), txt, dbg)
            return None
        toks = lex(s)
        flags = set(t for t in toks if t in ("nsw", "nuw", "inbounds"))
        toks = [t for t in toks if t not in ATTRS]
        c = Cursor(toks)
        op = c.next()
        if op == "alloca":
            t = self.ty(c)
            cnt = None
            while c.eat(","):
                if c.peek() == "align":
                    c.next()
                    c.next()
                else:
                    cnt = self.typed(c)
            return Instr(op, res, (t, cnt), txt, dbg)
        if op == "load":
            t = self.ty(c)
            c.need(",")
            return Instr(op, res, (t, self.typed(c)), txt, dbg)
        if op == "store":
            v = self.typed(c)
            c.need(",")
            return Instr(op, res, (v, self.typed(c)), txt, dbg)
        if op == "getelementptr":
            t = self.ty(c)
            c.need(",")
            base = self.typed(c)
            idx = []
            while c.eat(","):
                idx.append(self.typed(c))
            return Instr(op, res, (t, base, idx), txt, dbg)
        if op == "icmp":
            pred = c.next()
            t = self.ty(c)
            a = self.const(c, t)
            c.need(",")
            b = self.const(c, t)
            return Instr(op, res, (pred, t, (t, a), (t, b)), txt, dbg)
        if op == "fcmp":
            return Instr(op, res, (), txt, dbg)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "ashr", "lshr",
                  "fadd", "fsub", "fmul", "fdiv"):
            t = self.ty(c)
            a = self.const(c, t)
            c.need(",")
            b = self.const(c, t)
            return Instr(op, res, (t, (t, a), (t, b), flags), txt, dbg)
        if op in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fpext", "fptrunc",
                  "fptosi", "fptoui"):
            v = self.typed(c)
            c.need("to")
            return Instr(op, res, (v, self.ty(c)), txt, dbg)
        if op == "br":
            if c.peek() == "label":
                c.next()
                return Instr("br", None, (c.next()[1:].strip('"'),), txt, dbg)
            cond = self.typed(c)
            c.need(",")
            c.need("label")
            a = c.next()[1:].strip('"')
            c.need(",")
            c.need("label")
            b = c.next()[1:].strip('"')
            return Instr("condbr", None, (cond, a, b), txt, dbg)
        if op == "switch":
            v = self.typed(c)
            c.need(",")
            c.need("label")
            d = c.next()[1:].strip('"')
            c.need("[")
            cases = []
            while not c.eat("]"):
                cv = self.typed(c)
                c.need(",")
                c.need("label")
                cases.append((cv[1][1], c.next()[1:].strip('"')))
            return Instr(op, None, (v, d, cases), txt, dbg)
        if op == "phi":
            t = self.ty(c)
            inc = []
            while True:
                c.need("[")
                v = self.const(c, t)
                c.need(",")
                l = c.next()[1:].strip('"')
                c.need("]")
                inc.append(((t, v), l))
                if not c.eat(","):
                    break
            return Instr(op, res, (t, inc), txt, dbg)
        if op == "select":
            a = self.typed(c)
            c.need(",")
            b = self.typed(c)
            c.need(",")
            d = self.typed(c)
            return Instr(op, res, (a, b, d), txt, dbg)
        if op == "ret":
            t = self.ty(c)
            v = None if t.k == "void" else (t, self.const(c, t))
            return Instr(op, None, (v,), txt, dbg)
        if op == "unreachable":
            return Instr(op, None, (), txt, dbg)
        if op == "call":
            while c.peek() == "align":
                c.next()
                c.next()
            rt = self.ty(c)
            if c.peek() == "(":          # function type of a variadic callee
                d = 0
                while True:
                    y = c.next()
                    d += (y == "(") - (y == ")")
                    if d == 0:
                        break
            callee = self.const(c, Ty("ptr"))
            c.need("(")
            args = []
            while not c.eat(")"):
                args.append(self.typed(c))
                c.eat(",")
            return Instr(op, res, (rt, callee, args), txt, dbg)
        raise ValueError("instr %s" % txt)

    # ---- debug info ----------------------------------------------------
    def mdfield(self, body, key):
        m = re.search(r"\b%s: (!?\"?[^,)]*\"?)" % key, body)
        return m.group(1).strip('"') if m else None

    def ditype(self, ref, depth=0):
        """-> ('int',bits) | ('ptr', T) | ('struct', name) | ('arr', T) | ('fn',) | ('void',)"""
        if ref in (None, "null"):
            return ("void",)
        body = self.md[ref.lstrip("!")]
        if body.startswith("DIBasicType"):
            return ("int", int(self.mdfield(body, "size") or 0), self.mdfield(body, "name"))
        if body.startswith("DICompositeType"):
            tag = self.mdfield(body, "tag")
            if tag == "DW_TAG_structure_type":
                return ("struct", self.mdfield(body, "name") or "anon" + ref)
            if tag == "DW_TAG_array_type":
                return ("arr", self.ditype(self.mdfield(body, "baseType"), depth + 1))
            if tag == "DW_TAG_enumeration_type":
                return ("int", 32, "enum")
            return ("union", ref)
        if body.startswith("DISubroutineType"):
            return ("fn",)
        if body.startswith("DIDerivedType"):
            tag = self.mdfield(body, "tag")
            bt = self.mdfield(body, "baseType")
            if tag == "DW_TAG_pointer_type":
                if depth > 6:
                    return ("ptr", ("void",))
                return ("ptr", self.ditype(bt, depth + 1))
            if tag == "DW_TAG_typedef":
                r = self.ditype(bt, depth)
                if r[0] == "struct" and r[1].startswith("anon"):
                    return ("struct", self.mdfield(body, "name"))
                return r
            return self.ditype(bt, depth)
        return ("void",)

    def distructs(self):
        """LLVM struct name -> [(field name, ditype)] from the debug info."""
        if hasattr(self, "_dis"):
            return self._dis
        tdef = {}
        for k, b in self.md.items():
            if b.startswith("DIDerivedType(tag: DW_TAG_typedef"):
                bt = self.mdfield(b, "baseType")
                if bt and bt.startswith("!"):
                    tdef.setdefault(bt.lstrip("!"), self.mdfield(b, "name"))
        out = {}
        for k, b in self.md.items():
            if b.startswith("DICompositeType(tag: DW_TAG_structure_type"):
                els = self.mdfield(b, "elements")
                if not els:
                    continue
                name = self.mdfield(b, "name") or tdef.get(k)
                if not name:
                    continue
                lst = []
                for e in re.findall(r"!(\d+)", self.md[els.lstrip("!")]):
                    eb = self.md[e]
                    lst.append((self.mdfield(eb, "name"), self.ditype(self.mdfield(eb, "baseType"))))
                out[name] = lst
        self._dis = out
        self._tdef = tdef
        return out


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode("utf-8")
            i += 1
    return bytes(out)


if __name__ == "__main__":
    import sys, time
    for p in sys.argv[1:]:
        t = time.time()
        m = Module(p)
        print(p, len(m.funcs), len(m.globals), round(time.time() - t, 2))
        print({k: v for k, v in list(m.distructs().items())[:30]})
