"""Parser for the textual LLVM IR produced by dv/extract.py."""
import re
import struct

TOK = re.compile(r'''
   "(?:[^"\\]|\\.)*"
 | [%@]"(?:[^"\\]|\\.)*"
 | c"(?:[^"\\]|\\.)*"
 | [%@][-A-Za-z$._0-9]+
 | \#\d+
 | !(?:[A-Za-z_][\w.]*|\d+)?
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+\.\d*(?:[eE][-+]?\d+)?
 | -?\d+
 | \.\.\.
 | [A-Za-z_][\w.]*
 | [(){}\[\]<>,=*:;|]
''', re.X)


class Unsupported(Exception):
    pass


class Ty:
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __repr__(self):
        return "%s%s" % (self.k, self.a if self.a else "")

    def __eq__(self, o):
        return self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))


PTR = Ty("ptr")
VOID = Ty("void")
DOUBLE = Ty("double")


def I(n):
    return Ty("int", n)


class Instr:
    __slots__ = ("op", "res", "ty", "ops", "x", "line")

    def __init__(self, op, res, ty, ops, x=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.ops = ops
        self.x = x


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []       # (name, Ty, attrs:set)
        self.ret = None
        self.blocks = {}       # label -> [Instr]
        self.order = []
        self.entry = None


class Module:
    def __init__(self, text):
        self.fn_text = {}
        self.types = {}
        self.globals = {}
        self.decl = set()
        self.aliases = {}
        self._fn = {}
        self.layout_cache = {}
        self._split(text)

    def _split(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("define "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+)\(', ln)
                name = m.group(1).strip('"')
                j = i
                while lines[j] != "}":
                    j += 1
                self.fn_text[name] = lines[i:j]
                i = j + 1
                continue
            if ln.startswith("declare "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+)\(', ln)
                self.decl.add(m.group(1).strip('"'))
            elif ln.startswith("%"):
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+)) = type (.*)$', ln)
                if m:
                    self.types[m.group(1)] = m.group(2)
            elif ln.startswith("@"):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+) = (.*)$', ln)
                if m:
                    nm = m.group(1).strip('"')
                    if " alias " in m.group(2).split("(")[0]:
                        t = re.search(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+)\s*$', m.group(2))
                        if t:
                            self.aliases[nm] = t.group(1).strip('"')
                    self.globals[nm] = m.group(2)
            i += 1

    # ---- types
    def named(self, name):
        t = self.types.get(name)
        if t is None:
            raise Unsupported("type " + name)
        if isinstance(t, str):
            p = Parser(self, TOK.findall(t))
            t = p.type()
            self.types[name] = t
        return t

    def size_align(self, t):
        r = self.layout_cache.get(t)
        if r is None:
            r = self._size_align(t)
            self.layout_cache[t] = r
        return r

    def _size_align(self, t):
        if t.k == "int":
            n = t.a[0]
            s = 1
            while s * 8 < n:
                s *= 2
            return s, s
        if t.k == "double" or t.k == "ptr":
            return 8, 8
        if t.k == "float":
            return 4, 4
        if t.k == "x86_fp80" or t.k == "fp128":
            return 16, 16
        if t.k == "array":
            s, a = self.size_align(t.a[1])
            return s * t.a[0], a
        if t.k == "vector":
            s, a = self.size_align(t.a[1])
            return s * t.a[0], s * t.a[0]
        if t.k == "named":
            return self.size_align(self.named(t.a[0]))
        if t.k == "struct":
            off, al = 0, 1
            for f in t.a[0]:
                s, a = self.size_align(f)
                if t.a[1]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Unsupported("size of " + repr(t))

    def field_offset(self, t, i):
        if t.k == "named":
            t = self.named(t.a[0])
        off = 0
        for j, f in enumerate(t.a[0]):
            s, a = self.size_align(f)
            if t.a[1]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise Unsupported("field")

    def has(self, name):
        return name in self.fn_text or name in self.aliases

    def function(self, name):
        if name in self.aliases and name not in self.fn_text:
            name = self.aliases[name]
        f = self._fn.get(name)
        if f is None:
            f = parse_function(self, name, self.fn_text[name])
            self._fn[name] = f
        return f


PARAM_ATTR_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "nofpclass", "elementtype", "preallocated", "inalloca", "byref", "captures", "memory", "initializes"}
PARAM_ATTR = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "signext", "zeroext", "inreg", "returned", "immarg", "nofree", "writable", "dead_on_unwind", "allocptr", "allocalign", "swiftself", "nest", "noext"}
FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}


class Parser:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x != s:
            raise Unsupported("parse: expected %s got %s in %s" % (s, x, " ".join(self.t[max(0, self.i - 8):self.i + 8])))

    def type(self):
        t = self.next()
        if t == "ptr":
            r = PTR
            if self.peek() == "addrspace":
                self.i += 4
        elif re.match(r"i\d+$", t):
            r = I(int(t[1:]))
        elif t in ("double", "float", "void", "label", "metadata", "x86_fp80", "opaque", "token", "half", "fp128"):
            r = Ty(t)
        elif t == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            r = Ty("array", n, e)
        elif t == "<":
            if self.peek() == "{":
                self.next()
                r = Ty("struct", self.fields(), True)
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                r = Ty("vector", n, e)
        elif t == "{":
            r = Ty("struct", self.fields(), False)
        elif t[0] == "%":
            r = Ty("named", t)
        else:
            raise Unsupported("type token " + t)
        # function type
        if self.peek() == "(" and r.k != "opaque":
            save = self.i
            depth = 0
            while True:
                x = self.next()
                if x == "(":
                    depth += 1
                elif x == ")":
                    depth -= 1
                    if depth == 0:
                        break
            nx = self.peek()
            if nx and (nx[0] in "@%"):
                r = Ty("func", r)
            else:
                self.i = save
        return r

    def fields(self):
        fs = []
        if self.accept("}"):
            return ()
        while True:
            fs.append(self.type())
            if self.accept("}"):
                return tuple(fs)
            self.expect(",")

    def attrs(self):
        s = set()
        while True:
            p = self.peek()
            if p in PARAM_ATTR_ARG:
                self.next()
                if p == "align" and self.peek() != "(":
                    self.next()
                elif self.peek() == "(":
                    d = 0
                    while True:
                        x = self.next()
                        if x == "(":
                            d += 1
                        elif x == ")":
                            d -= 1
                            if d == 0:
                                break
                s.add(p)
            elif p in PARAM_ATTR:
                self.next()
                s.add(p)
            else:
                return s

    def value(self, ty):
        t = self.next()
        if t[0] == "%":
            return ("loc", t)
        if t[0] == "@":
            return ("glob", t[1:].strip('"'))
        if t == "null":
            return ("null",)
        if t in ("undef", "poison"):
            return ("undef",)
        if t == "zeroinitializer":
            return ("zero",)
        if t == "true":
            return ("int", 1)
        if t == "false":
            return ("int", 0)
        if re.match(r"-?\d+$", t):
            return ("int", int(t))
        if t.startswith("0x"):
            if t[2] in "KLMHR":
                raise Unsupported("fp80 const")
            return ("fp", struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0])
        if re.match(r"-?\d+\.", t):
            return ("fp", float(t))
        if t == "getelementptr":
            while self.peek() in ("inbounds", "inrange", "nuw", "nusw"):
                self.next()
            self.expect("(")
            et = self.type()
            ops = []
            while self.accept(","):
                if self.peek() == "inrange":
                    self.next()
                ot = self.type()
                ops.append((ot, self.value(ot)))
            self.expect(")")
            return ("cgep", et, ops)
        if t in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "trunc", "zext", "sext"):
            self.expect("(")
            st = self.type()
            v = self.value(st)
            self.expect("to")
            dt = self.type()
            self.expect(")")
            return ("ccast", t, st, v, dt)
        if t in ("sub", "add"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            at = self.type()
            a = self.value(at)
            self.expect(",")
            bt = self.type()
            b = self.value(bt)
            self.expect(")")
            return ("cbin", t, at, a, b)
        if t == "{" or t == "[" or t == "<":
            close = {"{": "}", "[": "]", "<": ">"}[t]
            if t == "<" and self.peek() == "{":
                self.next()
                vs = self._agg("}")
                self.expect(">")
                return ("agg", vs)
            return ("agg", self._agg(close))
        if t.startswith('c"'):
            return ("str", t)
        if t == "blockaddress" or t == "dso_local_equivalent" or t == "no_cfi":
            raise Unsupported(t)
        raise Unsupported("value token " + t)

    def _agg(self, close):
        vs = []
        if self.accept(close):
            return vs
        while True:
            ty = self.type()
            vs.append((ty, self.value(ty)))
            if self.accept(close):
                return vs
            self.expect(",")

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


def parse_function(mod, name, lines):
    f = Function(name)
    hdr = TOK.findall(lines[0])
    p = Parser(mod, hdr)
    p.next()
    # skip to return type: tokens before @name
    while True:
        t = p.peek()
        if t in ("dso_local", "internal", "linkonce_odr", "weak_odr", "linkonce", "weak", "available_externally",
                 "private", "external", "hidden", "protected", "unnamed_addr", "local_unnamed_addr", "fastcc", "ccc", "coldcc", "dso_preemptable"):
            p.next()
        elif t in PARAM_ATTR or t in PARAM_ATTR_ARG:
            p.attrs()
        else:
            break
    f.ret = p.type()
    p.next()     # @name
    p.expect("(")
    idx = 0
    f.varargs = False
    while not p.accept(")"):
        if p.accept(","):
            continue
        if p.accept("..."):
            f.varargs = True
            continue
        ty = p.type()
        at = p.attrs()
        if p.peek() and p.peek()[0] == "%":
            nm = p.next()
        else:
            nm = "%%%d" % idx
        f.params.append((nm, ty, at))
        idx += 1
    cur = None
    buf = None
    for ln in lines[1:]:
        if not ln.strip() or ln.lstrip().startswith(";"):
            continue
        if not ln.startswith(" "):
            m = re.match(r'("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+):', ln)
            cur = "%" + m.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = "%%%d" % idx
            f.blocks[cur] = []
            f.order.append(cur)
        s = ln.strip()
        if buf is not None:
            buf += " " + s
            if "]" in s:
                f.blocks[cur].append(parse_instr(mod, buf))
                buf = None
            continue
        if s.startswith("switch ") and "]" not in s:
            buf = s
            continue
        if (s.startswith("to label") or s.startswith("catch ") or s.startswith("cleanup") or s.startswith("filter ")):
            prev = f.blocks[cur].pop()
            f.blocks[cur].append(parse_instr(mod, prev.line + " " + s))
            continue
        if (s.startswith("invoke ") or " = invoke " in s) and " unwind label " not in s:
            ins = Instr("partial", None, None, [])
            ins.line = s
            f.blocks[cur].append(ins)
            continue
        f.blocks[cur].append(parse_instr(mod, s))
    f.entry = f.order[0]
    return f


CASTS = {"sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast", "ptrtoint", "inttoptr", "fpext", "fptrunc", "addrspacecast"}
BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "ashr", "lshr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}


def parse_instr(mod, line):
    toks = TOK.findall(line)
    # cut metadata / attribute suffix
    p = Parser(mod, toks)
    res = None
    if toks[0][0] == "%" and len(toks) > 1 and toks[1] == "=":
        res = p.next()
        p.next()
    op = p.next()
    ins = None
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in BIN:
        while p.peek() in ("nuw", "nsw", "exact", "disjoint") or p.peek() in FMF:
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        ins = Instr(op, res, ty, [a, b])
    elif op == "fneg" or op == "freeze":
        while p.peek() in FMF:
            p.next()
        ty = p.type()
        ins = Instr(op, res, ty, [p.value(ty)])
    elif op in ("icmp", "fcmp"):
        while p.peek() in FMF or p.peek() == "samesign":
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        ins = Instr(op, res, I(1), [a, b], (pred, ty))
    elif op in CASTS:
        while p.peek() in ("nneg", "nuw", "nsw") or p.peek() in FMF:
            p.next()
        st = p.type()
        v = p.value(st)
        p.expect("to")
        dt = p.type()
        ins = Instr(op, res, dt, [v], st)
    elif op == "load":
        while p.peek() in ("volatile", "atomic"):
            p.next()
        ty = p.type()
        p.expect(",")
        p.type()
        ins = Instr(op, res, ty, [p.value(PTR)])
    elif op == "store":
        while p.peek() in ("volatile", "atomic"):
            p.next()
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        p.type()
        ins = Instr(op, None, ty, [v, p.value(PTR)])
    elif op == "alloca":
        while p.peek() in ("inalloca", "swifterror"):
            p.next()
        ty = p.type()
        cnt = None
        if p.peek() == "," and p.peek(1) and re.match(r"i\d+$", p.peek(1)):
            p.next()
            ct = p.type()
            cnt = p.value(ct)
        ins = Instr(op, res, PTR, [], (ty, cnt))
    elif op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        et = p.type()
        p.expect(",")
        p.type()
        base = p.value(PTR)
        idx = []
        while p.accept(","):
            if p.peek()[0] == "!":
                break
            it = p.type()
            idx.append((it, p.value(it)))
        ins = Instr(op, res, PTR, [base], (et, idx))
    elif op == "phi":
        while p.peek() in FMF:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            lb = p.next()
            p.expect("]")
            inc.append((v, lb))
            if not p.accept(",") or p.peek() != "[":
                break
        ins = Instr(op, res, ty, [v for v, _ in inc], inc)
    elif op == "select":
        while p.peek() in FMF:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(",")
        ta = p.type()
        a = p.value(ta)
        p.expect(",")
        tb = p.type()
        b = p.value(tb)
        ins = Instr(op, res, ta, [c, a, b])
    elif op == "br":
        if p.peek() == "label":
            p.next()
            ins = Instr("br", None, None, [], [p.next()])
        else:
            ty = p.type()
            c = p.value(ty)
            p.expect(",")
            p.expect("label")
            a = p.next()
            p.expect(",")
            p.expect("label")
            b = p.next()
            ins = Instr("br", None, None, [c], [a, b])
    elif op == "switch":
        ty = p.type()
        c = p.value(ty)
        p.expect(",")
        p.expect("label")
        d = p.next()
        p.expect("[")
        cases = []
        while not p.accept("]"):
            p.type()
            v = int(p.next())
            p.expect(",")
            p.expect("label")
            cases.append((v, p.next()))
        ins = Instr("switch", None, ty, [c], (d, cases))
    elif op == "ret":
        ty = p.type()
        ins = Instr("ret", None, ty, [] if ty.k == "void" else [p.value(ty)])
    elif op in ("call", "invoke"):
        while p.peek() in FMF or p.peek() in ("fastcc", "ccc", "coldcc"):
            p.next()
        p.attrs()
        ty = p.type()
        if ty.k == "func":
            ty = ty.a[0]
        if p.peek() == "asm":
            ins = Instr("asm", res, ty, [])
            ins.line = line
            return ins
        callee = p.value(PTR)
        p.expect("(")
        args = []
        while not p.accept(")"):
            if p.accept(","):
                continue
            at = p.type()
            p.attrs()
            if at.k == "metadata":
                # skip operand
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    x = p.next()
                    if x == "(":
                        d += 1
                    elif x == ")":
                        d -= 1
                args.append((at, ("undef",)))
            else:
                args.append((at, p.value(at)))
        nd = None
        if op == "invoke":
            while p.peek() != "to":
                p.next()
            p.next()
            p.expect("label")
            a = p.next()
            p.expect("unwind")
            p.expect("label")
            nd = (a, p.next())
        ins = Instr(op, res, ty, [callee] + [v for _, v in args], ([t for t, _ in args], nd))
    elif op == "extractvalue":
        ty = p.type()
        v = p.value(ty)
        idx = []
        while p.accept(","):
            if p.peek()[0] == "!":
                break
            idx.append(int(p.next()))
        ins = Instr(op, res, ty, [v], idx)
    elif op == "insertvalue":
        ty = p.type()
        v = p.value(ty)
        p.expect(",")
        et = p.type()
        e = p.value(et)
        idx = []
        while p.accept(","):
            if p.peek()[0] == "!":
                break
            idx.append(int(p.next()))
        ins = Instr(op, res, ty, [v, e], idx)
    elif op in ("unreachable", "resume", "landingpad", "fence"):
        ins = Instr(op, res, None, [])
    elif op in ("atomicrmw", "cmpxchg", "va_arg", "extractelement", "insertelement", "shufflevector"):
        ins = Instr("unsup", res, None, [])
    else:
        raise Unsupported("instr " + line)
    ins.line = line
    return ins


def successors(ins):
    if ins.op == "br":
        return list(ins.x)
    if ins.op == "switch":
        return [ins.x[0]] + [l for _, l in ins.x[1]]
    if ins.op == "invoke":
        return [ins.x[1][0]]          # normal destination only (exceptions not modelled)
    return []
