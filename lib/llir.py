"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) that the library compiles to.

Types are tuples: ('i',w) ('f',) ('d',) ('p',) ('v',) ('arr',n,t) ('st',[t..],packed) ('vec',n,t).
Operands are tuples: ('c',value) constant (python value), ('l',name) local, ('g',name,offset) global address,
('fn',name) function, ('undef',type).
"""
import re, struct

TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[%@]"[^"]*"|[%@][-a-zA-Z$._0-9]+|![-a-zA-Z$._0-9]*|\#\d+|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d*(?:e[+-]?\d+)?|-?\d+|[-a-zA-Z$._][-a-zA-Z$._0-9]*|\.\.\.|[\[\](){}<>,=*|:])''')


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise IRError("tokenize: %r" % s[i:i + 60])
        t = m.group(1)
        out.append(t)
        i = m.end()
    return out


F32 = struct.Struct("<f")
F64 = struct.Struct("<d")


class Cur:
    __slots__ = ("t", "i", "mod")

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        v = self.next()
        if v != x:
            raise IRError("expected %s got %s in %s" % (x, v, " ".join(self.t[:40])))


PARAM_ATTRS = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "noalias", "immarg", "signext", "zeroext", "returned",
               "dso_local", "local_unnamed_addr", "unnamed_addr", "tail", "musttail", "notail", "fastcc", "ccc", "nofpclass", "range", "allocptr", "readnone", "nofree", "captures", "inreg"}


def ptype(c):
    t = c.next()
    r = None
    if re.fullmatch(r"i\d+", t):
        r = ("i", int(t[1:]))
    elif t == "float":
        r = ("f",)
    elif t == "double":
        r = ("d",)
    elif t == "ptr":
        r = ("p",)
    elif t == "void":
        r = ("v",)
    elif t in ("metadata", "label", "token", "x86_fp80"):
        r = (t,)
    elif t == "[":
        n = int(c.next())
        c.expect("x")
        e = ptype(c)
        c.expect("]")
        r = ("arr", n, e)
    elif t == "<":
        if c.peek() == "{":
            c.next()
            es = []
            while not c.eat("}"):
                es.append(ptype(c))
                c.eat(",")
            c.expect(">")
            r = ("st", tuple(es), True)
        else:
            n = int(c.next())
            c.expect("x")
            e = ptype(c)
            c.expect(">")
            r = ("vec", n, e)
    elif t == "{":
        es = []
        while not c.eat("}"):
            es.append(ptype(c))
            c.eat(",")
        r = ("st", tuple(es), False)
    elif t.startswith("%"):
        r = c.mod.types[t]
    else:
        raise IRError("type %s" % t)
    return r


def sizeof(t):
    k = t[0]
    if k == "i":
        return max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length()) if t[1] > 8 else 1
    if k == "f":
        return 4
    if k in ("d", "p"):
        return 8
    if k == "arr":
        return t[1] * sizeof(t[2])
    if k == "vec":
        return t[1] * sizeof(t[2]) if t[2] != ("i", 1) else (t[1] + 7) // 8
    if k == "st":
        return layout(t)[1]
    raise IRError("sizeof %r" % (t,))


def alignof(t):
    k = t[0]
    if k in ("i", "f", "d", "p"):
        return sizeof(t)
    if k == "arr":
        return alignof(t[2])
    if k == "vec":
        return sizeof(t)
    if k == "st":
        return 1 if t[2] else max([alignof(e) for e in t[1]] or [1])
    raise IRError("alignof")


_lay = {}


def layout(t):
    r = _lay.get(t)
    if r is None:
        off = 0
        offs = []
        for e in t[1]:
            a = 1 if t[2] else alignof(e)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += sizeof(e)
        a = alignof(t)
        off = (off + a - 1) // a * a
        r = _lay[t] = (offs, off)
    return r


def parse_float(tok, ty):
    if tok.startswith("0x"):
        v = F64.unpack(int(tok[2:], 16).to_bytes(8, "little"))[0]
    else:
        v = float(tok)
    return v


def pvalue(c, ty):
    """Parse an operand of known type."""
    t = c.peek()
    k = ty[0]
    if t.startswith("%"):
        c.next()
        return ("l", t)
    if t.startswith("@"):
        c.next()
        if t in c.mod.fnames:
            return ("fn", t[1:])
        return ("g", t, 0)
    if t in ("undef", "poison"):
        c.next()
        return ("undef", ty)
    if t == "zeroinitializer":
        c.next()
        return ("c", zero(ty))
    if t == "null":
        c.next()
        return ("c", 0)
    if t in ("true", "false"):
        c.next()
        return ("c", 1 if t == "true" else 0)
    if t == "getelementptr":
        c.next()
        while c.peek() in ("inbounds", "nuw", "nusw"):
            c.next()
        c.expect("(")
        et = ptype(c)
        c.expect(",")
        ptype(c)
        base = pvalue(c, ("p",))
        idx = []
        while c.eat(","):
            it = ptype(c)
            idx.append(pvalue(c, it))
        c.expect(")")
        off = gep_const(et, [i[1] if i[1] < (1 << 63) else i[1] - (1 << 64) for i in idx])
        if base[0] == "g":
            return ("g", base[1], base[2] + off)
        raise IRError("const gep base")
    if k == "i":
        c.next()
        return ("c", int(t) & ((1 << ty[1]) - 1))
    if k in ("f", "d"):
        c.next()
        return ("c", parse_float(t, ty))
    if k == "vec" and t == "<":
        c.next()
        vs = []
        for j in range(ty[1]):
            et = ptype(c)
            vs.append(pvalue(c, et))
            c.eat(",")
        c.expect(">")
        return ("c", [v[1] if v[0] == "c" else v for v in vs])
    if t.startswith('c"'):
        c.next()
        return ("c", cstring(t))
    if t == "[" or t == "{" or t == "<":
        c.next()
        pk = False
        if t == "<":
            c.expect("{")
            pk = True
        close = "]" if t == "[" else "}"
        vs = []
        while not c.eat(close):
            et = ptype(c)
            vs.append(pvalue(c, et))
            c.eat(",")
        if pk:
            c.expect(">")
        return ("agg", vs)
    raise IRError("value %s for type %r" % (t, ty))


def cstring(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def zero(ty):
    k = ty[0]
    if k in ("i", "p"):
        return 0
    if k in ("f", "d"):
        return 0.0
    if k == "vec":
        return [zero(ty[2])] * ty[1]
    return ("zero",)


def gep_const(et, idx):
    off = idx[0] * sizeof(et)
    t = et
    for i in idx[1:]:
        if t[0] == "st":
            off += layout(t)[0][i]
            t = t[1][i]
        else:
            t = t[2]
            off += i * sizeof(t)
    return off


class Global:
    __slots__ = ("name", "ty", "const", "init", "tls", "external")


class Function:
    __slots__ = ("name", "params", "ret", "blocks", "order", "entry")


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.functions = {}
        self.fnames = set()


LINK = {"dso_local", "internal", "private", "external", "common", "linkonce_odr", "weak", "unnamed_addr", "local_unnamed_addr", "hidden", "default", "available_externally", "linkonce"}


def parse_module(text):
    mod = Module()
    lines = text.split("\n")
    for l in lines:
        if l.startswith("define") or l.startswith("declare"):
            m = re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\s*\(', l)
            mod.fnames.add(m.group(1))
    # types may refer to each other in any order
    tdefs = {}
    for l in lines:
        m = re.match(r'(%[-a-zA-Z$._0-9"]+) = type (.*)$', l)
        if m:
            tdefs[m.group(1)] = m.group(2)
    def res(name):
        if name not in mod.types:
            d = tdefs[name]
            if d.strip() == "opaque":
                mod.types[name] = ("st", (), False)
                return
            for dep in re.findall(r'%[-a-zA-Z$._0-9]+', d):
                if dep != name:
                    res(dep)
            mod.types[name] = ptype(Cur(tokenize(d), mod))
    for n in tdefs:
        res(n)
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("@"):
            parse_global(l, mod)
        elif l.startswith("define"):
            j = i + 1
            while lines[j] != "}":
                j += 1
            parse_function(lines[i:j], mod)
            i = j
        i += 1
    return mod


def parse_global(l, mod):
    c = Cur(tokenize(re.sub(r", (align|section|comdat|!dbg).*$", "", l)), mod)
    g = Global()
    g.name = c.next()
    c.expect("=")
    g.tls = False
    g.external = False
    g.const = False
    while True:
        t = c.peek()
        if t == "external":
            g.external = True
        if t == "thread_local":
            g.tls = True
            c.next()
            if c.eat("("):
                c.next()
                c.expect(")")
            continue
        if t in LINK:
            c.next()
            continue
        if t == "alias":
            return
        break
    t = c.next()
    if t not in ("global", "constant"):
        raise IRError("global " + l[:100])
    g.const = t == "constant"
    g.ty = ptype(c)
    g.init = None
    if not g.external:
        g.init = pvalue(c, g.ty)
    mod.globals[g.name] = g


def skip_attrs(c):
    while True:
        t = c.peek()
        if t is None:
            return
        if t in PARAM_ATTRS:
            c.next()
            if c.peek() == "(":
                depth = 0
                while True:
                    x = c.next()
                    if x == "(":
                        depth += 1
                    elif x == ")":
                        depth -= 1
                        if depth == 0:
                            break
            continue
        if t in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval"):
            c.next()
            if c.peek() == "(":
                depth = 0
                while True:
                    x = c.next()
                    if x == "(":
                        depth += 1
                    elif x == ")":
                        depth -= 1
                        if depth == 0:
                            break
            else:
                c.next()
            continue
        return


def parse_function(lines, mod):
    c = Cur(tokenize(lines[0]), mod)
    c.expect("define")
    while c.peek() in LINK or c.peek() in PARAM_ATTRS:
        if c.peek() in LINK:
            c.next()
        else:
            skip_attrs(c)
    skip_attrs(c)
    f = Function()
    f.ret = ptype(c)
    f.name = c.next()[1:]
    c.expect("(")
    f.params = []
    while not c.eat(")"):
        if c.eat("..."):
            continue
        t = ptype(c)
        skip_attrs(c)
        nm = c.next() if c.peek().startswith("%") else "%" + str(len(f.params))
        f.params.append((nm, t))
        c.eat(",")
    f.blocks = {}
    f.order = []
    cur = None
    npar = sum(1 for p in f.params if re.fullmatch(r"%\d+", p[0]))
    body = lines[1:]
    first = True
    k = 0
    while k < len(body):
        l = body[k]
        if not l.strip() or l.lstrip().startswith(";"):
            k += 1
            continue
        m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
        if m:
            cur = "%" + m.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
            k += 1
            continue
        if first:
            cur = "%" + str(npar)
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
        txt = l
        if re.match(r"\s*switch ", l) and "]" not in l:
            while "]" not in body[k]:
                k += 1
                txt += " " + body[k].strip()
        f.blocks[cur].append(parse_instr(txt, mod))
        k += 1
    f.entry = f.order[0]
    mod.functions[f.name] = f


FLAGS = {"nsw", "nuw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg", "inbounds", "volatile", "nusw"}


def parse_instr(l, mod):
    """-> (dst or None, op, dict/tuple)"""
    l = re.sub(r", ![a-zA-Z.]+ !\d+", "", l)
    c = Cur(tokenize(l), mod)
    dst = None
    if c.peek(1) == "=":
        dst = c.next()
        c.next()
    op = c.next()
    if op in ("tail", "musttail", "notail"):
        op = c.next()
    flags = set()
    while c.peek() in FLAGS:
        flags.add(c.next())
    if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
        t = ptype(c)
        a = pvalue(c, t)
        c.expect(",")
        b = pvalue(c, t)
        return (dst, op, t, a, b, flags)
    if op == "fneg":
        t = ptype(c)
        return (dst, op, t, pvalue(c, t))
    if op in ("icmp", "fcmp"):
        while c.peek() in FLAGS:
            c.next()
        pred = c.next()
        t = ptype(c)
        a = pvalue(c, t)
        c.expect(",")
        b = pvalue(c, t)
        return (dst, op, pred, t, a, b)
    if op in ("zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr"):
        t = ptype(c)
        a = pvalue(c, t)
        c.expect("to")
        t2 = ptype(c)
        return (dst, op, t, a, t2)
    if op == "select":
        t = ptype(c)
        cc = pvalue(c, t)
        c.expect(",")
        t1 = ptype(c)
        a = pvalue(c, t1)
        c.expect(",")
        t2 = ptype(c)
        b = pvalue(c, t2)
        return (dst, op, t, cc, t1, a, b)
    if op == "phi":
        t = ptype(c)
        inc = []
        while True:
            c.expect("[")
            v = pvalue(c, t)
            c.expect(",")
            b = c.next()
            c.expect("]")
            inc.append((v, b))
            if not c.eat(","):
                break
        return (dst, op, t, inc)
    if op == "alloca":
        t = ptype(c)
        n = ("c", 1)
        while c.eat(","):
            if c.peek() == "align":
                c.next()
                c.next()
            else:
                nt = ptype(c)
                n = pvalue(c, nt)
        return (dst, op, t, n)
    if op == "load":
        if c.eat("atomic"):
            pass
        while c.peek() in FLAGS:
            c.next()
        t = ptype(c)
        c.expect(",")
        ptype(c)
        p = pvalue(c, ("p",))
        return (dst, op, t, p)
    if op == "store":
        if c.eat("atomic"):
            pass
        while c.peek() in FLAGS:
            c.next()
        t = ptype(c)
        v = pvalue(c, t)
        c.expect(",")
        ptype(c)
        p = pvalue(c, ("p",))
        return (dst, op, t, v, p)
    if op == "getelementptr":
        t = ptype(c)
        c.expect(",")
        ptype(c)
        p = pvalue(c, ("p",))
        idx = []
        while c.eat(","):
            it = ptype(c)
            idx.append((it, pvalue(c, it)))
        return (dst, op, t, p, idx)
    if op == "br":
        if c.peek() == "label":
            c.next()
            return (None, "br", c.next())
        ptype(c)
        cc = pvalue(c, ("i", 1))
        c.expect(",")
        c.expect("label")
        a = c.next()
        c.expect(",")
        c.expect("label")
        b = c.next()
        return (None, "cbr", cc, a, b)
    if op == "switch":
        t = ptype(c)
        v = pvalue(c, t)
        c.expect(",")
        c.expect("label")
        d = c.next()
        c.expect("[")
        cases = []
        while not c.eat("]"):
            ct = ptype(c)
            cv = pvalue(c, ct)
            c.expect(",")
            c.expect("label")
            cases.append((cv[1], c.next()))
        return (None, "switch", t, v, d, cases)
    if op == "ret":
        t = ptype(c)
        if t == ("v",):
            return (None, "ret", t, None)
        return (None, "ret", t, pvalue(c, t))
    if op == "unreachable":
        return (None, "unreachable")
    if op == "call":
        while c.peek() in FLAGS:
            c.next()
        skip_attrs(c)
        t = ptype(c)
        if c.peek() == "(":
            # function type of a variadic callee
            depth = 0
            while True:
                x = c.next()
                if x == "(":
                    depth += 1
                elif x == ")":
                    depth -= 1
                    if depth == 0:
                        break
        callee = c.next()
        c.expect("(")
        args = []
        while not c.eat(")"):
            at = ptype(c)
            skip_attrs(c)
            if at == ("metadata",):
                while c.peek() not in (",", ")"):
                    c.next()
            else:
                args.append((at, pvalue(c, at)))
            c.eat(",")
        return (dst, "call", t, callee, args)
    if op == "extractelement":
        t = ptype(c)
        v = pvalue(c, t)
        c.expect(",")
        it = ptype(c)
        return (dst, op, t, v, pvalue(c, it))
    if op == "insertelement":
        t = ptype(c)
        v = pvalue(c, t)
        c.expect(",")
        et = ptype(c)
        e = pvalue(c, et)
        c.expect(",")
        it = ptype(c)
        return (dst, op, t, v, e, pvalue(c, it))
    if op == "shufflevector":
        t = ptype(c)
        a = pvalue(c, t)
        c.expect(",")
        t2 = ptype(c)
        b = pvalue(c, t2)
        c.expect(",")
        mt = ptype(c)
        m = pvalue(c, mt)
        return (dst, op, t, a, b, mt, m)
    if op in ("extractvalue", "insertvalue"):
        t = ptype(c)
        v = pvalue(c, t)
        c.expect(",")
        if op == "insertvalue":
            et = ptype(c)
            e = pvalue(c, et)
            c.expect(",")
            return (dst, op, t, v, e, int(c.next()))
        return (dst, op, t, v, int(c.next()))
    if op == "freeze":
        t = ptype(c)
        return (dst, op, t, pvalue(c, t))
    if op == "fence":
        return (None, "fence")
    if op == "atomicrmw":
        rop = c.next()
        ptype(c)
        p = pvalue(c, ("p",))
        c.expect(",")
        t = ptype(c)
        v = pvalue(c, t)
        return (dst, op, rop, t, p, v)
    if op == "cmpxchg":
        c.eat("weak")
        ptype(c)
        p = pvalue(c, ("p",))
        c.expect(",")
        t = ptype(c)
        a = pvalue(c, t)
        c.expect(",")
        ptype(c)
        b = pvalue(c, t)
        return (dst, op, t, p, a, b)
    raise IRError("instruction: " + l.strip()[:120])
