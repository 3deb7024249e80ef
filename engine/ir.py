"""Parser for the subset of textual LLVM IR (LLVM 18, opaque pointers) the verifier reads."""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b", "_sz")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._sz = None

    def __repr__(self):
        return {"int": lambda: "i%d" % self.a, "array": lambda: "[%d x %r]" % (self.a, self.b),
                "vec": lambda: "<%d x %r>" % (self.a, self.b),
                "struct": lambda: "{%s}" % ", ".join(map(repr, self.a)),
                "named": lambda: "%" + self.a}.get(self.k, lambda: self.k)()


VOID, PTR, DOUBLE, FLOAT, LABEL, META = (Ty(k) for k in ("void", "ptr", "double", "float", "label", "metadata"))

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<global>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![a-zA-Z_.0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<id>[a-zA-Z_][-a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ";":
            break
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == "":
                break
            if s[pos:].lstrip().startswith(";"):
                break
            raise IRError("tokenize: " + s[pos:pos + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        pos = m.end()
    return out


class TS:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def peekk(self, o=0):
        return self.t[self.i + o][0] if self.i + o < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError("expected %r got %r in %s" % (v, self.peek(), " ".join(x[1] for x in self.t)))

    def done(self):
        return self.i >= len(self.t)


def parse_type(ts):
    k, v = ts.t[ts.i]
    if v == "<" and ts.peek(1) == "{":
        ts.next()
        ty = parse_type(ts)
        ts.expect(">")
        return Ty("struct", ty.a, True)
    if v == "[" or v == "<":
        ts.next()
        n = int(ts.next())
        ts.expect("x")
        e = parse_type(ts)
        ts.expect("]" if v == "[" else ">")
        return Ty("array" if v == "[" else "vec", n, e)
    if v == "{":
        ts.next()
        fs = []
        while not ts.accept("}"):
            fs.append(parse_type(ts))
            ts.accept(",")
        return Ty("struct", fs)
    if k == "local":
        ts.next()
        return Ty("named", v[1:].strip('"'))
    ts.next()
    if re.fullmatch(r"i\d+", v):
        t = Ty("int", int(v[1:]))
    elif v in ("void", "ptr", "double", "float", "label", "metadata", "x86_fp80", "half", "token", "fp128"):
        t = Ty(v)
    else:
        raise IRError("type? " + v)
    # function type  "void (ptr, ...)"
    if ts.peek() == "(" and k == "id":
        depth = 0
        while True:
            x = ts.next()
            if x == "(":
                depth += 1
            elif x == ")":
                depth -= 1
                if depth == 0:
                    break
        return Ty("func", t)
    return t


PARAM_ATTR = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "readnone", "returned",
              "immarg", "writeonly", "inreg", "nofree", "nest", "swiftself", "writable", "noext", "dead_on_unwind"}


def skip_attrs(ts):
    while True:
        v = ts.peek()
        if v in PARAM_ATTR:
            ts.next()
        elif v in ("align",) and ts.peekk(1) == "num":
            ts.next(); ts.next()
        elif v in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "initializes", "memory", "range", "alignstack", "elementtype", "preallocated", "inalloca", "byref", "nofpclass") and ts.peek(1) == "(":
            ts.next()
            d = 0
            while True:
                x = ts.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
                    if d == 0:
                        break
        else:
            return


# ---------------------------------------------------------------- operands
# operand representation: ("l", name) ("g", name) ("c", pyvalue) ("null",) ("undef",) ("zero",)
# ("agg", [(ty, op)]) ("ce", opcode, ...) ("str", bytes)
def parse_operand(ts, ty):
    k, v = ts.t[ts.i]
    if k == "local":
        ts.next()
        return ("l", v[1:].strip('"'))
    if k == "global":
        ts.next()
        return ("g", v[1:].strip('"'))
    if k == "num":
        ts.next()
        if ty.k in ("double", "float"):
            return ("c", fpconst(v))
        if ty.k in ("x86_fp80", "fp128", "half"):
            return ("undef",)
        return ("c", int(v))
    if v in ("true", "false"):
        ts.next()
        return ("c", 1 if v == "true" else 0)
    if v == "null":
        ts.next()
        return ("null",)
    if v in ("undef", "poison"):
        ts.next()
        return ("undef",)
    if v == "zeroinitializer":
        ts.next()
        return ("zero",)
    if v == "none":
        ts.next()
        return ("undef",)
    if k == "str":
        ts.next()
        return ("str", cstr(v))
    if v in ("<", "[", "{"):
        if v == "<" and ts.peek(1) == "{":
            ts.next()
            r = parse_operand(ts, ty)
            ts.expect(">")
            return r
        ts.next()
        close = {"<": ">", "[": "]", "{": "}"}[v]
        el = []
        while not ts.accept(close):
            t = parse_type(ts)
            el.append((t, parse_operand(ts, t)))
            ts.accept(",")
        return ("agg", el)
    if v == "splat":
        raise IRError("splat")
    # constant expressions
    if v == "getelementptr":
        ts.next()
        while ts.peek() in ("inbounds", "nuw", "nusw", "inrange"):
            ts.next()
            if ts.peek() == "(" and ts.peek(1) and ts.peekk(1) == "num":
                while ts.next() != ")":
                    pass
        ts.expect("(")
        bt = parse_type(ts)
        ts.expect(",")
        ops = []
        while True:
            ts.accept("inrange")
            t = parse_type(ts)
            ops.append((t, parse_operand(ts, t)))
            if not ts.accept(","):
                break
        ts.expect(")")
        return ("ce", "gep", bt, ops)
    if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "addrspacecast"):
        ts.next()
        ts.expect("(")
        t = parse_type(ts)
        o = parse_operand(ts, t)
        ts.expect("to")
        t2 = parse_type(ts)
        ts.expect(")")
        return ("ce", v, t, o, t2)
    if v in ("add", "sub", "mul", "xor", "shl"):
        ts.next()
        while ts.peek() != "(":
            ts.next()
        ts.expect("(")
        t = parse_type(ts)
        o = parse_operand(ts, t)
        ts.expect(",")
        t2 = parse_type(ts)
        o2 = parse_operand(ts, t2)
        ts.expect(")")
        return ("ce", v, t, o, o2)
    if v in ("blockaddress", "dso_local_equivalent", "no_cfi", "asm"):
        raise IRError("operand " + v)
    raise IRError("operand? %s in %s" % (v, " ".join(x[1] for x in ts.t[max(0, ts.i - 5):ts.i + 5])))


def fpconst(v):
    import struct
    if v.startswith("0x"):
        if v[2] in "KLMHR":
            raise IRError("fp const " + v)
        return struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0]
    return float(v)


def cstr(v):
    s = v[1:] if v[0] == "c" else v
    s = s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.extend(s[i].encode())
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "line")

    def __init__(self, op, dst, ty, a, line):
        self.op, self.dst, self.ty, self.a, self.line = op, dst, ty, a, line

    def __repr__(self):
        return self.line.strip()


class Block:
    def __init__(self, name):
        self.name = name
        self.instrs = []
        self.succs = []
        self.preds = []


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.order = []
        self.entry = None


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}

    def resolve(self, t):
        while t.k == "named":
            if t.a not in self.types:
                raise IRError("unknown type %" + t.a)
            t = self.types[t.a]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == "int":
            return max(1, min(16, 1 << ((max(1, (t.a + 7) // 8)) - 1).bit_length()))
        if t.k == "ptr" or t.k == "double":
            return 8
        if t.k == "float":
            return 4
        if t.k == "array":
            return self.align(t.b)
        if t.k == "vec":
            return self.size(t)
        if t.k == "struct":
            if t.b:
                return 1
            return max([self.align(f) for f in t.a], default=1)
        if t.k in ("x86_fp80", "fp128"):
            return 16
        raise IRError("align " + repr(t))

    def size(self, t):
        t = self.resolve(t)
        if t._sz is not None:
            return t._sz
        if t.k == "int":
            b = max(1, (t.a + 7) // 8)
            r = 1 << (b - 1).bit_length()
        elif t.k in ("ptr", "double"):
            r = 8
        elif t.k == "float":
            r = 4
        elif t.k in ("array", "vec"):
            r = t.a * self.size(t.b)
        elif t.k == "struct":
            r = self.struct_layout(t)[1]
        elif t.k in ("x86_fp80", "fp128"):
            r = 16
        else:
            raise IRError("size " + repr(t))
        t._sz = r
        return r

    def struct_layout(self, t):
        off = 0
        offs = []
        al = 1
        for f in t.a:
            a = 1 if t.b else self.align(f)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        off = (off + al - 1) // al * al
        return offs, off


def parse_module(text):
    mod = Module()
    aliases = []
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith("%") and " = type " in ln:
            name, rest = ln.split(" = type ", 1)
            name = name[1:].strip('"')
            if rest.strip() == "opaque":
                mod.types[name] = Ty("opaque")
            else:
                mod.types[name] = parse_type(TS(tokenize(rest)))
        elif ln.startswith("@") and re.search(r"\balias\b[^\"]* ptr @", ln):
            m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = .*ptr @("[^"]*"|[-a-zA-Z$._0-9]+)', ln)
            aliases.append((m.group(1).strip('"'), m.group(2).strip('"')))
        elif ln.startswith("@"):
            parse_global(mod, ln)
        elif ln.startswith("define"):
            j = i + 1
            while lines[j] != "}":
                j += 1
            body = lines[i + 1:j]
            hdr = ln
            mod.funcs_raw = getattr(mod, "funcs_raw", {})
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', hdr)
            mod.funcs_raw[m.group(1).strip('"')] = (hdr, body)
            i = j
        i += 1
    for a, b in aliases:
        if b in mod.funcs_raw:
            mod.funcs_raw[a] = mod.funcs_raw[b]
    return mod


def get_func(mod, name):
    f = mod.funcs.get(name)
    if f is None:
        raw = mod.funcs_raw.get(name)
        if raw is None:
            return None
        f = parse_func(mod, raw[0], raw[1])
        mod.funcs[name] = f
    return f


def parse_global(mod, ln):
    m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
    if not m:
        return
    name = m.group(1).strip('"')
    rest = m.group(2)
    mm = re.search(r'\b(global|constant)\b ', rest)
    if not mm:
        mod.globals[name] = None  # alias etc
        return
    const = mm.group(1) == "constant"
    ext = "external" in rest[:mm.start()]
    try:
        ts = TS(tokenize(rest[mm.end():]))
        ty = parse_type(ts)
        init = None
        if not ext:
            init = parse_operand(ts, ty)
        mod.globals[name] = (ty, init, const)
    except (IRError, ValueError):
        mod.globals[name] = None


def parse_func(mod, hdr, body):
    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', hdr)
    name = m.group(1).strip('"')
    ts = TS(tokenize(hdr[m.end() - 1:]))
    ts.expect("(")
    params = []
    auto = 0
    while not ts.accept(")"):
        if ts.peek() == "...":
            ts.next()
            continue
        t = parse_type(ts)
        skip_attrs(ts)
        if ts.peekk() == "local":
            pn = ts.next()[1:].strip('"')
        else:
            pn = str(auto)
        auto += 1
        params.append((t, pn))
        ts.accept(",")
    f = Func(name, None, params)
    cur = None
    nparam = len(params)
    # join continuation lines (switch, invoke, landingpad)
    joined = []
    k = 0
    while k < len(body):
        ln = body[k]
        st = ln.strip()
        if not st or st.startswith(";"):
            k += 1
            continue
        if re.match(r'\s*switch ', ln):
            while "]" not in ln:
                k += 1
                ln += " " + body[k].strip()
        elif " invoke " in ln or st.startswith("invoke "):
            while " unwind label " not in ln:
                k += 1
                ln += " " + body[k].strip()
        elif "landingpad" in ln:
            while k + 1 < len(body) and re.match(r'\s+(cleanup|catch|filter)', body[k + 1]):
                k += 1
                ln += " " + body[k].strip()
        joined.append(ln)
        k += 1
    for ln in joined:
        if not ln.startswith(" "):
            mm = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if not mm:
                raise IRError("line? " + ln)
            cur = Block(mm.group(1).strip('"'))
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
            continue
        if cur is None:
            cur = Block(str(nparam) if all(p[1].isdigit() for p in params) else "entry")
            # entry label number follows params
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
        cur.instrs.append(parse_instr(mod, ln))
    f.entry = f.order[0]
    for b in f.blocks.values():
        b.succs = successors(b)
    for b in f.blocks.values():
        for s in b.succs:
            f.blocks[s].preds.append(b.name)
    return f


def successors(b):
    t = b.instrs[-1]
    if t.op == "br":
        return list(dict.fromkeys(t.a[1:] if t.a[0] is not None else t.a[1:2]))
    if t.op == "switch":
        return list(dict.fromkeys([t.a[1]] + [l for _, l in t.a[2]]))
    if t.op == "invoke":
        return list(dict.fromkeys([t.a["normal"], t.a["unwind"]]))
    return []


FLAGS = {"nuw", "nsw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc",
         "disjoint", "nneg", "samesign", "nusw", "volatile", "tail", "musttail", "notail", "atomic"}


def label(ts):
    ts.expect("label")
    return ts.next()[1:].strip('"')


def parse_instr(mod, ln):
    s = re.sub(r', !(?:[a-zA-Z_.]+) !(?:\d+|\{.*?\}|DI\w+\(.*?\))', '', ln)
    s = re.sub(r',? !srcloc !\d+', '', s)
    ts = TS(tokenize(s))
    dst = None
    if ts.peekk() == "local" and ts.peek(1) == "=":
        dst = ts.next()[1:].strip('"')
        ts.next()
    op = ts.next()
    while op in ("tail", "musttail", "notail"):
        op = ts.next()
    if op in ("ret",):
        t = parse_type(ts)
        o = None if t.k == "void" else parse_operand(ts, t)
        return Instr("ret", None, t, o, ln)
    if op == "br":
        if ts.peek() == "label":
            return Instr("br", None, None, (None, label(ts)), ln)
        t = parse_type(ts)
        c = parse_operand(ts, t)
        ts.expect(",")
        l1 = label(ts)
        ts.expect(",")
        l2 = label(ts)
        return Instr("br", None, None, (c, l1, l2), ln)
    if op == "switch":
        t = parse_type(ts)
        v = parse_operand(ts, t)
        ts.expect(",")
        d = label(ts)
        ts.expect("[")
        cases = []
        while not ts.accept("]"):
            t2 = parse_type(ts)
            c = parse_operand(ts, t2)
            ts.expect(",")
            cases.append((c[1], label(ts)))
        return Instr("switch", None, t, (v, d, cases), ln)
    if op in ("unreachable", "resume", "fence"):
        return Instr(op, None, None, None, ln)
    if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
              "fadd", "fsub", "fmul", "fdiv", "frem"):
        fl = set()
        while ts.peek() in FLAGS:
            fl.add(ts.next())
        t = parse_type(ts)
        a = parse_operand(ts, t)
        ts.expect(",")
        b = parse_operand(ts, t)
        return Instr(op, dst, t, (a, b, fl), ln)
    if op == "fneg":
        while ts.peek() in FLAGS:
            ts.next()
        t = parse_type(ts)
        return Instr(op, dst, t, (parse_operand(ts, t),), ln)
    if op in ("icmp", "fcmp"):
        while ts.peek() in FLAGS:
            ts.next()
        pred = ts.next()
        t = parse_type(ts)
        a = parse_operand(ts, t)
        ts.expect(",")
        b = parse_operand(ts, t)
        return Instr(op, dst, t, (pred, a, b), ln)
    if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui",
              "fpext", "fptrunc", "addrspacecast"):
        while ts.peek() in FLAGS:
            ts.next()
        t = parse_type(ts)
        a = parse_operand(ts, t)
        ts.expect("to")
        t2 = parse_type(ts)
        return Instr(op, dst, t2, (t, a), ln)
    if op == "alloca":
        ts.accept("inalloca")
        t = parse_type(ts)
        cnt = ("c", 1)
        al = None
        while ts.accept(","):
            if ts.peek() == "align":
                ts.next()
                al = int(ts.next())
            elif ts.peekk() == "id":
                t2 = parse_type(ts)
                cnt = parse_operand(ts, t2)
            else:
                break
        return Instr("alloca", dst, t, (cnt, al), ln)
    if op == "load":
        atomic = False
        while ts.peek() in ("volatile", "atomic"):
            atomic = True
            ts.next()
        t = parse_type(ts)
        ts.expect(",")
        pt = parse_type(ts)
        p = parse_operand(ts, pt)
        al = parse_align(ts)
        return Instr("load", dst, t, (p, al, atomic), ln)
    if op == "store":
        atomic = False
        while ts.peek() in ("volatile", "atomic"):
            atomic = True
            ts.next()
        t = parse_type(ts)
        v = parse_operand(ts, t)
        ts.expect(",")
        pt = parse_type(ts)
        p = parse_operand(ts, pt)
        al = parse_align(ts)
        return Instr("store", None, t, (v, p, al, atomic), ln)
    if op == "getelementptr":
        while ts.peek() in FLAGS or ts.peek() == "inrange":
            ts.next()
        bt = parse_type(ts)
        ts.expect(",")
        ops = []
        while True:
            t = parse_type(ts)
            ops.append((t, parse_operand(ts, t)))
            if not ts.accept(","):
                break
        return Instr("gep", dst, bt, ops, ln)
    if op == "phi":
        while ts.peek() in FLAGS:
            ts.next()
        t = parse_type(ts)
        inc = []
        while True:
            ts.expect("[")
            v = parse_operand(ts, t)
            ts.expect(",")
            l = ts.next()[1:].strip('"')
            ts.expect("]")
            inc.append((v, l))
            if not ts.accept(","):
                break
        return Instr("phi", dst, t, inc, ln)
    if op == "select":
        while ts.peek() in FLAGS:
            ts.next()
        t = parse_type(ts)
        c = parse_operand(ts, t)
        ts.expect(",")
        t1 = parse_type(ts)
        a = parse_operand(ts, t1)
        ts.expect(",")
        t2 = parse_type(ts)
        b = parse_operand(ts, t2)
        return Instr("select", dst, t1, (t, c, a, b), ln)
    if op in ("call", "invoke"):
        return parse_call(mod, ts, op, dst, ln)
    if op == "landingpad":
        return Instr(op, dst, parse_type(ts), None, ln)
    if op == "extractvalue":
        t = parse_type(ts)
        a = parse_operand(ts, t)
        idx = []
        while ts.accept(","):
            idx.append(int(ts.next()))
        return Instr(op, dst, t, (a, idx), ln)
    if op == "insertvalue":
        t = parse_type(ts)
        a = parse_operand(ts, t)
        ts.expect(",")
        t2 = parse_type(ts)
        b = parse_operand(ts, t2)
        idx = []
        while ts.accept(","):
            idx.append(int(ts.next()))
        return Instr(op, dst, t, (a, t2, b, idx), ln)
    if op == "extractelement":
        t = parse_type(ts)
        a = parse_operand(ts, t)
        ts.expect(",")
        t2 = parse_type(ts)
        return Instr(op, dst, t, (a, t2, parse_operand(ts, t2)), ln)
    if op == "insertelement":
        t = parse_type(ts)
        a = parse_operand(ts, t)
        ts.expect(",")
        t2 = parse_type(ts)
        b = parse_operand(ts, t2)
        ts.expect(",")
        t3 = parse_type(ts)
        return Instr(op, dst, t, (a, t2, b, t3, parse_operand(ts, t3)), ln)
    if op == "shufflevector":
        t = parse_type(ts)
        a = parse_operand(ts, t)
        ts.expect(",")
        t2 = parse_type(ts)
        b = parse_operand(ts, t2)
        ts.expect(",")
        t3 = parse_type(ts)
        return Instr(op, dst, t, (a, b, t3, parse_operand(ts, t3)), ln)
    if op == "freeze":
        t = parse_type(ts)
        return Instr(op, dst, t, (parse_operand(ts, t),), ln)
    if op == "atomicrmw":
        ts.accept("volatile")
        k = ts.next()
        pt = parse_type(ts)
        p = parse_operand(ts, pt)
        ts.expect(",")
        t = parse_type(ts)
        v = parse_operand(ts, t)
        return Instr(op, dst, t, (k, p, v), ln)
    return Instr("unsupported", dst, None, op, ln)


def parse_align(ts):
    al = 1
    while not ts.done():
        if ts.next() == "align":
            al = int(ts.next())
    return al


CC = {"fastcc", "ccc", "coldcc"}
ASMW = {"sideeffect", "alignstack", "inteldialect", "unwind"}


def parse_call(mod, ts, op, dst, ln):
    while ts.peek() in FLAGS or ts.peek() in CC:
        ts.next()
    skip_attrs(ts)
    rt = parse_type(ts)
    if rt.k == "func":
        rt = rt.a
    if ts.peek() == "asm":
        ts.next()
        while ts.peek() in ASMW:
            ts.next()
        a = cstr(ts.next()).decode()
        ts.expect(",")
        cons = cstr(ts.next()).decode()
        callee = ("asm", a, cons)
    else:
        callee = parse_operand(ts, PTR)
    ts.expect("(")
    args = []
    while not ts.accept(")"):
        if ts.peek() == "metadata":
            d = 0
            # skip to , or ) at depth 0
            while not (d == 0 and ts.peek() in (",", ")")):
                x = ts.next()
                if x in "([{":
                    d += 1
                elif x in ")]}":
                    d -= 1
            args.append((META, None))
            ts.accept(",")
            continue
        t = parse_type(ts)
        skip_attrs(ts)
        args.append((t, parse_operand(ts, t)))
        ts.accept(",")
    d = {"callee": callee, "args": args, "ret": rt}
    while not ts.done():
        x = ts.next()
        if x == "to" and ts.peek() == "label":
            d["normal"] = label(ts)
        elif x == "unwind" and ts.peek() == "label":
            d["unwind"] = label(ts)
    return Instr(op, dst, rt, d, ln)
