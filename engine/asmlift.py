"""Inline x86 assembly -> LLVM IR, instruction by instruction, before opt runs.

Every `call ... asm "..."` of the extracted module becomes a call of a generated function whose body performs the
instructions of the template on stack slots (one per register / operand); opt then promotes the slots to SSA.  Only
the instructions below are understood, anything else raises AsmError (the function then has no proof).  What the
lifting leaves out: timing, and processor flags other than those a following conditional jump reads."""
import re


class AsmError(Exception):
    pass


V4 = "<4 x double>"
CC = {"jl": "slt", "jle": "sle", "jg": "sgt", "jge": "sge", "jb": "ult", "jbe": "ule", "ja": "ugt", "jae": "uge",
      "je": "eq", "jz": "eq", "jne": "ne", "jnz": "ne", "jnae": "ult", "jnb": "uge", "jnge": "slt", "jnl": "sge"}


def split_top(s):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "({[<":
                depth += 1
            elif ch in ")}]>":
                depth -= 1
            elif ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


CALL = re.compile(r'^(\s*)(?:(%[\w.]+) = )?(?:tail )?call (.+?) asm (?:sideeffect )?(?:alignstack )?(?:inteldialect )?"((?:[^"\\]|\\.)*)", "([^"]*)"\((.*)\)(.*)$')


def lift(text):
    out, defs, k = [], [], 0
    for line in text.split("\n"):
        m = CALL.match(line) if " asm " in line else None
        if not m:
            out.append(line)
            continue
        ind, dst, rty, tmpl, cons, args, _ = m.groups()
        if "inteldialect" in line:
            raise AsmError("intel syntax")
        name = "@asm.lift.%d" % k
        k += 1
        params = split_top(args)
        defs.append(Lifter(name, rty, tmpl, cons, params).build())
        actual = ", ".join("%s %s" % (re.split(r"\s", p)[0], p.split()[-1]) for p in params)
        out.append("%s%scall %s %s(%s)" % (ind, dst + " = " if dst else "", rty, name, actual))
    return "\n".join(out) + "\n" + "\n".join(defs)


class Lifter:
    def __init__(self, name, rty, tmpl, cons, params):
        self.name, self.rty = name, rty
        self.n = 0
        self.body, self.allocas = [], []
        self.slots = {}
        t = tmpl.replace("\\0A", "\n").replace("\\09", " ").replace("$$", "\x01")
        self.lines = [x.strip() for part in t.split("\n") for x in part.split(";")]
        self.lines = [re.sub(r"#.*", "", x).strip() for x in self.lines]
        self.lines = [x for x in self.lines if x]
        cs = [c for c in split_top(cons) if c]
        ptys = [re.split(r"\s", p)[0] for p in params]
        self.ops = []          # ("mem", ptr) | ("slot", ty, slot) | ("val", ty, name)
        self.ptypes = ptys
        rtys = split_top(rty.strip()[1:-1]) if rty.strip().startswith("{") else ([] if rty.strip() == "void" else [rty.strip()])
        ai = ri = 0
        outs = []
        for c in cs:
            if c.startswith("~"):
                continue
            if c.startswith("="):
                c = c[1:].lstrip("&")
                if c.startswith("*"):
                    self.ops.append(("mem", "%%a%d" % ai))
                    ai += 1
                else:
                    s = self.slot("out%d" % ri, rtys[ri])
                    self.ops.append(("slot", rtys[ri], s))
                    outs.append((rtys[ri], s))
                    ri += 1
                continue
            if c.startswith("*"):
                self.ops.append(("mem", "%%a%d" % ai))
                ai += 1
                continue
            if re.fullmatch(r"\d+", c):
                tgt = self.ops[int(c)]
                if tgt[0] != "slot" or tgt[1] != ptys[ai]:
                    raise AsmError("tied operand")
                self.emit("store %s %%a%d, ptr %s" % (tgt[1], ai, tgt[2]))
                self.ops.append(tgt)
                ai += 1
                continue
            self.ops.append(("val", ptys[ai], "%%a%d" % ai))
            ai += 1
        if ai != len(params):
            raise AsmError("constraints %r" % cons)
        self.outs = outs

    def emit(self, s):
        self.body.append("  " + s)

    def tmp(self):
        self.n += 1
        return "%%t%d" % self.n

    def slot(self, key, ty):
        if key not in self.slots:
            r = "%%s.%s" % re.sub(r"\W", "_", key)
            self.allocas.append("  %s = alloca %s, align 32" % (r, ty))
            self.slots[key] = (r, ty)
        r, t0 = self.slots[key]
        if t0 != ty:
            raise AsmError("register %s used with two widths" % key)
        return r

    def operand(self, s):
        s = s.strip()
        m = re.fullmatch(r"\$(?:\{(\d+)(?::\w)?\}|(\d+))", s)
        if m:
            return self.ops[int(m.group(1) or m.group(2))]
        m = re.fullmatch(r"%(ymm\d+)", s)
        if m:
            return ("slot", V4, self.slot(m.group(1), V4))
        m = re.fullmatch(r"%(e(?:ax|bx|cx|dx|si|di)|r\d+d)", s)
        if m:
            return ("slot", "i32", self.slot(m.group(1), "i32"))
        m = re.fullmatch(r"%(r(?:ax|bx|cx|dx|si|di)|r\d+)", s)
        if m:
            return ("slot", "i64", self.slot(m.group(1), "i64"))
        m = re.fullmatch(r"\x01(-?\w+)", s)
        if m:
            return ("imm", int(m.group(1), 0))
        m = re.fullmatch(r"(-?\w*)\(([^)]*)\)", s)
        if m:
            disp = int(m.group(1), 0) if m.group(1) else 0
            parts = [x.strip() for x in m.group(2).split(",")]
            base = self.operand(parts[0])
            if base[0] != "val" or base[1] != "ptr":
                raise AsmError("address base %r" % s)
            p = base[2]
            if len(parts) > 1:
                ix = self.load(self.operand(parts[1]), "i64")
                sc = int(parts[2]) if len(parts) > 2 else 1
                t = self.tmp()
                self.emit("%s = mul i64 %s, %d" % (t, ix, sc))
                q = self.tmp()
                self.emit("%s = getelementptr i8, ptr %s, i64 %s" % (q, p, t))
                p = q
            if disp:
                q = self.tmp()
                self.emit("%s = getelementptr i8, ptr %s, i64 %d" % (q, p, disp))
                p = q
            return ("mem", p)
        raise AsmError("operand %r" % s)

    def load(self, op, ty, align=1):
        if op[0] == "imm":
            return str(op[1])
        if op[0] == "val":
            if op[1] != ty:
                raise AsmError("operand width")
            return op[2]
        t = self.tmp()
        if op[0] == "slot":
            if op[1] != ty:
                raise AsmError("operand width")
            self.emit("%s = load %s, ptr %s, align 32" % (t, ty, op[2]))
        else:
            self.emit("%s = load %s, ptr %s, align %d" % (t, ty, op[1], align))
        return t

    def store(self, op, ty, v, align=1):
        if op[0] == "slot":
            if op[1] != ty:
                raise AsmError("operand width")
            self.emit("store %s %s, ptr %s, align 32" % (ty, v, op[2]))
        elif op[0] == "mem":
            self.emit("store %s %s, ptr %s, align %d" % (ty, v, op[1], align))
        else:
            raise AsmError("write to an input operand")

    def width(self, mn, ops):
        if mn[-1:] == "l":
            return "i32"
        if mn[-1:] == "q":
            return "i64"
        for o in ops:
            if o[0] in ("slot", "val") and o[1] in ("i32", "i64"):
                return o[1]
        raise AsmError("width of %s" % mn)

    def flags(self, ty, a, b, exact):
        for i, v in ((0, a), (1, b)):
            t = v
            if ty == "i32":
                self.emit("store i32 %s, ptr %s" % (v, self.slot("flag%d_32" % i, "i32")))
            else:
                self.emit("store i64 %s, ptr %s" % (v, self.slot("flag%d_64" % i, "i64")))
        self.fl = (ty, exact)

    def build(self):
        labels = {}
        pos = []
        for i, l in enumerate(self.lines):
            m = re.fullmatch(r"([\w.]+):", l)
            if m:
                labels.setdefault(m.group(1), []).append(i)
        self.emit("br label %L0")
        self.fl = None
        for i, l in enumerate(self.lines):
            if re.fullmatch(r"[\w.]+:", l):
                self.body.append("  br label %%L%d" % (i + 1) if i else "")
                if i == 0:
                    self.body.append("L0:\n  br label %L1")
                self.body.append("L%d:" % (i + 1))
                self.fl = None
                continue
            if i == 0:
                self.body.append("L0:")
            mn = l.split()[0]
            ops = [x.strip() for x in split_top(l[len(mn):])]
            if mn in CC or mn == "jmp":
                m = re.fullmatch(r"(\w+?)([bf]?)", ops[0])
                lab, d = m.groups()
                cand = labels.get(lab) if d else labels.get(ops[0])
                if not cand:
                    raise AsmError("label %r" % ops[0])
                if d == "b":
                    tgt = max([x for x in cand if x < i], default=None)
                elif d == "f":
                    tgt = min([x for x in cand if x > i], default=None)
                else:
                    tgt = cand[0]
                if tgt is None:
                    raise AsmError("label %r" % ops[0])
                if mn == "jmp":
                    self.emit("br label %%L%d" % (tgt + 1))
                else:
                    if self.fl is None or (not self.fl[1] and CC[mn] not in ("eq", "ne")):
                        raise AsmError("flags of %s" % mn)
                    ty = self.fl[0]
                    w = ty[1:]
                    a = self.load(("slot", ty, self.slot("flag0_" + w, ty)), ty)
                    b = self.load(("slot", ty, self.slot("flag1_" + w, ty)), ty)
                    c = self.tmp()
                    self.emit("%s = icmp %s %s %s, %s" % (c, CC[mn], ty, a, b))
                    self.emit("br i1 %s, label %%L%d, label %%N%d" % (c, tgt + 1, i))
                self.body.append("N%d:" % i)
                continue
            self.instr(mn, [self.operand(o) for o in ops])
        if self.outs:
            vals = [self.load(("slot", ty, s), ty) for ty, s in self.outs]
            if self.rty.strip().startswith("{"):
                cur = "undef"
                for j, ((ty, s), v) in enumerate(zip(self.outs, vals)):
                    t = self.tmp()
                    self.emit("%s = insertvalue %s %s, %s %s, %d" % (t, self.rty, cur, ty, v, j))
                    cur = t
                self.emit("ret %s %s" % (self.rty, cur))
            else:
                self.emit("ret %s %s" % (self.rty, vals[0]))
        else:
            self.emit("ret void")
        head = "define internal %s %s(%s) {" % (self.rty, self.name, ", ".join("%s %%a%d" % (t, i) for i, t in enumerate(self.ptypes)))
        return "\n".join([head] + self.allocas + self.body + ["}"])

    def instr(self, mn, ops):
        e = self.emit
        if mn in ("vmovapd", "vmovupd", "vmovaps", "vmovups"):
            al = 32 if mn[4] == "a" else 8
            v = self.load(ops[0], V4, al)
            self.store(ops[1], V4, v, al)
            return
        if mn in ("vmulpd", "vaddpd", "vsubpd"):
            b, a = self.load(ops[0], V4, 8), self.load(ops[1], V4)
            t = self.tmp()
            e("%s = %s %s %s, %s" % (t, {"vmulpd": "fmul", "vaddpd": "fadd", "vsubpd": "fsub"}[mn], V4, a, b))
            self.store(ops[2], V4, t)
            return
        if mn == "vfmadd231pd":
            a, b, c = self.load(ops[0], V4, 8), self.load(ops[1], V4), self.load(ops[2], V4)
            t, u = self.tmp(), self.tmp()
            e("%s = fmul %s %s, %s" % (t, V4, a, b))
            e("%s = fadd %s %s, %s" % (u, V4, t, c))
            self.store(ops[2], V4, u)
            return
        if mn in ("vxorpd", "vxorps", "vpxor") and ops[0] == ops[1] and ops[0][0] == "slot":
            self.store(ops[2], V4, "zeroinitializer")
            return
        base = mn.rstrip("lq") if mn not in ("mul", "imul") else mn
        if base in ("mov", "add", "sub", "cmp", "xor", "inc", "dec"):
            ty = self.width(mn if mn != base else "", ops)
            if base in ("inc", "dec"):
                a = self.load(ops[0], ty)
                t = self.tmp()
                e("%s = %s %s %s, 1" % (t, "add" if base == "inc" else "sub", ty, a))
                self.store(ops[0], ty, t)
                self.flags(ty, t, "0", False)
                return
            if base == "mov":
                self.store(ops[1], ty, self.load(ops[0], ty, 1), 1)
                return
            if base == "xor":
                if ops[0] != ops[1]:
                    raise AsmError("xor")
                self.store(ops[1], ty, "0")
                self.flags(ty, "0", "0", False)
                return
            b, a = self.load(ops[0], ty), self.load(ops[1], ty)
            if base == "cmp":
                self.flags(ty, a, b, True)
                return
            t = self.tmp()
            e("%s = %s %s %s, %s" % (t, base, ty, a, b))
            self.store(ops[1], ty, t)
            self.flags(ty, t, "0", False)
            return
        raise AsmError("instruction %s" % mn)
