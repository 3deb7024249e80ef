"""Symbolic executor / verification-condition generator over LLVM IR of the real code."""
import itertools
import os
import time
from fractions import Fraction
from terms import *
import prove
import cex
from prove import Ctx, peel, quick_apart
import ir
from ir import Ty, IRError

UNROLL = 20
FALLBACK_UNROLL = 300


class Unsupported(Exception):
    """a construct or an obligation outside what the verifier can express (tool limit)"""


class NullDeref(Unsupported):
    pass


class NeedSplit(Exception):
    def __init__(self, sym, mod):
        Exception.__init__(self, "residue split on %r mod %d" % (sym, mod))
        self.sym, self.mod = sym, mod


class NeedStrip(Exception):
    """the loop counter sym (T iterations) has to be split as a*q + b, T = q*t"""

    def __init__(self, sym, q, t):
        Exception.__init__(self, "strip-mine %r by %r" % (sym, q))
        self.sym, self.q, self.t = sym, q, t


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off

    def __hash__(self):
        return hash((id(self.obj), self.off))

    def __repr__(self):
        return "&%s+%r" % (self.obj, self.off)


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "pite(%r,%r,%r)" % (self.c, self.a, self.b)


_objid = itertools.count()


class Obj:
    """memory object. init: 'undef' | 'zero' | ('arr', name, sort, nonneg)"""

    def __init__(self, site, size, kind, init="undef", align=16, writable=True):
        self.site, self.size, self.kind, self.init = site, size, kind, init
        self.id = next(_objid)
        self.align = align
        self.writable = writable
        self.base = mk_atom("base", (self.id,), "i", True)     # address / align
        self.private = False
        self.elem = None

    def addr(self):
        return P(self.base).scale(max(1, self.align))

    def __repr__(self):
        return "%s#%d" % (self.site, self.id)


NULL = Ptr(None, ZERO)


def is_null(p):
    return isinstance(p, Ptr) and p.obj is None


# layers --------------------------------------------------------------------
class W:
    """write comprehension: for all vars (0<=v<cnt) with guard: cell[idx] = val (width w)"""
    __slots__ = ("vars", "guard", "w", "idx", "val", "note")

    def __init__(self, vars, guard, w, idx, val, note=""):
        self.vars, self.guard, self.w, self.idx, self.val, self.note = vars, guard, w, idx, val, note

    def __repr__(self):
        return "W%r{%r} [%r] := %r" % (self.vars, self.guard, self.idx, self.val)


class D:
    """dictionary of constant-offset cells: byte offset -> (width, value)"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return "D%r" % self.d


class Head:
    __slots__ = ("lr",)

    def __init__(self, lr):
        self.lr = lr

    def __repr__(self):
        return "<head %s>" % self.lr.name


class Havoc:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "<havoc %s>" % self.why


FREED = "freed"


class LoopRun:
    def __init__(self, name, n):
        self.name, self.n = name, n
        self.headreads = []
        self.carried = set()
        self.id = fresh("L").args[0]
        self.closed = {}
        self.parallel = False


def word_of(p):
    """(base, keep, set) when p is an indeterminate word of which some bits are known: (base & keep) | set"""
    if isinstance(p, Poly) and len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0].kind == "fun" and m[0].args[0] == "word":
            return m[0].args[1], m[0].args[2].const(), m[0].args[3].const()
    return None


def bitfold(op, x, k, w):
    """and / or of a partly indeterminate word with a constant, bit by bit; None if x is no such word"""
    full = (1 << w) - 1
    if x is UNDEF:
        base, keep, st = P(fresh("undef", "i", True)), full, 0
    elif isinstance(x, Poly) and x.is_const():
        v = x.const() % (1 << w)
        return C(v & k if op == "and" else v | k)
    elif word_of(x) is not None:
        base, keep, st = word_of(x)
    else:
        if isinstance(x, Poly) and len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and m[0].kind == "ite":
                g, u, v = m[0].args
                u, v = bitfold(op, u, k, w), bitfold(op, v, k, w)
                if u is not None and v is not None:
                    return vite(g, u, v)
        return None
    keep, st = (keep & k, st & k) if op == "and" else (keep & ~k & full, st | k)
    if keep == 0:
        return C(st)
    return FUN("word", base, C(keep), C(st), sort="i", nonneg=True)


def undef_like(v):
    """an unconstrained value standing for an indeterminate one"""
    if isinstance(v, Poly):
        return P(fresh("undef", "i" if is_int(v) else "r", False))
    if isinstance(v, Cond):
        return OPAQUE("undef", P(fresh("undef")))
    if isinstance(v, list):
        return [undef_like(x) for x in v]
    return NULL


def vite(c, a, b):
    if c.kind == "true":
        return a
    if c.kind == "false":
        return b
    if a is b:
        return a
    if a is UNDEF:
        a = undef_like(b)
    if b is UNDEF:
        b = undef_like(a)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ITE(c, a, b)
    if isinstance(a, Cond) and isinstance(b, Cond):
        return OR(AND(c, a), AND(NOT(c), b))
    if isinstance(a, list) and isinstance(b, list):
        return [vite(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
        return Ptr(a.obj, ITE(c, a.off, b.off))
    if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
        if a == b:
            return a
        return PIte(c, a, b)
    raise Unsupported("merge of %r and %r" % (type(a), type(b)))


def vsubst(v, mp):
    if not mp:
        return v
    if isinstance(v, (Poly, Cond)):
        return subst(v, mp)
    if isinstance(v, Ptr):
        return Ptr(v.obj, subst(v.off, mp))
    if isinstance(v, PIte):
        return vite(subst(v.c, mp), vsubst(v.a, mp), vsubst(v.b, mp))
    if isinstance(v, list):
        return [vsubst(x, mp) for x in v]
    return v


def vsyms(v):
    if isinstance(v, (Poly, Cond)):
        return v.syms()
    if isinstance(v, Ptr):
        return v.off.syms()
    if isinstance(v, PIte):
        return v.c.syms() | vsyms(v.a) | vsyms(v.b)
    if isinstance(v, list):
        r = frozenset()
        for x in v:
            r |= vsyms(x)
        return r
    return frozenset()


def vatoms(v, acc=None):
    if acc is None:
        acc = set()
    if isinstance(v, (Poly, Cond)):
        v.all_atoms(acc)
    elif isinstance(v, Ptr):
        v.off.all_atoms(acc)
    elif isinstance(v, PIte):
        v.c.all_atoms(acc)
        vatoms(v.a, acc)
        vatoms(v.b, acc)
    elif isinstance(v, list):
        for x in v:
            vatoms(x, acc)
    return acc


# ---------------------------------------------------------------- loops of a CFG
class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.latches = []
        self.children = []
        self.parent = None


def analyse_loops(f):
    if hasattr(f, "loops"):
        return
    rpo = []
    seen = set()
    st = [(f.entry, iter(f.blocks[f.entry].succs))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.blocks[s].succs)))
                break
        else:
            rpo.append(b)
            st.pop()
    rpo.reverse()
    f.rpo = rpo
    num = {b: i for i, b in enumerate(rpo)}
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == f.entry:
                continue
            new = None
            for p in f.blocks[b].preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succs:
            if num[s] <= num[b]:
                if not dom(s, b):
                    raise Unsupported("irreducible control flow in %s" % f.name)
                L = loops.setdefault(s, Loop(s))
                L.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x in L.blocks:
                        continue
                    L.blocks.add(x)
                    work.extend(p for p in f.blocks[x].preds if p in num)
    ls = sorted(loops.values(), key=lambda l: len(l.blocks))
    inner = {}
    for i, l in enumerate(ls):
        for m in ls[i + 1:]:
            if l.header in m.blocks:
                l.parent = m
                m.children.append(l)
                break
    for b in rpo:
        for l in ls:
            if b in l.blocks:
                inner[b] = l
                break
    f.loops = ls
    f.inner = inner
    # blocks that can only end in unreachable
    ret = set()
    work = [b for b in rpo if f.blocks[b].instrs[-1].op == "ret"]
    while work:
        x = work.pop()
        if x in ret:
            continue
        ret.add(x)
        for q in f.blocks[x].preds:
            t = f.blocks[q].instrs[-1]
            if t.op == "invoke" and t.a["unwind"] == x and t.a["normal"] != x:
                continue        # only reached by an exception
            work.append(q)
    f.noreturn = set(rpo) - ret


def thrown(f, start):
    """names of the terminating calls reachable from a block that never returns"""
    out, seen, work = set(), set(), [start]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        ended = False
        for ins in f.blocks[b].instrs:
            if ins.op in ("call", "invoke") and ins.a["callee"][0] == "g":
                n = ins.a["callee"][1]
                if n == "__cxa_throw":
                    ti = ins.a["args"][1][1]
                    out.add("__cxa_throw:%s" % (ti[1],))
                    ended = True
                    break
                if n in ("__cxa_rethrow", "_ZSt9terminatev", "abort", "exit", "__assert_fail") or "__throw_" in n:
                    out.add(n)
                    ended = True
                    break
        if ended:
            continue
        t = f.blocks[b].instrs[-1]
        if t.op == "invoke":
            work.append(t.a["normal"])
        elif t.op == "unreachable":
            out.add("unreachable")
        else:
            work.extend(f.blocks[b].succs)
    return out


class Frame:
    def __init__(self, f):
        self.f = f
        self.env = {}
        self.allocas = []


class Ob:
    __slots__ = ("kind", "name", "ok", "detail", "loc", "model")

    def __init__(self, kind, name, ok, detail, loc, model=None):
        self.model = model
        self.kind, self.name, self.ok, self.detail, self.loc = kind, name, ok, detail, loc


class Exec:
    def __init__(self, mod, contracts=None, assumptions=None):
        self.mod = mod
        self.obls = []
        self.checking = True
        self.dry = frozenset()
        self.iv_hints = {}
        self.contracts = contracts or {}
        self.assumptions = assumptions if assumptions is not None else set()
        self.globals = {}
        self.functions = set()
        self.throws = []
        self.expect_throw = False
        self.depth = 0
        self.loop_hints = {}
        self.loopcount = 0
        self.deadline = None
        self.events = []
        self.parallel_pending = False
        self.trace = bool(os.environ.get("VTRACE"))
        self.externs = {}
        self.loop_T = {}
        self.divhints = []        # trip counts of the loops being summarised
        self.shared = None      # objects shared by the threads of the enclosing parallel region
        self.in_ws = False      # inside a worksharing loop

    # ------------------------------------------------------------ obligations
    def oblige(self, ctx, cond, kind, name, effort=1):
        if not self.checking:
            return True
        ok = ctx.prove(cond, effort)
        self.obls.append(Ob(kind, name, ok, None if ok else repr(cond), self.loc(), None if ok else self.explain(ctx, cond)))
        if not ok and self.trace:
            print("FAILED", kind, name, cond, "\n   hyps", [h for h in ctx.all()])
        return ok

    def explain(self, ctx, cond):
        self.explained = getattr(self, "explained", 0) + 1
        if self.explained > 12:
            return None
        return cex.model(ctx, cond)

    def fail(self, kind, name, detail):
        if self.checking:
            self.obls.append(Ob(kind, name, False, detail, self.loc()))

    def loc(self):
        return getattr(self, "curloc", "")

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")

    # ------------------------------------------------------------ int helpers
    def canon(self, p, width, signed, ctx, what):
        """value of p as a width-bit integer; p is only known modulo 2^width"""
        if p.is_const():
            k = p.const() % (1 << width)
            if signed and k >= (1 << (width - 1)):
                k -= 1 << width
            return C(k)
        if not self.checking or not signed and word_of(p) is not None:
            return p
        lo, hi = (-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed else (0, (1 << width) - 1)
        if ctx.prove(GE(p - C(lo)), 0) and ctx.prove(GE(C(hi) - p), 0):
            self.obls.append(Ob("no-wrap", what, True, None, self.loc()))
            return p
        ok = ctx.prove(GE(p - C(lo)), 1) and ctx.prove(GE(C(hi) - p), 1)
        self.obls.append(Ob("no-wrap", what, ok, None if ok else "%r not shown within [%d,%d]" % (p, lo, hi), self.loc(),
                            None if ok else self.explain(ctx, AND(GE(p - C(lo)), GE(C(hi) - p)))))
        if not ok and self.trace:
            print("WRAP", p, ctx.all())
        return p

    def mk_div(self, p, q, ctx):
        """floor(p/q), p>=0, q>=1"""
        if p.is_const() and q.is_const():
            return C(p.const() // q.const()) if q.const() > 0 else None
        X, E = poly_divmod(p, q)
        if E.is_zero():
            return X
        if not X.is_zero() or True:
            for _ in range(2):
                if ctx.prove(GE(E), 1) and ctx.prove(GE(q - ONE - E), 1):
                    return X
                # negative remainder: borrow
                if not E.is_zero() and ctx.prove(GE(E + q), 1) and ctx.prove(GE(-E - ONE), 1):
                    return X - ONE
                # try moving terms:  remainder too large by one q
                E2 = E - q
                if ctx.prove(GE(E2), 1) and ctx.prove(GE(q - ONE - E2), 1):
                    return X + ONE
                break
        for cand, k in self.divhints:
            # ghost witnesses of the contract for a quotient: checked, never trusted
            if k == q and ctx.prove(GE(p - cand * q), 1) and ctx.prove(GE(cand * q + q - ONE - p), 1):
                return cand
        for n in p.syms():
            T = self.loop_T.get(n)
            if T is not None and T != q:
                t, e = poly_divmod(T, q)
                if e.is_zero() and t != ONE and q != ONE:
                    raise NeedStrip(n, q, t)
        return DIV(p, q)

    # ------------------------------------------------------------ memory
    def alloc(self, mem, site, size, kind, init="undef", align=16):
        o = Obj(site, size, kind, init, align)
        mem[o] = ()
        return o

    def cell(self, ptr, w, what):
        """cell index of a w-byte access"""
        off = ptr.off
        t = {}
        for m, c in off.t.items():
            if isinstance(c, Fraction) or c % w:
                raise Unsupported("access of %d bytes at unaligned symbolic offset %r (%s)" % (w, off, what))
            t[m] = c // w
        return Poly(t)

    def check_access(self, ctx, ptr, nbytes, what, write):
        if ptr.obj is None:
            self.oblige(ctx, FALSE, "memory", "null dereference in " + what)
            raise NullDeref("null dereference: " + what)
        o = ptr.obj
        c1 = GE(ptr.off)
        c2 = GE(o.size - ptr.off - C(nbytes))
        self.oblige(ctx, c1, "bounds", "%s %s: offset >= 0" % (what, o.site))
        self.oblige(ctx, c2, "bounds", "%s %s: offset+%d <= size" % (what, o.site, nbytes))
        if write and not o.writable:
            self.oblige(ctx, FALSE, "frame", "write to read-only object %s" % o.site)
        if write and self.shared is not None and not self.in_ws and o in self.shared:
            self.oblige(ctx, FALSE, "race", "shared object %s written by every thread of a parallel region" % o.site)

    def load(self, mem, ctx, ptr, ty, align=1, what="load"):
        if isinstance(ptr, PIte):
            d = ctx.decide(ptr.c, 1)
            if d is True:
                return self.load(mem, ctx, ptr.a, ty, align, what)
            if d is False:
                return self.load(mem, ctx, ptr.b, ty, align, what)
            if is_null(ptr.a):
                self.oblige(ctx, NOT(ptr.c), "memory", "null dereference in " + what)
                return self.load(mem, ctx.extend(NOT(ptr.c)), ptr.b, ty, align, what)
            if is_null(ptr.b):
                self.oblige(ctx, ptr.c, "memory", "null dereference in " + what)
                return self.load(mem, ctx.extend(ptr.c), ptr.a, ty, align, what)
            return vite(ptr.c, self.load(mem, ctx.extend(ptr.c), ptr.a, ty, align, what),
                        self.load(mem, ctx.extend(NOT(ptr.c)), ptr.b, ty, align, what))
        if not isinstance(ptr, Ptr):
            raise Unsupported("load through %r" % (ptr,))
        rt = self.mod.resolve(ty)
        if rt.k == "vec":
            ew = self.mod.size(rt.b)
            self.check_access(ctx, ptr, ew * rt.a, what, False)
            self.check_align(ctx, ptr, align, ew, what)
            return [self.load1(mem, ctx, Ptr(ptr.obj, ptr.off + C(ew * i)), rt.b, what) for i in range(rt.a)]
        if rt.k in ("struct", "array"):
            out = []
            if rt.k == "struct":
                offs, _ = self.mod.struct_layout(rt)
                fs = list(zip(rt.a, offs))
            else:
                ew = self.mod.size(rt.b)
                fs = [(rt.b, ew * i) for i in range(rt.a)]
            return [self.load(mem, ctx, Ptr(ptr.obj, ptr.off + C(o)), t, 1, what) for t, o in fs]
        self.check_access(ctx, ptr, self.mod.size(rt), what, False)
        return self.load1(mem, ctx, ptr, rt, what)

    def check_align(self, ctx, ptr, align, ew, what):
        if align <= 8 or align <= ew or not self.checking:
            return
        ok = ptr.obj.align % align == 0 and all((not isinstance(c, Fraction)) and c % align == 0 for c in ptr.off.t.values())
        self.obls.append(Ob("alignment", "%s %s aligned %d" % (what, ptr.obj.site, align), ok,
                            None if ok else "offset %r, object alignment %d" % (ptr.off, ptr.obj.align), self.loc()))

    def load1(self, mem, ctx, ptr, ty, what):
        ty = self.mod.resolve(ty)
        w = self.mod.size(ty)
        v = self.read(mem, ctx, ptr.obj, w, ptr.off, ty)
        if v is UNDEF:
            return UNDEF
        # type adaptation
        if ty.k == "int" and isinstance(v, Poly):
            if ty.a == 1:
                return NE(v)
            return v
        if ty.k == "int" and isinstance(v, Cond):
            return v if ty.a == 1 else ITE(v, ONE, ZERO)
        if ty.k == "int" and isinstance(v, (Ptr, PIte)):
            return self.ptr2int(v)
        if ty.k == "ptr" and isinstance(v, Poly):
            return self.int2ptr(v)
        if ty.k in ("double", "float") and isinstance(v, Poly):
            return v
        if ty.k == "ptr":
            return v
        raise Unsupported("load type %r of %r" % (ty, v))

    def default(self, o, w, off, ty):
        if o.init == "undef":
            return UNDEF
        if o.init == "zero":
            return NULL if ty.k == "ptr" else ZERO
        if o.init[0] == "arr":
            return LOAD(o.init[1], self.cell(Ptr(o, off), w, "init"), o.init[2], o.init[3])
        if o.init[0] == "ints":  # constant data
            if off.is_const():
                return C(o.init[1][off.const() // w])
            return LOAD(("const", o.id), self.cell(Ptr(o, off), w, "init"), "i", False)
        if o.init[0] == "fn":
            return o.init[1](self.cell(Ptr(o, off), w, "init"), w, ty)
        raise Unsupported("init")

    def read(self, mem, ctx, o, w, off, ty, layers=None):
        if layers is None:
            layers = mem.get(o)
        if layers is None:
            raise Unsupported("access to object %s outside its lifetime" % o)
        if layers == FREED:
            self.fail("memory", "use after free of %s" % o.site, "")
            raise Unsupported("use after free of %s" % o.site)
        if self.dry and ty.k in ("double", "float") and any(a in self.dry for a in off.syms()):
            return P(fresh("undef", "r", False))     # where it reads is not known yet, so neither is what
        i = len(layers) - 1
        conds = []  # (cond, value) pending ite chain

        def finish(v):
            for c, x in reversed(conds):
                v = vite(c, x, v)
            return v
        while i >= 0:
            l = layers[i]
            i -= 1
            if isinstance(l, D):
                if off.is_const():
                    k = off.const()
                    e = l.d.get(k)
                    if e is not None:
                        if e[0] == w:
                            return finish(e[1])
                        if e[0] > w and isinstance(e[1], Poly) and e[1].is_zero():
                            return finish(ZERO)
                        raise Unsupported("width mismatch read of %s" % o)
                    for k2 in range(k - 15, k + w):
                        e = l.d.get(k2)
                        if e is not None and k2 + e[0] > k:
                            if isinstance(e[1], Poly) and e[1].is_zero() and k2 <= k and k2 + e[0] >= k + w:
                                return finish(ZERO)
                            raise Unsupported("partial overlap read of %s" % o)
                    continue
                for k, e in sorted(l.d.items()):
                    d = off - C(k)
                    if e[0] != w:
                        if ctx.prove(GE(d - C(e[0])), 0) or ctx.prove(GE(-d - C(w)), 0):
                            continue
                        raise Unsupported("width mismatch (symbolic) read of %s" % o)
                    c = EQ(d)
                    r = ctx.decide(c, 1)
                    if r is True:
                        return finish(e[1])
                    if r is None:
                        conds.append((c, e[1]))
                continue
            if isinstance(l, Head):
                lr = l.lr
                lr.headreads.append((o, w, off, ctx))
                key = (o.site, off.const() if off.is_const() else "*")
                if key in lr.carried or (o.site, "*") in lr.carried:
                    ck = (o.id, off.const()) if off.is_const() else None
                    if ck in lr.closed:
                        return finish(lr.closed[ck])
                    if ty.k == "ptr":
                        raise Unsupported("loop-carried pointer cell in %s" % o)
                    idx = self.cell(Ptr(o, off), w, "head")
                    isint = ty.k == "int"
                    return finish(LOAD(("head", lr.id, o.id, w), idx, "i" if isint else "r", isint))
                continue
            if isinstance(l, Havoc):
                raise Unsupported("read of havocked object %s (%s)" % (o, l.why))
            # W
            if l.w != w:
                if isinstance(l.val, Poly) and l.val.is_zero() and not l.vars and w < l.w:
                    pass
                raise Unsupported("width mismatch read of %s" % o)
            idx = self.cell(Ptr(o, off), w, "read")
            r = self.match(l, idx, ctx)
            if r is None:
                continue
            cond, val = r
            if cond.kind == "true":
                return finish(val)
            conds.append((cond, val))
        return finish(self.default(o, w, off, ty))

    def match(self, l, idx, ctx):
        """None (never matches) or (cond, value)"""
        self.tick()
        d = l.idx - idx
        if not l.vars:
            c = EQ(d)
            r = ctx.decide(c, 1)
            if r is False:
                return None
            cond = AND(l.guard, TRUE if r is True else c)
            r = ctx.decide(cond, 1)
            if r is False:
                return None
            return (TRUE if r is True else cond), l.val
        # quick const separation
        sol = self.solve(l, idx, ctx)
        if sol == "miss":
            return None
        mp, extra = sol
        conds = list(extra)
        for v, cnt in l.vars:
            x = mp[v]
            cnt2 = subst(cnt, mp)
            conds.append(GE(x))
            conds.append(GE(cnt2 - x - ONE))
        conds.append(subst(l.guard, mp))
        und = []
        c2 = ctx
        for c in conds:
            r = c2.decide(c, 1)
            if r is False:
                return None
            if r is None:
                und.append(c)
                c2 = c2.extend(c)
        val = vsubst(l.val, mp)
        val = self.resimp(val, c2)
        return AND(*und), val

    def resimp(self, v, ctx):
        """re-simplify div atoms (and decidable ites) inside a value under ctx"""
        if not isinstance(v, Poly):
            return v
        for _ in range(3):
            mp = {}
            for a in v.all_atoms():
                if a.kind == "div" and not any(b.kind == "bound" for b in a.syms()):
                    r = self.mk_div(a.args[0], a.args[1], ctx)
                    if r != P(a):
                        mp[a] = r
                elif a.kind == "ite" and not any(b.kind == "bound" for b in a.syms()):
                    r = ctx.decide(a.args[0], 1)
                    if r is not None:
                        mp[a] = a.args[1] if r else a.args[2]
            if not mp:
                return v
            v = subst(v, mp)
        return v

    def solve(self, l, idx, ctx):
        """solve l.idx(vars) == idx for vars. 'miss' or (map, extra conds)"""
        ren = {}
        hyps = []
        vs = []
        mp0 = {}
        for v, cnt in l.vars:
            nv = fresh("u")
            mp0[v] = P(nv)
            vs.append((v, nv))
        for v, cnt in l.vars:
            nv = mp0[v]
            hyps.append(GE(nv))
            hyps.append(GE(subst(cnt, mp0) - nv - ONE))
        hyps.append(subst(l.guard, mp0))
        c2 = ctx.extend(*hyps)
        d = subst(l.idx, mp0) - idx
        if quick_apart(d, c2.bounds()):
            return "miss"
        try:
            return self.solve2(l, vs, d, c2)
        except Unsupported:
            if c2.infeasible(1):
                return "miss"
            raise

    def solve2(self, l, vs, d, c2):
        ones = {nv: ZERO for (_, cnt), (_, nv) in zip(l.vars, vs) if cnt.is_const() and cnt.const() == 1}
        d = subst(d, ones)
        if prove_apart(d, c2):
            return "miss"
        eqs = peel(d, lambda c: c2.prove(c, 1))
        vset = {nv for _, nv in vs if nv not in ones}
        sol = dict(ones)
        extra = []
        pending = list(eqs)
        progress = True
        while pending and progress:
            progress = False
            for e in sorted(pending, key=lambda e: len(e.syms() & vset)):
                e0 = e
                e = subst(e, sol)
                unk = [v for v in e.syms() & vset]
                if not unk:
                    pending.remove(e0)
                    progress = True
                    if e.is_zero():
                        continue
                    c = EQ(e)
                    r = c2.decide(c, 1)
                    if r is False:
                        return "miss"
                    if r is None:
                        extra.append(c)
                    break
                s = self.solve_eq(e, unk, c2)
                if s == "miss":
                    return "miss"
                if s is not None:
                    m2, ex = s
                    extra += ex
                    sol = {k: subst(v, m2) for k, v in sol.items()}
                    sol.update(m2)
                    pending.remove(e0)
                    progress = True
                    break
        missing = [nv for _, nv in vs if nv not in sol]
        if pending or missing:
            # a variable not occurring in the index with a single value
            raise Unsupported("cannot solve index equation %r for %r" % (eqs, missing))
        inv = {}
        res = {v: subst(sol[nv], inv) for v, nv in vs}
        # extra conditions must not mention the fresh vars
        return res, extra

    def solve_eq(self, e, unk, ctx):
        parts = []
        rest = e
        for v in unk:
            r = rest.coeff(v)
            if r is None:
                return None
            c, rest = r
            if unk and any(u in c.syms() for u in unk):
                return None
            parts.append((v, c))
        if any(u in rest.syms() for u in unk):
            return None  # nested
        target = -rest  # sum c_v v = target
        if len(parts) == 1:
            v, c = parts[0]
            if c == ONE:
                return {v: target}, []
            if c == C(-1):
                return {v: -target}, []
            X, E = poly_divmod(target, c)
            if E.is_zero():
                return {v: X}, []
            if c.is_const():
                k = abs(c.const())
                tt = target if c.const() > 0 else -target
                # residue decidable?
                X, E = poly_divmod(tt, C(k))
                if E.is_const():
                    return "miss" if E.const() % k else ({v: X}, [])
                cand = [a for a in E.atoms() if a.kind == "sym" and getattr(a, "args")[0].startswith("g:")]
                if cand:
                    raise NeedSplit(cand[0], k)
                q = self.mk_div(tt, C(k), ctx)
                if ctx.prove(EQ(q.scale(k) - tt), 1):
                    return {v: q}, []
                if ctx.prove(GE(tt), 1):
                    return {v: q}, [EQ(q.scale(k) - tt)]
                return {v: q}, [GE(tt), EQ(q.scale(k) - tt)]
            elif ctx.prove(GE(target), 1) and ctx.prove(GE(c - ONE), 1):
                q = self.mk_div(target, c, ctx)
                return {v: q}, [EQ(q * c - target)]
            return None
        # mixed radix
        def key(vc):
            c = vc[1]
            return (max((len(m) for m in c.t), default=0), max((abs(x) for x in c.t.values()), default=0))
        if all(all(k < 0 for k in c.t.values()) for _, c in parts):
            parts = [(v, -c) for v, c in parts]
            target = -target
        parts.sort(key=key, reverse=True)
        sol, extra = {}, []
        for i, (v, c) in enumerate(parts):
            low = ZERO
            for v2, c2 in parts[i + 1:]:
                low = low + c2 * P(v2)
            if i + 1 < len(parts):
                if not (ctx.prove(GE(c - ONE - low), 1) and ctx.prove(GE(low), 1)):
                    return None
                if not ctx.prove(GE(target), 1):
                    # target = c*v+low with everything nonneg
                    ctx = ctx.extend(GE(target))
                    extra.append(GE(target))
                q = self.mk_div(target, c, ctx)
                sol[v] = q
                target = target - q * c
            else:
                r = self.solve_eq(c * P(v) - target, [v], ctx)
                if r is None or r == "miss":
                    return r
                sol.update(r[0])
                return sol, extra + r[1]
        return sol, extra

    def store(self, mem, ctx, guard, ptr, val, ty, align=1, what="store"):
        if isinstance(ptr, PIte):
            d = ctx.decide(ptr.c, 1)
            if d is True:
                return self.store(mem, ctx, guard, ptr.a, val, ty, align, what)
            if d is False:
                return self.store(mem, ctx, guard, ptr.b, val, ty, align, what)
            if is_null(ptr.a):
                self.oblige(ctx, NOT(ptr.c), "memory", "null dereference in " + what)
                return self.store(mem, ctx.extend(NOT(ptr.c)), guard, ptr.b, val, ty, align, what)
            if is_null(ptr.b):
                self.oblige(ctx, ptr.c, "memory", "null dereference in " + what)
                return self.store(mem, ctx.extend(ptr.c), guard, ptr.a, val, ty, align, what)
            self.store(mem, ctx.extend(ptr.c), AND(guard, ptr.c), ptr.a, val, ty, align, what)
            self.store(mem, ctx.extend(NOT(ptr.c)), AND(guard, NOT(ptr.c)), ptr.b, val, ty, align, what)
            return
        if not isinstance(ptr, Ptr):
            raise Unsupported("store through %r" % (ptr,))
        rt = self.mod.resolve(ty)
        if rt.k == "vec":
            ew = self.mod.size(rt.b)
            self.check_access(ctx, ptr, ew * rt.a, what, True)
            self.check_align(ctx, ptr, align, ew, what)
            for i in range(rt.a):
                self.store1(mem, ctx, guard, Ptr(ptr.obj, ptr.off + C(ew * i)), val[i] if isinstance(val, list) else val, ew)
            return
        if rt.k in ("struct", "array"):
            if rt.k == "struct":
                offs, _ = self.mod.struct_layout(rt)
                fs = list(zip(rt.a, offs))
            else:
                ew = self.mod.size(rt.b)
                fs = [(rt.b, ew * i) for i in range(rt.a)]
            for i, (t, o) in enumerate(fs):
                self.store(mem, ctx, guard, Ptr(ptr.obj, ptr.off + C(o)), val[i] if isinstance(val, list) else val, t, 1, what)
            return
        w = self.mod.size(rt)
        self.check_access(ctx, ptr, w, what, True)
        self.store1(mem, ctx, guard, ptr, val, w)

    def store1(self, mem, ctx, guard, ptr, val, w):
        o = ptr.obj
        layers = mem.get(o)
        if layers is None:
            raise Unsupported("store to object %s outside lifetime" % o)
        if layers == FREED:
            self.fail("memory", "write after free of %s" % o.site, "")
            raise Unsupported("write after free")
        if ptr.off.is_const() and guard.kind == "true":
            k = ptr.off.const()
            if layers and isinstance(layers[-1], D):
                d = dict(layers[-1].d)
                rest = layers[:-1]
            else:
                d = {}
                rest = layers
            for k2 in list(d):
                if k2 != k and k2 < k + w and k2 + d[k2][0] > k:
                    e = d[k2]
                    if k <= k2 and k2 + e[0] <= k + w:
                        del d[k2]
                    elif isinstance(e[1], Poly) and e[1].is_zero():
                        # split zero cell into bytes
                        del d[k2]
                        for b in range(k2, k2 + e[0]):
                            if not (k <= b < k + w):
                                d[b] = (1, ZERO)
                    else:
                        raise Unsupported("partial overlap write")
            if k in d and d[k][0] > w:
                e = d[k]
                if isinstance(e[1], Poly) and e[1].is_zero():
                    for b in range(k + w, k + e[0]):
                        d[b] = (1, ZERO)
                else:
                    raise Unsupported("partial overlap write")
            d[k] = (w, val)
            mem[o] = rest + (D(d),)
            return
        idx = self.cell(ptr, w, "store")
        mem[o] = layers + (W((), guard, w, idx, val, self.loc()),)

    # ------------------------------------------------------------ operands
    def val(self, fr, op, ty):
        k = op[0]
        if k == "l":
            try:
                return fr.env[op[1]]
            except KeyError:
                raise Unsupported("value %%%s not available" % op[1])
        if k == "c":
            t = self.mod.resolve(ty)
            if t.k == "int":
                if t.a == 1:
                    return TRUE if op[1] & 1 else FALSE
                return C(op[1])
            return C(Fraction(op[1])) if op[1] == op[1] and abs(op[1]) != float("inf") else FUN("fpconst", C(hash(repr(op[1]))))
        if k == "null":
            return NULL
        if k == "undef":
            t = self.mod.resolve(ty)
            if t.k == "vec":
                return [UNDEF] * t.a
            if t.k == "struct":
                return [self.val(fr, ("undef",), x) for x in t.a]
            return UNDEF
        if k == "zero":
            return self.zero(ty)
        if k == "g":
            return Ptr(self.global_obj(op[1]), ZERO)
        if k == "agg":
            return [self.val(fr, o, t) for t, o in op[1]]
        if k == "ce":
            if op[1] == "gep":
                return self.gep(fr, op[2], op[3])
            if op[1] == "ptrtoint":
                return self.ptr2int(self.val(fr, op[3], op[2]))
            if op[1] == "inttoptr":
                return self.int2ptr(self.val(fr, op[3], op[2]))
            if op[1] == "bitcast":
                return self.val(fr, op[3], op[2])
        raise Unsupported("operand %r" % (op,))

    def zero(self, ty):
        t = self.mod.resolve(ty)
        if t.k == "vec":
            return [self.zero(t.b)] * t.a
        if t.k == "array":
            return [self.zero(t.b)] * t.a
        if t.k == "struct":
            return [self.zero(x) for x in t.a]
        if t.k == "ptr":
            return NULL
        if t.k == "int" and t.a == 1:
            return FALSE
        return ZERO

    def global_obj(self, name):
        g = self.globals.get(name)
        if g is None:
            ent = self.mod.globals.get(name)
            if ent is None or ent == () or name in self.mod.funcs_raw:
                g = Obj("@" + name, C(1 << 20), "func")
                g.writable = False
            else:
                ty, init, const = ent
                g = Obj("@" + name, C(self.mod.size(ty)) if self.mod.resolve(ty).k != "opaque" else C(1), "global")
                g.writable = not const
                g.ginit = (ty, init)
            self.globals[name] = g
        return g

    def init_global_mem(self, mem, o):
        """materialise initial contents of a global the first time it is touched"""
        if o in mem:
            return
        mem[o] = ()
        if o.kind != "global" or o.ginit[1] is None:
            o.init = ("arr", o.site, "i", False)
            return
        if o.writable:
            # mutable global: an earlier call may have left any value there
            leaves = set()

            def leaf(ty):
                t = self.mod.resolve(ty)
                if t.k in ("array", "vec"):
                    leaf(t.b)
                elif t.k == "struct":
                    for f in t.a:
                        leaf(f)
                else:
                    leaves.add("i" if t.k == "int" else "r" if t.k in ("double", "float") else t.k)
            leaf(o.ginit[0])
            if len(leaves) != 1 or not leaves <= {"i", "r"}:
                o.init = "undef"        # may only be read after it was written
                return
            k = leaves.pop()
            o.init = ("arr", o.site, k, k == "i")
            return
        d = {}

        def put(ty, op, off):
            t = self.mod.resolve(ty)
            if op[0] == "str":
                for i, b in enumerate(op[1]):
                    d[off + i] = (1, C(b))
            elif op[0] == "zero":
                if t.k in ("array", "vec"):
                    if t.a > 4096:
                        return
                    for i in range(t.a):
                        put(t.b, op, off + i * self.mod.size(t.b))
                elif t.k == "struct":
                    offs, _ = self.mod.struct_layout(t)
                    for f, oo in zip(t.a, offs):
                        put(f, op, off + oo)
                else:
                    d[off] = (self.mod.size(t), self.zero(t))
            elif op[0] == "agg":
                if t.k in ("array", "vec"):
                    for i, (et, eo) in enumerate(op[1]):
                        put(et, eo, off + i * self.mod.size(et))
                else:
                    offs, _ = self.mod.struct_layout(t)
                    for (et, eo), oo in zip(op[1], offs):
                        put(et, eo, off + oo)
            else:
                d[off] = (self.mod.size(t), self.val(None, op, t))
        put(o.ginit[0], o.ginit[1], 0)
        mem[o] = (D(d),)

    def ptr2int(self, v):
        if isinstance(v, PIte):
            return ITE(v.c, self.ptr2int(v.a), self.ptr2int(v.b))
        if v is UNDEF:
            return UNDEF
        if v.obj is None:
            return v.off
        self.base_objs = getattr(self, "base_objs", {})
        self.base_objs[v.obj.base] = v.obj
        return v.obj.addr() + v.off

    def int2ptr(self, p):
        if p is UNDEF:
            return UNDEF
        if p.is_const():
            return Ptr(None, p)
        bs = [a for a in p.atoms() if a.kind == "base"]
        if len(bs) == 1:
            o = self.base_objs[bs[0]]
            r = p - o.addr()
            if bs[0] not in r.atoms():
                return Ptr(o, r)
        if not bs:
            bs = [a for a in p.all_atoms() if a.kind == "base"]
            if len(bs) == 1:
                return Ptr(self.base_objs[bs[0]], p - self.base_objs[bs[0]].addr())
        ites = [a for a in p.atoms() if a.kind == "ite"]
        if len(ites) == 1:
            a = ites[0]
            return vite(a.args[0], self.int2ptr(subst(p, {a: a.args[1]})), self.int2ptr(subst(p, {a: a.args[2]})))
        raise Unsupported("inttoptr %r" % p)

    def gep(self, fr, bt, ops, ctx=None):
        base = self.val(fr, ops[0][1], ops[0][0])
        off = ZERO
        t = bt
        first = True
        for ity, iop in ops[1:]:
            i = self.val(fr, iop, ity)
            if i is UNDEF:
                raise Unsupported("gep undef")
            if first:
                off = off + i.scale(self.mod.size(t))
                first = False
                continue
            t = self.mod.resolve(t)
            if t.k == "struct":
                k = i.const()
                off = off + C(self.mod.struct_layout(t)[0][k])
                t = t.a[k]
            else:
                t = t.b
                off = off + i.scale(self.mod.size(t))
        return self.padd(base, off)

    def padd(self, base, off):
        if isinstance(base, PIte):
            return PIte(base.c, self.padd(base.a, off), self.padd(base.b, off))
        if not isinstance(base, Ptr):
            raise Unsupported("gep on %r" % (base,))
        return Ptr(base.obj, base.off + off)

    # ------------------------------------------------------------ function execution
    def call(self, fname, args, mem, ctx, guard):
        """returns (retval, mem, guard) ; mem is a new dict"""
        f = ir.get_func(self.mod, fname)
        if f is None:
            raise Unsupported("no definition of %s" % fname)
        if self.depth > 40:
            raise Unsupported("recursion depth in %s" % fname)
        self.functions.add(fname)
        analyse_loops(f)
        fr = Frame(f)
        for (t, n), v in zip(f.params, args):
            fr.env[n] = v
        self.depth += 1
        try:
            rets, exits, latch = self.region(fr, None, f.entry, [(None, guard, mem)], ctx)
        finally:
            self.depth -= 1
        if not rets:
            return None, None, FALSE
        g, m = self.merge_edges([(None, gg, mm) for gg, mm, v in rets], ctx)
        v = None
        if len(rets) == 1:
            v = rets[0][2]
        elif rets[0][2] is not None:
            ds = discriminators([gg for gg, mm, vv in rets])
            v = rets[-1][2]
            for d, (gg, mm, vv) in list(zip(ds, rets))[-2::-1]:
                v = vite(d, vv, v)
        for o in fr.allocas:
            m.pop(o, None)
        return v, m, g

    def settle(self, v, ctx):
        """resolve a conditional pointer whose condition is decided here"""
        while isinstance(v, PIte):
            d = ctx.decide(v.c, 1)
            if d is None:
                return v
            v = v.a if d else v.b
        return v

    def merge_edges(self, edges, ctx):
        if len(edges) == 1:
            return edges[0][1], dict(edges[0][2])
        guards = [e[1] for e in edges]
        ds = discriminators(guards)
        g = OR(*guards)
        mem = dict(edges[-1][2])
        for d, (_, gg, m) in list(zip(ds, edges))[-2::-1]:
            mem = self.merge_mem(d, m, mem)
        return g, mem

    def merge_mem(self, c, a, b):
        if a is b:
            return dict(a)
        out = {}
        for o in b:
            if o not in a:
                if o.kind == "heap" or o.kind == "global":
                    out[o] = b[o]
                continue
            la, lb = a[o], b[o]
            if la is lb or la == lb:
                out[o] = la
                continue
            if la == FREED or lb == FREED:
                out[o] = FREED
                continue
            out[o] = self.merge_layers(c, la, lb, o)
        for o in a:
            if o not in b and o.kind in ("heap", "global"):
                out[o] = a[o]
        return out

    def merge_layers(self, c, la, lb, o):
        i = 0
        while i < len(la) and i < len(lb) and la[i] is lb[i]:
            i += 1
        ra, rb = la[i:], lb[i:]
        # both suffixes a single D (possibly one extends the common prefix's last D)
        if len(ra) <= 1 and len(rb) <= 1 and all(isinstance(x, D) for x in ra + rb):
            da = ra[0].d if ra else {}
            db = rb[0].d if rb else {}
            d = {}
            keys = set(da) | set(db)
            pre = la[:i]
            for k in keys:
                ea, eb = da.get(k), db.get(k)
                if ea == eb:
                    d[k] = ea
                    continue
                if ea is not None and eb is not None:
                    if ea[0] != eb[0]:
                        raise Unsupported("merge width")
                    d[k] = (ea[0], vite(c, ea[1], eb[1]))
                else:
                    e = ea or eb
                    old = self.peek_const(pre, k, e[0], o)
                    if old is None:
                        # keep as guarded writes
                        return self.merge_layers_guarded(c, pre, ra, rb)
                    if ea is None:
                        d[k] = (e[0], vite(c, old, eb[1]))
                    else:
                        d[k] = (e[0], vite(c, ea[1], old))
            return pre + (D(d),)
        return self.merge_layers_guarded(c, la[:i], ra, rb)

    def peek_const(self, layers, k, w, o):
        for l in reversed(layers):
            if isinstance(l, D):
                e = l.d.get(k)
                if e is not None:
                    return e[1] if e[0] == w else None
            else:
                return None
        if o.init == "undef":
            return UNDEF
        return None

    def merge_layers_guarded(self, c, pre, ra, rb):
        out = list(pre)
        for g, rs in ((c, ra), (NOT(c), rb)):
            for l in rs:
                if isinstance(l, D):
                    for k, (w, v) in sorted(l.d.items()):
                        if k % w:
                            raise Unsupported("merge alignment")
                        out.append(W((), g, w, C(k // w), v, "merge"))
                elif isinstance(l, W):
                    out.append(W(l.vars, AND(g, l.guard), l.w, l.idx, l.val, l.note))
                elif isinstance(l, Head):
                    raise Unsupported("merge head")
                else:
                    out.append(l)
        return tuple(out)

    def region(self, fr, loop, entry, entry_edges, ctx, phis=None, header_force=None):
        """execute the acyclic region (loop body or function).
        returns (rets, exits, latches): rets [(guard,mem,val)], exits [(from,to,guard,mem)],
        latches [(from, guard, mem)]"""
        f = fr.f
        pending = {entry: list(entry_edges)}
        rets, exits, latches = [], [], []
        blocks = loop.blocks if loop else None
        for b in f.rpo:
            if b not in pending:
                continue
            if blocks is not None and b not in blocks:
                continue
            edges = pending.pop(b)
            inner = f.inner.get(b)
            if inner is not loop:
                # child loop header
                child = inner
                while child.parent is not loop:
                    child = child.parent
                if child.header != b:
                    raise Unsupported("entry into the middle of a loop")
                for (fb, tb, g, m) in self.exec_loop(fr, child, edges, ctx):
                    self.route(fr, loop, fb, tb, g, m, pending, exits, latches, ctx)
                continue
            self.tick()
            guard, mem = self.merge_edges(edges, ctx)
            bctx = ctx.extend(guard) if guard.kind != "true" else ctx
            blk = f.blocks[b]
            # phis
            newv = {}
            for ins in blk.instrs:
                if ins.op != "phi":
                    break
                if b == entry and phis is not None:
                    newv[ins.dst] = phis[ins.dst]
                else:
                    newv[ins.dst] = self.eval_phi(fr, ins, edges, ctx)
            fr.env.update(newv)
            self.run_block(fr, loop, blk, guard, mem, bctx, pending, rets, exits, latches, ctx,
                           header_force if b == entry else None)
        return rets, exits, latches

    def eval_phi(self, fr, ins, edges, ctx=None):
        vals = []
        for pb, g, m in edges:
            for op, l in ins.a:
                if l == pb:
                    vals.append(self.val(fr, op, ins.ty))
                    break
            else:
                raise Unsupported("phi edge")
        v = vals[-1]
        if len(vals) > 1:
            ds = discriminators([e[1] for e in edges])
            for d, x in list(zip(ds, vals))[-2::-1]:
                v = self.vjoin(d, x, v, ctx)
        return v

    def vjoin(self, c, a, b, ctx):
        """vite, but one side alone when it has the value of the other whenever the other is chosen"""
        r = vite(c, a, b)
        if ctx is None or c.kind in ("true", "false"):
            return r
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is not b.obj:
                return r
            d = a.off - b.off
        elif isinstance(a, Poly) and isinstance(b, Poly) and is_int(a) and is_int(b):
            d = a - b
        else:
            return r
        if d.is_zero() or len(d.t) > 6:
            return r
        if ctx.extend(c).prove(EQ(d), 0):
            return b
        if ctx.extend(NOT(c)).prove(EQ(d), 0):
            return a
        return r

    def route(self, fr, loop, fb, tb, g, m, pending, exits, latches, ctx):
        if g.kind == "false":
            return
        if loop is not None:
            if tb == loop.header:
                latches.append((fb, g, m))
                return
            if tb not in loop.blocks:
                exits.append((fb, tb, g, m))
                return
        pending.setdefault(tb, []).append((fb, g, m))

    def run_block(self, fr, loop, blk, guard, mem, bctx, pending, rets, exits, latches, ctx, force):
        f = fr.f
        st = {"mem": mem, "guard": guard, "ctx": bctx}
        if blk.name in f.noreturn:
            # every path from here ends in a throw / abort: reaching it is the failure (or, where the
            # contract expects an exception, the exception that is thrown)
            self.curloc = "%s:%s" % (f.name, blk.name)
            names = thrown(f, blk.name)
            if self.expect_throw and names and all(n.startswith("__cxa_throw:") or n in ("__cxa_rethrow", "_ZSt9terminatev", "abort") for n in names):
                for n in names:
                    self.throws.append((guard, n))
            else:
                self.oblige(bctx, FALSE, "no-throw", "failure path (%s) unreachable" % ", ".join(sorted(names))[:120])
            return
        for ins in blk.instrs:
            if ins.op == "phi":
                continue
            self.curloc = "%s:%s: %s" % (f.name, blk.name, ins.line.strip()[:110])
            op = ins.op
            if op == "ret":
                v = None if ins.a is None else self.val(fr, ins.a, ins.ty)
                rets.append((st["guard"], st["mem"], v))
                return
            if op == "br":
                if ins.a[0] is None:
                    self.route(fr, loop, blk.name, ins.a[1], st["guard"], st["mem"], pending, exits, latches, ctx)
                    return
                c = self.val(fr, ins.a[0], Ty("int", 1))
                if c is UNDEF:
                    raise Unsupported("branch on undef")
                t1, t2 = ins.a[1], ins.a[2]
                if force is not None:
                    # loop header: only the in-loop edge is followed; c known to hold there
                    inl = t1 if t1 in loop.blocks else t2
                    out = t2 if inl == t1 else t1
                    self.route(fr, loop, blk.name, inl, st["guard"], st["mem"], pending, exits, latches, ctx)
                    return
                d = st["ctx"].decide(c, 0)
                if d is None:
                    d = st["ctx"].decide(c, 1)
                if d is None and (t1 in f.noreturn) != (t2 in f.noreturn):
                    pass
                if d is not None and c.kind not in ("true", "false") and self.checking and \
                        (t1 in f.noreturn or t2 in f.noreturn):
                    dead = t2 if d else t1
                    if dead in f.noreturn:
                        self.obls.append(Ob("no-throw", "failure branch to %s not taken" % dead, True, None, self.loc()))
                if d is not False:
                    self.route(fr, loop, blk.name, t1, AND(st["guard"], TRUE if d is True else c), st["mem"], pending, exits, latches, ctx)
                if d is not True:
                    self.route(fr, loop, blk.name, t2, AND(st["guard"], TRUE if d is False else NOT(c)),
                               st["mem"] if d is False else dict(st["mem"]), pending, exits, latches, ctx)
                return
            if op == "switch":
                v = self.val(fr, ins.a[0], ins.ty)
                g = st["guard"]
                notany = []
                taken = False
                for k, l in ins.a[2]:
                    c = EQ(v - C(k)) if isinstance(v, Poly) else (v if k else NOT(v))
                    d = st["ctx"].extend(*notany).decide(c, 1)
                    if d is False:
                        continue
                    self.route(fr, loop, blk.name, l, AND(g, *notany, TRUE if d else c), dict(st["mem"]), pending, exits, latches, ctx)
                    if d is True:
                        taken = True
                        break
                    notany.append(NOT(c))
                if not taken:
                    self.route(fr, loop, blk.name, ins.a[1], AND(g, *notany), st["mem"], pending, exits, latches, ctx)
                return
            if op == "unreachable":
                # reached only if the guard is satisfiable; calls before it reported the throw
                if not getattr(self, "_threw", False):
                    self.oblige(st["ctx"], FALSE, "no-throw", "unreachable reached")
                self._threw = False
                return
            if op == "resume":
                self.oblige(st["ctx"], FALSE, "no-throw", "exception propagates")
                return
            if op in ("call", "invoke"):
                cont = self.do_call(fr, ins, st)
                if cont == "throw":
                    return
                if op == "invoke":
                    self.route(fr, loop, blk.name, ins.a["normal"], st["guard"], st["mem"], pending, exits, latches, ctx)
                    return
                continue
            self.step(fr, ins, st)
        raise Unsupported("block without terminator")

    # ------------------------------------------------------------ instructions
    def step(self, fr, ins, st):
        op = ins.op
        ctx = st["ctx"]
        env = fr.env
        V = lambda o, t: self.val(fr, o, t)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            a, b = V(ins.a[0], ins.ty), V(ins.a[1], ins.ty)
            ty = self.mod.resolve(ins.ty)
            if ty.k == "vec":
                env[ins.dst] = [self.intop(op, x, y, self.mod.resolve(ty.b), ins.a[2], ctx) for x, y in zip(a, b)]
            else:
                env[ins.dst] = self.intop(op, a, b, ty, ins.a[2], ctx)
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = V(ins.a[0], ins.ty), V(ins.a[1], ins.ty)
            if isinstance(a, list):
                env[ins.dst] = [self.fop(op, x, y) for x, y in zip(a, b)]
            else:
                env[ins.dst] = self.fop(op, a, b)
        elif op == "fneg":
            a = V(ins.a[0], ins.ty)
            env[ins.dst] = [-x for x in a] if isinstance(a, list) else -a
        elif op == "icmp":
            a, b = V(ins.a[1], ins.ty), V(ins.a[2], ins.ty)
            env[ins.dst] = self.icmp(ins.a[0], a, b, self.mod.resolve(ins.ty), ctx)
        elif op == "fcmp":
            a, b = V(ins.a[1], ins.ty), V(ins.a[2], ins.ty)
            env[ins.dst] = self.fcmp(ins.a[0], a, b)
        elif op == "alloca":
            cnt = V(ins.a[0][0:] if False else ins.a[0], Ty("int", 64))
            o = self.alloc(st["mem"], "%%%s@%s" % (ins.dst, fr.f.name), cnt.scale(self.mod.size(ins.ty)), "stack",
                           align=ins.a[1] or 1)
            o.ty = ins.ty
            fr.allocas.append(o)
            env[ins.dst] = Ptr(o, ZERO)
        elif op == "load":
            p = V(ins.a[0], ir.PTR)
            self.touch_globals(st["mem"], p)
            if ins.a[2]:
                self.assumptions.add("volatile/atomic access treated as plain access")
            env[ins.dst] = self.load(st["mem"], ctx, p, ins.ty, ins.a[1])
        elif op == "store":
            v = V(ins.a[0], ins.ty)
            p = V(ins.a[1], ir.PTR)
            self.touch_globals(st["mem"], p)
            self.store(st["mem"], ctx, TRUE, p, v, ins.ty, ins.a[2])
        elif op == "gep":
            env[ins.dst] = self.gep(fr, ins.ty, ins.a)
        elif op == "select":
            c = V(ins.a[1], ins.a[0])
            a, b = V(ins.a[2], ins.ty), V(ins.a[3], ins.ty)
            if isinstance(c, list):
                env[ins.dst] = [vite(x, y, z) for x, y, z in zip(c, a, b)]
            else:
                d = ctx.decide(c, 1)
                env[ins.dst] = a if d is True else b if d is False else vite(c, a, b)
        elif op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui",
                    "fpext", "fptrunc", "addrspacecast"):
            v = V(ins.a[1], ins.a[0])
            if op == "ptrtoint" and isinstance(v, Ptr) and v.obj is not None:
                # an object lies within the user half of the address space, not at address 0
                bp = v.obj.addr()
                st["ctx"] = ctx = ctx.extend(GE(bp - ONE), GE(C(1 << 63) - bp - v.obj.size))
            env[ins.dst] = self.cast(op, v, self.mod.resolve(ins.a[0]), self.mod.resolve(ins.ty), ctx)
        elif op == "extractvalue":
            v = V(ins.a[0], ins.ty)
            for i in ins.a[1]:
                v = v[i] if isinstance(v, list) else UNDEF
            env[ins.dst] = v
        elif op == "insertvalue":
            v = V(ins.a[0], ins.ty)
            x = V(ins.a[2], ins.a[1])
            env[ins.dst] = insert_agg(v, ins.a[3], x)
        elif op == "extractelement":
            v = V(ins.a[0], ins.ty)
            i = V(ins.a[2], ins.a[1])
            env[ins.dst] = v[i.const()] if i.is_const() else self.unsup("extractelement")
        elif op == "insertelement":
            v = list(V(ins.a[0], ins.ty))
            x = V(ins.a[2], ins.a[1])
            i = V(ins.a[4], ins.a[3])
            v[i.const()] = x
            env[ins.dst] = v
        elif op == "shufflevector":
            a, b = V(ins.a[0], ins.ty), V(ins.a[1], ins.ty)
            m = V(ins.a[3], ins.a[2])
            both = list(a) + list(b)
            env[ins.dst] = [UNDEF if k is UNDEF else both[k.const()] for k in m]
        elif op == "freeze":
            env[ins.dst] = V(ins.a[0], ins.ty)
        elif op == "fence":
            pass
        else:
            raise Unsupported("instruction %s" % ins.line.strip())

    def unsup(self, w):
        raise Unsupported(w)

    def touch_globals(self, mem, p):
        if isinstance(p, PIte):
            self.touch_globals(mem, p.a)
            self.touch_globals(mem, p.b)
        elif isinstance(p, Ptr) and p.obj is not None and p.obj.kind in ("global", "func") and p.obj not in mem:
            self.init_global_mem(mem, p.obj)

    @staticmethod
    def integral(p):
        """the value is an integer whatever its atoms are"""
        return all(Fraction(k).denominator == 1 for k in p.t.values()) and all(a.sort == "i" for a in p.atoms())

    def fop(self, op, a, b):
        if a is UNDEF or b is UNDEF:
            return P(fresh("undef", "r", False))
        if op == "fadd":
            return a + b
        if op == "fsub":
            return a - b
        if op == "fmul":
            return a * b
        if op == "fdiv" and b.is_const() and b.const() != 0:
            return a.scale(Fraction(1) / b.const())
        return FUN(op, a, b)

    def fcmp(self, pred, a, b):
        if isinstance(a, list):
            raise Unsupported("vector fcmp")
        self.assumptions.add("floating point comparisons treated as comparisons of reals (no NaN)")
        d = a - b
        if pred in ("oeq", "ueq"):
            return EQ(d) if not d.is_const() else (TRUE if d.is_zero() else FALSE)
        if pred in ("one", "une"):
            return NOT(EQ(d)) if not d.is_const() else (FALSE if d.is_zero() else TRUE)
        if pred in ("olt", "ult"):
            return OPAQUE("flt", a, b) if not d.is_const() else (TRUE if d.const() < 0 else FALSE)
        if pred in ("ogt", "ugt"):
            return OPAQUE("flt", b, a) if not d.is_const() else (TRUE if d.const() > 0 else FALSE)
        if pred in ("ole", "ule"):
            return NOT(OPAQUE("flt", b, a)) if not d.is_const() else (TRUE if d.const() <= 0 else FALSE)
        if pred in ("oge", "uge"):
            return NOT(OPAQUE("flt", a, b)) if not d.is_const() else (TRUE if d.const() >= 0 else FALSE)
        if pred == "ord":
            return TRUE
        if pred == "uno":
            return FALSE
        raise Unsupported("fcmp " + pred)

    def intop(self, op, a, b, ty, fl, ctx):
        w = ty.a
        if w == 1:
            if isinstance(a, Cond) and isinstance(b, Cond):
                if op == "and":
                    return AND(a, b)
                if op == "or":
                    return OR(a, b)
                if op == "xor" or op == "add" or op == "sub":
                    if b.kind == "true":
                        return NOT(a)
                    if a.kind == "true":
                        return NOT(b)
                    return OR(AND(a, NOT(b)), AND(NOT(a), b))
            raise Unsupported("i1 " + op)
        if op in ("and", "or"):
            for x, y in ((a, b), (b, a)):
                if y is not UNDEF and isinstance(y, Poly) and y.is_const():
                    r = bitfold(op, x, y.const() % (1 << w), w)
                    if r is not None:
                        return r
        if a is UNDEF or b is UNDEF:
            return P(fresh("undef", "i", False))
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "shl" and b.is_const():
            return a.scale(1 << b.const())
        if op in ("udiv", "urem") or (op == "lshr" and b.is_const()):
            if op == "lshr":
                b = C(1 << b.const())
            a = self.canon(a, w, False, ctx, "dividend of " + op)
            b = self.canon(b, w, False, ctx, "divisor of " + op)
            if not b.is_const():
                self.oblige(ctx, GE(b - ONE), "div-by-zero", "divisor positive")
            elif b.is_zero():
                self.oblige(ctx, FALSE, "div-by-zero", "divisor positive")
                raise Unsupported("division by zero")
            q = self.mk_div(a, b, ctx)
            return q if op != "urem" else a - q * b
        if op in ("sdiv", "srem", "ashr"):
            if op == "ashr":
                if not b.is_const():
                    raise Unsupported("ashr")
                b = C(1 << b.const())
            a = self.canon(a, w, True, ctx, "dividend of " + op)
            b = self.canon(b, w, True, ctx, "divisor of " + op)
            X, E = poly_divmod(a, b)
            if E.is_zero() and (b.is_const() and b.const() != 0 or ctx.prove(GE(b - ONE))):
                return X if op != "srem" else ZERO
            if "exact" in fl and b.is_const():
                return a.scale(Fraction(1, b.const()))
            if ctx.prove(GE(a)) and ctx.prove(GE(b - ONE)):
                q = self.mk_div(a, b, ctx)
                return q if op != "srem" else a - q * b
            raise Unsupported("%s of possibly negative %r" % (op, a))
        if a.is_const() and b.is_const():
            x, y = a.const() % (1 << w), b.const() % (1 << w)
            return C({"and": x & y, "or": x | y, "xor": x ^ y}.get(op, 0)) if op in ("and", "or", "xor") else self.unsup(op)
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if y.is_const():
                    k = y.const() % (1 << w)
                    if k & (k + 1) == 0:  # low mask
                        x = self.canon(x, w, False, ctx, "and mask")
                        m = C(k + 1)
                        return x - self.mk_div(x, m, ctx) * m
                    nk = (~k) % (1 << w)
                    if nk & (nk + 1) == 0:  # high mask: align down
                        x = self.canon(x, w, False, ctx, "and align")
                        m = C(nk + 1)
                        return self.mk_div(x, m, ctx) * m
            # x & -m  (align down by symbolic power of two)
            return P(mk_atom("fun", ("and", a, b), "i", True))
        if op == "xor":
            if b.is_const() and b.const() % (1 << w) == (1 << w) - 1:
                return -a - ONE
            if b.is_const() and b.const() == 1 and ctx.prove(GE(a)) and ctx.prove(GE(ONE - a)):
                return ONE - a
        if op == "or":
            if a.is_zero():
                return b
            if b.is_zero():
                return a
            if "disjoint" in fl:
                return a + b
        return P(mk_atom("fun", (op, a, b), "i", True))

    def icmp(self, pred, a, b, ty, ctx):
        if ty.k == "vec":
            raise Unsupported("vector icmp")
        if isinstance(a, Cond) or isinstance(b, Cond):
            x = OR(AND(a, b), AND(NOT(a), NOT(b)))
            if pred == "eq":
                return x
            if pred == "ne":
                return NOT(x)
            raise Unsupported("icmp i1 " + pred)
        if a is UNDEF or b is UNDEF:
            return OPAQUE("undefcmp", P(fresh("undef")))
        if ty.k == "ptr":
            return self.ptrcmp(pred, a, b, ctx)
        w = ty.a
        if pred in ("eq", "ne"):
            d = a - b
            # equality modulo 2^w : exact when both canonical
            if not d.is_const():
                a = self.canon(a, w, False, ctx, "icmp " + pred) if not ctx.prove(GE(a + C(1 << (w - 1))), 0) or not ctx.prove(GE(C((1 << (w - 1)) - 1) - a), 0) else a
                b2 = b
                if b.is_const() and b.const() < 0:
                    # compare with -1 etc: signed view
                    self.canon(a, w, True, ctx, "icmp " + pred)
                d = a - b2
            else:
                d = C(d.const() % (1 << w))
            return EQ(d) if pred == "eq" else NOT(EQ(d))
        signed = pred[0] == "s"
        a = self.canon(a, w, signed, ctx, "icmp " + pred)
        b = self.canon(b, w, signed, ctx, "icmp " + pred)
        k = pred[1:]
        if k == "lt":
            return LT(a, b)
        if k == "le":
            return LE(a, b)
        if k == "gt":
            return LT(b, a)
        return LE(b, a)

    def ptrcmp(self, pred, a, b, ctx):
        if isinstance(a, PIte):
            x = self.ptrcmp(pred, a.a, b, ctx)
            y = self.ptrcmp(pred, a.b, b, ctx)
            return OR(AND(a.c, x), AND(NOT(a.c), y))
        if isinstance(b, PIte):
            x = self.ptrcmp(pred, a, b.a, ctx)
            y = self.ptrcmp(pred, a, b.b, ctx)
            return OR(AND(b.c, x), AND(NOT(b.c), y))
        if a.obj is b.obj:
            d = a.off - b.off
            return {"eq": EQ(d), "ne": NOT(EQ(d)), "ult": GE(-d - ONE), "ule": GE(-d), "ugt": GE(d - ONE),
                    "uge": GE(d)}[pred]
        if pred == "eq":
            return FALSE
        if pred == "ne":
            return TRUE
        if b.obj is None and b.off.is_zero():
            return {"ult": FALSE, "uge": TRUE, "ugt": TRUE, "ule": FALSE}[pred]
        # pointers into different objects: order unspecified
        return OPAQUE("ptrlt", pred, P(a.obj.base) if a.obj else ZERO, P(b.obj.base) if b.obj else ZERO)

    def cast(self, op, v, t1, t2, ctx):
        if isinstance(v, list) and op != "bitcast":
            return [self.cast(op, x, self.mod.resolve(t1.b), self.mod.resolve(t2.b), ctx) for x in v]
        if v is UNDEF:
            if op == "bitcast" and t2.k == "vec":
                return [UNDEF] * t2.a
            return UNDEF
        if op in ("zext", "sext"):
            if isinstance(v, Cond):
                return ITE(v, C(1 if op == "zext" else -1), ZERO)
            return self.canon(v, t1.a, op == "sext", ctx, op)
        if op == "trunc":
            if t2.a == 1:
                if isinstance(v, Cond):
                    return v
                m = v - self.mk_div(v, C(2), ctx).scale(2)
                return NE(m)
            return v   # known modulo 2^t2 only; canonicalised at use
        if op == "ptrtoint":
            if isinstance(v, PIte):
                return ITE(v.c, self.ptr2int(v.a), self.ptr2int(v.b))
            return self.ptr2int(v)
        if op == "inttoptr":
            return self.int2ptr(v)
        if op in ("sitofp", "uitofp"):
            if isinstance(v, Cond):
                return ITE(v, ONE, ZERO)
            v = self.canon(v, t1.a, op == "sitofp", ctx, op)
            if v.is_const():
                return v
            if ctx.prove(GE(v), 1) and ctx.prove(GE(C(1 << (53 if t2.k == "double" else 24)) - v), 1):
                return v        # exactly representable
            return FUN("real", v) if t2.k == "double" else FUN("realf", v)
        if op in ("fptosi", "fptoui"):
            h = 1 << (t2.a - (op == "fptosi"))
            if self.integral(v) and ctx.prove(GE(v), 1) and ctx.prove(GE(C(h - 1) - v), 1):
                return v
            return P(mk_atom("fun", (op, v), "i", False))
        if op == "fpext":
            return v
        if op == "fptrunc":
            if v.is_const():
                import struct
                f = Fraction(struct.unpack("f", struct.pack("f", float(v.const())))[0])
                return C(f)
            return FUN("fround32", v)
        if op == "bitcast":
            if t1.k == "vec" and t2.k == "vec" and t1.a == t2.a:
                return v
            if t1.k == t2.k:
                return v
            if isinstance(v, Poly) and v.is_zero():
                return ZERO if t2.k != "vec" else [ZERO] * t2.a
            if isinstance(v, list) and all(isinstance(x, Poly) and x.is_zero() for x in v):
                return ZERO if t2.k != "vec" else [ZERO] * t2.a
            raise Unsupported("bitcast %r to %r" % (t1, t2))
        raise Unsupported("cast " + op)

    # ------------------------------------------------------------ calls
    def do_call(self, fr, ins, st):
        import externs
        return externs.do_call(self, fr, ins, st)

    # ------------------------------------------------------------ loops
    def exec_loop(self, fr, L, edges, ctx):
        import loops
        return loops.exec_loop(self, fr, L, edges, ctx)


def insert_agg(v, idx, x):
    v = list(v) if isinstance(v, list) else [UNDEF] * (idx[0] + 1)
    while len(v) <= idx[0]:
        v.append(UNDEF)
    if len(idx) == 1:
        v[idx[0]] = x
    else:
        v[idx[0]] = insert_agg(v[idx[0]], idx[1:], x)
    return v


def discriminators(guards):
    sets = [set(g.args) if g.kind == "and" else ({g} if g.kind != "true" else set()) for g in guards]
    common = set.intersection(*sets) if sets else set()
    return [AND(*(s - common)) for s in sets]


def prove_apart(d, ctx):
    """cheap syntactic separation: provably != 0"""
    if d.is_const():
        return not d.is_zero()
    return ctx.prove(GE(d - ONE), 0) or ctx.prove(GE(-d - ONE), 0)
