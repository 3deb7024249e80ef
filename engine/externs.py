"""Calls: intrinsics, the runtime library (assumed contracts), OpenMP runtime, repo functions."""
from terms import *
from symex import *
import symex
import ir
import math
import re

IGNORE = ("llvm.lifetime.", "llvm.dbg.", "llvm.experimental.noalias", "llvm.assume", "llvm.prefetch", "llvm.donothing",
          "llvm.stackrestore", "llvm.invariant", "llvm.annotation", "llvm.var.annotation")

THROW = {"__cxa_throw", "__cxa_rethrow", "_ZSt9terminatev", "abort", "__clang_call_terminate", "__cxa_bad_cast",
         "_Unwind_Resume", "exit", "__assert_fail", "__cxa_throw_bad_array_new_length", "__cxa_call_unexpected", "_exit", "quick_exit"}

NEW = {"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}
NEWALIGN = {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}
DEL = {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t"}


def do_call(X, fr, ins, st):
    a = ins.a
    callee = a["callee"]
    ctx = st["ctx"]
    mem = st["mem"]
    if callee[0] == "asm":
        if callee[1] == "" or callee[1].strip() in ("nop",):
            return None
        raise Unsupported("inline assembly")
    if callee[0] != "g":
        p = X.val(fr, callee, ir.PTR)
        if isinstance(p, Ptr) and p.obj is not None and p.obj.kind == "func" and p.off.is_zero():
            name = p.obj.site[1:]
        else:
            raise Unsupported("indirect call")
    else:
        name = callee[1]

    if name.startswith(IGNORE):
        return None

    def args():
        return [X.val(fr, o, t) for t, o in a["args"] if t.k != "metadata"]

    def ret(v):
        if ins.dst is not None:
            fr.env[ins.dst] = v
        return None

    if name in THROW or "__throw_" in name:
        X._threw = True
        if X.expect_throw and name == "__cxa_throw":
            ti = a["args"][1][1]
            X.throws.append((st["guard"], ti[1] if ti[0] == "g" else None))
            return "throw"
        if X.expect_throw and name in ("__cxa_rethrow", "_ZSt9terminatev", "abort"):
            X.throws.append((st["guard"], name))
            return "throw"
        X.oblige(ctx, FALSE, "no-throw", "call of %s unreachable" % name)
        return "throw"
    if name in X.externs:
        return ret(X.externs[name](X, fr, ins, st, args()))
    if name in X.contracts:
        v = X.contracts[name](X, args(), st)
        return ret(v)
    if name.startswith("llvm."):
        return ret(intrinsic(X, name, args, ins, st, fr))
    if name in NEW or name in NEWALIGN:
        av = args()
        X.assumptions.add("memory allocation succeeds and returns a fresh block aligned to 16 bytes (or as requested)")
        sz = X.canon(av[0], 64, False, ctx, "allocation size")
        al = 16
        if name in NEWALIGN:
            al = av[1].const() if av[1].is_const() else 16
        o = X.alloc(mem, "heap@%s:%s" % (fr.f.name, ins.dst), sz, "heap", align=al)
        X.oblige(ctx, GE(C((1 << 63) - 1) - sz), "alloc-size", "allocation of at most PTRDIFF_MAX bytes")
        return ret(Ptr(o, ZERO))
    if name == "posix_memalign":
        pp, al, sz = args()
        X.assumptions.add("memory allocation succeeds and returns a fresh block aligned to 16 bytes (or as requested)")
        o = X.alloc(mem, "heap@%s:%s" % (fr.f.name, ins.dst), sz, "heap", align=al.const() if al.is_const() else 16)
        X.store(mem, ctx, TRUE, pp, Ptr(o, ZERO), ir.PTR)
        return ret(ZERO)
    if name == "aligned_alloc":
        al, sz = args()
        o = X.alloc(mem, "heap@%s:%s" % (fr.f.name, ins.dst), sz, "heap", align=al.const() if al.is_const() else 16)
        return ret(Ptr(o, ZERO))
    if name in DEL:
        p = args()[0]
        free(X, mem, ctx, p)
        return ret(None)
    if name in ("__cxa_begin_catch", "__cxa_end_catch", "__cxa_free_exception", "__cxa_atexit", "__cxa_guard_release"):
        return ret(UNDEF)
    if name == "__cxa_allocate_exception":
        av = args()
        return ret(Ptr(X.alloc(mem, "exc", av[0] + C(128), "heap"), ZERO))
    if name in ("memcpy", "memmove"):
        d, s, n = args()
        memcpy(X, mem, ctx, d, s, n)
        return ret(d)
    if name == "memset":
        d, v, n = args()
        memset(X, mem, ctx, d, v, n)
        return ret(d)
    if name.startswith("__kmpc_") or name.startswith("omp_"):
        return kmpc(X, name, args(), fr, ins, st, ret)
    if name in X.mod.funcs_raw:
        v, m, g = X.call(name, args(), mem, ctx, TRUE)
        if m is None:
            return "throw"
        st["mem"] = m
        if g.kind != "true":
            st["guard"] = AND(st["guard"], g)
            st["ctx"] = ctx.extend(g)
        return ret(v)
    if re.match(r"_ZNSo|_ZStls|_ZNSt6chrono|_ZSt16__ostream_insert|_ZNSt9basic_ios|_ZNKSt5ctype|_ZSt4endl|_ZSt5flush|_ZNSt8ios_base", name):
        X.assumptions.add("iostream output and clock calls have no effect on program data")
        av = args()
        if "chrono" in name:
            t = fresh("clock")
            X.assumptions.add("clock readings lie in [0, 2^62)")
            return ret(P(t) - X.mk_div(P(t), C(1 << 62), ctx).scale(1 << 62))
        return ret(av[0] if av else UNDEF)
    raise Unsupported("call of external function %s" % name)


def free(X, mem, ctx, p):
    if isinstance(p, PIte):
        d = ctx.decide(p.c, 1)
        if d is True:
            return free(X, mem, ctx, p.a)
        if d is False:
            return free(X, mem, ctx, p.b)
        return
    if p is UNDEF:
        raise Unsupported("free of undef")
    if p.obj is None:
        return
    if p.obj.kind != "heap":
        X.fail("memory", "free of non-heap object %s" % p.obj.site, "")
        return
    if not p.off.is_zero():
        X.fail("memory", "free of interior pointer %s" % p.obj.site, repr(p.off))
    if mem.get(p.obj) == FREED:
        X.fail("memory", "double free of %s" % p.obj.site, "")
    mem[p.obj] = FREED


def width_of(X, mem, o, ctx):
    if o.elem:
        return o.elem
    for l in mem.get(o, ()):
        if isinstance(l, W):
            return l.w
        if isinstance(l, D):
            ws = {w for w, v in l.d.values()}
            if len(ws) == 1:
                return ws.pop()
    if o.init != "undef" and isinstance(o.init, tuple) and o.init[0] == "arr":
        return 8
    return None


def memcpy(X, mem, ctx, d, s, n):
    if n.is_zero():
        return
    if isinstance(s, PIte) or isinstance(d, PIte):
        for pp in (s, d):
            if isinstance(pp, PIte):
                r = ctx.decide(pp.c, 1)
                if r is None:
                    raise Unsupported("memcpy through undecided pointer")
        return memcpy(X, mem, ctx, *(x if not isinstance(x, PIte) else (x.a if ctx.decide(x.c, 1) else x.b) for x in (d, s)), n)
    X.touch_globals(mem, s)
    nn = X.canon(n, 64, False, ctx, "memcpy length")
    # empty copies with null are fine
    if d.obj is None or s.obj is None:
        X.oblige(ctx, EQ(nn), "memory", "memcpy through null has length 0")
        return
    for p, wr in ((d, True), (s, False)):
        X.oblige(ctx, GE(p.off), "bounds", "memcpy offset >= 0 in %s" % p.obj.site)
        X.oblige(ctx, GE(p.obj.size - p.off - nn), "bounds", "memcpy within %s" % p.obj.site)
        if wr and not p.obj.writable:
            X.oblige(ctx, FALSE, "frame", "write to read-only object %s" % p.obj.site)
    if nn.is_const() and s.off.is_const() and d.off.is_const() and nn.const() <= 4096 and \
            all(isinstance(l, (D, Head)) for l in mem[s.obj]) and not (isinstance(s.obj.init, tuple) and s.obj.init[0] == "arr"):
        k0, k1 = s.off.const(), s.off.const() + nn.const()
        keys = {}
        for l in mem[s.obj]:
            if isinstance(l, D):
                for k, e in l.d.items():
                    if k0 <= k < k1:
                        keys[k] = e[0]
        vals = []
        for k, w in sorted(keys.items()):
            ty = ir.Ty("int", 8 * w)
            v = X.read(mem, ctx, s.obj, w, C(k), ty)
            vals.append((k - k0, w, v))
        for k, w, v in vals:
            X.store1(mem, ctx, TRUE, Ptr(d.obj, d.off + C(k)), v, w)
        return
    w = width_of(X, mem, s.obj, ctx) or width_of(X, mem, d.obj, ctx) or 8
    cnt, rem = poly_divmod(nn, C(w))
    if not rem.is_zero():
        raise Unsupported("memcpy length %r" % nn)
    sort = s.obj.init[2] if isinstance(s.obj.init, tuple) and s.obj.init[0] == "arr" else None
    if cnt.is_const() and cnt.const() <= 16:
        vals = []
        for i in range(cnt.const()):
            ty = ir.DOUBLE if sort == "r" else ir.Ty("int", 8 * w)
            vals.append(X.read(mem, ctx, s.obj, w, s.off + C(w * i), ty))
        for i, v in enumerate(vals):
            X.store1(mem, ctx, TRUE, Ptr(d.obj, d.off + C(w * i)), v, w)
        return
    v = fresh("c")
    c2 = ctx.extend(GE(P(v)), GE(cnt - P(v) - ONE))
    val = X.read(mem, c2, s.obj, w, s.off + P(v).scale(w), ir.DOUBLE if sort != "i" else ir.Ty("int", 8 * w))
    idx = X.cell(d, w, "memcpy") + P(v)
    mem[d.obj] = mem[d.obj] + (W(((v, cnt),), TRUE, w, idx, val, "memcpy"),)
    if d.obj.elem is None:
        d.obj.elem = w


def memset(X, mem, ctx, d, v, n):
    if n.is_zero():
        return
    nn = X.canon(n, 64, False, ctx, "memset length")
    if not isinstance(d, Ptr):
        raise Unsupported("memset pointer")
    if d.obj is None:
        X.oblige(ctx, EQ(nn), "memory", "memset through null has length 0")
        return
    X.oblige(ctx, GE(d.off), "bounds", "memset offset >= 0 in %s" % d.obj.site)
    X.oblige(ctx, GE(d.obj.size - d.off - nn), "bounds", "memset within %s" % d.obj.site)
    if not (v.is_zero()):
        raise Unsupported("memset with non-zero byte")
    w = width_of(X, mem, d.obj, ctx)
    if w is None:
        t = getattr(d.obj, "ty", None)
        w = leaf_width(X, t) if t is not None else 8
    if nn.is_const() and d.off.is_const() and nn.const() <= 512:
        k = d.off.const()
        e = k + nn.const()
        while k < e:
            ww = w if k % w == 0 and k + w <= e else 1
            X.store1(mem, ctx, TRUE, Ptr(d.obj, C(k)), ZERO, ww)
            k += ww
        return
    cnt, rem = poly_divmod(nn, C(w))
    if not rem.is_zero():
        raise Unsupported("memset length %r" % nn)
    u = fresh("c")
    mem[d.obj] = mem[d.obj] + (W(((u, cnt),), TRUE, w, X.cell(d, w, "memset") + P(u), ZERO, "memset"),)


def leaf_width(X, t):
    t = X.mod.resolve(t)
    while t.k in ("array", "vec", "struct"):
        t = X.mod.resolve(t.b if t.k != "struct" else t.a[0])
    return X.mod.size(t)


def minmax(X, kind, a, b, ctx, w):
    sg = kind[0] == "s"
    a = X.canon(a, w, sg, ctx, kind)
    b = X.canon(b, w, sg, ctx, kind)
    c = LE(a, b)
    d = ctx.decide(c, 1)
    lo, hi = (a, b)
    if kind.endswith("min"):
        return a if d is True else b if d is False else ITE(c, a, b)
    return b if d is True else a if d is False else ITE(c, b, a)


def intrinsic(X, name, args, ins, st, fr):
    ctx = st["ctx"]
    b = name[5:]
    if b.startswith("expect"):
        return args()[0]
    if b.startswith("memcpy") or b.startswith("memmove"):
        d, s, n = args()[:3]
        memcpy(X, st["mem"], ctx, d, s, n)
        return None
    if b.startswith("memset"):
        d, v, n = args()[:3]
        memset(X, st["mem"], ctx, d, v, n)
        return None
    if b.startswith("fmuladd") or b.startswith("fma."):
        x, y, z = args()
        if isinstance(x, list):
            return [X.fop("fadd", X.fop("fmul", p, q), r) for p, q, r in zip(x, y, z)]
        return X.fop("fadd", X.fop("fmul", x, y), z)
    m = re.match(r"([us](?:min|max))\.i(\d+)", b)
    if m:
        x, y = args()
        return minmax(X, m.group(1), x, y, ctx, int(m.group(2)))
    m = re.match(r"([us])(add|sub|mul)\.with\.overflow\.i(\d+)", b)
    if m:
        x, y = args()
        w = int(m.group(3))
        r = {"add": x + y, "sub": x - y, "mul": x * y}[m.group(2)]
        lo, hi = (0, (1 << w) - 1) if m.group(1) == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        ov = OR(GE(C(lo - 1) - r), GE(r - C(hi + 1)))
        d = ctx.decide(ov, 1)
        return [r, TRUE if d is True else FALSE if d is False else ov]
    if b.startswith("ceil.f64"):
        return ceiling(X, args()[0], ctx)
    if b.startswith("fabs"):
        return FUN("fabs", args()[0])
    if b.startswith("x86."):
        raise Unsupported("intrinsic " + name)
    if b.startswith("stacksave"):
        return UNDEF
    if b.startswith("vector.reduce.fadd"):
        x, v = args()
        for e in v:
            x = X.fop("fadd", x, e)
        return x
    if b.startswith("eh.typeid"):
        return P(fresh("typeid"))
    if b.startswith("objectsize"):
        return C(-1)
    if b.startswith("is.constant"):
        return FALSE
    if b.startswith("trap"):
        X._threw = True
        X.oblige(ctx, FALSE, "no-throw", "trap unreachable")
        return None
    if b.startswith("masked.store"):
        v, p, al, m = args()
        return None if X.unsup("masked.store") else None
    raise Unsupported("intrinsic " + name)


def ceiling(X, v, ctx):
    """ceil of a quotient of nonnegative integers by a constant; exact in doubles for operands below 2**53"""
    d = 1
    for _, k in v.t.items():
        d = math.lcm(d, Fraction(k).denominator)
    n = v.scale(d)
    if X.integral(n) and ctx.prove(GE(n), 1):
        return X.intop("udiv", n + C(d - 1), C(d), ir.Ty("int", 64), (), ctx)
    return FUN("ceil", v)


def kmpc(X, name, av, fr, ins, st, ret):
    if name.startswith("__kmpc_fork_call"):
        fn = av[2].obj.site[1:]
        X.functions.add(fn)
        n = av[1].const()
        mem = st["mem"]
        g1 = X.alloc(mem, "gtid", C(4), "stack")
        g2 = X.alloc(mem, "btid", C(4), "stack")
        X.store1(mem, st["ctx"], TRUE, Ptr(g1, ZERO), ZERO, 4)
        X.store1(mem, st["ctx"], TRUE, Ptr(g2, ZERO), ZERO, 4)
        # everything that exists before the parallel region is shared between threads
        saved = X.shared, X.in_ws
        X.shared, X.in_ws = set(mem) - {g1, g2}, False
        v, m, g = X.call(fn, [Ptr(g1, ZERO), Ptr(g2, ZERO)] + av[3:3 + n], mem, st["ctx"], TRUE)
        X.shared, X.in_ws = saved
        if m is None:
            return "throw"
        st["mem"] = m
        return ret(None)
    if name.startswith("__kmpc_for_static_init"):
        # one representative thread executes the whole iteration space; independence of the
        # iterations (hence of the distribution over threads) is an obligation of the loop
        X.parallel_pending = True
        return ret(None)
    if name.startswith("__kmpc_for_static_fini"):
        return ret(None)
    if name == "__kmpc_global_thread_num":
        return ret(ZERO)
    if name in ("__kmpc_barrier",):
        return ret(None)
    if name in ("omp_set_num_threads",):
        return ret(None)
    if name in ("omp_get_thread_num",):
        v = fresh("tid")
        return ret(P(v))
    if name == "omp_get_wtime":
        return ret(P(fresh("time", "r")))
    raise Unsupported("OpenMP runtime call " + name)
