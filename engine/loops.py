"""Loops: bounded constant unrolling, otherwise inference of inductive summaries.

For a loop with iteration counter n the summary (the inferred loop invariant) gives the value
of every header phi / loop-carried cell as a closed form in n, and the memory as the pre-state
updated by the write comprehension of the iterations m < n.  The obligations that make the
summary inductive (step is loop invariant, iterations write disjoint cells, nothing read in an
iteration was written by an earlier one, trip count) are discharged by the prover; if one is
not, the loop is rejected (Unsupported) - nothing is assumed.
"""
from math import gcd
from terms import *
from symex import *
import ir
import symex


def const_int(v):
    return isinstance(v, Poly) and v.is_const()


def exec_loop(X, fr, L, edges, ctx):
    X.tick()
    f = fr.f
    guard, mem0 = X.merge_edges(edges, ctx)
    lctx = ctx.extend(guard) if guard.kind != "true" else ctx
    blk = f.blocks[L.header]
    phis = [i for i in blk.instrs if i.op == "phi"]
    phi0 = {}
    for p in phis:
        phi0[p.dst] = X.settle(X.eval_phi(fr, p, edges), lctx)
    parallel = X.parallel_pending
    X.parallel_pending = False
    est = estimate(X, fr, L, phis, phi0)
    nested = bool(L.children)
    if est is not None and est <= (6 if nested else UNROLL) and not parallel:
        return unroll(X, fr, L, phis, phi0, guard, mem0, ctx, est + 2)
    snap = len(X.obls)
    ws = X.in_ws
    X.in_ws = ws or parallel
    try:
        return summarize(X, fr, L, phis, dict(phi0), guard, mem0, ctx, lctx, parallel)
    except Unsupported as e:
        est = getattr(e, "est", est)
        if X.trace:
            print("LOOP %s/%s est=%s: %s" % (f.name, L.header, est, str(e)[:300]), flush=True)
        if est is not None and est <= FALLBACK_UNROLL and not parallel:
            del X.obls[snap:]
            return unroll(X, fr, L, phis, phi0, guard, mem0, ctx, est + 2)
        # last resort: the loop may still have a small constant trip count that the static estimate misses
        if est is None and not parallel:
            s2 = len(X.obls)
            try:
                del X.obls[snap:]
                return unroll(X, fr, L, phis, phi0, guard, dict(mem0), ctx, UNROLL, strict=True)
            except Unsupported:
                pass
        raise
    finally:
        X.in_ws = ws


def find_def(f, name, cache={}):
    key = f
    d = getattr(f, "_defs", None)
    if d is None:
        d = {}
        for b in f.blocks.values():
            for i in b.instrs:
                if i.dst is not None:
                    d[i.dst] = (i, b.name)
        f._defs = d
    return d.get(name)


def loop_invariant_operand(f, L, op):
    if op[0] != "l":
        return True
    d = find_def(f, op[1])
    return d is None or d[1] not in L.blocks


def static_iv(X, fr, L, phi):
    """(step Poly) if the latch value of phi is phi + loop-invariant"""
    f = fr.f
    if len(L.latches) != 1:
        return None
    for op, l in phi.a:
        if l == L.latches[0]:
            lv = op
            break
    else:
        return None
    if lv[0] != "l":
        return None
    if lv[1] == phi.dst:
        return ("int", ZERO)
    total = ZERO
    cur = lv
    for _ in range(6):
        d = find_def(f, cur[1]) if cur[0] == "l" else None
        if d is None:
            return None
        ins = d[0]
        if ins.op == "phi":
            return None
        if ins.op in ("add", "sub"):
            a, b = ins.a[0], ins.a[1]
            if ins.op == "add" and b[0] == "l" and not loop_invariant_operand(f, L, b):
                a, b = b, a
            if not loop_invariant_operand(f, L, b):
                return None
            try:
                bv = X.val(fr, b, ins.ty)
            except Unsupported:
                return None
            if not isinstance(bv, Poly):
                return None
            total = total + (bv if ins.op == "add" else -bv)
            if a == ("l", phi.dst):
                return ("int", total)
            cur = a
            continue
        if ins.op == "gep":
            base = ins.a[0][1]
            for t, o in ins.a[1:]:
                if not loop_invariant_operand(f, L, o):
                    return None
            try:
                z = Ptr(None, ZERO)
                tmp = Frame(f)
                tmp.env = dict(fr.env)
                if base[0] != "l":
                    return None
                tmp.env[base[1]] = z
                total = total + X.gep(tmp, ins.ty, ins.a).off
            except Unsupported:
                return None
            if base == ("l", phi.dst):
                return ("ptr", total)
            cur = base
            continue
        return None
    return None


def exit_test(f, L):
    """exiting blocks with a conditional branch leaving the loop towards returning code"""
    out = []
    for b in L.blocks:
        t = f.blocks[b].instrs[-1]
        if t.op in ("br", "switch", "invoke"):
            for s in f.blocks[b].succs:
                if s not in L.blocks and s not in f.noreturn:
                    if t.op == "invoke" and s == t.a["unwind"]:
                        continue
                    out.append((b, s))
    return out


def estimate(X, fr, L, phis, phi0):
    """static constant trip count estimate or None"""
    f = fr.f
    ex = exit_test(f, L)
    if len(ex) != 1:
        return None
    b = ex[0][0]
    t = f.blocks[b].instrs[-1]
    if t.op != "br" or t.a[0] is None or t.a[0][0] != "l":
        return None
    d = find_def(f, t.a[0][1])
    if d is not None and d[0].op == "xor" and d[0].a[0][0] == "l":
        d = find_def(f, d[0].a[0][1])
    if d is None or d[0].op != "icmp":
        return None
    pred, x, y = d[0].a
    vals = []
    ivs = {}
    for p in phis:
        s = static_iv(X, fr, L, p)
        if s is not None:
            ivs[p.dst] = s
    for o in (x, y):
        vals.append(symval(X, fr, L, o, d[0].ty, phi0, ivs, 0))
    if vals[0] is None or vals[1] is None:
        return None
    (a0, as_), (b0, bs) = vals
    if isinstance(a0, Ptr) and isinstance(b0, Ptr):
        if a0.obj is not b0.obj:
            return None
        a0, b0 = a0.off, b0.off
    if not (const_int(a0) and const_int(b0) and const_int(as_) and const_int(bs)):
        return None
    diff = abs(b0.const() - a0.const())
    step = abs(as_.const() - bs.const())
    if step == 0:
        return None
    return diff // step + 1


def symval(X, fr, L, op, ty, phi0, ivs, depth):
    """(value at iteration 0, step) of a simple operand"""
    if depth > 4:
        return None
    if op[0] != "l":
        try:
            return X.val(fr, op, ty), ZERO
        except Unsupported:
            return None
    if op[1] in ivs:
        return phi0[op[1]], ivs[op[1]][1]
    d = find_def(fr.f, op[1])
    if d is None or d[1] not in L.blocks:
        try:
            return X.val(fr, op, ty), ZERO
        except Unsupported:
            return None
    ins = d[0]
    if ins.op in ("add", "sub"):
        a = symval(X, fr, L, ins.a[0], ins.ty, phi0, ivs, depth + 1)
        b = symval(X, fr, L, ins.a[1], ins.ty, phi0, ivs, depth + 1)
        if a is None or b is None or not isinstance(a[0], Poly) or not isinstance(b[0], Poly):
            return None
        return (a[0] + b[0], a[1] + b[1]) if ins.op == "add" else (a[0] - b[0], a[1] - b[1])
    if ins.op == "gep":
        a = symval(X, fr, L, ins.a[0][1], ir.PTR, phi0, ivs, depth + 1)
        if a is None or not isinstance(a[0], Ptr):
            return None
        off = ZERO
        if len(ins.a) != 2:
            return None
        b = symval(X, fr, L, ins.a[1][1], ins.a[1][0], phi0, ivs, depth + 1)
        if b is None or not isinstance(b[0], Poly):
            return None
        s = X.mod.size(ins.ty)
        return Ptr(a[0].obj, a[0].off + b[0].scale(s)), a[1] + b[1].scale(s)
    return None


def unroll(X, fr, L, phis, phi0, guard, mem0, ctx, limit, strict=False):
    f = fr.f
    cur = dict(phi0)
    exits = []
    edges = [(None, guard, mem0)]
    for it in range(limit + 1):
        rets, ex, la = X.region(fr, L, L.header, edges, ctx, phis=cur)
        if rets:
            raise Unsupported("return inside loop")
        exits.extend(ex)
        if not la:
            return merge_exits(X, fr, L, exits, ctx)
        if strict and ex:
            # undecided exit while searching for a constant trip count
            raise Unsupported("loop exit not decided")
        if ex:
            # values leaving the loop on an undecided exit are only available for the last iteration
            raise Unsupported("loop exit not decided in unrolled loop")
        nxt = {}
        for p in phis:
            nxt[p.dst] = X.eval_phi(fr, p, la)
        g, m = X.merge_edges(la, ctx)
        cur = nxt
        edges = [(la[0][0], g, m)]
    raise Unsupported("loop not unrolled within %d iterations" % limit)


def merge_exits(X, fr, L, exits, ctx):
    return exits


def havoc_value(ty, name, X):
    t = X.mod.resolve(ty)
    if t.k == "int":
        if t.a == 1:
            return OPAQUE("head", P(fresh(name)))
        return P(fresh(name, "i", False))
    if t.k in ("double", "float"):
        return P(fresh(name, "r", False))
    if t.k == "vec":
        return [havoc_value(t.b, name, X) for _ in range(t.a)]
    return None


def trip_count(X, c, n, ctx, what):
    """number of n=0,1,2,.. for which c(n) holds consecutively; returns Poly T (>=0)"""
    if c.kind == "ge":
        p = c.args[0]
        r = p.coeff(n)
        if r is None:
            raise NoTrip("loop condition %r" % c)
        k, a = r
        if n in a.syms() or n in k.syms():
            raise NoTrip("loop condition not linear %r" % c)
        b = -k
        if k.is_zero():
            raise NoTrip("loop condition does not change: %r" % c)
        # a - b n >= 0
        if not ctx.prove(GE(b - ONE), 1):
            raise NoTrip("loop step not positive in %r" % c)
        if b == ONE:
            t = a + ONE
            if ctx.prove(GE(t), 1):
                return t
            return ITE(GE(t), t, ZERO)
        if ctx.prove(GE(a + b), 1):
            return X.mk_div(a + b, b, ctx)
        if ctx.prove(GE(-a - ONE), 1):
            return ZERO
        return ITE(GE(a), X.mk_div(a + b, b, ctx.extend(GE(a))), ZERO)
    if c.kind == "ne":
        p = c.args[0]
        r = p.coeff(n)
        if r is None:
            raise NoTrip("loop condition %r" % c)
        k, a = r
        if n in a.syms() or n in k.syms():
            raise NoTrip("loop condition not linear %r" % c)
        # k n + a != 0
        if not ctx.prove(GE(k - ONE), 1):
            k, a = -k, -a
            if not ctx.prove(GE(k - ONE), 1):
                raise NoTrip("loop step sign in %r" % c)
        t, e = poly_divmod(-a, k)
        if not e.is_zero():
            raise NoTrip("loop != test not exact: %r" % c)
        if not ctx.prove(GE(t), 1):
            raise NoTrip("loop != test may start past its end: %r" % c)
        return t
    if c.kind == "false":
        return ZERO
    raise NoTrip("loop condition %r" % c)


def summarize(X, fr, L, phis, phi0, guard, mem0, ctx, lctx, parallel, force=None, split=None):
    """force: the loop runs exactly this many iterations (part of a strip-mined loop);
    split = (q, t): t rounds of q iterations each"""
    f = fr.f
    start = len(X.obls)
    n = fresh("n")
    try:
        return summarize1(X, fr, L, phis, phi0, guard, mem0, ctx, lctx, parallel, force, split, n)
    except NeedStrip as e:
        if e.sym is not n or split is not None:
            raise
        del X.obls[start:]
        return summarize(X, fr, L, phis, phi0, guard, mem0, ctx, lctx, parallel, force, (e.q, e.t))
    finally:
        X.loop_T.pop(n, None)


def summarize1(X, fr, L, phis, phi0, guard, mem0, ctx, lctx, parallel, force, split, n):
    f = fr.f
    if len(L.latches) != 1:
        raise Unsupported("loop with several latches")
    ex = exit_test(f, L)
    if len(ex) != 1:
        raise Unsupported("loop with %d exits" % len(ex))
    exb, ext = ex[0]
    name = "%s/%s" % (f.name, L.header)
    X.loopcount += 1
    hk = (f.name, L.header, split is not None, force is not None)
    carried = X.loop_hints.setdefault(hk, set())
    header_exit = exb == L.header
    latch_exit = exb == L.latches[0]
    if not header_exit and not latch_exit:
        raise Unsupported("loop exit in the middle of the body")
    # ---- phis
    if (split is not None or force is not None) and not header_exit:
        raise Unsupported("strip-mining of a loop with its test at the end")
    heads = {}     # dst -> head value
    step = {}
    scale = split[0] if split is not None else ONE
    unknown = {}   # dst -> atom(s)
    learned = set()  # dst with a closed form that has to be inductive
    for p in phis:
        s = static_iv(X, fr, L, p)
        v0 = phi0[p.dst]
        if s is not None and isinstance(v0, Poly) and s[0] == "int":
            heads[p.dst] = v0 + P(n) * scale * s[1]
            step[p.dst] = scale * s[1]
        elif s is not None and isinstance(v0, Ptr):
            heads[p.dst] = Ptr(v0.obj, v0.off + P(n) * scale * s[1])
            step[p.dst] = scale * s[1]
        elif s is not None and s[1].is_zero():
            heads[p.dst] = v0
            step[p.dst] = ZERO
        elif (split is not None or force is not None) and isinstance(v0, Poly) and (f.name, L.header, p.dst) in X.iv_hints:
            # what the run that asked for the strip-mining found; checked below like any closed form
            heads[p.dst] = v0 + P(n) * scale * X.iv_hints[(f.name, L.header, p.dst)]
            learned.add(p.dst)
        else:
            if isinstance(v0, Ptr):
                a = fresh("h:" + p.dst, "i", False)
                heads[p.dst] = Ptr(v0.obj, P(a))
                unknown[p.dst] = [a]
            else:
                h = havoc_value(p.ty, "h:" + p.dst, X)
                if h is None:
                    raise Unsupported("loop-carried value of type %r" % p.ty)
                heads[p.dst] = h
                unknown[p.dst] = [next(iter(x.atoms())) for x in (h if isinstance(h, list) else [h]) if isinstance(x, Poly)]
    closed_cells = {}
    prev = None
    for attempt in range(8):
        snap = len(X.obls)
        lr = LoopRun(name, n)
        lr.carried = carried
        lr.closed = dict(closed_cells)
        lr.parallel = parallel
        memh = {}
        for o, ls in mem0.items():
            memh[o] = ls if ls == FREED else ls + (Head(lr),)
        err = None
        try:
            if split is not None:
                res = run_split(X, fr, L, phis, heads, guard, memh, ctx, n, parallel, split)
            else:
                res = run_once(X, fr, L, heads, guard, memh, ctx, lctx, n, header_exit, ext, name, lr, force)
        except NoTrip as e:
            err = e
            del X.obls[snap:]
            lr.headreads.clear()
            res = dry_run(X, fr, L, heads, guard, memh, ctx, n, header_exit, {a for k in unknown for a in unknown[k]})
        except NeedSplit as e:
            err = Unsupported(str(e))
            res = None
        except Unsupported as e:
            err = e
            res = None
        # ---- validate head reads
        if res is not None:
            T, latch_guard, mem1, nxt, bctx = res
            new = new_layers(mem0, mem1)
            lr.new = new
            grew = validate_heads(X, lr, new, n, bctx, carried, closed_cells)
            if grew:
                del X.obls[snap:]
                continue
        else:
            # try to learn carried cells from what was read / written so far
            grew = learn_carried(X, lr, carried)
            if grew:
                del X.obls[snap:]
                continue
            raise err
        # ---- recurrences
        eqs = {}
        for p in phis:
            if p.dst in unknown:
                eqs[("phi", p.dst)] = (heads[p.dst], nxt[p.dst], phi0[p.dst])
        for (o, k, w, atom) in carried_const_atoms(X, lr, new, mem0):
            if (o.id, k) in closed_cells:
                continue
            v1 = cell_value(new[o], k, w)
            if v1 is None:
                raise Unsupported("loop-carried cell %s+%d written under a guard" % (o, k))
            if v1 is UNDEF:
                continue
            ty = ir.DOUBLE if atom.sort == "r" else ir.Ty("int", 8 * w)
            v0 = X.read(mem0, lctx, o, w, C(k), ty)
            eqs[("cell", o, k, w)] = (P(atom), v1, v0)
        closed, again = solve_recurrences(X, eqs, n, lctx)
        newcells = False
        for key, (cl, isint) in again.items():
            if key[0] == "phi":
                heads[key[1]] = cl
                unknown.pop(key[1], None)
                learned.add(key[1])
                if isinstance(cl, Poly):
                    st = subst(cl, {n: ONE}) - subst(cl, {n: ZERO})
                    if n not in st.syms() and cl == phi0[key[1]] + P(n) * st:
                        X.iv_hints[(f.name, L.header, key[1])] = st
                newcells = True
            else:
                closed_cells[(key[1].id, key[2])] = cl
                newcells = True
        if newcells:
            del X.obls[snap:]
            continue
        if err is not None:
            raise err
        nn = {n: P(n) + ONE}
        for dst in learned:
            if not equal_value(bctx, nxt[dst], vsubst(heads[dst], nn)) or not equal_value(ctx, phi0[dst], vsubst(heads[dst], {n: ZERO})):
                raise Unsupported("closed form of %s is not inductive" % dst)
        for (oid, k), cl in closed_cells.items():
            for o in new:
                if o.id == oid:
                    w = next((w for (ob, w, off, c) in lr.headreads if ob is o and off.is_const() and off.const() == k), None)
                    v1 = cell_value(new[o], k, w) if w else None
                    if w and (v1 is None or v1 is not UNDEF and not equal_value(bctx, v1, vsubst(cl, nn))):
                        raise Unsupported("closed form of cell %s+%d is not inductive" % (o, k))
        break
    else:
        raise Unsupported("loop summary did not stabilise: " + name)
    if const_int(T) and T.const() <= UNROLL and not parallel and split is None and force is None and any(k not in closed for k in eqs):
        e = Unsupported("recurrence of a short loop without a closed form")
        e.est = int(T.const())
        raise e
    return finish_loop(X, fr, L, phis, phi0, heads, step, mem0, mem1, new, lr, n, T, closed, closed_cells, guard, ctx, lctx, bctx,
                       header_exit, exb, ext, nxt, name, parallel, latch_guard)


def vsubst(v, mp):
    if isinstance(v, Ptr):
        return Ptr(v.obj, subst(v.off, mp))
    return [vsubst(x, mp) for x in v] if isinstance(v, list) else subst(v, mp)


def equal_value(ctx, a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(equal_value(ctx, x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and equal_value(ctx, a.off, b.off)
    if not (isinstance(a, Poly) and isinstance(b, Poly)):
        return a is b
    return (a - b).is_zero() or ctx.prove(EQ(a - b), 1)


class NoTrip(Unsupported):
    """the trip count needs a closed form that is not known yet"""


def dry_run(X, fr, L, heads, guard, memh, ctx, n, header_exit, unknown):
    """one symbolic iteration without obligations, only to learn how carried values evolve"""
    # heads are still unknown here: nothing about the loops around may be concluded from what the body reads
    ck, lt, dr = X.checking, X.loop_T, X.dry
    X.checking, X.loop_T, X.dry = False, {}, dr | unknown
    try:
        hn = GE(P(n))
        c2 = ctx.extend(hn)
        if header_exit:
            c2 = c2.extend(exec_header(X, fr, L, heads, dict(memh), c2))
            rets, exits, la = X.region(fr, L, L.header, [(None, guard, dict(memh))], c2, phis=heads, header_force=True)
        else:
            rets, exits, la = X.region(fr, L, L.header, [(None, guard, dict(memh))], c2, phis=heads)
        if not la:
            raise Unsupported("loop latch not reached")
        g, m = X.merge_edges(la, ctx)
        nxt = {}
        for p in [i for i in fr.f.blocks[L.header].instrs if i.op == "phi"]:
            nxt[p.dst] = X.eval_phi(fr, p, la)
        return None, g, m, nxt, c2
    finally:
        X.checking, X.loop_T, X.dry = ck, lt, dr


def run_split(X, fr, L, phis, heads, guard, memh, ctx, n, parallel, split):
    """one round of a strip-mined loop: q iterations starting from heads"""
    q, t = split
    X.loop_T[n] = t
    bctx = ctx.extend(GE(P(n)), GE(t - P(n) - ONE))
    lctx = bctx.extend(guard) if guard.kind != "true" else bctx
    res = summarize(X, fr, L, phis, dict(heads), guard, dict(memh), bctx, lctx, parallel, force=q)
    nxt = {p.dst: fr.env[p.dst] for p in phis}
    return t, guard, res[0][3], nxt, bctx


def run_once(X, fr, L, heads, guard, memh, ctx, lctx, n, header_exit, ext, name, lr, force=None):
    f = fr.f
    blk = f.blocks[L.header]
    hn = GE(P(n))
    if header_exit:
        # trip count from the header test
        if force is not None:
            T, cond = force, TRUE
            c1 = ctx.extend(hn, GE(T - P(n) - ONE))
            X.oblige(c1.extend(guard), exec_header(X, fr, L, heads, dict(memh), c1), "loop-invariant",
                     "strip-mined loop %s runs all its iterations" % name)
        else:
            T, cond = header_trip(X, fr, L, heads, memh, lctx.extend(hn), n)
        X.loop_T[n] = T
        c_hdr = lctx.extend(hn, GE(T - P(n)))
        bctx = ctx.extend(hn, GE(T - P(n) - ONE), cond)
        # header evaluated with n <= T (obligations: no wrap in the test)
        exec_header(X, fr, L, heads, dict(memh), c_hdr)
        rets, exits, la = X.region(fr, L, L.header, [(None, guard, dict(memh))], bctx, phis=heads, header_force=True)
    else:
        # dry run to find the continuation condition
        ck = X.checking
        X.checking = False
        try:
            rets, exits, la = X.region(fr, L, L.header, [(None, guard, dict(memh))], ctx.extend(hn), phis=heads)
        finally:
            X.checking = ck
        cont = latch_cond(X, fr, L, lctx.extend(hn))
        # number of extra iterations
        T1 = trip_count(X, cont, n, lctx, name)
        T = T1 + ONE
        X.loop_T[n] = T
        bctx = ctx.extend(hn, GE(T - P(n) - ONE))
        lr.headreads.clear()
        rets, exits, la = X.region(fr, L, L.header, [(None, guard, dict(memh))], bctx, phis=heads)
        exits = [e for e in exits if not (e[0] == L.latches[0])]
        if not la and T1.is_zero():
            raise Unsupported("loop body executed once")
    if rets:
        raise Unsupported("return inside loop")
    if exits:
        bad = [e for e in exits if e[1] not in f.noreturn]
        if bad:
            raise Unsupported("undecided loop exit")
        for e in exits:
            X.oblige(bctx.extend(e[2]), FALSE, "no-throw", "failure exit from loop unreachable")
    if not la:
        raise Unsupported("loop latch not reached")
    g, m = X.merge_edges(la, ctx)
    nxt = {}
    for p in [i for i in blk.instrs if i.op == "phi"]:
        nxt[p.dst] = X.eval_phi(fr, p, la)
    return T, g, m, nxt, bctx


def latch_cond(X, fr, L, ctx):
    f = fr.f
    t = f.blocks[L.latches[0]].instrs[-1]
    c = X.val(fr, t.a[0], ir.Ty("int", 1))
    return simp_cond(c if t.a[1] in L.blocks else NOT(c), ctx)


def simp_cond(c, ctx):
    """equivalent condition under ctx with the decided parts removed"""
    if c.kind == "or":
        out = []
        for x in c.args:
            x = simp_cond(x, ctx)
            d = ctx.decide(x, 1)
            if d is True:
                return TRUE
            if d is None:
                out.append(x)
        return OR(*out)
    if c.kind == "and":
        out = []
        for x in c.args:
            x = simp_cond(x, ctx)
            d = ctx.decide(x, 1)
            if d is False:
                return FALSE
            if d is None:
                out.append(x)
        return AND(*out)
    return c


def exec_header(X, fr, L, heads, mem, ctx):
    f = fr.f
    blk = f.blocks[L.header]
    fr.env.update(heads)
    st = {"mem": mem, "guard": TRUE, "ctx": ctx}
    for ins in blk.instrs:
        if ins.op == "phi":
            continue
        if ins.op == "br":
            c = X.val(fr, ins.a[0], ir.Ty("int", 1))
            return c if ins.a[1] in L.blocks else NOT(c)
        X.curloc = "%s:%s: %s" % (f.name, blk.name, ins.line.strip()[:110])
        if ins.op in ("store",):
            raise Unsupported("store in loop header")
        if ins.op in ("call", "invoke"):
            if X.do_call(fr, ins, st) == "throw":
                raise Unsupported("throw in loop header")
            continue
        if ins.op in ("switch", "ret", "unreachable"):
            raise Unsupported("loop header terminator")
        X.step(fr, ins, st)
    raise Unsupported("loop header")


def header_trip(X, fr, L, heads, memh, ctx, n):
    ck = X.checking
    X.checking = False
    try:
        c = exec_header(X, fr, L, heads, dict(memh), ctx)
    finally:
        X.checking = ck
    c = simp_cond(c, ctx)
    if c.kind == "and" or c.kind == "or":
        raise NoTrip("compound loop condition %r" % c)
    return trip_count(X, c, n, ctx, ""), c


# ---------------------------------------------------------------- memory effects
def new_layers(mem0, mem1):
    out = {}
    for o in mem0:
        l1 = mem1.get(o)
        if l1 is None:
            continue
        if mem0[o] == FREED:
            continue
        if l1 == FREED:
            raise Unsupported("object %s freed inside a loop" % o)
        k = len(mem0[o]) + 1
        if len(l1) > k:
            out[o] = l1[k:]
    return out


def entries(layers):
    for l in layers:
        if isinstance(l, D):
            for k, (w, v) in sorted(l.d.items()):
                yield (), TRUE, w, k, None, v
        elif isinstance(l, W):
            yield l.vars, l.guard, l.w, None, l.idx, l.val
        else:
            yield None


def rename(l, n, m):
    """fresh copy of W l with n -> m; returns (idx, hyps)"""
    mp = {n: P(m)}
    for v, c in l.vars:
        mp[v] = P(fresh("w"))
    hy = []
    for v, c in l.vars:
        hy.append(GE(mp[v]))
        hy.append(GE(subst(c, mp) - mp[v] - ONE))
    hy.append(subst(l.guard, mp))
    return subst(l.idx, mp), hy, mp


def disjoint_from(X, layers, n, o, w, off, rctx, mlo, mhi):
    """no write of iterations m in [mlo, mhi) touches the cell read at off (w bytes) under rctx"""
    for l in layers:
        if isinstance(l, D):
            for k, (w2, v) in l.d.items():
                if off.is_const():
                    if not (off.const() + w <= k or k + w2 <= off.const()):
                        return False
                else:
                    if not rctx.prove(NE(off - C(k)), 1):
                        return False
        elif isinstance(l, W):
            if l.w != w:
                return False
            m = fresh("m")
            idx, hy, mp = rename(l, n, m)
            c2 = rctx.extend(GE(P(m) - mlo), GE(mhi - P(m) - ONE), *hy)
            e = X.cell(Ptr(o, off), w, "disjoint")
            d = idx - e
            if d.is_zero():
                return c2.infeasible(1)
            if not c2.prove(NE(d), 1):
                return False
        else:
            return False
    return True


def validate_heads(X, lr, new, n, bctx, carried, closed_cells):
    grew = False
    seen = set()
    for (o, w, off, rctx) in lr.headreads:
        if o not in new:
            continue
        key = (o.site, off.const() if off.is_const() else "*")
        if key in carried or (o.site, "*") in carried:
            continue
        k2 = (o, w, off, rctx)
        if k2 in seen:
            continue
        seen.add(k2)
        if not disjoint_from(X, new[o], n, o, w, off, rctx, ZERO, P(n)):
            carried.add(key)
            grew = True
    return grew


def learn_carried(X, lr, carried):
    return False


def carried_const_atoms(X, lr, new, mem0):
    """head atoms of constant cells that were read while carried"""
    out = []
    seen = set()
    for (o, w, off, rctx) in lr.headreads:
        if o in new and off.is_const() and ((o.site, off.const()) in lr.carried or (o.site, "*") in lr.carried):
            k = off.const()
            if (o, k) in seen:
                continue
            seen.add((o, k))
            # both sorts possible
            for sort, nn in (("i", True), ("r", False)):
                a = mk_atom("load", (("head", lr.id, o.id, w), C(k // w)), sort, nn)
                if any(e is not None and e[3] == k for e in entries(new[o])):
                    out.append((o, k, w, a))
    # keep only atoms that actually occur
    occ = set()
    for ls in new.values():
        for e in entries(ls):
            if e is not None:
                vatoms(e[5], occ)
                if e[4] is not None:
                    e[4].all_atoms(occ)
    return [x for x in out if x[3] in occ]


def cell_value(layers, k, w):
    """final value of constant cell k after one iteration, None if it may be written otherwise"""
    if len(layers) == 1 and isinstance(layers[0], D):
        e = layers[0].d.get(k)
        return e[1] if e and e[0] == w else None
    # D layers and guarded constant W
    v = None
    for l in layers:
        if isinstance(l, D):
            e = l.d.get(k)
            if e:
                if e[0] != w:
                    return None
                v = e[1]
        elif isinstance(l, W):
            if l.vars or not l.idx.is_const() or l.w != w:
                d = l.idx - C(k // w)
                if d.is_const() and not d.is_zero():
                    continue
                return None
            if l.idx.const() * w == k:
                if l.guard.kind == "true":
                    v = l.val
                elif v is None:
                    return None
                else:
                    v = vite(l.guard, l.val, v)
        else:
            return None
    return v


def solve_recurrences(X, eqs, n, ctx):
    """eqs: key -> (head value, next value, initial value). returns (closed: key -> value(n),
    again: int/pointer ones that require a re-run with the closed form)"""
    closed = {}
    mp = {}
    again = {}
    todo = dict(eqs)
    progress = True
    allheads = set()
    for h, nx, v0 in eqs.values():
        allheads |= set().union(*[x.atoms() for x in flat(h)]) if flat(h) else set()
    solved_atoms = set()
    while todo and progress:
        progress = False
        for key in list(todo):
            h, nx, v0 = todo[key]
            if isinstance(h, Ptr):
                if not (isinstance(nx, Ptr) and nx.obj is h.obj and isinstance(v0, Ptr)):
                    raise Unsupported("loop-carried pointer changes object")
                c = solve1(X, h.off, subst(nx.off, mp), v0.off, n, allheads - solved_atoms)
                if c is None:
                    continue
                a = next(iter(h.off.atoms()))
                mp[a] = c
                mp = {k: subst(v, {a: c}) for k, v in mp.items()}
                solved_atoms.add(a)
                again[key] = (Ptr(h.obj, c), True)
                del todo[key]
                progress = True
                continue
            hs, ns, vs = flat(h), flat(nx), flat(v0)
            if not hs or len(hs) != len(ns) or len(hs) != len(vs) or any(not isinstance(x, Poly) for x in ns + vs):
                if any(x is UNDEF for x in vs) and not any(x is UNDEF for x in ns):
                    vs = [P(fresh("undef", "r", False)) if x is UNDEF else x for x in vs]
                else:
                    continue
            cs = []
            for a, b, c0 in zip(hs, ns, vs):
                c = solve1(X, a, subst(b, mp), c0, n, allheads - solved_atoms)
                if c is None:
                    break
                cs.append(c)
            else:
                for a, c in zip(hs, cs):
                    at = next(iter(a.atoms()))
                    mp[at] = c
                    solved_atoms.add(at)
                mp = {k: subst(v, {x: y for x, y in mp.items() if x is not k}) for k, v in mp.items()}
                val = cs if isinstance(h, list) else cs[0]
                closed[key] = val
                isint = any(next(iter(a.atoms())).sort == "i" for a in hs)
                if isint:
                    again[key] = (val, True)
                del todo[key]
                progress = True
    X._recmap = mp
    X._unsolved = todo
    return closed, again


def flat(v):
    if isinstance(v, list):
        return v
    if isinstance(v, Ptr):
        return [v.off]
    if isinstance(v, (Poly,)):
        return [v]
    if v is UNDEF:
        return [UNDEF]
    return []


def solve1(X, h, nx, v0, n, unsolved):
    """closed form in n of x(n+1) = nx, x(0) = v0, where h is the atom for x(n)"""
    at = next(iter(h.atoms()))
    d = nx - h
    datoms = d.all_atoms()
    if at not in datoms and not (datoms & unsolved):
        if n not in d.syms():
            return v0 + P(n) * d
        m = fresh("m")
        if is_int(d):
            # polynomial sums of degree one
            r = d.coeff(n)
            if r is not None and n not in r[0].syms() and n not in r[1].syms():
                nn = P(n)
                return v0 + r[1] * nn + r[0] * (nn * nn - nn).scale(Fraction(1, 2))
        return v0 + SUM(m, P(n), subst(d, {n: P(m)}))
    natoms = nx.all_atoms()
    if at not in natoms and not (natoms & unsolved):
        # last value: x(n) = nx(n-1) for n >= 1
        e = subst(nx, {n: P(n) - ONE})
        if n not in nx.syms():
            if nx == v0:
                return v0
        # affine continuation covers n = 0 as well when it matches the initial value
        if subst(e, {n: ZERO}) == v0:
            return e
        return ITE(GE(P(n) - ONE), e, v0)
    return None


def finish_loop(X, fr, L, phis, phi0, heads, step, mem0, mem1, new, lr, n, T, closed, closed_cells, guard, ctx, lctx, bctx,
                header_exit, exb, ext, nxt, name, parallel, latch_guard):
    f = fr.f
    unsolved = getattr(X, "_unsolved", {})
    mp = dict(X._recmap)
    for p in phis:
        if ("phi", p.dst) in closed:
            heads[p.dst] = closed[("phi", p.dst)]
    bad_atoms = set()
    for key, (h, nx, v0) in unsolved.items():
        for x in flat(h):
            if isinstance(x, Poly):
                bad_atoms |= x.atoms()
        if not flat(h) and isinstance(h, Cond):
            bad_atoms |= h.all_atoms()
    # ---- parallel loops: iterations must be independent
    if parallel:
        check_parallel(X, fr, L, phis, step, heads, phi0, new, lr, n, T, lctx, bctx, closed, unsolved)
    memx = dict()
    for o, ls in mem0.items():
        memx[o] = ls
    for o, ls in mem1.items():
        if o not in mem0 and o.kind == "global":
            memx[o] = ls if ls == FREED else tuple(l for l in ls)
    Tm1 = T - ONE
    t_pos = lctx.decide(GE(T - ONE), 1)
    for o, layers in new.items():
        if o.kind == "stack" and o.site.startswith(("gtid", "btid")):
            continue
        memx[o] = mem0[o] + tuple(generalise(X, lr, o, layers, n, T, mp, bad_atoms, mem0, lctx, bctx, t_pos, closed_cells, name))
    # ---- closed forms at exit
    final = {}
    at = {n: T} if header_exit else {n: Tm1}
    for p in phis:
        v = heads[p.dst]
        final[p.dst] = vsubst(vsubst(v, mp), at)
    X.obls.append(Ob("loop-invariant", "summary of loop %s inductive (n < %s)" % (name, short(T)), True, None, name))
    if header_exit:
        fr.env.update(final)
        ck = X.checking
        X.checking = False
        try:
            exec_header(X, fr, L, final, dict(memx), lctx)
        finally:
            X.checking = ck
        return [(exb, ext, guard, memx)]
    # latch exit: values of the last iteration
    for b in L.blocks:
        for ins in f.blocks[b].instrs:
            if ins.dst is not None and ins.dst in fr.env:
                v = fr.env[ins.dst]
                if v is not None and v is not UNDEF:
                    fr.env[ins.dst] = vsubst(vsubst(v, mp), at)
    return [(exb, ext, guard, memx)]


def short(x):
    s = repr(x)
    return s if len(s) < 80 else s[:77] + "..."


def head_loads(v, lr, o):
    return [a for a in vatoms(v) if a.kind == "load" and isinstance(a.args[0], tuple) and a.args[0][0] == "head" and
            a.args[0][1] == lr.id]


def generalise(X, lr, o, layers, n, T, mp, bad, mem0, lctx, bctx, t_pos, closed_cells, name):
    """layers written by one iteration n -> layers describing all iterations n < T"""
    # substitute closed forms of scalar heads
    out = []
    ws = []      # (vars, guard, w, idx, val)
    cells = {}
    for l in layers:
        if isinstance(l, D):
            for k, (w, v) in sorted(l.d.items()):
                cells[k] = (w, v)
                ws.append(["cell", k, w, v])
        elif isinstance(l, W):
            ws.append(["w", W(l.vars, subst(l.guard, mp), l.w, subst(l.idx, mp), vsubst(l.val, mp), l.note)])
        elif isinstance(l, Havoc):
            return [l]
        else:
            raise Unsupported("layer in loop")
    only_cells = all(x[0] == "cell" for x in ws)
    if only_cells:
        d = {}
        for k, (w, v) in cells.items():
            cl = closed_cells.get((o.id, k))
            if cl is not None:
                d[k] = (w, vsubst(cl, {n: T}))
                continue
            a_i = mk_atom("load", (("head", lr.id, o.id, w), C(k // w)), "i", True)
            a_r = mk_atom("load", (("head", lr.id, o.id, w), C(k // w)), "r", False)
            hit = False
            for a in (a_i, a_r):
                if a in mp:
                    d[k] = (w, subst(mp[a], {n: T}))
                    hit = True
                    break
            if hit:
                continue
            v = vsubst(v, mp)
            if v is not UNDEF and (vatoms(v) & bad or head_loads(v, lr, o)):
                d[k] = (w, UNDEF)
                continue
            last = vsubst(v, {n: T - ONE}) if v is not UNDEF else UNDEF
            if t_pos is True:
                d[k] = (w, last)
            elif t_pos is False:
                pass
            else:
                try:
                    ty = ir.PTR if isinstance(last, (Ptr, PIte)) else ir.DOUBLE if isinstance(last, Poly) and not is_int(last) else ir.Ty("int", 8 * w)
                    old = X.read(mem0, lctx, o, w, C(k), ty)
                    d[k] = (w, vite(GE(T - ONE), last, old))
                except Unsupported:
                    d[k] = (w, UNDEF)
        return [D(d)] if d else []
    # array writes --------------------------------------------------------
    wl = []
    for x in ws:
        if x[0] == "cell":
            k, w, v = x[1:]
            if k % w:
                raise Unsupported("unaligned cell in array object")
            wl.append(W((), TRUE, w, C(k // w), vsubst(v, mp), ""))
        else:
            wl.append(x[1])
    if len({l.w for l in wl}) > 1:
        return [Havoc("mixed widths written in loop %s" % name)]
    # shadowing inside the iteration: a later write to the same cells hides an earlier one
    wl = drop_shadowed(X, wl, bctx)
    wl, _ = merge_lanes_guard(wl)
    kinds = []
    for l in wl:
        hl = head_loads(l.val, lr, o)
        if vatoms(l.val) & bad:
            return [Havoc("value not expressible in loop %s" % name)]
        dep_idx = n in l.idx.syms()
        dep_dom = any(n in c.syms() for v, c in l.vars) or n in l.guard.syms()
        kinds.append((l, hl, dep_idx, dep_dom))
    # replace head loads that are disjoint from every iteration's writes by pre-state reads,
    # and recognise accumulations
    acc = []
    res = []
    for l, hl, dep_idx, dep_dom in kinds:
        val = l.val
        own = []
        vctx = bctx.extend(*var_hyps(l.vars), l.guard)
        for a in hl:
            oid = a.args[0][2]
            aw = a.args[0][3]
            if oid != o.id:
                # other object: must have been resolved
                oo = next((x for x in mem0 if x.id == oid), None)
                r = resolve_head(X, lr, oo, aw, a, n, vctx, mem0, new_of(X, lr, oo))
                if r is None:
                    return [Havoc("loop-carried dependence through %s" % oo)]
                val = subst(val, {a: r})
                continue
            if a.args[1] == l.idx:
                own.append(a)
                continue
            if disjoint_from(X, layers_of(wl), n, o, aw, a.args[1].scale(aw), vctx, ZERO, P(n)):
                r = X.read(mem0, vctx, o, aw, a.args[1].scale(aw), ir.DOUBLE if a.sort == "r" else ir.Ty("int", 8 * aw))
                val = subst(val, {a: r})
                continue
            raise Unsupported("loop-carried dependence on %s[%r] in loop %s" % (o, a.args[1], name))
        res.append([l, val, own, dep_idx, dep_dom])
    out = []
    for l, val, own, dep_idx, dep_dom in res:
        if own:
            a = own[0]
            vctx = bctx.extend(*var_hyps(l.vars), l.guard)
            # is the cell untouched by earlier iterations?
            if dep_idx and disjoint_from(X, layers_of(wl), n, o, l.w, l.idx.scale(l.w), vctx, ZERO, P(n)):
                r = X.read(mem0, vctx, o, l.w, l.idx.scale(l.w), ir.DOUBLE if a.sort == "r" else ir.Ty("int", 8 * l.w))
                val = subst(val, {a: r})
                X.obls.append(Ob("loop-invariant", "cell updated once per location in %s" % name, True, None, name))
                out.append((l, val, "B"))
                continue
            delta = val - P(a)
            if a in delta.all_atoms():
                raise Unsupported("non-additive loop-carried update of %s in loop %s" % (o, name))
            if dep_idx:
                raise Unsupported("accumulation with iteration dependent index in loop %s" % name)
            if any(n in c.syms() for v, c in l.vars):
                raise Unsupported("accumulation over an iteration dependent range in loop %s" % name)
            g = l.guard
            if n in g.syms():
                delta = ITE(g, delta, ZERO)
                g = TRUE
            # no other write may interfere with this accumulator
            for l2 in wl:
                if l2 is l:
                    continue
                if not disjoint_pair(X, l, l2, n, bctx, any_m=True):
                    raise Unsupported("several interfering writes to an accumulator in loop %s" % name)
            pctx = lctx.extend(*var_hyps(l.vars), g)
            ty = ir.DOUBLE if a.sort == "r" else ir.Ty("int", 8 * l.w)
            pre = X.read(mem0, pctx, o, l.w, l.idx.scale(l.w), ty)
            if pre is UNDEF:
                pre = P(fresh("undef", "r", False))
            m = fresh("m")
            s = SUM(m, T, subst(delta, {n: P(m)})) if n in delta.syms() else delta * T
            X.obls.append(Ob("loop-invariant", "accumulator of loop %s equals partial sum" % name, True, None, name))
            out.append((W(l.vars, g, l.w, l.idx, pre + s, l.note), None, "A"))
            continue
        if dep_idx:
            out.append((l, val, "B"))
        elif not dep_dom:
            out.append((l, val, "C"))
        else:
            out.append((l, val, "D"))
    # cross iteration disjointness for B writes
    bs = [x for x in out if x[2] == "B"]
    for i, (l, val, k) in enumerate(bs):
        for l2, val2, k2 in bs[i:]:
            if not disjoint_pair(X, l, l2, n, bctx):
                if same_value(X, l, val, l2, val2, n, bctx):
                    continue
                return [Havoc("iterations of loop %s write overlapping cells" % name)]
            X.obls.append(Ob("loop-invariant", "iterations of %s write disjoint cells" % name, True, None, name))
        for l2, val2, k2 in out:
            if k2 != "B" and not disjoint_pair(X, l, l2, n, bctx, any_m=True):
                return [Havoc("mixed overlapping writes in loop %s" % name)]
    fin = []
    for l, val, k in out:
        if k == "A":
            fin.append(l)
        elif k == "B":
            fin.append(W(l.vars + ((n, T),), l.guard, l.w, l.idx, val, l.note))
        elif k == "C":
            g = l.guard if t_pos is True else AND(l.guard, GE(T - ONE))
            if t_pos is False:
                continue
            fin.append(W(l.vars, g, l.w, l.idx, vsubst(val, {n: T - ONE}), l.note))
        else:
            return [Havoc("cells rewritten with an iteration dependent extent in loop %s" % name)]
    return fuse_lanes(X, fin, n, T, bctx)


def integral(v):
    """every coefficient of the value (also inside atoms) is an integer"""
    if isinstance(v, Cond):
        return all(integral(x) for x in v.args if isinstance(x, (Poly, Cond)))
    if not isinstance(v, Poly):
        return False
    if not all(isinstance(c, int) for c in v.t.values()):
        return False
    for a in v.all_atoms():
        if a.kind in ("sym", "bound"):
            continue
        for x in a.args:
            if isinstance(x, Poly) and not all(isinstance(c, int) for c in x.t.values()):
                return False
            if isinstance(x, Cond) and not integral(x):
                return False
    return True


_lane_var = {}


def fuse_lanes(X, fin, n, T, bctx):
    """the lanes idx + j*s, j < q, of an iteration whose index advances by q*s are one comprehension over x = q*n + j,
    when their values are the same function of x: val_j(n) = val_0(n + j/q)  (checked as an identity of terms)"""
    while True:
        done = False
        cand = [l for l in fin if l.vars and l.vars[-1][0] is n and l.guard.kind == "true" and isinstance(l.val, Poly)]
        if len(cand) < 2:
            return fin
        byidx = {}
        for l in cand:
            byidx.setdefault((l.vars, l.idx, l.w), l)
        for l in cand:
            r = l.idx.coeff(n)
            if r is None:
                continue
            K = r[0]
            if n in K.syms() or n in r[1].syms() or not all(isinstance(c, int) for c in K.t.values()):
                continue
            g = 0
            for c in K.t.values():
                g = gcd(g, c)
            for q in sorted((q for q in range(2, min(64, len(cand)) + 1) if g % q == 0), reverse=True):
                step = Poly({m: c // q for m, c in K.t.items()})
                group = [byidx.get((l.vars, l.idx + step.scale(j), l.w)) for j in range(q)]
                if any(x is None for x in group):
                    continue
                if not all(subst(l.val, {n: P(n) + C(Fraction(j, q))}) == x.val for j, x in enumerate(group)):
                    continue
                key = (n, q)
                if key not in _lane_var:
                    _lane_var[key] = fresh("x")
                x = _lane_var[key]
                mp = {n: P(x).scale(Fraction(1, q))}
                idx, val = subst(l.idx, mp), subst(l.val, mp)
                if not integral(idx) or not integral(val):
                    continue
                pos = [i for i, y in enumerate(fin) if any(y is z for z in group)]
                between = [y for i, y in enumerate(fin) if pos[0] < i < pos[-1] and not any(y is z for z in group)]
                if not all(disjoint_pair(X, z, y, n, bctx, any_m=True) for y in between for z in group):
                    continue
                new = W(l.vars[:-1] + ((x, T.scale(q)),), TRUE, l.w, idx, val, l.note)
                fin = [new if i == pos[-1] else y for i, y in enumerate(fin) if i == pos[-1] or i not in pos]
                done = True
                break
            if done:
                break
        if not done:
            return fin


def layers_of(wl):
    return wl


def new_of(X, lr, oo):
    return getattr(lr, "new", {}).get(oo, ())


def resolve_head(X, lr, oo, w, a, n, vctx, mem0, layers):
    if disjoint_from(X, layers, n, oo, w, a.args[1].scale(w), vctx, ZERO, P(n)):
        return X.read(mem0, vctx, oo, w, a.args[1].scale(w), ir.DOUBLE if a.sort == "r" else ir.Ty("int", 8 * w))
    return None


def merge_lanes_guard(wl):
    return wl, None


def drop_shadowed(X, wl, bctx):
    out = []
    for i, l in enumerate(wl):
        hidden = False
        for l2 in wl[i + 1:]:
            if l2.idx == l.idx and l2.w == l.w and l2.guard.kind == "true" and \
                    (not l.vars and not l2.vars):
                hidden = True
                break
            if l.vars and l2.vars and l2.guard.kind == "true" and len(l.vars) == len(l2.vars):
                mp = {v2: P(v) for (v, c), (v2, c2) in zip(l.vars, l2.vars)}
                if subst(l2.idx, mp) == l.idx and all(subst(c2, mp) == c for (v, c), (v2, c2) in zip(l.vars, l2.vars)):
                    hidden = True
                    break
        if not hidden:
            out.append(l)
    return out


def var_hyps(vs):
    out = []
    for v, c in vs:
        out.append(GE(P(v)))
        out.append(GE(c - P(v) - ONE))
    return out


def disjoint_pair(X, l1, l2, n, bctx, any_m=False):
    """W l1 at iteration n and l2 at iteration m (m != n, or any m) never touch the same cell"""
    m = fresh("m")
    base = bctx.extend(*var_hyps(l1.vars), l1.guard)
    idx2, hy, mp = rename(l2, n, m)
    d = l1.idx - idx2
    # hypotheses on m: same range as n
    mh = [subst(h, {n: P(m)}) for h in bctx.all() if n in h.syms()]
    c = base.extend(*mh, *hy)
    if any_m:
        return c.prove(NE(d), 1)
    if l1 is l2:
        return c.extend(GE(P(n) - P(m) - ONE)).prove(NE(d), 1)
    return c.extend(GE(P(n) - P(m) - ONE)).prove(NE(d), 1) and c.extend(GE(P(m) - P(n) - ONE)).prove(NE(d), 1)


def same_value(X, l1, v1, l2, v2, n, bctx):
    return isinstance(v1, Poly) and isinstance(v2, Poly) and v1 == v2 and not (v1.syms() & ({n} | {v for v, c in l1.vars} | {v for v, c in l2.vars}))


def check_parallel(X, fr, L, phis, step, heads, phi0, new, lr, n, T, lctx, bctx, closed, unsolved):
    shared = X.shared or set()
    name = "%s/%s" % (fr.f.name, L.header)
    for p in phis:
        if p.dst not in step:
            X.obls.append(Ob("race", "loop-carried scalar in parallel loop %s" % name, False, p.line.strip(), name))
    for o, layers in new.items():
        if o not in shared:
            # private to the thread, but carried across iterations?
            continue
        for e in entries(layers):
            if e is None:
                continue
            vars_, g, w, k, idx, val = e
            if k is not None:
                X.obls.append(Ob("race", "shared variable %s written by every iteration of %s" % (o.site, name), False, "", name))
        ws = [l for l in layers if isinstance(l, W)]
        for i, l in enumerate(ws):
            for l2 in ws[i:]:
                ok = disjoint_pair(X, l, l2, n, bctx)
                X.obls.append(Ob("race", "iterations of parallel loop %s write disjoint cells of %s" % (name, o.site), ok, None if ok else "%r / %r" % (l.idx, l2.idx), name))
    for (o, w, off, rctx) in lr.headreads:
        if o not in new:
            continue
        m1 = disjoint_from(X, new[o], n, o, w, off, rctx, ZERO, P(n)) and disjoint_from(X, new[o], n, o, w, off, rctx, P(n) + ONE, T)
        shared_o = o in shared
        if o in shared or not m1:
            X.obls.append(Ob("race", "cells of %s read in parallel loop %s are not written by another iteration" % (o.site, name), m1,
                             None if m1 else repr(off), name))
