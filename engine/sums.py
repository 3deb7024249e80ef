"""Equality of real-valued terms with sums (modulo the index lemmas).

Lemma library used (each is an elementary identity on finite sums):
  L1 merge    sum_{u<U} sum_{v<V} F(V*u+v)            = sum_{w<U*V} F(w)
  L2 clipped  sum_{u<U} sum_{v<V(u)} F(b*u+v)         = sum_{w<b*(U-1)+V(U-1)} F(w)   if V(u)=b for u<U-1, U>=1
  L3 lanes    sum_{q<Q} (F(c*q)+...+F(c*q+c-1))       = sum_{w<c*Q} F(w)
  L4 peel     sum_{u<U} F(u) + F(U)                   = sum_{u<U+1} F(u)
  L5 split    sum_{u<U} F(u) + sum_{v<V} F(U+v)       = sum_{w<U+V} F(w)
  L7 trim     sum_{u<U} F(u)                          = sum_{u<V} F(u)       if 0 <= V <= U and F(u) = 0 for V <= u < U
  L6 swap     sum_{u<U} sum_{v<V} F(u,v)              = sum_{v<V} sum_{u<U} F(u,v)
"""
from fractions import Fraction
from terms import *


def open_sum(a):
    """(fresh var, count, body) of a sum atom"""
    v = fresh("k")
    return v, a.args[1], subst(a.args[2], {a.args[0]: P(v)})


def vctx(ctx, v, cnt):
    return ctx.extend(GE(P(v)), GE(cnt - P(v) - ONE))


def simp(X, p, ctx, depth=0):
    """simplify under ctx: decide ites, resolve divs, descend into sums, merge sums"""
    if depth > 12:
        return p
    for _ in range(4):
        mp = {}
        for a in p.atoms():
            r = simp_atom(X, a, ctx, depth)
            if r != P(a):
                mp[a] = r
        if not mp:
            break
        p = subst(p, mp)
    p = merge_lanes(X, p, ctx)
    return p


def simp_atom(X, a, ctx, depth):
    k = a.kind
    if k == "ite":
        c = simp_cond(X, a.args[0], ctx, depth)
        d = ctx.decide(c, 1)
        if d is True:
            return simp(X, a.args[1], ctx, depth + 1)
        if d is False:
            return simp(X, a.args[2], ctx, depth + 1)
        x = simp(X, a.args[1], ctx.extend(c), depth + 1)
        y = simp(X, a.args[2], ctx.extend(NOT(c)), depth + 1)
        # both branches equal where they apply?
        return ITE(c, x, y)
    if k == "div":
        return X.mk_div(simp(X, a.args[0], ctx, depth + 1), simp(X, a.args[1], ctx, depth + 1), ctx)
    if k == "load":
        return LOAD(a.args[0], simp(X, a.args[1], ctx, depth + 1), a.sort, a.nonneg)
    if k == "fun":
        return P(mk_atom("fun", tuple(simp(X, x, ctx, depth + 1) if isinstance(x, Poly) else x for x in a.args), a.sort, a.nonneg))
    if k == "sum":
        v, cnt, body = open_sum(a)
        cnt = simp(X, cnt, ctx, depth + 1)
        if cnt.is_zero() or ctx.prove(EQ(cnt), 0):
            return ZERO
        b2 = simp(X, body, vctx(ctx, v, cnt), depth + 1)
        t = trim(X, v, cnt, b2, ctx, depth)
        if t is not None:
            cnt, b2 = t
        r = SUM(v, cnt, b2)
        return merge_nested(X, r, ctx)
    return P(a)


def simp_cond(X, c, ctx, depth):
    if c.kind in ("ge", "eq", "ne") and any(a.kind in ("div", "ite") for a in c.args[0].all_atoms()):
        p = simp(X, c.args[0], ctx, depth + 1)
        return {"ge": GE, "eq": EQ, "ne": NE}[c.kind](p)
    if c.kind in ("and", "or"):
        out = []
        for x in c.args:
            x = simp_cond(X, x, ctx, depth)
            d = ctx.decide(x, 0) if x.kind in ("ge", "eq", "ne") else None
            out.append(x if d is None else TRUE if d else FALSE)
        return AND(*out) if c.kind == "and" else OR(*out)
    return c


def guards(c, out):
    if c.kind in ("and", "or"):
        for x in c.args:
            guards(x, out)
    elif c.kind == "ge":
        out.append(c.args[0])


def trim(X, v, cnt, body, ctx, depth):
    """L7: the summand vanishes from V on"""
    if depth > 8:
        return None
    cands = []
    for a in body.atoms():
        if a.kind == "ite":
            gs = []
            guards(a.args[0], gs)
            for g in gs:
                r = g.coeff(v)
                if r is not None and r[0] == C(-1) and v not in r[1].syms():
                    V = r[1] + ONE
                    if V != cnt and V not in cands:
                        cands.append(V)
    for V in cands:
        if not (ctx.prove(GE(V), 1) and ctx.prove(GE(cnt - V), 1)):
            continue
        if simp(X, body, vctx(ctx, v, cnt).extend(GE(P(v) - V)), depth + 1).is_zero():
            return V, simp(X, body, ctx.extend(GE(P(v)), GE(V - P(v) - ONE)), depth + 1)
    return None


def merge_nested(X, p, ctx):
    """apply L1/L2 to every top-level sum atom of p"""
    mp = {}
    for a in p.atoms():
        if a.kind != "sum":
            continue
        r = merge1(X, a, ctx)
        if r is not None:
            mp[a] = r
    return subst(p, mp) if mp else p


def merge1(X, a, ctx):
    u, U, body = open_sum(a)
    if len(body.t) != 1:
        return None
    (m, c), = body.t.items()
    inner = [x for x in m if x.kind == "sum"]
    if len(inner) != 1:
        return None
    others = Poly({tuple(x for x in m if x is not inner[0]): c})
    v, V, g = open_sum(inner[0])
    g = g * others
    # candidate stride: coefficient of u over coefficient of v inside index polynomials
    strides = set()
    collect_strides(g, u, v, strides)
    if u not in V.syms():
        strides.add(V)
    for b in strides:
        w = fresh("w")
        F = subst(g, {v: P(w) - b * P(u)})
        if u in F.syms():
            F = simp(X, F, ctx.extend(GE(P(u)), GE(U - P(u) - ONE), GE(P(w) - b * P(u)), GE(V - P(w) + b * P(u) - ONE)), 8)
        if u in F.syms():
            continue
        if V == b:
            return SUM(w, U * b, F)
        c1 = ctx.extend(GE(P(u)), GE(U - P(u) - C(2)))
        if not c1.prove(EQ(V - b), 1):
            continue
        if not ctx.prove(GE(U - ONE), 1):
            continue
        last = subst(V, {u: U - ONE})
        tot = b * (U - ONE) + last
        tot = simp(X, tot, ctx, 8)
        return SUM(w, tot, F)
    # L6: try swapping the two sums and merging differently is left to the caller
    return None


def collect_strides(g, u, v, out):
    for a in g.all_atoms():
        if a.kind in ("load", "fun"):
            for idx in a.args[1:]:
                if isinstance(idx, Poly) and u in idx.syms() and v in idx.syms():
                    ru, rv = idx.coeff(u), idx.coeff(v)
                    if ru is None or rv is None:
                        continue
                    cu, cv = ru[0], rv[0]
                    if cv.is_zero() or cu.is_zero():
                        continue
                    X_, E = poly_divmod(cu, cv)
                    if E.is_zero():
                        out.add(X_)


def merge_lanes(X, p, ctx):
    """L3/L4/L5 on the sum atoms of a linear combination"""
    changed = True
    rounds = 0
    while changed and rounds < 8:
        changed = False
        rounds += 1
        terms = {}
        for m, c in p.t.items():
            ss = [x for x in m if x.kind == "sum"]
            if len(ss) == 1:
                rest = tuple(x for x in m if x is not ss[0])
                terms.setdefault((rest, c), []).append(ss[0])
        for (rest, c), atoms in terms.items():
            r = lane_group(X, atoms, ctx)
            if r is not None:
                used, new = r
                k = Poly({rest: c})
                for a in used:
                    p = p - k * P(a)
                p = p + k * new
                changed = True
                break
            r = concat_group(X, atoms, ctx)
            if r is not None:
                used, new = r
                k = Poly({rest: c})
                for a in used:
                    p = p - k * P(a)
                p = p + k * new
                changed = True
                break
        if changed:
            continue
        r = absorb_terms(X, p, ctx)
        if r is not None:
            p = r
            changed = True
    return p


def coef_gcds(b, u):
    """candidate lane counts: integer factors of u's coefficients in the indices"""
    from math import gcd
    g = 0
    for a in b.all_atoms():
        if a.kind in ("load", "fun"):
            for idx in a.args[1:]:
                if isinstance(idx, Poly) and u in idx.syms():
                    r = idx.coeff(u)
                    if r is None:
                        return 0
                    for k in r[0].t.values():
                        if isinstance(k, Fraction):
                            return 0
                        g = gcd(g, abs(k))
    return g


def lane_group(X, atoms, ctx):
    if len(atoms) < 2:
        return None
    aset = set(atoms)
    for a in atoms:
        u, Q, b = open_sum(a)
        g = coef_gcds(b, u)
        if g < 2:
            continue
        for c in [d for d in range(g, 1, -1) if g % d == 0]:
            if c > len(atoms):
                continue
            w = fresh("w")
            F = subst(b, {u: P(w).scale(Fraction(1, c))})
            if any(isinstance(k, Fraction) for x in F.all_atoms() for y in x.args if isinstance(y, Poly) for k in y.t.values()):
                continue
            if any(isinstance(k, Fraction) for k in F.t.values()):
                continue
            used = []
            for r in range(c):
                e = SUM(u, Q, subst(F, {w: P(u).scale(c) + C(r)}))
                at = e.atoms()
                if len(at) == 1 and len(e.t) == 1 and list(e.t.values())[0] == 1 and next(iter(at)) in aset:
                    used.append(next(iter(at)))
                else:
                    break
            if len(used) == c and len(set(used)) == c:
                return used, SUM(w, Q.scale(c), F)
    return None


def concat_group(X, atoms, ctx):
    """L5: sum_{u<U}F(u) + sum_{v<V}F(U+v)"""
    if len(atoms) < 2:
        return None
    for a in atoms:
        u, U, F = open_sum(a)
        for b in atoms:
            if b is a:
                continue
            v, V, G = open_sum(b)
            if subst(F, {u: U + P(v)}) == G:
                return [a, b], SUM(u, U + V, F)
    return None


def absorb_terms(X, p, ctx):
    """L4: sum_{u<U}F(u) + F(U)"""
    for m, c in p.t.items():
        ss = [x for x in m if x.kind == "sum"]
        if len(ss) != 1:
            continue
        rest = tuple(x for x in m if x is not ss[0])
        k = Poly({rest: c})
        u, U, F = open_sum(ss[0])
        last = k * subst(F, {u: U})
        if last.t and all(p.t.get(mm) == cc for mm, cc in last.t.items()) and m not in last.t:
            return p - k * P(ss[0]) - last + k * SUM(u, U + ONE, F)
    return None


def pin(d, ctx):
    """replace a symbol whose case chain leaves one constant value"""
    ex, val = {}, {}
    for h in ctx.all():
        if h.kind in ("eq", "ne"):
            t = h.args[0].t
            ms = [m for m in t if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0].kind == "sym" and ms[0][0].sort == "i" and abs(t[ms[0]]) == 1:
                k = -t.get((), 0) * t[ms[0]]
                if h.kind == "eq":
                    val[ms[0][0]] = k
                else:
                    ex.setdefault(ms[0][0], set()).add(k)
    for s in sorted(d.syms() & (set(ex) | set(val)), key=lambda x: x.id):
        k = val.get(s)
        if k is None:
            k = 0
            while k in ex[s]:
                k += 1
            if not ctx.prove(EQ(P(s) - C(k)), 1):
                continue
        return subst(d, {s: C(k)})
    return None


def equal(X, a, b, ctx, depth=0, chain=0):
    """prove a == b (real or int terms)"""
    d = a - b
    if d.is_zero():
        return True
    d = simp(X, d, ctx)
    if d.is_zero():
        return True
    if is_int(d) and not any(x.kind in ("sum",) for x in d.atoms()):
        return ctx.prove(EQ(d), 1)
    if depth > 6:
        return False
    # case split on undecided ite
    it = first_ite(d)
    if it is not None:
        c = it.args[0]
        if any(y.kind == "bound" for y in it.syms()):
            return False
        lane = c.kind == "eq" and chain < 40       # one link of a case chain over an index
        nd = (depth, chain + 1) if lane else (depth + 1, chain)
        return equal(X, subst(d, {it: it.args[1]}), ZERO, ctx.extend(c), *nd) and \
            equal(X, subst(d, {it: it.args[2]}), ZERO, ctx.extend(NOT(c)), *nd)
    if depth < 6 and chain:
        d2 = pin(d, ctx)
        if d2 is not None:
            return equal(X, d2, ZERO, ctx, depth + 1, chain)
    # identify atoms that are provably equal
    ats = sorted(d.atoms(), key=lambda x: x.id)
    for i, x in enumerate(ats):
        for y in ats[i + 1:]:
            if x.kind == y.kind and x.kind in ("load", "sum", "fun") and atom_equal(X, x, y, ctx, depth):
                d2 = subst(d, {y: P(x)})
                if d2 != d:
                    return equal(X, d2, ZERO, ctx, depth + 1)
    return False


def first_ite(p):
    for a in sorted(p.atoms(), key=lambda x: x.id):
        if a.kind == "ite":
            return a
        if a.kind in ("load", "fun"):
            for x in a.args:
                if isinstance(x, Poly):
                    r = first_ite(x)
                    if r is not None:
                        return r
    return None


def atom_equal(X, x, y, ctx, depth):
    if x.kind == "load":
        return x.args[0] == y.args[0] and ctx.prove(EQ(x.args[1] - y.args[1]), 1)
    if x.kind == "fun":
        return x.args[0] == y.args[0] and len(x.args) == len(y.args) and all(
            (p == q) or (isinstance(p, Poly) and isinstance(q, Poly) and equal(X, p, q, ctx, depth + 1)) for p, q in zip(x.args[1:], y.args[1:]))
    if x.kind == "sum":
        if not (x.args[1] == y.args[1] or ctx.prove(EQ(x.args[1] - y.args[1]), 1)):
            return False
        v, cnt, b1 = open_sum(x)
        b2 = subst(y.args[2], {y.args[0]: P(v)})
        return equal(X, b1, b2, vctx(ctx, v, cnt), depth + 1)
    return False
