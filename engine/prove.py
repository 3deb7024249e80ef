"""Prover for obligations over Poly/Cond.

A goal `p >= 0` is first attacked by a search for a certificate
     p = sum_i lambda_i * h_i + r       (lambda_i, r: polynomials with nonnegative
                                         coefficients over nonnegative atoms, h_i >= 0 hypotheses)
which is re-checked by exact polynomial arithmetic; when no certificate is found z3 gets the
goal over the monomials as integer unknowns together with product lemmas.  Equalities and
disequalities over mixed-radix index expressions use the peeling lemma
     m*X + E = 0  and  |E| < m   ==>   X = 0 and E = 0.
"""
import time
from fractions import Fraction
import z3
from math import gcd
from terms import *


class Stats:
    def __init__(self):
        self.cert = 0
        self.z3 = 0
        self.z3_time = 0.0
        self.cert_time = 0.0
        self.trivial = 0
        self.z3_unknown = 0
        self.refuted = 0


STATS = Stats()
DUMP = None  # list collecting (hyps, goal, lemmas) triples for independent re-checking


class Ctx:
    """immutable chain of hypotheses"""
    __slots__ = ("parent", "hyps", "_ge", "_eqs", "_cache", "_all", "_false", "_bnd", "_set")

    def __init__(self, parent=None, hyps=()):
        self.parent = parent
        out = []
        for h in hyps:
            if h.kind == "and":
                out.extend(h.args)
            elif h.kind != "true":
                out.append(h)
        self.hyps = tuple(out)
        self._ge = None
        self._eqs = None
        self._cache = {}
        self._all = None
        self._false = None
        self._bnd = None
        self._set = None

    def extend(self, *hyps):
        known = self.all_set()
        hs = [h for h in hyps if h.kind != "true" and h not in known]
        if not hs:
            return self
        return Ctx(self, hs)

    def all(self):
        if self._all is None:
            self._all = (self.parent.all() if self.parent else ()) + self.hyps
        return self._all

    def all_set(self):
        if self._set is None:
            self._set = set(self.all())
        return self._set

    def facts(self):
        """(list of ge-polys, substitution from equalities, disequalities, others)"""
        if self._ge is None:
            ge, eq, ne, other = [], [], [], []
            for h in self.all():
                if h.kind == "ge":
                    ge.append(h.args[0])
                elif h.kind == "eq":
                    eq.append(h.args[0])
                elif h.kind == "ne":
                    ne.append(h.args[0])
                else:
                    other.append(h)
            self._ge = (ge, eq, ne, other)
        return self._ge

    def bounds(self):
        """constant bounds of single atoms and the set of ge-polys"""
        if self._bnd is None:
            lo, hi = {}, {}
            ge = self.facts()[0]
            for h in ge:
                vs = [m for m in h.t if m]
                if len(vs) == 1 and len(vs[0]) == 1:
                    c, k0, a = h.t[vs[0]], h.t.get((), 0), vs[0][0]
                    if not (isinstance(c, int) and isinstance(k0, int)):
                        continue
                    if c > 0:       # a >= -k0/c
                        b = -(k0 // c)
                        lo[a] = max(lo[a], b) if a in lo else b
                    else:
                        b = k0 // -c
                        hi[a] = min(hi[a], b) if a in hi else b
            self._bnd = (lo, hi, set(ge))
        return self._bnd

    # ------------------------------------------------------------------ API
    def prove(self, c, effort=1):
        if c.kind == "true":
            return True
        key = (c, effort)
        r = self._cache.get(key)
        if r is None:
            r = self._prove(c, effort)
            self._cache[key] = r
        return r

    def decide(self, c, effort=0):
        """True / False / None"""
        if c.kind == "true":
            return True
        if c.kind == "false":
            return False
        if self.prove(c, effort):
            return True
        if self.prove(NOT(c), effort):
            return False
        return None

    def _prove(self, c, effort):
        k = c.kind
        if k == "false":
            return self.infeasible(effort)
        if c in self.all_set():
            return True
        if k == "and":
            return all(self.prove(x, effort) for x in c.args)
        if k == "or":
            if any(self.prove(x, 0) for x in c.args):
                return True
            # assume negation of all but one
            for i in range(len(c.args)):
                ctx = self.extend(*[NOT(x) for j, x in enumerate(c.args) if j != i])
                if ctx.prove(c.args[i], effort):
                    return True
                if effort == 0:
                    break
            return effort > 0 and bool_z3(self, c)
        if k in ("op", "not"):
            return any(h is c for h in self.all())
        if k == "ne" and quick_apart(c.args[0], self.bounds()):
            STATS.cert += 1
            return True
        if prove_arith(self, c, effort):
            return True
        return effort > 0 and any(h.kind == "or" for h in self.all()) and bool_z3(self, c)

    def infeasible(self, effort=1):
        if self._false is None or (self._false is False and effort > 0):
            self._false = prove_arith(self, FALSE, effort)
        return self._false


def quick_apart(d, bounds, depth=0):
    """d != 0 for a linear d with integer coefficients, by residues and mixed-radix peeling over constant intervals:
    k*X + E = 0 with E in an interval that holds exactly one multiple k*t (t integer) of k  ==>  X + t = 0 and E = k*t"""
    lo, hi, ges = bounds
    c0 = 0
    cs = []
    for m, c in d.t.items():
        if not isinstance(c, int):
            return False
        if not m:
            c0 = c
        elif len(m) == 1 and m[0].sort == "i":
            cs.append((m[0], c))
        else:
            return False
    if not cs:
        return c0 != 0
    g = 0
    for a, c in cs:
        g = gcd(g, c)
    if c0 % g:
        return True
    if g > 1:
        cs = [(a, c // g) for a, c in cs]
        c0 //= g
        d = Poly({m: c // g for m, c in d.t.items()})
    if (d - ONE) in ges or (-d - ONE) in ges:
        return True

    def interval(ts):
        l = h = 0
        for a, c in ts:
            al = lo.get(a, 0 if a.nonneg else None)
            if a.nonneg and al is not None and al < 0:
                al = 0
            ah = hi.get(a)
            x, y = (al, ah) if c > 0 else (ah, al)
            l = None if l is None or x is None else l + c * x
            h = None if h is None or y is None else h + c * y
        return l, h
    l, h = interval(cs)
    if (l is not None and l + c0 > 0) or (h is not None and h + c0 < 0):
        return True
    if depth > 6:
        return False
    for k in sorted({abs(c) for a, c in cs}, reverse=True):
        if k == 1:
            continue
        X = [(a, c) for a, c in cs if c % k == 0]
        E = [(a, c) for a, c in cs if c % k]
        if not E:
            continue
        l, h = interval(E)
        if l is None or h is None:
            continue
        t0, t1 = -((-(l + c0)) // k), (h + c0) // k      # multiples of k in [l+c0, h+c0]
        if t0 > t1:
            return True
        if t0 == t1:
            x = Poly({(a,): c // k for a, c in X}) + C(t0)
            e = Poly({(a,): c for a, c in E}) + C(c0 - k * t0)
            return quick_apart(x, bounds, depth + 1) or quick_apart(e, bounds, depth + 1)
    return False


def _relevant(polys):
    acc = set()
    for p in polys:
        p.all_atoms(acc)
    return acc


def expand_defs(atoms):
    """defining facts of compound atoms (div)"""
    out = []
    seen = set()
    work = list(atoms)
    while work:
        a = work.pop()
        if a in seen:
            continue
        seen.add(a)
        if a.kind == "div":
            p, q = a.args
            out.append(p - q * P(a))
            out.append(q * P(a) + q - p - ONE)
            for b in p.all_atoms() | q.all_atoms():
                if b not in seen:
                    work.append(b)
    return out


def find_ite(polys):
    for p in polys:
        for a in sorted(p.atoms(), key=lambda a: a.id):
            if a.kind == "ite":
                return a
            if a.kind == "div":
                r = find_ite(a.args)
                if r:
                    return r
    return None


def prove_arith(ctx, c, effort):
    ge, eq, ne, other = ctx.facts()
    # eliminate equalities with a unit-coefficient symbol
    mp = {}
    eqs = list(eq)
    rest_eq = []
    for e in eqs:
        e = subst(e, mp)
        s = pick_solvable(e)
        if s is not None:
            a, val = s
            mp = {k: subst(v, {a: val}) for k, v in mp.items()}
            mp[a] = val
        elif not e.is_zero():
            rest_eq.append(e)
    if mp:
        ge0 = ge
        ge = [subst(p, mp) for p in ge]
        # a symbol eliminated was nonneg
        for a, v in mp.items():
            if a.nonneg:
                ge.append(v)
        ge = [p for p in ge if not p.is_const() or p.const() < 0]
        ne = [subst(p, mp) for p in ne]
        c = subst(c, mp)
        rest_eq = [subst(p, mp) for p in rest_eq]
    if any(p.is_const() and p.const() < 0 for p in ge):
        return True
    if any(p.is_zero() for p in ne):
        return True
    if any(p.is_const() and not p.is_zero() for p in rest_eq):
        return True
    for p in rest_eq:
        ge = ge + [p, -p]
    return _pa(ge, ne, other, c, effort, 0)


def pick_solvable(e):
    for m, k in e.t.items():
        if len(m) == 1 and abs(k) == 1 and m[0].kind == "sym" and m[0].sort == "i" and all(m[0] is not x[2] for x in NAMED):
            a = m[0]
            r = e.coeff(a)
            if r is None:
                continue
            cc, rest = r
            if cc.is_const() and a not in rest.syms():
                return a, (-rest if cc.const() == 1 else rest)
    return None


def _pa(ge, ne, other, c, effort, depth):
    if c.kind == "true":
        return True
    if c.kind in ("and",):
        return all(_pa(ge, ne, other, x, effort, depth) for x in c.args)
    goal_polys = list(c.args) if c.kind in ("ge", "eq", "ne") else []
    # case split on ite atoms in the goal (or in hypotheses, at effort>0)
    if depth < 6:
        it = find_ite(goal_polys) or find_ite(ge) or find_ite(ne)
        if it is not None:
            cond, a, b = it.args
            ok = True
            same = [it]
            for q in goal_polys + ge + ne:
                same += [x for x in q.all_atoms() if x.kind == "ite" and x is not it and x.args[0] == cond]
            for cc, v in ((cond, 1), (NOT(cond), 2)):
                mp = {x: x.args[v] for x in same}
                ge2 = [subst(p, mp) for p in ge]
                ne2 = [subst(p, mp) for p in ne]
                cs = cc.args if cc.kind == "and" else (cc,)
                dead = False
                for x in cs:
                    x = subst(x, mp)
                    if x.kind == "ge":
                        ge2.append(x.args[0])
                    elif x.kind == "eq":
                        ge2 += [x.args[0], -x.args[0]]
                    elif x.kind == "ne":
                        ne2.append(x.args[0])
                    elif x.kind == "false":
                        dead = True
                if dead or any(p.is_const() and p.const() < 0 for p in ge2) or any(p.is_zero() for p in ne2):
                    continue
                if not _pa(ge2, ne2, other, subst(c, mp), effort, depth + 1):
                    ok = False
                    break
            return ok
    k = c.kind
    if k == "ge":
        return prove_ge(c.args[0], ge, ne, effort)
    if k == "eq":
        p = c.args[0]
        return prove_ge(p, ge, ne, effort) and prove_ge(-p, ge, ne, effort)
    if k == "ne":
        p = c.args[0]
        if prove_ge(p - ONE, ge, ne, 0) or prove_ge(-p - ONE, ge, ne, 0):
            return True
        if effort == 0:
            return False
        return prove_ne_peel(p, ge, ne, effort)
    if k == "false":
        return infeasible_sys(ge, ne, effort)
    if k == "or":
        for i, x in enumerate(c.args):
            ge2, ne2 = list(ge), list(ne)
            for j, y in enumerate(c.args):
                if j != i:
                    y = NOT(y)
                    for z in (y.args if y.kind == "and" else (y,)):
                        if z.kind == "ge":
                            ge2.append(z.args[0])
                        elif z.kind == "eq":
                            ge2 += [z.args[0], -z.args[0]]
                        elif z.kind == "ne":
                            ne2.append(z.args[0])
            if _pa(ge2, ne2, other, x, effort, depth + 1):
                return True
        return False
    return False


# ---------------------------------------------------------------- certificate search
def prove_ge(p, ge, ne, effort):
    if p.is_const() and p.const() >= 0:
        STATS.trivial += 1
        return True
    if nonneg_trivial(p):
        STATS.trivial += 1
        return True
    if not all(a.sort == "i" for a in p.atoms()):
        return False
    t0 = time.time()
    rel = p.all_atoms()
    hs = relevant_hyps(p, ge)
    if NAMED:
        hs = hs + named_products(hs)
    hs0, p0 = hs, p
    bnds = unit_bounds(hs)
    cert = []
    b3 = [40 if effort == 0 else 200]
    if mono_search(p, bnds, 0, b3, set(), cert):
        acc = p
        for lam, h in cert:
            assert nonneg_trivial(lam)
            acc = acc - lam * h
        assert nonneg_trivial(acc)
        STATS.cert += 1
        STATS.cert_time += time.time() - t0
        if DUMP is not None:
            DUMP.append((p0, list(hs0)))
        return True
    if effort > 0 and is_linear(p) and all(is_linear(h) for h in hs):
        # linear integer arithmetic (divisions by constants included): a complete decision procedure
        STATS.cert_time += time.time() - t0
        return z3_prove(p, hs, ne)
    if refute(p, hs) is not None:
        STATS.refuted += 1
        STATS.cert_time += time.time() - t0
        return False
    if effort > 0 or len(hs) < 24:
        # slack form: replace x by s + (lower bound of x) for every hypothesis x - lower >= 0
        sl = slack_form(p, hs)
        if sl is not None:
            q, hs2 = sl
            if nonneg_trivial(q) or any(h.is_const() and h.const() < 0 for h in hs2):
                STATS.cert += 1
                STATS.cert_time += time.time() - t0
                if DUMP is not None:
                    DUMP.append((p0, list(hs0)))
                return True
            if effort > 0 and len(q.t) <= 60:
                b2 = [600]
                cert = []
                if _search(q, hs2, 0, 10, b2, set(), cert):
                    acc = q
                    for lam, h in cert:
                        assert nonneg_trivial(lam)
                        acc = acc - lam * h
                    assert nonneg_trivial(acc)
                    STATS.cert += 1
                    STATS.cert_time += time.time() - t0
                    if DUMP is not None:
                        DUMP.append((p0, list(hs0)))
                    return True
    budget = [300 if effort == 0 else 3000]
    cert = []
    ok = _search(p, hs, 0, 8 if effort == 0 else 14, budget, set(), cert)
    STATS.cert_time += time.time() - t0
    if ok:
        # re-check the certificate exactly
        acc = p
        for lam, h in cert:
            assert nonneg_trivial(lam)
            acc = acc - lam * h
        assert nonneg_trivial(acc)
        STATS.cert += 1
        if DUMP is not None:
            DUMP.append((p0, list(hs0)))
        return True
    if effort == 0:
        return False
    return z3_prove(p, hs, ne)


def is_linear(p):
    return all(len(m) <= 1 for m in p.t)


def ev(p, env):
    v = 0
    for m, c in p.t.items():
        for a in m:
            c = c * env[a]
        v += c
    return v


class NoEval(Exception):
    pass


def ev_atoms(order, env):
    """compute defined atoms (div) from the free ones"""
    for a in order:
        q = ev(a.args[1], env)
        if q <= 0:
            raise NoEval
        env[a] = ev(a.args[0], env) // q


def sample_plan(polys):
    free, defs = [], []
    seen = set()

    def visit(a):
        if a in seen:
            return
        seen.add(a)
        if a.kind == "div":
            for q in a.args:
                for b in sorted(q.atoms(), key=lambda b: b.id):
                    visit(b)
            defs.append(a)
        else:
            free.append(a)
    for q in polys:
        for a in sorted(q.atoms(), key=lambda b: b.id):
            visit(a)
    return free, defs


_models = []


def climb(p, hs, env, frozen):
    """move one atom at a time to the feasible value that lowers p most"""
    for _ in range(2):
        moved = False
        for a in sorted(p.atoms(), key=lambda a: -a.id):
            if a in frozen or a not in env:
                continue
            r = p.coeff(a)
            if r is None:
                continue
            c = ev(r[0], env)
            if c == 0:
                continue
            L, U = (0 if a.nonneg else None), None
            ok = True
            for h in hs:
                if a not in h.atoms():
                    continue
                q = h.coeff(a)
                if q is None:
                    ok = False
                    break
                k, b = ev(q[0], env), ev(q[1], env)
                if k > 0:
                    x = -(b // k)
                    L = x if L is None or x > L else L
                elif k < 0:
                    x = b // -k
                    U = x if U is None or x < U else U
            if not ok:
                continue
            v = U if c < 0 else L
            if v is None:
                v = env[a] + (1000 if c < 0 else -1000)
            if v != env[a]:
                env[a] = v
                moved = True
                if ev(p, env) < 0:
                    return all(ev(h, env) >= 0 for h in hs)
        if not moved:
            return False
    return False


def refute(p, hs, tries=8):
    env = refute1(p, hs, tries)
    if env is not None:
        for a, b, c in NAMED:
            if c in env and not (a in env and b in env and env[a] * env[b] == env[c]):
                return None
    return env


def refute1(p, hs, tries=8):
    """an integer assignment that satisfies every hypothesis and violates p >= 0, or None.
    Only used to give up early / to explain a failure - never to accept anything."""
    free, defs = sample_plan([p] + hs)
    if len(free) > 60:
        return None
    if any(a.sort != "i" for a in free):
        return None
    ub = unit_bounds(hs)
    import random
    rnd = random.Random(len(hs) * 7919 + len(p.t))
    lo, hi = {}, {}
    for h in hs:
        vs = [m for m in h.t if m]
        if len(vs) == 1 and len(vs[0]) == 1:
            c, k0 = h.t[vs[0]], h.t.get((), 0)
            a = vs[0][0]
            if c > 0:
                lo[a] = max(lo.get(a, -k0 // c), -(k0 // c))
            else:
                hi[a] = min(hi.get(a, k0 // -c), k0 // -c)
    # direction in which each atom lowers p (from the linear part, also through divisions)
    down = {}
    for m, c in p.t.items():
        for a in m:
            for b in ([a] if a.kind != "div" else a.args[0].atoms()):
                down[b] = down.get(b, 0) + c
    frozen = set()
    for d in defs:
        frozen |= d.all_atoms() if hasattr(d, "all_atoms") else set()
        for q in d.args:
            frozen |= q.all_atoms()
    for old in reversed(_models):
        env = {a: old[a] if a in old else max(lo.get(a, 0), 0 if a.nonneg else lo.get(a, 0)) for a in free}
        try:
            ev_atoms(defs, env)
            if all(ev(h, env) >= 0 for h in hs) and (ev(p, env) < 0 or climb(p, hs, env, frozen)):
                return env
        except (NoEval, KeyError, OverflowError):
            continue
    for k in range(tries):
        env = {}
        for a in free:
            L, U = lo.get(a, 0 if a.nonneg else -3), hi.get(a)
            if k == 0:
                env[a] = L
            elif k == 1:
                env[a] = L + 1
            elif k in (2, 3):
                up = (down.get(a, 0) < 0) == (k == 2)
                env[a] = (U if U is not None and U - L < 1 << 20 else L + 9) if up else L
            else:
                env[a] = rnd.choice((L, L + 1, L + 1, L + 2, L + 2, L + 3, L + 4, L + 7))
                if U is not None and rnd.random() < 0.5:
                    env[a] = rnd.choice((U, max(L, U - 1), (L + U) // 2, rnd.randint(L, U) if U >= L else L))
            if not a.nonneg and rnd.random() < 0.2:
                env[a] = -env[a]
        try:
            for _ in range(12):
                ev_atoms(defs, env)
                bad = False
                for h in hs:
                    v = ev(h, env)
                    if v >= 0:
                        continue
                    bad = True
                    # repair through a unit coefficient atom of a sym kind
                    ms = [(m[0], c) for m, c in h.t.items() if len(m) == 1 and abs(c) == 1 and m[0].kind != "div"
                          and (c > 0 or not m[0].nonneg or env[m[0]] >= -v)]
                    big = [(m[0], c) for m, c in h.t.items() if len(m) == 1 and abs(c) > 1 and m[0].kind != "div"
                           and (c > 0 or not m[0].nonneg or env[m[0]] * -c >= -v)]
                    if big and (not ms or rnd.random() < 0.5):
                        a, c = rnd.choice(big)
                        env[a] += -(v // c) if c > 0 else v // -c
                        continue
                    if not ms:
                        continue
                    pos = [x for x in ms if x[1] > 0]
                    a, c = rnd.choice(pos if pos and rnd.random() < 0.7 else ms)
                    env[a] += -v if c > 0 else v
                if not bad:
                    break
            else:
                continue
            if all(ev(h, env) >= 0 for h in hs):
                if len(_models) >= 6:
                    del _models[0]
                _models.append(dict(env))
                if ev(p, env) < 0 or climb(p, hs, env, frozen):
                    return env
        except (NoEval, KeyError, OverflowError):
            continue
    return None


def unit_bounds(hs):
    """hypotheses usable as bounds of one atom: x -> ([h = x - L], [h = U - x])"""
    out = {}
    for h in hs:
        for m, c in h.t.items():
            if len(m) != 1 or c not in (1, -1):
                continue
            x = m[0]
            if any(x in m2 for m2 in h.t if m2 != m):
                continue
            out.setdefault(x, ([], []))[0 if c == 1 else 1].append(h)
    return out


def sign(p):
    """+1 / -1 if p is trivially of one sign, else 0"""
    pos = neg = False
    for m, c in p.t.items():
        for a in m:
            if not a.nonneg:
                return 0
        if c > 0:
            pos = True
        else:
            neg = True
    return 0 if pos and neg else 1 if pos else -1 if neg else 0


def mono_search(p, bnds, depth, budget, seen, cert):
    """monotonicity: p is linear in x with a coefficient of known sign -> replace x by its bound.
    Each step subtracts lambda*h with lambda = |coefficient| >= 0, so the result is a certificate."""
    if nonneg_trivial(p):
        return True
    if depth > 24 or budget[0] <= 0 or p in seen:
        return False
    seen.add(p)
    up, down = [], []
    for x in p.atoms():
        b = bnds.get(x)
        if b is None:
            continue
        r = p.coeff(x)
        if r is None:
            continue
        k, rest = r
        s = sign(k)
        deg = max((len(m) for m in k.t), default=0)
        if s < 0 and b[1]:
            up.append((-deg, x.id, -k, b[1]))
        elif s > 0 and b[0]:
            down.append((-deg, x.id, k, b[0]))
    up.sort(key=lambda e: e[:2])
    down.sort(key=lambda e: e[:2])
    # an atom bounded from above is eliminated first; only one elimination order is explored per
    # direction, but every applicable bound of that atom
    for cand in (up[:2], down[:2]):
        for _, _, lam, hl in cand:
            for h in sorted(hl, key=lambda h: (len(h.t), -abs(h.t.get((), 0))))[:4]:
                budget[0] -= 1
                if budget[0] <= 0:
                    return False
                cert.append((lam, h))
                if mono_search(p - lam * h, bnds, depth + 1, budget, seen, cert):
                    return True
                cert.pop()
    return False


def shallow(p, a, v):
    """replace atom a by v in polynomial p (not inside compound atoms)"""
    if not any(a in m for m in p.t):
        return p
    out = ZERO
    rest = {}
    pw = {0: ONE, 1: v}
    for m, c in p.t.items():
        k = m.count(a)
        if k == 0:
            rest[m] = c
            continue
        if k not in pw:
            pw[k] = pw[1] * pw[k - 1] if k - 1 in pw else None
            if pw[k] is None:
                q = ONE
                for _ in range(k):
                    q = q * v
                pw[k] = q
        out = out + Poly({tuple(x for x in m if x is not a): c}) * pw[k]
    return out + Poly(rest)


_slack = {}


def slack_atom(i):
    if i not in _slack:
        _slack[i] = Sym("slack%d" % i, "i", True)
    return _slack[i]


def slack_form(p, hs):
    """equivalent goal over slack variables, or None when no hypothesis is a simple lower bound"""
    hs = list(hs)
    k = 0
    done = False
    while k < 24:
        pick = None
        for i, h in enumerate(hs):
            for m, c in h.t.items():
                if len(m) == 1 and c == 1 and m[0].nonneg and \
                        all(c2 < 0 and all(x.nonneg and x is not m[0] for x in m2) for m2, c2 in h.t.items() if m2 != m):
                    pick = (i, m[0])
                    break
            if pick:
                break
        if pick is None:
            break
        i, a = pick
        v = P(slack_atom(k)) + P(a) - hs[i]
        k += 1
        hs = [shallow(h, a, v) for j, h in enumerate(hs) if j != i]
        hs = [h for h in hs if not nonneg_trivial(h)]
        p = shallow(p, a, v)
        if len(p.t) > 400:
            return None
        done = True
    return (p, hs) if done else None


def nonneg_trivial(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for a in m:
            if not a.nonneg:
                # even power?
                return False
    return True


def relevant_hyps(p, ge):
    """hypotheses connected to p's atoms, plus definitions of div atoms"""
    atoms = p.all_atoms()
    hs = [h for h in ge if not h.is_const()]
    sel = []
    selset = set()
    changed = True
    # two rounds of closure are enough in practice
    for _ in range(3):
        for d in expand_defs(atoms):
            if d not in selset:
                selset.add(d)
                sel.append(d)
        for h in hs:
            if h in selset:
                continue
            if not atoms.isdisjoint(h.all_atoms()):
                selset.add(h)
                sel.append(h)
        na = set(atoms)
        for h in sel:
            h.all_atoms(na)
        if na == atoms:
            break
        atoms = na
    # constants contradictory hyps
    return sel


def _search(p, hs, depth, maxdepth, budget, visited, cert):
    if nonneg_trivial(p):
        return True
    if depth >= maxdepth or budget[0] <= 0:
        return False
    if p in visited:
        return False
    visited.add(p)
    bad = [(m, c) for m, c in p.t.items() if c < 0]
    # monomials with a non-nonneg atom cannot be fixed here
    bad.sort(key=lambda mc: (-len(mc[0]), [-a.id for a in mc[0]]))
    # options for each bad monomial; choose the bad monomial with fewest options (most constrained)
    best = None
    for m, c in bad:
        opts = []
        for h in hs:
            for nu, k in h.t.items():
                if k >= 0:
                    continue
                d = mono_div(m, nu)
                if d is None or not all(a.nonneg for a in d):
                    continue
                lam = Poly({d: norm(Fraction(c) / k)})
                opts.append((lam, h))
        if not opts:
            return False
        # prefer options whose h has the same degree structure
        if best is None or len(opts) < len(best):
            best = opts
    def score(o):
        lam, h = o
        q = p - lam * h
        return (sum(1 for c in q.t.values() if c < 0), len(q.t), max((len(m) for m in q.t), default=0))
    if best is None:
        return False
    scored = sorted(((score(o), i) for i, o in enumerate(best)))
    for sc, i in scored[:8]:
        lam, h = best[i]
        budget[0] -= 1
        if budget[0] <= 0:
            return False
        cert.append((lam, h))
        if _search(p - lam * h, hs, depth + 1, maxdepth, budget, visited, cert):
            return True
        cert.pop()
    return False


# ---------------------------------------------------------------- z3
Z3_TIMEOUT = 1500


def named_products(hs):
    """the hypotheses x - y >= 0 times the cofactor of x in a named product"""
    out = []
    for h in hs:
        if max((len(m) for m in h.t), default=0) == 1:
            for a, b, c in NAMED:
                for u, v in ((a, b), (b, a)):
                    if h.t.get((u,), 0) > 0 and v.nonneg:
                        q = h * P(v)
                        if q not in hs and q not in out:
                            out.append(q)
    return out


def rlt(p, hs):
    """p >= 0 from the hypotheses and their products with the factors of p's nonlinear monomials, each monomial a real of its own"""
    nl = {a for m in p.t if len(m) > 1 for a in m if a.nonneg}
    if not nl or len(nl) > 8:
        return False
    lin = [h for h in hs if max((len(m) for m in h.t), default=0) <= 1]
    prods = [h * P(a) for h in lin for a in nl if not h.is_const()]
    if NAMED:
        prods += [h * P(a) for h in hs if max((len(m) for m in h.t), default=0) == 2 for a in nl]
    names = {}

    def tr(q):
        return z3.Sum([z3.Q(c.numerator, c.denominator) * mono(m) if isinstance(c, Fraction) else z3.RealVal(c) * mono(m)
                       for m, c in q.t.items()])

    def mono(m):
        if m == ():
            return z3.RealVal(1)
        if m not in names:
            names[m] = z3.Real("m_" + "_".join(str(a.id) for a in m))
        return names[m]
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 2000)
    for h in hs + prods:
        if h.t:
            s.add(tr(h) >= 0)
    s.add(tr(p) <= -1)
    for m, v in names.items():
        if all(a.nonneg for a in m):
            s.add(v >= 0)
    return s.check() == z3.unsat


def z3_prove(p, hs, ne):
    t0 = time.time()
    if rlt(p, hs):
        STATS.z3 += 1
        STATS.z3_time += time.time() - t0
        return True
    atoms = set()
    for q in hs + [p] + list(ne):
        for m in q.t:
            for a in m:
                atoms.add(a)
    names = {}

    def v(a):
        if a not in names:
            names[a] = z3.Int("a%d" % a.id)
        return names[a]
    monos = {}

    def mono(m):
        if m == ():
            return z3.IntVal(1)
        if len(m) == 1:
            return v(m[0])
        if m not in monos:
            monos[m] = z3.Int("m_" + "_".join(str(a.id) for a in m))
        return monos[m]

    def tr(q):
        from math import lcm
        den = 1
        for c in q.t.values():
            if isinstance(c, Fraction):
                den = lcm(den, c.denominator)
        return z3.Sum([int(c * den) * mono(m) for m, c in q.t.items()]) if q.t else z3.IntVal(0)
    s = z3.Solver()
    s.set("timeout", Z3_TIMEOUT)
    prods = []
    # product lemmas: hyp * atom appearing in nonlinear monomials of the goal / hyps
    nl = set()
    for q in [p] + hs:
        for m in q.t:
            if len(m) > 1:
                nl.update(m)
    nl = [a for a in nl if a.nonneg]
    if len(nl) <= 8:
        for h in hs[:40]:
            if max((len(m) for m in h.t), default=0) <= 1:
                for a in nl:
                    prods.append(h * P(a))
    lin = [h for h in hs if max((len(m) for m in h.t), default=0) <= 1]
    if len(lin) <= 14 and nl:
        for i, h in enumerate(lin):
            for g in lin[i:]:
                prods.append(h * g)
    for h in hs + prods:
        s.add(tr(h) >= 0)
    for q in ne:
        s.add(tr(q) != 0)
    for a in list(names):
        if a.nonneg:
            s.add(names[a] >= 0)
    for m in list(monos):
        if all(a.nonneg for a in m):
            s.add(monos[m] >= 0)
    s.add(tr(p) < 0)
    for a in list(names):
        if a.nonneg:
            s.add(names[a] >= 0)
    r = s.check()
    STATS.z3_time += time.time() - t0
    if r == z3.unsat:
        STATS.z3 += 1
        return True
    STATS.z3_unknown += 1
    return False


# ---------------------------------------------------------------- peeling
def bool_z3(ctx, c):
    """the boolean structure of goal and hypotheses over linear integer arithmetic; monomials and conditions that are not
    integer comparisons are opaque (so unsat is sound)"""
    t0 = time.time()
    names = {}

    def mono(m):
        if m == ():
            return z3.IntVal(1)
        if m not in names:
            names[m] = z3.Int("m_" + "_".join(str(a.id) for a in m))
        return names[m]

    def tr(q):
        from math import lcm
        den = 1
        for k in q.t.values():
            if isinstance(k, Fraction):
                den = lcm(den, k.denominator)
        return z3.Sum([int(k * den) * mono(m) for m, k in q.t.items()]) if q.t else z3.IntVal(0)
    opaque = {}

    def b(x):
        if x.kind == "true":
            return z3.BoolVal(True)
        if x.kind == "false":
            return z3.BoolVal(False)
        if x.kind == "and":
            return z3.And([b(y) for y in x.args])
        if x.kind == "or":
            return z3.Or([b(y) for y in x.args])
        if x.kind in ("ge", "eq", "ne") and all(a.sort == "i" for a in x.args[0].atoms()):
            t = tr(x.args[0])
            return t >= 0 if x.kind == "ge" else t == 0 if x.kind == "eq" else t != 0
        if x.kind == "not":
            return z3.Not(b(x.args[0]))
        if x not in opaque:
            opaque[x] = z3.Bool("b%d" % len(opaque))
        return opaque[x]
    s = z3.Solver()
    s.set("timeout", Z3_TIMEOUT)
    s.add(z3.Not(b(c)))
    for h in ctx.all():
        s.add(b(h))
    for m, v in names.items():
        if all(a.nonneg for a in m):
            s.add(v >= 0)
    r = s.check()
    STATS.z3_time += time.time() - t0
    if r == z3.unsat:
        STATS.z3 += 1
        return True
    STATS.z3_unknown += 1
    return False


def radix_candidates(p):
    """symbolic monomials (without loop-local meaning) that occur as factors of p's monomials"""
    cands = set()
    ms = [m for m in p.t if m]
    for m in ms:
        if len(m) > 1:
            # all sub-monomials obtained by dropping one atom, and single atoms
            for i in range(len(m)):
                cands.add(m[:i] + m[i + 1:])
        if len(m) > 2:
            for a in m:
                cands.add((a,))
    return sorted(cands, key=lambda m: (-len(m), [a.id for a in m]))


def peel(p, prove, depth=0):
    """consequences of p == 0: list of polys that must all be 0. `prove` proves conds."""
    if depth > 8:
        return [p]
    for m in radix_candidates(p):
        X, E = {}, {}
        for mm, c in p.t.items():
            d = mono_div(mm, m)
            if d is not None:
                X[d] = c
            else:
                E[mm] = c
        X, E = Poly(X), Poly(E)
        if X.is_zero() or E.is_zero():
            if E.is_zero() and prove(GE(P_m(m) - ONE)):
                return peel(X, prove, depth + 1)
            continue
        g = 0
        for c in X.t.values():
            if not isinstance(c, int):
                g = 1
                break
            g = gcd(g, abs(c))
        if g > 1:
            X = Poly({mm: c // g for mm, c in X.t.items()})
        M = P_m(m).scale(g)
        if prove(GE(M - ONE - E)) and prove(GE(M - ONE + E)):
            return peel(X, prove, depth + 1) + peel(E, prove, depth + 1)
        # an affine radix: M*X + E = (M + k)*X + (E - k*X)
        lead = next((mm for mm in sorted(X.t, key=lambda q: (-len(q), [a.id for a in q])) if mm and mm in E.t), None)
        if lead is not None and isinstance(X.t[lead], int) and isinstance(E.t[lead], int):
            k = Fraction(E.t[lead], X.t[lead])
            if k.denominator == 1 and k > 0:
                k = int(k)
                E2 = E - X.scale(k)
                if len(E2.t) < len(E.t) and prove(GE(M + C(k) - ONE - E2)) and prove(GE(M + C(k) - ONE + E2)):
                    return peel(X, prove, depth + 1) + peel(E2, prove, depth + 1)
    # constant radices
    consts = sorted({abs(c) for m, c in p.t.items() if m and isinstance(c, int) and abs(c) > 1}, reverse=True)
    for k in consts:
        X, E = {}, {}
        for mm, c in p.t.items():
            if mm and c % k == 0:
                X[mm] = c // k
            else:
                E[mm] = c
        X, E = Poly(X), Poly(E)
        if X.is_zero():
            continue
        if E.is_const():
            # fold multiple of k
            e = E.const()
            if e % k:
                return [ONE]
            return peel(X + C(e // k), prove, depth + 1)
        if prove(GE(C(k - 1) - E)) and prove(GE(C(k - 1) + E)):
            return peel(X, prove, depth + 1) + peel(E, prove, depth + 1)
    return [p]


def P_m(m):
    return Poly({m: 1})


def prove_ne_peel(p, ge, ne, effort):
    def pv(c):
        if c.kind == "true":
            return True
        if c.kind == "false":
            return False
        return prove_ge(c.args[0], ge, ne, effort) if c.kind == "ge" else False
    eqs = peel(p, pv)
    if any(e.is_const() and not e.is_zero() for e in eqs):
        return True
    # solve the equations with the hypotheses
    mp = {}
    extra = []
    for e in eqs:
        e = subst(e, mp)
        s = pick_solvable(e)
        if s is not None:
            a, val = s
            mp = {k: subst(v, {a: val}) for k, v in mp.items()}
            mp[a] = val
        elif not e.is_zero():
            extra += [e, -e]
    ge2 = [subst(x, mp) for x in ge] + [v for a, v in mp.items() if a.nonneg] + [subst(x, mp) for x in extra]
    ne2 = [subst(x, mp) for x in ne]
    if any(x.is_const() and x.const() < 0 for x in ge2) or any(x.is_zero() for x in ne2):
        return True
    if len(eqs) == 1 and eqs[0] == p and not mp:
        return z3_ne(p, ge, ne)
    return infeasible_sys(ge2, ne2)


def z3_ne(p, ge, ne):
    return infeasible_sys(list(ge) + [p, -p], ne)


def infeasible_sys(ge, ne, effort=1):
    # try certificate for each ne-split?  use z3 over monomials
    ge = [h for h in ge if not h.is_const() or h.const() < 0]
    if any(h.is_const() for h in ge):
        return True
    # connected to something: try  -1 >= 0 via any single hyp contradiction
    for h in ge:
        if prove_ge(-h - ONE, [g for g in ge if g is not h], [], 0):
            return True
    if effort == 0:
        return False
    return z3_prove(C(-1), ge + expand_defs(_relevant(ge)), ne)
