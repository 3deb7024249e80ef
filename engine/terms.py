"""Symbolic terms: hash-consed atoms, multivariate polynomials over them, and conditions.

Integers and reals share one representation (Poly): a map monomial -> rational
coefficient, where a monomial is a sorted tuple of Atoms.  Every Atom is hash-consed, so
syntactic equality of normal forms is object equality.
"""
from fractions import Fraction
import itertools

_atoms = {}
_counter = itertools.count()


class Atom:
    __slots__ = ("kind", "args", "id", "sort", "nonneg", "_syms", "_atoms", "level")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id

    def syms(self):
        """all Sym/Bound atoms occurring in this atom (free)"""
        if self._syms is None:
            if self.kind in ("sym", "bound"):
                s = frozenset([self])
            else:
                s = frozenset()
                for a in self.args:
                    if isinstance(a, (Poly, Cond)):
                        s |= a.syms()
                if self.kind == "sum":
                    s -= {self.args[0]}
            self._syms = s
        return self._syms


def mk_atom(kind, args, sort="i", nonneg=False):
    key = (kind, args, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.sort, a.nonneg = kind, args, sort, nonneg
        a.id = next(_counter)
        a._syms = None
        a._atoms = None
        lv = 0
        for x in args:
            if isinstance(x, (Poly, Cond)):
                lv = max(lv, x.level())
        a.level = lv + (1 if kind == "sum" else 0)
        _atoms[key] = a
    return a


_fresh = itertools.count()


def Sym(name, sort="i", nonneg=True):
    return mk_atom("sym", (name,), sort, nonneg)


def fresh(name, sort="i", nonneg=True):
    return Sym("%s!%d" % (name, next(_fresh)), sort, nonneg)


class Poly:
    __slots__ = ("t", "_h", "_syms", "_level", "_at")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._syms = None
        self._level = None
        self._at = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and hash(self) == hash(o) and self.t == o.t)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def is_zero(self):
        return not self.t

    def syms(self):
        if self._syms is None:
            s = frozenset()
            for m in self.t:
                for a in m:
                    s |= a.syms()
            self._syms = s
        return self._syms

    def level(self):
        if self._level is None:
            self._level = max((a.level for m in self.t for a in m), default=0)
        return self._level

    def atoms(self):
        """top-level atoms"""
        if self._at is None:
            self._at = frozenset(a for m in self.t for a in m)
        return self._at

    def all_atoms(self, acc=None):
        if acc is None:
            acc = set()
        for a in self.atoms():
            _collect(a, acc)
        return acc

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = C(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v == 0:
                t.pop(m, None)
            else:
                t[m] = v if v.__class__ is int else norm(v)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = C(o)
        return self + (-o)

    def __rsub__(self, o):
        return C(o) - self

    def scale(self, k):
        if k == 0:
            return ZERO
        return Poly({m: norm(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return self.scale(o)
        if o.is_const():
            return self.scale(o.const())
        if self.is_const():
            return o.scale(self.const())
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2, key=lambda a: a.id))
                if NAMED:
                    m = renamed(m)
                v = t.get(m, 0) + c1 * c2
                if v == 0:
                    t.pop(m, None)
                else:
                    t[m] = v if v.__class__ is int else norm(v)
        return Poly(t)

    __rmul__ = __mul__

    def degree_in(self, a):
        return max((m.count(a) for m in self.t), default=0)

    def coeff(self, a):
        """(c, r) with self = c*a + r, requires degree 1 in a and a not nested elsewhere in r/c
        (nested occurrences are left in place)."""
        c, r = {}, {}
        for m, k in self.t.items():
            n = m.count(a)
            if n == 0:
                r[m] = k
            elif n == 1:
                l = list(m)
                l.remove(a)
                c[tuple(l)] = k
            else:
                return None
        return Poly(c), Poly(r)

    def __repr__(self):
        return show_poly(self)


NAMED = []      # (a, b, c): the product a*b is written c, a constant that has just this meaning


def renamed(m):
    for a, b, c in NAMED:
        while a in m and b in m:
            l = list(m)
            l.remove(a)
            l.remove(b)
            m = tuple(sorted(l + [c], key=lambda x: x.id))
    return m


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def C(k):
    if isinstance(k, float):
        k = Fraction(k)
    k = norm(k)
    return Poly({(): k}) if k != 0 else ZERO


ZERO = Poly({})
ONE = C(1)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({(x,): 1})
    return C(x)


def _collect(a, acc):
    if a in acc:
        return
    acc.add(a)
    for x in a.args:
        if isinstance(x, Poly):
            for b in x.atoms():
                _collect(b, acc)
        elif isinstance(x, Cond):
            x.all_atoms(acc)


# ---------------------------------------------------------------- conditions
_conds = {}


class Cond:
    """kind: 'true','false','ge'(p>=0),'eq'(p==0),'ne','and','or','op'(opaque bool),'not' of op"""
    __slots__ = ("kind", "args", "_syms", "_level", "id", "_not")

    def syms(self):
        if self._syms is None:
            s = frozenset()
            for a in self.args:
                if isinstance(a, (Poly, Cond)):
                    s |= a.syms()
                elif isinstance(a, Atom):
                    s |= a.syms()
            self._syms = s
        return self._syms

    def level(self):
        if self._level is None:
            self._level = max((a.level() for a in self.args if isinstance(a, (Poly, Cond))), default=0)
        return self._level

    def all_atoms(self, acc=None):
        if acc is None:
            acc = set()
        for a in self.args:
            if isinstance(a, (Poly, Cond)):
                a.all_atoms(acc)
            elif isinstance(a, Atom):
                _collect(a, acc)
        return acc

    def __repr__(self):
        return show_cond(self)


def mk_cond(kind, args):
    key = (kind, args)
    c = _conds.get(key)
    if c is None:
        c = Cond()
        c.kind, c.args = kind, args
        c._syms = None
        c._level = None
        c._not = None
        c.id = next(_counter)
        _conds[key] = c
    return c


TRUE = mk_cond("true", ())
FALSE = mk_cond("false", ())


def _content(p):
    """positive gcd of coefficients over non-constant monomials"""
    from math import gcd
    g = 0
    for m, c in p.t.items():
        if m == ():
            continue
        if isinstance(c, Fraction):
            return 1
        g = gcd(g, abs(c))
    return g or 1


def is_int(p):
    return all(a.sort == "i" for m in p.t for a in m)


def GE(p):
    if p.is_const():
        return TRUE if p.const() >= 0 else FALSE
    g = _content(p)
    if g > 1 and is_int(p):
        c = p.const()
        t = {m: k // g for m, k in p.t.items() if m != ()}
        q = c // g
        if q:
            t[()] = q
        p = Poly(t)
    return mk_cond("ge", (p,))


def _signnorm(p):
    k = min((m for m in p.t if m != ()), key=lambda m: (len(m), [a.id for a in m]))
    return -p if p.t[k] < 0 else p


def EQ(p):
    if p.is_const():
        return TRUE if p.is_zero() else FALSE
    g = _content(p)
    if g > 1 and is_int(p):
        c = p.const()
        if c % g:
            return FALSE
        p = Poly({m: k // g for m, k in p.t.items()})
    return mk_cond("eq", (_signnorm(p),))


def NE(p):
    return NOT(EQ(p))


def LT(a, b):
    return GE(b - a - ONE)


def LE(a, b):
    return GE(b - a)


def NOT(c):
    n = c._not
    if n is None:
        n = c._not = _NOT(c)
        if n._not is None:
            n._not = c
    return n


def _NOT(c):
    k = c.kind
    if k == "true":
        return FALSE
    if k == "false":
        return TRUE
    if k == "ge":
        if is_int(c.args[0]):
            return GE(-c.args[0] - ONE)
        return mk_cond("not", (c,))
    if k == "eq":
        return mk_cond("ne", c.args)
    if k == "ne":
        return mk_cond("eq", c.args)
    if k == "and":
        return OR(*[NOT(x) for x in c.args])
    if k == "or":
        return AND(*[NOT(x) for x in c.args])
    if k == "not":
        return c.args[0]
    return mk_cond("not", (c,))


_memo = {}


def AND(*cs):
    key = ("and", cs)
    r = _memo.get(key)
    if r is None:
        r = _memo[key] = _AND(*cs)
    return r


def OR(*cs):
    key = ("or", cs)
    r = _memo.get(key)
    if r is None:
        r = _memo[key] = _OR(*cs)
    return r


def _AND(*cs):
    out = []
    seen = set()
    for c in cs:
        if c.kind == "true":
            continue
        if c.kind == "false":
            return FALSE
        for x in (c.args if c.kind == "and" else (c,)):
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if NOT(x) in seen:
            return FALSE
    for x in out:
        # unit propagation and absorption: A & (!A | B) = A & B, A & (A | B) = A
        if x.kind != "or":
            continue
        keep = []
        hit = False
        for d in x.args:
            if d in seen or (d.kind == "and" and all(e in seen for e in d.args)):
                hit = True
                keep = None
                break
            if NOT(d) in seen or (d.kind == "and" and any(NOT(e) in seen for e in d.args)):
                hit = True
                continue
            if d.kind == "and":
                es = [e for e in d.args if e not in seen]
                if len(es) < len(d.args):
                    hit = True
                    d = AND(*es)
            keep.append(d)
        if hit:
            rest = [y for y in out if y is not x]
            return AND(*rest) if keep is None else AND(*rest, OR(*keep))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk_cond("and", tuple(sorted(out, key=lambda c: c.id)))


def _OR(*cs):
    out = []
    seen = set()
    for c in cs:
        if c.kind == "false":
            continue
        if c.kind == "true":
            return TRUE
        for x in (c.args if c.kind == "or" else (c,)):
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if NOT(x) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    if len(out) <= 8:
        r = _or_reduce(out)
        if r is not None:
            return OR(*r)
    return mk_cond("or", tuple(sorted(out, key=lambda c: c.id)))


def _or_reduce(out):
    """one simplification step on a pair of disjuncts: absorption, A&c | A&!c = A, A&c | !c = A | !c"""
    ls = [frozenset(x.args) if x.kind == "and" else frozenset((x,)) for x in out]
    for i in range(len(out)):
        for j in range(len(out)):
            if i == j:
                continue
            d1, d2 = ls[i] - ls[j], ls[j] - ls[i]
            rest = [x for k, x in enumerate(out) if k != i and k != j]
            if not d1:
                return rest + [out[i]]
            if len(d1) == 1 and len(d2) == 1:
                if NOT(next(iter(d1))) is next(iter(d2)):
                    return rest + [AND(*sorted(ls[i] & ls[j], key=lambda c: c.id))]
            elif len(d2) == 1:
                # out[j] = B & n, out[i] = B & (c1 & ...): a factor of out[i] is the negation of n
                n = NOT(next(iter(d2)))
                if n in d1:
                    return rest + [out[j], AND(*sorted(ls[i] - {n}, key=lambda c: c.id))]
    return None


def OPAQUE(*key):
    return mk_cond("op", tuple(key))


# ---------------------------------------------------------------- compound atoms
def zero_test(c):
    """(x, True) if c says x >= 1, (x, False) if c says x == 0, for a nonnegative integer atom x"""
    t = c.args[0].t
    if len(t) > 2:
        return None
    ms = [m for m in t if m]
    if len(ms) != 1 or len(ms[0]) != 1:
        return None
    x = ms[0][0]
    k = t.get((), 0)
    if not x.nonneg or x.sort != "i":
        return None
    if c.kind == "ge":
        if t[ms[0]] == 1 and k == -1:
            return x, True
        if t[ms[0]] == -1 and k == 0:
            return x, False
    elif c.kind == "eq" and k == 0 and len(t) == 1:
        return x, False
    return None


def ITE(c, a, b):
    if c.kind == "true":
        return a
    if c.kind == "false":
        return b
    if a == b:
        return a
    sort = "i" if is_int(a) and is_int(b) else "r"
    # ite(x >= 1, f(x), f(0)) = f(x) for an x >= 0
    if c.kind in ("ge", "eq"):
        z = zero_test(c)
        if z is not None:
            x, pos = z
            big, small = (a, b) if pos else (b, a)
            if x in big.all_atoms() and subst(big, {x: ZERO}) == small:
                return big
    # canonical polarity
    n = NOT(c)
    if n.id < c.id:
        c, a, b = n, b, a
    return P(mk_atom("ite", (c, a, b), sort, poly_nonneg(a) and poly_nonneg(b)))


def poly_nonneg(p):
    return all(c > 0 and all(a.nonneg for a in m) for m, c in p.t.items())


def DIV(p, q):
    """floor division atom; only nonneg p, positive q are created by the executor"""
    if q == ONE:
        return p
    if p.is_const() and q.is_const():
        return C(p.const() // q.const())
    return P(mk_atom("div", (p, q), "i", True))


def LOAD(arr, idx, sort, nonneg=False):
    return P(mk_atom("load", (arr, idx), sort, nonneg))


def FUN(name, *args, sort="r", nonneg=False):
    return P(mk_atom("fun", (name,) + tuple(args), sort, nonneg))


def bound(level, sort="i"):
    return mk_atom("bound", (level,), sort, True)


def SUM(var, count, body):
    """sum_{var=0}^{count-1} body ; split into monomials, invariant factors pulled out"""
    if body.is_zero() or count.is_zero():
        return ZERO
    res = ZERO
    for m, c in body.t.items():
        inv = [a for a in m if var not in a.syms()]
        dep = [a for a in m if var in a.syms()]
        coef = Poly({tuple(inv): c})
        if not dep:
            res = res + coef * count
            continue
        b = Poly({tuple(dep): 1})
        res = res + coef * _sum1(var, count, b)
    return res


def _sum1(var, count, b):
    if count.is_const() and count.const() <= 0:
        return ZERO
    if count.is_const() and count.const() == 1:
        return subst(b, {var: ZERO})
    lv = b.level() + 1
    bv = bound(lv)
    nb = subst(b, {var: P(bv)})
    sort = "i" if is_int(b) else "r"
    return P(mk_atom("sum", (bv, count, nb), sort, poly_nonneg(nb)))


# ---------------------------------------------------------------- substitution
def subst(x, mp, memo=None):
    """replace Sym/Bound (or any atom) by Poly, everywhere"""
    if not mp:
        return x
    if memo is None:
        memo = {}
    keys = set(mp)
    return _subst(x, mp, keys, memo)


def _touch(obj, keys, plain):
    if plain:
        return not keys.isdisjoint(obj.syms())
    if not keys.isdisjoint(obj.syms()):
        return True
    acc = obj.all_atoms() if isinstance(obj, (Poly, Cond)) else None
    if acc is None:
        acc = set()
        _collect(obj, acc)
    return not keys.isdisjoint(acc)


def _subst(x, mp, keys, memo):
    plain = all(k.kind in ("sym", "bound") for k in keys)
    return _S(mp, keys, memo, plain).go(x)


class _S:
    def __init__(self, mp, keys, memo, plain):
        self.mp, self.keys, self.memo, self.plain = mp, keys, memo, plain

    def go(self, x):
        if isinstance(x, Poly):
            if not _touch(x, self.keys, self.plain):
                return x
            r = self.memo.get(x)
            if r is None:
                out = ZERO
                for m, c in x.t.items():
                    if not any(_touch(a, self.keys, self.plain) for a in m):
                        out = out + Poly({m: c})
                        continue
                    p = C(c)
                    for a in m:
                        p = p * self.atom(a)
                    out = out + p
                r = out
                self.memo[x] = r
            return r
        if isinstance(x, Cond):
            if not _touch(x, self.keys, self.plain):
                return x
            r = self.memo.get(x)
            if r is None:
                k = x.kind
                if k == "ge":
                    r = GE(self.go(x.args[0]))
                elif k == "eq":
                    r = EQ(self.go(x.args[0]))
                elif k == "ne":
                    r = NE(self.go(x.args[0]))
                elif k == "and":
                    r = AND(*[self.go(a) for a in x.args])
                elif k == "or":
                    r = OR(*[self.go(a) for a in x.args])
                elif k == "not":
                    r = NOT(self.go(x.args[0]))
                else:
                    r = mk_cond(k, tuple(self.go(a) if isinstance(a, (Poly, Cond)) else a for a in x.args))
                self.memo[x] = r
            return r
        return x

    def atom(self, a):
        r = self.mp.get(a)
        if r is not None:
            return r
        if not _touch(a, self.keys, self.plain):
            return P(a)
        r = self.memo.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == "ite":
            r = ITE(self.go(a.args[0]), self.go(a.args[1]), self.go(a.args[2]))
        elif k == "div":
            r = simp_div(self.go(a.args[0]), self.go(a.args[1]))
        elif k == "load":
            r = LOAD(a.args[0], self.go(a.args[1]), a.sort, a.nonneg)
        elif k == "sum":
            v = fresh("s")
            body = _S({**self.mp, a.args[0]: P(v)}, self.keys | {a.args[0]}, {}, self.plain).go(a.args[2])
            r = SUM(v, self.go(a.args[1]), body)
        elif k == "fun":
            r = P(mk_atom("fun", tuple(self.go(x) if isinstance(x, (Poly, Cond)) else x for x in a.args), a.sort, a.nonneg))
        else:
            r = P(mk_atom(k, tuple(self.go(x) if isinstance(x, (Poly, Cond)) else x for x in a.args), a.sort, a.nonneg))
        self.memo[a] = r
        return r


def mono_div(m, d):
    """m / d for monomials (tuples), or None"""
    l = list(m)
    for a in d:
        if a in l:
            l.remove(a)
        else:
            return None
    return tuple(l)


def poly_divmod(p, q):
    """p = q*X + E, X collecting what divides syntactically w.r.t. leading monomial of q"""
    if q.is_const():
        k = q.const()
        X, E = {}, {}
        for m, c in p.t.items():
            if isinstance(c, Fraction):
                return ZERO, p
            d = c // k
            if d:
                X[m] = d
            if c - d * k:
                E[m] = c - d * k
        return Poly(X), Poly(E)
    lead = max(q.t, key=lambda m: (len(m), [a.id for a in m]))
    lc = q.t[lead]
    X = ZERO
    E = p
    for _ in range(64):
        best = None
        for m, c in E.t.items():
            d = mono_div(m, lead)
            if d is not None and (isinstance(c, Fraction) or c % lc == 0):
                key = (len(m), [a.id for a in m])
                if best is None or key > best[0]:
                    best = (key, Poly({d: norm(Fraction(c) / lc)}))
        if best is None:
            break
        X = X + best[1]
        E = E - best[1] * q
    return X, E


def simp_div(p, q):
    """structural simplification only (always valid for q>0): exact multiples"""
    if p.is_const() and q.is_const() and q.const() > 0:
        return C(p.const() // q.const())
    X, E = poly_divmod(p, q)
    if E.is_zero():
        return X
    if q.is_const() and E.is_const() and 0 <= E.const() < q.const():
        return X
    return DIV(p, q)


# ---------------------------------------------------------------- printing
def show_atom(a):
    k = a.kind
    if k == "sym":
        return str(a.args[0])
    if k == "bound":
        return "$%d" % a.args[0]
    if k == "ite":
        return "ite(%r, %r, %r)" % a.args
    if k == "div":
        return "(%r div %r)" % a.args
    if k == "load":
        return "%s[%r]" % (a.args[0] if isinstance(a.args[0], str) else "/".join(map(str, a.args[0])), a.args[1])
    if k == "sum":
        return "SUM{%r<%r}(%r)" % a.args
    return "%s(%s)" % (k if k != "fun" else a.args[0], ", ".join(repr(x) for x in (a.args if k != "fun" else a.args[1:])))


def show_poly(p):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda kv: (-len(kv[0]), [a.id for a in kv[0]])):
        s = "*".join(map(show_atom, m))
        if not m:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s*%s" % (c, s)
        out.append(s)
    return " + ".join(out).replace("+ -", "- ")


def show_cond(c):
    k = c.kind
    if k in ("true", "false"):
        return k
    if k == "ge":
        return "%r >= 0" % c.args
    if k == "eq":
        return "%r == 0" % c.args
    if k == "ne":
        return "%r != 0" % c.args
    if k == "and":
        return "(" + " & ".join(map(repr, c.args)) + ")"
    if k == "or":
        return "(" + " | ".join(map(repr, c.args)) + ")"
    if k == "not":
        return "!(%r)" % c.args
    return "op" + repr(c.args)
