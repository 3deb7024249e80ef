"""Contract layer: pre-state construction, requires / ensures, ghost quantification."""
import os
import time
from terms import *
from symex import *
import symex
import prove
import sums
import ir

LIM = 1 << 60


class Failed(Exception):
    pass


class Skip(Exception):
    """this combination of contract cases cannot occur"""


class Case:
    """one contract (of one instantiation) being verified"""

    def __init__(self, mod, name, deadline=None):
        self.name = name
        self.X = Exec(mod)
        self.X.deadline = deadline
        self.hyps = []
        self.mem = {}
        self.mod = mod
        self.ret = None
        NAMED.clear()
        self.listed = getattr(self, "listed", set())     # ids of the known findings
        self.known = getattr(self, "known", set())       # those met here
        self.objs = {}
        self.frames = []
        self.ghosts = {}
        self._ctx = None
        self._flags = {}

    # ---------------------------------------------------------- requires
    def size(self, name, lo=0, hi=LIM):
        s = Sym(name)
        p = P(s)
        if lo:
            self.hyps.append(GE(p - P(lo)))
        if hi is not None:
            self.hyps.append(GE(P(hi) - p))
        return p

    def size0(self, name, hi=LIM):
        """a size that may be zero; zero is verified as a case of its own"""
        if self.flag(name + "=0"):
            return ZERO
        return self.size(name, 1, hi)

    def div(self, p, k):
        return self.X.mk_div(P(p), P(k), self.ctx())

    def assume(self, *conds):
        self.hyps.extend(conds)

    def ctx(self):
        return Ctx(None, self.hyps)

    # ---------------------------------------------------------- objects
    def array(self, name, n, sort="r", w=8, writable=True, align=16, init=True):
        o = Obj(name, P(n).scale(w), "arg", ("arr", name, sort, sort == "i") if init else "undef", align=align, writable=writable)
        o.elem = w
        self.mem[o] = ()
        self.objs[name] = o
        return o

    def raw(self, name, n, **kw):
        return Ptr(self.array(name, n, **kw), ZERO)

    def vector(self, name, n, sort="r", w=8, writable=True, null=False, align=16):
        """std::vector argument with n elements of w bytes; returns pointer to its header"""
        h = Obj(name + ".hdr", C(24), "arg", "undef")
        if null:
            self.mem[h] = (D({0: (8, NULL), 8: (8, NULL), 16: (8, NULL)}),)
            self.objs[name] = None
        else:
            o = self.array(name, n, sort, w, writable, align)
            e = Ptr(o, P(n).scale(w))
            self.mem[h] = (D({0: (8, Ptr(o, ZERO)), 8: (8, e), 16: (8, e)}),)
        h.writable = True
        self.objs[name + ".hdr"] = h
        return Ptr(h, ZERO)

    def struct_vector(self, name, vals, null=False):
        """vector whose data are the given 8-byte integer words"""
        h = Obj(name + ".hdr", C(24), "arg", "undef")
        o = Obj(name, C(8 * len(vals)), "arg", "undef")
        o.elem = 8
        o.writable = False
        self.mem[o] = (D({8 * i: (8, P(v)) for i, v in enumerate(vals)}),)
        e = Ptr(o, C(8 * len(vals)))
        self.mem[h] = (D({0: (8, Ptr(o, ZERO)), 8: (8, e), 16: (8, e)}),)
        self.objs[name] = o
        return Ptr(h, ZERO)

    def words(self, name, vals, writable=False):
        o = Obj(name, C(8 * len(vals)), "arg", "undef")
        o.elem = 8
        o.writable = writable
        self.mem[o] = (D({8 * i: (8, P(v)) for i, v in enumerate(vals)}),) if vals else ()
        self.objs[name] = o
        return Ptr(o, ZERO)

    def data(self, name):
        return Ptr(self.objs[name], ZERO)

    def real(self, name):
        return P(Sym(name, "r", False))

    def flag(self, name):
        """case distinction of the contract: the specification is verified once per value"""
        if name in self._flags:
            return self._flags[name]
        self._flags[name] = False
        return False

    def anyflag(self):
        return any(self._flags.values())

    def verify(self, fn):
        """run the specification fn for every combination of its flags"""
        todo = [{}]
        seen = set()
        obls, fns, asm = [], set(), set()
        while todo:
            fl = todo.pop()
            key = tuple(sorted(fl.items()))
            if key in seen:
                continue
            seen.add(key)
            self.__init__(self.mod, self.name, self.X.deadline)
            self._flags = dict(fl)
            try:
                fn(self)
            except Skip:
                pass
            except Failed as e:
                self.X.obls.append(Ob("contract", str(e), False, str(e), self.name))
            finally:
                obls += self.X.obls
                fns |= self.X.functions
                asm |= self.X.assumptions
                loops = self.X.loopcount
                self.X.obls = obls
            for k in self._flags:
                if k not in fl:
                    for other in ([True] if True else []):
                        n = {q: v for q, v in self._flags.items()}
                        n[k] = True
                        todo.append(n)
        self.X.obls, self.X.functions, self.X.assumptions = obls, fns, asm

    def never_returns(self, name):
        ok = self.post is None and len(self.X.throws) > 0
        self.X.obls.append(Ob("ensures", name, ok, None if ok else "throws: %r, returns: %r" % (self.X.throws, self.post is not None), self.name))

    def always_throws(self, name, exc):
        ok = self.post is None and len(self.X.throws) > 0 and all(t is not None and exc in t for g, t in self.X.throws)
        self.X.obls.append(Ob("ensures", name, ok, None if ok else "throws: %r, returns: %r" % (self.X.throws, self.post is not None), self.name))

    def out(self, name, nbytes=24):
        o = Obj(name, C(nbytes), "arg", "undef")
        self.mem[o] = ()
        self.objs[name] = o
        return Ptr(o, ZERO)

    # ---------------------------------------------------------- run
    def run(self, fname, *args, expect_throw=False):
        self.X.expect_throw = expect_throw
        ctx = self.ctx()
        self.pre = dict(self.mem)
        if ctx.infeasible(1):
            if self.anyflag():
                raise Skip()
            raise Failed("precondition of %s is contradictory (vacuous contract)" % self.name)
        args = [P(a) if isinstance(a, (int, Atom)) else a for a in args]
        v, m, g = self.X.call(fname, args, dict(self.mem), ctx, TRUE)
        self.ret = v
        self.post = m
        self.postguard = g
        if not expect_throw:
            if m is None:
                self.X.obls.append(Ob("ensures", "returns normally", False, "no normal return", fname))
                raise Failed("no normal return")
            if g.kind != "true":
                self.X.oblige(ctx, g, "ensures", "returns normally on every path")
        return v

    # ---------------------------------------------------------- ensures
    def oblige(self, name, cond, ctx=None):
        return self.X.oblige(ctx or self.ctx(), cond, "ensures", name)

    def lemma(self, cond):
        """proved from the hypotheses so far, then one of them"""
        self.X.oblige(self.ctx(), cond, "lemma", repr(cond))
        self.hyps.append(cond)

    def product(self, name, *pairs):
        """the common product a*b of the pairs of parameters, under a name of its own"""
        x = Sym(name, "i", True)
        for a, b in pairs:
            if not a.atoms() or not b.atoms():
                return ZERO
            NAMED.append((next(iter(a.atoms())), next(iter(b.atoms())), x))
        return P(x)

    def eq(self, name, a, b, ctx=None):
        ctx = ctx or self.ctx()
        if a is UNDEF:
            ok = False
        else:
            ok = sums.equal(self.X, a, b, ctx)
        detail = model = None
        if not ok:
            detail = "got %r, expected %r" % (a if a is UNDEF else sums.simp(self.X, a, ctx), b)
            model = self.X.explain(ctx, EQ(a - b) if isinstance(a, Poly) and isinstance(b, Poly) and is_int(a - b) else FALSE)
        self.X.obls.append(Ob("ensures", name, ok, detail, self.name, model))
        return ok

    def eq_or_known(self, fid, name, a, b, found, ctx=None):
        """the property a == b; where it is listed as the known finding fid, the recorded behaviour a == found instead"""
        ctx = ctx or self.ctx()
        if fid not in self.listed or (a is not UNDEF and sums.equal(self.X, a, b, ctx)):
            return self.eq(name, a, b, ctx)
        self.known.add(fid)
        return self.eq("known finding %s, nothing else: %s" % (fid, name), a, found, ctx)

    def vec_parts(self, hdr, ctx=None):
        ctx = ctx or self.ctx()
        b = self.X.load(self.post, ctx, hdr, ir.PTR)
        e = self.X.load(self.post, ctx, Ptr(hdr.obj, hdr.off + C(8)), ir.PTR)
        return b, e

    def vec_size_is(self, name, hdr, n, w=8):
        ctx = self.ctx()
        b, e = self.vec_parts(hdr)
        if isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj is e.obj:
            self.oblige(name, EQ(e.off - b.off - P(n).scale(w)))
            return
        if isinstance(b, PIte) or isinstance(e, PIte):
            self.oblige(name, EQ(self.X.ptr2int(e) - self.X.ptr2int(b) - P(n).scale(w)))
            return
        self.X.obls.append(Ob("ensures", name, False, "begin/end in different objects", self.name))

    def elem(self, hdr, idx, ctx=None, ty=None, w=8):
        ctx = ctx or self.ctx()
        b, e = self.vec_parts(hdr, ctx)
        p = self.X.padd(b, P(idx).scale(w))
        return self.X.load(self.post, ctx, p, ty or (ir.DOUBLE if w == 8 else ir.FLOAT), what="postcondition read")

    def cell(self, ptr, idx, ctx=None, ty=None, w=8):
        ctx = ctx or self.ctx()
        return self.X.load(self.post, ctx, Ptr(ptr.obj, ptr.off + P(idx).scale(w)), ty or ir.DOUBLE, what="postcondition read")

    def forall(self, ghosts, fn):
        """ghosts: [(name, count)] each in [0,count); fn(ctx, *values). Handles residue splits."""
        syms = []
        hy = []
        for n, c in ghosts:
            s = fresh("g:" + n)
            syms.append(s)
            hy += [GE(P(s)), GE(P(c) - P(s) - ONE)]
        ctx = self.ctx().extend(*hy)
        if ctx.infeasible(0):
            return          # empty domain
        self._forall(syms, [P(s) for s in syms], ctx, fn, 0)

    def _forall(self, syms, vals, ctx, fn, depth):
        snap = len(self.X.obls)
        try:
            fn(ctx, *vals)
        except NeedSplit as e:
            if depth > 5 or e.mod > 64:
                raise Unsupported(str(e))
            del self.X.obls[snap:]
            s = e.sym
            for r in range(e.mod):
                q = fresh("g:q")
                mp = {s: P(q).scale(e.mod) + C(r)}
                c2 = Ctx(None, [subst(h, mp) for h in ctx.all()] + [GE(P(q))])
                if c2.infeasible(0):
                    continue
                self._forall(syms, [subst(v, mp) for v in vals], c2, fn, depth + 1)

    def unchanged(self, *names):
        """frame: the named input objects were never written"""
        for n in names:
            o = self.objs[n]
            ok = self.post.get(o) == self.pre.get(o) if o is not None else True
            if not ok and o is not None:
                # written, but maybe only through layers that restore the value: treat as violated
                pass
            self.X.obls.append(Ob("frame", "input %s unmodified" % n, ok, None if ok else "written by the function", self.name))
