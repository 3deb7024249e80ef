"""Contracts of the HPX variants."""
from contract import *
from ref import dot
from tiled import tiled

NMAX = 1 << 26
LIMIT = 1 << 21      # the number of products of a multiplication fits into 64 bits


def rounded(c, name, N, k):
    """ghost: N rounded up to a multiple of k is name * k"""
    w = c.size0(name, NMAX)
    if w.atoms() and k.atoms():
        c.product(name + "*", (w, k))
    c.assume(GE(w * k - N), GE(N + k - ONE - w * k))
    c.X.divhints.append((w, k))
    return w, w * k


def semi(wide):
    """wide: sign of (columns - rows) after padding"""
    def f(c):
        N = c.size0("N", NMAX)
        b = c.size("block_input", 1, NMAX)
        (w, R), (_, K) = rounded(c, "w", N, C(4)), rounded(c, "p", N, b)
        c.assume(*{1: [GE(K - R - ONE)], 0: [GE(K - R), GE(R - K)], -1: [GE(R - K - ONE)]}[wide])
        c.lemma(GE(w.scale(2) - c.div(N + ONE, 2)))
        ret = c.out("ret")
        A = c.vector("A", N * N, writable=False)
        B = c.vector("B", N * N, writable=False)
        c.run("vc_semi", ret, N, A, B, c.size("block_result"), b)
        c.vec_size_is("result is N x N", ret, N * N)

        def post(ctx, x, u, y, v):
            i, j = x * C(4) + C(u), y * C(2) + C(v)
            ctx = ctx.extend(GE(N - i - ONE), GE(N - j - ONE))
            c.eq("C[i][j] == sum_k A[i][k]*B[j][k]", c.elem(ret, i * N + j, ctx), dot("A", i * N, 1, "B", j * N, 1, N), ctx)
        for u in range(4):
            for v in range(2):
                c.forall([("x", N), ("y", N)], lambda ctx, x, y: post(ctx, x, u, y, v))
        c.unchanged("A", "B")
    return f


def increment(fn, dim, carry, unit=False):
    """one step of an odometer iterator: directions below carry are at their last position, direction carry is not;
    unit: the iterator starts at 0 and steps by 1"""
    def f(c):
        lo, hi, st, n, i = [], [], [], [], []
        for d in range(dim):
            b, k = c.size("hi%d" % d), c.size("count%d" % d, 1)
            a, s = (ZERO, ONE) if unit else (c.size("lo%d" % d), c.size("step%d" % d, 1))
            if c.flag("empty%d" % d):
                c.assume(GE(a - b), EQ(k - ONE))
            else:
                c.assume(GE(b - a - (k - ONE) * s - ONE), GE(a + k * s - b))
            p = k - ONE if d < carry else c.size("pos%d" % d, 0)
            c.assume(GE(k - ONE - p) if d != carry else GE(k - p - C(2)))
            for x, y in ((lo, a), (hi, b), (st, s), (n, k), (i, p)):
                x.append(y)
        cur = c.words("cur", [lo[d] + i[d] * st[d] for d in range(dim)], writable=True)
        c.run(fn, C(dim), cur, c.words("lo", lo), c.words("hi", hi), c.words("step", st))
        for d in range(dim):
            e = lo[d] + i[d] * st[d]
            if carry < dim:
                e = lo[d] if d < carry else e + st[d] if d == carry else e
            c.eq("position of direction %d" % d, c.X.load(c.post, c.ctx(), Ptr(cur.obj, C(8 * d)), ir.Ty("int", 64)), e)
    return f


def blocked(fn):
    """block sizes that divide N, B transposed"""
    def f(c):
        if c.flag("N=0"):
            q, k, N = ZERO, ZERO, ZERO
            r, b = c.size("block_result", 1, LIMIT), c.size("block_input", 1, LIMIT)
        else:
            q, r = c.size("q", 1, LIMIT), c.size("block_result", 1, LIMIT)
            k, b = c.size("k", 1, LIMIT), c.size("block_input", 1, LIMIT)
            N = c.product("N", (q, r), (k, b))
            c.assume(GE(N - ONE), GE(C(LIMIT) - N), GE(N - q), GE(N - r), GE(N - k), GE(N - b))
        c.X.divhints.append((q, r))
        c.X.divhints.append((k, b))
        ret = c.out("ret")
        A = c.vector("A", N * N, writable=False)
        B = c.vector("B", N * N, writable=False)
        c.run(fn, ret, N, A, B, r, b)
        c.vec_size_is("result is N x N", ret, N * N)

        def post(ctx, i, x, j, y):
            i, j = i * r + x, j * r + y
            c.eq("C[i][j] == sum_k A[i][k]*B[j][k]", c.elem(ret, i * N + j, ctx), dot("A", i * N, 1, "B", j * N, 1, N), ctx)
        c.forall([("i", q), ("x", r), ("j", q), ("y", r)], post)
        c.unchanged("A", "B")
    return f


def element_increment(end_of_row):
    """one step of the row-major element iterator of an array with the given stride"""
    def f(c):
        n, s, x = c.size("count", 1, NMAX), c.size("stride", 1, NMAX), c.size("x", 0, NMAX)
        y = s - ONE if end_of_row else c.size("y")
        c.assume(GE(s - ONE - y) if end_of_row else GE(s - C(2) - y), GE(n - C(2) - (x * s + y)))
        v = c.vector("container", n, writable=False)
        pos = c.out("pos", 48)
        c.run("vc_algorithms_element", v, s, x, y, pos)
        w = lambda k: c.X.load(c.post, c.ctx(), Ptr(pos.obj, C(8 * k)), ir.Ty("int", 64))
        for k, e in enumerate((x + ONE if end_of_row else x, ZERO if end_of_row else y + ONE, ZERO, ZERO, x * s + y + ONE, ZERO)):
            c.eq(("next x", "next y", "first x", "first y", "next element", "first element")[k], w(k), e)
    return f


def combined(kind, reps=None):
    """the contract of the tiled kernel, with neither operand transposed"""
    return tiled(kind, reps, "vc_combined", transposed=0)
