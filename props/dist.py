"""Contracts of the components of the distributed variants."""
from contract import *
from ref import dot

LIMIT = 1 << 21


def inside(c, n=None):
    """a block (x, y, n) inside an N x N matrix"""
    N = c.size0("N", LIMIT)
    x, y, n = c.size("x"), c.size("y"), c.size("n") if n is None else n
    c.assume(GE(N - x - n), GE(N - y - n))
    return N, x, y, n


def submatrix(transposed, blocked=None):
    """blocked: None - no input blocking, True - the blocked kernel runs, False - the block is no multiple of 4"""
    def f(c):
        N = c.size0("N", LIMIT)
        x, y = c.size("x"), c.size("y")
        if blocked:
            n = ZERO if c.flag("empty") else c.size("n4", 1, LIMIT) * C(4)
        elif blocked is False:
            n = c.size("n4", 0, LIMIT) * C(4) + c.size("rest", 1, 3)
        else:
            n = c.size("n", 0, LIMIT)
        c.assume(GE(N - x - n), GE(N - y - n))
        b = ZERO if blocked is None else c.size("block_input", 1, LIMIT)
        ret = c.out("ret")
        A = c.vector("A", N * N, writable=False)
        B = c.vector("B", N * N, writable=False)
        c.run("vc_submatrix", ret, N, A, B, TRUE if transposed else FALSE, b, x, y, n)
        c.vec_size_is("the block is n x n", ret, n * n)

        def post(ctx, i, j):
            off, st = ((y + j) * N, ONE) if transposed else (y + j, N)
            c.eq("block[i][j] == sum_k A[x+i][k]*B[y+j]", c.elem(ret, i * n + j, ctx), dot("A", (x + i) * N, 1, "B", off, 1 if transposed else N, N), ctx)
        if blocked:
            for u in range(4):
                for v in range(2):
                    c.forall([("i", n), ("j", n)], lambda ctx, i, j: post(ctx.extend(GE(n - i.scale(4) - C(u) - ONE), GE(n - j.scale(2) - C(v) - ONE)), i.scale(4) + C(u), j.scale(2) + C(v)))
        else:
            c.forall([("i", n), ("j", n)], post)
        c.unchanged("A", "B")
    return f


def extract(c):
    """the n x n block goes to (x,y) of the 2n x 2n matrix, everything else keeps its value"""
    n = c.size("n", 0, LIMIT)
    x, y = c.size("x"), c.size("y")
    c.assume(GE(n - x), GE(n - y))
    M = c.vector("C", (n * n).scale(4))
    S = c.vector("small", n * n, writable=False)
    c.run("vc_extract", M, S, x, y, n)
    at = lambda ctx, i, j: c.elem(M, i * n.scale(2) + j, ctx)
    c.forall([("i", n), ("j", n)], lambda ctx, i, j: c.eq("C[x+i][y+j] == small[i][j]", at(ctx, x + i, y + j), LOAD("small", i * n + j, "r"), ctx))
    def rest(k):
        def post(ctx, i, j):
            out = [GE(x - i - ONE), GE(i - x - n), GE(y - j - ONE), GE(j - y - n)][k]
            ctx = ctx.extend(out)
            if not ctx.infeasible(1):
                c.eq("the rest of C is unchanged", at(ctx, i, j), LOAD("C", i * n.scale(2) + j, "r"), ctx)
        return post
    for k in range(4):
        c.forall([("i", n.scale(2)), ("j", n.scale(2))], rest(k))


def distribute(split):
    """split: the block is even and larger than block_result"""
    def f(c):
        h = c.size("h", 1, LIMIT) if split else None
        N, x, y, n = inside(c, h.scale(2) if split else None)
        r = c.size("block_result")
        if split:
            c.assume(GE(n - r - ONE))
        elif c.flag("odd"):
            h = c.size("h", 0, LIMIT)
            c.assume(EQ(n - h.scale(2) - ONE))
            h = n
        else:
            c.assume(GE(r - n))
            h = n
        ret = c.out("ret")
        P = c.raw("P", N * N, writable=False)
        c.run("vc_distribute", ret, N, P, r, x, y, n, h)
        c.vec_size_is("the block is n x n", ret, n * n)

        def post(ctx, i, j):
            c.eq("block[i][j] == P[x+i][y+j]", c.elem(ret, i * n + j, ctx), LOAD("P", (x + i) * N + y + j, "r"), ctx)
        if split:
            for u in (ZERO, h):
                for v in (ZERO, h):
                    c.forall([("i", h), ("j", h)], lambda ctx, i, j: post(ctx, i + u, j + v))
        else:
            c.forall([("i", n), ("j", n)], post)
        c.unchanged("P")
    return f


def single(reps):
    return lambda c: single_n(c, reps)


def single_n(c, reps):
    N = ZERO if c.flag("N=0") else c.size("N", 1, LIMIT)
    ret = c.out("ret")
    A, B = c.vector("A", N * N, writable=False), c.vector("B", N * N, writable=False)
    P = c.raw("P", N * N, writable=False)
    tr = c.size("transposed", 0, 1)
    c.run("vc_single", ret, N, A, B, P, EQ(tr - ONE), c.size("block_result"), c.size("block_input"), C(reps))
    c.vec_size_is("result is N x N", ret, N * N)
    c.forall([("i", N), ("j", N)], lambda ctx, i, j: c.eq("C[i][j] == P[i][j]", c.elem(ret, i * N + j, ctx), LOAD("P", i * N + j, "r"), ctx))
    c.unchanged("A", "B", "P")


def insert(c):
    """the work package's block goes to its place in the result, everything else keeps its value"""
    N, x, y, n = inside(c)
    i0, j0 = c.size("i0"), c.size("j0")
    c.assume(GE(N - i0 - ONE), GE(N - j0 - ONE))
    ret = c.out("ret")
    A, B = c.vector("A", N * N, writable=False), c.vector("B", N * N, writable=False)
    S = c.vector("small", n * n, writable=False)
    c.run("vc_insert", ret, N, A, B, S, x, y, n, i0, j0)
    c.vec_size_is("result is N x N", ret, N * N)
    c.forall([("i", n), ("j", n)], lambda ctx, i, j: c.eq("C[x+i][y+j] == small[i][j]", c.elem(ret, (x + i) * N + y + j, ctx), LOAD("small", i * n + j, "r"), ctx))
    for k in range(4):
        ctx = c.ctx().extend([GE(x - i0 - ONE), GE(i0 - x - n), GE(y - j0 - ONE), GE(j0 - y - n)][k])
        if k == 0:
            e = GE((x - i0 - ONE) * N)
            c.oblige("the row distance is a multiple of N", e, ctx)
            ctx = ctx.extend(e)
        if not ctx.infeasible(1):
            c.eq("the rest of C is unchanged (%s)" % ("above", "below", "left", "right")[k], c.elem(ret, i0 * N + j0, ctx), C(7), ctx)
