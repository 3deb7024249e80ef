"""Contract of the tiled kernel (Vc): padded, three-level blocked multiplication."""
from contract import *
from ref import dot

NMAX = 1 << 28


def product(c, got, i, j, N, tr, ctx, known=None):
    """the element (i,j) of A*B, with B given transposed if tr"""
    for k, (b, s) in enumerate(((j, N), (j * N, 1))):
        if tr.is_const() and tr.const() != k:
            continue
        x = ctx.extend(EQ(tr - C(k)))
        if not x.infeasible(0):
            name = "C[i][j] == sum_k A[i][k]*B[%s]" % ("k][j", "j][k")[k]
            e = dot("A", i * N, 1, "B", b, s, N)
            if k and known:
                c.eq_or_known(known, name, got(x), e, dot("A", i * N, 1, "B", j, N, N), x)
            else:
                c.eq(name, got(x), e, x)


def tiled(kind, reps=None, fn="vc_kernel_tiled", transposed=None):
    """kind: which of the block extents (420 in x, 256 in y and k) divide N"""
    def f(c):
        if kind == "both":
            N = c.size0("t", NMAX // 26880) * C(26880)
        elif kind == "x":
            N = c.size("q", 1, NMAX // 420) * C(420)
        elif kind == "y":
            N = c.size("p", 1, NMAX // 256) * C(256)
        else:
            N = c.size("N", 1, NMAX)
        # ghost block counts of the padded matrices
        for k, name, kinds in ((256, "p", ("x", "none")), (420, "w", ("y", "none"))):
            if kind in kinds:
                b = c.size(name, 1, NMAX)
                c.assume(GE(b.scale(k) - N - ONE), GE(N + C(k - 1) - b.scale(k)))
                c.X.divhints.append((b - ONE, C(k)))
        ret = c.out("ret")
        A = c.vector("A", N * N, writable=False)
        B = c.vector("B", N * N, writable=False)
        rep = c.size("repetitions", 1, 1 << 40) if reps is None else C(reps)
        tr = c.size("transposed", 0, 1) if transposed is None else C(transposed)
        c.run(fn, ret, N, A, B, *([EQ(tr - ONE)] if transposed is None else []), rep, ZERO)
        c.vec_size_is("result is N x N", ret, N * N)

        def post(ctx, a, x, b, y):
            i = a * C(35) + x
            j = b * C(16) + y
            ctx = ctx.extend(GE(N - i - ONE), GE(N - j - ONE))
            product(c, lambda x: c.elem(ret, i * N + j, x), i, j, N, tr, ctx)
        c.forall([("a", N), ("x", C(35)), ("b", N), ("y", C(16))], post)
        c.unchanged("A", "B")
    return f


def ktest(reps=None, transposed=None):
    """the blocked kernel without remainder handling: N is a multiple of 512"""
    def f(c):
        N = c.size0("t", NMAX // 512) * C(512)
        ret = c.out("ret")
        A = c.vector("A", N * N, writable=False)
        B = c.vector("B", N * N, writable=False)
        rep = c.size("repetitions", 1, 1 << 40) if reps is None else C(reps)
        tr = c.size("transposed", 0, 1) if transposed is None else C(transposed)
        c.run("vc_kernel_test", ret, N, A, B, EQ(tr - ONE), rep, ZERO)
        c.vec_size_is("result is N x N", ret, N * N)

        def post(ctx, u, a, x, b, y, v):
            x = x * C(5) + C(u)
            i = a * C(64) + x
            j = b * C(32) + y * C(8) + v
            ctx = ctx.extend(GE(N - i - ONE), GE(N - j - ONE), GE(C(63) - x))
            product(c, lambda x: c.elem(ret, i * N + j, x), i, j, N, tr, ctx, "kernel_test-transposed")
        for u in range(5):
            c.forall([("a", N), ("x", C(13)), ("b", N), ("y", C(4)), ("v", C(8))], lambda ctx, *i: post(ctx, u, *i))
        c.unchanged("A", "B")
    return f
