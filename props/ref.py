"""Contracts of src/reference_kernels and src/util (real matrices over the reals)."""
from contract import *

MAXDIM = 1 << 29          # N*N 8-byte elements must be addressable


def dot(A, ra, sa, B, rb, sb, n):
    """sum_k A[ra + k*sa] * B[rb + k*sb]"""
    k = fresh("k")
    return SUM(k, n, LOAD(A, ra + P(k) * P(sa), "r") * LOAD(B, rb + P(k) * P(sb), "r"))


def naive(fn, transposed):
    def f(c):
        N = c.size0("N", MAXDIM)
        ret = c.out("ret")
        A = c.vector("A", N * N, writable=False)
        B = c.vector("B", N * N, writable=False)
        c.run(fn, ret, N, A, B)
        c.vec_size_is("result is N x N", ret, N * N)

        def post(ctx, i, j):
            want = dot("A", i * N, 1, "B", j * N, 1, N) if transposed else dot("A", i * N, 1, "B", j, N, N)
            c.eq("C[i][j] == sum_k A[i][k]*B[k][j]", c.elem(ret, i * N + j, ctx), want, ctx)
        c.forall([("i", N), ("j", N)], post)
        c.unchanged("A", "B")
    return f


def kernel(fn, transposed, blocked=False):
    def f(c):
        N = c.size0("N", MAXDIM)
        if blocked:
            b4 = c.size0("b4", MAXDIM)
            b = b4 * C(4)
        else:
            b = c.size0("b", MAXDIM)
        x = c.size("x", 0, MAXDIM)
        y = c.size("y", 0, MAXDIM)
        c.assume(GE(N - b - x), GE(N - b - y))
        A = c.vector("A", N * N, writable=False)
        B = c.vector("B", N * N, writable=False)
        Cm = c.vector("C", b * b)
        if blocked:
            bi = c.size("block_input", 1, 1 << 40)
            c.assume(GE(C(1 << 58) - bi * b))
            c.run(fn, A, B, Cm, N, x, y, b, bi)
        else:
            c.run(fn, A, B, Cm, N, x, y, b)

        def post(ctx, i, j):
            want = dot("A", (x + i) * N, 1, "B", (y + j) * N, 1, N) if transposed else dot("A", (x + i) * N, 1, "B", y + j, N, N)
            if blocked:
                want = LOAD("C", i * b + j, "r") + want      # accumulates: callers pass zeros
            c.eq("C[i][j] == sum_k A[x+i][k]*B[k][y+j]", c.cell(c.data("C"), i * b + j, ctx), want, ctx)
        c.forall([("i", b), ("j", b)], post)
        c.unchanged("A", "B")
    return f


def transpose(c):
    N = c.size0("N", MAXDIM)
    ret = c.out("ret")
    org = c.vector("org", N * N, writable=False)
    c.run("vc_transpose", ret, N, org)
    c.vec_size_is("result is N x N", ret, N * N)

    def post(ctx, i, j):
        c.eq("result[i][j] == org[j][i]", c.elem(ret, i * N + j, ctx), LOAD("org", j * N + i, "r"), ctx)
    c.forall([("i", N), ("j", N)], post)
    c.unchanged("org")


def transpose_rect(fn):
    def f(c):
        so = c.size0("stride_org", 1 << 59)
        sr = c.size0("stride_result", 1 << 59)
        c.assume(GE(C(1 << 59) - so * sr))
        ret = c.out("ret")
        org = c.vector("org", so * sr, writable=False)
        c.run(fn, ret, so, sr, org)
        c.vec_size_is("result has as many elements as the input", ret, so * sr)

        def post(ctx, i, j):
            c.eq("result[i][j] == org[j][i]", c.elem(ret, i * sr + j, ctx), LOAD("org", j * so + i, "r"), ctx)
        c.forall([("i", so), ("j", sr)], post)
        c.unchanged("org")
    return f


def identity(c):
    N = c.size0("N", MAXDIM)
    ret = c.out("ret")
    c.run("vc_identity", ret, N)
    c.vec_size_is("result is N x N", ret, N * N)

    def diag(ctx, i):
        c.eq("1 on the diagonal", c.elem(ret, i * N + i, ctx), ONE, ctx)
    c.forall([("i", N)], diag)

    def off(ctx, i, j):
        for s in (GE(i - j - ONE), GE(j - i - ONE)):
            c2 = ctx.extend(s)
            c.eq("0 off the diagonal", c.elem(ret, i * N + j, c2), ZERO, c2)
    c.forall([("i", N), ("j", N)], off)


def enumerating(c):
    N = c.size0("N", 1 << 26)
    ret = c.out("ret")
    c.run("vc_enumerating", ret, N)
    c.vec_size_is("result is N x N", ret, N * N)

    def post(ctx, i, j):
        c.eq("element (i,j) is i*N+j", c.elem(ret, i * N + j, ctx), i * N + j, ctx)
    c.forall([("i", N), ("j", N)], post)
