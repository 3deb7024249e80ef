"""Contracts of otherExperiments/*.cpp: every variant computes C = A*B (or C += A*B) over the reals."""
from contract import *
from ref import dot

# n is a uint32_t; n*n elements of 8 bytes must be addressable
NMAX = 1 << 29


def mult(name, unit=1, transposed=False, acc=False, align=16):
    def f(c):
        q = c.size0("n/%d" % unit if unit > 1 else "n", NMAX // unit)
        n = q * C(unit)
        A = c.raw("A", n * n, writable=False, align=align)
        B = c.raw("B", n * n, writable=False, align=align)
        Cm = c.raw("C", n * n, align=align)
        c.run("_Z%d%sPdS_S_j" % (len(name), name), A, B, Cm, n)

        def post(ctx, i, j):
            want = dot("A", i * n, 1, "B", j * n, 1, n) if transposed else dot("A", i * n, 1, "B", j, n, n)
            if acc:
                want = LOAD("C", i * n + j, "r") + want
            c.eq("C[i][j] == %ssum_k A[i][k]*B[k][j]" % ("old C[i][j] + " if acc else ""), c.cell(Cm, i * n + j, ctx), want, ctx)
        c.forall([("i", n), ("j", n)], post)
        c.unchanged("A", "B")
    return f
