"""Contract of learning/MetaProgrammingCPP.cpp."""
from contract import *
from layout import fold, prod
import ir


def looper(D):
    def f(c):
        mn = c.size("min", 0, 1 << 62)
        if c.flag("empty"):
            s = c.size("s", 0, 1 << 62)
            c.assume(GE(mn - s))
            mx, m = mn - s, ZERO
        else:
            m = c.size("m", 1, 1 << 50)
            mx = mn + m
        N = prod([m] * D)
        for k in range(1, D + 1):
            c.assume(GE(C(1 << 55) - prod([m] * k)))
        log = c.raw("log", N * C(D), sort="i")
        cnt = c.words("count", [ZERO], writable=True)
        c.run("vc_looper%d" % D, mn, mx, log, cnt)
        I64 = ir.Ty("int", 64)
        c.eq("the body ran exactly once per index", c.cell(cnt, 0, ty=I64), N)
        if c.anyflag():
            return

        def post(ctx, *a):
            for d in range(D):
                c.eq("call number k sees index k in lexicographic order (direction %d)" % d,
                     c.cell(log, fold(a, [m] * D) * C(D) + C(d), ctx, I64), mn + a[d], ctx)
        c.forall([("a%d" % d, m) for d in range(D)], post)
    return f
