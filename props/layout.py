"""Contracts of src/memory_layout (P01-P06)."""
from contract import *

DIMS = (1, 2, 3, 4)
MAXN = 1 << 59          # elements: any vector that can exist is smaller (8-byte elements)
LIMS = 1 << 59


def fold(ix, ext):
    acc = ZERO
    for i, e in zip(ix, ext):
        acc = acc * e + i
    return acc


def prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def shape(c, D, lo=0):
    """T[d] tiles of t[d] elements per direction; the tile size divides the extent"""
    T = [c.size("T%d" % d, lo, LIMS) for d in range(D)]
    t = [c.size("t%d" % d, 1, LIMS) for d in range(D)]
    S = [a * b for a, b in zip(T, t)]
    for s in S:
        c.assume(GE(C(MAXN) - s))
    n = prod(T) * prod(t)
    # the matrix exists in memory; so does every partial extent
    c.assume(GE(C(MAXN) - n))
    for k in range(1, D):
        c.assume(GE(C(MAXN) - prod(S[k:])), GE(C(MAXN) - prod(t[k:])), GE(C(MAXN) - prod(T[k:])))
    c.assume(GE(C(MAXN) - prod(t)), GE(C(MAXN) - prod(T)))
    return T, t, S, n


def tinfo(c, t, S):
    return c.struct_vector("tiling_info", [x for d in range(len(t)) for x in (t[d], S[d])])


def tiled_ix(T, t, a, i):
    return fold(a, T) * prod(t) + fold(i, t)


def flat_ix(S, t, a, i):
    return fold([x * y + z for x, y, z in zip(a, t, i)], S)


def ghosts(T, t):
    return [("a%d" % d, x) for d, x in enumerate(T)] + [("i%d" % d, x) for d, x in enumerate(t)]


def make_tiled(D):
    def f(c):
        T, t, S, n = shape(c, D)
        ret = c.out("ret")
        org = c.vector("org", n, writable=False)
        ti = tinfo(c, t, S)
        c.run("vc_make_tiled%d" % D, ret, org, ti)
        c.vec_size_is("result has as many elements as the input", ret, n)

        def post(ctx, *g):
            a, i = g[:D], g[D:]
            c.eq("tile-major layout: result[tile a, inner i] == org[a*t+i]",
                 c.elem(ret, tiled_ix(T, t, a, i), ctx), LOAD("org", flat_ix(S, t, a, i), "r"), ctx)
        c.forall(ghosts(T, t), post)
        c.unchanged("org", "tiling_info")
    return f


def undo_tiling(D):
    def f(c):
        T, t, S, n = shape(c, D)
        ret = c.out("ret")
        tl = c.vector("tiled", n, writable=False)
        ti = tinfo(c, t, S)
        c.run("vc_undo_tiling%d" % D, ret, tl, ti)
        c.vec_size_is("result has as many elements as the input", ret, n)

        def post(ctx, *g):
            a, i = g[:D], g[D:]
            c.eq("untiled[a*t+i] == tiled[tile a, inner i]",
                 c.elem(ret, flat_ix(S, t, a, i), ctx), LOAD("tiled", tiled_ix(T, t, a, i), "r"), ctx)
        c.forall(ghosts(T, t), post)
        c.unchanged("tiled", "tiling_info")
    return f


def throws(fn, D):
    """tiling information of any other number of entries is rejected with the documented exception"""
    def f(c):
        n = c.size("n", 0, MAXN)
        k = c.size("k", 0, 1 << 50)
        c.assume(NE(k - C(D)))
        ret = c.out("ret")
        org = c.vector("org", n, writable=False)
        ti = c.vector("tiling_info", k * C(2), sort="i", writable=False)
        c.run("%s%d" % (fn, D), ret, org, ti, expect_throw=True)
        c.always_throws("rejected with memory_layout_exception", "memory_layout_exception")
    return f


# ------------------------------------------------------------------------------------------------ tile_view
def view_setup(c, D, writable=False):
    T, t, S, n = shape(c, D)
    a = [c.size("a%d" % d, 0, None) for d in range(D)]
    for x, y in zip(a, T):
        c.assume(GE(y - x - ONE))
    tl = c.vector("tiled", n, writable=writable)
    ix = c.words("tile_index", a)
    ti = tinfo(c, t, S)
    return T, t, S, n, a, tl, ix, ti


def inner(c, D, t):
    i = [c.size("i%d" % d, 0, None) for d in range(D)]
    for x, y in zip(i, t):
        c.assume(GE(y - x - ONE))
    return i


def view_read(D, how):
    def f(c):
        T, t, S, n, a, tl, ix, ti = view_setup(c, D)
        if how == "flat":
            o = c.size("o", 0, None)
            c.assume(GE(prod(t) - o - ONE))
            v = c.run("vc_view_read_flat%d" % D, tl, ix, ti, o)
        else:
            i = inner(c, D, t)
            o = fold(i, t)
            if how == "arr":
                v = c.run("vc_view_read_arr%d" % D, tl, ix, ti, c.words("inner", i))
            else:
                v = c.run("vc_view_read_call%d" % D, tl, ix, ti, *i)
        c.eq("reads element `offset` of the addressed tile", v, LOAD("tiled", fold(a, T) * prod(t) + o, "r"))
        c.unchanged("tiled", "tile_index", "tiling_info")
    return f


def view_write(D, how):
    def f(c):
        T, t, S, n, a, tl, ix, ti = view_setup(c, D, True)
        x = c.real("x")
        if how == "flat":
            o = c.size("o", 0, None)
            c.assume(GE(prod(t) - o - ONE))
            c.run("vc_view_write_flat%d" % D, tl, ix, ti, o, x)
        else:
            i = inner(c, D, t)
            o = fold(i, t)
            if how == "arr":
                c.run("vc_view_write_arr%d" % D, tl, ix, ti, c.words("inner", i), x)
            else:
                c.run("vc_view_write_call%d" % D, tl, ix, ti, x, *i)
        at = fold(a, T) * prod(t) + o
        data = c.data("tiled")
        c.eq("the addressed element is written through to the tiled vector", c.cell(data, at), x)

        def post(ctx, q):
            for side in (GE(q - at - ONE), GE(at - q - ONE)):
                c2 = ctx.extend(side)
                if not c2.infeasible(1):
                    c.eq("every other element keeps its value", c.cell(data, q, c2), LOAD("tiled", q, "r"), c2)
        c.forall([("q", n)], post)
        c.unchanged("tile_index", "tiling_info")
    return f


def view_meta(D):
    def f(c):
        T, t, S, n, a, tl, ix, ti = view_setup(c, D)
        i = inner(c, D, t)
        out = c.out("meta", 8 * (2 + 2 * D))
        c.run("vc_view_meta%d" % D, tl, ix, ti, c.words("inner", i), out)
        I64 = ir.Ty("int", 64)
        c.eq("size() is the number of elements of a tile", c.cell(out, 0, ty=I64), prod(t))
        c.eq("flat_index() is row-major within the tile", c.cell(out, 1, ty=I64), fold(i, t))
        for d in range(D):
            c.eq("get_tile_index()[%d]" % d, c.cell(out, 2 + d, ty=I64), a[d])
            c.eq("get_tiles_dir()[%d]" % d, c.cell(out, 2 + D + d, ty=I64), T[d])
        c.unchanged("tiled", "tile_index", "tiling_info")
    return f


# ------------------------------------------------------------------------------------------------ iterate_tiles
def iterate_tiles(D):
    def f(c):
        T, t, S, n = shape(c, D)
        N = prod(T)
        tl = c.vector("tiled", n, writable=False)
        ti = tinfo(c, t, S)
        c.assume(GE(C(1 << 55) - N))
        log = c.raw("log", N * C(D + 1), sort="i")
        first = c.raw("first", N)
        cnt = c.words("count", [ZERO], writable=True)
        c.run("vc_iterate_tiles%d" % D, tl, ti, log, first, cnt)
        I64 = ir.Ty("int", 64)
        c.eq("the callback ran exactly once per tile", c.cell(cnt, 0, ty=I64), N)

        def post(ctx, *a):
            k = fold(a, T)
            for d in range(D):
                c.eq("call number k sees tile k in row-major order (direction %d)" % d,
                     c.cell(log, k * C(D + 1) + C(d), ctx, I64), a[d], ctx)
            c.eq("the view covers one whole tile", c.cell(log, k * C(D + 1) + C(D), ctx, I64), prod(t), ctx)
            c.eq("the view starts at the tile's first element", c.cell(first, k, ctx),
                 LOAD("tiled", k * prod(t), "r"), ctx)
        c.forall([("a%d" % d, x) for d, x in enumerate(T)], post)
        c.unchanged("tiled", "tiling_info")
    return f


def iterate_rw(D):
    def f(c):
        T, t, S, n = shape(c, D)
        tl = c.vector("tiled", n)
        ti = tinfo(c, t, S)
        c.run("vc_iterate_rw%d" % D, tl, ti)
        data = c.data("tiled")

        def post(ctx, *g):
            q = tiled_ix(T, t, g[:D], g[D:])
            c.eq("every element belongs to exactly one visited tile", c.cell(data, q, ctx), LOAD("tiled", q, "r") + ONE, ctx)
        c.forall(ghosts(T, t), post)
        c.unchanged("tiling_info")
    return f


# ------------------------------------------------------------------------------------------------ loop_nest
def loop_nest(D, kind):
    def f(c):
        mn = [c.size("min%d" % d, 0, 1 << 62) for d in range(D)]
        st = [c.size("step%d" % d, 1, 1 << 61) for d in range(D)]
        m = [c.size("m%d" % d, 0, 1 << 50) for d in range(D)]    # number of values in each direction
        r = [c.size("r%d" % d, 0, None) for d in range(D)]       # slack of the last step
        mx = []
        for d in range(D):
            # max = min + (m-1)*step + 1 + r  (0 <= r < step)   or max <= min when m == 0
            c.assume(GE(st[d] - r[d] - ONE))
            if c.flag("empty%d" % d):
                c.assume(EQ(m[d]), GE(mn[d] - r[d]))
                mx.append(mn[d] - r[d])
            else:
                c.assume(GE(m[d] - ONE), GE(C(1 << 62) - m[d] * st[d]))
                mx.append(mn[d] + (m[d] - ONE) * st[d] + ONE + r[d])
        N = prod(m)
        c.assume(GE(C(1 << 55) - N))
        for k in range(1, D):
            c.assume(GE(C(1 << 55) - prod(m[k:])), GE(C(1 << 55) - prod(m[:k])))
        log = c.raw("log", N * C(D), sort="i")
        cnt = c.words("count", [ZERO], writable=True)
        c.run("vc_loop_nest_%s%d" % (kind, D), c.words("min", mn), c.words("max", mx), c.words("step", st), log, cnt)
        I64 = ir.Ty("int", 64)
        c.eq("the body ran exactly once per index", c.cell(cnt, 0, ty=I64), N)
        if c.anyflag():
            return

        def post(ctx, *a):
            for d in range(D):
                c.eq("call number k sees index k in lexicographic order (direction %d)" % d,
                     c.cell(log, fold(a, m) * C(D) + C(d), ctx, I64), mn[d] + a[d] * st[d], ctx)
        c.forall([("a%d" % d, x) for d, x in enumerate(m)], post)
        c.unchanged("min", "max", "step")
    return f


# ------------------------------------------------------------------------------------------------ flat_index
def flat_index(D, kind):
    def f(c):
        S = [c.size("S%d" % d, 1, LIMS) for d in range(D)]
        i = [c.size("i%d" % d, 0, None) for d in range(D)]
        for x, y in zip(i, S):
            c.assume(GE(y - x - ONE))
        for k in range(D):
            c.assume(GE(C(MAXN) - prod(S[k:])))
        v = c.run("vc_flat_%s%d" % (kind, D), c.words("index", i), c.words("extent", S))
        c.eq("row-major linearisation", v, fold(i, S))
        c.oblige("inside the index range", AND(GE(v), GE(prod(S) - v - ONE)))
        # bijection: two index tuples with the same flat index are equal
        j = [P(fresh("j%d" % d)) for d in range(D)]
        ctx = c.ctx().extend(*[GE(S[d] - j[d] - ONE) for d in range(D)])
        w = subst(v, {next(iter(x.atoms())): y for x, y in zip(i, j)})
        for d in range(D):
            for lo, hi in ((i[d], j[d]), (j[d], i[d])):
                c.oblige("distinct indices have distinct flat indices", NE(v - w), ctx.extend(GE(hi - lo - ONE)))
        c.unchanged("index", "extent")
    return f
