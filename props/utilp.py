"""Contracts of src/aligned_allocator.hpp and the exception types."""
from contract import *
import ir


def alloc(ty, w, log):
    """n >= 1 elements of w bytes, alignment 2**log"""
    def f(c):
        n = c.size("n", 1, 1 << 58)
        i = c.size("i", 0, None)
        c.assume(GE(n - i - ONE))
        mis = c.words("misaligned", [C(7)], writable=True)
        r = c.run("vc_alloc_" + ty, n, C(1 << log), i, mis)
        c.eq("the address is a multiple of the alignment", c.cell(mis, 0, ty=ir.Ty("int", 64)), ZERO)
        if ty == "double":
            i = FUN("real", i)
        if ty == "double":
            c.eq("the array keeps its elements", r, i)
    return f


def no_alloc(c):
    c.run("vc_no_alloc")


def alloc_twice(log):
    def f(c):
        n = c.size("n", 1, 1 << 58)
        m = c.size("m", 1, 1 << 58)
        c.run("vc_alloc_twice", n, m, C(1 << log), expect_throw=True)
        c.never_returns("a second request is refused")
    return f
