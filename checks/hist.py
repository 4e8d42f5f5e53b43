"""Shared by the checks over histories of operations on containers."""
import struct
from vf import runner as R

DRIVER = ("hist", ["hist.c"], {"lib": False, "libmy": ["libmy/heap.c"]})
HEAP, UBUF, VEC, LIST, TREE = range(1, 6)
num, Case, Check, NULL = R.num, R.Case, R.Check, R.NULL
NONE = 2 ** 64 - 1


def k32(v):
    return struct.pack("<I", v & 0xffffffff)


def keys(r):
    """A source of keys: dense, sparse, few, ascending, descending."""
    m = r.randrange(6)
    if m == 0:
        return lambda: r.randrange(4)
    if m == 1:
        return lambda: r.randrange(64)
    if m == 2:
        return lambda: r.randrange(2 ** 31)
    c = [r.randrange(1000)]
    st = r.choice((1, -1, 3))
    if m in (3, 4):
        def f():
            c[0] += st if r.random() < .95 else r.randrange(-9, 10)
            return c[0] % 2 ** 31
        return f
    return lambda: r.choice((0, 2 ** 31 - 1, 1, 2 ** 30, r.randrange(2 ** 31)))
