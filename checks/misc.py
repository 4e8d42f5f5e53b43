"""Shared by the checks of libmy's time, atomic and thread utilities."""
from vf import runner as R

DRIVER = ("misc", ["misc.c"], {"lib": False, "libmy": ["libmy/threadnum.c"], "link": ["-lm"]})
TADD, TSUB, TODBL, FROMDBL, SLEEP, GETTIME, ATOMSEQ, ATOMMT, THREADNUM, ATOMPTR = range(1, 11)
num, Case, Check = R.num, R.Case, R.Check


def snum(v, bits=64):
    return num(v & (1 << bits) - 1)


def signed(v, bits=64):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> bits - 1 else v
