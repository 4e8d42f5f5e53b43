"""Shared by the checks of libmy's utilities around files and time."""
from vf import runner as R

DRIVER = ("files", ["files.c", "h_spool.c", "rate_a.c", "rate_b.c"], {"lib": False, "libmy": ["libmy/my_fileset.c"]})
FILESET, SPOOL, SPOOLMT, RATE = range(1, 5)
num, Case, Check, NULL = R.num, R.Case, R.Check, R.NULL
