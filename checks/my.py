"""Shared by the checks of libmy's small utilities."""
from vf import runner as R

SRC = ["libmy/" + x for x in ("b32_decode.c b32_encode.c b64_decode.c b64_encode.c crc32c.c crc32c-slicing.c crc32c-sse42.c "
                              "fast_inet_ntop.c my_format.c varint.c lookup3.c").split()]
DRIVER = ("my", ["my.c"], {"lib": False, "libmy": SRC})
(B64ENC, B64DEC, B32ENC, B32DEC, HEX, U16HEX, U64STR, NTOP, VARINT, VARBUF, CRC, IP, HEXDEC, REPLACE, READBYTES, HASH, PRINTSTR, GETENV,
 NTOPSMALL, NTOP4BULK, NUMBULK) = range(1, 22)
num, Case, Check = R.num, R.Case, R.Check


def octets(r, n=None):
    """Octet strings of all kinds of content."""
    if n is None:
        k = r.random()
        n = (r.randrange(0, 9) if k < .35 else r.randrange(0, 70) if k < .9 else r.randrange(0, 1500) if k < .999 else
             r.choice((4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, r.randrange(70000))))
    k = r.random()
    if k < .5:
        return r.randbytes(n)
    if k < .65:
        return bytes([r.choice((0, 0xff, 0x80, 0x7f, r.randrange(256)))]) * n
    if k < .85:
        return bytes(r.choice((0, 1, 0x7f, 0x80, 0xfe, 0xff, 0x3f, 0xfc, 0x0f, 0xf0)) for _ in range(n))
    return bytes(r.randrange(32, 127) for _ in range(n))
