"""Shared pieces of the bit string checks."""
from vlib import cpu


def BS():
    return cpu.cm()['bitstring'].bitstring


def gen_width(d, hi=130):
    k = d.choice(4)
    if k == 0:
        return d.choice(9)
    if k == 1:
        return d.pick((1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 0))
    if k == 2:
        return 32
    if hi > 100 and d.flag(1, 40):
        return d.pick((200, 255, 256, 257, 500, 511, 512, 1000, 1024))
    return d.choice(hi + 1)


def gen_bits(d, hi=130):
    """[width, value]"""
    w = gen_width(d, hi)
    return [w, d.value(w)]


def mk(p):
    return BS()(p[1], p[0])


def text(p):
    return format(p[1], '0%db' % p[0]) if p[0] else ''


def state(b):
    return b.width, b.unsigned


def signed(v, w):
    return v - (1 << w) if w and v >> (w - 1) else v
