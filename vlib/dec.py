"""Shared pieces of the decoding and formatting checks."""
from vlib import cpu, ref

CONTAINERS = (bytearray, bytes, list)


def fmt(insn, formatter=None, c=None):
    return (formatter or (c or cpu.cm())['formatter'].Formatter(None)).format(insn)


def outcome(data, addr, container=bytearray, formatter=None, c=None):
    """What decoding gives, in comparable form: ('ok', mnemonic, size, bytes, address, text) or the error's name.
    Any other exception passes through (and is a violation)."""
    c = c or cpu.cm()
    try:
        i = c['disasm'].decoder.decode(container(bytes(data)), addr)
    except c['decoder'].UndefinedInstructionError:
        return ref.UNDEFINED
    except c['decoder'].UnpredictableError:
        return ref.UNPREDICTABLE
    return describe(i, formatter, c)


def describe(i, formatter=None, c=None):
    return ('ok', i.mnemonic, i.size, bytes(i.bytes), i.address, fmt(i, formatter, c))


def agrees(out, want, data, addr):
    """None, or what is wrong with an outcome given the reference's decoding."""
    if want is ref.UNDEFINED or want is ref.UNPREDICTABLE:
        return None if out == want else 'decodes to %s instead of an error: %s' % (out[1:], want) if out[0] == 'ok' \
            else 'raises %s instead of %s' % (out, want)
    if out == ref.UNPREDICTABLE and want.maybe_unpred:
        return None
    if out[0] != 'ok':
        return 'raises %s instead of decoding to %s' % (out, want.mn)
    if out[1] != want.mn:
        return 'decodes to %s instead of %s' % (out[1], want.mn)
    if out[2] != want.size:
        return 'has size %d instead of %d' % (out[2], want.size)
    if out[3] != bytes(data[:want.size]):
        return 'has bytes %s' % out[3].hex()
    if out[4] != addr:
        return 'has address 0x%x instead of 0x%x' % (out[4], addr)
    return None


_lists = {}


def words16(kind):
    """16-bit words by reference outcome: 'undefined', 'unpredictable' or 'ok'."""
    if not _lists:
        _lists.update(undefined=[], unpredictable=[], ok=[])
        for w in range(65536):
            if not ref.is32(w):
                r = ref.decode_word(w, 16)
                _lists[r if isinstance(r, str) else 'ok'].append(w)
    return _lists[kind]


def gen_valid(d):
    """(word, bits) of an encoding that decodes (traps and MSR included)."""
    if d.flag(1, 2):
        return cpu.gen_insn(d, ref.ENCODINGS, executable=False)
    w = d.pick(words16('ok'))
    return w, 16


def gen_word(d):
    """(word, bits) of any sort, most of them at or near an encoding."""
    k = d.choice(10)
    if k < 4:
        e = d.pick(ref.ENC32)
        return e.make(cpu.gen_fields(d, e)), 32
    if k < 6:
        e = d.pick(ref.ENC32)
        w = e.make(cpu.gen_fields(d, e))
        for _ in range(d.int(1, 3)):
            w ^= 1 << d.choice(32)
        return (w, 32) if ref.is32(w >> 16) else (w >> 16, 16)
    if k < 8:
        w = (d.pick((0b11101, 0b11110, 0b11111)) << 11 | d.choice(1 << 11)) << 16 | d.choice(1 << 16)
        return w, 32
    w = d.choice(65536)
    if ref.is32(w):
        return w << 16 | d.choice(65536), 32
    return w, 16


def gen_addr(d, align=2):
    k = d.choice(5)
    if k == 0:
        return 0
    if k == 1:
        return d.pick((0x100, 0x8000, 0x102, 0x7ffffffe, 0xfffffffc, 0xfffffffe, 0x80000000, 2, 0xfffff000))
    return d.choice((1 << 32) // align) * align
