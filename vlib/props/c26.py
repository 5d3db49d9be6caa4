import math

from vlib import cpu
from vlib.engine import Prop, Test


def gen_long(d):
    # Lists far above any buffer, of round lengths and next to them.
    n = (1 << d.int(6, 13)) * d.pick((1, 1, 3)) + d.pick((0, 0, -1, 1))
    return dict(n=max(1, n), a=d.word() | 1, b=d.word())


def body_long(case, ctx):
    u = cpu.cm()['utilities']
    n = case['n']
    l32 = [(case['b'] + k * case['a']) & 0xffffffff for k in range(n)]
    l16 = [x >> 7 & 0xffff for x in l32]
    for name, to, back, l, w in (('u16', u.u16leListToByteList, u.byteListToU16leList, l16, 2),
                                 ('u32', u.u32leListToByteList, u.byteListToU32leList, l32, 4)):
        flat = list(to(list(l)))
        ctx.true(flat == [x >> 8 * j & 255 for x in l for j in range(w)], '%sleListToByteList of %d values (%d bytes)' % (name, n, len(flat)), name + 'list')
        ctx.true(list(back(bytearray(flat))) == l, '%s list of %d values after packing and unpacking' % (name, n), name + 'list')
    ctx.nontrivial()


def gen_words(d):
    v = d.word()
    return dict(v=v, off=d.choice(6), pad=[d.choice(256) for _ in range(d.choice(5))],
                l8=[d.value(8) for _ in range(d.int(0, 24) if d.flag(39, 40) else d.int(200, 300))], l16=[d.value(16) for _ in range(d.int(0, 12) if d.flag(39, 40) else d.int(120, 300))],
                l32=[d.word() for _ in range(d.int(0, 10) if d.flag(39, 40) else d.int(60, 300))], big=d.value(70))


def body_words(case, ctx):
    u = cpu.cm()['utilities']
    v = case['v']
    h = v & 0xffff
    b4 = [v >> 8 * i & 255 for i in range(4)]
    ctx.eq(list(u.le32_to_bytes(v)), b4, 'le32_to_bytes(0x%x)' % v, 'le32_to_bytes')
    ctx.eq(list(u.le16_to_bytes(h)), b4[:2], 'le16_to_bytes(0x%x)' % h, 'le16_to_bytes')
    for off in (0, case['off']):
        pre = [(i * 37 + 11) & 255 for i in range(off)]
        for cont in (bytearray, bytes, list):
            data = cont(bytearray(pre + b4 + case['pad']))
            before = list(data)
            args = (data, off) if off else (data,)
            ctx.eq(u.bytes_to_le32(*args), v, 'bytes_to_le32(%r, %d)' % (data, off), 'bytes_to_le32')
            ctx.eq(u.bytes_to_le16(*args), h, 'bytes_to_le16(%r, %d)' % (data, off), 'bytes_to_le16')
            ctx.eq(list(data), before, 'bytes_to_le changes its operand', 'operand')
    ctx.eq(u.bytes_to_le32(u.le32_to_bytes(v)), v, '32-bit round trip of 0x%x' % v, 'round32')
    ctx.eq(u.bytes_to_le16(u.le16_to_bytes(h)), h, '16-bit round trip of 0x%x' % h, 'round16')
    ctx.eq(u.invert32(v), 0xffffffff - v, 'invert32(0x%x)' % v, 'invert32')
    for x in (v, case['big']):
        ctx.eq(u.hamming_weight(x), bin(x).count('1'), 'hamming_weight(0x%x)' % x, 'hamming_weight')
    # Lists.
    l16, l32 = case['l16'], case['l32']
    flat16 = [x >> s & 255 for x in l16 for s in (0, 8)]
    flat32 = [x >> s & 255 for x in l32 for s in (0, 8, 16, 24)]
    ctx.eq(list(u.u16leListToByteList(list(l16))), flat16, 'u16leListToByteList(%r)' % (l16,), 'u16list')
    ctx.eq(list(u.u32leListToByteList(list(l32))), flat32, 'u32leListToByteList(%r)' % (l32,), 'u32list')
    for cont in (list, bytearray, bytes):
        ctx.eq(list(u.byteListToU16leList(cont(bytearray(flat16)))), l16, 'byteListToU16leList(%r)' % (flat16,), 'bytes16')
        ctx.eq(list(u.byteListToU32leList(cont(bytearray(flat32)))), l32, 'byteListToU32leList(%r)' % (flat32,), 'bytes32')
    l8 = case['l8']
    e = l8[:len(l8) // 2 * 2]
    ctx.eq(list(u.u16leListToByteList(u.byteListToU16leList(e))), e, 'halfword list round trip of %r' % (e,), 'bytes16')
    e = l8[:len(l8) // 4 * 4]
    ctx.eq(list(u.u32leListToByteList(u.byteListToU32leList(e))), e, 'word list round trip of %r' % (e,), 'bytes32')
    if v:
        ctx.nontrivial()


def gen_float(d):
    k = d.choice(5)
    v = d.word()
    if k == 0:
        v = (d.choice(2) << 31) | d.pick((0, 1, 2, 126, 127, 128, 149, 150, 254, 255)) << 23 | d.value(23)
    if k == 1:
        v = (d.choice(2) << 31) | d.value(23)
    return dict(v=v)


def as_float(v):
    """IEEE-754 single, by the definition."""
    s = -1.0 if v >> 31 else 1.0
    e = v >> 23 & 255
    m = v & 0x7fffff
    if e == 255:
        return float('nan') if m else s * float('inf')
    if e == 0:
        return s * math.ldexp(m, -149)
    return s * math.ldexp(m | 0x800000, e - 150)


def body_float(case, ctx):
    u = cpu.cm()['utilities']
    v = case['v']
    want = as_float(v)
    got = u.u32BEToFloat32BE(v)
    if want != want:
        ctx.true(got != got, 'u32BEToFloat32BE(0x%08x) is %r, not a NaN' % (v, got), 'tofloat')
        r = u.float32beToU32be(got)
        ctx.true(r >> 23 & 255 == 255 and r & 0x7fffff, 'float32beToU32be of a NaN is 0x%x' % r, 'fromfloat')
        ctx.label('nan')
    else:
        ctx.true(got == want and math.copysign(1, got) == math.copysign(1, want), 'u32BEToFloat32BE(0x%08x) is %r, not %r' % (v, got, want), 'tofloat')
        ctx.eq(u.float32beToU32be(want), v, 'float32beToU32be(%r)' % want, 'fromfloat')
    ctx.nontrivial()


def gen_field(d):
    top = d.pick((31, 31, 63, 15, 7))
    lsb = d.int(0, top) if d.flag(3, 4) else 0
    msb = d.int(lsb, top) if d.flag(3, 4) else lsb
    args = []
    for _ in range(d.int(0, 4)):
        k = d.choice(3)
        if k == 0:
            args.append(['int', d.int(0, 40)])
        elif k == 1:
            lo = d.int(0, 40)
            args.append(['range', lo + d.int(0, 20), lo])
        else:
            args.append(['list'] + [d.int(0, 40) for _ in range(d.int(0, 4))])
    return dict(v=d.value(top + 1), msb=msb, lsb=lsb, f=d.value(msb - lsb + 1), wide=d.value(70), args=args)


def body_field(case, ctx):
    u = cpu.cm()['utilities']
    v, msb, lsb, f = case['v'], case['msb'], case['lsb'], case['f']
    n = msb - lsb + 1
    mask = ((1 << n) - 1) << lsb
    ctx.eq(u.wmask(n), (1 << n) - 1, 'wmask(%d)' % n, 'wmask')
    ctx.eq(u.wmask(lsb), (1 << lsb) - 1, 'wmask(%d)' % lsb, 'wmask')
    ctx.eq(u.bitmask((msb, lsb)), mask, 'bitmask((%d, %d))' % (msb, lsb), 'bitmask')
    what = '(0x%x, %d, %d)' % (v, msb, lsb)
    ctx.eq(u.bfx(v, msb, lsb), (v & mask) >> lsb, 'bfx' + what, 'bfx')
    for g in (f, case['wide']):
        want = v & ~mask | (g << lsb) & mask
        r = u.bfi(v, g, msb, lsb)
        ctx.eq(r, want, 'bfi(0x%x, 0x%x, %d, %d)' % (v, g, msb, lsb), 'bfi')
        ctx.eq(u.bfx(r, msb, lsb), g & (1 << n) - 1, 'bfx of bfi(0x%x, 0x%x, %d, %d)' % (v, g, msb, lsb), 'bfxbfi')
    # A single bit.
    ctx.eq(u.bfx(v, msb), v >> msb & 1, 'bfx(0x%x, %d)' % (v, msb), 'bfx1')
    ctx.eq(u.bfi(v, f & 1, msb), v & ~(1 << msb) | (f & 1) << msb, 'bfi(0x%x, %d, %d)' % (v, f & 1, msb), 'bfi1')
    if lsb == 0:
        ctx.label('field-at-bit-0')
    args, want = [], 0
    for a in case['args']:
        if a[0] == 'int':
            args.append(a[1])
            want |= 1 << a[1]
        elif a[0] == 'range':
            args.append((a[1], a[2]))
            for b in range(a[2], a[1] + 1):
                want |= 1 << b
        else:
            args.append(list(a[1:]))
            for b in a[1:]:
                want |= 1 << b
    ctx.eq(u.bitmask(*args), want, 'bitmask%r' % (tuple(args),), 'bitmask')
    if v & mask and f != (v & mask) >> lsb:
        ctx.nontrivial()


def enum_field(shard, n, tier):
    k = 0
    for lsb in range(40):
        for msb in range(lsb, 40):
            k += 1
            if k % n == shard:
                yield (msb, lsb), dict(v=0xa5c39f0e17 & (1 << 40) - 1, msb=msb, lsb=lsb, f=0x5a3c60f1e8 & (1 << msb - lsb + 1) - 1, wide=(1 << 70) - 1,
                                       args=[['range', msb, lsb], ['int', lsb]])


def enum_float(shard, n, tier):
    k = 0
    for e in range(256):
        for m in (0, 1, 2, 0x400000, 0x7fffff, 0x7ffffe, 0x123456):
            for s in (0, 1):
                k += 1
                if k % n == shard:
                    yield (e, m, s), dict(v=s << 31 | e << 23 | m)


PROP = Prop('C26', 'A case is a word with byte, halfword and word lists put through every packing and unpacking; lists of up to 24577 halfwords or words; a 32-bit '
            'pattern converted to a float (decoded from the definition of the format) and back; or a bit field with '
            'value and bounds extracted and inserted, and masks of mixed arguments. All fields below bit 40 and every '
            'float exponent are enumerated. Non-trivial: the word is not zero; the inserted field differs from what was there.',
            [Test('words', gen_words, body_words, quick=6000), Test('long', gen_long, body_long, quick=40), Test('float', gen_float, body_float, quick=10000, enum=enum_float),
             Test('field', gen_field, body_field, quick=10000, enum=enum_field)],
            assumptions=['byte lists have a whole number of halfwords or words', 'the payload of a NaN is not compared',
                         'a field has msb >= lsb >= 0'])
