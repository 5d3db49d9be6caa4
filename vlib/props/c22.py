from vlib import bits, cpu, ref
from vlib.engine import Prop, Test

NAMES = {ref.NONE: 'SRType_None', ref.LSL: 'SRType_LSL', ref.LSR: 'SRType_LSR', ref.ASR: 'SRType_ASR',
         ref.ROR: 'SRType_ROR', ref.RRX: 'SRType_RRX'}
PRIM = {ref.LSL: 'LSL', ref.LSR: 'LSR', ref.ASR: 'ASR', ref.ROR: 'ROR'}


def gen(d):
    w = d.pick((32, 32, 8, 16, 64, 33, 31)) if d.flag() else d.int(1, 64) if d.flag(15, 16) else d.pick((65, 96, 127, 128, 129, 200, 256))
    k = d.choice(6)
    if k == 0:
        n = d.int(0, 3)
    elif k == 1:
        n = w + d.int(-2, 2)
    elif k == 2:
        n = d.pick((w * 2, w * 2 + 1, w * 2 - 1, w * 3, w * 8 + 3, 255, 256, 257, 254, 128, 300, 512, 1000, 1024, 4096))
    else:
        n = d.int(0, w + 5)
    return dict(w=w, v=d.value(w), n=max(0, n), c=d.choice(2))


def pair(ctx, got, w, want, what, sig):
    ctx.true(isinstance(got, tuple) and len(got) == 2, '%s returns %r' % (what, got), sig)
    r, c = got
    ctx.eq(bits.state(r), (w, want[0]), '%s: result (width, value)' % what, sig)
    ctx.eq(bits.state(c), (1, want[1]), '%s: carry (width, value)' % what, sig + '_carry')


def body(case, ctx):
    h = cpu.cm()['helpers']
    w, v, n, c = case['w'], case['v'], case['n'], case['c']
    x = bits.mk([w, v])
    cin = bits.mk([1, c])
    txt = "%d'h%x by %d carry %d" % (w, v, n, c)
    for t in sorted(NAMES):
        kind = getattr(h.SRType, NAMES[t])
        name = NAMES[t][7:]
        k = n
        if t == ref.RRX:
            k = 1
        want = ref.shift_c(v, t, k, c, w)
        what = 'Shift_C %s of %s' % (name, txt)
        pair(ctx, h.Shift_C(x, kind, k, cin), w, want, what, 'Shift_C.' + name)
        ctx.eq(bits.state(h.Shift(x, kind, k, cin)), (w, want[0]), what[:5] + what[7:], 'Shift.' + name)
        if t in PRIM:
            ctx.eq(bits.state(getattr(h, name)(x, k)), (w, want[0]), '%s of %s' % (name, txt), name)
            if k:
                pair(ctx, getattr(h, name + '_C')(x, k), w, want, '%s_C of %s' % (name, txt), name + '_C')
        if t == ref.RRX:
            want = ref.shift_c(v, t, 1, c, w)
            pair(ctx, h.RRX_C(x, cin), w, want, 'RRX_C of %s' % txt, 'RRX_C')
            ctx.eq(bits.state(h.RRX(x, cin)), (w, want[0]), 'RRX of %s' % txt, 'RRX')
        # The other carry and the first again: nothing is remembered.
        for c2 in (1 - c, c):
            pair(ctx, h.Shift_C(x, kind, k, bits.mk([1, c2])), w, ref.shift_c(v, t, k, c2, w), '%s, then carry %d' % (what, c2), 'Shift_C.' + name)
        ctx.eq(bits.state(x), (w, v), '%s changes its operand' % what, 'operand')
        ctx.eq(bits.state(cin), (1, c), '%s changes its carry' % what, 'operand')
    if n >= w:
        ctx.label('amount-at-least-width')
    if n and v:
        ctx.nontrivial()


def gen_rrx(d):
    return dict(type=d.choice(4), imm5=d.choice(32), v=d.word(), c=d.choice(2))


def body_decode(case, ctx):
    h = cpu.cm()['helpers']
    t, i, v, c = case['type'], case['imm5'], case['v'], case['c']
    ty, im = bits.mk([2, t]), bits.mk([5, i])
    rt, rn = ref.decode_imm_shift(t, i)
    got = h.DecodeImmShift(ty, im)
    ctx.eq((got[0].name, int(got[1])), (NAMES[rt], rn), 'DecodeImmShift(%d, %d)' % (t, i), 'DecodeImmShift')
    ctx.eq((bits.state(ty), bits.state(im)), ((2, t), (5, i)), 'DecodeImmShift changes its operand', 'operand')
    # The decoded shift used.
    pair(ctx, h.Shift_C(bits.mk([32, v]), got[0], got[1], bits.mk([1, c])), 32, ref.shift_c(v, rt, rn, c),
         'shift by DecodeImmShift(%d, %d) of 0x%x carry %d' % (t, i, v, c), 'Shift_C.decoded')
    if v:
        ctx.nontrivial()


def enum(shard, n, tier):
    k = 0
    for w in range(1, 8 if tier == 'quick' else 11):
        for v in range(1 << w):
            for a in range(2 * w + 3):
                for c in (0, 1):
                    k += 1
                    if k % n == shard:
                        yield (w, v, a, c), dict(w=w, v=v, n=a, c=c)


def enum_decode(shard, n, tier):
    for k in range(128):
        if k % n == shard:
            for c in (0, 1):
                yield (k, c), dict(type=k >> 5, imm5=k & 31, v=0x81234567 ^ k * 0x01010101, c=c)


PROP = Prop('C22', 'A case is a width, value, shift amount and carry given to every shift and rotate function (with and '
            'without carry out, alone and through the dispatcher), or a type and 5-bit immediate decoded and then '
            'applied. Widths up to 7 with all values, amounts to twice the width and carries are enumerated, as are all '
            'immediate shifts. Non-trivial: amount and value are not zero.',
            [Test('shift', gen, body, quick=6000, enum=enum), Test('decode', gen_rrx, body_decode, quick=1500, enum=enum_decode)],
            assumptions=['a rotate with extend is by one place; the forms with carry out are called with a positive amount; widths of at least 1'])
