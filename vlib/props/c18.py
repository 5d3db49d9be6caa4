import operator

from vlib.engine import Prop, Test
from vlib import bits

BINARY = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv,
          '&': operator.and_, '^': operator.xor, '|': operator.or_}
INPLACE = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '//': operator.ifloordiv,
           '&': operator.iand, '^': operator.ixor, '|': operator.ior, '<<': operator.ilshift, '>>': operator.irshift}
SHIFT = {'<<': operator.lshift, '>>': operator.rshift}
OPS = sorted(BINARY)


def gen(d):
    a = bits.gen_bits(d)
    op = d.pick(OPS)
    kind = d.choice(4)
    if kind <= 1:
        b = bits.gen_bits(d)
        if d.flag(1, 4):
            b = [a[0], a[1] ^ d.choice(4) if a[0] > 2 else a[1]]
    elif kind == 2:
        v = d.value(d.pick((8, 32, 33, 64, 70)))
        b = -v if d.flag(1, 4) else v
    else:
        b = bits.text(bits.gen_bits(d, 40))
    return dict(a=a, op=op, b=b, how=d.choice(3))


def check(ctx, got, want_v, want_w, what):
    ctx.true(isinstance(got, bits.BS()), '%s gives %r' % (what, got), 'type')
    if (got.unsigned, got.width) != (want_v, want_w):
        ctx.fail('%s gives 0x%x of %d bits instead of 0x%x of %d bits' % (what, got.unsigned, got.width, want_v, want_w), 'value')
    views(ctx, got, want_v, want_w, what)


def views(ctx, b, v, w, what):
    if b.value != v or int(b) != v or operator.index(b) != v or len(b) != w:
        ctx.fail('%s: views disagree: value 0x%x int 0x%x index 0x%x len %d, expected 0x%x, %d'
                 % (what, b.value, int(b), operator.index(b), len(b), v, w), 'views')
    ctx.eq(b.mask, (1 << w) - 1, '%s: mask' % what, 'views')
    if w >= 2:
        ctx.eq(b.signed, bits.signed(v, w), '%s: signed' % what, 'signed')


def expected(op, a, b):
    """a is [width, value]; b is the same, an int or text. None when not defined."""
    w, x = a
    if isinstance(b, list):
        wb, y = b
    elif isinstance(b, str):
        wb, y = (w, int(b, 2)) if b else (w, 0)
    else:
        wb, y = w, b
    if op == '//' and y == 0:
        return None
    r = BINARY[op](x, y)
    wr = max(w, wb) if op in '^|' else w
    return r & ((1 << wr) - 1), wr


def body(case, ctx):
    a, op, b = case['a'], case['op'], case['b']
    want = expected(op, a, b)
    right = bits.mk(b) if isinstance(b, list) else b
    if want is None:
        try:
            got = (INPLACE if case['how'] == 0 else BINARY)[op](bits.mk(a), right)
        except ZeroDivisionError:
            return
        ctx.fail("%d'h%x %s %r gives %r" % (a[0], a[1], op, right, got), 'zero')
    what = "%d'h%x %s %r" % (a[0], a[1], op, right)
    views(ctx, bits.mk(a), a[1], a[0], "%d'h%x" % (a[0], a[1]))
    if case['how'] == 0:
        got = INPLACE[op](bits.mk(a), right)
        what += ' in place'
    else:
        got = BINARY[op](bits.mk(a), right)
    check(ctx, got, want[0], want[1], what)
    ctx.label(op + type(b).__name__)
    if a[0] and got.unsigned not in (0, a[1]):
        ctx.nontrivial()


def gen_unary(d):
    a = bits.gen_bits(d)
    return dict(a=a, n=d.pick((0, 1, a[0], a[0] + 1, max(a[0] - 1, 0))) if d.flag(1, 3) else d.choice(140), how=d.choice(2))


def body_unary(case, ctx):
    (w, v), n = case['a'], case['n']
    m = (1 << w) - 1
    what = "%d'h%x" % (w, v)
    shl, shr = (INPLACE['<<'], INPLACE['>>']) if case['how'] else (SHIFT['<<'], SHIFT['>>'])
    check(ctx, shl(bits.mk([w, v]), n), (v << n) & m, w, '%s << %d' % (what, n))
    check(ctx, shr(bits.mk([w, v]), n), v >> n, w, '%s >> %d' % (what, n))
    check(ctx, ~bits.mk([w, v]), v ^ m, w, '~%s' % what)
    check(ctx, bits.mk([w, v]).inverted, v ^ m, w, '%s.inverted' % what)
    b = bits.mk([w, v])
    b.invert()
    check(ctx, b, v ^ m, w, '%s.invert()' % what)
    b.value = v + n
    check(ctx, b, (v + n) & m, w, '%s with value set' % what)
    b.width = n
    check(ctx, b, (v + n) & m & ((1 << n) - 1), n, '%s with width set to %d' % (what, n))
    if 0 < n < w and v:
        ctx.nontrivial()


def gen_reflected(d):
    v = d.value(d.pick((8, 31, 32, 33, 64)))
    if d.flag(1, 5):
        v = -(v & 0x7fffffff)
    return dict(i=v, op=d.pick(OPS), b=bits.gen_bits(d, 70))


def body_reflected(case, ctx):
    i, op, b = case['i'], case['op'], case['b']
    w = 64 if i >= 1 << 32 else 32
    want = expected(op, [w, i & ((1 << w) - 1)], b)
    if want is None:
        return
    check(ctx, BINARY[op](i, bits.mk(b)), want[0], want[1], "%d %s %d'h%x" % (i, op, b[0], b[1]))
    ctx.label(op)
    if b[1]:
        ctx.nontrivial()


def enum_small(shard, n, tier):
    top = 4 if tier == 'quick' else 5
    pairs = [[w, v] for w in range(top + 1) for v in range(1 << w)]
    k = 0
    for a in pairs:
        for b in pairs:
            k += 1
            if k % n == shard:
                for op in OPS:
                    yield (a[0], a[1], b[0], b[1], op), dict(a=a, op=op, b=b, how=k & 1)
                    yield (a[0], a[1], b[0], b[1], op, 't'), dict(a=a, op=op, b=bits.text(b), how=k & 1)


def enum_unary(shard, n, tier):
    k = 0
    for w in range(9):
        for v in range(1 << w):
            k += 1
            if k % n == shard:
                for s in range(w + 3):
                    yield (w, v, s), dict(a=[w, v], n=s, how=k & 1)


PROP = Prop('C18', 'A case is a bit string (width 0 to 130, corner-biased value), an operator and a bit string, integer '
            '(negative and wider ones too) or binary text as right operand, pure or in place; shifts, inversions and '
            'views of one; or an integer left operand. Operands of up to 4 bits (pairs) and 8 bits (single) are '
            'enumerated. Non-trivial: the result is neither zero nor the left operand; the shift is inside the width '
            'of a non-zero value; the reflected operand is not zero.',
            [Test('binary', gen, body, quick=60000, enum=enum_small), Test('unary', gen_unary, body_unary, quick=25000, enum=enum_unary),
             Test('reflected', gen_reflected, body_reflected, quick=25000)],
            assumptions=['division by zero raises and is skipped', 'the signed view is claimed for widths of two or more',
                         'integers without a width take 32 bits, or 64 from 2^32 on'])
