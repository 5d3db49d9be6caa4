from vlib import bits, cpu, ref
from vlib.engine import Prop, Test


def gen_add(d):
    w = d.pick((32, 32, 8, 16, 64)) if d.flag() else d.int(2, 70) if d.flag(15, 16) else d.pick((96, 127, 128, 129, 200, 256))
    x = d.value(w)
    k = d.choice(4)
    m = (1 << w) - 1
    if k == 0:
        y = (m ^ x) + d.int(-1, 1) & m
    elif k == 1:
        y = (-x) + d.int(-1, 1) & m
    elif k == 2:
        y = (m >> 1) - x + d.int(-2, 2) & m
    else:
        y = d.value(w)
    return dict(w=w, x=x, y=y, c=d.choice(2))


def body_add(case, ctx):
    h = cpu.cm()['helpers']
    w, x, y, c = case['w'], case['x'], case['y'], case['c']
    a, b, cin = bits.mk([w, x]), bits.mk([w, y]), bits.mk([1, c])
    what = "%d'h%x + 0x%x + %d" % (w, x, y, c)
    got = h.AddWithCarry(a, b, cin)
    ctx.true(isinstance(got, tuple) and len(got) == 3, '%s returns %r' % (what, got), 'AddWithCarry')
    m = (1 << w) - 1
    us = x + y + c
    ss = bits.signed(x, w) + bits.signed(y, w) + c
    ctx.eq(bits.state(got[0]), (w, us & m), '%s: sum (width, value)' % what, 'sum')
    ctx.eq(bits.state(got[1]), (1, int(us > m)), '%s: carry (width, value)' % what, 'carry')
    ctx.eq(bits.state(got[2]), (1, int(not -(1 << w - 1) <= ss < 1 << w - 1)), '%s: overflow (width, value)' % what, 'overflow')
    ctx.eq((bits.state(a), bits.state(b), bits.state(cin)), ((w, x), (w, y), (1, c)), '%s changes its operands' % what, 'operand')
    again = h.AddWithCarry(a, a, cin)
    ctx.eq(bits.state(again[0]), (w, 2 * x + c & m), "%d'h%x + itself" % (w, x), 'sum')
    ctx.eq(bits.state(a), (w, x), '%s changes its operands' % what, 'operand')
    for c2 in (1 - c, c):
        got2 = h.AddWithCarry(b, a, bits.mk([1, c2]))
        s2 = ss - c + c2
        ctx.eq(tuple(bits.state(g) for g in got2), ((w, us - c + c2 & m), (1, int(us - c + c2 > m)), (1, int(not -(1 << w - 1) <= s2 < 1 << w - 1))),
               'the same sum the other way around with carry %d' % c2, 'sum')
    if us > m:
        ctx.label('carry')
    if got[2].unsigned:
        ctx.label('overflow')
    if x and y:
        ctx.nontrivial()


def gen_imm(d):
    return dict(i=d.choice(4096), c=d.choice(2))


def body_imm(case, ctx):
    h = cpu.cm()['helpers']
    i, c = case['i'], case['c']
    x, cin = bits.mk([12, i]), bits.mk([1, c])
    want = ref.expand_imm_c(i, c)
    r, cc = h.ThumbExpandImm_C(x, cin)
    ctx.eq((bits.state(r), bits.state(cc)), ((32, want[0]), (1, want[1])), 'ThumbExpandImm_C(0x%03x, %d)' % (i, c), 'ThumbExpandImm_C')
    # The other carry and the first again: nothing is remembered.
    for c2 in (1 - c, c):
        w2 = ref.expand_imm_c(i, c2)
        r, cc = h.ThumbExpandImm_C(bits.mk([12, i]), bits.mk([1, c2]))
        ctx.eq((bits.state(r), bits.state(cc)), ((32, w2[0]), (1, w2[1])), 'ThumbExpandImm_C(0x%03x, %d) called again' % (i, c2), 'ThumbExpandImm_C')
    ctx.eq(bits.state(h.ThumbExpandImm(x)), (32, want[0]), 'ThumbExpandImm(0x%03x)' % i, 'ThumbExpandImm')
    ctx.eq((bits.state(x), bits.state(cin)), ((12, i), (1, c)), 'ThumbExpandImm_C changes its operands', 'operand')
    if i & 0xff:
        ctx.nontrivial()


def gen_align(d):
    w = d.pick((32, 32, 8, 16, 64, 1)) if d.flag() else d.int(1, 70)
    p = d.int(0, min(w - 1, 33)) if d.flag(3, 4) else d.int(0, w - 1)
    v = d.value(w)
    if d.flag(1, 3):
        v = (v >> p << p) + d.int(-1, 1) & (1 << w) - 1
    return dict(w=w, v=v, p=p, neg=d.choice(2))


def body_align(case, ctx):
    h = cpu.cm()['helpers']
    w, v, p = case['w'], case['v'], case['p']
    x = bits.mk([w, v])
    ctx.eq(bits.state(h.Align(x, 1 << p)), (w, v >> p << p), "Align(%d'h%x, %d) (width, value)" % (w, v, 1 << p), 'Align')
    ctx.eq(bits.state(x), (w, v), 'Align changes its operand', 'operand')
    i = -v if case['neg'] else v
    got = h.Align(i, 1 << p)
    ctx.eq(got, i // (1 << p) * (1 << p), 'Align(%d, %d)' % (i, 1 << p), 'Align.int')
    if v & ((1 << p) - 1):
        ctx.nontrivial()


def enum_add(shard, n, tier):
    k = 0
    for w in range(2, 6 if tier == 'quick' else 8):
        for x in range(1 << w):
            for y in range(1 << w):
                for c in (0, 1):
                    k += 1
                    if k % n == shard:
                        yield (w, x, y, c), dict(w=w, x=x, y=y, c=c)


def enum_imm(shard, n, tier):
    for k in range(8192):
        if k % n == shard:
            yield k, dict(i=k >> 1, c=k & 1)


def enum_align(shard, n, tier):
    k = 0
    for w in range(1, 9):
        for v in range(1 << w):
            for p in range(w):
                k += 1
                if k % n == shard:
                    yield (w, v, p), dict(w=w, v=v, p=p, neg=k & 1)


PROP = Prop('C23', 'A case is an addition with carry (second operand often near the carry or overflow boundary), a modified '
            'immediate with carry, or a value and a power of two to align to (as bit string and as integer of either '
            'sign). Additions of up to 5 bits, all 4096 immediates with both carries and alignments of up to 8 bits are '
            'enumerated. Non-trivial: both addends, the low byte of the immediate, or the bits cut off are not zero.',
            [Test('add', gen_add, body_add, quick=8000, enum=enum_add),
             Test('imm', gen_imm, body_imm, quick=0, thorough=2000, enum=enum_imm),
             Test('align', gen_align, body_align, quick=5000, enum=enum_align)],
            assumptions=['additions of at least two bits', 'the power of two is less than 2^width for bit strings'])
