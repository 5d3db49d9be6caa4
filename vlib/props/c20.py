from vlib.engine import Prop, Test
from vlib import bits

# The model of a bit string is the list of its bits, least significant first.


def bl(p):
    return [p[1] >> i & 1 for i in range(p[0])]


def num(l):
    v = 0
    for i, b in enumerate(l):
        v |= b << i
    return v


def is_bits(ctx, got, want, what, sig):
    ctx.true(isinstance(got, bits.BS()), '%s gives %r' % (what, got), sig)
    if (got.width, got.unsigned) != (len(want), num(want)):
        ctx.fail("%s gives %d'h%x instead of %d'h%x" % (what, got.width, got.unsigned, len(want), num(want)), sig)
    ctx.eq(got.mask, (1 << len(want)) - 1, '%s: mask' % what, sig)


def gen_views(d):
    a = bits.gen_bits(d)
    return dict(a=a, ext=d.choice(70), b=bits.gen_bits(d, 40))


def body_views(case, ctx):
    B = bits.BS()
    w, v = case['a']
    l = bl(case['a'])
    n = "%d'h%x" % (w, v)
    # Construction.
    txt = ''.join(str(x) for x in reversed(l))
    is_bits(ctx, B(v, w), l, 'integer with width', 'construct-int')
    is_bits(ctx, B(v | 5 << w, w), l, 'wider integer with width', 'construct-int')
    is_bits(ctx, B(v - (1 << w), w), l, 'negative integer with width', 'construct-int')
    is_bits(ctx, B(txt), l, 'text %r' % txt, 'construct-text')
    is_bits(ctx, B(list(reversed(l))), l, 'list of bits', 'construct-seq')
    is_bits(ctx, B(tuple(reversed(l))), l, 'tuple of bits', 'construct-seq')
    is_bits(ctx, B(B(v, w)), l, 'bit string', 'construct-bs')
    e = case['ext']
    resized = (l + [0] * e)[:max(w, e)] if e > w else l[:e]
    resized += [0] * (e - len(resized))
    is_bits(ctx, B(B(v, w), e), resized, '%s resized to %d' % (n, e), 'construct-bs')
    is_bits(ctx, B(txt, e), resized, 'text %r with width %d' % (txt, e), 'construct-text')
    if v < 1 << 64:
        x = B(v)
        want = 64 if v >= 1 << 32 else 32
        is_bits(ctx, x, bl([want, v]), 'integer 0x%x' % v, 'construct-int')
    data = bytearray(v >> 8 * i & 0xff for i in range((w + 7) // 8))
    is_bits(ctx, B(data), bl([8 * len(data), v]), 'bytearray', 'construct-bytes')
    is_bits(ctx, B(data, w), l, 'bytearray with width', 'construct-bytes')
    is_bits(ctx, B(), [], 'no value', 'construct')
    # Views.
    a = B(v, w)
    ctx.eq(bytes(a.bytes), bytes(data), '%s.bytes' % n, 'bytes')
    ctx.eq(a.binary_string, txt, '%s.binary_string' % n, 'text')
    is_bits(ctx, B(a.binary_string), l, 'there and back by text', 'roundtrip')
    is_bits(ctx, B(a.bytes, w), l, 'there and back by bytes', 'roundtrip')
    ctx.eq(repr(a), "%d'b%s" % (w, txt), 'repr of %s' % n, 'text')
    ctx.eq(a.base_string(2), "%d'b%s" % (w, txt), '%s in base 2' % n, 'base')
    ctx.eq(a.base_string(8), "%d'o%s" % (w, format(v, 'o')), '%s in base 8' % n, 'base')
    ctx.eq(a.base_string(10), "%d'd%d" % (w, v), '%s in base 10' % n, 'base')
    ctx.eq(a.base_string(16), "%d'h%x" % (w, v), '%s in base 16' % n, 'base')
    ctx.eq(a.base_string(), "%d'h%x" % (w, v), '%s in the default base' % n, 'base')
    ctx.eq(list(a), l, 'iteration of %s' % n, 'iter')
    is_bits(ctx, a.reversed, l[::-1], '%s.reversed' % n, 'reverse')
    r = B(v, w)
    r.reverse()
    is_bits(ctx, r, l[::-1], '%s.reverse()' % n, 'reverse')
    ctx.eq(a.bit_count(), sum(l), '%s.bit_count()' % n, 'count')
    ctx.eq(a.lowest_set_bit(), l.index(1) if 1 in l else w, '%s.lowest_set_bit()' % n, 'ends')
    ctx.eq(a.highest_set_bit(), max(i for i in range(w) if l[i]) if 1 in l else -1, '%s.highest_set_bit()' % n, 'ends')
    ctx.eq(bool(a.is_zero()), 1 not in l, '%s.is_zero()' % n, 'zero')
    ctx.eq(bool(a.is_ones()), 0 not in l, '%s.is_ones()' % n, 'zero')
    is_bits(ctx, a.is_zero_bit(), [int(1 not in l)], '%s.is_zero_bit()' % n, 'zero')
    is_bits(ctx, a.is_ones_bit(), [int(0 not in l)], '%s.is_ones_bit()' % n, 'zero')
    # Extension.
    if e >= w:
        is_bits(ctx, a.zero_extend(e), l + [0] * (e - w), '%s.zero_extend(%d)' % (n, e), 'extend')
        if w:
            is_bits(ctx, a.sign_extend(e), l + [l[-1]] * (e - w), '%s.sign_extend(%d)' % (n, e), 'extend')
    else:
        for m in ('zero_extend', 'sign_extend'):
            try:
                getattr(a, m)(e)
            except ValueError:
                continue
            ctx.fail('%s.%s(%d) is no error' % (n, m, e), 'extend')
    # Concatenation.
    b = case['b']
    lb = bl(b)
    is_bits(ctx, a % bits.mk(b), lb + l, 'concatenation', 'concat')
    is_bits(ctx, a % bits.text(b), lb + l, 'concatenation of text', 'concat')
    is_bits(ctx, a % lb[::-1], lb + l, 'concatenation of a list', 'concat')
    is_bits(ctx, a % (b[1] & 1), [b[1] & 1] + l, 'concatenation of a bit', 'concat')
    r = B(v, w)
    r %= bits.mk(b)
    is_bits(ctx, r, lb + l, 'concatenation in place', 'concat')
    r %= r
    is_bits(ctx, r, (lb + l) * 2, 'concatenation to itself in place', 'concat')
    c = bits.cpu.cm()['bitstring']
    is_bits(ctx, c.zeros(e), [0] * e, 'zeros(%d)' % e, 'construct')
    is_bits(ctx, c.ones(e), [1] * e, 'ones(%d)' % e, 'construct')
    ctx.label('width0' if w == 0 else 'w%8==0' if w % 8 == 0 else 'odd-width')
    if 0 < sum(l) < w:
        ctx.nontrivial()


def gen_index(d):
    a = bits.gen_bits(d, 80)
    w = a[0]

    def bound():
        k = d.choice(6)
        if k == 0:
            return None
        if k == 1:
            return d.int(-w - 3, w + 3)
        if k == 2:
            return -d.choice(w + 2)
        return d.choice(w + 1)
    step = d.pick((None, 1, 1, 2, 3, -1, -2, -3, 7)) if d.flag(1, 2) else None
    return dict(a=a, lo=bound(), hi=bound(), step=step, parts=[d.choice(w + 1) for _ in range(d.choice(4))], k=d.choice(w) if w else 0,
                bit=d.choice(2), b=bits.gen_bits(d, 80))


def body_index(case, ctx):
    B = bits.BS()
    w, v = case['a']
    l = bl(case['a'])
    a = bits.mk(case['a'])
    n = "%d'h%x" % (w, v)
    s = slice(case['lo'], case['hi'], case['step'])
    is_bits(ctx, a[s], l[s], '%s[%s]' % (n, s), 'slice')
    # A partition, joined again.
    cuts = [0] + sorted(case['parts']) + [w]
    joined = B()
    for x, y in zip(cuts, cuts[1:]):
        is_bits(ctx, a[x:y], l[x:y], '%s[%d:%d]' % (n, x, y), 'slice')
        joined = a[x:y] % joined
    is_bits(ctx, joined, l, '%s cut at %s and joined' % (n, cuts), 'partition')
    if w:
        k, bit = case['k'], case['bit']
        is_bits(ctx, a[k], [l[k]], '%s[%d]' % (n, k), 'index')
        is_bits(ctx, a[k - w], [l[k - w]], '%s[%d]' % (n, k - w), 'index')
        is_bits(ctx, a.get_bit(k), [l[k]], '%s.get_bit(%d)' % (n, k), 'index')
        ctx.eq(a.get_bit_value(k), l[k], '%s.get_bit_value(%d)' % (n, k), 'index')
        for pos, val in ((k, bit), (k - w, bit), (k, B(bit, 1)), (k - w, B(bit, 1))):
            c = bits.mk(case['a'])
            c[pos] = val
            m = list(l)
            m[pos] = bit
            is_bits(ctx, c, m, '%s[%d] = %d' % (n, pos, bit), 'setbit')
    # Slice assignment of a value as wide as the slice, and of narrower and wider ones.
    lo, hi, _ = slice(case['lo'], case['hi']).indices(w)
    if lo <= hi:
        width = hi - lo
        b = case['b']
        for value, lv in ((B(b[1], width), None), (bits.mk(b), None), (b[1] & 0xffffffff, None), (bits.text(b), None)):
            x = (b[1] & 0xffffffff if isinstance(value, int) else b[1]) & ((1 << width) - 1)
            c = bits.mk(case['a'])
            c[case['lo']:case['hi']] = value
            m = list(l)
            m[lo:hi] = [x >> i & 1 for i in range(width)]
            is_bits(ctx, c, m, '%s[%s:%s] = %r' % (n, case['lo'], case['hi'], value), 'setslice')
        ctx.label('setslice')
    # An assignment past the end is an error and changes nothing.
    c = bits.mk(case['a'])
    try:
        c[w] = 1
    except IndexError:
        is_bits(ctx, c, l, '%s after a failed assignment' % n, 'setbit')
    else:
        ctx.fail('%s[%d] = 1 is no error' % (n, w), 'setbit')
    if case['step'] not in (None, 1):
        ctx.label('step')
    if w >= 2 and 0 < sum(l) < w:
        ctx.nontrivial()


def enum_views(shard, n, tier):
    k = 0
    for w in range(10 if tier == 'quick' else 13):
        for v in range(1 << w):
            k += 1
            if k % n == shard:
                yield (w, v), dict(a=[w, v], ext=(v * 7 + w) % 20, b=[v % 5, v % (1 << v % 5)])


def enum_index(shard, n, tier):
    k = 0
    for w in range(6):
        for v in range(1 << w):
            for lo in [None] + list(range(-w - 1, w + 2)):
                for hi in [None] + list(range(-w - 1, w + 2)):
                    k += 1
                    if k % n == shard:
                        for step in (None, 1, 2, -1, -2):
                            yield (w, v, lo, hi, step), dict(a=[w, v], lo=lo, hi=hi, step=step, parts=[v % (w + 1)], k=v % w if w else 0,
                                                             bit=v & 1, b=[3, (v * 3) & 7])


# What a list of bits could not take, or what is no value of a bit string, is refused and changes nothing.
REFUSED = (TypeError, ValueError, IndexError, OverflowError)
FOREIGN = (None, 1.5, 0.0, {}, object)


def gen_refused(d):
    return dict(a=bits.gen_bits(d, 80), k=d.choice(100), lo=d.choice(90), hi=d.choice(90), step=d.pick((2, 3, -1, -2, 5)),
                f=d.choice(len(FOREIGN)), b=[d.int(2, 40), d.word()], over=d.choice(5), op=d.choice(12), digit=d.pick('2aZ-.'))


def body_refused(case, ctx):
    B = bits.BS()
    w, v = case['a']
    c = bits.mk(case['a'])
    n = "%d'h%x" % (w, v)
    k = case['k'] % w if w else 0
    foreign = FOREIGN[case['f']]
    wide = B(case['b'][1], case['b'][0])
    many = 2 + case['b'][1] % 1000
    op = case['op']

    def setitem(i, x):
        c[i] = x

    def imod(x):
        r = c
        r %= x
    ops = [('bit %d past the end set' % (w + case['over']), lambda: setitem(w + case['over'], 1)),
           ('bit set before the first one', lambda: setitem(-w - 1 - case['over'], 1)),
           ('%d bits assigned to bit %d' % (wide.width, k), lambda: setitem(k, wide)),
           ('no bit (0 wide) assigned to bit %d' % k, lambda: setitem(k, B())),
           ('%r assigned to bit %d' % (foreign, k), lambda: setitem(k, foreign)),
           ('a slice with step %d assigned' % case['step'], lambda: setitem(slice(case['lo'], case['hi'], case['step']), B(1, 1))),
           ('%r assigned to a slice' % (foreign,), lambda: setitem(slice(0, k), foreign)),
           ('item at index %r read' % (foreign,), lambda: c[foreign]),
           ('item at index %r set' % (foreign,), lambda: setitem(foreign, 1)),
           ('set() to %r' % (foreign,), lambda: c.set(foreign)),
           ('the integer %d concatenated' % many, lambda: imod(many)),
           ('text with the digit %r' % case['digit'], lambda: B('01' + case['digit'] + '1'))]
    what, f = ops[op]
    if w == 0 and op in (2, 3, 4):
        return
    try:
        f()
    except REFUSED:
        pass
    else:
        ctx.fail('%s: %s is no error' % (n, what), 'refused')
    ctx.eq(bits.state(c), (w, v), '%s after a refused operation (%s)' % (n, what), 'refused')
    ctx.label(what.split()[0] + str(op))
    ctx.nontrivial()


PROP = Prop('C20', 'A case is a bit string (width 0 to 130) put through all constructions, conversions, extensions, counts '
            'and concatenations; or one put through indexing, slicing with generated bounds and step, a partition, and '
            'bit and slice assignment; or one operation that no list of bits could take; each compared with its list of bits. Widths up to 9 and all slices of widths up '
            'to 5 are enumerated. Non-trivial: the bit string has both zeros and ones.',
            [Test('views', gen_views, body_views, quick=6000, enum=enum_views),
             Test('index', gen_index, body_index, quick=10000, enum=enum_index),
             Test('refused', gen_refused, body_refused, quick=4000)],
            assumptions=['bits beyond the width are not read; a slice assignment has an ordered range and step 1',
                         'a slice assignment of a wider value truncates it, of a narrower one fills with zeros'])
