import operator

from vlib.engine import Prop, Test
from vlib import bits

OPS = [('==', operator.eq), ('!=', operator.ne), ('<', operator.lt), ('<=', operator.le), ('>', operator.gt), ('>=', operator.ge)]


def gen_one(d, near=None):
    if near is not None and d.flag():
        w, v = near
        k = d.choice(4)
        if k == 0:
            return [w + d.choice(3), v]
        if k == 1:
            return [w, (v + 1) & ((1 << w) - 1)]
        if k == 2:
            return [w, v]
        return [w + 32, v]
    return bits.gen_bits(d)


def gen(d):
    a = gen_one(d)
    b = gen_one(d, a)
    return dict(a=a, b=b, c=gen_one(d, b))


def key(p):
    return p[1], p[0]


def body(case, ctx):
    ps = [case['a'], case['b'], case['c']]
    objs = [bits.mk(p) for p in ps]
    for p, x in zip(ps, objs):
        for q, y in zip(ps, objs):
            for name, op in OPS:
                got = op(x, y)
                if bool(got) != op(key(p), key(q)) or not isinstance(got, bool):
                    ctx.fail("%d'h%x %s %d'h%x is %r" % (p[0], p[1], name, q[0], q[1], got), name)
            if key(p) == key(q):
                ctx.eq(hash(x), hash(y), "hash of equal bit strings %d'h%x" % tuple(p), 'hash')
                ctx.eq(hash(bits.mk(p)), hash(x), "hash of %d'h%x" % tuple(p), 'hash')
        ctx.eq(bool(x), p[1] != 0, "truth of %d'h%x" % tuple(p), 'bool')
    # As keys and in sorting.
    ctx.eq(len(set(objs)), len({key(p) for p in ps}), 'size of the set', 'hash')
    ctx.eq([bits.state(o)[::-1] for o in sorted(objs)], sorted(key(p) for p in ps), 'sorted', 'sort')
    if case['a'][1] == case['b'][1] and case['a'][0] != case['b'][0]:
        ctx.label('same-value-other-width')
    if len({key(p) for p in ps}) > 1:
        ctx.nontrivial()


CHANGES = ['+=', '-=', '^=', '|=', '&=', '*=', '<<=', '>>=', '//=', '%=', 'item', 'slice', 'value', 'width', 'set', 'invert', 'reverse']


def gen_change(d):
    ops = [[d.pick(CHANGES), d.choice(1 << 12), d.choice(2)] for _ in range(d.size(1, 6, 60))]
    return dict(a=gen_one(d), b=gen_one(d), ops=ops)


def change(x, kind, k, b):
    n = len(x)
    if kind == 'item':
        if n:
            x[k % n] = 1 - x[k % n].unsigned
    elif kind == 'slice':
        x[k % (n + 1):] = k >> 3
    elif kind == 'value':
        x.value = k * 0x10001
    elif kind == 'width':
        x.width = k % 70
    elif kind == 'set':
        x.set(b)
    elif kind in ('invert', 'reverse'):
        getattr(x, kind)()
    elif kind in ('<<=', '>>='):
        x = {'<<=': operator.ilshift, '>>=': operator.irshift}[kind](x, k % 9)
    elif kind == '%=':
        x = operator.imod(x, k & 1) if n < 200 else x
    else:
        v = k if kind != '//=' else k + 1
        x = {'+=': operator.iadd, '-=': operator.isub, '^=': operator.ixor, '|=': operator.ior, '&=': operator.iand,
             '*=': operator.imul, '//=': operator.ifloordiv}[kind](x, v)
    return x


def body_change(case, ctx):
    """Hash, order and truth go with the value that a bit string has now."""
    x, b = bits.mk(case['a']), bits.mk(case['b'])
    changed = 0
    for kind, k, look in [['', 0, 1]] + case['ops']:
        if kind:
            was = bits.state(x)
            x = change(x, kind, k, b)
            changed += bits.state(x) != was
        p = bits.state(x)
        fresh = bits.mk(list(p))
        for q in (b, fresh) if look else ():
            for name, op in OPS:
                ctx.eq(op(x, q), op(key(p), key(bits.state(q))), '%r %s %r after %s' % (x, name, q, kind), name)
        if look:
            ctx.eq((hash(x), bool(x)), (hash(fresh), p[1] != 0), 'hash and truth of %r after %s' % (x, kind), 'stale')
            ctx.true(x in {fresh}, '%r is not found in a set after %s' % (x, kind), 'stale')
    if changed:
        ctx.nontrivial()


def gen_int(d):
    a = gen_one(d)
    w, v = a
    k = d.choice(6)
    if k == 0:
        i = v
    elif k == 1:
        i = v + d.choice(3) - 1
    elif k == 2:
        i = bits.signed(v, w)
    elif k == 3:
        i = bits.signed(v, w) + d.choice(3) - 1
    elif k == 4:
        i = d.word() - (1 << 31)
    else:
        i = -d.value(40)
    if w < 2 and i < 0:
        i = -i
    return dict(a=a, i=i, text=bits.text(gen_one(d, a)))


class Foreign(object):
    pass


class Chum(object):
    """Knows how to compare itself."""
    def __eq__(self, other):
        return True

    def __lt__(self, other):
        return True

    __gt__ = __le__ = __ge__ = __lt__
    __hash__ = None


def body_int(case, ctx):
    (w, v), i = case['a'], case['i']
    x = bits.mk(case['a'])
    mine = v if i >= 0 else bits.signed(v, w)
    n = "%d'h%x" % (w, v)
    for name, op in OPS:
        ctx.eq(bool(op(x, i)), op(mine, i), '%s %s %d' % (n, name, i), 'int' + name)
        # The integer on the left gives the mirrored comparison.
        ctx.eq(bool(op(i, x)), op(i, mine), '%d %s %s' % (i, name, n), 'int' + name)
    t = case['text']
    q = (int(t, 2) if t else 0, len(t))
    for name, op in OPS:
        ctx.eq(bool(op(x, t)), op((v, w), q), '%s %s %r' % (n, name, t), 'text' + name)
    for other in (None, 1.5, (), [], {}, Foreign(), b''):
        ctx.eq((x == other, other == x, x != other, other != x), (False, False, True, True), '%s and %r' % (n, other), 'foreign')
        for name, op in OPS[2:]:
            for f in (lambda: op(x, other), lambda: op(other, x)):
                try:
                    r = f()
                except TypeError:
                    continue
                ctx.fail('%s %s %r is %r' % (n, name, other, r), 'foreign')
    ctx.true(other_first(x), 'comparison with a type that can compare is not left to it', 'foreign')
    if i < 0:
        ctx.label('negative')
    if op(mine, i) or i != 0:
        ctx.nontrivial()


def other_first(x):
    c = Chum()
    return (x == c) is True and (x < c) is True and (x >= c) is True and (x > c) is True and (x <= c) is True


def enum_pairs(shard, n, tier):
    top = 5 if tier == 'quick' else 6
    vals = [[w, v] for w in range(top + 1) for v in range(1 << w)]
    k = 0
    for a in vals:
        for b in vals:
            k += 1
            if k % n == shard:
                yield (a[0], a[1], b[0], b[1]), dict(a=a, b=b, c=vals[(k * 7) % len(vals)])


def enum_int(shard, n, tier):
    k = 0
    for w in range(8):
        for v in range(1 << w):
            for i in range(-130 if w >= 2 else 0, 131, 1 if tier == 'thorough' else 3):
                k += 1
                if k % n == shard:
                    yield (w, v, i), dict(a=[w, v], i=i, text=format(i & 31, 'b').zfill(v % 7))


PROP = Prop('C21', 'A case is three bit strings (related widths and values common) compared with each other by all six '
            'operators, sorted and hashed; or one compared with an integer of either sign, binary text and foreign '
            'types from both sides; or one hashed, compared and then changed in place, again and again. Pairs of up to 5 bits are enumerated. Non-trivial: the bit strings are not all '
            'equal; the integer is not zero; the value changed.',
            [Test('triples', gen, body, quick=12000, enum=enum_pairs), Test('others', gen_int, body_int, quick=10000, enum=enum_int),
             Test('change', gen_change, body_change, quick=5000)],
            assumptions=['a negative integer is compared with bit strings of two or more bits'])
