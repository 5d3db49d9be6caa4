import operator

from vlib.engine import Prop, Test
from vlib import bits
from vlib.props.c18 import BINARY, INPLACE, OPS

PURE = ['bin', 'binint', 'bintext', 'cat', 'catint', 'cattext', 'catseq', 'shift', 'invert', 'inverted', 'reversed', 'sx',
        'zx', 'slice', 'bit', 'copy', 'copyw', 'reflect']
READ = ['signed', 'unsigned', 'value', 'mask', 'bytes', 'text', 'base', 'repr', 'hash', 'iter', 'count', 'ends', 'zero',
        'compare', 'compareint', 'comparetext', 'int', 'bool', 'len', 'getbit']
MUT = ['ibin', 'ibin', 'ibinint', 'icat', 'icatint', 'ishift', 'set', 'reverse', 'minvert', 'width', 'valueset', 'setbit',
       'setbitbs', 'setslice', 'setsliceint']


def gen(d):
    pool = [bits.gen_bits(d, 70) for _ in range(d.int(1, 4))]
    ops = []
    n = len(pool)
    for _ in range(d.size(2, 16, 120)):
        g = d.choice(3)
        name = d.pick((PURE, READ, MUT)[g])
        ops.append([name, d.choice(1 << 16), d.choice(1 << 16), d.pick(OPS), d.choice(1 << 16)])
    return dict(pool=pool, ops=ops)


def body(case, ctx):
    B = bits.BS()
    pool = [bits.mk(p) for p in case['pool']]
    snap = [bits.state(b) for b in pool]
    mutated_shared = False
    aliases = 0
    for name, i, j, op, k in case['ops']:
        i %= len(pool)
        j %= len(pool)
        a, b = pool[i], pool[j]
        (w, v), (wb, vb) = snap[i], snap[j]
        if i == j:
            aliases += 1
        new = None
        target = None
        what = '%s(%d%s) of %r and %r' % (name, k, op, snap[i], snap[j])
        # Fresh copies for the pure counterparts.
        fa, fb = B(v, w), B(vb, wb)
        if w > 400:
            name = 'slice'
        if name == 'bin':
            if op == '//' and vb == 0:
                continue
            new = BINARY[op](a, b)
        elif name == 'binint':
            if op == '//' and k == 0:
                continue
            new = BINARY[op](a, k)
        elif name == 'bintext':
            if op == '//':
                continue
            new = BINARY[op](a, format(k, 'b'))
        elif name == 'reflect':
            if op == '//' and v == 0:
                continue
            new = BINARY[op](k, a)
        elif name == 'cat':
            new = a % b
        elif name == 'catint':
            new = a % (k & 1)
        elif name == 'cattext':
            new = a % format(k & 255, 'b')
        elif name == 'catseq':
            seq = [x & 1 for x in range(k & 7)]
            new = a % seq
            ctx.eq(seq, [x & 1 for x in range(k & 7)], 'sequence after %s' % what, 'operand')
        elif name == 'shift':
            new = (a << k % 40) if k & 64 else (a >> k % 40)
        elif name == 'invert':
            new = ~a
        elif name == 'inverted':
            new = a.inverted
        elif name == 'reversed':
            new = a.reversed
        elif name == 'sx':
            if w == 0:
                continue
            new = a.sign_extend(w + k % 5)
        elif name == 'zx':
            new = a.zero_extend(w + k % 5)
        elif name == 'slice':
            new = a[k % 70:(k >> 7) % 70] if not k & 1 else a[::-1] if k & 2 else a[:]
        elif name == 'bit':
            if w == 0:
                continue
            new = a[k % w] if k & 1 else a[-1 - k % w]
        elif name == 'copy':
            new = B(a)
        elif name == 'copyw':
            new = B(a, k % 70)
        elif name == 'signed':
            a.signed
        elif name == 'unsigned':
            a.unsigned
        elif name == 'value':
            a.value
        elif name == 'mask':
            a.mask
        elif name == 'bytes':
            x = a.bytes
            if len(x):
                x[0] ^= 0xff
        elif name == 'text':
            a.binary_string
        elif name == 'base':
            a.base_string((2, 8, 10, 16)[k % 4])
        elif name == 'repr':
            repr(a), str(a), '%x' % a
        elif name == 'hash':
            hash(a)
        elif name == 'iter':
            list(a)
        elif name == 'count':
            a.bit_count()
        elif name == 'ends':
            a.lowest_set_bit(), a.highest_set_bit()
        elif name == 'zero':
            a.is_zero(), a.is_ones()
            z = a.is_zero_bit()
            z.invert()
            z = a.is_ones_bit()
            z.invert()
        elif name == 'compare':
            a == b, a != b, a < b, a <= b, a > b, a >= b
        elif name == 'compareint':
            a == k, a < k, a == -k, a <= -k, a > -k
        elif name == 'comparetext':
            a == '1010', a < '11', a >= '0'
        elif name == 'int':
            int(a), operator.index(a)
        elif name == 'bool':
            bool(a)
        elif name == 'len':
            len(a)
        elif name == 'getbit':
            if w:
                a.get_bit(k % w), a.get_bit_value(k % w)
        # In place: only the target changes, to what the pure form gives.
        elif name in ('ibin', 'ibinint'):
            y = b if name == 'ibin' else k
            if op == '//' and int(y) == 0:
                continue
            want = BINARY[op](fa, fb if name == 'ibin' else k)
            pool[i] = INPLACE[op](a, y)
            target = want
        elif name in ('icat', 'icatint'):
            want = fa % (fb if name == 'icat' else k & 1)
            pool[i] = operator.imod(a, b if name == 'icat' else k & 1)
            target = want
        elif name == 'ishift':
            n = k % 40
            want = fa << n if k & 64 else fa >> n
            pool[i] = operator.ilshift(a, n) if k & 64 else operator.irshift(a, n)
            target = want
        elif name == 'set':
            a.set(b)
            target = fb
        elif name == 'reverse':
            r = a.reverse()
            target = fa.reversed
            ctx.true(r is None or bits.state(r) == bits.state(target), '%s returns %r' % (what, r), 'return')
        elif name == 'minvert':
            r = a.invert()
            target = ~fa
            ctx.true(r is None or bits.state(r) == bits.state(target), '%s returns %r' % (what, r), 'return')
        elif name == 'width':
            a.width = k % 70
            target = B(fa, k % 70)
        elif name == 'valueset':
            a.value = k
            target = B(k, w)
        elif name in ('setbit', 'setbitbs'):
            if w == 0:
                continue
            p = k % w
            a[p] = k >> 8 & 1 if name == 'setbit' else B(k >> 8 & 1, 1)
            fa[p] = k >> 8 & 1
            target = fa
        elif name in ('setslice', 'setsliceint'):
            lo = k % (w + 1)
            hi = lo + (k >> 8) % (w + 1 - lo)
            a[lo:hi] = b if name == 'setslice' else j
            fa[lo:hi] = fb if name == 'setslice' else j
            target = fa
        else:
            raise AssertionError(name)
        if target is not None:
            ctx.eq(bits.state(pool[i]), bits.state(target), 'target of in-place %s' % what, 'inplace:' + name)
            ctx.eq(pool[i].mask, (1 << target.width) - 1, 'mask after %s' % what, 'inplace:' + name)
            if pool[i] is not a:
                # An operator may give a new object; the old one is then an operand.
                ctx.eq(bits.state(a), snap[i], 'old object of %s' % what, 'operand:' + name)
            snap[i] = bits.state(target)
            mutated_shared = mutated_shared or len(pool) > len(case['pool'])
        if new is not None:
            ctx.true(isinstance(new, B), '%s gives %r' % (what, new), 'type')
            pool.append(new)
            snap.append(bits.state(new))
        for x, (obj, s) in enumerate(zip(pool, snap)):
            if bits.state(obj) != s or obj.value != s[1] or obj.mask != (1 << s[0]) - 1:
                ctx.fail('%s changes object %d from %r to %r' % (what, x, s, bits.state(obj)),
                         'operand:' + name)
    c = bits.cpu.cm()['bitstring']
    ctx.eq((bits.state(c.bit0), bits.state(c.bit1)), ((1, 0), (1, 1)), 'the constants bit0 and bit1', 'constants')
    if mutated_shared:
        ctx.label('mutated-after-derived')
        ctx.nontrivial()
    if aliases:
        ctx.label('alias')


def gen_one(d):
    a = bits.gen_bits(d, 70)
    return dict(a=a, b=bits.gen_bits(d, 70), ops=[[d.pick(PURE + MUT), 0, d.choice(2), d.pick(OPS), d.choice(1 << 16)],
                                                  [d.pick(MUT), 2 if d.flag() else 0, d.choice(3), d.pick(OPS), d.choice(1 << 16)]])


def body_one(case, ctx):
    """Two operations: derive something, then change either side in place."""
    body(dict(pool=[case['a'], case['b']], ops=case['ops']), ctx)


PROP = Prop('C19', 'A case is a chain of 2 to 16 operations (pure, reading, in place) over a growing pool of bit strings '
            'with operands drawn from the pool, the same object twice included; after each one every object of the '
            'pool must be as before, except the target of an in-place form, which must be what the pure form gives on '
            'fresh copies. Non-trivial: an in-place operation after some object was derived from another.',
            [Test('chain', gen, body, quick=12000), Test('pairs', gen_one, body_one, quick=25000)],
            assumptions=['whether results are right is C18, C20 and C21'])
