import contextlib
import io

from vlib import cpu
from vlib.engine import Prop, Test

P32 = (0b11101, 0b11110, 0b11111)
ACTIONS = ('accept', 'decline', 'decline-odd', 'decline-even', 'unpredictable', 'unpredictable-odd')


def popcount(v):
    return bin(v).count('1')


def gen_set(d):
    """Decoders [n halfwords, mask, match, action]."""
    out = []
    n = d.int(60, 300) if d.flag(1, 40) else d.int(0, 40) if d.flag(1, 3) else d.int(0, 10)
    for _ in range(n):
        halves = d.int(1, 2)
        width = 16 * halves
        same = [x for x in out if x[0] == halves]
        k = d.choice(5) if same else 4
        full = (1 << width) - 1
        if k < 4:
            base = d.pick(same)
            mask, match = base[1], base[2]
        if k == 0:      # more specific
            extra = d.bits(width) & d.bits(width)
            mask |= extra
            match |= extra & d.bits(width) & ~base[1]
        elif k == 1:    # less specific
            mask &= ~(d.bits(width) & d.bits(width))
        elif k == 2:    # a sibling
            match ^= 1 << d.choice(width)
        elif k == 3:    # other fixed bits of a similar pattern
            mask = mask ^ (1 << d.choice(width)) ^ (1 << d.choice(width))
            match ^= 1 << d.choice(width)
        else:
            mask = d.bits(width)
            if d.flag():
                mask &= d.bits(width)
            elif d.flag():
                mask = full ^ (full >> d.choice(width + 1))
            match = d.bits(width)
            if halves == 2 and d.flag(5, 6):
                mask |= 0xf8000000
                match = match & 0x7ffffff | d.pick(P32) << 27
        if mask == 0 and d.flag(3, 4):
            mask = 1 << d.choice(width)
        match &= mask
        # Overlapping encodings must differ in their number of fixed bits.
        if any((match ^ m2) & mask & k2 == 0 and popcount(mask) == popcount(k2) for h2, k2, m2, _ in same):
            continue
        out.append([halves, mask, match, 0 if d.flag() else d.choice(len(ACTIONS))])
    return out


def gen(d):
    decs = gen_set(d)
    order = list(range(len(decs)))
    for i in range(len(order) - 1, 0, -1):
        j = d.choice(i + 1)
        order[i], order[j] = order[j], order[i]
    words = []
    for _ in range(d.int(1, 12)):
        if decs and d.flag(5, 6):
            x = d.pick(decs)
            width = 16 * x[0]
            w = d.bits(width) & ~x[1] | x[2]
            for _ in range(d.choice(3)):
                if d.flag(1, 3):
                    y = d.pick(decs)
                    if y[0] == x[0]:
                        w = w & ~y[1] | y[2]
            if d.flag(1, 4):
                w ^= 1 << d.choice(width)
            words.append([x[0], w])
        else:
            h = d.int(1, 2)
            words.append([h, d.bits(16 * h)])
    return dict(decoders=decs, order=order, split=d.choice(len(decs) + 1), words=words, addr=d.choice(1 << 31) * 2)


def spec(mask, match, prefix):
    """Specification text of 16 bits; runs of free bits become fields."""
    s, i, k = [], 15, 0
    while i >= 0:
        if mask >> i & 1:
            s.append('01'[match >> i & 1])
            i -= 1
        else:
            j = i
            while j >= 0 and not mask >> j & 1:
                j -= 1
            s.append(' %s%d(%d) ' % (prefix, k, i - j))
            k += 1
            i = j
    return ''.join(s)


def expect(decs, live, word, halves):
    """(indexes of the decoders called in turn, outcome) by linear search."""
    calls = []
    for k in sorted(live, key=lambda k: -popcount(decs[k][1])):
        h, mask, match, action = decs[k]
        if h == halves and word & mask == match:
            calls.append(k)
            a = ACTIONS[action]
            odd = popcount(word) & 1
            if a == 'accept' or a == 'decline-odd' and not odd or a == 'decline-even' and odd or a == 'unpredictable-odd' and not odd:
                return calls, 'ok'
            if a.startswith('unpredictable'):
                return calls, 'unpredictable'
    return calls, 'undefined'


def body(case, ctx):
    D = cpu.cm()['decoder']
    decs, words = case['decoders'], case['words']
    calls = []

    def make(k):
        halves, mask, match, action = decs[k]
        a = ACTIONS[action]

        def handler(i, **kw):
            calls.append(k)
            odd = sum(popcount(b) for b in i.bytes) & 1
            if a == 'decline' or a == 'decline-odd' and odd or a == 'decline-even' and not odd:
                raise D.DecodeError()
            if a == 'unpredictable' or a == 'unpredictable-odd' and odd:
                raise D.UnpredictableError()
        if halves == 1:
            return D.Decoder(handler, 'd%d' % k, D.Instruction, spec(mask, match, 'a'))
        return D.Decoder(handler, 'd%d' % k, D.Instruction, spec(mask >> 16, match >> 16, 'a'), spec(mask & 0xffff, match & 0xffff, 'b'))

    # Built twice: with the first of the decoders, then with the rest added. The second tree has them in another order.
    trees = [(D.DecoderTree(), case['order']), (D.DecoderTree(), list(range(len(decs))))]
    deep = False
    for tree, order in trees:
        objs = {}
        for stage in (order[:case['split']], order):
            for k in stage:
                if k not in objs:
                    objs[k] = make(k)
                    tree.add_decoder(objs[k])
            tree.build()
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                tree.dump()
            shown = out.getvalue().split('32-bit instructions')
            for k in stage:
                ctx.eq([x.count(str(objs[k])) for x in shown], [2 - decs[k][0], decs[k][0] - 1],
                       'times that decoder %s is in the dump of %d decoders (16-bit part, 32-bit part)' % (decs[k], len(stage)), 'dump')
            for halves, w in words:
                first = w >> 16 * (halves - 1)
                real = 2 if first >> 11 in P32 else 1
                data = bytearray()
                for h in range(halves):
                    x = w >> 16 * (halves - 1 - h) & 0xffff
                    data += bytearray((x & 255, x >> 8))
                while len(data) < 4:
                    data.append(0x42)
                word = first if real == 1 else (first << 16 | data[3] << 8 | data[2])
                want = expect(decs, stage, word, real)
                del calls[:]
                i = None
                try:
                    i = tree.decode(data, case['addr'])
                    out = 'ok'
                except D.UndefinedInstructionError:
                    out = 'undefined'
                except D.UnpredictableError:
                    out = 'unpredictable'
                what = '%s among %d decoders' % (bytes(data).hex(), len(stage))
                ctx.eq((list(calls), out), want, what + ': (decoders called, outcome)', 'dispatch')
                if out == 'ok':
                    ctx.eq((i.mnemonic, i.size, i.address, bytes(i.bytes)),
                           ('d%d' % calls[-1], 2 * real, case['addr'], bytes(data[:2 * real])), what + ': instruction', 'instruction')
                ctx.label(out)
                if len(want[0]) > 1:
                    ctx.label('passed-on')
                if sum(1 for k in stage if decs[k][0] == real and word & decs[k][1] == decs[k][2]) > 1:
                    deep = True
    if deep:
        ctx.nontrivial()


PROP = Prop('C25', 'A case is a set of up to 40 decoders of 16 and 32 bits (nested, sibling and overlapping patterns; handlers '
            'that accept, decline or raise unpredictable, always or by the word), two orders of adding them and a point at which the '
            'tree is built in between, and up to 12 words, most of them matching one decoder or more; the handlers called in turn '
            'and the outcome are compared with a linear search by number of fixed bits. Non-trivial: some word matches at least two decoders.',
            [Test('sets', gen, body, quick=4000)],
            assumptions=['overlapping encodings differ in their number of fixed bits'])
