from vlib.engine import Prop, Test
from vlib import cpu, dec, ref


def gen(d):
    w, b = dec.gen_word(d)
    return dict(w=w, b=b)


def body(case, ctx):
    w, b = case['w'], case['b']
    data = ref.to_bytes(w, b)
    want = ref.decode_word(w, b)
    out = dec.outcome(data, 0x2000)
    wrong = dec.agrees(out, want, data, 0x2000)
    if wrong:
        ctx.fail('%0*x %s' % (b // 4, w, wrong), 'decode:' + (want if isinstance(want, str) else want.name))
    if isinstance(want, str):
        ctx.label(want + str(b))
        if want == ref.UNPREDICTABLE:
            ctx.nontrivial()
        elif b == 16 or near(w):
            ctx.nontrivial()
    else:
        ctx.label(want.name)
        ctx.nontrivial()


def near(w):
    """Within three bits of an encoding."""
    return any(bin((w ^ e.match) & e.mask).count('1') <= 3 for e in ref.ENC32)


def enum16(shard, n, tier):
    for w in range(shard, 65536, n):
        if not ref.is32(w):
            yield (w,), dict(w=w, b=16)
    if shard == 0:
        # Each 32-bit encoding with every single fixed bit flipped, fields at 0, all ones and in between.
        pass
    for ei, e in enumerate(ref.ENC32):
        if ei % n != shard:
            continue
        for v in range(4):
            f = {k: (0, (1 << len(p)) - 1, 0x15555 * (j + 1) & ((1 << len(p)) - 1), 3 & ((1 << len(p)) - 1))[v]
                 for j, (k, p) in enumerate(sorted(e.fields.items()))}
            w = e.make(f)
            for bit in range(-1, 32):
                x = w ^ (1 << bit) if bit >= 0 else w
                if ref.is32(x >> 16):
                    yield ('n', ei, v, bit), dict(w=x, b=32)
        # Every pair of values of two register-sized fields, and all values of each single field.
        names = sorted(e.fields)
        for a in names:
            for b in names:
                if a < b and len(e.fields[a]) <= 4 and len(e.fields[b]) <= 4:
                    for x in range(1 << len(e.fields[a])):
                        for y in range(1 << len(e.fields[b])):
                            f = {k: (0x25 * (j + 1)) & ((1 << len(p)) - 1) for j, (k, p) in enumerate(sorted(e.fields.items()))}
                            f[a], f[b] = x, y
                            yield ('p', ei, a, b, x, y), dict(w=e.make(f), b=32)


PROP = Prop('C03', 'A case is one word: all 16-bit encodings, every 32-bit encoding with all pairs of register-sized fields '
            'and each bit flipped, and generated 32-bit words at, near (1 to 3 bits) and far from the encodings; '
            'mnemonic, size or error must be those of the reference table. Non-trivial: words that the reference '
            'decodes or calls unpredictable, and undefined ones that are 16-bit or within three bits of an encoding.',
            [Test('word', gen, body, quick=60000, enum=enum16)],
            assumptions=['an encoding that the architecture leaves unpredictable but the project does not check may '
                         'decode or raise Unpredictable'])
