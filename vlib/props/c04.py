from vlib.engine import Prop, Test
from vlib import cpu, dec, ref


def gen(d):
    w, b = cpu.gen_insn(d, d.pick((ref.ENC32, ref.ENC32, ref.ENC32, ref.ENC16)), executable=False)
    return dict(w=w, b=b, addr=dec.gen_addr(d))


def body(case, ctx):
    w, b, addr = case['w'], case['b'], case['addr']
    want = ref.decode_word(w, b)
    out = dec.outcome(ref.to_bytes(w, b), addr)
    if out == ref.UNPREDICTABLE and want.maybe_unpred:
        return
    if out[0] != 'ok':
        ctx.fail('%s raises %s' % (cpu.describe(want, w), out), 'decode')
    text = out[5]
    try:
        hx, mn, ops, comments = ref.parse_text(text)
    except ref.TextError as e:
        ctx.fail('%r: %s' % (text, e), 'text')
    whx, wmn, wops, wcomments = ref.expected_text(want, addr)
    ctx.eq(hx, whx, '%r: encoding' % text, 'encoding')
    ctx.eq(mn, wmn, '%r: mnemonic' % text, 'mnemonic')
    ctx.eq(ops, wops, '%r: operands' % text, 'operands:' + want.name)
    ctx.eq(sorted(x.lower() for x in comments), sorted(wcomments), '%r: comment' % text, 'comment:' + want.name)
    ctx.label(want.name)
    ctx.nontrivial()


def enum16(shard, n, tier):
    for w in range(shard, 65536, n):
        if not ref.is32(w) and isinstance(ref.decode_word(w, 16), ref.Insn):
            yield (w,), dict(w=w, b=16, addr=(w * 8) & 0xfffc | (w & 2))
    # All 32-bit register lists of the multiple transfers, and all modified immediates.
    for name in ('push_w', 'pop_w', 'stm_w', 'ldm_w'):
        e = ref.BY_NAME[name]
        nbits = len(e.fields['r'])
        for r in range(shard, 1 << nbits, n * (5 if tier == 'quick' else 1)):
            f = {k: 0 for k in e.fields}
            f['r'] = r
            if 'n' in f:
                f['n'] = r % 13
            for k in 'MPw':
                if k in f:
                    f[k] = r >> 3 & 1
            w = e.make(f)
            if isinstance(ref.decode_word(w, 32), ref.Insn):
                yield (name, r), dict(w=w, b=32, addr=0)


PROP = Prop('C04', 'A case is one decodable encoding at an address: all 16-bit ones, and generated 32-bit ones; its text is '
            'parsed and compared with the encoding, mnemonic, operands and immediates of the reference. Non-trivial: '
            'all that the project decodes.',
            [Test('text', gen, body, quick=50000, enum=enum16)],
            assumptions=['spacing, letter case, showing a zero LSL or a '
                         'zero offset, and the amount after RRX are free',
                         'the comment lists, in any order, the immediates above 9 and the label address'])
