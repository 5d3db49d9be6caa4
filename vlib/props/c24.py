from vlib import bits, cpu
from vlib.engine import Prop, Test

SPACE = ('', '', ' ', ' ', '  ', '\t', '\n', ' \t ')
BAD = '!#$%&*+,-./:;<>?@[]^_{|}~"\''
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def gen_name(d, used):
    while True:
        k = d.choice(3)
        if k == 0:
            n = d.pick(LETTERS)
        elif k == 1:
            n = d.pick(('Rd', 'Rn', 'imm8', 'imm5', 'S', 'cond', 'type', 'i1', 'J', 'registers', 'x0', 'a01', 'Z9', 'b10'))
        else:
            n = d.pick(LETTERS) + ''.join(d.pick(LETTERS + '0123456789') for _ in range(d.choice(5)))
        if n in used:
            n += 'q%d' % len(used)
        if n not in used:
            used.add(n)
            return n


def gen_tokens(d, total, used):
    """Tokens of exactly total bits: ['0'], ['1'], [name, width], [name, bits-text]."""
    out = []
    left = total
    while left:
        k = d.choice(8)
        w = d.int(1, left) if d.flag(1, 4) else d.int(1, min(left, 4))
        if k < 3:
            out.append(['01'[d.choice(2)]])
            w = 1
        elif k < 7:
            out.append([gen_name(d, used), w])
        else:
            out.append([gen_name(d, used), ''.join('01'[d.choice(2)] for _ in range(w))])
        left -= w
    return out


def gen_text(d, tokens):
    """A spelling of the tokens. White space is only left out where the grammar keeps them apart."""
    s = d.pick(SPACE)
    word = False        # the text so far ends in a character that a following one could continue
    value = False       # ... in the bits of a fixed value
    for t in tokens:
        sep = d.pick(SPACE)
        if len(t) == 1:
            if (word or value) and not sep:
                sep = ' '
            s += sep + t[0]
            word = value = False
            continue
        if word and not sep:
            sep = ' '
        s += sep + t[0]
        word = value = False
        if isinstance(t[1], int):
            if t[1] == 1 and d.flag():
                if d.flag(1, 3):
                    s += d.pick(SPACE) + '(' + d.pick(SPACE) + ')'
                else:
                    word = True
            else:
                s += d.pick(SPACE) + '(' + d.pick(SPACE) + str(t[1]) + d.pick(SPACE) + ')'
        else:
            s += '=' + t[1]
            value = True
    return s + d.pick(SPACE)


def gen_parse(d):
    used = set()
    t = gen_tokens(d, d.int(1, 40), used)
    a, b = gen_text(d, t), gen_text(d, t)
    return dict(tokens=t, a=a, b=b, bad=d.pick(BAD), at=d.choice(len(a) + 1))


def want_parse(tokens):
    return [('bit', int(t[0])) if len(t) == 1 else ('field', t[0], t[1]) if isinstance(t[1], int) else
            ('const', t[0], len(t[1]), int(t[1], 2)) for t in tokens]


def plain(r):
    out = []
    for f in r:
        if isinstance(f, tuple):
            if hasattr(f[1], 'unsigned'):
                out.append(('const', f[0]) + bits.state(f[1]))
            else:
                out.append(('field', f[0], f[1]))
        else:
            out.append(('bit', f))
    return out


def body_parse(case, ctx):
    D = cpu.cm()['decoder']
    want = want_parse(case['tokens'])
    for s in (case['a'], case['b']):
        ctx.eq(plain(D.parse_spec(s)), want, 'parse of %r' % s, 'parse')
    s = case['a'][:case['at']] + case['bad'] + case['a'][case['at']:]
    try:
        r = D.parse_spec(s)
    except ValueError:
        pass
    else:
        ctx.fail('%r parses to %r' % (s, plain(r)), 'accepts')
    if len({len(t) for t in case['tokens']}) > 1:
        ctx.nontrivial()


def gen_decode(d):
    used = set()
    n = d.int(1, 2)
    toks = []
    for h in range(n):
        t = gen_tokens(d, 16, used)
        if h == 0 and n == 2:
            # Most first halfwords have a 32-bit prefix in them.
            t = [['1'], ['1'], ['1'], ['1']] + gen_tokens(d, 12, used) if d.flag(3, 4) else t
        toks.append(t)
    texts = [gen_text(d, t) for t in toks]
    words = []
    for _ in range(d.int(1, 6)):
        w = 0
        for t in toks:
            w = w << 16 | fit(t, d.bits(16))
        if d.flag(1, 3):
            w ^= 1 << d.choice(16 * n)
        if d.flag(1, 6):
            w = d.bits(16 * n)
        words.append(w)
    return dict(tokens=toks, texts=texts, words=words, addr=d.choice(1 << 31) * 2, extra=d.choice(3))


def fit(tokens, w):
    """w with the fixed bits of the tokens."""
    pos = 16
    for t in tokens:
        b = t[0] if len(t) == 1 else None if isinstance(t[1], int) else t[1]
        k = len(b) if b else t[1]
        pos -= k
        if b:
            w = w & ~(((1 << k) - 1) << pos) | int(b, 2) << pos
    return w


def fields(tokens, w):
    """None if the fixed bits do not match, else {name: [width, value]}."""
    if fit(tokens, w) != w:
        return None
    pos = 16
    out = {}
    for t in tokens:
        k = 1 if len(t) == 1 else t[1] if isinstance(t[1], int) else len(t[1])
        pos -= k
        if len(t) == 2:
            out[t[0]] = (k, w >> pos & (1 << k) - 1)
    return out


def body_decode(case, ctx):
    D = cpu.cm()['decoder']
    toks, texts = case['tokens'], case['texts']
    got = []

    class Special(D.Instruction):
        pass

    def handler(*args, **kw):
        got.append((args[0], {k: bits.state(v) for k, v in kw.items()}))

    tree = D.DecoderTree()
    tree.add_decoder(D.Decoder(handler, 'probe', Special, texts[0], texts[1] if len(texts) > 1 else None, marker=('m', 7), other=None))
    tree.build()
    n = len(toks)
    for w in case['words']:
        hw = [w >> 16 * (n - 1 - k) & 0xffff for k in range(n)]
        is32 = hw[0] >> 11 in (0b11101, 0b11110, 0b11111)
        data = bytearray(b for h in hw for b in (h & 255, h >> 8)) + bytearray([0x5a] * case['extra'])
        if n == 1 and is32:
            data = (data + bytearray(4))[:4]
        want = {}
        for t, h in zip(toks, hw):
            f = fields(t, h)
            if f is None:
                want = None
                break
            want.update(f)
        if is32 != (n == 2):
            want = None
        what = 'decoder %r on %s' % (texts, ' '.join('%04x' % h for h in hw))
        del got[:]
        try:
            i = tree.decode(data, case['addr'])
        except D.UndefinedInstructionError:
            ctx.true(want is None, what + ': undefined', 'rejects')
            ctx.true(not got, what + ': handler called and undefined', 'rejects')
            ctx.label('no-match')
            continue
        ctx.true(want is not None, what + ': accepted', 'accepts')
        ctx.eq(len(got), 1, what + ': handler calls', 'calls')
        ctx.true(got[0][0] is i and isinstance(i, Special), what + ': handler gets another instruction', 'instruction')
        ctx.eq((i.mnemonic, i.size, i.address, bytes(i.bytes)), ('probe', 2 * n, case['addr'], bytes(data[:2 * n])),
               what + ': instruction', 'instruction')
        ctx.eq((i.marker, i.other), (('m', 7), None), what + ': extra attributes', 'attributes')
        ctx.eq(got[0][1], want, what + ': fields {name: (width, value)}', 'fields')
        ctx.label('match')
        if len(want) > 1:
            ctx.nontrivial()


def gen_length(d):
    used = set()
    n = d.int(1, 24)
    t = gen_tokens(d, n if n < 16 else n + 1, used)
    return dict(text=gen_text(d, t), second=d.choice(2))


def body_length(case, ctx):
    D = cpu.cm()['decoder']
    args = (case['text'],) if not case['second'] else ('1111 0 a(11)', case['text'])
    try:
        D.Decoder(lambda *a, **kw: None, 'probe', D.Instruction, *args)
    except (AssertionError, ValueError):
        pass
    else:
        ctx.fail('a decoder of %r is made' % (args,), 'length')
    ctx.nontrivial()


PROP = Prop('C24', 'A case is a list of fixed bits, fields and constants in two generated spellings, both parsed, and one with a '
            'foreign character inserted at any place; a 16 or 2x16-bit specification made into a decoder that decodes words '
            'mostly matching it, some one bit off; or a specification of the wrong number of bits. Non-trivial: the list '
            'mixes fixed bits with names; a word matches and has at least two fields.',
            [Test('parse', gen_parse, body_parse, quick=12000), Test('decode', gen_decode, body_decode, quick=12000),
             Test('length', gen_length, body_length, quick=1000)],
            assumptions=['field names are distinct within an encoding', 'foreign characters are those that occur nowhere in the grammar'])
