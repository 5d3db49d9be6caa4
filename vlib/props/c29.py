import operator
import os

from vlib import bits, console, cpu, dec, ref
from vlib.engine import Prop, Test

_built = []


def both():
    """(modules of the source tree, modules of the built package)"""
    if not _built:
        c = cpu.cm()
        src = {n: c[n] for n in ('disasm', 'model', 'formatter', 'decoder', 'bitstring', 'helpers', 'utilities', 'registers', 'Rec')}
        src['mock_cpu'] = c['mock']
        _built.append((src, cpu.load_package(os.environ['CMDIS_BUILT'])))
    return _built[0]


def canon(x):
    if hasattr(x, 'unsigned') and hasattr(x, 'width'):
        return 'bits', x.width, x.unsigned
    if isinstance(x, (tuple, list)):
        return type(x).__name__, tuple(canon(i) for i in x)
    if isinstance(x, (bytes, bytearray)):
        return type(x).__name__, bytes(x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return type(x).__name__, str(x)
    if hasattr(x, 'name') and hasattr(x, 'value'):
        return 'enum', x.name
    if hasattr(x, '__next__') or isinstance(x, (type({}.keys()), type({}.values()))):
        return 'seq', tuple(canon(i) for i in x)
    return 'object', type(x).__name__


def call(f):
    try:
        return canon(f())
    except Exception as e:
        return 'raises', type(e).__name__


# ------------------------------------------------------------------ instructions
def gen_code(d):
    out = []
    for _ in range(d.int(1, 6)):
        out.append(list(dec.gen_valid(d) if d.flag(3, 4) else dec.gen_word(d)))
    i = ref.decode_word(*out[0])
    return dict(words=out, st=cpu.gen_state(d, i if isinstance(i, ref.Insn) else None), tail=d.choice(4), seed=d.choice(1 << 16))


def code_of(c, case):
    """Everything observable about a few instructions in one package."""
    out = []
    data = bytearray()
    for w, b in case['words']:
        data += bytearray(ref.to_bytes(w, b))
    data += bytearray((case['seed'] >> i) & 255 for i in range(case['tail']))
    st = case['st']
    D = c['decoder']
    d = c['Rec'](cpu.BgMem(st[cpu.S_BG]))
    d.regs = cpu.ref_machine(st, d.mem).regs()
    m = c['model'].CpuModel()
    m.delegate = d
    fmt = c['formatter'].Formatter(m)
    o = 0
    while o < len(data):
        try:
            i = c['disasm'].decoder.decode(data[o:], st[cpu.S_PC])
        except (D.UndefinedInstructionError, D.UnpredictableError) as e:
            out.append(type(e).__name__)
            o += 2
            continue
        out.append((i.mnemonic, i.size, i.address, bytes(i.bytes), fmt.format(i), [type(x).__name__ for x in i.operands]))
        out.append([call(lambda: fmt.format_operands(i))] if hasattr(fmt, 'format_operands') else None)
        out.append(call(lambda: i.execute(m)))
        out.append(repr(sorted((k, v) for k, v in d.regs.items() if isinstance(v, int))))
        out.append((list(d.log), list(d.bad), sorted(d.mem.d.items())))
        o += i.size
    # The same bytes through the disassembler, and as a program on the mock CPU.
    seq = []
    try:
        for i in c['disasm'].Disassembler().disasm(data, 0x100):
            seq.append((i.address, fmt.format(i)))
    except (D.UndefinedInstructionError, D.UnpredictableError) as e:
        seq.append(type(e).__name__)
    out.append(seq)
    mock = c['mock_cpu'].MockCpuModelDelegate()
    mock.add_memory(0, 0x400)
    mock.add_memory(0x1fff8000, 0x400)
    p = c['model'].CpuModel()
    p.delegate = mock
    p.write_memory_block(0x100, data)
    p.pc = 0x100
    p.sp = 0x1fff8200
    for r in range(8):
        p.r[r] = st[r] & 0x3ff if st[r] & 1 else st[r]
    for _ in range(8):
        pc = p.pc.unsigned & ~1
        code = p.read_memory_block(pc, 4)
        if not code:
            break
        try:
            i = c['disasm'].decoder.decode(code, pc)
        except (D.UndefinedInstructionError, D.UnpredictableError) as e:
            out.append(type(e).__name__)
            break
        out.append(call(lambda: i.execute(p)))
    out.append([p.read_register(r).unsigned for r in console.REGS])
    out.append([bytes(p.read_memory_block(s, 0x400)) for s in (0, 0x1fff8000)])
    out.append((canon(p.apsr.n), canon(p.apsr.z), canon(p.apsr.c), canon(p.apsr.v), canon(p.ipsr), call(lambda: p.is_privileged),
                call(lambda: repr(p)[repr(p).index('pc='):])))
    return out


def body_code(case, ctx):
    a, b = both()
    ra, rb = code_of(a, case), code_of(b, case)
    if ra != rb:
        k = next(i for i in range(max(len(ra), len(rb))) if i >= len(ra) or i >= len(rb) or ra[i] != rb[i])
        ctx.fail('words %s: observation %d: source %r, built %r' % (' '.join('%x' % w for w, _ in case['words']), k,
                                                                   ra[k] if k < len(ra) else None, rb[k] if k < len(rb) else None), 'code')
    if any(isinstance(x, tuple) and len(x) == 6 for x in ra):
        ctx.nontrivial()


# ------------------------------------------------------------------ bit strings
BIN = ['add', 'sub', 'mul', 'floordiv', 'truediv', 'mod', 'and_', 'or_', 'xor', 'lshift', 'rshift', 'eq', 'ne', 'lt', 'le', 'gt', 'ge',
       'iadd', 'isub', 'imul', 'iand', 'ior', 'ixor', 'imod', 'ifloordiv', 'itruediv', 'ilshift', 'irshift', 'contains', 'concat', 'pow']
UN = ['invert', 'neg', 'pos', 'index', 'truth', 'abs']
CONV = ['int', 'bool', 'len', 'repr', 'str', 'hash', 'list', 'float', 'hex', 'fmtx', 'pct', 'copy', 'reversed()', 'sorted', 'iter', 'oct', 'bin', 'bytes()', 'format']


def gen_bits(d):
    ops = []
    for _ in range(d.int(1, 10)):
        k = d.choice(8)
        if k < 3:
            ops.append(['bin', d.pick(BIN), d.choice(8), operand(d), d.choice(2)])
        elif k == 3:
            ops.append(['un', d.pick(UN), d.choice(8)])
        elif k == 4:
            ops.append(['conv', d.pick(CONV), d.choice(8)])
        elif k == 5:
            ops.append(['attr', d.choice(1 << 10), d.choice(8)])
        elif k == 6:
            ops.append(['index', d.choice(8), d.choice(40) - 8, d.choice(40) - 8, d.choice(4), operand(d)])
        else:
            ops.append(['new', operand(d), d.choice(40), d.choice(3)])
    return dict(pool=[bits.gen_bits(d, 40) for _ in range(d.int(1, 3))], ops=ops)


def operand(d):
    k = d.choice(8)
    if k < 4:
        return ['pool', d.choice(8)]
    if k == 4:
        return ['int', d.value(34) if d.flag(3, 4) else -d.value(20)]
    if k == 5:
        return ['str', ''.join('01'[d.choice(2)] for _ in range(d.choice(9)))]
    if k == 6:
        return ['list', [d.choice(2) for _ in range(d.choice(6))]]
    return d.pick((['none'], ['float'], ['str', '012'], ['tuple', [1, 0, 1]], ['bytes', [1, 2, 3]], ['str', ' 1010'], ['bytearray', [255, 1]], ['true']))


def resolve(o, pool):
    k = o[0]
    return pool[o[1] % len(pool)] if k == 'pool' else o[1] if k in ('int', 'str') else list(o[1]) if k == 'list' else \
        tuple(o[1]) if k == 'tuple' else bytes(bytearray(o[1])) if k == 'bytes' else bytearray(o[1]) if k == 'bytearray' else \
        None if k == 'none' else True if k == 'true' else 1.5


def bits_of(c, case):
    B = c['bitstring'].bitstring
    pool = [B(v, w) for w, v in case['pool']]
    out = []
    attrs = sorted(n for n in dir(pool[0]) if not n.startswith('_'))

    def do(f):
        try:
            r = f()
        except Exception as e:
            out.append(('raises', type(e).__name__))
            return
        if isinstance(r, B) and r.width <= 300:
            pool.append(r)
        out.append(canon(r))
    for o in case['ops']:
        if o[0] == 'bin':
            a, b = pool[o[2] % len(pool)], resolve(o[3], pool)
            if o[1] in ('lshift', 'ilshift', 'mul', 'imul', 'pow') and (a.width > 200 or isinstance(b, int) and abs(b) > 200 or not isinstance(b, int) and getattr(b, 'unsigned', 0) > 200):
                continue
            if o[1] == 'pow':
                f = lambda x, y: x ** y
            else:
                f = getattr(operator, o[1])
            do(lambda: f(a, b) if o[4] == 0 or o[1].startswith('i') else f(b, a))
        elif o[0] == 'un':
            a = pool[o[2] % len(pool)]
            do(lambda: getattr(operator, o[1])(a))
        elif o[0] == 'conv':
            a = pool[o[2] % len(pool)]
            do(lambda: CONVERT[o[1]](a, B))
        elif o[0] == 'attr':
            a = pool[o[2] % len(pool)]
            n = attrs[o[1] % len(attrs)]

            def get():
                x = getattr(a, n)
                if callable(x):
                    for args in ((), (a.width + 3,), (2,)):
                        try:
                            return x(*args)
                        except TypeError:
                            pass
                return x
            do(get)
        elif o[0] == 'index':
            a = pool[o[1] % len(pool)]
            lo, hi, k = o[2:5]
            if k == 0:
                do(lambda: a[lo])
            elif k == 1:
                do(lambda: a[lo:hi])
            elif k == 2:
                do(lambda: a.__setitem__(lo, resolve(o[5], pool)))
            else:
                do(lambda: a.__setitem__(slice(lo, hi), resolve(o[5], pool)))
        else:
            v = resolve(o[1], pool)
            do(lambda: B(v) if o[3] == 0 else B(v, o[2]) if o[3] == 1 else c['bitstring'].zeros(o[2]))
    out.append([canon(p) for p in pool])
    return out


CONVERT = {
    'int': lambda a, B: int(a), 'bool': lambda a, B: bool(a), 'len': lambda a, B: len(a), 'repr': lambda a, B: repr(a), 'str': lambda a, B: str(a),
    'hash': lambda a, B: hash(a), 'list': lambda a, B: list(a), 'float': lambda a, B: float(a), 'hex': lambda a, B: hex(a), 'fmtx': lambda a, B: '{:x}'.format(a),
    'pct': lambda a, B: '%x %d' % (a, a), 'copy': lambda a, B: B(a), 'reversed()': lambda a, B: list(reversed(a)), 'sorted': lambda a, B: sorted([a, B(1, 3), B(0, 2)]),
    'iter': lambda a, B: [int(i) for i in a], 'oct': lambda a, B: oct(a), 'bin': lambda a, B: bin(a), 'bytes()': lambda a, B: bytes(a.bytes), 'format': lambda a, B: format(a, '')}


def body_bits(case, ctx):
    a, b = both()
    ra, rb = bits_of(a, case), bits_of(b, case)
    if ra != rb:
        k = next(i for i in range(max(len(ra), len(rb))) if i >= len(ra) or i >= len(rb) or ra[i] != rb[i])
        ctx.fail('operation %d of %s on %s: source %r, built %r' % (k, case['ops'], case['pool'], ra[k] if k < len(ra) else None, rb[k] if k < len(rb) else None), 'bits')
    if any(x[0] != 'raises' for x in ra[:-1]):
        ctx.nontrivial()


# ------------------------------------------------------------------ helpers, utilities, specifications
def gen_misc(d):
    return dict(w=d.int(1, 40), v=d.bits(40), n=d.choice(70), c=d.choice(2), i=d.choice(4096), x=d.word(), spec=d.choice(1 << 16),
                l=[d.choice(256) for _ in range(d.choice(9))])


SPECS = ['0110 1 Rd(3) imm8(8)', '0001 foo=0100 imm8(8)', 'Q( ) imm12 ( 12 ) S', 'a b c d', 'x=11', '1111 0 i(1) a(10)', 'z!', 'R0(3)', '(3)', 'a(', 'a(3', 'b=', '2']


def misc_of(c, case):
    h, u, D, B = c['helpers'], c['utilities'], c['decoder'], c['bitstring'].bitstring
    w, n = case['w'], case['n']
    v = case['v'] & (1 << w) - 1
    x = B(v, w)
    cin = B(case['c'], 1)
    out = []
    for t in h.SRType:
        out.append(call(lambda: h.Shift_C(x, t, 1 if t.name == 'SRType_RRX' else n, cin)))
    for f in ('LSL', 'LSR', 'ASR', 'ROR'):
        out.append(call(lambda: getattr(h, f)(x, n)))
        out.append(call(lambda: getattr(h, f + '_C')(x, n)))
    out.append(call(lambda: h.AddWithCarry(x, B(case['x'], w), cin)))
    out.append(call(lambda: h.ThumbExpandImm_C(B(case['i'], 12), cin)))
    out.append(call(lambda: h.DecodeImmShift(B(case['i'] & 3, 2), B(case['i'] >> 2 & 31, 5))))
    out.append(call(lambda: (h.Align(x, 1 << n % w), h.Align(v, 1 << n % w))))
    l = case['l']
    k = case['x']
    for f in (lambda: u.hamming_weight(k), lambda: u.bytes_to_le16(l), lambda: u.bytes_to_le32(l, 1), lambda: u.le16_to_bytes(k), lambda: u.le32_to_bytes(k),
              lambda: u.byteListToU32leList(l), lambda: u.byteListToU16leList(l), lambda: u.u32leListToByteList(l), lambda: u.u16leListToByteList(l),
              lambda: u.u32BEToFloat32BE(k), lambda: u.float32beToU32be(v * 0.5), lambda: u.wmask(n), lambda: u.bitmask((n, n // 2), 3, [1, n]), lambda: u.invert32(k),
              lambda: u.bfx(k, n, n // 2), lambda: u.bfi(k, v, n, n // 2), lambda: u.bfx(k, n), lambda: u.bfi(k, 1, n),
              lambda: D.parse_spec(SPECS[case['spec'] % len(SPECS)]), lambda: c['registers'].register_name_to_index(console.REGS[case['spec'] % len(console.REGS)].upper())):
        out.append(call(f))
    hit = []

    def handler(i, **kw):
        hit.append((i.mnemonic, sorted((a, canon(b)) for a, b in kw.items())))
        if case['c']:
            raise D.DecodeError()
    tree = D.DecoderTree()
    text = format(case['spec'], '016b')
    tree.add_decoder(D.Decoder(handler, 'one', D.Instruction, text[:5] + 'f(%d)' % (n % 11 + 1) + text[5 + n % 11 + 1:]))
    tree.add_decoder(D.Decoder(handler, 'two', D.Instruction, text[:3] + ' g(4) ' + text[7:] if n & 1 else text))
    tree.add_decoder(D.Decoder(handler, 'three', D.Instruction, text[:9] + ' h(7)'))
    tree.build()
    for q in (case['spec'], k & 0xffff):
        out.append(call(lambda: tree.decode(bytearray((q & 255, q >> 8, 0, 0)), 4).mnemonic))
    out.append(hit)
    return out


def body_misc(case, ctx):
    a, b = both()
    ra, rb = misc_of(a, case), misc_of(b, case)
    if ra != rb:
        k = next(i for i in range(len(ra)) if ra[i] != rb[i])
        ctx.fail('observation %d: source %r, built %r' % (k, ra[k], rb[k]), 'misc')
    ctx.nontrivial()


def setup(scratch):
    return {'CMDIS_BUILT': console.build(scratch)}


PROP = Prop('C29', 'A case is up to six instructions with a machine state (decoded, formatted, executed on a recording back end, disassembled in '
            'sequence, run as a program on the mock CPU), a sequence of bit string operations with operands of all types, or a set of '
            'arguments for the helper, utility, specification and decoder functions, run on the modules of the source tree and on those of '
            'a package built from it; all observations, errors included, must be equal. Non-trivial: an instruction decodes; an operation succeeds.',
            [Test('code', gen_code, body_code, quick=1500), Test('bits', gen_bits, body_bits, quick=5000), Test('misc', gen_misc, body_misc, quick=1200)],
            assumptions=['both copies run under the same interpreter; the console is only in the built package and is checked there'], setup=setup)
