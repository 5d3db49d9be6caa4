"""Reference for the supported ARMv7-M Thumb subset: encodings, assembly operands and execution.

Written from the ARMv7-M Architecture Reference Manual and the project's instruction table
(arm_instructions.xlsx), in plain integers, sharing no code with the checked package.
Words: a 16-bit encoding is its halfword; a 32-bit one is (first halfword << 16) | second.
"""
M32 = 0xffffffff
SP, LR, PC = 13, 14, 15
REG_NAMES = ['r%d' % i for i in range(13)] + ['sp', 'lr', 'pc']
NONE, LSL, LSR, ASR, ROR, RRX = range(6)
SHIFT_NAMES = ['none', 'lsl', 'lsr', 'asr', 'ror', 'rrx']

# Outcomes of decoding other than an Insn.
UNDEFINED = 'undefined'
UNPREDICTABLE = 'unpredictable'


def sx(v, bits, to=32):
    v &= (1 << bits) - 1
    if v >> (bits - 1):
        v -= 1 << bits
    return v & ((1 << to) - 1)


def signed(v, bits=32):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def add_with_carry(x, y, c, w=32):
    m = (1 << w) - 1
    u = x + y + c
    s = signed(x, w) + signed(y, w) + c
    r = u & m
    return r, int(r != u), int(signed(r, w) != s)


def shift_c(v, t, n, cin, w=32):
    """(result, carry) of the ARM Shift_C() pseudocode, at width w."""
    m = (1 << w) - 1
    if t == NONE or n == 0:
        return v, cin
    if t == LSL:
        return (v << n) & m, (v >> (w - n)) & 1 if n <= w else 0
    if t == LSR:
        return v >> n, (v >> (n - 1)) & 1
    if t == ASR:
        s = signed(v, w)
        return (s >> n) & m, (s >> (n - 1)) & 1
    if t == ROR:
        k = n % w
        r = ((v >> k) | (v << (w - k))) & m
        return r, r >> (w - 1)
    if t == RRX:
        return (cin << (w - 1)) | (v >> 1), v & 1
    raise ValueError(t)


def decode_imm_shift(t, imm5):
    if t == 0:
        return LSL, imm5
    if t == 1:
        return LSR, imm5 or 32
    if t == 2:
        return ASR, imm5 or 32
    return (ROR, imm5) if imm5 else (RRX, 1)


def expand_imm_c(imm12, cin):
    """ThumbExpandImm_C(). cin may be any marker for 'unchanged'."""
    b = imm12 & 0xff
    if imm12 >> 10 == 0:
        k = (imm12 >> 8) & 3
        return (b, b | b << 16, b << 8 | b << 24, b * 0x01010101)[k], cin
    n = imm12 >> 7
    v = 0x80 | (imm12 & 0x7f)
    r = ((v >> n) | (v << (32 - n))) & M32
    return r, r >> 31


COND = ['eq', 'ne', 'cs', 'cc', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le']


def cond_holds(c, N, Z, C, V):
    k = c >> 1
    r = (Z, C, N, V, C and not Z, N == V, N == V and not Z)[k]
    return bool(r) != bool(c & 1)


# ------------------------------------------------------------------ machine
class Machine(object):
    """Registers, flags and memory. Memory reads and writes go through an object with
    load(addr, nbytes) and store(addr, value, nbytes)."""
    def __init__(self, mem):
        self.r = [0] * 13
        self.msp = self.psp = self.lr = self.pc = 0
        self.control = self.primask = self.faultmask = self.basepri = 0
        self.xpsr = 0x01000000
        self.fpscr = 0
        self.s = [0] * 32
        self.mem = mem
        self.branched = False
        self.accesses = []
        self.pc_bias = 4
        self.handler = False

    # register file
    def get(self, n):
        if n < 13:
            return self.r[n]
        if n == SP:
            return self.psp if self.control & 2 else self.msp
        if n == LR:
            return self.lr
        raise AssertionError('PC read as an operand')

    def operand(self, n):
        """A register read as a data operand: PC reads as the address of the instruction plus 4."""
        return self.pc + self.pc_bias & M32 if n == PC else self.get(n)

    def set(self, n, v):
        v &= M32
        if n < 13:
            self.r[n] = v
        elif n == SP:
            if self.control & 2:
                self.psp = v & ~3
            else:
                self.msp = v & ~3
        elif n == LR:
            self.lr = v
        else:
            self.pc = v
            self.branched = True

    privileged = property(lambda s: s.handler or not s.control & 1)
    N = property(lambda s: s.xpsr >> 31 & 1)
    Z = property(lambda s: s.xpsr >> 30 & 1)
    C = property(lambda s: s.xpsr >> 29 & 1)
    V = property(lambda s: s.xpsr >> 28 & 1)

    def nz(self, r):
        self.xpsr = (self.xpsr & 0x3fffffff) | (r & 0x80000000) | (0x40000000 if r == 0 else 0)

    def c(self, b):
        self.xpsr = (self.xpsr & ~0x20000000) | (b << 29)

    def v(self, b):
        self.xpsr = (self.xpsr & ~0x10000000) | (b << 28)

    def load(self, addr, n):
        addr &= M32
        self.accesses.append(('r', addr, n))
        return self.mem.load(addr, n)

    def store(self, addr, v, n):
        addr &= M32
        v &= (1 << (8 * n)) - 1
        self.accesses.append(('w', addr, n, v))
        self.mem.store(addr, v, n)

    def regs(self):
        """Everything but memory, in the numbering that back ends use."""
        d = dict(enumerate(self.r))
        d[13] = self.get(13)
        d[14] = self.lr
        d[15] = self.pc
        d[16] = self.xpsr
        d[17] = self.msp
        d[18] = self.psp
        d[-4] = self.control
        d[-3] = self.faultmask
        d[-2] = self.basepri
        d[-1] = self.primask
        d[33] = self.fpscr
        for i, x in enumerate(self.s):
            d[0x40 + i] = x
        return d


# ------------------------------------------------------------------ decoded instruction
class Insn(object):
    """kind: class of instruction. mn: mnemonic. size. ops: operand tuples. run(machine).
    exec_ok: False when the architecture leaves the effect undefined or unpredictable, or the
    effect is outside of what the project implements (exceptions; ADD with PC has a test of its own).
    maybe_unpred: the architecture calls the encoding unpredictable, the decoder need not."""
    __slots__ = ('name', 'kind', 'mn', 'size', 'ops', 'run', 'exec_ok', 'maybe_unpred', 'f', 'flags',
                 'writes', 'word', 'pc_operand')

    def __init__(self, kind, mn, ops, run=None, exec_ok=True, maybe_unpred=False):
        self.kind = kind
        self.mn = mn
        self.ops = ops
        self.run = run
        self.exec_ok = exec_ok and run is not None and not maybe_unpred
        self.maybe_unpred = maybe_unpred
        self.pc_operand = False

    def execute(self, m):
        m.branched = False
        m.accesses = []
        self.run(m)
        if not m.branched:
            m.pc = (m.pc + self.size) & M32


def R(n, wb=False):
    return ('reg', n, wb)


def I(v):
    return ('imm', v)


class Enc(object):
    __slots__ = ('name', 'bits', 'mask', 'match', 'fields', 'build', 'weight')

    def __init__(self, name, pattern, build):
        p = pattern.replace(' ', '')
        assert len(p) in (16, 32), (name, len(p))
        self.name = name
        self.bits = len(p)
        self.mask = self.match = 0
        self.fields = {}
        for i, ch in enumerate(p):
            b = len(p) - 1 - i
            if ch in '01':
                self.mask |= 1 << b
                self.match |= int(ch) << b
            else:
                self.fields.setdefault(ch, []).append(b)      # MSB first
        self.build = build
        self.weight = bin(self.mask).count('1')

    def extract(self, word):
        f = {}
        for k, pos in self.fields.items():
            v = 0
            for b in pos:
                v = (v << 1) | (word >> b & 1)
            f[k] = v
        return f

    def make(self, f):
        w = self.match
        for k, pos in self.fields.items():
            v = f[k]
            n = len(pos)
            for i, b in enumerate(pos):
                w |= (v >> (n - 1 - i) & 1) << b
        return w


ENCODINGS = []


def enc(name, pattern):
    def reg(fn):
        ENCODINGS.append(Enc(name, pattern, fn))
        return fn
    return reg


# ------------------------------------------------------------------ arithmetic
def arith(mn, d, n, other, sub=False, carry=False, reverse=False, flags=True, ops=None, kind='arith', **kw):
    """other: ('imm', v) or ('reg', m). d None: compare."""
    def run(m):
        x = m.operand(n)
        y = other[1] if other[0] == 'imm' else m.operand(other[1])
        if reverse:
            x, y = y, x
        # x - y = x + ~y + 1
        cin = m.C if carry else (1 if sub or reverse else 0)
        r, c, v = add_with_carry(x, y ^ M32 if (sub or reverse) else y, cin)
        if d is not None:
            m.set(d, r)
        if flags:
            m.nz(r)
            m.c(c)
            m.v(v)
    uses_pc = n == PC or (other[0] == 'reg' and other[1] == PC)
    i = Insn(kind, mn, ops, run, exec_ok=not uses_pc, **kw)
    i.pc_operand = uses_pc and not i.maybe_unpred
    return i


def _dp(name, op, fn):
    enc(name, '010000' + op + 'mmmddd')(fn)


_dp('adcs', '0101', lambda f: arith('adcs', f['d'], f['d'], R(f['m'])[:2], carry=True, ops=[R(f['d']), R(f['m'])]))
_dp('sbcs', '0110', lambda f: arith('sbcs', f['d'], f['d'], R(f['m'])[:2], sub=True, carry=True, ops=[R(f['d']), R(f['m'])]))
_dp('rsbs', '1001', lambda f: arith('rsbs', f['d'], f['m'], I(0), reverse=True, ops=[R(f['d']), R(f['m']), I(0)]))
_dp('cmp_reg_t1', '1010', lambda f: arith('cmp', None, f['d'], R(f['m'])[:2], sub=True, ops=[R(f['d']), R(f['m'])]))
_dp('cmn_reg_t1', '1011', lambda f: arith('cmn', None, f['d'], R(f['m'])[:2], ops=[R(f['d']), R(f['m'])]))


@enc('adds_imm3', '0001110iiinnnddd')
def _(f): return arith('adds', f['d'], f['n'], I(f['i']), ops=[R(f['d']), R(f['n']), I(f['i'])])
@enc('subs_imm3', '0001111iiinnnddd')
def _(f): return arith('subs', f['d'], f['n'], I(f['i']), sub=True, ops=[R(f['d']), R(f['n']), I(f['i'])])
@enc('adds_imm8', '00110dddiiiiiiii')
def _(f): return arith('adds', f['d'], f['d'], I(f['i']), ops=[R(f['d']), I(f['i'])])
@enc('subs_imm8', '00111dddiiiiiiii')
def _(f): return arith('subs', f['d'], f['d'], I(f['i']), sub=True, ops=[R(f['d']), I(f['i'])])
@enc('adds_reg', '0001100mmmnnnddd')
def _(f): return arith('adds', f['d'], f['n'], R(f['m'])[:2], ops=[R(f['d']), R(f['n']), R(f['m'])])
@enc('subs_reg', '0001101mmmnnnddd')
def _(f): return arith('subs', f['d'], f['n'], R(f['m'])[:2], sub=True, ops=[R(f['d']), R(f['n']), R(f['m'])])


@enc('add_reg_t2', '01000100Dmmmmddd')
def _(f):
    d = f['D'] << 3 | f['d']
    return arith('add', d, d, R(f['m'])[:2], flags=False, ops=[R(d), R(f['m'])],
                 maybe_unpred=(d == PC and f['m'] == PC))


@enc('add_sp_imm_t1', '10101dddiiiiiiii')
def _(f): return arith('add', f['d'], SP, I(f['i'] * 4), flags=False, ops=[R(f['d']), R(SP), I(f['i'] * 4)])


@enc('add_sp_reg_t1', '01000100D1101ddd')
def _(f):
    d = f['D'] << 3 | f['d']
    return arith('add', d, SP, R(d)[:2], flags=False, ops=[R(d), R(SP), R(d)])


@enc('add_sp_reg_t2', '010001001mmmm101')
def _(f):
    if f['m'] == SP:
        return None
    return arith('add', SP, SP, R(f['m'])[:2], flags=False, ops=[R(SP), R(f['m'])])


@enc('add_sp_imm_t2', '101100000iiiiiii')
def _(f): return arith('add', SP, SP, I(f['i'] * 4), flags=False, ops=[R(SP), I(f['i'] * 4)])
@enc('sub_sp_imm', '101100001iiiiiii')
def _(f): return arith('sub', SP, SP, I(f['i'] * 4), sub=True, flags=False, ops=[R(SP), I(f['i'] * 4)])


def imm12(f):
    return f['j'] << 11 | f['k'] << 8 | f['i']


@enc('rsb_w', '11110j01110snnnn 0kkkddddiiiiiiii')
def _(f):
    if f['d'] in (SP, PC) or f['n'] in (SP, PC):
        return UNPREDICTABLE
    v = expand_imm_c(imm12(f), 0)[0]
    return arith('rsbs.w' if f['s'] else 'rsb.w', f['d'], f['n'], I(v), reverse=True, flags=bool(f['s']),
                 ops=[R(f['d']), R(f['n']), I(v)])


@enc('cmp_imm8', '00101nnniiiiiiii')
def _(f): return arith('cmp', None, f['n'], I(f['i']), sub=True, ops=[R(f['n']), I(f['i'])])


@enc('cmp_reg_t2', '01000101Nmmmmnnn')
def _(f):
    n = f['N'] << 3 | f['n']
    bad = (n < 8 and f['m'] < 8) or n == PC or f['m'] == PC
    return arith('cmp', None, n, R(f['m'])[:2], sub=True, ops=[R(n), R(f['m'])], maybe_unpred=bad)


@enc('cmp_w', '11110j011011nnnn 0kkk1111iiiiiiii')
def _(f):
    v = expand_imm_c(imm12(f), 0)[0]
    return arith('cmp.w', None, f['n'], I(v), sub=True, ops=[R(f['n']), I(v)], maybe_unpred=f['n'] == PC)
@enc('cmn_w', '11110j010001nnnn 0kkk1111iiiiiiii')
def _(f):
    v = expand_imm_c(imm12(f), 0)[0]
    return arith('cmn', None, f['n'], I(v), ops=[R(f['n']), I(v)], maybe_unpred=f['n'] == PC)


def multiply(mn, d, n, m_, flags):
    def run(m):
        r = (m.get(n) * m.get(m_)) & M32
        m.set(d, r)
        if flags:
            m.nz(r)
    return Insn('arith', mn, [R(d), R(n), R(m_)], run)


_dp('muls', '1101', lambda f: multiply('muls', f['d'], f['m'], f['d'], True))


@enc('mul_w', '111110110000nnnn 1111dddd0000mmmm')
def _(f):
    if set((f['d'], f['n'], f['m'])) & set((SP, PC)):
        return UNPREDICTABLE
    return multiply('mul', f['d'], f['n'], f['m'], False)


# ------------------------------------------------------------------ logic, shifts, moves
def logic(mn, op):
    def build(f):
        def run(m):
            x, y = m.get(f['d']), m.get(f['m'])
            r = {'and': x & y, 'eor': x ^ y, 'orr': x | y, 'bic': x & ~y & M32}[op]
            m.set(f['d'], r)
            m.nz(r)
        return Insn('logic', mn, [R(f['d']), R(f['m'])], run)
    return build


_dp('ands', '0000', logic('ands', 'and'))
_dp('eors', '0001', logic('eors', 'eor'))
_dp('orrs', '1100', logic('orrs', 'orr'))
_dp('bics', '1110', logic('bics', 'bic'))


def shift_reg(mn, t):
    def build(f):
        def run(m):
            r, c = shift_c(m.get(f['d']), t, m.get(f['m']) & 0xff, m.C)
            m.set(f['d'], r)
            m.nz(r)
            m.c(c)
        return Insn('shift_reg', mn, [R(f['d']), R(f['m'])], run)
    return build


_dp('lsls_reg', '0010', shift_reg('lsls', LSL))
_dp('lsrs_reg', '0011', shift_reg('lsrs', LSR))
_dp('asrs_reg', '0100', shift_reg('asrs', ASR))
_dp('rors_reg', '0111', shift_reg('rors', ROR))


def shift_imm(mn, code):
    def build(f):
        t, n = decode_imm_shift(code, f['i'])
        def run(m):
            r, c = shift_c(m.get(f['m']), t, n, m.C)
            m.set(f['d'], r)
            m.nz(r)
            m.c(c)
        return Insn('logic', mn, [R(f['d']), R(f['m']), I(n)], run)
    return build


enc('lsls_imm', '00000iiiiimmmddd')(shift_imm('lsls', 0))
enc('lsrs_imm', '00001iiiiimmmddd')(shift_imm('lsrs', 1))
enc('asrs_imm', '00010iiiiimmmddd')(shift_imm('asrs', 2))


def move(mn, d, src, flags=False, negate=False, carry=None, **kw):
    def run(m):
        v = src[1] if src[0] == 'imm' else m.operand(src[1])
        if negate:
            v ^= M32
        m.set(d, v)
        if flags:
            m.nz(v)
            if carry is not None:
                m.c(carry)
    return Insn('logic', mn, [R(d), R(src[1]) if src[0] == 'reg' else I(src[1])], run, **kw)


@enc('mov_reg', '01000110Dmmmmddd')
def _(f): return move('mov', f['D'] << 3 | f['d'], ('reg', f['m']))
@enc('movs_reg', '0000000000mmmddd')
def _(f): return move('movs', f['d'], ('reg', f['m']), flags=True)
@enc('movs_imm8', '00100dddiiiiiiii')
def _(f): return move('movs', f['d'], I(f['i']), flags=True)


@enc('mov_reg_w', '11101010010s1111 0000dddd0000mmmm')
def _(f):
    d, m_ = f['d'], f['m']
    bad = d in (SP, PC) or m_ in (SP, PC) if f['s'] else d == PC or m_ == PC or (d == SP and m_ == SP)
    return move('movs.w' if f['s'] else 'mov.w', d, ('reg', m_), flags=bool(f['s']), maybe_unpred=bad)


@enc('mov_imm_w', '11110j00010s1111 0kkkddddiiiiiiii')
def _(f):
    v, c = expand_imm_c(imm12(f), None)
    return move('movs.w' if f['s'] else 'mov.w', f['d'], I(v), flags=bool(f['s']), carry=c,
                maybe_unpred=f['d'] in (SP, PC))


@enc('movw', '11110j100100nnnn 0kkkddddiiiiiiii')
def _(f):
    return move('movw', f['d'], I(f['n'] << 12 | imm12(f)), maybe_unpred=f['d'] in (SP, PC))


_dp('mvns', '1111', lambda f: move('mvns', f['d'], ('reg', f['m']), flags=True, negate=True))


@enc('mvn_w', '11101010011s1111 0kkkddddiittmmmm')
def _(f):
    t, n = decode_imm_shift(f['t'], f['k'] << 2 | f['i'])
    d, m_ = f['d'], f['m']
    def run(m):
        r, c = shift_c(m.get(m_), t, n, m.C)
        r ^= M32
        m.set(d, r)
        if f['s']:
            m.nz(r)
            m.c(c)
    return Insn('logic', 'mvns.w' if f['s'] else 'mvn.w', [R(d), R(m_), ('shift', t, n)], run,
                maybe_unpred=d in (SP, PC) or m_ in (SP, PC))


def test(mn, n, m_, t, k, ops):
    def run(m):
        y, c = shift_c(m.get(m_), t, k, m.C)
        m.nz(m.get(n) & y)
        m.c(c)
    return Insn('logic', mn, ops, run)


_dp('tst', '1000', lambda f: test('tst', f['d'], f['m'], NONE, 0, [R(f['d']), R(f['m'])]))


@enc('tst_w', '111010100001nnnn 0kkk1111iittmmmm')
def _(f):
    if f['n'] in (SP, PC) or f['m'] in (SP, PC):
        return UNPREDICTABLE
    t, n = decode_imm_shift(f['t'], f['k'] << 2 | f['i'])
    return test('tst.w', f['n'], f['m'], t, n, [R(f['n']), R(f['m']), ('shift', t, n)])


def extend(mn, d, m_, rot, bits, is_signed, **kw):
    def run(m):
        v = shift_c(m.get(m_), ROR, rot, 0)[0] & ((1 << bits) - 1)
        m.set(d, sx(v, bits) if is_signed else v)
    ops = [R(d), R(m_)]
    if rot:
        ops.append(('shift', ROR, rot))
    return Insn('logic', mn, ops, run, **kw)


for _i, (_mn, _bits, _s, _w) in enumerate([('sxth', 16, True, '000'), ('sxtb', 8, True, '100'),
                                           ('uxth', 16, False, '001'), ('uxtb', 8, False, '101')]):
    enc(_mn, '10110010' + format(_i, '02b') + 'mmmddd')(
        lambda f, mn=_mn, b=_bits, s=_s: extend(mn, f['d'], f['m'], 0, b, s))
    enc(_mn + '_w', '111110100' + _w + '1111 1111dddd10rrmmmm')(
        lambda f, mn=_mn, b=_bits, s=_s: extend(mn + '.w', f['d'], f['m'], f['r'] * 8, b, s,
                                                maybe_unpred=f['d'] in (SP, PC) or f['m'] in (SP, PC)))


def reverse(mn, d, m_, **kw):
    base = mn.split('.')[0]
    def run(m):
        v = m.get(m_)
        b = [v >> 8 * i & 0xff for i in range(4)]
        if base == 'rev':
            r = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]
        elif base == 'rev16':
            r = b[2] << 24 | b[3] << 16 | b[0] << 8 | b[1]
        else:
            r = sx(b[0] << 8 | b[1], 16)
        m.set(d, r)
    return Insn('logic', mn, [R(d), R(m_)], run, **kw)


def _rev_w(mn):
    def build(f):
        if f['m'] != f['n']:
            return UNPREDICTABLE
        return reverse(mn, f['d'], f['m'], maybe_unpred=f['d'] in (SP, PC) or f['m'] in (SP, PC))
    return build


for _mn, _c, _w in [('rev', '00', '000'), ('rev16', '01', '001'), ('revsh', '11', '011')]:
    enc(_mn, '10111010' + _c + 'mmmddd')(lambda f, mn=_mn: reverse(mn, f['d'], f['m']))
    enc(_mn + '_w', '111110101001nnnn 1111dddd1' + _w + 'mmmm')(_rev_w(_mn + '.w'))


# ------------------------------------------------------------------ addresses and branches
def adr(mn, d, off, **kw):
    def run(m):
        m.set(d, ((m.pc + 4) & M32 & ~3) + off)
    return Insn('adr', mn, [R(d), ('label', off, 4)], run, **kw)


@enc('adr', '10100dddiiiiiiii')
def _(f): return adr('adr', f['d'], f['i'] * 4)
@enc('adr_w_sub', '11110j1010101111 0kkkddddiiiiiiii')
def _(f): return adr('adr.w', f['d'], -imm12(f), maybe_unpred=f['d'] in (SP, PC))
@enc('adr_w_add', '11110j1000001111 0kkkddddiiiiiiii')
def _(f): return adr('adr.w', f['d'], imm12(f), maybe_unpred=f['d'] in (SP, PC))


@enc('b_cond', '1101cccciiiiiiii')
def _(f):
    if f['c'] >= 14:
        return None
    off = signed(f['i'] << 1, 9)
    def run(m):
        if cond_holds(f['c'], m.N, m.Z, m.C, m.V):
            m.set(PC, m.pc + 4 + off)
    return Insn('branch', 'b' + COND[f['c']], [('label', off, 1)], run)


@enc('b', '11100iiiiiiiiiii')
def _(f):
    off = signed(f['i'] << 1, 12)
    return Insn('branch', 'b', [('label', off, 1)], lambda m: m.set(PC, m.pc + 4 + off))


@enc('bl', '11110siiiiiiiiii 11J1Kiiiiiiiiiii')
def _(f):
    s = f['s']
    i1 = 1 ^ f['J'] ^ s
    i2 = 1 ^ f['K'] ^ s
    off = signed(s << 24 | i1 << 23 | i2 << 22 | f['i'] << 1, 25)
    def run(m):
        m.lr = ((m.pc + 4) | 1) & M32
        m.set(PC, m.pc + 4 + off)
    return Insn('branch', 'bl', [('label', off, 1)], run)


def breg(mn, m_, link):
    def run(m):
        t = m.get(m_) & ~1
        if link:
            m.lr = ((m.pc + 2) | 1) & M32
        m.set(PC, t)
    # BLX PC is unpredictable, BX PC reads PC as a data operand.
    return Insn('branch', mn, [R(m_)], run, exec_ok=m_ != PC, maybe_unpred=link and m_ == PC)


@enc('blx', '010001111mmmm000')
def _(f): return breg('blx', f['m'], True)
@enc('bx', '010001110mmmm000')
def _(f): return breg('bx', f['m'], False)


# ------------------------------------------------------------------ loads and stores
def memop(mn, t, base, size, load, is_signed, off=None, idx=None, shift=(NONE, 0), literal=False, ops=None, **kw):
    def run(m):
        if literal:
            a = ((m.pc + 4) & M32 & ~3) + off
        elif idx is not None:
            a = m.get(base) + shift_c(m.get(idx), shift[0], shift[1], 0)[0]
        else:
            a = m.get(base) + off
        a &= M32
        if load:
            v = m.load(a, size)
            m.set(t, sx(v, 8 * size) if is_signed else v)
        else:
            m.store(a, m.get(t), size)
    return Insn('load' if load else 'store', mn, ops, run, **kw)


for _i, (_mn, _size, _load, _sg) in enumerate([
        ('str', 4, False, False), ('strh', 2, False, False), ('strb', 1, False, False), ('ldrsb', 1, True, True),
        ('ldr', 4, True, False), ('ldrh', 2, True, False), ('ldrb', 1, True, False), ('ldrsh', 2, True, True)]):
    enc(_mn + '_reg', '0101' + format(_i, '03b') + 'mmmnnnttt')(
        lambda f, mn=_mn, z=_size, l=_load, s=_sg: memop(
            mn, f['t'], f['n'], z, l, s, idx=f['m'],
            ops=[R(f['t']), ('mem', [R(f['n']), R(f['m'])], False)]))


def _reg_w(mn, z, l, s):
    def build(f):
        t, n, m_ = f['t'], f['n'], f['m']
        if n == PC:
            return None
        bad = m_ in (SP, PC)
        if l and z == 4:
            pass                                    # Rt = PC is a branch
        elif z == 4:
            bad = bad or t == PC
        else:
            bad = bad or t in (SP, PC)              # PC: memory hints
        return memop(mn, t, n, z, l, s, idx=m_, shift=(LSL, f['i']),
                     ops=[R(t), ('mem', [R(n), R(m_), ('shift', LSL, f['i'])], False)], maybe_unpred=bad)
    return build


def _literal(mn, z, s):
    def build(f):
        t = f['t']
        if t == PC:
            return None
        off = f['i'] if f['U'] else -f['i']
        return memop(mn, t, PC, z, True, s, off=off, literal=True,
                     ops=[R(t), ('mem', [R(PC), I(off)], False)], maybe_unpred=t == SP and z != 4)
    return build


for _mn, _top, _op, _size, _load, _sg in [
        ('ldrb', '0', '00', 1, True, False), ('ldrh', '0', '01', 2, True, False), ('ldr', '0', '10', 4, True, False),
        ('ldrsb', '1', '00', 1, True, True), ('ldrsh', '1', '01', 2, True, True),
        ('strb', '0', '00', 1, False, False), ('strh', '0', '01', 2, False, False), ('str', '0', '10', 4, False, False)]:
    enc(_mn + '_reg_w', '1111100' + _top + '0' + _op + ('1' if _load else '0') + 'nnnn tttt000000iimmmm')(
        _reg_w(_mn + '.w', _size, _load, _sg))
    if _load:
        enc(_mn + '_lit_w', '1111100' + _top + 'U' + _op + '11111 ttttiiiiiiiiiiii')(_literal(_mn + '.w', _size, _sg))

for _mn, _op, _size, _load in [('str', '01100', 4, False), ('ldr', '01101', 4, True), ('strb', '01110', 1, False),
                               ('ldrb', '01111', 1, True), ('strh', '10000', 2, False), ('ldrh', '10001', 2, True)]:
    enc(_mn + '_imm', _op + 'iiiiinnnttt')(
        lambda f, mn=_mn, z=_size, l=_load: memop(
            mn, f['t'], f['n'], z, l, False, off=f['i'] * z,
            ops=[R(f['t']), ('mem', [R(f['n']), I(f['i'] * z)], False)]))


@enc('ldr_lit', '01001tttiiiiiiii')
def _(f):
    return memop('ldr', f['t'], PC, 4, True, False, off=f['i'] * 4, literal=True,
                 ops=[R(f['t']), ('mem', [R(PC), I(f['i'] * 4)], False)])
@enc('str_sp', '10010tttiiiiiiii')
def _(f):
    return memop('str', f['t'], SP, 4, False, False, off=f['i'] * 4,
                 ops=[R(f['t']), ('mem', [R(SP), I(f['i'] * 4)], False)])
@enc('ldr_sp', '10011tttiiiiiiii')
def _(f):
    return memop('ldr', f['t'], SP, 4, True, False, off=f['i'] * 4,
                 ops=[R(f['t']), ('mem', [R(SP), I(f['i'] * 4)], False)])


# ------------------------------------------------------------------ stack and multiple
def bits_of(mask):
    return [i for i in range(16) if mask >> i & 1]


def push(mn, mask, **kw):
    regs = bits_of(mask)
    def run(m):
        a = (m.get(SP) - 4 * len(regs)) & M32
        vals = [m.get(i) for i in regs]
        m.set(SP, a)
        for i, v in enumerate(vals):
            m.store(a + 4 * i, v, 4)
    return Insn('multi', mn, [('list', mask)], run, **kw)


def pop(mn, mask, **kw):
    regs = bits_of(mask)
    def run(m):
        a = m.get(SP)
        m.set(SP, a + 4 * len(regs))
        for i, n in enumerate(regs):
            m.set(n, m.load(a + 4 * i, 4))
    return Insn('multi', mn, [('list', mask)], run, **kw)


def multiple(mn, load, n, mask, wb, **kw):
    regs = bits_of(mask)
    def run(m):
        a = m.get(n)
        if load:
            vals = [m.load(a + 4 * i, 4) for i in range(len(regs))]
            if wb:
                m.set(n, a + 4 * len(regs))
            for r, v in zip(regs, vals):
                m.set(r, v)
        else:
            for i, r in enumerate(regs):
                m.store(a + 4 * i, m.get(r), 4)
            if wb:
                m.set(n, a + 4 * len(regs))
    ok = True
    if not load and wb and n in regs and regs[0] != n:
        ok = False                                  # stored base is UNKNOWN
    return Insn('multi', mn, [R(n, wb), ('list', mask)], run, exec_ok=ok, **kw)


@enc('push', '1011010Mrrrrrrrr')
def _(f):
    mask = f['M'] << 14 | f['r']
    return push('push', mask) if mask else UNPREDICTABLE


@enc('push_w', '1110100100101101 0M0rrrrrrrrrrrrr')
def _(f):
    mask = f['M'] << 14 | f['r']
    return push('push.w', mask, maybe_unpred=len(bits_of(mask)) < 2) if mask else UNPREDICTABLE


@enc('push_w_t3', '1111100001001101 tttt110100000100')
def _(f): return UNPREDICTABLE if f['t'] in (SP, PC) else push('push.w', 1 << f['t'])


@enc('pop', '1011110Prrrrrrrr')
def _(f):
    mask = f['P'] << 15 | f['r']
    return pop('pop', mask) if mask else UNPREDICTABLE


@enc('pop_w', '1110100010111101 PM0rrrrrrrrrrrrr')
def _(f):
    mask = f['P'] << 15 | f['M'] << 14 | f['r']
    if len(bits_of(mask)) < 2 or (f['P'] and f['M']):
        return UNPREDICTABLE
    return pop('pop.w', mask)


@enc('pop_w_t3', '1111100001011101 tttt101100000100')
def _(f): return pop('pop.w', 1 << f['t'], maybe_unpred=f['t'] == SP)


@enc('stm', '11000nnnrrrrrrrr')
def _(f): return multiple('stm', False, f['n'], f['r'], True) if f['r'] else UNPREDICTABLE
@enc('ldm', '11001nnnrrrrrrrr')
def _(f):
    return multiple('ldm', True, f['n'], f['r'], not f['r'] >> f['n'] & 1) if f['r'] else UNPREDICTABLE


@enc('stm_w', '1110100010w0nnnn 0M0rrrrrrrrrrrrr')
def _(f):
    mask = f['M'] << 14 | f['r']
    if f['n'] == PC or len(bits_of(mask)) < 2 or (f['w'] and mask >> f['n'] & 1):
        return UNPREDICTABLE
    return multiple('stm.w', False, f['n'], mask, bool(f['w']))


@enc('ldm_w', '1110100010w1nnnn PM0rrrrrrrrrrrrr')
def _(f):
    if f['w'] and f['n'] == SP:
        return None
    mask = f['P'] << 15 | f['M'] << 14 | f['r']
    if f['n'] == PC or len(bits_of(mask)) < 2 or (f['P'] and f['M']) or (f['w'] and mask >> f['n'] & 1):
        return UNPREDICTABLE
    return multiple('ldm.w', True, f['n'], mask, bool(f['w']))


# ------------------------------------------------------------------ system
@enc('cps', '10110110011j00IF')
def _(f):
    if not f['I'] and not f['F']:
        return UNPREDICTABLE
    def run(m):
        if not m.privileged:
            return
        if f['I']:
            m.primask = f['j']
        if f['F']:
            m.faultmask = f['j']
    return Insn('system', 'cpsid' if f['j'] else 'cpsie', [('text', 'i' * f['I'] + 'f' * f['F'])], run)


SPECIAL = {0: 'apsr', 1: 'iapsr', 2: 'eapsr', 3: 'xpsr', 5: 'ipsr', 6: 'epsr', 7: 'iepsr', 8: 'msp', 9: 'psp',
           16: 'primask', 17: 'basepri', 18: 'basepri_max', 19: 'faultmask', 20: 'control'}


@enc('mrs', '1111001111101111 1000ddddyyyyyyyy')
def _(f):
    y, d = f['y'], f['d']
    if d in (SP, PC) or y not in SPECIAL:
        return UNPREDICTABLE
    def run(m):
        priv = m.privileged
        v = 0
        if y < 8:
            if y & 1:
                v |= m.xpsr & 0x1ff
            if not y & 4:
                v |= m.xpsr & 0xf8000000
        elif y == 8:
            v = m.msp if priv else 0
        elif y == 9:
            v = m.psp if priv else 0
        elif y == 16:
            v = m.primask & 1 if priv else 0
        elif y in (17, 18):
            v = m.basepri & 0xff if priv else 0
        elif y == 19:
            v = m.faultmask & 1 if priv else 0
        else:
            v = m.control & 3
        m.set(d, v)
    return Insn('system', 'mrs', [R(d), ('text', SPECIAL[y])], run)


@enc('msr', '111100111000nnnn 1000qq00yyyyyyyy')
def _(f):
    y, q = f['y'], f['q']
    if q == 0 or (q != 2 and y > 3) or f['n'] in (SP, PC) or y not in SPECIAL:
        return UNPREDICTABLE
    name = SPECIAL[y]
    if y < 4:
        name += {1: '_g', 2: '_nzcvq', 3: '_nzcvqg'}[q]
    return Insn('msr', 'msr', [('text', name), R(f['n'])], None)


def nothing(m):
    pass


for _i, _mn in enumerate(['nop', 'yield', 'wfe', 'wfi', 'sev']):
    enc(_mn, '10111111' + format(_i, '04b') + '0000')(lambda f, mn=_mn: Insn('system', mn, [], nothing))

for _mn, _c in [('dsb', '0100'), ('dmb', '0101'), ('isb', '0110')]:
    enc(_mn, '1111001110111111 10001111' + _c + 'oooo')(
        lambda f, mn=_mn: Insn('system', mn, [('barrier', f['o'])], nothing))


@enc('bkpt', '10111110iiiiiiii')
def _(f): return Insn('trap', 'bkpt', [I(f['i'])], None)
@enc('udf', '11011110iiiiiiii')
def _(f): return Insn('trap', 'udf', [I(f['i'])], None)
@enc('svc', '11011111iiiiiiii')
def _(f): return Insn('trap', 'svc', [I(f['i'])], None)
@enc('udf_w', '111101111111nnnn 1010iiiiiiiiiiii')
def _(f): return Insn('trap', 'udf.w', [I(f['n'] << 12 | f['i'])], None)


ENC16 = sorted([e for e in ENCODINGS if e.bits == 16], key=lambda e: -e.weight)
ENC32 = sorted([e for e in ENCODINGS if e.bits == 32], key=lambda e: -e.weight)
BY_NAME = {e.name: e for e in ENCODINGS}
assert len(BY_NAME) == len(ENCODINGS)


def is32(hw1):
    return hw1 >> 11 in (0b11101, 0b11110, 0b11111)


_cache = {}


def decode_word(word, bits):
    """Insn, UNDEFINED or UNPREDICTABLE."""
    key = (word, bits)
    r = _cache.get(key)
    if r is None:
        r = _decode(word, bits)
        if len(_cache) > 200000:
            _cache.clear()
        _cache[key] = r
    return r


def _decode(word, bits):
    for e in (ENC16 if bits == 16 else ENC32):
        if word & e.mask == e.match:
            i = e.build(e.extract(word))
            if i is None:
                continue
            if i is not UNPREDICTABLE:
                i.name = e.name
                i.size = bits // 8
                i.word = word
            return i
    return UNDEFINED


def decode_bytes(data):
    """Decode the first instruction of data (bytes). Too short: UNDEFINED."""
    if len(data) < 2:
        return UNDEFINED
    hw1 = data[0] | data[1] << 8
    if not is32(hw1):
        return decode_word(hw1, 16)
    if len(data) < 4:
        return UNDEFINED
    return decode_word(hw1 << 16 | data[2] | data[3] << 8, 32)


def to_bytes(word, bits):
    if bits == 16:
        return bytes([word & 0xff, word >> 8])
    return bytes([word >> 16 & 0xff, word >> 24, word & 0xff, word >> 8 & 0xff])


# ------------------------------------------------------------------ expected text
def label_target(op, addr):
    """Absolute address of a ('label', offset, align) operand of an instruction at addr, unwrapped."""
    return ((addr + 4) & ~(op[2] - 1)) + op[1]


def expected_text(insn, addr):
    """(hex bytes, mnemonic, canonical operand strings, comment words). Canonical operands: lower
    case without blanks, lists as expanded registers, a zero LSL and a zero offset left out."""
    if insn.size == 2:
        hx = ['%04x' % insn.word]
    else:
        hx = ['%04x' % (insn.word >> 16), '%04x' % (insn.word & 0xffff)]
    comments = []
    ops = [t for t in (_op_text(o, addr, comments) for o in insn.ops) if t is not None]
    return hx, insn.mn, ops, comments


def _op_text(o, addr, comments):
    k = o[0]
    if k == 'reg':
        return REG_NAMES[o[1]] + ('!' if o[2] else '')
    if k == 'imm':
        if o[1] > 9:
            comments.append('0x%x' % o[1])
        return '#%d' % o[1]
    if k == 'shift':
        return shift_text(o[1], o[2])
    if k == 'label':
        t = label_target(o, addr)
        comments.append('0x%x' % (t & M32))
        return '.%+d' % (t - addr)
    if k == 'list':
        return '{' + ','.join(REG_NAMES[i] for i in bits_of(o[1])) + '}'
    if k == 'mem':
        inner = [_op_text(x, addr, comments) for x in o[1]]
        inner = [x for x in inner if x is not None and x != '#0']
        return '[' + ','.join(inner) + ']' + ('!' if o[2] else '')
    if k == 'barrier':
        return 'sy' if o[1] == 15 else '#%d' % o[1]
    if k == 'text':
        return o[1]
    raise ValueError(o)


def shift_text(t, n):
    if t == NONE or (t == LSL and n == 0):
        return None
    if t == RRX:
        return 'rrx'
    return '%s#%d' % (SHIFT_NAMES[t], n)


class TextError(Exception):
    pass


def parse_text(text):
    """Parse formatter output into the form expected_text() returns."""
    body, _, comment = text.partition(';')
    if '\n' in text:
        raise TextError('line break in the text')
    words = body.split()
    hx = []
    while words and len(hx) < 2 and len(words[0]) == 4 and all(c in '0123456789abcdef' for c in words[0].lower()) \
            and (not hx or len(hx) == 1 and is32(int(hx[0], 16))):
        hx.append(words.pop(0).lower())
    if not words:
        raise TextError('no mnemonic')
    mn = words.pop(0).lower()
    rest = ''.join(words).lower()
    ops = [t for t in (_canon(o) for o in split_ops(rest)) if t is not None]
    return hx, mn, ops, comment.split()


def split_ops(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '[{':
            depth += 1
        elif ch in ']}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur or out:
        out.append(cur)
    return out


REG_INDEX = {n: i for i, n in enumerate(REG_NAMES)}


def _canon(o):
    if o.startswith('[') and o.rstrip('!').endswith(']'):
        wb = o.endswith('!')
        inner = [_canon(x) for x in split_ops(o.rstrip('!')[1:-1])]
        inner = [x for x in inner if x is not None and x not in ('#0', '#-0')]
        return '[' + ','.join(inner) + ']' + ('!' if wb else '')
    if o.startswith('{') and o.endswith('}'):
        regs = []
        for part in o[1:-1].split(','):
            a, dash, b = part.partition('-')
            if a not in REG_INDEX or (dash and b not in REG_INDEX):
                raise TextError('register list %r' % o)
            lo = REG_INDEX[a]
            hi = REG_INDEX[b] if dash else lo
            if dash and hi == lo or regs and lo == regs[-1] + 1:
                raise TextError('the ranges of register list %r are not those of its consecutive registers' % o)
            if hi < lo or (regs and lo <= regs[-1]):
                raise TextError('register list %r is not ascending' % o)
            regs += range(lo, hi + 1)
        return '{' + ','.join(REG_NAMES[i] for i in regs) + '}'
    if o == 'lsl#0':
        return None
    if o == 'rrx#1':
        return 'rrx'
    return o
