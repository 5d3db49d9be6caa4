from vlib.engine import Prop, Test
from vlib import cpu, dec, ref

CORE = ['r%d' % i for i in range(13)] + ['sp', 'lr', 'pc']
SHIFTS = [('SRType_LSL', 'LSL'), ('SRType_LSR', 'LSR'), ('SRType_ASR', 'ASR'), ('SRType_ROR', 'ROR')]
SPECIAL = {0: 'APSR', 1: 'IAPSR', 2: 'EAPSR', 3: 'XPSR', 5: 'IPSR', 6: 'EPSR', 7: 'IEPSR', 8: 'MSP', 9: 'PSP',
           16: 'PRIMASK', 17: 'BASEPRI', 18: 'BASEPRI_MAX', 19: 'FAULTMASK', 20: 'CONTROL'}


# ------------------------------------------------------------------ operands
def gen_operand(d, depth=0):
    k = d.choice(9 if depth == 0 else 5)
    if k == 0:
        return ['reg', d.choice(16), d.flag(1, 4)]
    if k == 1:
        return ['imm', gen_imm(d), d.flag(1, 3)]
    if k == 2:
        return ['shift', d.choice(5), d.choice(33)]
    if k == 3:
        return ['list', d.bits(16) if d.flag() else d.value(16)]
    if k == 4:
        return ['label', d.pick((0, 2, -2, 4, -4, 254, -256, 0x100000, -0x1000000)) if d.flag() else d.bits(25) - (1 << 24), d.pick((1, 1, 2, 4))]
    if k == 5:
        return ['barrier', d.choice(16)]
    if k == 6:
        return ['cps', d.choice(2), d.choice(2)]
    if k == 7:
        return ['special', d.pick(sorted(SPECIAL)), d.choice(5)]
    return ['mem', [gen_operand(d, 1) for _ in range(d.int(1, 3))], d.flag()]


def gen_imm(d):
    k = d.choice(5)
    if k < 2:
        return d.choice(20)
    if k == 2:
        return -d.choice(300)
    return d.word()


def make_operand(o, c):
    F, b = c['formatter'], c['bitstring'].bitstring
    k = o[0]
    if k == 'reg':
        return F.RegisterOperand(o[1], o[2]) if o[2] else F.RegisterOperand(o[1])
    if k == 'imm':
        return F.ImmediateOperand(o[1], hideIfZero=o[2])
    if k == 'shift':
        t = getattr(c['helpers'].SRType, SHIFTS[o[1] - 1][0] if o[1] else 'SRType_None')
        return F.ShiftRotateOperand(t, o[2])
    if k == 'list':
        return F.ReglistOperand(b(o[1], 16))
    if k == 'label':
        return F.LabelOperand(o[1], o[2])
    if k == 'barrier':
        return F.BarrierOperand(o[1])
    if k == 'cps':
        return F.CpsOperand(b(o[1], 1), b(o[2], 1))
    if k == 'special':
        return F.SpecialRegisterOperand(b(o[1], 8), None if o[2] == 4 else b(o[2], 2))
    return F.MemoryAccessOperand(*[make_operand(x, c) for x in o[1]], wback=o[2])


def want_operand(o, address, comments):
    """The operand's text (None: left out), its comments added."""
    k = o[0]
    if k == 'reg':
        return CORE[o[1]] + ('!' if o[2] else '')
    if k == 'imm':
        if o[1] == 0 and o[2]:
            return None
        if o[1] > 9:
            comments.append('0x%x' % o[1])
        return '#%d' % o[1]
    if k == 'shift':
        return '%s #%d' % (SHIFTS[o[1] - 1][1], o[2]) if o[1] else None
    if k == 'list':
        regs = [i for i in range(16) if o[1] >> i & 1]
        out = []
        while regs:
            n = 1
            while n < len(regs) and regs[n] == regs[0] + n:
                n += 1
            out.append(CORE[regs[0]] + ('-' + CORE[regs[n - 1]] if n > 1 else ''))
            regs = regs[n:]
        return '{' + ','.join(out) + '}'
    if k == 'label':
        a = (address + 4) // o[2] * o[2] + o[1]
        comments.append('0x%x' % (a % (1 << 32)))
        return '.%+d' % (a - address)
    if k == 'barrier':
        return 'sy' if o[1] == 15 else '#%d' % o[1]
    if k == 'cps':
        return 'i' * o[1] + 'f' * o[2]
    if k == 'special':
        return SPECIAL[o[1]] + (('', '_g', '_nzcvq', '_nzcvqg', '')[o[2]] if o[1] < 4 else '')
    parts = [want_operand(x, address, comments) for x in o[1]]
    return '[' + ', '.join(p for p in parts if p is not None) + ']' + ('!' if o[2] else '')


def want_text(word, bits, mn, operands, address):
    comments = []
    ops = [want_operand(o, address, comments) for o in operands]
    t = ' '.join('%04x' % h for h in ([word >> 16, word & 0xffff] if bits == 32 else [word])) + ' ' + mn
    ops = ', '.join(o for o in ops if o is not None)
    return squeeze(t + ' ' + ops + (' ; ' + ' '.join(comments) if comments else ''))


def squeeze(t):
    """Text without regard to the amount of white space."""
    return ' '.join(t.split()).replace(', ', ',')


def gen_ops(d):
    items = []
    for _ in range(d.int(1, 5)):
        w, b = dec.gen_word(d)
        items.append([w, b, dec.gen_addr(d), 'm%s' % d.pick(('', 'ov.w', 'ul.w', '1', 'ulsomething', 'ovtwice')), [gen_operand(d) for _ in range(d.int(0, 5))]])
    return dict(items=items, order=[d.choice(len(items)) for _ in range(d.int(1, 8))], cpu=d.flag())


def body_ops(case, ctx):
    c = cpu.cm()
    D = c['decoder']

    class Mine(D.Instruction):
        pass

    formatter = c['formatter'].Formatter(c['model'].CpuModel() if case['cpu'] else None)
    insns = []
    for w, b, addr, mn, ops in case['items']:
        i = Mine(mn, w >> 16 | (w & 0xffff) << 16 if b == 32 else w, b == 32)
        i.address = addr
        if len(ops) % 2:
            i.operands = [make_operand(o, c) for o in ops]
        else:
            i.operands.extend(make_operand(o, c) for o in ops)
        insns.append(i)
    for k in case['order']:
        w, b, addr, mn, ops = case['items'][k]
        got = squeeze(formatter.format(insns[k]))
        ctx.eq(got, want_text(w, b, mn, ops, addr), 'text of %s with operands %s at 0x%x' % (mn, ops, addr), 'operands')
        if len(ops) > 1:
            ctx.nontrivial()
        for o in ops:
            ctx.label(o[0])


# ------------------------------------------------------------------ added encodings
def free(mask, match, bits):
    """No encoding of the architecture's overlaps."""
    return not any((mask & e.mask & (match ^ e.match)) == 0 for e in (ref.ENC32 if bits == 32 else ref.ENC16))


def gen_pattern(d, taken):
    """(bits, mask, match) of an encoding to add."""
    for _ in range(40):
        if d.flag(1, 3):
            # One word, which is defined or not.
            w, b = dec.gen_word(d)
            full = 0xffffffff if b == 32 else 0xffff
            mask, match = full, w
            if any(e.mask == full and e.match == w for e in ref.ENCODINGS if e.bits == b):
                continue
        else:
            b = d.pick((16, 32))
            full = 0xffffffff if b == 32 else 0xffff
            if b == 16:
                w = d.pick(dec.words16('undefined'))
            else:
                w = d.pick((0b11101, 0b11110, 0b11111)) << 27 | d.bits(27)
            mask = full
            for _ in range(d.int(1, 3)):
                k = d.int(1, 5)
                mask &= ~(((1 << k) - 1) << d.choice(b - k)) & full
            # What tells 16 from 32 bits stays fixed.
            mask |= 0xf8000000 if b == 32 else 0xf800
            match = w & mask
            if not free(mask, match, b):
                continue
        if any(b == tb and mask & tm & (match ^ tv) == 0 and bin(mask).count('1') == bin(tm).count('1') for tb, tm, tv in taken):
            continue
        return b, mask, match
    return None


def spec_of(mask, match, d):
    """The 16 bits as a specification with fields, and [(name, lowest bit, width)]."""
    out = ''
    fields = []
    b = 15
    while b >= 0:
        if mask >> b & 1:
            out += str(match >> b & 1)
            b -= 1
            continue
        n = 1
        while b - n >= 0 and not mask >> (b - n) & 1 and not d.flag(1, 4):
            n += 1
        name = 'abcdefghijklmnop'[15 - b]
        fields.append([name, b - n + 1, n])
        out += ' %s%s ' % (name, '(%d)' % n if n > 1 or d.flag() else '')
        b -= n
    return out, fields


def gen_added(d):
    taken = []
    steps = []
    n = 0
    for _ in range(d.int(1, 3)):
        add = []
        for _ in range(d.int(1, 4)):
            p = gen_pattern(d, taken)
            if p is None:
                continue
            taken.append(p)
            b, mask, match = p
            hws = [(mask >> 16, match >> 16), (mask & 0xffff, match & 0xffff)] if b == 32 else [(mask, match)]
            specs, fields = [], []
            for k, (hm, hv) in enumerate(hws):
                s, f = spec_of(hm, hv, d)
                off = 16 if b == 32 and k == 0 else 0
                if k:
                    s = s.translate({ord(ch): chr(ord(ch) - 32) for ch in 'abcdefghijklmnop'})
                    f = [[nm.upper(), lo, w] for nm, lo, w in f]
                specs.append(s)
                fields += [[nm, lo + off, w] for nm, lo, w in f]
            add.append(dict(bits=b, mask=mask, match=match, specs=specs, fields=fields, mn='u%d' % n, tag=d.choice(1000),
                            ops=[gen_operand(d) for _ in range(d.choice(3))],
                            run=d.pick((None, None, ['set', d.choice(8), d.word()], ['store', d.word() & ~3, d.word()])),
                            append=d.choice(2), retag=d.choice(2),
                            handler=d.pick(('accept', 'accept', 'accept', 'decline', 'unpredictable'))))
            n += 1
        probes = []
        for _ in range(d.int(3, 10)):
            if taken and d.flag(2, 3):
                b, mask, match = d.pick(taken)
                w = match | d.bits(b) & ~mask
                if d.flag(1, 5):
                    w ^= 1 << d.choice(b - 5)
            else:
                w, b = dec.gen_word(d)
            probes.append([w, b, dec.gen_addr(d)])
        steps.append(dict(add=add, probes=probes, walk=[d.choice(len(probes)) for _ in range(d.choice(6))], start=dec.gen_addr(d),
                          state=cpu.gen_state(d), build=d.flag(9, 10)))
    return dict(steps=steps)


def pick_added(added, w, b):
    """The outcome of what was added for a word, by specificity: entry, 'unpredictable' or None."""
    for a in sorted(added, key=lambda a: -bin(a['mask']).count('1')):
        if a['bits'] == b and w & a['mask'] == a['match']:
            if a['handler'] == 'accept':
                return a
            if a['handler'] == 'unpredictable':
                return ref.UNPREDICTABLE
    return None


def declare(c, a, seen):
    D = c['decoder']

    # The method that the built-in instructions override, or the public one.
    how = '_eval' if hasattr(D.Instruction, '_eval') and len(a['mn']) % 2 else 'execute'
    base = getattr(D.Instruction, how)

    def run(self, cp):
        if a['run'] and a['run'][0] == 'set':
            cp.r[a['run'][1]] = c['bitstring'].bitstring(a['run'][2], 32)
        elif a['run']:
            cp.write32(a['run'][1], a['run'][2])
        return base(self, cp)

    Mine = type('Mine', (D.Instruction,), {how: run})

    class Plain(D.Instruction):
        pass

    def handler(*args, **fields):
        i, = args
        if a['handler'] == 'decline':
            raise D.DecodeError()
        if a['handler'] == 'unpredictable':
            raise D.UnpredictableError()
        i.got = {k: (v.width, v.unsigned) for k, v in fields.items()}
        i.seen = (i.tag, i.mnemonic, i.size, bytes(i.bytes), i.address)
        if a['retag']:
            i.tag = 'changed'
        if a['append']:
            for o in a['ops']:
                i.operands.append(make_operand(o, c))
        else:
            i.operands = [make_operand(o, c) for o in a['ops']]

    a['klass'] = Mine if a['run'] else Plain
    got = D.instr(a['mn'], a['klass'], *a['specs'], tag=a['tag'])(handler)
    return got is handler


_old = []


def body_added(case, ctx):
    c = cpu.load_package()
    if not _old:
        _old.append(cpu.load_package())
    old = _old[0]
    added = []
    pending = []
    formatter = c['formatter'].Formatter(None)
    for n, step in enumerate(case['steps']):
        for a in step['add']:
            a = dict(a)
            ctx.true(declare(c, a, None), 'the decorator does not return the handler', 'decorator')
            pending.append(a)
        if step['build'] or n == len(case['steps']) - 1:
            c['disasm'].decoder.build()
            added += pending
            pending = []
        elif pending:
            # Not built yet: nothing is said about these words.
            continue
        for w, b, addr in step['probes']:
            probe(case, ctx, c, old, formatter, added, w, b, addr, step['state'])
        walk(ctx, c, old, added, [step['probes'][k] for k in step['walk']], step['start'])
        if added:
            ctx.nontrivial()


def name_of(a):
    return '%s %s' % (a['mn'], a['specs'])


def probe(case, ctx, c, old, formatter, added, w, b, addr, st):
    data = bytearray(ref.to_bytes(w, b))
    want = pick_added(added, w, b)
    what = 'word %0*x (added: %s)' % (b // 4, w, [name_of(a) for a in added])
    D = c['decoder']
    if want is None:
        a, z = dec.outcome(data, addr, c=c), dec.outcome(data, addr, c=old)
        ctx.eq(a, z, what + ' decoded after additions, and before', 'others')
        if a[0] == 'ok' and not isinstance(ref.decode_word(w, b), str):
            run_both(ctx, c, old, data, addr, st, what)
        ctx.label('other-word')
        return
    try:
        i = c['disasm'].decoder.decode(data, addr)
    except D.UnpredictableError:
        ctx.true(want == ref.UNPREDICTABLE, what + ': unpredictable', 'added')
        return
    except D.UndefinedInstructionError:
        ctx.fail(what + ': undefined', 'added')
    ctx.true(want != ref.UNPREDICTABLE, what + ': decodes although its handler finds it unpredictable', 'added')
    ctx.true(isinstance(i, want['klass']), what + ': instruction of another class: %r' % i, 'class')
    ctx.eq((i.mnemonic, i.size, bytes(i.bytes), i.address, i.tag), (want['mn'], b // 8, bytes(data), addr, 'changed' if want['retag'] else want['tag']),
           what + ': instruction', 'instruction')
    ctx.eq(i.seen, (want['tag'], want['mn'], b // 8, bytes(data), addr), what + ': what the handler sees', 'handler')
    ctx.eq(i.got, {k: (n, w >> lo & (1 << n) - 1) for k, lo, n in want['fields']}, what + ': fields {name: (width, value)}', 'fields')
    ctx.eq(squeeze(formatter.format(i)), want_text(w, b, want['mn'], want['ops'], addr), what + ': text', 'text')
    m, rec = machine(c, st)
    regs = dict(rec.regs)
    mem = dict(rec.mem.d)
    i.execute(m)
    regs[15] = (regs[15] + b // 8) & cpu.M32
    if want['run'] and want['run'][0] == 'set':
        regs[want['run'][1]] = want['run'][2]
    elif want['run']:
        for k in range(4):
            mem[want['run'][1] + k] = want['run'][2] >> 8 * k & 255
    ctx.true(rec.regs == regs, what + ': registers after execution', 'execution')
    ctx.true(rec.mem.d == mem, what + ': memory after execution', 'execution')
    ctx.label('added-word')


def machine(c, st):
    """A CPU of that package on a recording back end in the given state."""
    d = c['Rec'](cpu.BgMem(0))
    d.mem = cpu.BgMem(cpu.rec_cpu(st)[1].mem.bg)
    d.regs = dict(cpu.rec_cpu(st)[1].regs)
    m = c['model'].CpuModel()
    m.delegate = d
    return m, d


def run_both(ctx, c, old, data, addr, st, what):
    res = []
    for p in (c, old):
        m, d = machine(p, st)
        i = p['disasm'].decoder.decode(bytearray(data), addr)
        try:
            i.execute(m)
            res.append((d.regs, d.mem.d))
        except Exception as e:
            res.append(type(e).__name__)
    ctx.true(res[0] == res[1], what + ' executed after additions differs from before', 'others-execute')


def walk(ctx, c, old, added, words, start):
    """Disassembly of built-in and added instructions, one after the other."""
    data = bytearray()
    want = []
    for w, b, _ in words:
        a = pick_added(added, w, b)
        piece = ref.to_bytes(w, b)
        if a == ref.UNPREDICTABLE:
            continue
        if a is None:
            o = dec.outcome(piece, start + len(data), c=old)
            if o[0] != 'ok':
                continue
            want.append((start + len(data), o[1], bytes(piece)))
        else:
            want.append((start + len(data), a['mn'], bytes(piece)))
        data += bytearray(piece)
    got = [(i.address, i.mnemonic, bytes(i.bytes)) for i in c['disasm'].Disassembler().disasm(data, start)]
    ctx.eq(got, want, 'disassembly of %s with additions %s' % (bytes(data).hex(), [name_of(a) for a in added]), 'walk')


PROP = Prop('C34', 'A case is up to 5 instructions of a class of the user\'s with generated trees of operands, formatted again and again by one formatter; '
            'or a history of 1 to 3 additions of encodings (in undefined space, or one word of a built-in encoding; accepting, declining or '
            'unpredictable handlers; with and without an effect) to a new copy of the package, each followed by words at and near what was added '
            'and elsewhere, and a disassembly of a mixture. Non-trivial: an instruction has several operands; something was added and built.',
            [Test('operands', gen_ops, body_ops, quick=6000), Test('added', gen_added, body_added, quick=120)],
            assumptions=['overlapping encodings differ in their number of fixed bits', 'the decoder is built again after additions'])
