from vlib.engine import Prop, Test
from vlib import cpu, dec, ref

M32 = cpu.M32


def gen(d):
    w, b = dec.gen_word(d)
    return dict(w=w, b=b, st=gen_state(d), regions=gen_regions(d))


def gen_state(d):
    st = cpu.gen_state(d)
    # Addresses inside of the regions now and then.
    for k in range(13):
        if d.flag(1, 3):
            st[k] = d.pick((0, 0x1000, 0x20000000, 0xffffff00)) + d.choice(300) & M32
    if d.flag(1, 3):
        st[cpu.S_PC] = d.choice(0x800) * 2
    return cpu.gen_mode(d, st)


def gen_regions(d):
    return [[s, n] for s, n in ((0, 0x1000), (0x20000000, 256), (0xffffff00, 256)) if d.flag(3, 4)]


def enum16(k, n, tier):
    """Every halfword in a few states that are a function of it."""
    for w in range(k, 65536, n):
        if not ref.is32(w):
            yield w, dict(w=w, b=16, st=hashed_state(w), regions=[[0, 0x1000], [0x20000000, 256]])


def hashed_state(w):
    x = w * 2654435761 + 12345
    st = []
    for i in range(25):
        x = (x * 6364136223846793005 + 1442695040888963407) & (1 << 64) - 1
        st.append(x >> 32)
    st[13] &= ~3
    st[14] &= ~3
    st[cpu.S_PC] = (st[cpu.S_PC] & 0xfff) * 2
    st[cpu.S_CONTROL] &= 3
    st[cpu.S_PRI] &= 1
    st[cpu.S_FAULT] &= 1
    st[cpu.S_BASEPRI] &= 255
    return st


def mock(st, regions):
    c = cpu.cm()
    d = c['mock'].MockCpuModelDelegate()
    bg = cpu.BgMem(st[cpu.S_BG])
    for s, n in regions:
        d.add_memory(s, n)
        d.write_memory_block(s, bytearray(bg.byte(s + j) for j in range(n)))
    m = c['model'].CpuModel()
    m.delegate = d
    cpu.set_mode(m, st)
    m.write_register('control', st[cpu.S_CONTROL])
    for k, v in cpu.ref_machine(st, bg).regs().items():
        d.write_register(k, v)
    return m, d


def blocks(d, regions):
    return [bytes(d.read_memory_block(s, n + 8) or b'') for s, n in regions]


def body(case, ctx):
    c = cpu.cm()
    w, b = case['w'], case['b']
    st = case['st']
    raw = bytearray(ref.to_bytes(w, b))
    try:
        i = c['disasm'].decoder.decode(raw, st[cpu.S_PC])
    except (c['decoder'].UndefinedInstructionError, c['decoder'].UnpredictableError):
        return
    what = '%s (%0*x)' % (i.mnemonic, b // 4, w)
    text = dec.fmt(i)
    ctx.true(isinstance(text, str) and text, '%s formats to %r' % (what, text), 'format')
    ctx.true(isinstance(repr(i), str), '%s has no representation' % what, 'repr')
    results = []
    for k in range(2):
        # The second time with a new instruction object on a new CPU.
        m, d = mock(st, case['regions'])
        j = i if k == 0 else c['disasm'].decoder.decode(bytearray(raw), st[cpu.S_PC])
        if k == 1 and w & 1:
            dec.fmt(j, c['formatter'].Formatter(m))
        j.execute(m)
        regs = {}
        for r in cpu.REG_KEYS:
            v = d.read_register(r)
            ctx.true(type(v) is int or isinstance(v, c['bitstring'].bitstring),
                     '%s leaves %r in %s' % (what, v, cpu.REG_LABEL[r]), 'register-type')
            v = int(v)
            ctx.true(0 <= v <= M32, '%s leaves 0x%x in %s' % (what, v, cpu.REG_LABEL[r]), 'register-range')
            regs[r] = v
        mem = blocks(d, case['regions'])
        ctx.eq([len(x) for x in mem], [n for s, n in case['regions']], 'region sizes after %s' % what, 'region')
        results.append((regs, mem, dec.describe(j)))
    if results[0] != results[1]:
        ctx.fail('%s: two executions in equal states differ: %s %s' % (
            what, cpu.diff_regs(results[0][0], results[1][0]), 'memory' if results[0][1] != results[1][1] else ''),
            'deterministic')
    want = ref.decode_word(w, b)
    odd = not (isinstance(want, ref.Insn) and want.exec_ok)
    ctx.label('outside-the-reference' if odd else 'defined')
    ctx.nontrivial()


PROP = Prop('C31', 'A case is a word at, near or away from the encodings, with a generated machine state and region map of '
            'the mock CPU; if it decodes, it is formatted, represented, and executed twice by separate objects in '
            'equal states. All halfwords are enumerated. Non-trivial: the word decodes.',
            [Test('word', gen, body, quick=9000, enum=enum16)],
            assumptions=['what an unpredictable or unimplemented instruction does is left open, as long as it ends, repeats, '
                         'and keeps registers 32 bits wide'])
