from vlib import cpu, dec, llvm, ref
from vlib.engine import Prop, Test

M32 = cpu.M32


def gen(d):
    words = []
    for _ in range(d.size(1, 120, 400)):
        w, b = cpu.gen_insn(d, d.pick((ref.ENC32, ref.ENC32, ref.ENC32, ref.ENC16)), executable=False)
        words.append([w, b, d.choice(2)])
    return dict(words=words, base=d.pick((0, 0, 0x1000, 0x20000000, 0xffff0000, d.choice(1 << 24) << 4)), seed=d.choice(1 << 32))


def comparable(i):
    """Whether the architecture says what the operands mean."""
    return isinstance(i, ref.Insn) and not i.maybe_unpred and \
        not (i.kind == 'load' and i.size != 2 and i.ops[0][1] == 15 and not i.mn.startswith('ldr.'))


def same_effect(a, b, seed):
    """Both encodings (other than by their bits) do the same, from three states."""
    x, y = ref.decode_bytes(a + b'\0\0\0\0'), ref.decode_bytes(b + b'\0\0\0\0')
    if not isinstance(x, ref.Insn) or not isinstance(y, ref.Insn) or len(a) != len(b):
        return False
    if (x.name, x.ops) == (y.name, y.ops):
        return True
    if not x.exec_ok or not y.exec_ok:
        return False
    import random
    from vlib.engine import Data
    for k in range(3):
        st = cpu.gen_state(Data(random.Random(seed + k)), x)
        out = []
        for i in (x, y):
            m = cpu.ref_machine(st)
            i.execute(m)
            out.append((m.regs(), m.accesses))
        if out[0] != out[1]:
            return False
    return True


def body(case, ctx):
    raws, insns = [], []
    for w, b, slot in case['words']:
        i = ref.decode_word(w, b)
        if comparable(i):
            raws.append(ref.to_bytes(w, b))
            insns.append((i, slot))
    if not raws:
        return
    known = llvm.accepted(raws)
    items, at = [], []
    for n, (raw, (i, slot), ok) in enumerate(zip(raws, insns, known)):
        if not ok:
            ctx.label('unpredictable')
            continue
        addr = (case['base'] + 16 * len(items) + 2 * slot) & M32
        out = dec.outcome(raw, addr)
        if out[0] != 'ok':
            ctx.fail('%s does not decode: %s' % (cpu.describe(i, i.word), out), 'decode')
        text = out[5].split(';')[0].split()[len(raw) // 2:]
        items.append((' '.join(text), slot))
        at.append((raw, i, addr))
    if not items:
        return
    for (text, slot), (raw, i, addr), got in zip(items, at, llvm.assemble(items)):
        if not isinstance(got, bytes):
            ctx.fail('%r, the text of %s at 0x%x, is not assembly: %s' % (text, raw.hex(), addr, got), 'syntax:' + i.name)
        if got == raw:
            ctx.label('identical')
        elif same_effect(raw, got, case['seed']) or i.name in ('push_w', 'pop_w') and len(i.ops[0][1:]) == 1 and one_register(i, got):
            ctx.label('other encoding')
        else:
            ctx.fail('%r, the text of %s at 0x%x, assembles to %s' % (text, raw.hex(), addr, got.hex()), 'encoding:' + i.name)
    ctx.nontrivial()


def one_register(i, got):
    """PUSH.W and POP.W of one register are STR and LDR with a decrement and an increment of SP."""
    mask = i.ops[0][1]
    t = mask.bit_length() - 1
    return mask == 1 << t and got == ref.to_bytes(0xf84d0d04 | t << 12 if i.name == 'push_w' else 0xf85d0b04 | t << 12, 32)


def enum16(shard, n, tier):
    size = 256
    for k in range(shard, 65536 // size, n):
        words = [[w, 16, w & 1] for w in range(k * size, k * size + size) if not ref.is32(w)]
        if words:
            yield (k,), dict(words=words, base=k << 8, seed=k)


PROP = Prop('C38', 'A case is 1 to 120 (rarely 400) encodings at addresses: all 16-bit ones in blocks, and generated ones. Their texts are '
            'assembled by LLVM and the result is compared with the encodings. Non-trivial: at least one was compared.',
            [Test('reassemble', gen, body, quick=300, enum=enum16)],
            assumptions=['operands for which LLVM or the reference calls the instruction unpredictable are left out',
                         'another encoding of the same size is accepted where its operands or its effects are the same',
                         'a label operand is handed to the assembler as a symbol with that offset'])
