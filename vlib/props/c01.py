import itertools

from vlib.engine import Prop, Test
from vlib import cpu, dec, ref


def gen_code(d, allow_bad=True):
    data = []
    for _ in range(d.int(0, 8)):
        w, b = dec.gen_valid(d)
        data += ref.to_bytes(w, b)
    if allow_bad and d.flag(1, 2):
        k = d.choice(5)
        if k == 0:
            data += ref.to_bytes(d.pick(dec.words16('undefined')), 16)
        elif k == 1:
            data += ref.to_bytes(d.pick(dec.words16('unpredictable')), 16)
        elif k == 2:
            data += [d.choice(256) for _ in range(d.int(1, 5))]
        elif k == 3:
            w, b = dec.gen_word(d)
            data += ref.to_bytes(w, b)
        else:
            w, b = dec.gen_word(d)
            data += ref.to_bytes(w, b)[:d.int(1, 3)]
        for _ in range(d.choice(3)):
            w, b = dec.gen_valid(d)
            data += ref.to_bytes(w, b)
    if d.flag(1, 3):
        data = data[:len(data) - min(len(data), d.int(1, 3))]
    addr = dec.gen_addr(d)
    if d.flag(1, 6):
        addr |= 1
    if addr + len(data) > 1 << 32:
        addr = (1 << 32) - len(data) & ~1 if len(data) else 0
    return list(data), addr


def gen(d):
    data, addr = gen_code(d)
    return dict(data=data, addr=addr, container=d.choice(3), run=d.choice(8), st=cpu.gen_state(d))


def expect(ctx, data, addr):
    """The instructions to be yielded and how the walk ends, from decoding each position alone."""
    out = []
    pos = 0
    while pos < len(data):
        head = bytes(data[pos:pos + 4])
        # What follows the first instruction is cut off where possible.
        size = 4 if len(head) >= 2 and ref.is32(head[0] | head[1] << 8) else 2
        alone = dec.outcome(head[:size], addr + pos)
        if alone[0] != 'ok':
            if alone == ref.UNDEFINED and len(data) - pos < 4:
                return out, 'end'
            return out, alone
        ctx.eq(alone[2], size, 'size of %s' % head.hex(), 'size')
        ctx.eq(alone[3], head[:size], 'bytes of %s' % head.hex(), 'bytes')
        ctx.eq(alone[4], addr + pos, 'address of %s' % head.hex(), 'address')
        out.append(alone)
        pos += size
    return out, 'end'


def walk(gen, limit):
    """Yields ('ok', instruction) and finally ('end' or the error's name, None)."""
    c = cpu.cm()
    for _ in range(limit):
        try:
            i = next(gen)
        except StopIteration:
            yield 'end', None
            return
        except c['decoder'].UndefinedInstructionError:
            yield ref.UNDEFINED, None
            return
        except c['decoder'].UnpredictableError:
            yield ref.UNPREDICTABLE, None
            return
        yield 'ok', i
    yield 'no end after %d instructions' % limit, None


def body(case, ctx):
    data, addr = case['data'], case['addr']
    want, end = expect(ctx, data, addr)
    box = dec.CONTAINERS[case['container']](data)
    got, gend = [], None
    insns = []
    for kind, i in walk(cpu.cm()['disasm'].Disassembler().disasm(box, addr), len(data) + 3):
        if kind == 'ok':
            got.append(dec.describe(i))
            insns.append(i)
        else:
            gend = kind
    ctx.eq(got[:len(want)], want[:len(got)], 'yielded instructions')
    ctx.eq(len(got), len(want), 'number of instructions')
    ctx.eq(gend, end, 'end of the walk')
    ctx.eq(bytes(box), bytes(data), 'input after the walk')
    # What was yielded stays as it was when it was yielded.
    ctx.eq([dec.describe(i) for i in insns[:4000]], got[:4000], 'the same instructions after the walk', 'kept')
    ctx.eq(b''.join(g[3] for g in got), bytes(data[:sum(g[2] for g in got)]), 'joined bytes')
    if got:
        # One of them is executed: its meaning is that of its own bytes.
        k = case['run'] % len(insns)
        r = ref.decode_bytes(got[k][3])
        if isinstance(r, ref.Insn) and r.exec_ok:
            st = list(case['st'])
            st[cpu.S_PC] = got[k][4] & ~1
            c1, rec1 = cpu.rec_cpu(st)
            c2, rec2 = cpu.rec_cpu(st)
            insns[k].execute(c1)
            cpu.decode(r.word, r.size * 8, got[k][4]).execute(c2)
            cpu.same(ctx, rec1, rec2, 'instruction %d of the walk, against the same decoded alone' % k)
            ctx.label('executed')
    ctx.label('end:' + end)
    if end == 'end' and sum(g[2] for g in got) < len(data):
        ctx.label('tail-%d' % (len(data) - sum(g[2] for g in got)))
    if len(got) >= 2:
        ctx.nontrivial()


def gen_long(d, sizes=(60, 130, 260, 520, 1100, 2100, 4200, 9000, 17000)):
    """Long code: a few valid chunks repeated in a scrambled order, with a tail."""
    chunks = [ref.to_bytes(*dec.gen_valid(d)) for _ in range(d.int(2, 10))]
    n = d.pick(sizes) + d.choice(12)
    x = d.choice(1 << 16)
    data = []
    while len(data) < n:
        x = (x * 25173 + 13849) & 0xffff
        data += chunks[(x >> 5) % len(chunks)]
    if d.flag(1, 3):
        data = data[:n]
    addr = dec.gen_addr(d)
    if addr + len(data) > 1 << 32:
        addr = (1 << 32) - len(data) & ~1
    return dict(data=data, addr=addr, container=d.choice(3), run=d.choice(1 << 14), st=cpu.gen_state(d))


def gen_huge(d):
    return gen_long(d, (66000, 33500, 132000, 40000, 70000))


def gen_two(d):
    a, x = gen_code(d)
    b, y = gen_code(d)
    return dict(a=a, x=x, b=b, y=y, same=d.choice(2), order=[d.choice(2) for _ in range(16)])


def body_two(case, ctx):
    """Two walks consumed alternately do not affect each other."""
    dis = cpu.cm()['disasm'].Disassembler
    d1 = dis()
    d2 = d1 if case['same'] else dis()
    wants = [expect(ctx, case['a'], case['x']), expect(ctx, case['b'], case['y'])]
    gens = [walk(d1.disasm(bytearray(case['a']), case['x']), len(case['a']) + 3),
            walk(d2.disasm(bytearray(case['b']), case['y']), len(case['b']) + 3)]
    got, ends = [[], []], [None, None]
    insns = [[], []]

    def step(k):
        if ends[k] is None:
            kind, i = next(gens[k])
            if kind == 'ok':
                got[k].append(dec.describe(i))
                insns[k].append(i)
            else:
                ends[k] = kind
    for k in case['order']:
        step(k)
    for k in (0, 1):
        while ends[k] is None:
            step(k)
        ctx.eq(got[k], wants[k][0], 'yielded instructions of walk %d' % k, 'interleaved')
        ctx.eq(ends[k], wants[k][1], 'end of walk %d' % k, 'interleaved')
        ctx.eq([dec.describe(i) for i in insns[k]], got[k], 'instructions of walk %d after both' % k, 'interleaved')
    if len(got[0]) >= 2 and len(got[1]) >= 2:
        ctx.nontrivial()


def enum_short(shard, n, tier):
    """Every halfword as a whole input, and after a NOP."""
    for hw in range(shard, 65536, n):
        for pre in ((), (0, 0xbf)):
            yield (hw, len(pre)), dict(data=list(pre) + [hw & 255, hw >> 8], addr=0x1000 + 2 * (hw & 1), container=hw % 3,
                                       run=len(pre) // 2, st=[hw] * 13 + [256, 512, 7, 0, 1 << 24, 0, 0, 0, 0, 0, 1, hw])


PROP = Prop('C01', 'A case is a byte sequence made of valid, undefined, unpredictable, random and truncated chunks at a '
            'generated address, walked completely and compared position by position; or two walks consumed '
            'alternately; and every halfword alone and after a NOP. Non-trivial: two or more instructions yielded '
            '(in each walk). Long walks have up to 132 kB.',
            [Test('walk', gen, body, quick=6000, enum=enum_short), Test('two', gen_two, body_two, quick=2500),
             Test('long', gen_long, body, quick=40), Test('huge', gen_huge, body, quick=2)],
            assumptions=['the code lies within the 32-bit address space',
                         'an encoding that the architecture leaves unpredictable may decode or raise Unpredictable'])
