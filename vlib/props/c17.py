from vlib.engine import Prop, Test
from vlib import cpu

M32 = cpu.M32


def gen(d):
    regions = []
    a = d.pick((0, 0x100, 0x20000000, 0xffffff00, 3, 0x7ffffff0))
    overlap = d.flag(1, 4)
    for _ in range(d.int(1, 3)):
        n = d.int(1, 24) if d.flag(24, 25) else d.pick((32, 48, 64, 100, 256, 257, 1000, 5000, 0x10000))
        n = min(n, (1 << 32) - a)
        if n <= 0:
            break
        regions.append([a, n])
        a += n + d.pick((0, 1, 2, 3, 4, 16, 0x1000)) if not overlap or d.choice(2) else d.choice(n + 1)
    if d.flag(1, 6):
        regions.append([(1 << 32) - 8, 8]) if regions[-1][0] + regions[-1][1] <= (1 << 32) - 8 else None
    order = d.choice(2)
    ops = []
    for _ in range(d.size(2, 30, 400)):
        s, n = d.pick(regions)
        k = d.choice(8)
        if k < 4:
            a = s + d.choice(n)
        elif k == 4:
            a = s + n - 1 - d.choice(4)
        elif k == 5:
            a = s - 1 - d.choice(4)
        elif k == 6:
            a = s + n + d.choice(4)
        else:
            a = d.choice(1 << 32)
        a = min(max(a, 0), M32)
        if ops and d.flag(1, 4):
            # Near an earlier access, or the same block read again.
            o = d.pick(ops[-6:])
            if o[0] == 'rb' and d.flag():
                ops.append(list(o))
                continue
            a = o[1] + d.choice(8) - 3
        a = min(max(a, 0), M32)
        op = d.pick(('w8', 'w16', 'w32', 'r8', 'r16', 'r32', 'wb', 'rb'))
        if op[0] == 'w' and op != 'wb':
            v = d.value(int(op[1:])) if d.flag(3, 4) else d.value(40)
            ops.append([op, a, v, d.choice(4), d.choice(3)])
        elif op == 'wb':
            ops.append([op, a, [d.choice(256) for _ in range(d.choice(12) if d.flag(29, 30) else d.pick((64, 255, 256, 257, 1030)))], d.choice(2), d.choice(2)])
        elif op == 'rb':
            ops.append([op, a, d.choice(30) if d.flag(9, 10) else d.choice(6000), 0, d.choice(2)])
        else:
            ops.append([op, a, 0, d.choice(4), d.choice(3)])
    return dict(regions=regions[::-1] if order else regions, ops=ops, quiet=d.choice(2))


class Model(object):
    def __init__(self, regions):
        self.m = cpu.RegionMem(regions)


def body(case, ctx):
    c = cpu.cm()
    bs = c['bitstring'].bitstring
    d = c['mock'].MockCpuModelDelegate()
    other = c['mock'].MockCpuModelDelegate()
    for s, n in case['regions']:
        d.add_memory(s, n)
        other.add_memory(s, n)
    m = c['model'].CpuModel()
    m.delegate = d
    model = cpu.RegionMem(case['regions'])
    edge = writes = 0
    for op, a, v, via, form in case['ops']:
        data, off = model.find(a)
        addr = bs(a, 32) if form == 1 else a
        if op in ('r8', 'r16', 'r32'):
            n = int(op[1:])
            want = model.load(a, n // 8)
            if via == 0:
                got = getattr(m, 'read%d' % n)(addr)
            elif via == 1:
                got = m.read_memory(addr, n)
            elif via == 2 and n == 32:
                got = m.read_memory(addr)
            else:
                got = bs(d.read_memory(a) if n == 32 and form == 1 else d.read_memory(a, n), n)
            if got.unsigned != want or got.width != n:
                ctx.fail('%d-bit read at 0x%x gives 0x%x (%d bits) instead of 0x%x' % (n, a, got.unsigned, got.width, want), 'read%d' % n)
            if data is not None and off + n // 8 > len(data):
                edge += 1
        elif op in ('w8', 'w16', 'w32'):
            n = int(op[1:])
            val = bs(v, max(v.bit_length(), n)) if form == 2 else v
            if via == 0:
                getattr(m, 'write%d' % n)(addr, val)
            elif via == 1:
                m.write_memory(addr, val, n)
            elif via == 2 and n == 32:
                m.write_memory(addr, val)
            else:
                if n == 32 and form == 1:
                    d.write_memory(a, v)
                else:
                    d.write_memory(a, v, n)
            model.store(a, v, n // 8)
            writes += data is not None
            if data is not None and off + n // 8 > len(data):
                edge += 1
                ctx.label('straddle')
        elif op == 'wb':
            block = bytearray(v) if form else bytes(bytearray(v))
            (m if via else d).write_memory_block(a, block)
            if form and block:
                block[0] ^= 0xff        # what was written is a copy
            if data is not None:
                for j, x in enumerate(v):
                    if off + j < len(data):
                        data[off + j] = x
                writes += 1
        else:
            got = (m if form else d).read_memory_block(a, v)
            if data is None:
                ctx.true(got is None or len(got) == 0, 'block read at unmapped 0x%x gives %r' % (a, got), 'readblock')
            else:
                ctx.eq(bytes(got), bytes(data[off:off + v]), 'block read of %d at 0x%x' % (v, a), 'readblock')
                if got:
                    got[0] ^= 0xff      # what is returned is a copy
        for s, content in () if case['quiet'] else model.regions:
            got = d.read_memory_block(s, len(content) + 8)
            x, off = model.find(s)
            ctx.eq(bytes(got), bytes(x[off:off + len(content) + 8]), 'region 0x%x after %s at 0x%x' % (s, op, a), 'region')
        if data is None:
            ctx.label('unmapped')
    for s, content in model.regions:
        got = d.read_memory_block(s, len(content) + 8)
        x, off = model.find(s)
        ctx.eq(bytes(got), bytes(x[off:off + len(content) + 8]), 'region 0x%x in the end' % s, 'region')
    for s, n in case['regions']:
        ctx.true(not any(other.read_memory_block(s, n + 1)), 'memory of another CPU changed', 'isolation')
    # Byte by byte through the model.
    for s, data in model.regions:
        got = bytes(bytearray(m.read8(s + j).unsigned for j in range(len(data))))
        ctx.eq(got, bytes(bytearray(model.load(s + j, 1) for j in range(len(data)))), 'bytes of region 0x%x' % s, 'bytes')
    if any(s < t + k and t < s + n for i, (s, n) in enumerate(case['regions']) for t, k in case['regions'][:i]):
        ctx.label('overlap')
    if writes >= 2:
        ctx.nontrivial()
    if edge:
        ctx.label('edge')


PROP = Prop('C17', 'A case is a layout of 1 to 4 regions (adjacent, overlapping, single bytes and the top of the address '
            'space included) and a history of 2 to 30 reads and writes of 8, 16, 32 bits and blocks at, across and '
            'outside region boundaries, through the model and the back end, with integers and bit strings; every '
            'region is compared with a byte model after each step (in half of the cases only in the end, so that looking does not hide anything). Non-trivial: two or more writes to mapped memory.',
            [Test('history', gen, body, quick=16000)],
            assumptions=['where regions overlap, the one added first holds the bytes', 'a block read of unmapped memory may give None or nothing'])
