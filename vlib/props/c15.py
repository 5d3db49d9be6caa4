from vlib.engine import Prop, Test
from vlib import cpu, dec, ref

M32 = cpu.M32
CODE_ENCS = [cpu.encs_of(k) for k in ('arith', 'logic', 'shift_reg', 'adr', 'load', 'store', 'multi', 'system')]
LOW = [e for e in cpu.encs_of('arith', 'logic', 'shift_reg') if e.bits == 16]
MEM = cpu.encs_of('load', 'store')


def mk(name, **f):
    e = ref.BY_NAME[name]
    return e.make(f), e.bits


def gen_item(d, ptr):
    """One straight-line instruction."""
    k = d.choice(8)
    if k < 3:
        return ('w',) + cpu.gen_insn(d, LOW)
    if k < 5:
        # A load or store through a pointer register.
        e = d.pick(MEM)
        f = cpu.gen_fields(d, e)
        if 'n' in f and f['n'] != 15:
            f['n'] = d.pick(ptr)
            if 'i' in f and len(e.fields['i']) > 8:
                f['i'] &= 0x7f
        w = e.make(f)
        i = ref.decode_word(w, e.bits)
        if isinstance(i, ref.Insn) and i.exec_ok and not (i.kind == 'load' and i.ops[0][1] == 15):
            return 'w', w, e.bits
    if k == 5:
        n = d.pick(ptr[:2])
        w = d.pick(('stm', 'ldm'))
        return ('w',) + mk(w, n=n & 7, r=(d.choice(255) + 1) & ~(1 << (n & 7)) or 1 << (n + 1 & 7))
    for _ in range(6):
        w, b = cpu.gen_insn(d, d.pick(CODE_ENCS))
        i = ref.decode_word(w, b)
        # PC loads and moves to PC end in unmapped memory mostly: left to C08, C10, C11 and to calls here.
        if not (any(o == ('reg', 15, False) for o in i.ops[:1]) or i.kind == 'multi' and i.ops[-1][1] >> 15):
            return 'w', w, b
    return 'w', 0xbf00, 16


def gen_body(d, ptr, depth, nfun, lo=1, hi=6):
    out = []
    for _ in range(d.int(lo, hi)):
        k = d.choice(12)
        if k == 0 and depth:
            inner = gen_body(d, ptr, depth - 1, nfun, 1, 3)
            out += [('b_cond', d.choice(14), len(inner))] + inner       # skips inner
        elif k == 1 and depth:
            inner = gen_body(d, ptr, depth - 1, nfun, 1, 3)
            out += [('w',) + mk('movs_imm8', d=7, i=d.int(1, 4))] + inner
            out += [('w',) + mk('subs_imm8', d=7, i=1), ('loop', len(inner) + 1)]
        elif k == 2 and nfun:
            out.append(('call', d.choice(nfun)))
        elif k == 3:
            out.append(('b', 0, 0))
        else:
            out.append(gen_item(d, ptr))
    return out


def gen_program(d):
    base = d.pick((0, 0x1000, 0x20000000))
    ptr = d.pick(([6, 5], [4, 3], [6, 0]))
    nfun = d.choice(3)
    main = gen_body(d, ptr, 2, nfun, 3, 10)
    tail = d.choice(3)
    if tail == 0 and main:
        main.append(('loop_b', len(main)))
    funs = []
    for _ in range(nfun):
        body = gen_body(d, ptr, 1, 0, 1, 4)
        k = d.choice(3)
        regs = d.choice(256) & 0x70
        if k == 0:
            body = body + [('w',) + mk('bx', m=14)]
        elif k == 1:
            body = [('w',) + mk('push', M=1, r=regs)] + body + [('w',) + mk('pop', P=1, r=regs)]
        else:
            body = [('w',) + mk('push_w', M=1, r=regs | 0x100)] + body + [('w',) + mk('pop_w', P=1, M=0, r=regs | 0x100)]
        funs.append(body)
    items, starts = [], []
    items += main + [('end',)]
    for f in funs:
        starts.append(len(items))
        items += f
    # Layout.
    size = {'w': None, 'call': 4, 'end': 2}
    addr, a = [], base
    for it in items:
        addr.append(a)
        a += it[2] // 8 if it[0] == 'w' else size.get(it[0], 2)
    addr.append(a)
    code = b''
    for n, it in enumerate(items):
        k = it[0]
        pc = addr[n] + 4
        if k == 'w':
            w, b = it[1], it[2]
        elif k == 'end':
            w, b = mk('b', i=0x7fe)
        elif k == 'b':
            w, b = mk('b', i=((addr[min(n + 2, len(items))] - pc) >> 1) & 0x7ff)
        elif k == 'b_cond':
            w, b = mk('b_cond', c=it[1], i=((addr[n + 1 + it[2]] - pc) >> 1) & 0xff)
        elif k == 'loop':
            w, b = mk('b_cond', c=1, i=((addr[n - it[1]] - pc) >> 1) & 0xff)
        elif k == 'loop_b':
            w, b = mk('b', i=((addr[n - it[1]] - pc) >> 1) & 0x7ff)
        elif k == 'call':
            off = (addr[starts[it[1]]] - pc) & 0x1ffffff
            s = off >> 24 & 1
            w, b = mk('bl', s=s, J=1 ^ s ^ (off >> 23 & 1), K=1 ^ s ^ (off >> 22 & 1), i=off >> 1 & 0x1fffff)
        code += ref.to_bytes(w, b)
    st = cpu.gen_state(d)
    dbase = d.pick((0x30000000, 0x8000))
    st[ptr[0]] = dbase + 4 * d.choice(48)
    # The second pointer: into the data, or into the code (self-modification).
    st[ptr[1]] = base + 2 * d.choice(max(1, len(code) // 2)) if d.flag(1, 3) else dbase + d.choice(200)
    st[cpu.S_MSP] = 0x40000000 + 4 * d.int(20, 63)
    st[cpu.S_PSP] = 0x40000000 + 4 * d.int(20, 63)
    st[cpu.S_PC] = base
    regions = [[base, len(code) + 8], [dbase, d.int(64, 256)], [0x40000000, 256]]
    return dict(code=code.hex(), regions=regions, st=cpu.gen_mode(d, st), steps=d.size(10, 120, 1500), via=d.choice(3))


def patchable(w, b):
    """An instruction that works on registers other than those of the loop around it."""
    i = ref.decode_word(w, b)
    return isinstance(i, ref.Insn) and i.exec_ok and i.kind in ('arith', 'logic', 'shift_reg') and \
        not any(o[0] == 'reg' and o[1] in (5, 6, 7, 13, 15) for o in i.ops)


def gen_patch(d):
    """A loop that patches its own instructions: bytes, halfwords or words of them, from a table."""
    base = d.pick((0, 0x1000, 0x20000000))
    slots, addr, a = [], [], base
    while len(slots) < d.int(1, 3) or not slots:
        for _ in range(30):
            w, b = cpu.gen_insn(d, d.pick(CODE_ENCS[:3]))
            if patchable(w, b) and (b == 32 or d.flag()):
                break
        else:
            w, b = mk('movs_imm8', d=0, i=1)
        slots.append([w, b])
        addr.append(a)
        a += b // 8
    code = b''.join(ref.to_bytes(w, b) for w, b in slots)
    size = d.pick((1, 2, 2, 4))
    tail = [mk('ldr_imm', i=0, n=6, t=7), mk('ldr_imm', i=1, n=6, t=5),
            mk({1: 'strb_imm', 2: 'strh_imm', 4: 'str_imm'}[size], i=0, n=7, t=5), mk('adds_imm8', d=6, i=8)]
    tail.append(mk('b', i=(-(len(code) + 8 + 4) >> 1) & 0x7ff))
    table = b''
    rounds = d.int(2, 8)
    for _ in range(rounds):
        n = d.choice(len(slots))
        w, b = slots[n]
        raw = bytearray(ref.to_bytes(w, b))
        k = min(size, len(raw))
        for _ in range(40):
            off = d.choice(max(1, len(raw) // size)) * size if size <= len(raw) else 0
            new = bytearray(raw)
            for _ in range(d.int(1, 3)):
                new[off + d.choice(k)] ^= 1 << d.choice(8)
            # The first halfword of a 32-bit instruction comes first.
            word = new[0] | new[1] << 8 | (new[2] << 16 | new[3] << 24 if b == 32 else 0)
            if patchable(word, b):
                raw = new
                slots[n][0] = word
                break
        value = bytes(raw[off:off + k])
        if k < size:
            # A word write over a 16-bit instruction includes what follows it.
            follow = b''.join(ref.to_bytes(*s) for s in slots[n + 1:]) + ref.to_bytes(*tail[0])
            value += follow[:size - k]
        table += (addr[n] + off).to_bytes(4, 'little') + value.ljust(4, b'\0')
    code += b''.join(ref.to_bytes(w, b) for w, b in tail)
    st = cpu.gen_state(d)
    st[6] = 0x30000000
    st[cpu.S_MSP] = 0x40000000 + 4 * d.int(20, 63)
    st[cpu.S_PSP] = 0x40000000 + 4 * d.int(20, 63)
    st[cpu.S_PC] = base
    return dict(code=code.hex(), data=table.hex(), regions=[[base, len(code) + 8], [0x30000000, len(table)], [0x40000000, 256]],
                st=cpu.gen_mode(d, st), steps=rounds * (len(slots) + 5) + len(slots), via=d.choice(3))


def mock_cpu(st, regions, mem):
    c = cpu.cm()
    d = c['mock'].MockCpuModelDelegate()
    for (s, n), (s2, data) in zip(regions, mem.regions):
        d.add_memory(s, n)
        d.write_memory_block(s, bytearray(data))
    m = c['model'].CpuModel()
    m.delegate = d
    cpu.set_mode(m, st)
    m.write_register('control', st[cpu.S_CONTROL])
    for k, v in cpu.ref_machine(st, mem).regs().items():
        d.write_register(k, v)
    return m, d


def dump(d):
    return {k: d.read_register(k) for k in cpu.REG_KEYS}


def memory_diff(d, mem):
    for s, data in mem.regions:
        got = d.read_memory_block(s, len(data))
        if bytes(got) != bytes(data):
            for j in range(len(data)):
                if got[j] != data[j]:
                    return 'memory at 0x%x is %02x instead of %02x' % (s + j, got[j], data[j])
    return None


def make_mem(case):
    mem = cpu.RegionMem([(s, n) for s, n in case['regions']])
    bg = cpu.BgMem(case['st'][cpu.S_BG])
    for s, data in mem.regions[1:]:
        for j in range(len(data)):
            data[j] = bg.byte(s + j)
    code = bytes.fromhex(case['code'])
    mem.regions[0][1][:len(code)] = code
    data = bytes.fromhex(case.get('data', ''))
    mem.regions[1][1][:len(data)] = data
    return mem


def body_program(case, ctx):
    c = cpu.cm()
    st = case['st']
    mem = make_mem(case)
    m = cpu.ref_machine(st, mem)
    machine, d = mock_cpu(st, case['regions'], mem)
    code0 = bytes(mem.regions[0][1])
    ctx.eq(cpu.diff_regs(dump(d), m.regs()), [], 'initial registers')
    branches = accesses = 0
    dis = c['disasm'].Disassembler()
    seen = {}
    lo, hi = case['regions'][0][0], case['regions'][0][0] + len(code0)
    n = 0
    for n in range(case['steps']):
        pc = m.pc
        if not lo <= pc < hi - 4:
            ctx.label('left-code')
            break
        head = bytes(mem.load((pc + j) & M32, 1) for j in range(4))
        # Fetch through the model by bytes or as a block.
        if n & 1:
            fetched = bytearray(machine.read_memory_block(pc, 4))
        else:
            fetched = bytearray(machine.read8(pc + j).unsigned for j in range(4))
        ctx.eq(bytes(fetched), head, 'fetch at 0x%x' % pc, 'fetch')
        want = ref.decode_bytes(head)
        if isinstance(want, str) or not want.exec_ok:
            out = dec.outcome(fetched, pc)
            wrong = dec.agrees(out, want, head, pc)
            if wrong:
                ctx.fail('%s at 0x%x %s' % (head.hex(), pc, wrong), 'decode')
            ctx.label('stopped')
            break
        via = case.get('via', 0)
        if via == 0:
            i = c['disasm'].decoder.decode(fetched, pc)
        else:
            i = next((c['disasm'].Disassembler() if via == 1 else dis).disasm(fetched, pc))
        i.execute(machine)
        want.execute(m)
        out = cpu.diff_regs(dump(d), m.regs(), cpu.loose_pc(want))
        md = memory_diff(d, mem) if any(a[0] == 'w' for a in m.accesses) or n % 8 == 7 else None
        if md:
            out.append(md)
        if out:
            ctx.fail('step %d at 0x%x, %s: %s' % (n, pc, cpu.describe(want, want.word), '; '.join(out)), 'step:' + want.name)
        if m.pc & 1:
            m.pc &= ~1
        if d.read_register(15) & 1:
            d.write_register(15, m.pc)
        if m.branched:
            branches += 1
            ctx.label('branch')
        if any(a[0] == 'w' for a in m.accesses):
            accesses += 1
        seen[pc] = seen.get(pc, 0) + 1
    md = memory_diff(d, mem)
    if md:
        ctx.fail('afterwards: %s' % md, 'memory')
    if seen and max(seen.values()) > 1:
        ctx.label('loops')
    if bytes(mem.regions[0][1]) != code0:
        ctx.label('self-modified')
    if want_label(n):
        ctx.label('20+ steps')
    if n >= 3 and (branches or accesses):
        ctx.nontrivial()


def want_label(n):
    return n >= 20


def gen_stream(d):
    insns = [list(gen_item(d, [6, 5])[1:]) for _ in range(d.size(2, 24, 300))]
    for _ in range(d.choice(3)):
        # Branches to themselves, and the same instruction again.
        insns.insert(d.choice(len(insns) + 1), d.pick(([0xe7fe, 16], [0xd0fe | d.choice(14) << 8, 16], [0xf7fffffe, 32], d.pick(insns), d.pick(insns))))
    st = cpu.gen_state(d)
    st[cpu.S_PC] = 0x1000
    regions = [[0x1000, 16], [0x30000000, 256], [0x40000000, 256]]
    st[6] = 0x30000000 + 4 * d.choice(48)
    st[5] = 0x30000000 + d.choice(200)
    st[cpu.S_MSP] = 0x40000000 + 4 * d.int(20, 63)
    st[cpu.S_PSP] = 0x40000000 + 4 * d.int(20, 63)
    return dict(insns=insns, regions=regions, code='', st=cpu.gen_mode(d, st), whole=d.choice(3))


def body_stream(case, ctx):
    """Instructions decoded beforehand and handed to CpuModel.execute() as a list or one by one."""
    mem = make_mem(case)
    m = cpu.ref_machine(case['st'], mem)
    machine, d = mock_cpu(case['st'], case['regions'], mem)
    made = {}
    # Equal instructions are the same object.
    objs = [made.setdefault((w, b), cpu.decode(w, b)) for w, b in case['insns']]
    wants = [ref.decode_word(w, b) for w, b in case['insns']]
    done = []

    def feed():
        """Each instruction is asked for when the one before it has been executed."""
        for o, w in zip(objs, wants):
            done.append(w)
            yield o
            w.execute(m)
            if d.read_register(15) & 1:
                d.write_register(15, d.read_register(15) & ~1)
            m.pc &= ~1
            out = cpu.diff_regs(dump(d), m.regs())
            if out:
                ctx.fail('%s, when the next instruction is asked for: %s' % (cpu.describe(w, w.word), '; '.join(out)), 'feed')
    if case['whole'] == 2:
        machine.execute(feed())
        ctx.eq(len(done), len(objs), 'instructions taken by execute()', 'feed')
    elif case['whole']:
        # Whether bit 0 of a loaded or moved PC is kept is free, so the list ends at the first odd one.
        for k, w in enumerate(wants):
            w.execute(m)
            if m.pc & 1:
                objs = objs[:k + 1]
                break
        machine.execute(objs)
    else:
        for o, w in zip(objs, wants):
            machine.execute([o])
            w.execute(m)
            if d.read_register(15) & 1:
                d.write_register(15, d.read_register(15) & ~1)
            m.pc &= ~1
            out = cpu.diff_regs(dump(d), m.regs())
            if out:
                ctx.fail('%s: %s' % (cpu.describe(w, w.word), '; '.join(out)), 'step:' + w.name)
    out = cpu.diff_regs(dump(d), m.regs(), True)
    md = memory_diff(d, mem)
    if md:
        out.append(md)
    if out:
        ctx.fail('after %d instructions: %s' % (len(objs), '; '.join(out)), 'stream')
    ctx.label(('single', 'whole', 'feed')[case['whole']])
    ctx.nontrivial()


PROP = Prop('C15', 'A case is a program (straight code, skips, counted and endless loops, calls to 0 to 2 functions that '
            'return by BX LR, POP or POP.W, loads and stores through pointers into data or into the code itself) in '
            'mock memory; or a loop that overwrites bytes, halfwords or words of its own instructions, run for up to 120 (rarely 1500) steps next to the reference machine with registers compared after each '
            'step and memory after each store; or a stream of 2 to 24 decoded instructions given to the CPU model. '
            'Non-trivial: at least four steps with a taken branch or a store; all streams.',
            [Test('program', gen_program, body_program, quick=6000), Test('patch', gen_patch, body_program, quick=3000), Test('stream', gen_stream, body_stream, quick=5000)],
            assumptions=['a run ends at an instruction that the reference calls undefined, unpredictable or unimplemented',
                         'bit 0 of a PC that was loaded or moved is cleared on both sides'])
