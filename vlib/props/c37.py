import hashlib

from vlib import cprog, cpu
from vlib.engine import Prop, Test

M32 = cpu.M32
STOP = 0xf00          # where the outermost function returns to
STACK = 0x20100000
OPTIONS = ('-O0', '-O1', '-O2', '-Os', '-Oz', '-O3')
LIMIT = 400000


def gen(d):
    prog = cprog.Gen(d).program()
    return dict(p=prog, O=d.choice(len(OPTIONS)), v7=int(d.flag(1, 12)), keep=d.choice(2), psp=d.choice(2), via=d.choice(2),
                regs=[d.word() for _ in range(13)])


def source(prog):
    return cprog.c_source(prog)[len(cprog.DEFS):]


def body(case, ctx):
    prog = case['p']
    text = cprog.c_source(prog)
    options = [OPTIONS[case['O']]]
    target = 'thumbv6m-none-eabi'
    if case['v7']:
        target = 'thumbv7m-none-eabi'
        options += ['-mno-movt', '-mllvm', '-ifcvt-limit=0']
    linked = cprog.compile(text, target, options)
    if linked is None:
        ctx.label('not compiled')
        return
    ctx.label(options[0])
    segs, syms = linked
    c = cpu.cm()
    mock = c['mock'].MockCpuModelDelegate()
    end = max(a + n for a, _, n in segs if a < cprog.RAM)
    mock.add_memory(0, end + 16)
    mock.add_memory(cprog.RAM, max([a + n for a, _, n in segs if a >= cprog.RAM] or [cprog.RAM]) - cprog.RAM + 16)
    mock.add_memory(STACK - 0x2000, 0x2000)
    machine = c['model'].CpuModel()
    machine.delegate = mock
    for a, raw, n in segs:
        machine.write_memory_block(a, bytearray(raw))
    meaning = cprog.Meaning(prog)
    for name, raw in meaning.data().items():
        machine.write_memory_block(syms[name], bytearray(raw))
    for i, v in enumerate(case['regs']):
        machine.r[i] = v
    machine.write_register('control', 2 if case['psp'] else 0)
    kept = {}
    dis = c['disasm'].Disassembler()
    steps = 0
    for n, (fn, args) in enumerate(prog['calls']):
        np = prog['f'][fn]['p']
        for i in range(min(4, np)):
            machine.r[i] = args[i]
        sp = STACK - 64
        machine.sp = sp
        for i in range(4, np):
            machine.write32(sp + 4 * (i - 4), args[i])
        machine.lr = STOP | 1
        machine.pc = syms['f%d' % fn] & ~1
        saved = [machine.read_register(i).unsigned for i in range(4, 12)]
        what = 'call %d, f%d(%s) of a program compiled with %s for %s' % (n, fn, ', '.join('0x%x' % x for x in args[:np]), options[0], target)
        while True:
            pc = machine.pc.unsigned & ~1
            if pc == STOP:
                break
            i = kept.get(pc)
            if i is None:
                code = machine.read_memory_block(pc, 4)
                if code[1] == 0x44 and (code[0] & 0x78 == 0x78 or code[0] & 0x87 == 0x87):
                    ctx.label('ADD with PC')        # the known finding of C07
                    return
                try:
                    i = next(dis.disasm(code, pc))
                except c['decoder'].UndefinedInstructionError:
                    if case['v7']:
                        ctx.label('v7-M instruction outside of the project')
                        return
                    raise
                if case['keep']:
                    kept[pc] = i
            if case['via']:
                machine.execute([i])
            else:
                i.execute(machine)
            steps += 1
            if steps > LIMIT:
                ctx.fail('%s does not return\n%s' % (what, source(prog)), 'no-return')
            p2 = mock.read_register(15)
            if p2 & 1:
                mock.write_register(15, p2 & ~1)
            elif not cprog.TEXT <= p2 < end and p2 != STOP:
                ctx.fail('%s leaves the program: %s at 0x%x goes to 0x%x\n%s' % (what, i.mnemonic, pc, p2, source(prog)), 'astray')
        want = meaning.call(fn, args)
        got = machine.r[0].unsigned
        if got != want:
            ctx.fail('%s returns 0x%x instead of 0x%x\n%s' % (what, got, want, source(prog)), 'result')
        for name, raw in sorted(meaning.data().items()):
            mem = bytes(machine.read_memory_block(syms[name], len(raw)))
            if mem != raw:
                ctx.fail('%s leaves %s as %s instead of %s\n%s' % (what, name, mem.hex(), raw.hex(), source(prog)), 'data')
        if machine.sp.unsigned != sp or [machine.read_register(i).unsigned for i in range(4, 12)] != saved:
            ctx.fail('%s does not preserve the registers of its caller\n%s' % (what, source(prog)), 'preserved')
    ctx.label('v7-M' if case['v7'] else 'v6-M')
    if steps >= 30:
        ctx.nontrivial()
    if steps >= 1000:
        ctx.label('1000+ instructions')


PROP = Prop('C37', 'A case is a C program (1 to 4 functions with arithmetic of 8 to 64 bits, shifts, rotations, comparisons, division, '
            'byte reversal, arrays, structures, tables, loops, switches, direct, indirect and recursive calls, stack arguments) compiled '
            'by clang at a chosen level for ARMv6-M or ARMv7-M, and 1 to 4 calls of its functions. Non-trivial: at least 30 '
            'instructions were executed and every call compared.',
            [Test('program', gen, body, quick=400, thorough=4000)],
            assumptions=['clang translates the programs correctly; their meaning is computed from the same tree in Python',
                         'ARMv7-M programs end quietly at an instruction that the project does not know',
                         'bit 0 of a PC that was loaded or moved is cleared'])
