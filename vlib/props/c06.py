from vlib.engine import Prop, Test
from vlib import cpu, dec, ref

# Instructions with comments, lists, memory operands and write-back come up often.
RICH = ref.ENC16 + [e for e in ref.ENC32 for _ in (0, 1)]


def gen(d):
    insns = [list(cpu.gen_insn(d, RICH, executable=False)) + [dec.gen_addr(d)] for _ in range(d.int(1, 5))]
    ops = []
    for _ in range(d.size(3, 24, 400)):
        k = d.choice(9)
        ops.append([k if k < 7 else 0, d.choice(len(insns)), d.choice(4)])
    return dict(insns=insns, ops=ops, st=[cpu.gen_state(d), cpu.gen_state(d)])


def failing():
    class Failing(cpu.cm()['formatter'].Operand):
        """An operand without text."""
        def format(self, formatter):
            formatter.add_comment('lost')
            raise LookupError()
    return Failing()


def attrs(i):
    return i.mnemonic, i.size, bytes(i.bytes), i.address, len(i.operands)


def body(case, ctx):
    c = cpu.cm()
    cpus = [cpu.rec_cpu(st) for st in case['st']]
    machines = [cpu.rec_cpu(st) for st in case['st']]
    formatters = [c['formatter'].Formatter(None), c['formatter'].Formatter(None),
                  c['formatter'].Formatter(cpus[0][0]), c['formatter'].Formatter(cpus[1][0])]
    pool = []
    for w, b, a in case['insns']:
        i = cpu.decode(w, b, a)
        fresh = dec.fmt(cpu.decode(w, b, a))
        pool.append([i, ref.decode_word(w, b), w, a, fresh, attrs(i)])
    formats = executes = 0
    for op, k, arg in case['ops']:
        i, want, w, a, text, at = pool[k]
        before = [(r.dump(), dict(r.mem.d)) for _, r in cpus]
        if op <= 2:
            f = formatters[arg]
            got = f.format(i)
            ctx.eq(got, text, 'text of %s, formatter %d' % (cpu.describe(want, w), arg), 'text')
            formats += 1
        elif op == 3:
            # A new object of the same encoding, formatted by a used formatter.
            ctx.eq(formatters[arg].format(cpu.decode(*case['insns'][k])), text, 'text of a new object', 'text')
            formats += 1
        elif op == 4:
            # Same encoding elsewhere: does not disturb this one.
            other = (a + 0x1000) & 0xfffffffe
            j = cpu.decode(case['insns'][k][0], case['insns'][k][1], other)
            ctx.eq(formatters[arg].format(j), dec.fmt(cpu.decode(case['insns'][k][0], case['insns'][k][1], other)),
                   'text at another address', 'text')
            formats += 1
        elif op == 6:
            # Formatting that fails leaves nothing for the next one.
            j = cpu.decode(*case['insns'][k])
            j.operands = list(j.operands) + [failing()]
            try:
                got = formatters[arg].format(j)
                ctx.fail('%s with an operand that raises gives %r' % (cpu.describe(want, w), got), 'failing')
            except LookupError:
                pass
            ctx.eq(formatters[arg].format(i), text, 'text of %s, after formatting that failed' % cpu.describe(want, w), 'failing')
            formats += 1
        elif want.exec_ok:
            x = arg & 1
            # The same state, a new object that was never formatted.
            i.execute(cpus[x][0])
            cpu.decode(*case['insns'][k]).execute(machines[x][0])
            cpus[x][1].regs[15] &= ~1
            machines[x][1].regs[15] &= ~1
            cpu.same(ctx, cpus[x][1], machines[x][1], '%s executed after formatting' % cpu.describe(want, w))
            executes += 1
            before[x] = None
        for x in (0, 1):
            if before[x] is not None:
                r = cpus[x][1]
                ctx.true((r.dump(), r.mem.d) == before[x], 'CPU %d is changed by formatting' % x, 'cpu')
        ctx.eq(attrs(i), at, 'attributes of the instruction', 'attributes')
    if formats >= 2:
        ctx.nontrivial()
    if formats and executes:
        ctx.label('format+execute')


PROP = Prop('C06', 'A case is a history of 3 to 24 formatting and execution steps over a pool of 1 to 5 instructions, four '
            'formatters (two of them made with a CPU) and two CPUs; some formatting fails in an operand; each text is compared with that of a new object '
            'and formatter, attributes and CPU states after each step. Non-trivial: two or more formatting steps.',
            [Test('history', gen, body, quick=12000)],
            assumptions=['text is compared exactly, spacing included, with that of a fresh object and formatter'])
