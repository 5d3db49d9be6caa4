from vlib.engine import Prop, Test, Violation, Ctx
from vlib import cpu, dec, ref

ALL = [cpu.encs_of(k) for k in cpu.EXEC_KINDS]
M32 = cpu.M32


def gen(d):
    pool = []
    for _ in range(d.int(1, 4)):
        if pool and d.flag():
            # A relative: same encoding, other fields.
            r = ref.decode_word(*d.pick(pool)[:2])
            w, b = cpu.gen_insn(d, [ref.BY_NAME[r.name]])
        else:
            w, b = cpu.gen_insn(d, d.pick(ALL))
        pool.append([w, b, dec.gen_addr(d)])
    ncpu = d.int(1, 3)
    sts = [cpu.gen_state(d, ref.decode_word(*d.pick(pool)[:2])) for _ in range(ncpu)]
    ops = []
    for _ in range(d.size(2, 20, 700)):
        k = d.choice(10)
        if k < 6:
            ops.append(['x', d.choice(len(pool)), d.choice(ncpu)])
        elif k == 6:
            ops.append(['d', d.choice(len(pool)), d.choice(4) * 0x1000])
        elif k == 7:
            ops.append(['f', d.choice(len(pool)), d.choice(ncpu)])
        elif k == 8:
            ops.append(['r', d.choice(16), d.choice(ncpu), d.word()])
        else:
            ops.append(['p', 16, d.choice(ncpu), d.choice(16) << 28])
    return dict(pool=pool, sts=sts, ops=ops)


def body(case, ctx):
    c = cpu.cm()
    cpus = [cpu.rec_cpu(st) for st in case['sts']]
    machines = [cpu.ref_machine(st) for st in case['sts']]
    objs = [cpu.decode(*p) for p in case['pool']]
    uses = [0] * len(objs)
    kinds = {}
    reused = 0
    for op in case['ops']:
        if op[0] == 'x':
            k, x = op[1], op[2]
            w, b, addr = case['pool'][k]
            insn = ref.decode_word(w, b)
            m, rec = machines[x], cpus[x][1]
            others = [(y, cpus[y][1].dump(), dict(cpus[y][1].mem.d)) for y in range(len(cpus)) if y != x]
            before, bmem = dict(rec.regs), cpu.BgMem(rec.mem.bg, rec.mem.d)
            rec.log = []
            try:
                objs[k].execute(cpus[x][0])
            except Exception as e:
                try:
                    cpu.pristine_execute(w, b, before[15], before, bmem)
                except Exception as f:
                    if type(f).__name__ == type(e).__name__:
                        ctx.label('always-raises')
                        return
                raise
            insn.execute(m)
            try:
                cpu.compare(Ctx(), insn, w, m, rec)
            except Violation:
                # Not what the reference does. That is this property's business only if a first-ever decode and
                # execution in a package that did nothing before does something else.
                want = cpu.pristine_execute(w, b, before[15], before, bmem)
                rec2 = rec
                cpu.same(ctx, rec2, want, '%s executed as use %d of its object (address 0x%x, PC 0x%x), against a new one'
                         % (cpu.describe(insn, w), uses[k] + 1, addr, before[15]))
                cpu.load_regs(m, rec.dump())
                m.mem.d = dict(rec.mem.d)
                ctx.label('differs-from-reference')
            for y, regs, mem in others:
                ctx.true(cpus[y][1].dump() == regs and cpus[y][1].mem.d == mem,
                         '%s executed on CPU %d changes CPU %d' % (cpu.describe(insn, w), x, y), 'other-cpu')
            # Keep both PCs even, whatever was loaded.
            m.pc &= ~1
            rec.regs[15] &= ~1
            if uses[k]:
                reused += 1
            uses[k] += 1
            kinds.setdefault(insn.name, set()).add(k)
            ctx.label('execute')
        elif op[0] == 'd':
            w, b, addr = case['pool'][op[1]]
            cpu.decode(w, b, op[2])
        elif op[0] == 'f':
            dec.fmt(objs[op[1]], c['formatter'].Formatter(cpus[op[2]][0]))
        else:
            r, x, v = op[1], op[2], op[3]
            m, rec = machines[x], cpus[x][1]
            if r == 13:
                v &= ~3
            if r == 15:
                v &= ~1
            if r == 16:
                v |= rec.regs[16] & 0x0fffffff
                m.xpsr = v
            else:
                m.set(r, v)
            rec.regs.update(m.regs())
    if reused or any(len(s) > 1 for s in kinds.values()):
        ctx.nontrivial()
    if reused and len(cpus) > 1:
        ctx.label('reuse-several-cpus')


PROP = Prop('C14', 'A case is a history of 2 to 20 steps (execute one of 1 to 4 pooled instruction objects on one of 1 to 3 '
            'CPUs, decode the same encoding elsewhere, format, set a register) with decode addresses unrelated to PC; '
            'each execution is compared with the reference machine and, where that differs, with a first decode and '
            'execution in a pristine copy of the package. Non-trivial: an object is executed again, or two objects of '
            'one encoding are executed.',
            [Test('reuse', gen, body, quick=20000)],
            assumptions=['a wrong result that a first-ever decode and execution gives too is not this property'])
