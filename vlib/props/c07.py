from vlib.engine import Prop, Test
from vlib import cpu, ref


# ADD with PC as an operand reads the address of the instruction plus 4. The project reads PC without the 4
# (and a test of its own asserts that for ADD r2, PC): a known finding, identified by exactly that result.
def gen_add_pc(d):
    w = d.pick((0x4478, 0x4487, 0x44fd))
    if w == 0x4478:                 # add rdn, pc
        r = d.choice(15)
        w |= (r & 8) << 4 | r & 7
    elif w == 0x4487:               # add pc, rm (sp is add pc, sp, pc)
        w |= d.choice(15) << 3
    return dict(w=w, b=16, st=cpu.gen_state(d, ref.decode_word(w, 16)))


def body_add_pc(case, ctx):
    w, st = case['w'], case['st']
    insn = ref.decode_word(w, 16)
    results = []
    for bias in (4, 0):
        m = cpu.ref_machine(st)
        m.pc_bias = bias
        c, d = cpu.rec_cpu(st)
        cpu.decode(w, 16, st[cpu.S_PC]).execute(c)
        insn.execute(m)
        if bias == 4:
            full = d
            want = m
        results.append((cpu.diff_regs(d.dump(), m.regs(), True), d.log, d.mem.d == m.mem.d))
    ctx.nontrivial()
    ctx.label('destination pc' if want.branched else 'destination register')
    if results[0] != ([], [], True) and results[1] == ([], [], True):
        ctx.fail('%s reads PC without adding 4' % cpu.describe(insn, w), 'add-pc-operand')
    cpu.compare(ctx, insn, w, want, full)


PROP = Prop('C07', 'A case is one supported add/sub/compare/multiply encoding with generated fields and a complete '
            'generated machine state (operand registers corner-biased or related to each other), executed on the '
            'checked CPU and on the reference machine. Non-trivial: state other than PC changes.',
            [Test('exec', cpu.exec_gen(cpu.encs_of('arith')), cpu.exec_body(), quick=100000),
             Test('add_pc', gen_add_pc, body_add_pc, quick=4000)],
            assumptions=['the reference machine in vlib/ref.py states the ARMv7-M definitions'])
