from vlib.engine import Prop, Test
from vlib import cpu, ref

# 16-bit forms that set flags outside of IT blocks only.
NARROW = ['adcs', 'sbcs', 'rsbs', 'adds_imm3', 'subs_imm3', 'adds_imm8', 'subs_imm8', 'adds_reg', 'subs_reg', 'muls', 'ands', 'eors', 'orrs',
          'bics', 'lsls_reg', 'lsrs_reg', 'asrs_reg', 'rors_reg', 'lsls_imm', 'lsrs_imm', 'asrs_imm', 'movs_imm8', 'mvns']
NARROW_ENCS = [ref.BY_NAME[n] for n in NARROW]
MRS = [ref.BY_NAME['mrs']]
ALL = [cpu.encs_of(k) for k in cpu.EXEC_KINDS]
FPCA = 4
GE = 0xf0000


def gen_one(d):
    k = d.choice(5)
    w, b = cpu.gen_insn(d, NARROW_ENCS if k < 2 else MRS if k == 2 else d.pick(ALL))
    # Unpredictable in an IT block: the form of MOVS between low registers, which always sets flags.
    return [w, b] if ref.decode_word(w, b).name != 'movs_reg' else [0x2000, 16]


def gen(d):
    n = d.int(1, 4)
    insns = [gen_one(d) for _ in range(n)]
    st = cpu.gen_state(d, ref.decode_word(*insns[0]))
    if d.flag():
        st[cpu.S_XPSR] |= d.choice(16) << 16
    return dict(insns=insns, st=st, fpca=d.choice(2), steps=[[d.choice(n), d.choice(2), d.choice(2), d.choice(2), d.choice(2)] for _ in range(d.int(1, 6))])


def body(case, ctx):
    c = cpu.cm()

    class Featured(c['model'].CpuModel):
        dsp = fp = it = False

        @property
        def has_dsp_ext(self):
            return self.dsp

        @property
        def has_fp_ext(self):
            return self.fp

        @property
        def in_it_block(self):
            return self.it

    plain, rec = cpu.rec_cpu(case['st'])
    rec.regs[-4] |= FPCA * case['fpca']
    featured = Featured()
    featured.delegate = rec
    m = cpu.ref_machine(case['st'])
    m.control |= FPCA * case['fpca']
    objs = [cpu.decode(w, b) for w, b in case['insns']]
    for k, dsp, fp, it, same in case['steps']:
        w, b = case['insns'][k]
        insn = ref.decode_word(w, b)
        # The features of a model may differ from use to use of an instruction; the plain model has none.
        featured.dsp, featured.fp, featured.it = bool(dsp), bool(fp), bool(it)
        on = featured if same else plain
        before = m.xpsr
        control = m.control
        rec.log = []
        objs[k].execute(on)
        insn.execute(m)
        if on is featured:
            if it and insn.name in NARROW:
                if m.xpsr != before:
                    ctx.label('it-block')
                    ctx.nontrivial()
                m.xpsr = before
            if insn.name == 'mrs':
                y, t = w & 255, w >> 8 & 15
                if dsp and y < 4:
                    m.set(t, m.get(t) | before & GE)
                    if before & GE:
                        ctx.label('dsp')
                        ctx.nontrivial()
                if fp and y == 20:
                    m.set(t, m.get(t) | control & FPCA)
                    if control & FPCA:
                        ctx.label('fp')
                        ctx.nontrivial()
        cpu.compare(ctx, insn, w, m, rec, tag='with %s: ' % ('dsp=%d fp=%d it=%d' % (dsp, fp, it) if on is featured else 'no features'))
        m.pc &= ~1
        rec.regs[15] &= ~1


PROP = Prop('C35', 'A case is 1 to 4 instructions and 1 to 6 executions of them on a CPU model with generated features (DSP extension, floating-point '
            'extension, in an IT block), which change from step to step, or on one without, over one machine state; each step is compared with '
            'the reference machine. Non-trivial: a feature makes a difference to an instruction.',
            [Test('features', gen, body, quick=12000)],
            assumptions=['features are declared by overriding has_dsp_ext, has_fp_ext and in_it_block', 'MOVS between low registers (encoding T2) is unpredictable in an IT block'])
