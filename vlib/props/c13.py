from vlib.engine import Prop, Test
from vlib import cpu, ref

KINDS = cpu.EXEC_KINDS
BY_KIND = [cpu.encs_of(k) for k in KINDS]


def gen(d):
    encs = d.pick(BY_KIND)
    w, b = cpu.gen_insn(d, encs)
    st = cpu.gen_state(d, ref.decode_word(w, b))
    if d.flag(1, 6):
        st[cpu.S_PC] = d.pick((0xfffffffc, 0xfffffffe, 0, 2))
    return dict(w=w, b=b, st=cpu.gen_mode(d, st))


def may_change(insn, m):
    """Register numbers that the instruction names as written (independent of the reference's run)."""
    out = {15}
    ops = insn.ops
    if insn.kind in ('arith', 'logic', 'shift_reg', 'adr', 'load'):
        if not insn.mn.startswith(('cmp', 'cmn', 'tst')):
            out.add(ops[0][1])
    elif insn.kind == 'branch':
        if insn.mn in ('bl', 'blx'):
            out.add(14)
    elif insn.kind == 'multi':
        if insn.mn.startswith(('pop', 'ldm')):
            out |= set(ref.bits_of(ops[-1][1]))
        if insn.mn.startswith(('pop', 'push')):
            out.add(13)
        elif ops[0][2]:
            out.add(ops[0][1])
    elif insn.mn == 'mrs':
        out.add(ops[0][1])
    elif insn.mn.startswith('cps'):
        out |= {-1 if c == 'i' else -3 for c in ops[0][1]}
    if 13 in out:
        out.add(18 if m.control & 2 else 17)
    return out


FLAGS = {}
for _mn in ('adcs sbcs rsbs adds subs rsbs.w cmp cmp.w cmn').split():
    FLAGS[_mn] = 0xf0000000
for _mn in ('muls ands eors orrs bics mvns movs').split():
    FLAGS[_mn] = 0xc0000000
for _mn in ('lsls lsrs asrs rors mvns.w movs.w tst tst.w').split():
    FLAGS[_mn] = 0xe0000000


def body(case, ctx):
    insn = ref.decode_word(case['w'], case['b'])
    m = cpu.ref_machine(case['st'])
    before = m.regs()
    c, rec = cpu.rec_cpu(case['st'])
    i = cpu.decode(case['w'], case['b'], case['st'][cpu.S_PC])
    ctx.eq(i.size, case['b'] // 8, 'size')
    i.execute(c)
    after = rec.dump()
    ctx.eq(c.mode.name, 'Handler' if m.handler else 'Thread', '%s: mode afterwards' % cpu.describe(insn, case['w']), 'mode')
    allowed = may_change(insn, m)
    for k in cpu.REG_KEYS:
        if k == 16:
            bad = (after[16] ^ before[16]) & ~FLAGS.get(insn.mn, 0)
            if bad:
                ctx.fail('%s changes xpsr bits 0x%08x' % (cpu.describe(insn, case['w']), bad), 'frame:xpsr')
        elif k not in allowed and after[k] != before[k]:
            ctx.fail('%s changes %s from 0x%x to 0x%x' % (cpu.describe(insn, case['w']), cpu.REG_LABEL[k],
                                                          before[k], after[k]), 'frame:' + insn.name)
    insn.execute(m)
    branches = m.branched or 15 in [o[1] for o in insn.ops[:1] if o[0] == 'reg'] and insn.kind != 'branch'
    if not branches:
        ctx.eq(after[15], before[15] + insn.size & cpu.M32, '%s: PC afterwards' % cpu.describe(insn, case['w']), 'pc')
    # Memory: only stores and pushes write, and only the bytes that they name.
    named = set()
    for a in m.accesses:
        if a[0] == 'w':
            named.update((a[1] + j) & cpu.M32 for j in range(a[2]))
    orig = cpu.BgMem(case['st'][cpu.S_BG])
    bad = sorted(a for a in rec.mem.d if a not in named and rec.mem.byte(a) != orig.byte(a))
    if bad:
        ctx.fail('%s changes memory at %s' % (cpu.describe(insn, case['w']), ', '.join('0x%x' % a for a in bad[:8])),
                 'frame:memory')
    ctx.label(insn.kind)
    ctx.nontrivial()


def enum16(shard, n, tier):
    """Every executable 16-bit encoding in a few fixed states."""
    for w in range(shard, 65536, n):
        if ref.is32(w):
            continue
        i = ref.decode_word(w, 16)
        if isinstance(i, ref.Insn) and i.exec_ok:
            for v in range(2 if tier == 'quick' else 12):
                x = (w * 2654435761 + v * 40503) & 0xffffffff
                st = [(x * (2 * k + 3) >> 3) & 0xffffffff for k in range(13)]
                st += [x & 0xfffc, x >> 8 & 0xfffc, x, (x >> 1) & 0xfffffffe, (x * 16777619) & 0xffffffff,
                       v & 3, v & 1, w & 1, x & 255, 1, 2, v]
                if v == 1:
                    st.append(1)        # handler mode
                yield (w, v), dict(w=w, b=16, st=st)


PASSIVE = cpu.encs_of('trap', 'msr')


def gen_passive(d):
    w, b = cpu.gen_insn(d, PASSIVE, executable=False)
    st = cpu.gen_state(d)
    if d.flag(1, 6):
        st[cpu.S_PC] = d.pick((0xfffffffc, 0xfffffffe, 0, 2))
    return dict(w=w, b=b, st=cpu.gen_mode(d, st))


def body_passive(case, ctx):
    """What is decoded but has no simulated effect only moves PC on."""
    insn = ref.decode_word(case['w'], case['b'])
    if not isinstance(insn, ref.Insn) or insn.kind not in ('trap', 'msr'):
        return
    m = cpu.ref_machine(case['st'])
    want = m.regs()
    c, rec = cpu.rec_cpu(case['st'])
    cpu.decode(case['w'], case['b'], case['st'][cpu.S_PC]).execute(c)
    what = '%s (%0*x)' % (insn.mn, case['b'] // 4, case['w'])
    ctx.eq(c.mode.name, 'Handler' if m.handler else 'Thread', '%s: mode afterwards' % what, 'mode')
    want[15] = want[15] + insn.size & cpu.M32
    after = rec.dump()
    for k in cpu.REG_KEYS:
        ctx.eq(after[k], want[k], '%s: %s afterwards' % (what, cpu.REG_LABEL[k]), 'passive')
    orig = cpu.BgMem(case['st'][cpu.S_BG])
    bad = sorted(a for a in rec.mem.d if rec.mem.byte(a) != orig.byte(a))
    ctx.true(not bad, '%s changes memory at %s' % (what, ', '.join('0x%x' % a for a in bad[:8])), 'frame:memory')
    ctx.label('passive:' + insn.mn)
    ctx.nontrivial()


PROP = Prop('C13', 'A case is one supported encoding of any kind in a complete generated machine state; every register, '
            'special register, float register, xPSR bit and memory byte not named by the instruction must be unchanged '
            'and PC must advance by the size; every executable 16-bit encoding is run in fixed states too, and BKPT, SVC, UDF and MSR in generated states. '
            'Non-trivial: all (each executes an instruction).',
            [Test('frame', gen, body, quick=60000, enum=enum16),
             Test('passive', gen_passive, body_passive, quick=6000)],
            assumptions=['BKPT, SVC, UDF and MSR have no simulated effect, so they act as no-operations',
                         'exclusions: PC as a data operand, architecturally unpredictable operands'])
