from vlib.engine import Prop, Test
from vlib import cpu, ref

STATE = [0x10101010 * (i + 1) & 0xffffffff for i in range(13)]


def enum_lists(shard, n, tier):
    """All register lists of the 16-bit push, pop, stm and ldm."""
    for name in ('push', 'pop', 'stm', 'ldm'):
        e = ref.BY_NAME[name]
        for r in range(shard, 256, n):
            for x in range(2 if name in ('push', 'pop') else 8):
                w = e.make(dict(r=r, M=x, P=x, n=x))
                i = ref.decode_word(w, 16)
                if isinstance(i, ref.Insn) and i.exec_ok:
                    st = STATE + [0x20000100, 0x20008000, 0xfffffffd, 0x4000, 0x01000000, (r & 1) * 2, 0, 0, 0, 0, 3, r]
                    yield (name, r, x), dict(w=w, b=16, st=st)


def gen_pair(d):
    """A push and the pop of the same list, with clobbered registers in between."""
    wide = d.flag()
    if wide:
        mask = d.bits(13) | d.choice(2) << 14
        if bin(mask).count('1') < 2:
            mask |= 3
        push = ref.BY_NAME['push_w'].make(dict(M=mask >> 14 & 1, r=mask & 0x1fff))
        pop = ref.BY_NAME['pop_w'].make(dict(P=0, M=mask >> 14 & 1, r=mask & 0x1fff))
        if d.flag(1, 4):
            t = d.choice(13)
            mask = 1 << t
            push = ref.BY_NAME['push_w_t3'].make(dict(t=t))
            pop = ref.BY_NAME['pop_w_t3'].make(dict(t=t))
        b = 32
    else:
        mask = d.choice(255) + 1
        push = ref.BY_NAME['push'].make(dict(M=0, r=mask))
        pop = ref.BY_NAME['pop'].make(dict(P=0, r=mask))
        b = 16
    # Twice: nested push of another list in between.
    mask2 = d.choice(255) + 1
    st = cpu.gen_state(d)
    return dict(push=push, pop=pop, b=b, mask=mask, mask2=mask2, nest=int(d.flag()), st=st, clobber=d.word())


def body_pair(case, ctx):
    c, rec = cpu.rec_cpu(case['st'])
    before = rec.dump()
    regs = ref.bits_of(case['mask'])
    n = len(regs)
    push = cpu.decode(case['push'], case['b'])
    pop = cpu.decode(case['pop'], case['b'])
    push.execute(c)
    sp = before[13] - 4 * n & cpu.M32
    ctx.eq(rec.dump()[13], sp, 'SP after push')
    for k, r in enumerate(regs):
        ctx.eq(rec.mem.load(sp + 4 * k & cpu.M32, 4), before[r], 'stacked r%d' % r)
    if case['nest']:
        p2 = cpu.decode(ref.BY_NAME['push'].make(dict(M=1, r=case['mask2'])), 16)
        q2 = cpu.decode(ref.BY_NAME['pop'].make(dict(P=1, r=case['mask2'])), 16)
        lr = rec.regs[14]
        p2.execute(c)
        for r in range(8):
            rec.regs[r] = case['clobber']
        q2.execute(c)
        ctx.eq(rec.dump()[15] & ~1, lr & ~1, 'PC popped from the stacked LR')
    for r in regs:
        rec.regs[r] = case['clobber']
    pop.execute(c)
    after = rec.dump()
    for r in regs:
        ctx.eq(after[r], before[r], 'r%d after push and pop' % r)
    ctx.eq(after[13], before[13], 'SP after push and pop')
    ctx.nontrivial()
    ctx.label('nested' if case['nest'] else 'single')


PROP = Prop('C11', 'A case is one push, pop, ldm or stm with generated list, base and state over sparse memory, executed '
            'on the checked CPU and on the reference machine (registers, memory and accesses compared); all 16-bit '
            'register lists; and push/pop pairs, nested ones included, that must restore. Non-trivial: all.',
            [Test('exec', cpu.exec_gen(cpu.encs_of('multi')), cpu.exec_body(), quick=50000, enum=enum_lists),
             Test('pair', gen_pair, body_pair, quick=8000)],
            assumptions=['stores of a written-back base that is not the lowest listed register are excluded (UNKNOWN)',
                         'bit 0 of a value loaded to PC may be kept or cleared'])
