from vlib.engine import Prop, Test
from vlib import cpu, ref


def enum_mrs(shard, n, tier):
    k = 0
    for y in sorted(ref.SPECIAL):
        for d in list(range(13)) + [14]:
            for control in range(4):
                for x in range(8):
                    k += 1
                    if k % n == shard:
                        st = [0xffffffff] * 13 + [0x20001ff0 + 4 * x, 0x2000fffc, 0xffffffff, 0x100,
                              (0xffffffff, 0, 0xf80001ff, 0x07fffe00, 0xa8000155, 0x500000aa, 0x01000000, 0x080f0100)[x],
                              control, x & 1, x >> 1 & 1, x * 36 & 255, 0, 0, 0]
                        yield (y, d, control, x), dict(w=ref.BY_NAME['mrs'].make(dict(d=d, y=y)), b=32, st=st)
    if shard == 0:
        for j in range(2):
            for a in range(1, 4):
                for x in range(16):
                    st = [1] * 13 + [0, 0, 0, 0x100, 0xffffffff, x >> 2, x & 1, x >> 1 & 1, 255, 0, 0, 0]
                    yield ('cps', j, a, x), dict(w=ref.BY_NAME['cps'].make(dict(j=j, I=a & 1, F=a >> 1)), b=16, st=st)


SYSM = sorted(ref.SPECIAL)
OTHERS = [e for e in cpu.encs_of('system') if e.name not in ('mrs', 'cps')]


def gen(d):
    k = d.choice(8)
    if k == 0:
        w, b = cpu.gen_insn(d, OTHERS)
    elif k < 3:
        a = d.int(1, 3)
        w, b = ref.BY_NAME['cps'].make(dict(j=d.choice(2), I=a & 1, F=a >> 1)), 16
    else:
        w, b = ref.BY_NAME['mrs'].make(dict(d=d.pick((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14)), y=d.pick(SYSM))), 32
    return dict(w=w, b=b, st=cpu.gen_state(d, ref.decode_word(w, b)), handler=d.choice(2))


def body(case, ctx):
    """In thread mode (as a CPU starts) or in handler mode, which is always privileged."""
    st, w, b = case['st'], case['w'], case['b']
    insn = ref.decode_word(w, b)
    m = cpu.ref_machine(st)
    c, d = cpu.rec_cpu(st)
    if case.get('handler'):
        m.handler = True
        c.mode = cpu.cm()['model'].CpuMode.Handler
    ctx.eq(bool(c.is_privileged), bool(m.privileged), 'is_privileged', 'is_privileged')
    cpu.decode(w, b, st[cpu.S_PC]).execute(c)
    insn.execute(m)
    cpu.compare(ctx, insn, w, m, d)
    ctx.eq(c.mode, cpu.cm()['model'].CpuMode.Handler if m.handler else cpu.cm()['model'].CpuMode.Thread, 'mode', 'mode')
    ctx.label('%s, %s%s' % (insn.mn.split('.')[0][:3], 'handler' if m.handler else 'thread', '' if m.privileged else ' unprivileged'))
    if m.r != st[:13] or m.lr != st[cpu.S_LR] or m.primask != st[cpu.S_PRI] or m.faultmask != st[cpu.S_FAULT]:
        ctx.nontrivial()


PROP = Prop('C12', 'A case is one CPS, MRS, hint or barrier encoding in a generated machine state, executed on the '
            'checked CPU and on the reference machine with all registers compared; plus every special register x '
            'destination x CONTROL value. Non-trivial: CPS and MRS cases that change state other than PC.',
            [Test('exec', gen, body, quick=30000, enum=enum_mrs)],
            assumptions=['no DSP or floating-point extension; the execution priority is not modelled: CPSID f always sets FAULTMASK',
                         'MSR execution, BKPT, SVC and UDF are not implemented by the project and not claimed'])
