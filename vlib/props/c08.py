from vlib.engine import Prop, Test
from vlib import cpu, ref

# Register shifts get their own test: amounts 0 to 255 times corner values.
# All 4096 modified immediates of MOV.W and MOVS.W, with both carries.
def enum_imm(shard, n, tier):
    for v in range(shard, 4096, n):
        for s in (0, 1):
            for c in (0, 1):
                e = ref.BY_NAME['mov_imm_w']
                w = e.make(dict(j=v >> 11, k=v >> 8 & 7, i=v & 255, s=s, d=v % 13))
                st = [0x11111111 * (i + 1) for i in range(13)] + [0x100, 0x200, 5, 0x400,
                      c << 29 | (v & 1) << 28 | 0x01000000 | (v & 3) << 30, 0, 0, 0, 0, 0, 7, 9]
                yield (v, s, c), dict(w=w, b=32, st=st)


# Every register shift amount with every kind of shift, on corner values.
def enum_amounts(shard, n, tier):
    vals = (0, 1, 0x80000000, 0xffffffff, 0x7fffffff, 0x80000001, 0x12345678, 0xfedcba98)
    for a in range(shard, 256, n):
        for name in ('lsls_reg', 'lsrs_reg', 'asrs_reg', 'rors_reg'):
            for v in vals:
                for c in (0, 1):
                    w = ref.BY_NAME[name].make(dict(d=3, m=5))
                    st = [0] * 13 + [0x100, 0x200, 5, 0x400, c << 29 | (1 - c) << 28, 0, 0, 0, 0, 0, 0, 0]
                    st[3] = v
                    st[5] = a | (v & 0xffff00) << 8
                    yield (a, name, v, c), dict(w=w, b=16, st=st)


def enum_all(shard, n, tier):
    for x in enum_imm(shard, n, tier):
        yield x
    for x in enum_amounts(shard, n, tier):
        yield x


PROP = Prop('C08', 'A case is one supported logical, shift, move, extend, reverse or test encoding with generated '
            'fields and a complete generated machine state, executed on the checked CPU and on the reference machine; '
            'plus all modified immediates of MOV.W/MOVS.W and all register shift amounts on corner values. '
            'Non-trivial: state other than PC changes.',
            [Test('exec', cpu.exec_gen(cpu.encs_of('logic')), cpu.exec_body(), quick=90000, enum=enum_all),
             Test('shift_reg', cpu.exec_gen(cpu.encs_of('shift_reg')), cpu.exec_body(), quick=30000)],
            assumptions=['the reference machine in vlib/ref.py states the ARMv7-M definitions'])
