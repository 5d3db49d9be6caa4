from vlib.engine import Prop, Test
from vlib import cpu, ref


# Every condition with every flag setting, all offsets (sharded).
def enum_cond(shard, n, tier):
    for i in range(shard, 256, n):
        for c in range(14):
            for fl in range(16):
                w = 0xd000 | c << 8 | i
                pc = ((i * 7919 + c * 104729 + fl * 1299709) * 2) & 0xfffffffe
                st = [x * 0x01010101 for x in range(13)] + [0x100, 0x200, 0xdeadbeef, pc, fl << 28 | 0x01000000,
                                                            0, 0, 0, 0, 0, 1, 1]
                yield (i, c, fl), dict(w=w, b=16, st=st)
    for i in range(shard, 2048, n):
        w = 0xe000 | i
        st = [5] * 13 + [0x100, 0x200, 0xdeadbeef, i * 2 * 1048573 & 0xfffffffe, 0x01000000, 0, 0, 0, 0, 0, 1, 1]
        yield ('b', i), dict(w=w, b=16, st=st)


PROP = Prop('C09', 'A case is one branch (conditional, unconditional, with link, to register) with generated offset or '
            'register, flags and machine state, executed on the checked CPU and on the reference machine; plus all '
            'conditions x flags x offsets of the 16-bit conditional branch and all offsets of the unconditional one. '
            'Non-trivial: a branch is taken, or a conditional one is not.',
            [Test('exec', cpu.exec_gen(cpu.encs_of('branch')), cpu.exec_body(always=True), quick=60000, enum=enum_cond)],
            assumptions=['the reference machine in vlib/ref.py states the ARMv7-M definitions'])
