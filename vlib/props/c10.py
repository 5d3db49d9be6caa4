from vlib.engine import Prop, Test
from vlib import cpu

PROP = Prop('C10', 'A case is one supported load or store encoding with generated fields and a machine state over a '
            '4 GB sparse memory with address-dependent content, executed on the checked CPU and on the reference '
            'machine; the recorded memory accesses (address, size, value), all registers and memory are compared. '
            'Non-trivial: a store, or a load that changes its destination.',
            [Test('exec', cpu.exec_gen(cpu.encs_of('load', 'store')), cpu.exec_body(), quick=100000)],
            assumptions=['the reference machine in vlib/ref.py states the ARMv7-M definitions',
                         'bit 0 of a value loaded to PC may be kept or cleared'])
