"""Shared pieces of the execution checks: generators of instructions and machine states, a strict
recording back end for the checked CPU model, and the comparison with the reference machine."""
import operator

from vlib import ref

M32 = 0xffffffff
REG_KEYS = list(range(19)) + [-4, -3, -2, -1, 33] + list(range(0x40, 0x60))
REG_LABEL = {13: 'sp', 14: 'lr', 15: 'pc', 16: 'xpsr', 17: 'msp', 18: 'psp', -4: 'control', -3: 'faultmask',
             -2: 'basepri', -1: 'primask', 33: 'fpscr'}
REG_LABEL.update({i: 'r%d' % i for i in range(13)})
REG_LABEL.update({0x40 + i: 's%d' % i for i in range(32)})

_mods = {}


def cm():
    """The checked package's modules."""
    if not _mods:
        import cmdis.disasm
        import cmdis.decoder
        import cmdis.formatter
        import cmdis.model
        import cmdis.mock_cpu
        import cmdis.bitstring
        import cmdis.helpers
        import cmdis.utilities
        import cmdis.registers
        _mods.update(disasm=cmdis.disasm, decoder=cmdis.decoder, formatter=cmdis.formatter, model=cmdis.model,
                     mock=cmdis.mock_cpu, bitstring=cmdis.bitstring, helpers=cmdis.helpers,
                     utilities=cmdis.utilities, registers=cmdis.registers)
        _mods['Rec'] = make_rec(cmdis.model.CpuModelDelegate)
    return _mods


# ------------------------------------------------------------------ memory
class BgMem(object):
    """Sparse memory over a background that is a function of the address."""
    __slots__ = ('bg', 'd')

    def __init__(self, bg, d=None):
        self.bg = bg
        self.d = dict(d or {})

    def byte(self, a):
        v = self.d.get(a)
        if v is None:
            x = (a * 0x9e3779b1 + self.bg * 0x85ebca6b) & M32
            v = ((x >> 15) ^ (x >> 7) ^ x >> 24) & 0xff
        return v

    def load(self, a, n):
        v = 0
        for i in range(n):
            v |= self.byte((a + i) & M32) << 8 * i
        return v

    def store(self, a, v, n):
        for i in range(n):
            self.d[(a + i) & M32] = v >> 8 * i & 0xff


class RegionMem(object):
    """Memory with mapped regions, as the mock CPU has: outside reads zero, writes are dropped."""
    def __init__(self, regions):
        self.regions = [(s, bytearray(n)) for s, n in regions]

    def find(self, a):
        for s, data in self.regions:
            if s <= a < s + len(data):
                return data, a - s
        return None, 0

    def load(self, a, n):
        v = 0
        data, o = self.find(a)
        if data is not None:
            for i in range(n):
                if o + i < len(data):
                    v |= data[o + i] << 8 * i
        return v

    def store(self, a, v, n):
        data, o = self.find(a)
        if data is not None:
            for i in range(n):
                if o + i < len(data):
                    data[o + i] = v >> 8 * i & 0xff


def make_rec(base):
    class Rec(base):
        """Recording back end. Register numbering is that of the project's register table."""
        def __init__(self, mem):
            base.__init__(self)
            self.mem = mem
            self.regs = {}
            self.log = []
            self.bad = []
            self.wide = []

        def read_register(self, reg):
            if type(reg) is not int or reg not in self.regs:
                self.bad.append('read_register(%r)' % (reg,))
                reg = operator.index(reg)
            if reg == 13:
                reg = 18 if self.regs[-4] & 2 else 17
            return self.regs[reg]

        def write_register(self, reg, value):
            if type(reg) is not int or reg not in self.regs or type(value) is not int or not 0 <= value <= M32:
                self.bad.append('write_register(%r, %r)' % (reg, value))
                reg = operator.index(reg)
            value = operator.index(value) & M32
            if reg == 13:
                reg = 18 if self.regs[-4] & 2 else 17
            if reg in (17, 18):
                value &= ~3
            elif reg in (-1, -3):
                value &= 1
            elif reg == -2:
                value &= 0xff
            self.regs[reg] = value

        def read_memory(self, addr, size=32):
            if type(addr) is not int or not 0 <= addr <= M32 or size not in (8, 16, 32):
                self.bad.append('read_memory(%r, %r)' % (addr, size))
            addr = self.narrow(addr)
            size = operator.index(size)
            self.log.append(('r', addr, size // 8 if size % 8 == 0 else '%d bits' % size))
            return self.mem.load(addr, size // 8)

        def write_memory(self, addr, value, size=32):
            if type(addr) is not int or not 0 <= addr <= M32 or size not in (8, 16, 32) or \
                    type(value) is not int or not 0 <= value < 1 << size:
                self.bad.append('write_memory(%r, %r, %r)' % (addr, value, size))
            addr = self.narrow(addr)
            size = operator.index(size)
            value = operator.index(value) & ((1 << size) - 1)
            self.log.append(('w', addr, size // 8 if size % 8 == 0 else '%d bits' % size, value))
            self.mem.store(addr, value, size // 8)

        def read_memory_block(self, addr, length):
            if type(addr) is not int or not 0 <= addr <= M32 or type(length) is not int or length < 0:
                self.bad.append('read_memory_block(%r, %r)' % (addr, length))
            addr = self.narrow(addr)
            self.log.append(('rb', addr, operator.index(length)))
            return bytearray(self.mem.byte((addr + i) & M32) for i in range(operator.index(length)))

        def write_memory_block(self, addr, data):
            if type(addr) is not int or not 0 <= addr <= M32 or any(type(b) is not int for b in data):
                self.bad.append('write_memory_block(%r, %r)' % (addr, data))
            addr = self.narrow(addr)
            self.log.append(('wb', addr, bytes(bytearray(data))))
            for i, b in enumerate(bytearray(data)):
                self.mem.store((addr + i) & M32, b, 1)

        def narrow(self, addr):
            addr = operator.index(addr)
            if not 0 <= addr <= M32:
                self.wide.append(addr)
            return addr & M32

        def dump(self):
            d = dict(self.regs)
            d[13] = d[18] if d[-4] & 2 else d[17]
            return d
    return Rec


# ------------------------------------------------------------------ states
# A state is a list: r0..r12, msp, psp, lr, pc, xpsr, control, primask, faultmask, basepri, fpscr, sseed, bg
S_MSP, S_PSP, S_LR, S_PC, S_XPSR, S_CONTROL, S_PRI, S_FAULT, S_BASEPRI, S_FPSCR, S_SSEED, S_BG = range(13, 25)
S_MODE = 25  # optional: handler mode


def ref_machine(st, mem=None):
    m = ref.Machine(mem if mem is not None else BgMem(st[S_BG]))
    m.r = list(st[:13])
    m.msp, m.psp, m.lr, m.pc, m.xpsr, m.control, m.primask, m.faultmask, m.basepri, m.fpscr = st[13:23]
    m.s = [(st[S_SSEED] * (i + 3) * 2654435761) & M32 for i in range(32)]
    m.handler = handler_mode(st)
    return m


def handler_mode(st):
    return len(st) > S_MODE and bool(st[S_MODE])


def gen_mode(d, st):
    """Makes some states ones of handler mode (in which CONTROL selects the main stack pointer)."""
    if d.flag(1, 6):
        if st[S_CONTROL] & 2:
            st[S_CONTROL] &= 1
            st[S_MSP], st[S_PSP] = st[S_PSP], st[S_MSP]
        st.append(1)
    return st


def set_mode(cpu, st):
    if handler_mode(st):
        cpu.mode = cm()['model'].CpuMode.Handler


def rec_cpu(st, mem=None):
    """A CpuModel on a recording back end in the given state."""
    c = cm()
    d = c['Rec'](mem if mem is not None else BgMem(st[S_BG]))
    d.regs = ref_machine(st, d.mem).regs()
    cpu = c['model'].CpuModel()
    cpu.delegate = d
    set_mode(cpu, st)
    return cpu, d


def gen_state(d, insn=None):
    """Machine state with corner-biased values in the registers that the instruction uses."""
    used = set()
    if insn is not None:
        for o in insn.ops:
            collect(o, used)
    st = []
    for i in range(13):
        st.append(d.word() if i in used or insn is None else d.choice(1 << 32))
    sp = d.word() & ~3
    other = sp if d.flag(1, 12) else d.choice(1 << 30) << 2
    control = d.choice(4)
    st += [sp, other] if not control & 2 else [other, sp]
    st.append(d.word() if 14 in used or insn is None else d.choice(1 << 32))
    pc = d.pick((0x100, 0x102, 0, 2, 0xfffffffc, 0xfffffffe, 0x8000, 0x7ffffffe)) if d.flag(1, 3) \
        else d.choice(1 << 31) << 1
    st.append(pc)
    st.append(d.choice(16) << 28 | (d.choice(1 << 28) if d.flag() else 0x01000000))
    st += [control, d.choice(2), d.choice(2), d.choice(256), d.choice(1 << 32), d.choice(1 << 32), d.choice(1 << 32)]
    if insn is not None:
        regs = [o[1] for o in insn.ops if o[0] == 'reg' and o[1] < 13]
        if insn.kind == 'shift_reg' and regs[0] != regs[-1]:
            k = d.choice(4)
            if k:
                n = (d.choice(34), d.pick((0, 1, 31, 32, 33, 63, 64, 65, 96, 127, 128, 224, 255)), d.choice(256))[k - 1]
                st[regs[-1]] = n | (d.choice(1 << 24) << 8 if d.flag() else 0)
        elif len(regs) >= 2 and d.flag(1, 4):
            # Related operands: equal, negated, inverted, off by one, reflected about the sign bit.
            x = st[regs[-2]]
            st[regs[-1]] = d.pick((x, -x, ~x, x + 1, x - 1, -x - 2, x ^ 0x80000000, 0x80000000 - x,
                                   0x7fffffff - x, -x + 1)) & M32
        elif insn.kind in ('load', 'store') and insn.ops[1][1][0][1] == ref.SP:
            pass
    return st


def collect(o, used):
    if o[0] == 'reg':
        used.add(o[1])
    elif o[0] == 'mem':
        for x in o[1]:
            collect(x, used)


# ------------------------------------------------------------------ instructions
REGISTER_FIELDS = 'dmntDN'


def gen_fields(d, e):
    f = {}
    regs = []
    for k in sorted(e.fields):
        n = len(e.fields[k])
        if n >= 7 and d.flag(1, 2):
            v = d.value(n)
        elif n == 5 and d.flag(1, 4):
            v = d.pick((0, 31, 1, 16))
        elif regs and n in (3, 4) and k in REGISTER_FIELDS and d.flag(1, 5):
            v = d.pick(regs) & ((1 << n) - 1)
        else:
            v = d.choice(1 << n)
        if k in REGISTER_FIELDS and n in (3, 4):
            regs.append(v)
        f[k] = v
    return f


def gen_insn(d, encs, executable=True):
    """(word, bits) of a defined instruction made from one of the encodings."""
    for _ in range(12):
        e = encs[d.choice(len(encs))]
        w = e.make(gen_fields(d, e))
        i = ref.decode_word(w, e.bits)
        if isinstance(i, ref.Insn) and (i.exec_ok or not executable):
            return w, e.bits
    return 0x2000, 16


KINDS = {}


def encs_of(*kinds):
    """Encodings whose instructions are of these kinds (found by building samples of each)."""
    if not KINDS:
        for e in ref.ENCODINGS:
            for probe in range(64):
                f = {k: (probe * 7 + 3 + i) % (1 << len(p)) for i, (k, p) in enumerate(sorted(e.fields.items()))}
                r = e.build(f)
                if isinstance(r, ref.Insn):
                    KINDS.setdefault(r.kind, []).append(e)
                    break
            else:
                if e.name not in NO_PROBE:
                    raise AssertionError('no sample of ' + e.name)
                KINDS.setdefault(NO_PROBE[e.name], []).append(e)
    out = []
    for k in kinds:
        out += KINDS[k]
    return out


NO_PROBE = {'mrs': 'system', 'msr': 'msr', 'cps': 'system', 'rev_w': 'logic', 'rev16_w': 'logic', 'revsh_w': 'logic'}
EXEC_KINDS = ('arith', 'logic', 'shift_reg', 'adr', 'branch', 'load', 'store', 'multi', 'system')


def decode(word, bits, address=0):
    return cm()['disasm'].decoder.decode(bytearray(ref.to_bytes(word, bits)), address)


# ------------------------------------------------------------------ comparison
def loose_pc(insn):
    """Loads of PC and MOV PC: whether bit 0 of the stored PC is kept is not part of the claim."""
    return insn.kind in ('load', 'multi') or insn.mn in ('mov', 'add', 'mov.w')


def diff_regs(got, want, loose=False):
    out = []
    for k in REG_KEYS:
        g, w = got.get(k), want.get(k)
        if k == 15 and loose:
            g, w = g & ~1, w & ~1
        if g != w:
            if k == 16:
                out.append('xpsr 0x%08x instead of 0x%08x (NZCV %s instead of %s)'
                           % (g, w, format(g >> 28, '04b'), format(w >> 28, '04b')))
            else:
                out.append('%s 0x%x instead of 0x%x' % (REG_LABEL[k], g, w))
    return out


def describe(insn, word):
    return '%s %s [%0*x]' % (insn.mn, insn.ops, insn.size * 2, word)


def run_and_compare(ctx, word, bits, st, check_log=True, address=None, tag=''):
    """Executes one instruction on the checked CPU and on the reference; raises on a difference."""
    insn = ref.decode_word(word, bits)
    m = ref_machine(st)
    cpu, d = rec_cpu(st)
    i = decode(word, bits, st[S_PC] if address is None else address)
    i.execute(cpu)
    insn.execute(m)
    compare(ctx, insn, word, m, d, check_log, tag)
    return insn, m, d


def compare(ctx, insn, word, m, d, check_log=True, tag=''):
    out = diff_regs(d.dump(), m.regs(), loose_pc(insn))
    if check_log and sorted(d.log) != sorted(m.accesses):
        out.append('memory accesses %s instead of %s' % (sorted(d.log)[:20], sorted(m.accesses)[:20]))
    if check_log and d.wide:
        out.append('address outside of 32 bits: %s' % ', '.join('%#x' % a for a in d.wide[:4]))
    if m.mem.d != d.mem.d:
        diff = sorted(a for a in set(m.mem.d) | set(d.mem.d) if m.mem.byte(a) != d.mem.byte(a))
        if diff:
            out.append('memory differs at %s' % ', '.join('0x%x' % a for a in diff[:8]))
    if out:
        ctx.fail('%s: %s%s' % (describe(insn, word), tag, '; '.join(out)), sig='exec:' + insn.name)


def same(ctx, a, b, what, log=True):
    """Two recording back ends are in the same state (and saw the same accesses)."""
    out = diff_regs(a.dump(), b.dump())
    if log and a.log != b.log:
        out.append('memory accesses %s instead of %s' % (a.log[:20], b.log[:20]))
    if a.mem.d != b.mem.d:
        diff = sorted(x for x in set(a.mem.d) | set(b.mem.d) if a.mem.byte(x) != b.mem.byte(x))
        if diff:
            out.append('memory differs at %s' % ', '.join('0x%x' % x for x in diff[:8]))
    if out:
        ctx.fail('%s: %s' % (what, '; '.join(out)), 'same')


def exec_gen(encs):
    def gen(d):
        w, b = gen_insn(d, encs)
        return dict(w=w, b=b, st=gen_mode(d, gen_state(d, ref.decode_word(w, b))))
    return gen


def exec_body(check_log=True, always=False):
    """Body for one instruction; non-trivial if state other than PC changes (or always)."""
    def body(case, ctx):
        st = case['st']
        insn, m, d = run_and_compare(ctx, case['w'], case['b'], st, check_log)
        ctx.label(insn.mn.split('.')[0])
        if always or m.branched or m.accesses or m.r != st[:13] or m.xpsr != st[S_XPSR] or m.lr != st[S_LR] or \
                m.msp != st[S_MSP] or m.psp != st[S_PSP] or m.primask != st[S_PRI] or m.faultmask != st[S_FAULT]:
            ctx.nontrivial()
    return body


# ------------------------------------------------------------------ pristine copy of the package
MODULES = ('disasm', 'model', 'formatter', 'decoder', 'bitstring', 'helpers', 'utilities', 'registers', 'mock_cpu', 'instructions')


def load_package(path=None):
    """The package loaded once more (from path, or where it was loaded from), as a dict of modules."""
    import importlib
    import sys
    saved = {k: v for k, v in sys.modules.items() if k == 'cmdis' or k.startswith('cmdis.')}
    for k in saved:
        if k != 'cmdis._version' or path:
            del sys.modules[k]
    if path:
        sys.path.insert(0, path)
    try:
        out = {n: importlib.import_module('cmdis.' + n) for n in MODULES}
        if path and not out['disasm'].__file__.startswith(path):
            raise AssertionError('%s is not under %s' % (out['disasm'].__file__, path))
        out['Rec'] = make_rec(out['model'].CpuModelDelegate)
        return out
    finally:
        if path:
            sys.path.remove(path)
        for k in list(sys.modules):
            if k == 'cmdis' or k.startswith('cmdis.'):
                del sys.modules[k]
        sys.modules.update(saved)


def pristine():
    """The checked package loaded once more, with nothing decoded or executed in it yet."""
    return load_package()


def pristine_execute(word, bits, address, regs, mem):
    """(registers, memory dict) after a first-ever decode and execute in a pristine package."""
    c = pristine()
    d = c['Rec'](BgMem(mem.bg, mem.d))
    d.regs = dict(regs)
    cpu = c['model'].CpuModel()
    cpu.delegate = d
    c['disasm'].decoder.decode(bytearray(ref.to_bytes(word, bits)), address).execute(cpu)
    return d


def load_regs(m, regs):
    """Puts a register dump into a reference machine."""
    m.r = [regs[i] for i in range(13)]
    m.lr, m.pc, m.xpsr, m.msp, m.psp = regs[14], regs[15], regs[16], regs[17], regs[18]
    m.control, m.faultmask, m.basepri, m.primask, m.fpscr = regs[-4], regs[-3], regs[-2], regs[-1], regs[33]
    m.s = [regs[0x40 + i] for i in range(32)]
