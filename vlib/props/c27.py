from vlib import console
from vlib.engine import Prop, Test

READS = {8: ('read8', 'read', 'r', 'rb'), 16: ('read16', 'r16', 'rh'), 32: ('read32', 'r32', 'rw')}
WRITES = {8: ('write8', 'write', 'w', 'wb'), 16: ('write16', 'w16', 'wh'), 32: ('write32', 'w32', 'ww')}
NAMES = console.REGS + list(console.ALIAS)
GPR = ['r%d' % i for i in range(13)]


def gen_case_of(d, s):
    k = d.choice(4)
    return s if k < 2 else s.upper() if k == 2 else s.capitalize()


def gen_number(d, v):
    k = d.choice(8)
    if k < 3:
        t = '0x%x' % v
    elif k < 5:
        t = '%d' % v
    elif k == 5:
        t = '0b' + format(v, 'b')
    elif k == 6:
        t = '0o%o' % v
    else:
        t = '0x%08x' % v
    if d.flag(1, 5) and len(t) > 3:
        i = d.int(3, len(t))
        t = t[:i] + '_' + t[i:]
    return t if d.flag(3, 4) else t.upper()


def gen_addr(d, ram):
    """An address with room for 64 bytes, mostly from a few places so that reads meet writes."""
    base = d.pick((0x100, 0x100, console.RAM, console.RAM + 0x40, 0x8000, 0x10, console.RAM + 0x8000))
    return base + d.choice(48)


def reg_value(d, reg):
    if reg in ('sp', 'msp', 'psp', 'r13'):
        return d.word() & ~3
    if reg in ('primask', 'faultmask'):
        return d.choice(2)
    if reg == 'basepri':
        return d.value(8)
    if reg == 'control':
        return d.choice(4)
    return d.word()


def gen_offset(d, off):
    f = d.choice(6)
    n = abs(off)
    t = ('%d' % n, '%d' % n, hex(n), '0x%04x' % n, oct(n), bin(n))[f]
    t = t.upper() if d.flag(1, 8) else t
    return ('-' if off < 0 else '+' if d.flag(1, 8) else '') + t


def gen_arg(d, v):
    """A way of writing v as an argument: (text, [commands that have to come first], expression)."""
    k = d.choice(6)
    if k < 4:
        return gen_number(d, v), [], v
    if k == 4:
        r = d.pick(GPR + ['lr', 'r14', 's5', 's31', 's0', 'fpscr', 'pc', 'r15', 'xpsr'] + ([] if v & 3 else ['sp', 'r13', 'msp', 'psp']))
        return gen_case_of(d, r), [['wreg', r, v]], ['r', r]
    a = gen_addr(d, None)
    off = d.pick((0, 0, 4, 8, -4, 16, -16, 1, -1, d.choice(512) - 256, d.choice(1 << 16) - (1 << 15)))
    base = a - off
    if base < 0:
        off, base = 4, a - 4
    prior = [['write', 32, a, [v]]]
    if d.flag():
        r = d.pick(GPR)
        prior.append(['wreg', r, base])
        b, e = r, ['r', r]
    else:
        b, e = gen_number(d, base), base
    t = '[%s]' % b if off == 0 and d.flag() else '[%s,%s]' % (b, gen_offset(d, off))
    return t, prior, ['m', e, off]


def spell(d, op):
    """Command text of a resolved operation, preceded by those it depends on; as [op, text] pairs in order."""
    pre = []
    kind = op[0]
    if kind == 'wreg':
        t, p, e = (gen_number(d, op[2]), [], op[2]) if d.flag(3, 4) else gen_arg(d, op[2])
        pre += p
        text = '%s %s %s' % (gen_case_of(d, 'wreg'), gen_case_of(d, op[1]), t)
        op = ['wreg', op[1], e]
    elif kind == 'reg':
        text = gen_case_of(d, op[1]) if d.flag() else '%s %s' % (gen_case_of(d, 'reg'), gen_case_of(d, op[1]))
    elif kind == 'regs':
        text = gen_case_of(d, 'reg')
    elif kind == 'write':
        w, a, vs = op[1:]
        t, p, e = (gen_number(d, a), [], a) if d.flag() else gen_arg(d, a)
        text = '%s %s' % (gen_case_of(d, d.pick(WRITES[w])), t)
        args = []
        es = list(vs)
        for v in vs:
            args.append(gen_number(d, v))
        if not p and d.flag(1, 4):
            args[0], p, es[0] = gen_arg(d, vs[0])
        pre += p
        text += ''.join(d.pick((' ', ' ', '  ', '\t')) + x for x in args)
        op = ['write', w, e, es]
    else:
        w, a, n = op[1:]
        t, p, e = (gen_number(d, a), [], a) if d.flag() else gen_arg(d, a)
        text = '%s %s' % (gen_case_of(d, d.pick(READS[w])), t)
        if n != w // 8 or d.flag():
            if not p and d.flag(1, 4):
                x, p, n = gen_arg(d, n)
            else:
                x = gen_number(d, n)
            text += ' ' + x
        pre += p
        op = ['read', w, e, n]
    out = []
    for o in pre:
        if o[0] == 'wreg':
            out.append([o, 'wreg %s 0x%x' % (o[1], o[2])])
        else:
            out.append([o, 'w32 0x%x 0x%x' % (o[2], o[3][0])])
    return out + [[op, text]]


def gen_op(d):
    k = d.choice(10)
    if k < 2:
        r = d.pick(NAMES)
        return ['wreg', r, reg_value(d, r)]
    if k < 4:
        return ['reg', d.pick(NAMES)]
    if k == 4:
        return ['regs']
    w = d.pick((8, 16, 32))
    a = gen_addr(d, None)
    # Some accesses end with the last byte of a region.
    end = d.pick((0x10000, console.RAM + 0x10000)) if d.flag(1, 8) else None
    if k < 7:
        vs = [d.value(w) for _ in range(d.size(1, 6, 90))]
        return ['write', w, a if end is None else end - w // 8 * len(vs), vs]
    n = w // 8 if d.flag(1, 3) else w // 8 * d.size(0, 20, 300)
    if end and n:
        a = end - n
    return ['read', w, a, n]


def gen(d):
    image = [console.RAM + 0x1000 & 255, 0x90, 0xff, 0x1f, 0x01, 1, 0, 0] + [d.choice(256) for _ in range(d.choice(24))]
    lines = []
    for _ in range(d.size(1, 8, 100)):
        if lines and d.flag(1, 8):
            lines.append(None)      # a blank line
            continue
        cmds = []
        for _ in range(1 if d.flag() else d.int(1, 4)):
            cmds += spell(d, gen_op(d))
        ops = [c[0] for c in cmds]
        texts = [c[1] for c in cmds]
        if d.flag(1, 5):
            texts.insert(d.choice(len(texts) + 1), d.pick(('', ' ', '\t')))
        if d.flag(1, 3) or len(texts) == 1:
            lines.append([ops, ';'.join(' ' * d.choice(2) + t + ' ' * d.choice(2) for t in texts)])
        elif d.flag():
            lines.append([ops, '; '.join(texts) + ';'])
        else:
            # One command a line.
            for o, t in cmds:
                lines.append([[o], t])
    return dict(image=image, lines=lines, blank=d.pick(('', ' ', '\t ')))


class Unknown(Exception):
    """What a repeated line does is not this property's matter (it has become invalid)."""


class Model(object):
    def __init__(self, image):
        self.regs = dict.fromkeys(console.REGS, 0)
        self.regs['xpsr'] = 0x01000000
        self.regions = console.regions_of(image)
        self.mem = [bytearray(n) for s, n in self.regions]
        self.mem[0][:len(image)] = bytes(image)

    def wreg(self, name, v):
        r = console.ALIAS.get(name, name)
        g = self.regs
        g[r] = v
        active = 'psp' if g['control'] & 2 else 'msp'
        if r == 'sp':
            g[active] = v
        g['sp'] = g[active]

    def place(self, a, size):
        for (s, n), m in zip(self.regions, self.mem):
            if s <= a and a + size <= s + n:
                return m, a - s
        raise Unknown()

    def value(self, e):
        """The value of an argument in this state."""
        if isinstance(e, int):
            return e
        if e[0] == 'r':
            return self.regs[console.ALIAS.get(e[1], e[1])]
        m, o = self.place(self.value(e[1]) + e[2], 4)
        return int.from_bytes(m[o:o + 4], 'little')

    def run(self, op, exp):
        """Applies op; adds what it has to print to exp."""
        k = op[0]
        if k == 'wreg':
            v = self.value(op[2])
            if console.ALIAS.get(op[1], op[1]) in ('sp', 'msp', 'psp') and v & 3 or v > LIMIT.get(op[1], 0xffffffff):
                raise Unknown()
            self.wreg(op[1], v)
        elif k == 'reg':
            exp['reg'].append((op[1], self.regs[console.ALIAS.get(op[1], op[1])]))
        elif k == 'regs':
            exp['all'].append(dict(self.regs))
        elif k == 'write':
            w = op[1]
            a = self.value(op[2])
            vs = [self.value(e) for e in op[3]]
            m, o = self.place(a, len(vs) * w // 8)
            if max(vs) >> w:
                raise Unknown()
            data = b''.join(v.to_bytes(w // 8, 'little') for v in vs)
            m[o:o + len(data)] = data
        else:
            w = op[1]
            a = self.value(op[2])
            n = self.value(op[3])
            if n % (w // 8):
                raise Unknown()
            m, o = self.place(a, n)
            for i in range(0, n, w // 8):
                exp['dump'].append((a + i, w // 4, int.from_bytes(m[o + i:o + i + w // 8], 'little')))


LIMIT = dict(primask=1, faultmask=1, basepri=0xff, control=3)
SHOWN = ['r%d' % i for i in range(13)] + ['sp', 'lr', 'pc', 'xpsr', 'msp', 'psp', 'control', 'primask', 'faultmask', 'basepri']


def body(case, ctx):
    image = bytearray(case['image'])
    m = Model(image)
    lines = [case['blank'] if l is None else l[1] for l in case['lines']]
    ops = []
    last = []
    for l in case['lines']:
        if l is not None:
            last = l[0]
        ops.append(last)
    bad = []

    def at_prompt(n, tool, out):
        if bad:
            return
        if n == 0:
            # Start up is not this property's matter: go on from the state there is.
            for name, v in zip(console.REGS, console.regs_of(tool.cpu)):
                m.regs[name] = v
            for i, b in enumerate(console.mems_of(tool.cpu, m.regions)):
                m.mem[i] = bytearray(b)
            return
        if n > len(lines):
            return
        exp = dict(reg=[], all=[], dump=[])
        try:
            for o in ops[n - 1]:
                m.run(o, exp)
        except Unknown:
            assert case['lines'][n - 1] is None
            bad.append(None)
            ctx.label('repeated-invalid')
            return
        what = 'after %r' % lines[:n][-4:]
        out = console.strip(out)
        dump = console.dumps(out)
        regs = [(g.group(1).lower(), int(g.group(2), 16), int(g.group(3))) for g in map(console.REGLINE.match, out.splitlines()) if g]
        every = [p for p in console.REGPAIR.findall(out)]
        if dump != exp['dump']:
            bad.append((what + ': dump (address, digits, value): got %s, expected %s' % (show(dump), show(exp['dump'])), 'dump'))
        elif regs != [(a, v, v) for a, v in exp['reg']]:
            bad.append((what + ': registers shown: got %s, expected %s' % (regs, exp['reg']), 'reg'))
        else:
            for g in exp['all']:
                mine = {}
                while every and every[0][0] not in mine:
                    k, v = every.pop(0)
                    mine[k] = int(v, 16)
                for r in SHOWN:
                    if mine.get(r) != g[r] and not bad:
                        bad.append((what + ': register list shows %s as %r instead of 0x%x' % (r, mine.get(r), g[r]), 'reglist'))
        if bad:
            return
        now = dict(zip(console.REGS, console.regs_of(tool.cpu)))
        for r in console.REGS:
            if now[r] != m.regs[r]:
                bad.append((what + ': %s is 0x%x, expected 0x%x' % (r, now[r], m.regs[r]), 'state'))
                return
        for (s, k), got, want in zip(m.regions, console.mems_of(tool.cpu, m.regions), m.mem):
            if got != want:
                i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                bad.append((what + ': memory at 0x%x is %s, expected %s' % (s + i, got[i:i + 8].hex(), bytes(want[i:i + 8]).hex()), 'memory'))
                return

    end, n, out = console.session(image, lines, at_prompt)
    if bad and bad[0]:
        ctx.fail(*bad[0])
    ctx.true(n == len(lines) + 1 and end[0] == 'returned', 'the session of %r ends after %d lines: %r' % (lines, n, end), 'end')
    kinds = {o[0] for l in case['lines'] if l for o in l[0]}
    for k in kinds:
        ctx.label(k)
    if None in case['lines']:
        ctx.label('blank')
    if kinds & {'wreg', 'write'} and kinds & {'reg', 'regs', 'read'}:
        ctx.nontrivial()


def show(l):
    return '[%s%s]' % (', '.join('(%x, %d, %x)' % x for x in l[:12]), '...' if len(l) > 12 else '')


PROP = Prop('C27', 'A case is a small binary image and a console session of up to 8 lines (the console of the package built from the '
            'tree): register and memory writes and reads in all aliases, cases, widths, number formats and ways to name a value '
            '(register, dereference with offset), several commands a line, blank lines. At every prompt the output (hex dumps, registers) '
            'and the state of registers and memory are compared with a model. Non-trivial: the session has a write and a read.',
            [Test('sessions', gen, body, quick=3000)],
            assumptions=['addresses are mapped, with room for the access; values fit the width or register', 'SimTool keeps the CPU model in its cpu attribute'],
            setup=console.setup)
