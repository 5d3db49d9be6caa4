from vlib.engine import Prop, Test
from vlib import cpu

M32 = cpu.M32
NAMES = {'r%d' % i: i for i in range(16)}
NAMES.update(sp=13, lr=14, pc=15, xpsr=16, msp=17, psp=18, control=-4, faultmask=-3, basepri=-2, primask=-1, fpscr=33)
NAMES.update({'s%d' % i: 0x40 + i for i in range(32)})
NAME_LIST = sorted(NAMES)
# The stack pointers and CONTROL come up often.
NAME_PICK = NAME_LIST + ['sp', 'msp', 'psp', 'r13'] * 4 + ['control'] * 14 + ['xpsr', 'primask', 'faultmask', 'basepri'] * 2
PROPS = {'pc': 15, 'lr': 14, 'sp': 13, 'msp': 17, 'psp': 18, 'xpsr': 16}
FLAG_BITS = dict(n=31, z=30, c=29, v=28)


class Model(object):
    def __init__(self, init):
        self.v = dict(init)
        self.mode = 'Thread'

    def bank(self):
        return 18 if self.v[-4] & 2 else 17

    def read(self, i):
        return self.v[self.bank() if i == 13 else i]

    def write(self, i, x):
        x &= M32
        if i == 13:
            i = self.bank()
        if i in (17, 18):
            x &= ~3
        elif i in (-1, -3):
            x &= 1
        elif i == -2:
            x &= 0xff
        self.v[i] = x


def gen(d):
    n = d.int(1, 2)
    ops = []
    for _ in range(d.size(2, 30, 300)):
        k = d.choice(11)
        c = d.choice(n)
        form = d.choice(4)
        v = d.word()
        if k < 3:
            name = d.pick(NAME_PICK)
            case = d.choice(4)
            if case == 3:
                b = d.choice(1 << len(name))
                mixed = ''.join(x.upper() if b >> j & 1 else x for j, x in enumerate(name))
            ops.append(['name', c, (name, name.upper(), name.capitalize(), mixed if case == 3 else '')[case], v, form])
        elif k == 3:
            ops.append(['index', c, NAMES[d.pick(NAME_PICK)], v, form])
        elif k == 4:
            ops.append(['r', c, d.choice(16), v, form])
        elif k == 5:
            ops.append(['s', c, d.choice(32), v, form])
        elif k == 6:
            ops.append(['prop', c, d.pick(sorted(PROPS)), v, form])
        elif k == 7:
            ops.append(['flag', c, d.pick('nzcv'), d.choice(2), form])
        elif k == 8:
            ops.append(['bad', c, d.pick(['r', 's']), d.pick([-1, -2, -5, 16, 17, 18, 32, 33, 64, 80, 95, 96, 0x40, 100, -64, 31, 20])])
        elif k == 10:
            ops.append(['mode', c, d.pick(('Thread', 'Handler'))])
        else:
            ops.append(['alias', c, d.pick(NAME_LIST), d.choice(32)])
    return dict(n=n, ops=ops, look=d.choice(3))


def make(n):
    c = cpu.cm()
    out = []
    for _ in range(n):
        d = c['mock'].MockCpuModelDelegate()
        m = c['model'].CpuModel()
        m.delegate = d
        out.append((m, d))
    return out


def value(v, form):
    """As an int, as a bit string, or as an int congruent modulo 2^32, also a negative one."""
    bs = cpu.cm()['bitstring'].bitstring
    if form == 1:
        return bs(v, 32)
    if form == 2:
        return v + ((v & 3) << 32) if v & 4 else v
    if form == 3:
        return v - (1 << 32)
    return v


def check_all(ctx, cpus, models, after):
    bs = cpu.cm()['bitstring'].bitstring

    def eq(got, want, width, what):
        ctx.true(isinstance(got, bs), '%s after %s: %r is not a bit string' % (what, after, got), 'type')
        if (got.unsigned, got.width) != (want, width):
            ctx.fail('%s after %s is 0x%x (%d bits) instead of 0x%x (%d bits)'
                     % (what, after, got.unsigned, got.width, want, width), what.split('[')[0].strip('0123456789'))
    for x, ((m, d), model) in enumerate(zip(cpus, models)):
        for i in range(16):
            eq(m.r[i], model.read(i), 32, 'r[%d]' % i)
        for i in range(32):
            eq(m.s[i], model.read(0x40 + i), 32, 's[%d]' % i)
        for p, i in PROPS.items():
            eq(getattr(m, p), model.read(i), 32, p)
        eq(m.control, model.read(-4), 32, 'control')
        for name in ('primask', 'faultmask', 'basepri', 'fpscr', 'r13', 'SP', 'Lr', 'R15', 'mSP', 'BasePri', 'xPSR', 'faultMask'):
            eq(m.read_register(name), model.read(NAMES[name.lower()]), 32, name)
        for f, b in FLAG_BITS.items():
            eq(getattr(m.apsr, f), model.read(16) >> b & 1, 1, 'apsr.' + f)
        eq(m.ipsr, model.read(16) & 0x1ff, 9, 'ipsr')
        ctx.eq(m.mode.name, model.mode, 'mode after %s' % (after,), 'mode')
        ctx.eq(m.is_privileged, model.mode == 'Handler' or not model.read(-4) & 1, 'is_privileged after %s' % (after,), 'is_privileged')


def check_new(ctx, m):
    for name in NAME_LIST:
        ctx.eq(m.read_register(name).unsigned, 0x01000000 if name == 'xpsr' else 0, '%s of a new CPU' % name, 'new')


def body(case, ctx):
    bs = cpu.cm()['bitstring'].bitstring
    cpus = make(case['n'])
    models = [Model({i: m.read_register(i).unsigned for i in NAMES.values()}) for m, _ in cpus]
    for m, _ in cpus:
        check_new(ctx, m)
    switches = writes = 0
    ops, look = case['ops'], case.get('look', 0)
    for op in ops:
        kind, x = op[0], op[1]
        m, model = cpus[x][0], models[x]
        if kind == 'name':
            i = NAMES[op[2].lower()]
            was = model.bank()
            model.write(i, op[3])
            m.write_register(op[2], value(op[3], op[4]))
            switches += model.bank() != was
        elif kind == 'index':
            was = model.bank()
            model.write(op[2], op[3])
            m.write_register(op[2], value(op[3], op[4]))
            switches += model.bank() != was
        elif kind == 'r':
            model.write(op[2], op[3])
            m.r[op[2]] = value(op[3], op[4])
        elif kind == 's':
            model.write(0x40 + op[2], op[3])
            m.s[op[2]] = value(op[3], op[4])
        elif kind == 'prop':
            model.write(PROPS[op[2]], op[3])
            setattr(m, op[2], value(op[3], op[4]))
        elif kind == 'flag':
            b = FLAG_BITS[op[2]]
            model.write(16, model.read(16) & ~(1 << b) | op[3] << b)
            setattr(m.apsr, op[2], bs(op[3], 1) if op[4] == 1 else op[3])
        elif kind == 'bad':
            limit = 16 if op[2] == 'r' else 32
            if not 0 <= op[3] < limit:
                view = m.r if op[2] == 'r' else m.s
                for what in ('read', 'write'):
                    try:
                        if what == 'read':
                            view[op[3]]
                        else:
                            view[op[3]] = 0x55
                    except (KeyError, IndexError):
                        continue
                    ctx.fail('%s of %s[%d] is no error' % (what, op[2], op[3]), 'bounds')
                ctx.label('bounds')
        elif kind == 'mode':
            # Registers do not depend on it.
            model.mode = op[2]
            m.mode = cpu.cm()['model'].CpuMode[op[2]]
        elif kind == 'alias':
            # What a read returns is a copy.
            v = m.read_register(op[2])
            v[op[3]] = bs(1 - v[op[3]].unsigned, 1)
            w = m.xpsr
            w[31] = bs(1 - w[31].unsigned, 1)
        writes += kind not in ('bad', 'alias', 'mode')
        # Looking at a register could itself change what is seen next, so some histories are only looked at here
        # and there or at the end.
        if look == 0 or look == 1 and op is not ops[-1] and (len(ops) + op[1] + writes) % 4 == 0:
            check_all(ctx, cpus, models, op)
    if look:
        check_all(ctx, cpus, models, ops[-1])
        ctx.label('quiet')
    if switches:
        ctx.label('sp-switch')
    if len(cpus) > 1:
        ctx.label('two-cpus')
    if writes >= 2:
        ctx.nontrivial()


def gen_all(d):
    return dict(v=[d.word() for _ in range(len(NAME_LIST))], perm=d.choice(1 << 20), ctl=d.choice(4))


def body_all(case, ctx):
    """Every register gets a value of its own, in some order, then all are read."""
    cpus = make(1)
    m = cpus[0][0]
    model = Model({i: m.read_register(i).unsigned for i in NAMES.values()})
    order = list(range(len(NAME_LIST)))
    p = case['perm']
    for i in range(len(order) - 1, 0, -1):
        p = (p * 1103515245 + 12345) & 0x7fffffff
        j = (p >> 8) % (i + 1)
        order[i], order[j] = order[j], order[i]
    for k in order:
        v = case['ctl'] if NAME_LIST[k] == 'control' else case['v'][k]
        model.write(NAMES[NAME_LIST[k]], v)
        m.write_register(NAME_LIST[k], v)
    check_all(ctx, cpus, [model], 'writing all registers')
    for n in NAME_LIST:
        ctx.eq(m.read_register(n).unsigned, model.read(NAMES[n]), n)
    ctx.nontrivial()


PROP = Prop('C16', 'A case is a history of 2 to 30 register accesses through names (any case, aliases), numbers, indexed '
            'views, properties and flag views over one or two CPUs, with every view of every register compared with a '
            'model after each step; or all registers written in a random order. Non-trivial: two or more writes.',
            [Test('history', gen, body, quick=3600), Test('all', gen_all, body_all, quick=3000)],
            assumptions=['unknown register names are not part of the claim', 'CONTROL keeps all bits written'])
