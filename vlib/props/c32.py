import contextlib
import io
import re

from vlib.engine import Prop, Test
from vlib import cpu, dec, ref

NAMES = ['r%d' % i for i in range(13)] + ['sp', 'lr', 'pc']
FIELD = re.compile(r'\b(r1[0-5]|r[0-9]|sp|lr|pc)\s*[=:]\s*(?:0x)?([0-9a-fA-F]+)\b')


EXEC = [cpu.encs_of(k) for k in cpu.EXEC_KINDS]


def gen(d):
    st = cpu.gen_state(d)
    ops = []
    for _ in range(d.size(0, 5, 60)):
        k = d.choice(7)
        if k == 5:
            ops.append([k, d.pick((-4, 13, 16, 17, 18, -1)), d.word()])
        elif k == 6:
            w, b = cpu.gen_insn(d, d.pick(EXEC))
            ops.append([k, b, w])
        else:
            ops.append([k, d.choice(16), d.word()])
    return dict(st=st, ops=ops, mock=d.choice(2), look=d.pick((3, 3, 1, 2)))


def make(case):
    c = cpu.cm()
    st = case['st']
    if case['mock']:
        m = c['model'].CpuModel()
        m.delegate = c['mock'].MockCpuModelDelegate()
        m.write_register('control', st[cpu.S_CONTROL])
        for k, v in cpu.ref_machine(st).regs().items():
            m.delegate.write_register(k, v)
    else:
        m, _ = cpu.rec_cpu(st)
    return m, m.delegate


def state(d):
    return {k: d.read_register(k) for k in cpu.REG_KEYS}


def check_repr(ctx, m, before):
    text = repr(m)
    got = dict(re.findall(r'\b(pc|xpsr)=(?:0x)?([0-9a-fA-F]+)\b', text))
    ctx.eq({k: int(x, 16) for k, x in got.items()}, dict(pc=before[15], xpsr=before[16]),
           'PC and xPSR in %r' % text, 'repr')
    rest = re.search(r'\[([^\]]*)\]', text)
    ctx.true(rest is not None, 'no register list in %r' % text, 'repr')
    ctx.eq([int(x, 16) for x in rest.group(1).split()], [before[k] for k in range(15)],
           'registers in %r' % text, 'repr')
    ctx.eq(state(m.delegate), before, 'state after a representation', 'changed')


def body(case, ctx):
    m, d = make(case)
    for kind, r, v in [(2, 0, 0)] + case['ops']:
        if kind == 0:
            m.r[r] = v
        elif kind == 1:
            m.write_register('xpsr', v)
        elif kind == 3:
            # By the model again, but the same PC.
            m.sp = v
        elif kind in (4, 5):
            # In the back end, behind the model's back.
            d.write_register(r, v)
        elif kind == 6:
            d.write_register(15, d.read_register(15) & ~1)
            cpu.decode(v, r).execute(m)
        before = state(d)
        for _ in range(2):
            if not case['look'] & 1:
                # Only representations in this history.
                check_repr(ctx, m, before)
                continue
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                m.dump()
            shown = FIELD.findall(out.getvalue())
            ctx.eq(sorted(n for n, _ in shown), sorted(NAMES), 'registers in the dump', 'dump-names')
            for n, x in shown:
                k = NAMES.index(n)
                ctx.eq(int(x, 16), before[k], '%s in the dump' % n, 'dump')
                ctx.eq(len(x), 8, 'digits of %s in the dump' % n, 'dump-width')
            if case['look'] & 2:
                check_repr(ctx, m, before)
            after = state(d)
            ctx.eq(after, before, 'state after a dump', 'changed')
    if case['ops']:
        ctx.label('written between')
    ctx.nontrivial()


def gen_insn(d):
    w, b = dec.gen_valid(d)
    return dict(w=w, b=b, a=dec.gen_addr(d))


def body_insn(case, ctx):
    w, b = case['w'], case['b']
    try:
        i = cpu.decode(w, b, case['a'])
    except cpu.cm()['decoder'].UnpredictableError:
        return
    desc = dec.describe(i)
    text = repr(i)
    words = text.strip('<>').split()
    ctx.true(i.mnemonic in words, 'no mnemonic %s in %r' % (i.mnemonic, text), 'insn-repr')
    raw = ref.to_bytes(w, b)
    want = '%0*x' % (2 * len(raw), int.from_bytes(raw, 'little'))
    ctx.true(want in words, 'encoding %s is not in %r' % (want, text), 'insn-repr')
    ctx.eq(dec.describe(i), desc, 'instruction after repr()', 'insn-changed')
    ctx.nontrivial()


PROP = Prop('C32', 'A case is a machine state on the mock or recording back end with up to five register writes, changes in the back end and executed instructions between dumps: '
            'each dump and representation is read back and compared with all registers; or one instruction whose '
            'representation is read. Non-trivial: all states; instructions that decode.',
            [Test('cpu', gen, body, quick=4000), Test('insn', gen_insn, body_insn, quick=8000)],
            assumptions=['the text is read by labels and hex numbers: layout, order and spacing are free'])
