from vlib.engine import Prop, Test
from vlib import cpu, dec, ref

LABEL_ENCS = [e for e in ref.ENCODINGS if e.name in ('adr', 'adr_w_sub', 'adr_w_add', 'b_cond', 'b', 'bl')]
M32 = cpu.M32


def gen_label_addr(d):
    k = d.choice(4)
    if k == 0:
        return d.choice(64) * 2
    if k == 1:
        return (0xffffff80 + 2 * d.choice(64)) & M32
    if k == 2:
        return d.pick((0x7ffffffe, 0x80000000, 0x1000, 0x1002, 0x1004, 0x01000000, 0xff000002))
    return d.choice(1 << 31) * 2


def gen(d):
    e = d.pick(LABEL_ENCS)
    w, b = cpu.gen_insn(d, [e])
    if ref.decode_word(w, b).name != e.name:
        w = e.make({k: 0 for k in e.fields})
    return dict(w=w, b=b, addr=gen_label_addr(d), flags=d.choice(16), st=cpu.gen_state(d))


def label_of(ops):
    got = [o for o in ops if o.startswith('.')]
    return int(got[0][1:]) if len(got) == 1 else None


def body(case, ctx):
    w, b, addr = case['w'], case['b'], case['addr']
    want = ref.decode_word(w, b)
    st = list(case['st'])
    st[cpu.S_PC] = addr
    if want.name == 'b_cond':
        taken = [f for f in range(16) if ref.cond_holds(w >> 8 & 15, f >> 3, f >> 2 & 1, f >> 1 & 1, f & 1)]
        flags = taken[case['flags'] % len(taken)]
        st[cpu.S_XPSR] = flags << 28 | st[cpu.S_XPSR] & 0x0fffffff
    i = cpu.decode(w, b, addr)
    text = dec.fmt(i)
    c, rec = cpu.rec_cpu(st)
    i.execute(c)
    if want.kind == 'adr':
        target = rec.regs[want.ops[0][1]]
    else:
        target = rec.regs[15]
    hx, mn, ops, comments = ref.parse_text(text)
    label = label_of(ops)
    what = '%r at 0x%x' % (text, addr)
    ctx.true(label is not None, '%s: no label operand' % what, 'label')
    ctx.true(len(comments) == 1, '%s: comment is not one address' % what, 'comment')
    try:
        shown = int(comments[0], 16)
    except ValueError:
        ctx.fail('%s: comment is not an address' % what, 'comment')
    ctx.true(0 <= shown <= M32, '%s: shown address is out of range' % what, 'comment')
    ctx.eq(shown & ~1, target & ~1, '%s: shown address against the executed one' % what, 'target')
    ctx.eq(label & M32, (shown - addr) & M32, '%s: relative label' % what, 'label')
    # and both are what the architecture says
    t = ref.label_target([o for o in want.ops if o[0] == 'label'][0], addr) & M32
    ctx.eq(shown, t, '%s: shown address against the reference' % what, 'target')
    ctx.label(want.name)
    if not 0 <= addr + 4 + label <= M32:
        ctx.label('wraps')
    if addr & 2:
        ctx.label('addr%4==2')
    ctx.nontrivial()


def enum16(shard, n, tier):
    addrs = (0, 2, 0x1000, 0x1002, 0xfffffffc, 0xfffffffe, 0x7ffffffe, 0x80000000)
    for e in LABEL_ENCS:
        if e.bits == 16:
            for w in range(shard, 65536, n):
                if w & e.mask == e.match and ref.decode_word(w, 16).name == e.name:
                    for k in range(2 if tier == 'quick' else 8):
                        a = addrs[(w + k * 3) % 8]
                        yield (w, a), dict(w=w, b=16, addr=a, flags=w & 15, st=[w * 0x10001 & M32] * 13 +
                                           [0x1000, 0x2000, 0x77, 0, 0x01000000, 0, 0, 0, 0, 0, 1, w])


def gen_move(d):
    w, b = dec.gen_valid(d)
    if d.flag(1, 3):
        e = d.pick(LABEL_ENCS)
        w, b = cpu.gen_insn(d, [e])
    return dict(w=w, b=b, a1=gen_label_addr(d), a2=gen_label_addr(d))


def body_move(case, ctx):
    w, b = case['w'], case['b']
    o1 = dec.outcome(ref.to_bytes(w, b), case['a1'])
    o2 = dec.outcome(ref.to_bytes(w, b), case['a2'])
    ctx.eq(o1[0] == 'ok', o2[0] == 'ok', '%x decoding at two addresses' % w, 'move')
    if o1[0] != 'ok':
        return
    t1, t2 = ref.parse_text(o1[5]), ref.parse_text(o2[5])
    l1, l2 = label_of(t1[2]), label_of(t2[2])
    if l1 is None:
        ctx.eq(o2[5], o1[5], 'text after moving from 0x%x to 0x%x' % (case['a1'], case['a2']), 'move')
    else:
        ctx.eq(t2[:2], t1[:2], 'encoding and mnemonic after moving', 'move')
        ctx.eq([o for o in t2[2] if not o.startswith('.')], [o for o in t1[2] if not o.startswith('.')],
               'operands after moving', 'move')
        want = ref.decode_word(w, b)
        if want.kind == 'branch':
            ctx.eq(l2 & M32, l1 & M32, 'relative label after moving', 'move')
        ctx.label('label')
    if case['a1'] != case['a2']:
        ctx.nontrivial()


PROP = Prop('C05', 'A case is one branch, branch-with-link or ADR encoding at an address, formatted and executed (with flags '
            'that take a conditional branch); or any instruction formatted at two addresses; all 16-bit label '
            'encodings are enumerated at 2 to 8 of eight addresses. Non-trivial: all; for two addresses, that they differ.',
            [Test('target', gen, body, quick=25000, enum=enum16), Test('move', gen_move, body_move, quick=15000)],
            assumptions=['the instruction address is even; bit 0 of an executed branch target is not compared'])
