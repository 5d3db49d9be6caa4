from vlib.engine import Prop, Test
from vlib import cpu, ref
from vlib.props.c16 import NAMES, NAME_LIST, PROPS, FLAG_BITS

M32 = cpu.M32
ALL = [cpu.encs_of(k) for k in cpu.EXEC_KINDS]


def gen(d):
    w, b = cpu.gen_insn(d, d.pick(ALL))
    st = cpu.gen_state(d, ref.decode_word(w, b))
    if d.flag(1, 6):
        st[cpu.S_PC] = d.pick((0xfffffffc, 0xfffffffe, 0, 2))
    return dict(w=w, b=b, st=st)


def body(case, ctx):
    insn = ref.decode_word(case['w'], case['b'])
    c, rec = cpu.rec_cpu(case['st'])
    cpu.decode(case['w'], case['b'], 0).execute(c)
    if rec.bad:
        ctx.fail('%s calls the back end with %s' % (cpu.describe(insn, case['w']), '; '.join(rec.bad[:4])), 'protocol:' + insn.name)
    ctx.label(insn.kind)
    ctx.nontrivial()


def gen_access(d):
    ops, near = [], []
    for _ in range(d.size(2, 20, 300)):
        k = d.choice(16)
        v = d.word()
        f = d.choice(2)
        if k < 2:
            ops.append(['wreg', d.pick(NAME_LIST), v, f])
        elif k == 2:
            ops.append(['rreg', d.pick(NAME_LIST)])
        elif k == 3:
            ops.append(['prop', d.pick(sorted(PROPS)), v, f])
        elif k == 4:
            ops.append([d.pick(['r', 's']), d.choice(16), v, f])
        elif k == 5:
            ops.append(['flag', d.pick('nzcv'), d.choice(2), f])
        elif k == 6:
            near.append(d.pick(near) + d.choice(4) & M32 if near and d.flag() else d.word())
            ops.append(['rmem', near[-1], d.pick((8, 16, 32)), f])
        elif k == 7:
            n = d.pick((8, 16, 32))
            near.append(d.pick(near) + d.choice(4) & M32 if near and d.flag() else d.word())
            ops.append(['wmem', near[-1], n, d.value(n), f, d.choice(2)])
        elif k == 8:
            # The back end changes by itself.
            ops.append(['backreg', NAMES[d.pick(NAME_LIST)], v, d.choice(2)])
        elif k == 9:
            ops.append(['backmem', d.pick(near) if near and d.flag() else d.word(), v, d.choice(2)])
        elif k == 10:
            ops.append(['replace', d.choice(2), d.choice(2)])
        elif k in (11, 12):
            near.append(d.pick(near) + d.choice(4) & M32 if near and d.flag() else d.word())
            if k == 11:
                ops.append(['rblock', near[-1], d.choice(12), f])
            else:
                ops.append(['wblock', near[-1], [d.choice(256) for _ in range(d.choice(8))], f, d.choice(2)])
        else:
            ops.append(['exec'] + list(cpu.gen_insn(d, d.pick(ALL))))
    return dict(sts=[cpu.gen_state(d), cpu.gen_state(d)], ops=ops)


def body_access(case, ctx):
    c = cpu.cm()
    bs = c['bitstring'].bitstring
    recs = [cpu.rec_cpu(st)[1] for st in case['sts']]
    m = c['model'].CpuModel()
    cur = 0
    m.delegate = recs[0]
    changed = visible = False
    obj = {}
    for op in case['ops']:
        rec = recs[cur]
        other = recs[1 - cur]
        saved = (other.dump(), len(other.log), dict(other.mem.d))
        kind = op[0]

        def val(v, f, n=32):
            return bs(v, n) if f else v
        if kind == 'wreg':
            m.write_register(op[1], val(op[2], op[3]))
            ctx.eq(rec.dump()[NAMES[op[1]]], mask(NAMES[op[1]], op[2]), 'back end %s after writing it' % op[1], 'write')
        elif kind == 'rreg':
            got = m.read_register(op[1])
            ctx.eq((got.unsigned, got.width), (rec.dump()[NAMES[op[1]]], 32), 'register %s' % op[1], 'read')
            visible = visible or changed
        elif kind == 'prop':
            setattr(m, op[1], val(op[2], op[3]))
            ctx.eq(rec.dump()[PROPS[op[1]]], mask(PROPS[op[1]], op[2]), 'back end %s after setting it' % op[1], 'write')
            ctx.eq(getattr(m, op[1]).unsigned, rec.dump()[PROPS[op[1]]], op[1], 'read')
        elif kind in ('r', 's'):
            view, base = (m.r, 0) if kind == 'r' else (m.s, 0x40)
            ctx.eq(view[op[1]].unsigned, rec.dump()[base + op[1]], '%s[%d]' % (kind, op[1]), 'read')
            view[op[1]] = val(op[2], op[3])
            ctx.eq(rec.dump()[base + op[1]], mask(base + op[1], op[2]), 'back end %s%d after writing it' % (kind, op[1]), 'write')
            visible = visible or changed
        elif kind == 'flag':
            b = FLAG_BITS[op[1]]
            want = rec.regs[16] & ~(1 << b) | op[2] << b
            setattr(m.apsr, op[1], val(op[2], op[3], 1))
            ctx.eq(rec.regs[16], want, 'back end xpsr after setting %s' % op[1], 'write')
            ctx.eq(getattr(m.apsr, op[1]).unsigned, op[2], 'flag %s' % op[1], 'read')
        elif kind == 'rmem':
            got = m.read_memory(val(op[1], op[3]), op[2])
            ctx.eq((got.unsigned, got.width), (rec.mem.load(op[1], op[2] // 8), op[2]), '%d-bit read at 0x%x' % (op[2], op[1]), 'read')
            ctx.eq(rec.log[-1], ('r', op[1], op[2] // 8), 'call received', 'call')
            visible = visible or changed
        elif kind == 'wmem':
            if op[5]:
                getattr(m, 'write%d' % op[2])(val(op[1], op[4]), val(op[3], op[4], op[2]))
            else:
                m.write_memory(val(op[1], op[4]), val(op[3], op[4], op[2]), op[2])
            ctx.eq(rec.log[-1], ('w', op[1], op[2] // 8, op[3]), 'call received', 'call')
        elif kind == 'rblock':
            got = m.read_memory_block(val(op[1], op[3]), op[2])
            want = [rec.mem.byte(op[1] + i & M32) for i in range(op[2])]
            ctx.eq(list(got), want, 'block of %d at 0x%x' % (op[2], op[1]), 'read')
            ctx.eq(rec.log[-1], ('rb', op[1], op[2]), 'call received', 'call')
            visible = visible or changed
        elif kind == 'wblock':
            data = bytearray(op[2])
            m.write_memory_block(val(op[1], op[3]), data if op[4] else bytes(data))
            ctx.eq(rec.log[-1], ('wb', op[1], bytes(data)), 'call received', 'call')
        elif kind == 'backreg':
            rec.regs[17 if op[1] == 13 else op[1]] = mask(op[1], op[2]) & (~1 if op[1] == 15 else M32)
            if op[1] != 13 and op[3]:
                ctx.eq(m.read_register(op[1]).unsigned, rec.dump()[op[1]], 'register %d changed in the back end' % op[1], 'stale')
            changed = True
        elif kind == 'backmem':
            rec.mem.store(op[1], op[2], 4)
            if op[3]:
                ctx.eq(m.read32(op[1]).unsigned, op[2], 'word changed in the back end at 0x%x' % op[1], 'stale')
            changed = True
        elif kind == 'replace':
            cur = op[1]
            m.delegate = recs[cur]
            saved = None
            changed = True
            for n in ('r0', 'sp', 'pc', 'xpsr', 'control') if op[2] else ():
                ctx.eq(m.read_register(n).unsigned, recs[cur].dump()[NAMES[n]], '%s after replacing the back end' % n, 'stale')
        else:
            # An instruction (its object is kept and used again) sees the back end as it is now.
            rec.regs[15] &= ~1
            twin = c['Rec'](cpu.BgMem(rec.mem.bg, rec.mem.d))
            twin.regs = dict(rec.regs)
            fresh = c['model'].CpuModel()
            fresh.delegate = twin
            rec.log = []
            i = obj.setdefault((op[1], op[2]), cpu.decode(op[1], op[2], 0))
            i.execute(m)
            cpu.decode(op[1], op[2], 0).execute(fresh)
            cpu.same(ctx, rec, twin, '%s, against a new model on a copy of the back end'
                     % cpu.describe(ref.decode_word(op[1], op[2]), op[1]))
            visible = visible or changed
        if saved is not None:
            ctx.true(saved == (other.dump(), len(other.log), other.mem.d), '%s reaches the back end that is not in use' % kind, 'other')
        for r in recs:
            if r.bad:
                ctx.fail('%s calls the back end with %s' % (op, '; '.join(r.bad[:4])), 'protocol:' + kind)
    if visible:
        ctx.nontrivial()
        ctx.label('changed-then-read')


def mask(i, v):
    if i in (13, 17, 18):
        return v & ~3
    if i in (-1, -3):
        return v & 1
    if i == -2:
        return v & 0xff
    return v


PROP = Prop('C30', 'A case is one executed instruction of any kind in a generated state, or a history of 2 to 20 accessor '
            'calls (integers and bit strings), block accesses, executed instructions, changes made in the back end and replacements of '
            'it, on a back end that records every call and its types and ranges. Non-trivial: all single '
            'instructions; histories that read or execute after the back end changed or was replaced.',
            [Test('exec', gen, body, quick=50000), Test('access', gen_access, body_access, quick=16000)],
            assumptions=['values given to accessors directly are in range', 'a bool is not a plain integer'])
