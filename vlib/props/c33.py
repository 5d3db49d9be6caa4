"""Relations between instruction sequences. No reference machine takes part: both sides are run on the checked CPU."""
from vlib.engine import Prop, Test
from vlib import cpu, ref

M32 = cpu.M32
F = 0xf0000000


def mk(name, **f):
    e = ref.BY_NAME[name]
    return [e.make(f), e.bits]


def low(d, n, exclude=()):
    """n different low registers."""
    pool = [r for r in range(8) if r not in exclude]
    return [pool.pop(d.choice(len(pool))) for _ in range(n)]


# A relation gives a dict: a, b: sequences; ignore: registers not compared; flags: mask of xPSR bits compared;
# 'pc' compares PC too; set: registers to set first; mem: whether memory is compared.
REL = []


def rel(fn):
    REL.append(fn)
    return fn


def undo(*seq, **kw):
    return dict(dict(a=list(seq), b=[], flags=~F & M32, mem=True), **kw)


@rel
def add_sub(d):
    a, b = low(d, 2)
    x = [mk('adds_reg', d=a, n=a, m=b), mk('subs_reg', d=a, n=a, m=b)]
    return undo(*(x if d.flag() else x[::-1]))


@rel
def add_sub_imm(d):
    a, = low(d, 1)
    i = d.choice(256)
    x = [mk('adds_imm8', d=a, i=i), mk('subs_imm8', d=a, i=i)]
    return undo(*(x if d.flag() else x[::-1]))


@rel
def imm3_imm8(d):
    a, = low(d, 1)
    i = d.choice(8)
    op = d.pick(('adds', 'subs'))
    return dict(a=[mk(op + '_imm3', d=a, n=a, i=i)], b=[mk(op + '_imm8', d=a, i=i)], flags=M32, mem=True, pc=True)


@rel
def imm_reg(d):
    a, b, c = low(d, 3)
    i = d.choice(8)
    op = d.pick(('adds', 'subs'))
    return dict(a=[mk(op + '_imm3', d=c, n=a, i=i)], b=[mk(op + '_reg', d=c, n=a, m=b)], flags=M32, mem=True,
                pc=True, set={b: i})


@rel
def eor_eor(d):
    a, b = low(d, 2)
    return undo(mk('eors', d=a, m=b), mk('eors', d=a, m=b))


@rel
def mvn_mvn(d):
    a, b = low(d, 2)
    x = mk('mvns', d=b, m=a), mk('mvns', d=a, m=b)
    return undo(*x, ignore=[b])


@rel
def neg_neg(d):
    a, b = low(d, 2)
    return undo(mk('rsbs', d=b, m=a), mk('rsbs', d=a, m=b), ignore=[b])


@rel
def rev_rev(d):
    a, b = low(d, 2)
    op = d.pick(('rev', 'rev16'))
    return undo(mk(op, d=b, m=a), mk(op, d=a, m=b), ignore=[b], flags=M32)


@rel
def ror_ror(d):
    a, b, c = low(d, 3)
    n = d.int(0, 32)
    return undo(mk('rors_reg', d=a, m=b), mk('rors_reg', d=a, m=c), set={b: n, c: 32 - n})


@rel
def extend_shifts(d):
    a, b, c = low(d, 3)
    op, sh, n = d.pick((('uxtb', 'lsrs', 24), ('uxth', 'lsrs', 16), ('sxtb', 'asrs', 24), ('sxth', 'asrs', 16)))
    return dict(a=[mk(op, d=a, m=b)], b=[mk('lsls_imm', d=c, m=b, i=n), mk(sh + '_imm', d=a, m=c, i=n)],
                flags=~F & M32, mem=True, ignore=[c])


@rel
def extend_rotated(d):
    a, b, c, e = low(d, 4)
    op = d.pick(('uxtb', 'uxth', 'sxtb', 'sxth'))
    r = d.choice(4)
    return dict(a=[mk(op + '_w', d=a, m=b, r=r)],
                b=[mk('mov_reg', D=0, d=c, m=b), mk('rors_reg', d=c, m=e), mk(op, d=a, m=c)],
                flags=~F & M32, mem=True, ignore=[c], set={e: 8 * r})


@rel
def compare_subtract(d):
    a, b, c = low(d, 3)
    k = d.choice(6)
    i = d.choice(256)
    x, y = ((mk('cmp_reg_t1', d=a, m=b), mk('subs_reg', d=c, n=a, m=b)),
            (mk('cmp_reg_t2', N=0, n=a, m=b), mk('subs_reg', d=c, n=a, m=b)),
            (mk('cmn_reg_t1', d=a, m=b), mk('adds_reg', d=c, n=a, m=b)),
            (mk('cmp_imm8', n=a, i=i), mk('subs_imm8', d=a, i=i)),
            (mk('cmn_w', n=a, i=i, j=0, k=0), mk('adds_imm8', d=a, i=i)),
            (mk('cmp_w', n=a, i=i, j=0, k=0), mk('subs_imm8', d=a, i=i)))[k]
    return dict(a=[x], b=[y], flags=M32, mem=True, ignore=[c, a] if k >= 3 else [c], keep_a=True)


@rel
def test_and(d):
    a, b = low(d, 2)
    return dict(a=[mk(*['tst', 'tst_w'][:1], d=a, m=b)] if d.flag() else [mk('tst_w', n=a, m=b, k=0, i=0, t=0)],
                b=[mk('ands', d=a, m=b)], flags=M32, mem=True, ignore=[a])


@rel
def test_shifted(d):
    a, b, c = low(d, 3)
    t = d.choice(3)
    n = d.int(1, 31)
    return dict(a=[mk('tst_w', n=a, m=b, k=n >> 2, i=n & 3, t=t)],
                b=[mk(('lsls_imm', 'lsrs_imm', 'asrs_imm')[t], d=c, m=b, i=n), mk('tst', d=a, m=c)],
                flags=M32, mem=True, ignore=[c])


@rel
def carry_forms(d):
    a, b = low(d, 2)
    c = d.choice(2)
    # 0 - 1 borrows, so C ends clear; 0 - 0 leaves it set.
    if c:
        return dict(a=[mk('sbcs', d=a, m=b)], b=[mk('subs_reg', d=a, n=a, m=b)], flags=M32, mem=True, pc=True,
                    xpsr=(0x20000000, 0xdfffffff))
    return dict(a=[mk('adcs', d=a, m=b)], b=[mk('adds_reg', d=a, n=a, m=b)], flags=M32, mem=True, pc=True,
                xpsr=(0, 0xdfffffff))


@rel
def wide_add(d):
    """64-bit addition and subtraction undo each other."""
    a, b, c, e = low(d, 4)
    x = [mk('adds_reg', d=a, n=a, m=c), mk('adcs', d=b, m=e), mk('subs_reg', d=a, n=a, m=c), mk('sbcs', d=b, m=e)]
    return undo(*x)


@rel
def immediates(d):
    a, = low(d, 1)
    i = d.choice(256)
    forms = [mk('movs_imm8', d=a, i=i), mk('movw', d=a, i=i, j=0, k=0, n=0), mk('mov_imm_w', d=a, i=i, j=0, k=0, s=0)]
    x = forms.pop(d.choice(3))
    return dict(a=[x], b=[d.pick(forms)], flags=~F & M32, mem=True)


@rel
def immediates_flags(d):
    a, = low(d, 1)
    i = d.choice(256)
    return dict(a=[mk('movs_imm8', d=a, i=i)], b=[mk('mov_imm_w', d=a, i=i, j=0, k=0, s=1)], flags=M32, mem=True)


@rel
def narrow_wide(d):
    a, b = low(d, 2)
    k = d.choice(9)
    x, y, fl = ((mk('rev', d=a, m=b), mk('rev_w', d=a, m=b, n=b), M32),
                (mk('rev16', d=a, m=b), mk('rev16_w', d=a, m=b, n=b), M32),
                (mk('revsh', d=a, m=b), mk('revsh_w', d=a, m=b, n=b), M32),
                (mk('mvns', d=a, m=b), mk('mvn_w', s=1, d=a, m=b, k=0, i=0, t=0), M32),
                (mk('rsbs', d=a, m=b), mk('rsb_w', s=1, d=a, n=b, j=0, k=0, i=0), M32),
                (mk('muls', d=a, m=b), mk('mul_w', d=a, n=b, m=a), ~F & M32),
                (mk('movs_reg', d=a, m=b), mk('mov_reg_w', s=1, d=a, m=b), M32),
                (mk('mov_reg', D=0, d=a, m=b), mk('mov_reg_w', s=0, d=a, m=b), M32),
                (mk('tst', d=a, m=b), mk('tst_w', n=a, m=b, k=0, i=0, t=0), M32))[k]
    return dict(a=[x], b=[y], flags=fl, mem=True)


@rel
def narrow_wide_memory(d):
    a, b, c = low(d, 3)
    op = d.pick(('ldr', 'ldrb', 'ldrh', 'ldrsb', 'ldrsh', 'str', 'strb', 'strh'))
    return dict(a=[mk(op + '_reg', t=a, n=b, m=c)], b=[mk(op + '_reg_w', t=a, n=b, m=c, i=0)], flags=M32, mem=True)


@rel
def scaled_index(d):
    a, b, c, e = low(d, 4)
    op = d.pick(('ldr', 'ldrb', 'ldrh', 'ldrsb', 'ldrsh', 'str', 'strb', 'strh'))
    n = d.choice(4)
    return dict(a=[mk(op + '_reg_w', t=a, n=b, m=c, i=n)], b=[mk('lsls_imm', d=e, m=c, i=n), mk(op + '_reg', t=a, n=b, m=e)],
                flags=~F & M32, mem=True, ignore=[e])


@rel
def offset_index(d):
    a, b, c = low(d, 3)
    op, size = d.pick((('ldr', 4), ('ldrb', 1), ('ldrh', 2), ('str', 4), ('strb', 1), ('strh', 2)))
    i = d.choice(32)
    return dict(a=[mk(op + '_imm', t=a, n=b, i=i)], b=[mk(op + '_reg', t=a, n=b, m=c)], flags=M32, mem=True,
                pc=True, set={c: i * size})


@rel
def stack_offset(d):
    a, b = low(d, 2)
    i = d.choice(256)
    op = d.pick(('ldr', 'str'))
    return dict(a=[mk(op + '_sp', t=a, i=i)], b=[mk('add_sp_imm_t1', d=b, i=i), mk(op + '_imm', t=a, n=b, i=0)],
                flags=M32, mem=True, ignore=[b])


@rel
def literal(d):
    a, b = low(d, 2)
    i = d.choice(256)
    k = d.choice(2)
    if k:
        return dict(a=[mk('ldr_lit', t=a, i=i)], b=[mk('ldr_lit_w', t=a, U=1, i=4 * i)], flags=M32, mem=True)
    return dict(a=[mk('ldr_lit', t=a, i=i)], b=[mk('adr', d=b, i=i), mk('ldr_imm', t=a, n=b, i=0)], flags=M32,
                mem=True, ignore=[b])


@rel
def literal_sizes(d):
    a, b = low(d, 2)
    op = d.pick(('ldr', 'ldrb', 'ldrh', 'ldrsb', 'ldrsh'))
    i, u = d.choice(4096), d.choice(2)
    f = dict(j=i >> 11, k=i >> 8 & 7, i=i & 255)
    return dict(a=[mk(op + '_lit_w', t=a, U=u, i=i)],
                b=[mk('adr_w_add' if u else 'adr_w_sub', d=b, **f), mk(op + '_reg_w', t=a, n=b, m=a, i=0)],
                flags=M32, mem=True, ignore=[b], set={a: 0})


@rel
def adr_forms(d):
    a, = low(d, 1)
    i = d.choice(256)
    return dict(a=[mk('adr', d=a, i=i)], b=[mk('adr_w_add', d=a, j=0, k=i >> 6, i=i * 4 & 255)], flags=M32, mem=True)


@rel
def store_load(d):
    a, b, c = low(d, 3)
    op, size = d.pick((('str', 4), ('strb', 1), ('strh', 2)))
    i = d.choice(32)
    ext = {4: [], 2: [mk('uxth', d=c, m=a)], 1: [mk('uxtb', d=c, m=a)]}[size]
    if size == 4:
        ext = [mk('mov_reg', D=0, d=c, m=a)]
    st = mk(op + '_imm', t=a, n=b, i=i)
    return dict(a=[st, mk('ldr' + op[3:] + '_imm', t=c, n=b, i=i)], b=[st] + ext, flags=M32, mem=True)


@rel
def bytes_of_word(d):
    """A word store equals four byte stores."""
    a, b, c = low(d, 3)
    i = d.choice(7)
    seq = [mk('mov_reg', D=0, d=c, m=a)]
    for k in range(4):
        seq += [mk('strb_imm', t=c, n=b, i=4 * i + k), mk('lsrs_imm', d=c, m=c, i=8)]
    return dict(a=[mk('str_imm', t=a, n=b, i=i)], b=seq, flags=~F & M32, mem=True, ignore=[c])


@rel
def push_pop(d):
    r = d.choice(255) + 1
    wide = d.choice(3)
    if wide == 0:
        x, y = mk('push', M=0, r=r), mk('pop', P=0, r=r)
    elif wide == 1:
        r = r | d.choice(32) << 8
        m = d.choice(2)
        if bin(r).count('1') + m < 2:
            r = 0x1003
        x, y = mk('push_w', M=m, r=r), mk('pop_w', P=0, M=m, r=r)
    else:
        t = d.choice(13)
        x, y = mk('push_w_t3', t=t), mk('pop_w_t3', t=t)
        r = 1 << t
    clobber = [mk('mvns', d=k, m=k) for k in range(8) if r >> k & 1]
    return dict(a=[x] + clobber + [y], b=[], flags=~F & M32, mem=False)


@rel
def push_forms(d):
    r = d.choice(255) + 1
    m = d.choice(2)
    if bin(r).count('1') + m < 2:
        m, r = 1, r or 1
    k = d.choice(3)
    if k == 0:
        return dict(a=[mk('push', M=m, r=r)], b=[mk('push_w', M=m, r=r)], flags=M32, mem=True)
    if k == 1:
        if bin(r).count('1') < 2:
            r |= 3
        return dict(a=[mk('pop', P=0, r=r)], b=[mk('pop_w', P=0, M=0, r=r)], flags=M32, mem=True)
    # One by one, highest register first.
    return dict(a=[mk('push', M=m, r=r)], b=([mk('push', M=1, r=0)] if m else []) +
                [mk('push_w_t3', t=t) for t in range(7, -1, -1) if r >> t & 1], flags=M32, mem=True)


@rel
def multiple_forms(d):
    n, = low(d, 1)
    r = (d.choice(255) + 1) & ~(1 << n)
    if bin(r).count('1') < 2:
        r = 0xe0 if n < 5 else 0x07
    k = d.choice(4)
    if k == 0:
        return dict(a=[mk('stm', n=n, r=r)], b=[mk('stm_w', w=1, n=n, M=0, r=r)], flags=M32, mem=True)
    if k == 1:
        return dict(a=[mk('ldm', n=n, r=r)], b=[mk('ldm_w', w=1, n=n, P=0, M=0, r=r)], flags=M32, mem=True)
    listed = [t for t in range(8) if r >> t & 1]
    op, one = (('stm', 'str_imm'), ('ldm', 'ldr_imm'))[k - 2]
    return dict(a=[mk(op + '_w', w=0, n=n, M=0, r=r, **({'P': 0} if op == 'ldm' else {}))],
                b=[mk(one, t=t, n=n, i=j) for j, t in enumerate(listed)], flags=M32, mem=True)


@rel
def stm_ldm(d):
    n, c = low(d, 2)
    r = (d.choice(255) + 1) & ~(1 << n | 1 << c) or (1 << [x for x in range(8) if x not in (n, c)][0])
    clobber = [mk('mvns', d=k, m=k) for k in range(8) if r >> k & 1]
    return dict(a=[mk('mov_reg', D=0, d=c, m=n), mk('stm', n=n, r=r)] + clobber + [mk('ldm', n=c, r=r)],
                b=[mk('mov_reg', D=0, d=c, m=n), mk('stm', n=c, r=r), mk('mov_reg', D=0, d=n, m=c)],
                flags=~F & M32, mem=True)


@rel
def shift_forms(d):
    a, b = low(d, 2)
    op = d.pick(('lsls', 'lsrs', 'asrs'))
    n = d.int(1, 31)
    return dict(a=[mk(op + '_imm', d=a, m=a, i=n)], b=[mk(op + '_reg', d=a, m=b)], flags=M32, mem=True, pc=True,
                set={b: n | d.choice(256) << 8})


@rel
def shift_composition(d):
    a, b, c = low(d, 3)
    op = d.pick(('lsls', 'lsrs', 'asrs', 'rors'))
    n, m = d.choice(128), d.choice(128)
    if d.flag():
        # A sum at the width, where the carry is the last bit shifted out.
        total = d.pick((31, 32, 33, 64, 63, 65, 96))
        n = d.pick((total - 1, d.choice(min(total, 128)), 1, 0))
        m = total - n
    if n + m == 0 or m == 0:
        m = 1
    return dict(a=[mk(op + '_reg', d=a, m=b), mk(op + '_reg', d=a, m=c)], b=[mk(op + '_reg', d=a, m=b)],
                flags=M32, mem=True, ignore=[b, c], set={b: n, c: m}, set_b={b: n + m})


@rel
def sp_steps(d):
    i = d.choice(128)
    x = [mk('add_sp_imm_t2', i=i), mk('sub_sp_imm', i=i)]
    return undo(*(x if d.flag() else x[::-1]), flags=M32)


@rel
def bic_and(d):
    a, b, c = low(d, 3)
    return dict(a=[mk('bics', d=a, m=b)], b=[mk('mvns', d=c, m=b), mk('ands', d=a, m=c)], flags=M32, mem=True, ignore=[c])


@rel
def de_morgan(d):
    a, b, c = low(d, 3)
    return dict(a=[mk('orrs', d=a, m=b)],
                b=[mk('mvns', d=a, m=a), mk('mvns', d=c, m=b), mk('ands', d=a, m=c), mk('mvns', d=a, m=a)],
                flags=M32, mem=True, ignore=[c])


@rel
def multiply_shift(d):
    a, b, c = low(d, 3)
    n = d.choice(32)
    return dict(a=[mk('muls', d=a, m=b)], b=[mk('lsls_reg', d=a, m=c)], flags=M32 & ~0x20000000, mem=True, pc=True,
                ignore=[b, c], set={b: 1 << n, c: n})


@rel
def multiply_distributes(d):
    a, b, c, e = low(d, 4)
    return dict(a=[mk('adds_reg', d=a, n=a, m=b), mk('muls', d=a, m=c)],
                b=[mk('muls', d=a, m=c), mk('mov_reg', D=0, d=e, m=b), mk('muls', d=e, m=c), mk('adds_reg', d=a, n=a, m=e)],
                flags=~F & M32, mem=True, ignore=[e])


@rel
def call_return(d):
    """BL and BX LR come back to the instruction after the BL."""
    off = d.value(25) & ~1
    s = off >> 24 & 1
    bl = mk('bl', s=s, J=1 ^ s ^ (off >> 23 & 1), K=1 ^ s ^ (off >> 22 & 1), i=off >> 1 & 0x1fffff)
    return dict(a=[bl, mk('bx', m=14)], b=[mk('dmb', o=15)], flags=M32, mem=True, pc=True, ignore=[14])


@rel
def blx_return(d):
    a = d.choice(13)
    return dict(a=[mk('blx', m=a), mk('bx', m=14)], b=[mk('nop')], flags=M32, mem=True, pc=True, ignore=[14])


@rel
def push_pop_pc(d):
    r = d.choice(256)
    return dict(a=[mk('push', M=1, r=r), mk('pop', P=1, r=r)], b=[mk('bx', m=14)], flags=M32, mem=False, pc=True)


@rel
def jump_there_and_back(d):
    o = d.choice(1023)
    x = mk('b', i=(o - 2) & 0x7ff), mk('b', i=(-o - 2) & 0x7ff)
    return dict(a=list(x), b=[], flags=M32, mem=True, pc=True)


@rel
def cps_pair(d):
    i, f = d.pick(((0, 1), (1, 0), (1, 1)))
    seq = [mk('cps', j=1, I=i, F=f), mk('cps', j=0, I=i, F=f)]
    return dict(a=seq, b=[seq[1]], flags=M32, mem=True)


@rel
def mrs_fields(d):
    """xPSR is read as the combination of its parts."""
    a, b, c = low(d, 3)
    return dict(a=[mk('mrs', d=a, y=d.pick((1, 3)))], b=[mk('mrs', d=a, y=0), mk('mrs', d=b, y=5), mk('orrs', d=a, m=b)],
                flags=~F & M32, mem=True, ignore=[b])


def gen(d):
    k = d.choice(len(REL))
    r = REL[k](d)
    st = cpu.gen_state(d)
    for key in ('set', 'set_b'):
        r[key] = [[n, v] for n, v in sorted(r.get(key, {}).items())]
    r.pop('keep_a', None)
    return dict(name=REL[k].__name__, rel=r, st=st)


def run(seq, st, extra):
    st = list(st)
    for n, v in extra:
        st[n] = v
    c, d = cpu.rec_cpu(st)
    for w, b in seq:
        cpu.decode(w, b, d.regs[15]).execute(c)
    return d


def body(case, ctx):
    r = case['rel']
    st = list(case['st'])
    if 'xpsr' in r:
        v, m = r['xpsr']
        st[cpu.S_XPSR] = st[cpu.S_XPSR] & m | v
    a = run(r['a'], st, r['set'])
    b = run(r['b'], st, r['set'] + r['set_b'])
    x, y = a.dump(), b.dump()
    skip = set(r.get('ignore', ())) | (set() if r.get('pc') else {15})
    out = []
    for k in cpu.REG_KEYS:
        m = r['flags'] if k == 16 else 0xfffffffe if k == 15 else M32
        if k not in skip and (x[k] ^ y[k]) & m:
            out.append('%s is 0x%x and 0x%x' % (cpu.REG_LABEL[k], x[k], y[k]))
    if r.get('mem'):
        for p in sorted(set(a.mem.d) | set(b.mem.d)):
            if a.mem.byte(p) != b.mem.byte(p):
                out.append('memory at 0x%x is %02x and %02x' % (p, a.mem.byte(p), b.mem.byte(p)))
                break
    if out:
        show = [' ; '.join(cpu.describe(ref.decode_word(w, n), w) for w, n in s) or 'nothing' for s in (r['a'], r['b'])]
        ctx.fail('%s: {%s} against {%s}: %s' % (case['name'], show[0], show[1], '; '.join(out)), 'rel:' + case['name'])
    ctx.label(case['name'])
    ctx.nontrivial()


PROP = Prop('C33', 'A case is one of %d relations between two instruction sequences (inverse pairs, narrow and wide, immediate '
            'and register, composed and single forms) with generated registers and immediates, and a complete machine '
            'state; both sequences run on the checked CPU and the states they leave are compared. All cases are '
            'non-trivial.' % len(REL),
            [Test('relation', gen, body, quick=16000)],
            assumptions=['registers, flags and PC that the relation does not speak of are left out, per relation'])
