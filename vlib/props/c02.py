from vlib.engine import Prop, Test
from vlib import cpu, dec, ref


_base = {}


def baseline():
    """Outcomes of a sample of words, taken before anything else was decoded in this process."""
    if not _base:
        for e in ref.ENCODINGS:
            for v in range(6):
                f = {k: (0x2545 * (v + 1) * (j + 3) >> v) & ((1 << len(p)) - 1) for j, (k, p) in enumerate(sorted(e.fields.items()))}
                w = e.make(f)
                if v == 5:
                    w ^= 1 << (e.match % e.bits)
                if ref.is32(w >> (e.bits - 16)) == (e.bits == 32):
                    _base[(w, e.bits)] = dec.outcome(ref.to_bytes(w, e.bits), 0x1002)
        _base['words'] = sorted(k for k in _base)
    return _base


def check_word(ctx, word, bits, trail, addrs):
    """All ways to present one instruction decode alike, or fail alike with a documented error."""
    baseline()
    b = ref.to_bytes(word, bits)
    base = None
    for k, container in enumerate(dec.CONTAINERS):
        for t in (b'', bytes(trail[:k + 1]), bytes(trail)):
            out = dec.outcome(b + t, addrs[0], container)
            if base is None:
                base = out
                if out[0] == 'ok':
                    ctx.eq(out[2:5], (bits // 8, b, addrs[0]), '%s: size, bytes and address' % b.hex(), 'outcome')
            elif out != base:
                ctx.fail('%s followed by %s in %s gives %r instead of %r'
                         % (b.hex(), t.hex(), container.__name__, out, base), 'context')
    for a in addrs[1:]:
        out = dec.outcome(b, a)
        if out[:4] != base[:4] if base[0] == 'ok' else out != base:
            ctx.fail('%s at 0x%x gives %r instead of %r' % (b.hex(), a, out, base), 'address')
    for n in range(len(b)):
        ctx.eq(dec.outcome(b[:n], addrs[0], dec.CONTAINERS[n % 3]), ref.UNDEFINED, '%s cut to %d bytes' % (b.hex(), n), 'short')
    ctx.label(base if base[0] != 'ok' else 'ok%d' % bits)
    return base


def enum_first(shard, n, tier):
    for hw in range(shard, 65536, n):
        if ref.is32(hw):
            for k in range(3 if tier == 'quick' else 24):
                lo = (hw * 40503 + k * 30011 + (hw >> 3)) & 0xffff
                if k == 1:
                    lo |= 0x8000
                yield (hw, k), dict(w=hw << 16 | lo, b=32, trail=[hw & 255, lo & 255, 7, 0xff], addrs=[0, hw * 2, 0xfffffffc])
        else:
            yield (hw,), dict(w=hw, b=16, trail=[hw & 255, hw >> 8, 0x81, 0xf8, 0], addrs=[hw * 2, 0, 0x80000002])


def gen(d):
    w, b = dec.gen_word(d)
    return dict(w=w, b=b, trail=[d.choice(256) for _ in range(d.choice(7))], addrs=[dec.gen_addr(d), dec.gen_addr(d)])


def body(case, ctx):
    out = check_word(ctx, case['w'], case['b'], case['trail'], case['addrs'])
    ctx.nontrivial()
    return out


def gen_bytes(d):
    return dict(data=[d.choice(256) for _ in range(d.int(0, 7))], addr=dec.gen_addr(d), box=d.choice(3))


def body_bytes(case, ctx):
    data = bytes(case['data'])
    out = dec.outcome(data, case['addr'], dec.CONTAINERS[case['box']])
    size = 4 if len(data) >= 2 and ref.is32(data[0] | data[1] << 8) else 2
    if len(data) < size:
        ctx.eq(out, ref.UNDEFINED, '%s, which is cut short,' % data.hex(), 'short')
    ctx.eq(dec.outcome(data[:size], case['addr']), out, '%s without trailing bytes' % data.hex(), 'context')
    if out[0] == 'ok':
        ctx.eq(out[2:5], (size, data[:size], case['addr']), '%s: size, bytes and address' % data.hex(), 'outcome')
    ctx.label('len-%d' % len(data))
    if len(data) >= 2:
        ctx.nontrivial()


def gen_history(d):
    known = baseline()['words']
    words = [dec.gen_word(d) if d.flag(1, 3) else dec.gen_valid(d) for _ in range(d.int(1, 4))]
    words += [d.pick(known) for _ in range(d.choice(3))]
    # Relatives: the same encoding with other fields share decoder and class.
    for _ in range(d.choice(3)):
        w, b = d.pick(words)
        r = ref.decode_word(w, b)
        if isinstance(r, ref.Insn):
            e = ref.BY_NAME[r.name]
            words.append((e.make(cpu.gen_fields(d, e)), b))
    # Neighbours: words that differ in a few bits of one half.
    for _ in range(d.choice(3)):
        w, b = d.pick(words)
        x = d.bits(16) & d.bits(16) & d.bits(16) << 16 * d.choice(b // 16)
        if ref.is32((w ^ x) >> (b - 16)) == (b == 32):
            words.append((w ^ x, b))
    ops = [[d.choice(5), d.choice(len(words)), d.choice(3)] for _ in range(d.size(2, 16, 500))]
    return dict(words=[list(w) for w in words], ops=ops, st=cpu.gen_state(d))


def body_history(case, ctx):
    c = cpu.cm()
    base = baseline()
    first = {}
    live = []
    machine, rec = cpu.rec_cpu(case['st'])
    shared = c['formatter'].Formatter(machine)
    repeats = 0
    # Buffers that are used for one word after another.
    boxes = [bytearray(4), [0, 0, 0, 0], bytearray(2)]
    for op, k, arg in case['ops']:
        w, b = case['words'][k]
        data = ref.to_bytes(w, b)
        addr = (0, 0x1002, 0xfffffffc)[arg]
        if op == 4:
            # A buffer is filled and decoded, then filled with another word and decoded, with nothing in between.
            box = boxes[arg]
            wants = []
            for j in (k, k * 7 + 1 + len(first)):
                w, b = case['words'][j % len(case['words'])]
                data = ref.to_bytes(w, b)
                wants.append((data, dec.outcome(data, addr)))
            for data, want in wants:
                box[:None if arg == 2 else len(data)] = data
                ctx.eq(dec.outcome(data, addr, lambda _: box), want,
                       'decoding %s in a buffer that held other words' % data.hex(), 'buffer')
            ctx.label('buffer')
        elif op <= 1 or not live:
            want = ref.decode_word(w, b)
            out = dec.outcome(data, addr, dec.CONTAINERS[arg])
            was = base.get((w, b))
            if was is not None and arg == 1:
                ctx.eq(out, was, 'decoding %s, against the first time in this process' % data.hex(), 'history')
                repeats += 1
            if (k, arg) in first:
                repeats += 1
                ctx.eq(out, first[(k, arg)], 'decoding %s again' % data.hex(), 'history')
            first[(k, arg)] = out
            if out[0] == 'ok':
                live.append((c['disasm'].decoder.decode(bytearray(data), addr), want, out))
            ctx.label('decode')
        elif op == 2:
            i, want, out = live[k % len(live)]
            ctx.eq(dec.fmt(i, shared), out[5], 'text of an instruction decoded before', 'history')
            ctx.label('format')
        else:
            i, want, out = live[k % len(live)]
            if isinstance(want, ref.Insn) and want.exec_ok:
                i.execute(machine)
                # PC is kept in the code address range whatever was loaded.
                rec.regs[15] &= ~1
                ctx.label('execute')
            ctx.eq(dec.describe(i), out, 'instruction decoded before', 'history')
    # A second copy of the package, which has another history, decodes the same words the other way round.
    twin = second()
    for (k, arg), out in sorted(first.items(), reverse=True):
        w, b = case['words'][k]
        data = ref.to_bytes(w, b)
        ctx.eq(dec.outcome(data, (0, 0x1002, 0xfffffffc)[arg], dec.CONTAINERS[arg], c=twin), out,
               'decoding %s in a copy of the package with another history' % data.hex(), 'history')
    if repeats:
        ctx.nontrivial()


_second = {}


def second():
    if not _second:
        _second.update(cpu.pristine())
    return _second


PROP = Prop('C02', 'A case is an instruction word presented in several containers, with several trailing bytes, at several '
            'addresses and cut short; or a short random byte string; or a history of decode, format and execute calls '
            'on a few related encodings in which decoding is repeated. All 65536 first halfwords are enumerated. '
            'Non-trivial: at least one whole halfword; histories that decode some word again.',
            [Test('word', gen, body, quick=20000, enum=enum_first), Test('bytes', gen_bytes, body_bytes, quick=20000),
             Test('history', gen_history, body_history, quick=8000)],
            assumptions=['input is a byte string, byte array or list of byte values'])
