import copy
import os
import subprocess
import sys

from vlib import console, cpu, dec, ref
from vlib.engine import Prop, Test

# Lines that name nothing to change: unknown commands, missing or bad arguments, unmapped addresses, options.
NOTHING = ['foo', 'readx 0', 'r0r', '!', '?', '? step', 'help', 'help read8', 'HELP', 'info', 'i', 'map', 'status', '.', '#', '""', "'",
           'read8', 'read16', 'r32', 'write8', 'w16', 'ww', 'wreg', 'wreg r0', 'wreg r99 0', 'wreg r0 zz', 'wreg 0 0', 'wreg r0 [', 'wreg r0 []',
           'wreg r0 [,]', 'wreg r0 [r0,zz]', 'wreg r0 [0xf0000000]', 'wreg r0 [zz]', 'wreg r0 0x', 'wreg r0 1.5', 'wreg r0 0xg', 'wreg pc q',
           'wreg r0 [0x100,4,5]', 'wreg sp _', 'wreg r0 -', 'reg r99', 'reg zz', 'reg 0', 'r zz', 'r 0xf0000000', 'r32 0xf0000000 16', 'r16 0 3',
           'r 0 zz', 'r [0xf0000000]', 'r 0x0 [', 'r _', 'rw [r0,r1]', 'w 0', 'w 0 zz', 'w 0 1 zz', 'w 0 256', 'w 8 1 2 300', 'w 0 -1', 'wh 0 zz', 'ww 0x100 1 2 x',
           'w zz 1', 'w [zz] 1', 'ww 0xf0000000 1', 'w 0xf0000000 1 2 3', 'ww 0x20f00000 5', 'd zz', 'd 0 zz', 'd 0xf0000000', 'd 0xf0000000 20', 'd --foo', 'd -x', 'd -c=3',
           'd --center=4 0', 'd -h', 'd --help', 'd [zz]', 'd -q 0 6', 'disasm --center zz', 'log', 'log foo', 'log debug', 'log ERROR', 'log info', 'log warning',
           'log critical', ';', ';;', ' ; ', 'r 0x100 0', 'd 0 0', 'rw 0 4', 'reg', 'pc', 'SP', 'r 0', '%s', '%d %d', '{}', '{0}', 'exitx', 'quit0', 'xexit', 'step0', '\\', '\t', 'sp lr',
           'reg pc pc', 'd pc 0', 'r -1', 'd -4', 'd 0 -4', 'r pc 4', 'r 0 -1', '[r0]', 'r [pc]', '0x100', 'R', 'Rb', 'D --Center', 'pc 0']


def gen_code(d, n):
    """Bytes of code: mostly instructions that run, some traps, undefined and unpredictable words."""
    out = bytearray()
    while len(out) < n:
        k = d.choice(10)
        if k < 6:
            w, b = cpu.gen_insn(d, ref.ENCODINGS, executable=d.flag(4, 5))
        elif k == 6:
            w, b = d.pick(dec.words16('undefined')), 16
        elif k == 7:
            w, b = d.pick(dec.words16('unpredictable')), 16
        else:
            w, b = dec.gen_word(d)
        for h in ([w >> 16, w & 0xffff] if b == 32 else [w]):
            out += bytearray((h & 255, h >> 8))
    return out


def gen_image(d):
    k = d.choice(8)
    if k == 0:
        return None
    if k == 1:
        return [0 if i == 3 else d.choice(256) for i in range(d.choice(12))] if d.flag() else []
    sp = d.pick((console.RAM + 0x8000, console.RAM + 0x1000, 0, 4, 0x10000, console.RAM, console.RAM + 4, 0x1001, console.RAM + 0x2003, 0x10004,
                 console.RAM + 0x10000, console.RAM + 0x10004, console.RAM + 0x18000, console.RAM + 0x10001, 0x1fff7000, 8))
    pc = d.pick((9, 8, 0x11, 0x10, 0x101, 0x21)) if d.flag(3, 4) else d.pick((0, 1, 0x10001, 0xffff, 0xfffe, console.RAM + 1, 0x80000001, 0xffffffff, console.RAM + 0x10000, 0x1fff7fff))
    out = bytearray(sp.to_bytes(4, 'little') + pc.to_bytes(4, 'little'))
    out += gen_code(d, d.int(2, 60))
    out = list(out)
    if d.flag(1, 12):
        out.append(['long', d.pick((0x10000, 0x10002, 0x10fff, 0x14000))])
    return out


def image_of(case):
    if case['image'] is None:
        return None
    im = case['image']
    if im and isinstance(im[-1], list):
        b = bytearray(im[:-1])
        n = im[-1][1]
        b += bytearray((i * 7 + (i >> 8)) & 255 for i in range(n - len(b)))
        return b
    return bytearray(im)


def gen_cmd(d):
    k = d.choice(12)
    if k < 4:
        return d.pick(('step', 's', 'S', 'Step'))
    if k < 6:
        addr = d.pick(('', ' pc', ' 8', ' 0x8', ' 0', ' 0x9', ' 0x20', ' 0x1fff8000', ' 0xfff8', ' 0xfffd', ' r15', ' sp', ' 16', ' lr', ' 0x10000', ' [4]', ' [0x4,0]'))
        n = d.pick(('', ' 2', ' 4', ' 6', ' 16', ' 7', ' 33', ' 1', ' 0x40', ' 0')) if addr else ''
        c = d.pick(('', '', ' -c', ' --center'))
        cmd = d.pick(('d', 'disasm', 'D', 'Disasm'))
        return cmd + c + addr + n if d.flag(3, 4) else cmd + addr + n + c
    if k == 6:
        return d.pick(('reset', 'RESET', 'reset -h', 'reset --halt'))
    if k == 7:
        r = d.pick(['r%d' % i for i in range(8)] + ['sp', 'pc', 'lr', 'pc', 'pc'])
        v = d.pick((0, 8, 9, 0x10, 0x100, 0xfffe, 0xfffc, console.RAM, console.RAM + 0x100, 0xf0000000, 0x10000, 0x7fffffff)) if d.flag(3, 4) else d.word()
        return 'wreg %s 0x%x' % (r, v & ~3 if r == 'sp' else v)
    if k == 8:
        w = d.pick((8, 16, 32))
        return 'write%d 0x%x %s' % (w, d.pick((0, 4, 8, 8, 0xa, 0xc, 0x10, console.RAM)), ' '.join('0x%x' % d.value(w) for _ in range(d.int(1, 3))))
    if k == 9 and d.flag():
        return garbage(d)
    return d.pick(NOTHING)


def garbage(d):
    """A line of junk whose first word is no command."""
    chars = 'abcdrswxyz0123456789 []-,._"\'%{}\\!@#^&*()=+/?<>|~`:\u00e9\t'
    s = ''.join(d.pick(chars) for _ in range(d.int(1, 12)))
    return '!' + s if s.split()[:1] and s.split()[0].lower() in KNOWN or not s.strip() else s


KNOWN = set('info i status stat reg wreg reset read8 read r rb read16 r16 rh read32 r32 rw write8 write w wb write16 w16 wh write32 w32 ww step s help ? disasm d log exit quit map'.split()) \
    | set(console.REGS) | set(console.ALIAS)


def gen(d):
    lines = []
    for _ in range(d.size(1, 12, 100)):
        k = d.choice(14)
        if k == 0:
            lines.append('')
        elif k == 1:
            lines.append('^C')
        elif k < 5:
            lines.append('; '.join(gen_cmd(d) for _ in range(d.int(2, 4))))
        else:
            lines.append(' ' * d.choice(2) + gen_cmd(d) + ' ' * d.choice(2))
    if d.flag(1, 3):
        lines.append(d.pick(('exit', 'quit', ' EXIT ', 'step; exit; wreg r0 1', 'foo;quit', 'Quit', 'exit now', 'quit;')))
        if d.flag():
            lines.append('step')
    return dict(image=gen_image(d), lines=lines, argv=d.pick(([], [], [], ['-d', 'debug'], ['--debug', 'info'], ['-d', 'critical'])))


class Bad(Exception):
    pass


def state(c, regions):
    return console.regs_of(c), console.mems_of(c, regions)


def mapped(a, regions):
    return any(s <= a < s + n for s, n in regions)


def word(mem, a):
    return int.from_bytes(mem[a:a + 4], 'little')


def apply_reset(twin, regions):
    """Reset, as stated: SP and PC from the first two words when those lie in mapped memory."""
    mem = console.mems_of(twin, regions)[0]
    sp, pc = word(mem, 0), word(mem, 4)
    if mapped(pc, regions):
        twin.write_register('pc', pc & ~1)
    if mapped(sp - 4, regions):
        twin.write_register('sp', sp)


def listing(twin, addr, n, regions, first=False):
    """([(address, text)], error or None) by the library, one instruction at a time, executed on nothing."""
    import cmdis.decoder as D
    import cmdis.disasm
    import cmdis.formatter
    mem = None
    for (s, k), m in zip(regions, console.mems_of(twin, regions)):
        if s <= addr < s + k:
            mem = m[addr - s:addr - s + n]
    if mem is None:
        return [], None, None
    out = []
    fmt = cmdis.formatter.Formatter(twin)
    insn = None
    o = 0
    err = None
    while o < len(mem):
        try:
            insn = cmdis.disasm.decoder.decode(bytearray(mem[o:]), addr + o)
        except D.UndefinedInstructionError:
            # Less than an instruction at the end is passed over.
            err = 'undefined' if len(mem) - o >= 4 else None
            break
        except D.UnpredictableError:
            err = 'unpredictable'
            break
        out.append((addr + o, fmt.format(insn).strip()))
        o += insn.size
        if first:
            break
    return out, err, insn


def number(t, twin, regions):
    """Value of a well-formed argument."""
    t = t.lower()
    if t.startswith('['):
        a, _, off = t[1:-1].partition(',')
        a = number(a, twin, regions) + int(off or '0', 0)
        for (s, k), m in zip(regions, console.mems_of(twin, regions)):
            if s <= a < s + k:
                return word(m, a - s)
    if t in console.REGS or t in console.ALIAS:
        return twin.read_register(t).unsigned
    return int(t, 0)


def run_command(text, twin, regions, exp):
    """Applies a command to the twin; adds the code lines it has to print to exp. True if it ends the session."""
    t = text.split()
    if not t:
        return False
    name = t[0].lower()
    if name in ('exit', 'quit'):
        return True
    if text.strip() in PLAIN:
        exp['any'] = exp['any'] or name in ('d', 'disasm')
        return False
    if name in ('step', 's'):
        pc = twin.read_register('pc').unsigned & ~1
        lines, err, insn = listing(twin, pc, 4, regions, first=True)
        if err:
            exp['errors'].append(err)
        if insn is not None:
            exp['code'] += [(a, None, x) for a, x in lines]
            exp['steps'] += 1
            try:
                insn.execute(twin)
            except Exception:
                exp['raised'] += 1
    elif name == 'reset':
        apply_reset(twin, regions)
    elif name in ('d', 'disasm'):
        args = [x for x in t[1:] if not x.startswith('-')]
        addr = number(args[0] if args else 'pc', twin, regions)
        n = number(args[1], twin, regions) if len(args) > 1 else 6
        if len(args) < len(t) - 1:
            addr -= n // 2
        addr &= ~1
        lines, err, _ = listing(twin, addr, n, regions)
        pc = twin.read_register('pc').unsigned & ~1
        exp['code'] += [(a, '*' if a == pc else ' ', x) for a, x in lines]
        exp['lists'] += len(lines)
        if err:
            exp['errors'].append(err)
    elif name == 'wreg':
        twin.write_register(t[1], int(t[2], 0))
    elif name in ('write8', 'write16', 'write32'):
        w = int(name[5:])
        a = int(t[1], 0)
        for i, v in enumerate(t[2:]):
            for k in range(w // 8):
                twin.write_memory(a + i * w // 8 + k, int(v, 0) >> 8 * k & 255, 8)
    return False


PLAIN = set(NOTHING)


def body(case, ctx):
    image = image_of(case)
    # Input is stripped, and a line of white space repeats the last one.
    lines = case['lines']
    regions = console.regions_of(image or b'')
    bad = []
    box = dict(twin=None, last='', stop=None)
    totals = dict(steps=0, lists=0, errors=0)

    def at_prompt(n, tool, out):
        if bad:
            return
        import cmdis.model
        import cmdis.mock_cpu
        now = state(tool.cpu, regions)
        if n == 0:
            start = cmdis.model.CpuModel()
            start.delegate = cmdis.mock_cpu.MockCpuModelDelegate()
            for s, k in regions:
                start.delegate.add_memory(s, k)
            for i, b in enumerate(image or b''):
                start.write_memory(i, b, 8)
            apply_reset(start, regions)
            check(now, state(start, regions), 'at the start', bad)
        elif n <= len(lines):
            line = lines[n - 1].strip()
            exp = dict(code=[], errors=[], any=False, steps=0, lists=0, raised=0)
            twin = box['twin']
            if line != '^C':
                if not line:
                    line = box['last']
                else:
                    box['last'] = line
                for c in line.split(';'):
                    if run_command(c, twin, regions, exp):
                        bad.append(('%r does not end the session' % lines[n - 1], 'exit'))
                        return
            what = 'after %r' % (lines[:n][-4:],)
            check(now, state(twin, regions), what, bad)
            text = console.strip(out)
            code = []
            for l in text.splitlines():
                m = console.CODE.match(l)
                if m:
                    code.append((int(m.group(1), 16), m.group(2), m.group(3)))
            if not exp['any'] and not bad:
                want = [(a, m, x) for a, m, x in exp['code']]
                got = [(a, m if w is None or w[1] is not None else None, x) for (a, m, x), w in
                       zip(code, want + [None] * len(code))]
                if got != want:
                    bad.append((what + ': instructions shown: got %s, expected %s' % (got[:20], want[:20]), 'code'))
                low = text.lower()
                for e in set(exp['errors']):
                    if e + ' instruction' not in low:
                        bad.append((what + ': %s instruction not reported: %r' % (e, text[-300:]), 'report'))
            for k in ('steps', 'lists'):
                totals[k] += exp[k]
            totals['errors'] += len(exp['errors'])
        box['twin'] = copy.deepcopy(tool.cpu)

    end, n, out = console.session(image, lines, at_prompt, case['argv'])
    if bad:
        ctx.fail(*bad[0])
    stop = None
    last = ''
    for i, l in enumerate(lines):
        l = l.strip()
        if l == '^C':
            continue
        l = l or last
        last = l
        if any(c.split()[:1] and c.split()[0].lower() in ('exit', 'quit') for c in l.split(';')):
            stop = i + 1
            break
    if stop is not None:
        ctx.true(n == stop, 'the session of %r ends after line %d of input, not %d: %r' % (lines, n, stop, end), 'exit')
        ctx.true(end[1] in (0, None), 'exit gives the code %r' % (end,), 'exit')
        ctx.label('exit')
    else:
        ctx.true(n == len(lines) + 1 and end[0] == 'returned', 'the session of %r ends after %d line(s): %r' % (lines, n, end), 'ends')
    for k, v in totals.items():
        if v:
            ctx.label(k)
    if totals['steps'] or totals['lists']:
        ctx.nontrivial()


def check(got, want, what, bad):
    for r, a, b in zip(console.REGS, got[0], want[0]):
        if a != b:
            bad.append((what + ': %s is 0x%x, expected 0x%x' % (r, a, b), 'state'))
            return
    for a, b in zip(got[1], want[1]):
        if a != b:
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            bad.append((what + ': memory (offset 0x%x of the region) is %s, expected %s' % (i, a[i:i + 8].hex(), b[i:i + 8].hex()), 'memory'))
            return


def gen_process(d):
    case = gen(d)
    case['lines'] = [l for l in case['lines'] if l != '^C'] + ['reg', 'd 8 16', 'r 0 32']
    case['entry'] = d.pick(('module', 'main'))
    case['argv'] = []
    return case


def facts(text):
    """What the output of a session says: the lines of code, memory and registers."""
    return [l.rstrip() for l in console.strip(text).splitlines() if console.CODE.match(l) or console.DUMP.match(l) or console.REGLINE.match(l) or console.REGPAIR.search(l)]


def body_process(case, ctx):
    """A session in a process of its own says what the same one does in here."""
    image = image_of(case)
    parts = []
    end, n, out = console.session(image, case['lines'], lambda n, tool, out: parts.append(out))
    want = facts(''.join(parts) + out)
    path = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'process-%d.bin' % os.getpid())
    with open(path, 'wb') as f:
        f.write(bytes(image or b''))
    env = dict(os.environ, PYTHONPATH=os.environ['CMDIS_BUILT'], PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
    args = ['-m', 'cmdis'] if case['entry'] == 'module' else ['-c', 'from cmdis.__main__ import main; main()']
    p = subprocess.Popen([sys.executable] + args + ([path] if image is not None else []), cwd=os.path.dirname(path), env=env,
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        got, err = p.communicate(''.join(l + '\n' for l in case['lines']).encode('utf-8'), timeout=120)
    except subprocess.TimeoutExpired:
        ctx.label("no answer")
        return
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        os.unlink(path)
    got = facts(got.decode('utf-8', 'replace'))
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        ctx.fail('the session of %r as a process (%s): line %d of code, memory and registers is %r, and %r in this one; %s' % (
            case['lines'], case['entry'], i, got[i:i + 1], want[i:i + 1], err.decode('utf-8', 'replace')[-300:]), 'process')
    ctx.true(p.returncode == 0, 'the session of %r as a process (%s) ends with code %r: %s' % (
        case['lines'], case['entry'], p.returncode, err.decode('utf-8', 'replace')[-300:]), 'process')
    ctx.label(case['entry'])
    if want:
        ctx.nontrivial()


PROP = Prop('C28', 'A case is a binary image (none, short, with vectors in or out of mapped memory, long; code with traps, undefined and '
            'unpredictable words) and a console session of up to 13 lines (built package): steps, listings with options, resets, writes, blank '
            'lines, interrupts, malformed and junk lines, exits. At every prompt the state and the instructions shown are compared with what the '
            'library does to a copy of the machine. Non-trivial: some instruction was stepped or listed.',
            [Test('sessions', gen, body, quick=2000),
             Test('process', gen_process, body_process, quick=10, thorough=300)],
            assumptions=['no Python expressions', 'the stack pointer of the image is at most 0x20010000', 'SimTool keeps the CPU model in its cpu attribute'],
            setup=console.setup)
