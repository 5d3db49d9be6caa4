import copy
import logging

from vlib import console, cpu, ref
from vlib.engine import Prop, Test
from vlib.props import c28

LEVELS = dict(debug=logging.DEBUG, info=logging.INFO, warning=logging.WARNING, error=logging.ERROR, critical=logging.CRITICAL)
GPR = ['r%d' % i for i in range(13)] + ['lr']
NAMES = ('info i reg wreg reset read8 read r rb read16 r16 rh read32 r32 rw write8 write w wb write16 w16 wh write32 w32 ww '
         'step s help ? disasm d log exit quit').split()
# Expressions that have no value: all of them are reported.
FAIL = ['foo', '1/0', 'cpu.r[99]', 'cpu.', '(', '', 'cpu.read_register("zz")', 'x = 1', 'import os', 'int("zz")', '[1, 2', 'cpu.nothing', 'cpu()', '{}[5]',
        '[][1]', "'abc' + 1", 'del cpu', '1 +', 'if', 'cpu.write_register("q", 1)', ')', '0x', '"', 'None.x', 'pc', 'r0', 'self', 'args', '$1', '1 2', '$', 'cpu.r["x"]',
        '_', 'cpu[0]', 'result', 'inst', 'lambda: cpu +', 'print(', 'cpu.pc = 4', 'cpu.pc == ', '\\']
ADDR = [0x100, 0x104, 0x101, console.RAM, console.RAM + 6, 0xfffe, 0xf0000000, 0, 4]


def gen_int(d):
    """An expression with an integer value."""
    k = d.choice(9)
    if k == 0:
        v = d.pick((0, 1, 9, 10, 255, 0xffffffff, 1 << 40, -1, -5))
        return ('%d' % v, '0x%x' % v, '(%d)' % v)[d.choice(3)]
    if k == 1:
        return 'cpu.r[%d].unsigned' % d.choice(16)
    if k == 2:
        return 'cpu.%s.unsigned' % d.pick(('pc', 'sp', 'lr', 'msp', 'psp', 'xpsr', 'control', 'r[0]'))
    if k == 3:
        return 'cpu.read%s(0x%x).unsigned' % (d.pick(('8', '16', '32')), d.pick(ADDR))
    if k == 4:
        return 'int(cpu.read_register(%r))' % d.pick(console.REGS)
    if k == 5:
        return 'cpu.read_register("%s").signed' % d.pick(GPR)
    if k == 6:
        return '%s %s %s' % (gen_int(d), d.pick(('+', '-', '*', '&', '|')), gen_int(d))
    if k == 7:
        return 'sum(cpu.r[i].unsigned for i in range(%d))' % d.int(1, 15)
    return 'len(cpu.read_memory_block(0x%x, %d))' % (d.pick(ADDR[:5]), d.choice(9))


def gen_expr(d):
    """(kind, text)"""
    k = d.choice(13)
    if k < 4:
        return gen_int(d)
    if k == 4:
        return d.pick(('cpu.r[%d]' % d.choice(16), 'cpu.xpsr', 'cpu.apsr.%s' % d.pick('nzcv'), 'cpu.read32(0x%x)' % d.pick(ADDR), 'cpu.sp', 'cpu.f[%d]' % d.choice(32),
                       'cpu.read8(0x%x)' % d.pick(ADDR), 'cpu.r[%d] + cpu.r[%d]' % (d.choice(16), d.choice(16)), 'cpu.read_register("control")'))
    if k == 5:
        return d.pick(("'some text'", '"%s" % cpu.pc.unsigned', 'True', 'False', '1.5', '(1, 2)', '[1, 2, 3]', '()', '{1: 2}', 'cpu.pc.unsigned == cpu.r[15].unsigned', '""',
                       'cpu.is_privileged', 'None', "'%d' % 5", '(cpu.pc.unsigned,)', '[cpu.sp.unsigned, 1]', "'%x %s'", '(5,)'))
    if k < 8:
        r = d.pick(GPR + ['sp', 'pc'])
        return 'cpu.write_register(%r, 0x%x)' % (r, d.word() & ~3)
    if k < 10:
        w = d.pick((8, 16, 32))
        return 'cpu.write%d(0x%x, 0x%x)' % (w, d.pick(ADDR), d.value(w))
    if k == 10:
        return d.pick(('[cpu.r[i].unsigned for i in range(%d)]' % d.int(1, 15), '[cpu.write8(0x%x + i, i) for i in range(%d)]' % (d.pick(ADDR[:4]), d.choice(9)),
                       '(lambda v: cpu.write_register("r1", v + %d))(cpu.r[%d].unsigned)' % (d.choice(3), d.choice(13)), '{i: cpu.r[i].unsigned for i in (1, 2)}',
                       'any(cpu.r[i].unsigned for i in range(13))', '(lambda: cpu.r[%d])()' % d.choice(16), 'list(map(lambda i: cpu.f[i].unsigned, range(3)))',
                       'cpu.write_memory_block(0x%x, bytearray(range(%d)))' % (d.pick(ADDR[:4]), d.choice(6)), 'cpu.r.__setitem__(%d, %d)' % (d.choice(13), d.choice(1000))))
    return d.pick(FAIL)


def gen_cmd(d):
    k = d.choice(8)
    if k < 5:
        return '$' + ' ' * d.choice(2) + gen_expr(d)
    if k == 5:
        return d.pick(('log', 'LOG', 'Log')) + d.pick(('', ' zz', ' 10', ' debug', ' DEBUG', ' info', ' Info', ' warning', ' error', ' critical', ' CRITICAL', ' error x'))
    if k == 6:
        return 'wreg %s 0x%x' % (d.pick(GPR), d.word())
    return d.pick(('step', 'reset', 'help', '?', 'write32 0x100 0x%x' % d.word(), 'foo', 'wreg', 'w 0x100 300'))


def gen(d):
    lines = []
    for _ in range(d.size(1, 10, 60)):
        k = d.choice(10)
        if k == 0:
            lines.append('')
        elif k < 4:
            lines.append('; '.join(gen_cmd(d) for _ in range(d.int(2, 3))))
        else:
            lines.append(' ' * d.choice(2) + gen_cmd(d))
    code = []
    for _ in range(d.int(1, 5)):
        w, b = cpu.gen_insn(d, ref.ENCODINGS)
        code += list(ref.to_bytes(w, b))
    return dict(image=[0, 0x10, 0, 0, 9, 0, 0, 0] + code, lines=lines,
                argv=d.pick(([], [], ['-d', 'debug'], ['--debug', 'info'], ['-d', 'critical'], ['--debug', 'error'])))


def number_line(out, v):
    """The result line of an integer shows it in hex and in decimal."""
    for l in out:
        if '(%d)' % v in l and (v < 0 or '0x%08x ' % v in l):
            return True
    return False


def body(case, ctx):
    import cmdis.model as model
    import cmdis.mock_cpu as mock_cpu
    assert model and mock_cpu
    lines = case['lines']
    regions = console.regions_of(bytearray(case['image']))
    bad = []
    box = dict(twin=None, last='')
    root = logging.getLogger()
    level = LEVELS[case['argv'][1] if case['argv'] else 'warning']
    counts = dict(value=0, none=0, error=0, log=0)

    def at_prompt(n, tool, out):
        if bad:
            return
        if n == 0:
            box['level'] = level
        elif n <= len(lines):
            line = lines[n - 1].strip() or box['last']
            box['last'] = line
            text = console.strip(out)
            twin = box['twin']
            what = 'after %r' % (lines[:n][-3:],)
            only = ';' not in line
            for c in line.split(';'):
                c = c.strip()
                t = c.split()
                if c[:1] == '$':
                    try:
                        v = eval(c[1:].strip(), {'cpu': twin})
                    except Exception as e:
                        counts['error'] += 1
                        if only and not text.strip():
                            bad.append((what + ': nothing is reported, although the expression fails: %r' % e, 'error'))
                        continue
                    if v is None:
                        counts['none'] += 1
                        if only and text.strip():
                            bad.append((what + ': an expression without a value shows %r' % text[-200:], 'none'))
                    else:
                        counts['value'] += 1
                        ok = number_line(text.splitlines(), v) if type(v) is int else str(v) in text
                        if ok and only and type(v) is not int and text.strip() != str(v).strip():
                            ok = False
                        if not ok:
                            bad.append((what + ': the value %r is not shown: %r' % (v, text[-300:]), 'value'))
                elif t[:1] and t[0].lower() == 'log':
                    counts['log'] += 1
                    if len(t) > 1 and t[1].lower() in LEVELS:
                        box['level'] = LEVELS[t[1].lower()]
                    elif only and not text.strip():
                        bad.append((what + ': a level that is none is not reported', 'log'))
                else:
                    c28.run_command(c, twin, regions, dict(code=[], errors=[], any=False, steps=0, lists=0, raised=0))
            if not bad:
                c28.check(c28.state(tool.cpu, regions), c28.state(twin, regions), what, bad)
        if root.level != box['level'] and not bad:
            bad.append(('after %r: the log level is %s, expected %s' % (lines[:n][-3:], root.level, box['level']), 'level'))
        box['twin'] = copy.deepcopy(tool.cpu)

    end, n, out = console.session(bytearray(case['image']), lines, at_prompt, case['argv'])
    if bad:
        ctx.fail(*bad[0])
    ctx.true(n == len(lines) + 1 and end[0] == 'returned', 'the session of %r ends after %d line(s): %r' % (lines, n, end), 'ends')
    for k, v in counts.items():
        if v:
            ctx.label(k)
    if counts['value'] or counts['none']:
        ctx.nontrivial()


def listed(text):
    """Names in the help's first column."""
    names = []
    rest = text[text.index('---'):].splitlines()[1:] if '---' in text else []
    for l in rest:
        if not l.strip():
            break
        col = l.split()
        for w in col:
            names.append(w.rstrip(','))
            if not w.endswith(','):
                break
    return names


def gen_help(d):
    return dict(before=[gen_cmd(d) for _ in range(d.choice(3))], cmd=d.pick(('help', '?', 'HELP', 'Help', ' help ')), args=d.pick(('', '', ' zz', ' 0x100', ' r0 0')), n=d.choice(60))


def body_help(case, ctx):
    outs = []
    console.session(b'', case['before'] + [case['cmd']], lambda n, tool, out: outs.append(out))
    text = console.strip(outs[len(case['before']) + 1])
    names = listed(text)
    for nm in NAMES:
        ctx.true(nm in names, 'help does not list %s: %r' % (nm, text[:400]), 'unlisted')
    nm = names[case['n'] % len(names)]
    outs[:] = []
    end, n, out = console.session(b'', [nm + case['args'], 'reg'], lambda n, tool, out: outs.append(out))
    got = console.strip(''.join(outs[1:2]))
    if nm in ('exit', 'quit'):
        ctx.true(n == 1, '%s does not end the session' % nm, 'listed')
    else:
        ctx.true('unrecognized' not in got.lower(), 'help lists %s, which gives %r' % (nm, got), 'listed')
    ctx.nontrivial()


PROP = Prop('C36', 'A case is a console session (built package) of up to 10 lines (sometimes 60) of Python expressions (values of every kind, effects on the CPU, '
            'comprehensions and lambdas, failing ones), log commands and others, alone and in lists, compared at each prompt with the same expression '
            'evaluated on a copy of the machine; or a help command, with one of the names it lists used in another session. Non-trivial: some expression had a value or an effect.',
            [Test('expressions', gen, body, quick=1500), Test('help', gen_help, body_help, quick=150)],
            assumptions=['expressions contain no semicolon and do not raise SystemExit', 'SimTool keeps the CPU model in its cpu attribute',
                         'the log level is that of the root logger'],
            setup=console.setup)
