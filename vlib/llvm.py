"""LLVM's ARMv7E-M assembler and disassembler, for batches of instructions."""
import os
import re
import struct
import subprocess

TRIPLE = '-triple=thumbv7em-none-eabi'


def run(args, text):
    return subprocess.run(['llvm-mc', TRIPLE] + args, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def accepted(raws):
    """For each encoding: whether the disassembler knows it and does not call it potentially undefined."""
    text = ''.join('[%s]\n' % ' '.join('0x%02x' % x for x in r) for r in raws)
    p = run(['-disassemble'], text)
    bad = set(int(m.group(1)) - 1 for m in re.finditer(r'<stdin>:(\d+):\d+: (?:warning|error)', p.stderr.decode('utf-8', 'replace')))
    return [i not in bad for i in range(len(raws))]


def assemble(items):
    """items: (text, slot), slot 0 or 1: at a word boundary or two bytes behind it.
    For each the encoding, or the assembler's complaint."""
    out = [None] * len(items)
    left = list(range(len(items)))
    base = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'asm-%d.o' % os.getpid())
    for attempt in (0, 1, 2):
        lines = ['.syntax unified', '.thumb']
        of = {}
        for k in left:
            text, slot = items[k]
            m = re.match(r'(.*?)\.([+-]\d+)$', text)
            lines.append('.balign 16')
            if slot:
                lines.append('.inst.n 0xbf00')
            if m:
                # A label operand: the assembler takes symbols there.
                lines.append('.set L%d, . %s' % (k, m.group(2)))
                text = '%s L%d' % (m.group(1), k)
            of[len(lines) + 1] = k
            lines.append('S%d: %s' % (k, text))
            lines.append('E%d:' % k)
        try:
            p = run(['-filetype=obj', '-o', base], '\n'.join(lines) + '\n')
            err = p.stderr.decode('utf-8', 'replace')
            wrong = set()
            for m in re.finditer(r'<stdin>:(\d+):\d+: error: (.*)', err):
                k = of.get(int(m.group(1)))
                if k is not None:
                    wrong.add(k)
                    if out[k] is None:
                        out[k] = m.group(2)
            if not wrong:
                if p.returncode:
                    raise OSError(err[:500])
                with open(base, 'rb') as f:
                    code, syms = section(f.read())
                for k in left:
                    out[k] = code[syms['S%d' % k] & ~1:syms['E%d' % k] & ~1]
                return out
            left = [k for k in left if k not in wrong]
        finally:
            if os.path.exists(base):
                os.unlink(base)
    return out


def section(elf):
    shoff, = struct.unpack_from('<I', elf, 32)
    shnum, shstr = struct.unpack_from('<HH', elf, 48)
    secs = [struct.unpack_from('<10I', elf, shoff + 40 * i) for i in range(shnum)]

    def name(base, off):
        return bytes(elf[base + off:elf.index(b'\0', base + off)]).decode()
    code, syms = b'', {}
    for s in secs:
        if name(secs[shstr][4], s[0]) == '.text':
            code = bytes(elf[s[4]:s[4] + s[5]])
        if s[1] == 2:
            for o in range(s[4], s[4] + s[5], 16):
                n, v = struct.unpack_from('<II', elf, o)
                syms[name(secs[s[6]][4], n)] = v
    return code, syms
