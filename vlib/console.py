"""Shared pieces of the checks on the built package: building it, and driving the console in-process."""
import io
import logging
import os
import re
import shutil
import subprocess
import sys

from vlib import target

REGS = ['r%d' % i for i in range(13)] + ['sp', 'lr', 'pc', 'xpsr', 'msp', 'psp', 'control', 'faultmask', 'basepri', 'primask', 'fpscr'] + \
    ['s%d' % i for i in range(32)]
ALIAS = {'r13': 'sp', 'r14': 'lr', 'r15': 'pc'}
RAM = 0x1fff8000


def build(scratch):
    """Builds a copy of the checked tree (the source conversion included) the way its build does."""
    src = os.path.join(scratch, 'src')
    os.mkdir(src)
    for name in os.listdir(target.ROOT):
        p = os.path.join(target.ROOT, name)
        if name in ('setup.py', 'README.md', 'LICENSE'):
            shutil.copy(p, src)
        elif name == 'cmdis':
            shutil.copytree(p, os.path.join(src, name), ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
    out = os.path.join(scratch, 'build')
    env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='0.1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    p = subprocess.run([sys.executable, 'setup.py', '-q', 'build', '-b', out], cwd=src, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    lib = os.path.join(out, 'lib')
    if p.returncode or not os.path.exists(os.path.join(lib, 'cmdis', '__main__.py')):
        sys.stderr.write(p.stdout.decode('utf-8', 'replace')[-3000:])
        raise SystemExit('the package does not build')
    return lib


def setup(scratch):
    return {'CMDIS_BUILT': build(scratch), 'CMDIS_USE_BUILT': '1'}


class Stop(Exception):
    """Raised out of the session by the harness."""


class Feed(object):
    """Standard input that hands out lines; each request for one is a prompt, at which it looks at the state."""
    def __init__(self, lines, at_prompt):
        self.lines = lines
        self.at = 0
        self.at_prompt = at_prompt

    def readline(self, *a):
        self.at_prompt(self.at)
        if self.at >= len(self.lines):
            self.at += 1
            if self.at > len(self.lines) + 3:
                raise Stop()
            return ''
        line = self.lines[self.at]
        self.at += 1
        if line == '^C':
            raise KeyboardInterrupt()
        return line + '\n'

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation()

    encoding = 'utf-8'
    errors = 'strict'

    def flush(self):
        pass


class Out(object):
    """Standard output kept as text."""
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation()

    def take(self):
        s = ''.join(self.parts)
        self.parts[:] = []
        return s


def session(image, lines, at_prompt, argv=()):
    """Runs a console session. at_prompt(n, tool, output) is called at each prompt, after n lines.
    Returns ('returned', code) | ('exit', code), the number of lines read, and the output since the last prompt."""
    import cmdis.__main__ as M
    args = ['cmdis'] + list(argv)
    if image is not None:
        path = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'image-%d.bin' % os.getpid())
        with open(path, 'wb') as f:
            f.write(bytes(image))
        args.append(path)
    out = Out()
    err = Out()
    tool = M.SimTool()
    feed = Feed(lines, lambda n: at_prompt(n, tool, out.take()))
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    root = logging.getLogger()
    level = root.level
    sys.argv, sys.stdin, sys.stdout, sys.stderr = args, feed, out, err
    try:
        try:
            end = ('returned', tool.run())
        except SystemExit as e:
            end = ('exit', e.code)
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved
        root.setLevel(level)
        for h in list(root.handlers):
            root.removeHandler(h)
        if image is not None:
            os.unlink(path)
    return end, feed.at, out.take()


def regs_of(cpu):
    return [cpu.read_register(r).unsigned for r in REGS]


def mems_of(cpu, regions):
    return [bytes(cpu.read_memory_block(s, n) or b'') for s, n in regions]


def regions_of(image):
    sp = int.from_bytes(bytes(image[:4]).ljust(4, b'\0'), 'little')
    return [(0, max(0x10000, len(image))), (RAM, max(sp - RAM, 0x10000))]


DUMP = re.compile(r'^([0-9a-f]{8,}):((?:\s+[0-9a-f]+)*)\s*$')
REGLINE = re.compile(r'^(\w+) = 0x([0-9a-f]+) \((\d+)\)\s*$')
REGPAIR = re.compile(r'(\w+):\s+0x([0-9a-f]+)')
CODE = re.compile(r'^0x([0-9a-f]{8,}):(.?)\s*(.*?)\s*$')


def strip(out):
    """Output without prompts."""
    return out.replace('>>> ', '')


def dumps(out):
    """[(address, digits, value)] of every hex dump line, the address computed from the line's."""
    got = []
    for line in out.splitlines():
        m = DUMP.match(line)
        if m:
            a = int(m.group(1), 16)
            for v in m.group(2).split():
                got.append((a, len(v), int(v, 16)))
                a += len(v) // 2
    return got
