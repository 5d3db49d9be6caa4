"""Property-based testing engine (runs under the PyPy 3.9 that the project is built with).

Integrated shrinking in the style of minithesis / Hypothesis: a generator draws every random
choice from a `Data` object, which records the sequence of choices. A failing case is shrunk by
reducing that sequence (delete, zero, lower) and generating again, so what comes out is always a
case that the generator can make. Everything is a function of (property, test, seed, shard).
"""
import glob
import os
import random
import re
import signal
import time


class Violation(Exception):
    """The property does not hold for this case."""
    def __init__(self, msg, sig=None):
        Exception.__init__(self, msg)
        self.sig = sig or ''


class Hang(BaseException):
    pass


class HarnessError(Exception):
    pass


M32 = 0xffffffff
CORNERS32 = (0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0x80000001, 0xfffffffe, 0x7ffffffe,
             0x55555555, 0xaaaaaaaa, 0x0000ffff, 0xffff0000, 0x00008000, 0x00007fff, 0x0000ff80,
             0x000000ff, 0x00000080, 0x0000007f, 0x00010000, 0x01000000, 0x00800080, 0x80808080,
             0x12345678, 0x40000000, 0xc0000000, 0x3fffffff, 0xbfffffff, 0x00000100, 0xfffffffc,
             0xffffff80, 0xffff8000, 0xff000000, 0x00ff0000, 0x00ff00ff, 0xff00ff00)


def source_constants(root):
    """Numbers that occur in the checked sources, and their neighbours: values that the code may treat specially."""
    out = set()
    for f in sorted(glob.glob(os.path.join(root, 'cmdis', '*.py'))):
        if f.endswith('_version.py'):
            continue
        with open(f, encoding='utf-8', errors='replace') as h:
            for t in re.findall(r'(?<![\w.])(0[xX][0-9a-fA-F]+|0b[01]+|[0-9]+)(?![\w.])', h.read()):
                v = int(t, 0) if t[:1] != '0' or len(t) > 1 and t[1] in 'xXbB' else int(t, 10)
                if 15 < v <= M32:
                    out.update((v - 1, v, v + 1))
    return tuple(sorted(out)) or CORNERS32


CONSTANTS = source_constants(os.environ.get('CMDIS_ROOT', '/repo'))


class Data(object):
    """Source of choices. With an rng, choices past the prefix are random; without, they are 0."""
    __slots__ = ('rng', 'prefix', 'choices')

    def __init__(self, rng=None, prefix=()):
        self.rng = rng
        self.prefix = prefix
        self.choices = []

    def choice(self, n):
        """An integer in [0, n). 0 is the simplest."""
        ch = self.choices
        i = len(ch)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v >= n:
                v = n - 1
        elif self.rng is None:
            v = 0
        else:
            v = int(self.rng.random() * n)
        ch.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.choice(hi - lo + 1)

    def pick(self, seq):
        return seq[self.choice(len(seq))]

    def flag(self, num=1, den=2):
        """True num times out of den; False is the simplest."""
        return self.choice(den) >= den - num

    def bits(self, n):
        """n uniform bits (any n)."""
        v = 0
        while n > 32:
            v = (v << 32) | self.choice(1 << 32)
            n -= 32
        return (v << n) | (self.choice(1 << n) if n else 0)

    def value(self, w):
        """A w bit value with corner bias."""
        if w == 0:
            return 0
        m = (1 << w) - 1
        k = self.choice(12)
        if k == 0:
            return self.choice(4) & m
        if k == 1:
            return self.choice(256) & m
        if k == 2:
            c = CORNERS32[self.choice(len(CORNERS32))]
            return c & m
        if k == 3:
            return 1 << self.choice(w)
        if k == 4:
            return (1 << self.choice(w + 1)) - 1
        if k == 5:
            return m ^ (1 << self.choice(w))
        if k == 6:
            a = self.choice(w + 1)
            return (((1 << a) - 1) << self.choice(w)) & m
        if k == 7:
            return m ^ self.choice(4) & m
        if k == 8:
            return (m >> 1) - 2 + self.choice(5) & m
        if k == 9:
            return CONSTANTS[self.choice(len(CONSTANTS))] & m
        return self.bits(w)

    def word(self):
        return self.value(32)

    def size(self, lo, hi, long, den=60):
        """A length, in one of den cases a large one."""
        return self.int(hi, long) if self.flag(1, den) else self.int(lo, hi)

    def list(self, lo, hi, fn):
        n = self.int(lo, hi)
        return [fn() for _ in range(n)]


class Ctx(object):
    """Handed to each body: collects labels and the non-trivial mark, raises violations."""
    def __init__(self):
        self.labels = {}
        self.nt = False

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self):
        self.nt = True

    def fail(self, msg, sig=None):
        raise Violation(msg, sig)

    def eq(self, got, want, what, sig=None):
        if got != want:
            raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)), sig or what.split(':')[0])

    def true(self, cond, msg, sig=None):
        if not cond:
            raise Violation(msg, sig)


def short(x, n=600):
    if isinstance(x, int) and not isinstance(x, bool):
        return '%d (0x%x)' % (x, x) if x >= 0 else '%d' % x
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Test(object):
    """gen(d) -> JSON-able case; body(case, ctx). enum(shard, nshards) yields cases to run as well."""
    def __init__(self, name, gen, body, quick=0, thorough=None, enum=None, weight=1):
        self.name = name
        self.gen = gen
        self.body = body
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.enum = enum


class Prop(object):
    def __init__(self, id, rule, tests, assumptions=(), setup=None, cap=None):
        self.id = id
        self.rule = rule
        self.tests = tests
        self.assumptions = list(assumptions)
        self.setup = setup      # called once in the driver; returns env vars for the shards
        self.cap = cap


UNUSABLE = (AttributeError, TypeError, ValueError, LookupError, ArithmeticError, AssertionError)


class Runner(object):
    def __init__(self, code_dirs, known=()):
        self.code_dirs = tuple(code_dirs)
        self.known = known
        self.count = 0
        self._last_tick = -1
        self.watch = False

    # A case takes microseconds; one that makes no progress for two ticks of 15 s of processor time hangs
    # (not wall time, so that a busy machine is not taken for a hang).
    def start_watchdog(self):
        def tick(sig, frame):
            if self.watch and self._last_tick == self.count:
                raise Hang()
            self._last_tick = self.count
        signal.signal(signal.SIGPROF, tick)
        signal.setitimer(signal.ITIMER_PROF, 15, 15)

    def evaluate(self, test, case, ctx):
        """None if the case passes, else the Violation."""
        self.count += 1
        self.watch = True
        try:
            test.body(case, ctx)
            return None
        except Violation as v:
            return v
        except Hang:
            return Violation('does not finish', 'hang')
        except Exception as e:
            if self.from_code(e.__traceback__):
                return Violation('unexpected %s: %s (%s)' % (type(e).__name__, e, self.where(e.__traceback__)),
                                 'exception:' + type(e).__name__)
            if isinstance(e, UNUSABLE):
                # What cmdis returned has not the form that the oracle reads (None for a number, say).
                return Violation('result of the wrong form: %s: %s' % (type(e).__name__, e),
                                 'form:' + type(e).__name__)
            raise
        finally:
            self.watch = False

    def from_code(self, tb):
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(self.code_dirs):
                return True
            tb = tb.tb_next
        return False

    def where(self, tb):
        loc = ''
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith(self.code_dirs):
                loc = '%s:%d' % (fn, tb.tb_lineno)
            tb = tb.tb_next
        return loc

    def shrink(self, test, choices, violation, budget=3000, seconds=25):
        """Smallest choice sequence found that still violates; returns (choices, case, violation)."""
        t0 = time.time()
        best = [list(choices), None, violation]
        best[1] = test.gen(Data(None, best[0]))
        left = [budget]

        def attempt(cand):
            if left[0] <= 0 or time.time() - t0 > seconds:
                return False
            left[0] -= 1
            d = Data(None, cand)
            try:
                case = test.gen(d)
                v = self.evaluate(test, case, Ctx())
            except Exception:
                return False
            if v is None or v.sig == 'hang' or v.sig in self.known:
                return False
            got = d.choices
            while got and got[-1] == 0 and len(got) > 0:
                got = got[:-1]
            if (len(got), got) < (len(best[0]), best[0]):
                best[:] = [got, case, v]
                return True
            return False

        if violation.sig == 'hang':
            return best
        improved = True
        attempt(list(best[0]))
        while improved and left[0] > 0 and time.time() - t0 < seconds:
            improved = False
            for k in (16, 8, 4, 2, 1):
                i = len(best[0]) - k
                while i >= 0:
                    c = best[0]
                    if i + k <= len(c) and attempt(c[:i] + c[i + k:]):
                        improved = True
                    i -= 1 if k <= 2 else k
            for k in (8, 4, 2, 1):
                i = len(best[0]) - k
                while i >= 0:
                    c = best[0]
                    if i + k <= len(c) and any(c[i:i + k]) and attempt(c[:i] + [0] * k + c[i + k:]):
                        improved = True
                    i -= k
            i = len(best[0]) - 1
            while i >= 0:
                if i < len(best[0]) and best[0][i] > 0:
                    lo, hi = -1, best[0][i]
                    while lo + 1 < hi:
                        mid = (lo + hi) // 2
                        c = best[0]
                        if i < len(c) and attempt(c[:i] + [mid] + c[i + 1:]):
                            improved = True
                            hi = mid
                        else:
                            lo = mid
                i -= 1
        return best


def rng_for(seed, *parts):
    return random.Random('%s|%s' % (seed, '|'.join(str(p) for p in parts)))
