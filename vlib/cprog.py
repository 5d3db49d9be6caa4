"""Generated C programs: their text, their meaning (as Python), and their machine code from the system's compiler.

A program is JSON: globals, constant tables, functions of statements over 32-bit unsigned values. All of it is
defined by the C standard and -fwrapv: shift amounts are masked, divisors are odd, indexes are masked, and calls are
statements, so that no order of evaluation matters.
"""
import os
import struct
import subprocess

M32 = 0xffffffff
H = 0x80000000
TYPES = {'u8': ('unsigned char', 8, False), 's8': ('signed char', 8, True), 'u16': ('unsigned short', 16, False),
         's16': ('short', 16, True), 'u32': ('unsigned', 32, False), 's32': ('int', 32, True)}
TYPE_NAMES = sorted(TYPES)
TEXT, RAM = 0x1000, 0x20000000

DEFS = '''typedef unsigned u32; typedef int s32; typedef unsigned char u8; typedef signed char s8; typedef unsigned short u16;
typedef short s16; typedef unsigned long long u64; typedef long long s64;
'''

RUNTIME = r'''
u64 __aeabi_uidivmod(u32 a, u32 b) { u32 q = 0, r = 0; for (int i = 31; i >= 0; i--) { u32 t = r >> 31; r = r << 1 | (a >> i & 1);
  if (t || r >= b) { r -= b; q |= 1u << i; } } return (u64)r << 32 | q; }
u32 __aeabi_uidiv(u32 a, u32 b) { return (u32)__aeabi_uidivmod(a, b); }
u64 __aeabi_lmul(u64 a, u64 b) { u32 al = (u32)a, ah = (u32)(a >> 32), bl = (u32)b, bh = (u32)(b >> 32);
  u32 x = al & 0xffff, y = al >> 16, z = bl & 0xffff, w = bl >> 16; u32 p = x * z, q = y * z, r = x * w, s = y * w;
  u32 m = q + (p >> 16), n = r + (m & 0xffff); u32 lo = n << 16 | (p & 0xffff), hi = s + (m >> 16) + (n >> 16);
  hi += al * bh + ah * bl; return (u64)hi << 32 | lo; }
u64 __aeabi_llsl(u64 a, int n) { u32 l = (u32)a, h = (u32)(a >> 32); if (n >= 32) { h = l << (n - 32); l = 0; }
  else if (n) { h = h << n | l >> (32 - n); l <<= n; } return (u64)h << 32 | l; }
u64 __aeabi_llsr(u64 a, int n) { u32 l = (u32)a, h = (u32)(a >> 32); if (n >= 32) { l = h >> (n - 32); h = 0; }
  else if (n) { l = l >> n | h << (32 - n); h >>= n; } return (u64)h << 32 | l; }
u64 __aeabi_lasr(u64 a, int n) { u32 l = (u32)a; s32 h = (s32)(a >> 32); if (n >= 32) { l = h >> (n - 32); h >>= 31; }
  else if (n) { l = l >> n | (u32)h << (32 - n); h >>= n; } return (u64)(u32)h << 32 | l; }
void *memcpy(void *d, const void *s, u32 n) { u8 *p = d; const u8 *q = s; while (n--) *p++ = *q++; return d; }
void __aeabi_memcpy(u8 *d, const u8 *s, u32 n) { while (n--) *d++ = *s++; }
void __aeabi_memcpy4(u32 *d, const u32 *s, u32 n) { for (; n >= 4; n -= 4) *d++ = *s++; }
void __aeabi_memmove4(u8 *d, const u8 *s, u32 n) { if (d < s) while (n--) *d++ = *s++; else while (n--) d[n] = s[n]; }
void __aeabi_memclr4(u32 *d, u32 n) { for (; n >= 4; n -= 4) *d++ = 0; }
'''
LINK = '''SECTIONS { . = 0x%x; .text : { *(.text*) } .rodata : { *(.rodata*) } . = 0x%x; .data : { *(.data*) }
.bss : { *(.bss*) *(COMMON) } /DISCARD/ : { *(.ARM.*) *(.comment) *(.note*) } }''' % (TEXT, RAM)


# ------------------------------------------------------------------ generation
BINARY = ['+', '-', '*', '&', '|', '^', '&~', '<<', '>>', '>>s', 'ror', '<', '<=', '==', '!=', '>', '>=', '<s', '<=s', '>s', '>=s',
          'tst', '&&', '||']
UNARY = ['~', '-', '!', 'u8', 's8', 'u16', 's16', 'rev', 'rev16', 'revsh']
WIDE = ['+', '-', '<', '<s', '==', '*', '<<', '>>', '>>s', '^']


class Gen(object):
    def __init__(self, d):
        self.d = d
        self.funcs = []

    def program(self):
        d = self.d
        self.globals = [[TYPE_NAMES[d.choice(6)], 1 << d.int(2, 5), d.choice(2)] for _ in range(d.int(1, 4))]
        self.tables = [[TYPE_NAMES[d.choice(6)], [d.word() for _ in range(1 << d.int(1, 4))]] for _ in range(d.choice(3))]
        self.fields = d.int(2, 7)
        for n in range(d.int(1, 4)):
            self.funcs.append(self.function(n))
        calls = [[d.choice(len(self.funcs)), [d.word() for _ in range(6)]] for _ in range(d.int(1, 4))]
        return dict(g=self.globals, k=self.tables, s=self.fields, f=self.funcs, calls=calls, seed=d.choice(1 << 32))

    def function(self, n):
        d = self.d
        self.params = d.pick((1, 2, 3, 4, 4, 4, 5, 6))
        self.locals = d.int(1, 5)
        self.array = d.pick((0, 0, 4, 8, 16))
        self.rec = d.flag(1, 6)
        self.loops = 0
        self.cost = 10
        self.index = n
        self.in_loop = False
        f = dict(p=self.params, l=self.locals, a=self.array, noinline=d.choice(2), rec=None)
        if self.rec:
            f['rec'] = self.expr(1)
        f['b'] = self.block(2, 1, 1, 6)
        f['r'] = self.expr(2)
        f['cost'] = self.cost * (8 if self.rec else 1)
        return f

    def block(self, depth, times, lo=1, hi=3):
        return [self.stmt(depth, times) for _ in range(self.d.int(lo, hi))]

    def stmt(self, depth, times):
        d = self.d
        self.cost += 12 * times
        k = d.choice(16)
        v = d.choice(self.locals)
        if k <= 3:
            return ['set', v, self.expr(3)]
        if k <= 5:
            return ['gst', d.choice(len(self.globals)), self.expr(1), self.expr(2)]
        if k == 6:
            return ['gop', d.choice(len(self.globals)), self.expr(1), d.pick(('+', '-', '^', '|', '&')), self.expr(2)]
        if k == 7 and self.array:
            return ['ast', self.expr(1), self.expr(2)]
        if k == 8 and self.cost < 600 and d.flag():
            return ['scp', self.expr(1), self.expr(1)]
        if k == 8 or k == 7:
            return ['pst', d.pick(('u8', 'u8', 'u16', 'u32')), self.expr(1), self.expr(2)]
        if k == 9 and self.rec and times == 1 and depth == 2:
            return ['rec', v, [self.expr(1) for _ in range(self.params - 1)]]
        if k in (9, 10) and self.funcs:
            i = d.choice(len(self.funcs))
            f = self.funcs[i]
            if self.cost + f['cost'] * times < 4000:
                self.cost += f['cost'] * times
                return ['call', v, i, [self.expr(1) for _ in range(f['p'])]]
        if k == 11 and len(self.funcs) > 1:
            i = d.choice(len(self.funcs))
            f = self.funcs[i]
            same = [j for j, x in enumerate(self.funcs) if x['p'] == f['p'] and j != i]
            if same:
                j = d.pick(same)
                c = max(f['cost'], self.funcs[j]['cost'])
                if self.cost + c * times < 4000:
                    self.cost += c * times
                    return ['icall', v, self.expr(1), i, j, [self.expr(1) for _ in range(f['p'])]]
        if depth and k in (12, 13):
            return ['if', self.expr(2), self.block(depth - 1, times), self.block(depth - 1, times, 0, 2)]
        if depth and k == 14:
            kind = d.pick(('for', 'while', 'do'))
            n = d.pick((1, 3, 7, 7, 15) if times == 1 else (1, 3, 3))
            e = self.expr(1)
            self.loops += 1
            was, self.in_loop = self.in_loop, True
            body = self.block(depth - 1, times * (n + 1))
            if d.flag(1, 3):
                body.insert(d.choice(len(body) + 1), [d.pick(('break', 'continue')), self.expr(1)])
            self.in_loop = was
            self.loops -= 1
            return [kind, n, e, body]
        if depth and k == 15:
            if d.flag(1, 3) and times == 1:
                return ['ret', self.expr(1), self.expr(1)]
            return ['switch', self.expr(1), [self.block(0, times, 0, 2) for _ in range(d.int(2, 7))], self.block(0, times, 0, 1)]
        return ['set', v, self.expr(2)]

    def expr(self, depth):
        d = self.d
        k = d.choice(14) if depth else d.choice(5)
        if k == 0:
            return ['k', d.word()]
        if k == 1:
            return ['p', d.choice(self.params)]
        if k in (2, 3):
            return ['v', d.choice(self.locals)]
        if k == 4:
            if self.loops:
                return ['i', d.choice(self.loops)]
            return ['p', d.choice(self.params)]
        if k == 5:
            if self.tables and d.flag(1, 3):
                return ['t', d.choice(len(self.tables)), self.expr(depth - 1)]
            if self.array and d.flag(1, 3):
                return ['a', self.expr(depth - 1)]
            return ['g', d.choice(len(self.globals)), self.expr(depth - 1)]
        if k == 6:
            return ['g', d.choice(len(self.globals)), self.expr(depth - 1)]
        if k == 7:
            return ['?', self.expr(depth - 1), self.expr(depth - 1), self.expr(depth - 1)]
        if k == 8:
            return [d.pick(UNARY), self.expr(depth - 1)]
        if k == 9 and depth > 1:
            if d.flag(1, 6):
                if self.cost > 1500 or self.in_loop:
                    return ['+', self.expr(depth - 1), self.expr(depth - 1)]
                self.cost += 300
                return [d.pick(('/', '%')), self.expr(depth - 1), self.expr(depth - 1)]
            return ['w', d.pick(WIDE), d.choice(2)] + [self.expr(0) for _ in range(4)]
        if k == 10 and d.flag(1, 3):
            return ['pld', d.pick(TYPE_NAMES), self.expr(0)]
        if k == 10:
            return ['s', self.expr(0), d.choice(self.fields)]
        return [d.pick(BINARY), self.expr(depth - 1), self.expr(depth - 1)]


# ------------------------------------------------------------------ C
def c_expr(e):
    k = e[0]
    if k == 'k':
        return '%uu' % e[1] if False else '%du' % e[1]
    if k in 'pvi' and len(e) == 2:
        return '%s%d' % (k, e[1])
    if k == 't':
        return '(u32)t%d[%s & T%d]' % (e[1], c_expr(e[2]), e[1])
    if k == 'g':
        return '(u32)g%d[%s & G%d]' % (e[1], c_expr(e[2]), e[1])
    if k == 'a':
        return 'a[%s & A]' % c_expr(e[1])
    if k == 'pld':
        return '(u32)((%s *)st)[%s & %d]' % (e[1], c_expr(e[2]), 256 // TYPES[e[1]][1] - 1)
    if k == 's':
        return 'st[%s & 3].f%d' % (c_expr(e[1]), e[2])
    if k == '?':
        return '(%s ? %s : %s)' % tuple(c_expr(x) for x in e[1:])
    if k == 'w':
        a = '((u64)%s << 32 | %s)' % (c_expr(e[3]), c_expr(e[4]))
        b = '((u64)%s << 32 | %s)' % (c_expr(e[5]), c_expr(e[6]))
        op = e[1]
        if op in ('<<', '>>'):
            x = '(%s %s (%s & 63))' % (a, op, c_expr(e[6]))
        elif op == '>>s':
            x = '(u64)((s64)%s >> (%s & 63))' % (a, c_expr(e[6]))
        elif op == '<s':
            x = '((s64)%s < (s64)%s)' % (a, b)
        else:
            x = '(%s %s %s)' % (a, op, b)
        return '(u32)(%s%s)' % (x, ' >> 32' if e[2] and op not in ('<', '<s', '==') else '')
    if len(e) == 2:
        x = c_expr(e[1])
        if k in TYPES:
            return '(u32)(%s)%s' % (k, x)
        if k == 'rev':
            return '__builtin_bswap32(%s)' % x
        if k == 'rev16':
            return '(((%s >> 8) & 0xff00ffu) | ((%s & 0xff00ffu) << 8))' % (x, x)
        if k == 'revsh':
            return '(u32)(s16)__builtin_bswap16((u16)%s)' % x
        if k == '!':
            return '(u32)!%s' % x
        return '(%s%s)' % (k, x)
    a, b = c_expr(e[1]), c_expr(e[2])
    if k == 'ror':
        return '((%s >> (%s & 31)) | (%s << (-%s & 31)))' % (a, b, a, b)
    if k in ('<<', '>>'):
        return '(%s %s (%s & 31))' % (a, k, b)
    if k == '>>s':
        return '(u32)((s32)%s >> (%s & 31))' % (a, b)
    if k in ('/', '%'):
        return '(%s %s (%s | 1))' % (a, k, b)
    if k == '&~':
        return '(%s & ~%s)' % (a, b)
    if k == 'tst':
        return '(u32)((%s & %s) == 0)' % (a, b)
    if k.endswith('s'):
        return '(u32)((s32)%s %s (s32)%s)' % (a, k[:-1], b)
    return '(u32)(%s %s %s)' % (a, k, b)


def c_block(b, depth, ind):
    out = []
    p = '  ' * ind
    for s in b:
        k = s[0]
        if k == 'set':
            out.append('%sv%d = %s;' % (p, s[1], c_expr(s[2])))
        elif k == 'gst':
            out.append('%sg%d[%s & G%d] = %s;' % (p, s[1], c_expr(s[2]), s[1], c_expr(s[3])))
        elif k == 'gop':
            out.append('%s{ u32 x = %s; g%d[x & G%d] %s= %s; }' % (p, c_expr(s[2]), s[1], s[1], s[3], c_expr(s[4])))
        elif k == 'pst':
            out.append('%s((%s *)st)[%s & %d] = %s;' % (p, s[1], c_expr(s[2]), 256 // TYPES[s[1]][1] - 1, c_expr(s[3])))
        elif k == 'ast':
            out.append('%sa[%s & A] = %s;' % (p, c_expr(s[1]), c_expr(s[2])))
        elif k == 'scp':
            out.append('%sst[%s & 3] = st[%s & 3];' % (p, c_expr(s[1]), c_expr(s[2])))
        elif k == 'call':
            out.append('%sv%d = f%d(%s);' % (p, s[1], s[2], ', '.join(c_expr(x) for x in s[3])))
        elif k == 'icall':
            out.append('%sv%d = (%s ? f%d : f%d)(%s);' % (p, s[1], c_expr(s[2]), s[3], s[4], ', '.join(c_expr(x) for x in s[5])))
        elif k == 'rec':
            out.append('%sv%d = SELF(%s);' % (p, s[1], ', '.join(['(p0 & 7) - 1'] + [c_expr(x) for x in s[2]])))
        elif k == 'if':
            out.append('%sif (%s) {' % (p, c_expr(s[1])))
            out += c_block(s[2], depth, ind + 1)
            if s[3]:
                out.append(p + '} else {')
                out += c_block(s[3], depth, ind + 1)
            out.append(p + '}')
        elif k in ('for', 'while', 'do'):
            n, i = 'n%d' % depth, 'i%d' % depth
            if k == 'for':
                out.append('%s{ u32 %s = %s & %d; for (u32 %s = 0; %s < %s; %s++) {' % (p, n, c_expr(s[2]), s[1], i, i, n, i))
                end = '} }'
            elif k == 'while':
                out.append('%s{ u32 %s = %s & %d, %s = -1; while (%s--) { %s++;' % (p, n, c_expr(s[2]), s[1], i, n, i))
                end = '} }'
            else:
                out.append('%s{ u32 %s = (%s & %d) + 1, %s = -1; do { %s++;' % (p, n, c_expr(s[2]), s[1], i, i))
                end = '} while (--%s); }' % n
            out += c_block(s[3], depth + 1, ind + 1)
            out.append(p + end)
        elif k in ('break', 'continue'):
            out.append('%sif (%s) %s;' % (p, c_expr(s[1]), k))
        elif k == 'ret':
            out.append('%sif (%s) return %s;' % (p, c_expr(s[1]), c_expr(s[2])))
        elif k == 'switch':
            out.append('%sswitch (%s & 7) {' % (p, c_expr(s[1])))
            for n, x in enumerate(s[2]):
                out.append('%scase %d: {' % (p, n))
                out += c_block(x, depth, ind + 1)
                out.append(p + '  break; }')
            out.append('%sdefault: {' % p)
            out += c_block(s[3], depth, ind + 1)
            out.append(p + '  break; } }')
    return out


def params(n):
    return ', '.join('u32 p%d' % i for i in range(n))


def c_source(prog):
    out = [DEFS]
    for n, (t, ln, vol) in enumerate(prog['g']):
        out.append('%s%s g%d[%d];' % ('volatile ' if vol else '', t, n, ln))
        out.append('enum { G%d = %d };' % (n, ln - 1))
    for n, (t, vs) in enumerate(prog['k']):
        out.append('const %s t%d[] = { %s };' % (t, n, ', '.join('(%s)%du' % (t, v) for v in vs)))
        out.append('enum { T%d = %d };' % (n, len(vs) - 1))
    out.append('struct S { %s } st[4];' % ' '.join('u32 f%d;' % i for i in range(prog['s'])))
    for n, f in enumerate(prog['f']):
        out.append('#define SELF f%d' % n)
        out.append('%su32 f%d(%s) {' % ('__attribute__((noinline)) ' if f['noinline'] else '', n, params(f['p'])))
        out.append('  u32 %s;' % ', '.join('v%d = %d' % (i, i) for i in range(f['l'])))
        if f['a']:
            out.append('  enum { A = %d }; u32 a[%d]; for (u32 i = 0; i < %d; i++) a[i] = i * p0;' % (f['a'] - 1, f['a'], f['a']))
        if f['rec'] is not None:
            out.append('  if (!(p0 & 7)) return %s;' % c_expr(f['rec']))
        out += c_block(f['b'], 0, 1)
        out.append('  return %s;\n}\n#undef SELF' % c_expr(f['r']))
    return '\n'.join(out) + '\n'


# ------------------------------------------------------------------ Python
def sx(v, n):
    """Sign extension of the low n bits to 32."""
    v &= (1 << n) - 1
    return v | (M32 ^ ((1 << n) - 1)) if v >> (n - 1) else v


def convert(t, v):
    _, n, s = TYPES[t]
    return sx(v, n) if s else v & ((1 << n) - 1)


def rev(v):
    return (v & 0xff) << 24 | (v & 0xff00) << 8 | (v >> 8 & 0xff00) | v >> 24


def ror(a, n):
    n &= 31
    return (a >> n | a << (32 - n)) & M32


def s64(v):
    return v - (1 << 64) if v >> 63 else v


def wide(op, hi, a, b, c, d):
    M = (1 << 64) - 1
    x, y = a << 32 | b, c << 32 | d
    if op in ('<', '<s', '=='):
        return int(x < y if op == '<' else s64(x) < s64(y) if op == '<s' else x == y)
    n = d & 63
    r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '^': lambda: x ^ y, '<<': lambda: x << n,
         '>>': lambda: x >> n, '>>s': lambda: s64(x) >> n}[op]() & M
    return r >> 32 if hi else r & M32


def pld(st, t, i):
    """The i-th value of type t (within the first 32 bytes) of the structures."""
    n = TYPES[t][1]
    bit = (i & (256 // n - 1)) * n
    f = len(st[0])
    w = bit // 32
    return convert(t, st[w // f][w % f] >> bit % 32)


def pst(st, t, i, v):
    n = TYPES[t][1]
    bit = (i & (256 // n - 1)) * n
    f = len(st[0])
    w, m = bit // 32, ((1 << n) - 1) << bit % 32
    st[w // f][w % f] = st[w // f][w % f] & ~m | v << bit % 32 & m


def p_expr(e, prog):
    k = e[0]
    if k == 'k':
        return str(e[1])
    if k in 'pvi' and len(e) == 2:
        return '%s%d' % (k, e[1])
    if k == 't':
        t, vs = prog['k'][e[1]]
        return 'T%d[%s & %d]' % (e[1], p_expr(e[2], prog), len(vs) - 1)
    if k == 'g':
        return 'G%d[%s & %d]' % (e[1], p_expr(e[2], prog), prog['g'][e[1]][1] - 1)
    if k == 'a':
        return 'a[%s & A]' % p_expr(e[1], prog)
    if k == 'pld':
        return 'pld(ST, %r, %s)' % (e[1], p_expr(e[2], prog))
    if k == 's':
        return 'ST[%s & 3][%d]' % (p_expr(e[1], prog), e[2])
    if k == '?':
        c, a, b = (p_expr(x, prog) for x in e[1:])
        return '(%s if %s else %s)' % (a, c, b)
    if k == 'w':
        return 'wide(%r, %d, %s)' % (e[1], e[2], ', '.join(p_expr(x, prog) for x in e[3:]))
    if len(e) == 2:
        x = p_expr(e[1], prog)
        if k in TYPES:
            return 'convert(%r, %s)' % (k, x)
        return {'rev': 'rev(%s)', 'rev16': 'ror(rev(%s), 16)', 'revsh': 'sx(rev(%s) >> 16, 16)', '!': 'int(not %s)',
                '~': '(~%s & M32)', '-': '(-%s & M32)'}[k] % x
    a, b = p_expr(e[1], prog), p_expr(e[2], prog)
    if k == 'ror':
        return 'ror(%s, %s)' % (a, b)
    if k == '<<':
        return '((%s << (%s & 31)) & M32)' % (a, b)
    if k == '>>':
        return '(%s >> (%s & 31))' % (a, b)
    if k == '>>s':
        return '(((%s ^ H) - H >> (%s & 31)) & M32)' % (a, b)
    if k in ('/', '%'):
        return '(%s %s (%s | 1))' % (a, '//' if k == '/' else '%', b)
    if k == '&~':
        return '(%s & ~%s)' % (a, b)
    if k == 'tst':
        return 'int((%s & %s) == 0)' % (a, b)
    if k in ('&&', '||'):
        return 'int(bool(%s %s %s))' % (a, 'and' if k == '&&' else 'or', b)
    if k.endswith('s'):
        return 'int((%s ^ H) %s (%s ^ H))' % (a, k[:-1], b)
    if k in ('<', '<=', '>', '>=', '==', '!='):
        return 'int(%s %s %s)' % (a, k, b)
    return '((%s %s %s) & M32)' % (a, k, b)


def p_block(b, prog, n, depth, ind):
    out = []
    p = ' ' * ind

    def x(e):
        return p_expr(e, prog)
    for s in b:
        k = s[0]
        if k == 'set':
            out.append('%sv%d = %s' % (p, s[1], x(s[2])))
        elif k == 'gst':
            t, ln, _ = prog['g'][s[1]]
            out.append('%sG%d[%s & %d] = convert(%r, %s)' % (p, s[1], x(s[2]), ln - 1, t, x(s[3])))
        elif k == 'gop':
            t, ln, _ = prog['g'][s[1]]
            out.append('%sx = %s & %d' % (p, x(s[2]), ln - 1))
            out.append('%sG%d[x] = convert(%r, G%d[x] %s %s)' % (p, s[1], t, s[1], s[3], x(s[4])))
        elif k == 'pst':
            out.append('%spst(ST, %r, %s, %s)' % (p, s[1], x(s[2]), x(s[3])))
        elif k == 'ast':
            out.append('%sa[%s & A] = %s' % (p, x(s[1]), x(s[2])))
        elif k == 'scp':
            out.append('%sST[%s & 3] = list(ST[%s & 3])' % (p, x(s[1]), x(s[2])))
        elif k == 'call':
            out.append('%sv%d = f%d(%s)' % (p, s[1], s[2], ', '.join(x(e) for e in s[3])))
        elif k == 'icall':
            out.append('%sv%d = (f%d if %s else f%d)(%s)' % (p, s[1], s[3], x(s[2]), s[4], ', '.join(x(e) for e in s[5])))
        elif k == 'rec':
            out.append('%sv%d = f%d(%s)' % (p, s[1], n, ', '.join(['(p0 & 7) - 1'] + [x(e) for e in s[2]])))
        elif k == 'if':
            out.append('%sif %s:' % (p, x(s[1])))
            out += p_block(s[2], prog, n, depth, ind + 1)
            if s[3]:
                out.append(p + 'else:')
                out += p_block(s[3], prog, n, depth, ind + 1)
        elif k in ('for', 'while', 'do'):
            out.append('%sfor i%d in range((%s & %d)%s):' % (p, depth, x(s[2]), s[1], ' + 1' if k == 'do' else ''))
            out += p_block(s[3], prog, n, depth + 1, ind + 1)
        elif k in ('break', 'continue'):
            out.append('%sif %s: %s' % (p, x(s[1]), k))
        elif k == 'ret':
            out.append('%sif %s: return %s' % (p, x(s[1]), x(s[2])))
        elif k == 'switch':
            out.append('%ssel = %s & 7' % (p, x(s[1])))
            for j, y in enumerate(s[2]):
                out.append('%s%s sel == %d:' % (p, 'elif' if j else 'if', j))
                out += p_block(y, prog, n, depth, ind + 1)
            out.append(p + 'else:')
            out += p_block(s[3], prog, n, depth, ind + 1)
    return out or [p + 'pass']


class Meaning(object):
    """The program's functions and its data, as Python."""
    def __init__(self, prog):
        self.prog = prog
        ns = dict(M32=M32, H=H, sx=sx, convert=convert, rev=rev, ror=ror, wide=wide, pld=pld, pst=pst)
        rng = prog['seed']
        for n, (t, ln, _) in enumerate(prog['g']):
            vals = []
            for _ in range(ln):
                rng = (rng * 1664525 + 1013904223) & M32
                vals.append(convert(t, rng >> 5 ^ rng >> 13))
            ns['G%d' % n] = vals
        for n, (t, vs) in enumerate(prog['k']):
            ns['T%d' % n] = [convert(t, v) for v in vs]
        ns['ST'] = [[(rng + i * 0x9e3779b9 + j * 0x7f4a7c15) & M32 for j in range(prog['s'])] for i in range(4)]
        src = []
        for n, f in enumerate(prog['f']):
            src.append('def f%d(%s):' % (n, ', '.join('p%d' % i for i in range(f['p']))))
            src += [' v%d = %d' % (i, i) for i in range(f['l'])]
            if f['a']:
                src.append(' A = %d; a = [i * p0 & M32 for i in range(%d)]' % (f['a'] - 1, f['a']))
            if f['rec'] is not None:
                src.append(' if not p0 & 7: return %s' % p_expr(f['rec'], prog))
            src += p_block(f['b'], prog, n, 0, 1)
            src.append(' return %s' % p_expr(f['r'], prog))
        exec('\n'.join(src) + '\n', ns)
        self.ns = ns

    def call(self, n, args):
        return self.ns['f%d' % n](*args[:self.prog['f'][n]['p']])

    def data(self):
        """name: bytes, as the globals lie in memory."""
        out = {}
        for n, (t, ln, _) in enumerate(self.prog['g']):
            w = TYPES[t][1] // 8
            out['g%d' % n] = b''.join((v & ((1 << 8 * w) - 1)).to_bytes(w, 'little') for v in self.ns['G%d' % n])
        out['st'] = b''.join(v.to_bytes(4, 'little') for s in self.ns['ST'] for v in s)
        return out


# ------------------------------------------------------------------ machine code
FLAGS = ['-ffreestanding', '-fno-builtin', '-fwrapv', '-fno-strict-aliasing', '-w', '-fno-unwind-tables',
         '-fno-asynchronous-unwind-tables', '-fno-pic', '-fno-common', '-fno-jump-tables']


def clang(args):
    p = subprocess.run(['clang'] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    compile.error = p.stdout.decode('utf-8', 'replace')
    return not p.returncode


def runtime(base, args, known={}):
    """The object file of the runtime functions for these options, made once per process."""
    key = ' '.join(args)
    if key not in known:
        path = '%s-rt%d' % (base, len(known))
        with open(path + '.c', 'w') as f:
            f.write(DEFS + RUNTIME)
        if not clang(args + ['-c', path + '.c', '-o', path + '.o']):
            return None
        known[key] = path + '.o'
    return known[key]


def compile(source, target, options):
    """(segments, symbols) of the linked program, or None where the compiler refuses it."""
    scratch = os.environ.get('VERIF_SCRATCH', '/tmp')
    base = os.path.join(scratch, 'prog-%d' % os.getpid())
    script = base + '.ld'
    args = ['--target=' + target] + FLAGS + list(options)
    with open(script, 'w') as f:
        f.write(LINK)
    with open(base + '.c', 'w') as f:
        f.write(source)
    try:
        rt = runtime(base, args)
        if rt is None or not clang(args + [base + '.c', rt, '-o', base + '.elf', '-nostdlib', '-fuse-ld=lld', '-Wl,-T,' + script, '-Wl,--entry=f0']):
            return None
        with open(base + '.elf', 'rb') as f:
            return parse(f.read())
    except OSError as e:
        compile.error = str(e)
        return None
    finally:
        for ext in ('.ld', '.c', '.elf'):
            if os.path.exists(base + ext):
                os.unlink(base + ext)


compile.error = ''


def parse(elf):
    shoff, = struct.unpack_from('<I', elf, 32)
    phoff, = struct.unpack_from('<I', elf, 28)
    phnum, = struct.unpack_from('<H', elf, 44)
    shnum, = struct.unpack_from('<H', elf, 48)
    segs = []
    for i in range(phnum):
        typ, off, va, pa, fs, ms = struct.unpack_from('<6I', elf, phoff + 32 * i)
        if typ == 1 and ms and va >= TEXT:
            segs.append((va, bytes(elf[off:off + fs]), ms))
    syms = {}
    secs = [struct.unpack_from('<10I', elf, shoff + 40 * i) for i in range(shnum)]
    for s in secs:
        if s[1] == 2:
            strs = secs[s[6]][4]
            for o in range(s[4], s[4] + s[5], 16):
                name, value = struct.unpack_from('<II', elf, o)
                end = elf.index(b'\0', strs + name)
                syms[bytes(elf[strs + name:end]).decode()] = value
    return segs, syms
