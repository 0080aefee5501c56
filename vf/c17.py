"""C17: constants observed in compiled probe programs of all four languages."""
import os, random, shutil, struct as st
from fractions import Fraction
from . import common, gen, glue, jv, rt
from .idl import *

INTS = gen.INT_LIMITS
FLT_MAX = Fraction(2 ** 128 - 2 ** 104)


def f32_bits(x):
    """correctly rounded binary32 image of a Fraction"""
    sgn = 0x80000000 if x < 0 else 0
    x = abs(x)
    if x == 0:
        return sgn
    e = -149
    m = x / Fraction(2) ** e
    while m >= 2 ** 24:
        m /= 2
        e += 1
    q, r = divmod(m.numerator, m.denominator)
    r = Fraction(r, m.denominator)
    if r > Fraction(1, 2) or r == Fraction(1, 2) and q & 1:
        q += 1
    if q == 2 ** 24:
        q //= 2
        e += 1
    if q < 2 ** 23:
        return sgn | q
    return sgn | (e + 150) << 23 | q - 2 ** 23


def value_of(ty, lit):
    """bit image (int) the declared type must hold; exact for in-range literals"""
    neg, body = lit.startswith('-'), lit.lstrip('-')
    x = Fraction(int(body, 16)) if body.startswith('0x') else Fraction(body)
    x = -x if neg else x
    if ty == 'float32':
        return f32_bits(x) if x or not neg else 0x80000000
    if ty == 'float64':
        v = float(x)
        if v == 0 and neg:
            v = -0.0
        return st.unpack('<Q', st.pack('<d', v))[0]
    return int(x) % 2 ** (8 * PRIMS[ty])


def spell(rng, v):
    """an integer literal with value v"""
    s = '-' if v < 0 else ''
    h = '%x' % abs(v)
    k = rng.random()
    z = '0' * rng.choice([0, 0, 0, 1, 2, 7, 25])
    if k < .3:
        return s + '0x' + z + h
    if k < .4:
        return s + '0x' + z + h.upper()
    if k < .5:
        return s + '0x' + z + ''.join(rng.choice([c, c.upper()]) for c in h)
    return s + z + str(abs(v))


def in_range(rng, ty):
    if ty in INTS:
        lo, hi = INTS[ty]
        v = rng.choice([lo, hi, lo, hi, lo + 1, hi - 1, 0, 1, hi // 2, hi // 2 + 1, -1 if lo else 7, rng.randint(lo, hi), rng.randint(lo, hi),
                        min(hi, 128), min(hi, 255), min(hi, 256), min(hi, 32768), min(hi, 65535), min(hi, 2 ** 31 - 1), min(hi, 2 ** 31), min(hi, 2 ** 32 - 1), min(hi, 2 ** 63 - 1), min(hi, 2 ** 63)])
        t = spell(rng, v)
        return t if v >= 0 or lo < 0 else t.lstrip('-')
    k = rng.random()
    s = rng.choice(['', '', '-'])
    if k < .15:
        return s + rng.choice(['0', '0.0', '1', '00', '007', '08.5', '010', '010.25', '3', '16777217', '16777219', '2147483648', '4294967296', '18446744073709551616', '9007199254740993'])
    if k < .3:
        return s + '0x' + '%x' % rng.choice([0, 1, 0xe5, 0x1e5, 0xff, 0xf, 0xd, rng.getrandbits(30), rng.getrandbits(63), 0x1000001, 0x1000003, 2 ** 64 + 1])
    if k < .4:
        return s + rng.choice(['0.1', '0.2', '0.3', '3.14159265358979323846', '2.718281828459045', '0.333333333333333333333333', '1.0000001', '16777216.5', '0.00000011920928955078125'])
    if k < .5:
        e = rng.randrange(20, 300 if ty == 'float64' else 38)
        return s + rng.choice(['0.' + '0' * (e - 1) + str(rng.randrange(1, 999)), str(rng.randrange(1, 9)) + '0' * e + '.0', str(rng.randrange(1, 9)) + '7' * e])
    if k < .55:
        m = str(int(FLT_MAX)) if ty == 'float32' else '17976931348623157' + '0' * 292
        return s + m + rng.choice(['', '.0'])
    if k < .6:
        return s + '0.' + '0' * (330 if ty == 'float64' else 47) + '3'   # rounds to zero
    if k < .65:
        return s + '0.' + '0' * (320 if ty == 'float64' else 42) + '3'   # subnormal
    return s + '%d.%0*d' % (rng.getrandbits(rng.choice([1, 4, 10, 20, 40])), rng.randrange(1, 12), rng.getrandbits(3))


def out_of_range(rng, ty):
    lo, hi = INTS[ty]
    if lo == 0 and rng.random() < .35:
        return rng.choice(['-1', '-0x1', '-%d' % hi, '-0x%x' % hi, '-%d' % rng.randint(1, hi)])
    w = hi - lo + 1
    v = rng.choice([hi + 1, hi + 1, lo - 1, hi + 2, lo - 2, hi + w, lo - w, 2 * hi + 2, hi * 16, 2 ** 64, 2 ** 64 + 1, -2 ** 63 - 1, 2 ** 128, 2 ** 128 + 1, 2 ** 200, -2 ** 200,
                    w, w + 1, hi + rng.randint(1, hi + 1), lo - rng.randint(1, hi + 1)])
    if v == lo - 1 and lo == 0 or lo <= v <= hi:
        v = hi + 1
    return spell(rng, v)


def program(rng, i):
    nf = rng.choice([1, 1, 2, 3])
    stems = ['cs%d%s' % (i, 'abc'[k]) for k in range(nf)]
    files = [File(s + '.idl', [x + '.idl' for x in stems[k + 1:k + 2]] + ([stems[2] + '.idl'] if k == 0 and nf == 3 and rng.random() < .5 else []), []) for k, s in enumerate(stems)]
    cnt = 0
    lvl = sorted((rng.randrange(nf) for _ in range(5)), reverse=True)
    base = None

    def const(prefix):
        nonlocal cnt
        cnt += 1
        ty = rng.choice(PRIM_NAMES)
        return Const(ty, '%s_%d' % (prefix, cnt), in_range(rng, ty))
    for f in files:
        for _ in range(rng.randrange(4, 14)):
            f.decls.append(const('KF'))
    for k in range(5):
        it = Interface('IC%d' % k, base if rng.random() < .75 else None, [])
        for _ in range(rng.randrange(0, 10)):
            it.members.append(const('KI'))
            if rng.random() < .2:
                it.members.append(rng.choice([Method('mt%d' % cnt, []), Error('ER%d' % cnt)]))
        base = it.name
        files[lvl[k]].decls.append(it)
    for f in files:
        rng.shuffle(f.decls)
    return Program(files)


def directed():
    """every type at its boundaries in every spelling"""
    decls, it = [], Interface('IAll', None, [])
    k = 0
    for ty in PRIM_NAMES:
        if ty in INTS:
            lo, hi = INTS[ty]
            lits = [f % ('-' if v < 0 else '', abs(v)) for v in sorted({lo, lo + 1, -1 if lo else 1, 0, 1, hi // 2, hi // 2 + 1, hi - 1, hi}) for f in ('%s%d', '%s0x%x', '%s0x%X', '%s00%d', '%s0x00%x')]
        else:
            lits = ['0', '-0', '0.0', '-0.0', '1', '-1', '1.5', '-1.5', '010', '010.5', '0x10', '0xe5', '0x1e5', '-0xff', '0.1', '16777217', '9007199254740993', '340282346638528859811704183484516925440', '0.' + '0' * 44 + '2']
        for l in lits:
            k += 1
            c = Const(ty, 'KD_%d' % k, l)
            (decls if k % 2 else it.members).append(c)
    return Program([File('csdir.idl', [], decls + [it, Interface('IDer', 'IAll', [Const('int64', 'KD_OWN', '-0x8000000000000000')])])])


def listing(prog):
    """[(scope, Const, inherited?)]"""
    out = []
    for f in prog.files:
        for d in f.decls:
            if d.kind == 'const':
                out.append(((None, glue.stem(f.path)), d, False))
    for n in prog.ifaces:
        for it in prog.chain(n):
            for c in it.consts:
                out.append(((n, None), c, it.name != n))
    return out


C_HEAD = r'''
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include "object.h"
%s
#define TY(x) _Generic((x), int8_t: "int8", uint8_t: "uint8", int16_t: "int16", uint16_t: "uint16", int32_t: "int32", uint32_t: "uint32", \
  int64_t: "int64", uint64_t: "uint64", float: "float32", double: "float64", default: "other")
static uint64_t fb(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t db(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
#define BITS(x) _Generic((x), float: fb, double: db, default: ib)(x)
static uint64_t ib(__int128 x) { return (uint64_t)x; }
#define P(k, x) printf("V %%s %%s %%llx %%d\n", k, TY(x), (unsigned long long)BITS(x), (x) < 0);
int main(void) {
%s
 return 0; }
'''
CPP_HEAD = r'''
#include <cstdio>
#include <cstdint>
#include <cstring>
%s
template <class T> struct N { static const char *n() { return "other"; } };
#define NM(t, s) template <> struct N<t> { static const char *n() { return s; } };
NM(int8_t, "int8") NM(uint8_t, "uint8") NM(int16_t, "int16") NM(uint16_t, "uint16") NM(int32_t, "int32") NM(uint32_t, "uint32")
NM(int64_t, "int64") NM(uint64_t, "uint64") NM(float, "float32") NM(double, "float64")
template <class T> void p(const char *k, T x) { unsigned long long u = 0; if (N<T>::n()[0] == 'f') memcpy(&u, &x, sizeof x); else u = (unsigned long long)(__int128)x;
  printf("V %%s %%s %%llx %%d\n", k, N<T>::n(), u, x < 0); }
int main() {
%s
 return 0; }
'''
RS_HEAD = r'''#![allow(warnings)]
#[path = "%s"]
mod object;
mod interfaces {
%s
}
trait B { const N: &'static str; fn b(self) -> (u64, bool); }
macro_rules! i { ($($t:ty, $s:expr;)*) => { $(impl B for $t { const N: &'static str = $s; fn b(self) -> (u64, bool) { (self as i128 as u64, (self as i128) < 0) } })* } }
i! { i8, "int8"; u8, "uint8"; i16, "int16"; u16, "uint16"; i32, "int32"; u32, "uint32"; i64, "int64"; u64, "uint64"; }
impl B for f32 { const N: &'static str = "float32"; fn b(self) -> (u64, bool) { (self.to_bits() as u64, self < 0.0) } }
impl B for f64 { const N: &'static str = "float64"; fn b(self) -> (u64, bool) { (self.to_bits(), self < 0.0) } }
fn p<T: B>(k: &str, x: T) { let (u, n) = x.b(); println!("V {} {} {:x} {}", k, T::N, u, n as u8); }
fn main() {
%s
}
'''


def probe(ctx, idlc, prog, d, extra):
    """{(lang, key index): (type, bits, negative)}, [(stage, message)]"""
    L = listing(prog)
    got, fails = {}, []
    mods = []
    prog.write(d)

    def absorb(lang, text):
        for l in text.splitlines():
            t = l.split(' ')
            if t[0] == 'V':
                got[lang, int(t[1])] = (t[2], int(t[3], 16), t[4] == '1')
    for be in ('c', 'cpp', 'rust'):
        try:
            mods += rt.generate(idlc, prog, d, [be], extra)
        except rt.BuildFail as e:
            fails.append((e.stage, e.what))
    inc = lambda ext: ''.join('#include "%s%s"\n' % (glue.stem(f.path), ext) for f in prog.files)
    cc, cp, rs = '', '', ''
    for k, ((iface, stem), c, inh) in enumerate(L):
        cc += ' P("%d", %s)\n' % (k, '%s_%s' % (iface, c.name) if iface else c.name)
        cp += ' p("%d", %s);\n' % (k, '%s::%s' % (iface, c.name) if iface else c.name)
        if not inh:
            rs += ' p("%d", interfaces::%s::%s);\n' % (k, iface.lower() if iface else stem, c.name.upper())
    W = lambda n, t: (open(os.path.join(d, n), 'w').write(t), os.path.join(d, n))[1]
    jobs = []
    csrc = W('k.c', C_HEAD % (inc('.h'), cc))
    psrc = W('k.cpp', CPP_HEAD % (inc('.hpp'), cp))
    isrc = W('ki.c', C_HEAD % (inc('_invoke.h'), cc))
    qsrc = W('ki.cpp', CPP_HEAD % (inc('_invoke.hpp'), cp))
    rsrc = W('k.rs', RS_HEAD % (rt.OBJ_RS, '\n'.join('    pub mod %s { include!("%s"); }' % m for m in mods), rs))
    jobs = [('c', 'gcc', ['gcc', '-w', '-I/repo/tests/c', '-I' + d + '/c', csrc]), ('c', 'clang', ['clang', '-w', '-I/repo/tests/c', '-I' + d + '/c', isrc]),
            ('cpp', 'g++', ['g++', '-w', '-I/repo/tests/c', '-I/repo/tests/cpp', '-I' + d + '/cpp', psrc]), ('cpp', 'clang++', ['clang++', '-w', '-I/repo/tests/c', '-I/repo/tests/cpp', '-I' + d + '/cpp', qsrc]),
            ('rust', 'rustc', ['rustc', '--edition', '2021', '-Awarnings', '--cfg', 'feature="std"', rsrc])]
    for be, tool, cmd in jobs:
        if any(be == s.split()[-1] for s, _ in fails):
            continue
        exe = os.path.join(d, 'k_' + tool)
        r = common.run(cmd + ['-o', exe], cwd=d, timeout=200, text=True)
        if r.returncode:
            fails.append(('compile ' + tool, r.stderr[:2500]))
            continue
        absorb(tool, common.run([exe], timeout=60, text=True).stdout)
    try:
        src = jv.generate(idlc, prog, d, extra)
        cls = jv.compile(d, src)
        s = jv.JScript(Program([]))
        s.lines.append('consts ' + ' '.join(sorted(f[:-5] for f in os.listdir(src) if f.endswith('.java'))))
        _, consts = s.execute(d, cls)
        m = {(t[0], t[1]): (t[2], t[3]) for t in consts}
        for k, ((iface, stem), c, inh) in enumerate(L):
            v = m.get((iface, '%s_%s' % (iface, c.name.upper()))) if iface else m.get((stem, c.name))
            if v is None:
                continue
            ty, val = v
            w = {'byte': 8, 'char': 16, 'short': 16, 'int': 32, 'long': 64, 'float': 32, 'double': 64}[ty]
            got['java', k] = ('java:' + ty, int(val, 0) % 2 ** w, None)
    except rt.BuildFail as e:
        fails.append((e.stage, e.what))
    return L, got, fails


JT = {'uint8': ('byte',), 'int8': ('byte',), 'uint16': ('char', 'short'), 'int16': ('char', 'short'), 'uint32': ('int',), 'int32': ('int',),
      'uint64': ('long',), 'int64': ('long',), 'float32': ('float',), 'float64': ('double',)}
TOOLS = ('gcc', 'clang', 'g++', 'clang++', 'rustc', 'java')


def form(c):
    b = c.lit.lstrip('-')
    return '%s%s%s' % ('-' if c.lit[0] == '-' else '', 'hex' if b.startswith('0x') else 'frac' if '.' in b else 'dec', '+zeros' if b.replace('0x', '').startswith('00') or (b[0] == '0' and len(b) > 1 and b[1].isdigit()) else '')


def judge(ctx, prog, L, got, fails):
    files = common.program_files(prog)
    for stage, what in fails:
        ctx.violation('build:' + stage, 'constants do not reach %s: %s' % (stage, what), files)
    for k, ((iface, stem), c, inh) in enumerate(L):
        want = value_of(c.ty, c.lit)
        neg = c.ty in INTS and want >= 2 ** (8 * PRIMS[c.ty] - 1) and c.ty[0] == 'i'
        for tool in TOOLS:
            if (tool, k) not in got:
                if tool == 'rustc' and inh or any(tool in s or s.endswith({'gcc': ' c', 'clang': ' c', 'g++': ' cpp', 'clang++': ' cpp', 'rustc': ' rust', 'java': ' java'}[tool]) for s, _ in fails):
                    continue
                ctx.violation('missing:%s' % tool, 'constant %s %s is not in the output for %s' % (iface or stem, c.name, tool), files)
                continue
            ty, bits, isneg = got[tool, k]
            ctx.case((tool, c.ty, form(c), min(want, 10 ** 6) if want < 300 else want.bit_length(), bool(iface), inh))
            ctx.count('values_read_' + tool)
            what = 'const %s %s = %s (%s): ' % (c.ty, c.name, c.lit, iface or stem)
            if tool == 'java':
                if ty[5:] not in JT[c.ty]:
                    ctx.violation('type:java:%s:%s' % (c.ty, ty), what + 'Java type %s' % ty, files)
                if bits != want:
                    ctx.violation('value:java:%s:%s' % (c.ty, form(c)), what + 'Java holds %#x, expected %#x' % (bits, want), files)
                continue
            if ty != c.ty:
                ctx.violation('type:%s:%s:%s' % ('C' if tool in ('gcc', 'clang') else tool, c.ty, ty), what + '%s sees type %s' % (tool, ty), files)
            w = want
            if neg:
                w = want - 2 ** (8 * PRIMS[c.ty]) + 2 ** 64
            if bits != w or (c.ty in INTS and isneg != neg):
                ctx.violation('value:%s:%s:%s' % (tool, c.ty, form(c)), what + '%s holds %#x%s, expected %#x%s' % (tool, bits, ' (negative)' if isneg else '', w, ' (negative)' if neg else ''), files)


# ---------------------------------------------------------------- acceptance of single literals
BES = ['c', 'cskel', 'cpp', 'cppskel', 'rust', 'java']


def one_literal(rng, ty, lit):
    c = Const(ty, 'KX', lit)
    place = rng.choice(['file', 'iface', 'base', 'include', 'inciface'])
    ok = [Const('uint8', 'KOK', '1'), Struct('SOk', [('uint32', 2, 'a')]), Interface('IOk', None, [Method('m', [Param('in', 'prim', 'uint8', 'x')]), Error('EOK')])]
    main = File('lit.idl', [], list(ok))
    files = [main]
    if place == 'file':
        main.decls.insert(rng.randrange(4), c)
    elif place == 'iface':
        main.decls[2].members.insert(rng.randrange(3), c)
    elif place == 'base':
        main.decls.append(Interface('IB', None, [c]))
        main.decls.append(Interface('ID', 'IB', [Method('md', [])]))
    else:
        main.includes.append('inc.idl')
        files.append(File('inc.idl', [], [c] if place == 'include' else [Interface('IInc', None, [Method('mi', []), c])]))
        if rng.random() < .4:
            main.includes = ['mid.idl']
            files.append(File('mid.idl', ['inc.idl'], [Const('int8', 'KMID', '-3')]))
    return Program(files), place


def acceptance(ctx, idlc, n):
    rng = ctx.rng
    cases = []
    for ty in INTS:
        lo, hi = INTS[ty]
        for v in (lo, hi, lo - 1, hi + 1, 0):
            for sp in ({str(v), ('-' if v < 0 else '') + '0x%x' % abs(v), ('-' if v < 0 else '') + '0x%X' % abs(v), ('-' if v < 0 else '') + '00' + str(abs(v))}):
                cases.append((ty, sp, lo <= v <= hi))
        if lo == 0:
            cases += [(ty, s, False) for s in ('-0', '-1', '-0x0', '-0x1')]
    while len(cases) < n:
        ty = rng.choice(list(INTS))
        if rng.random() < .6:
            cases.append((ty, out_of_range(rng, ty), False))
        else:
            cases.append((ty, in_range(rng, ty), True))
    for _ in range(n // 12):
        ty = rng.choice(['float32', 'float64'])
        cases.append((ty, in_range(rng, ty), True))
    d = ctx.mkdir('acc')
    jobs = []
    for i, (ty, lit, good) in enumerate(cases):
        prog, place = one_literal(rng, ty, lit)
        jobs.append((i, ty, lit, good, prog, place, rng.sample(BES, 2), rng.random() < .25))

    def run(j):
        i, ty, lit, good, prog, place, bes, ub = j
        src = prog.write(os.path.join(d, str(i)))
        res = []
        for be in bes:
            for flag in ([False, True] if ub else [False]):
                out = os.path.join(d, '%d-%s-%d' % (i, be, flag))
                if be in ('rust', 'java'):
                    os.makedirs(out)
                r = idlc([src, '--' + be.replace('skel', ''), '-o', out] + (['--skel'] if 'skel' in be else []) + (['--allow-undefined-behavior'] if flag else []))
                res.append((be, flag, r))
        return res
    for j, res in zip(jobs, common.parmap(run, jobs)):
        i, ty, lit, good, prog, place, bes, ub = j
        for be, flag, r in res:
            ctx.case(('accept', ty, lit, be, place, flag))
            ctx.count('literals_in_range' if good else 'literals_out_of_range')
            want = good or flag
            if common.accepted(r) != want:
                ctx.violation('range:%s:%s' % (ty, 'in' if good else 'out'), 'const %s KX = %s; (%s, %s%s) was %s: %s' % (
                    ty, lit, place, be, ' --allow-undefined-behavior' if flag else '', 'accepted' if common.accepted(r) else 'rejected', common.diag(r)), common.program_files(prog))
    shutil.rmtree(d, ignore_errors=True)


def check(ctx):
    idlc = common.Idlc(common.build_idlc())
    ctx.rule = ('random constant sets (every type; range boundaries, decimal, hexadecimal, negative, leading zeros, fractions, subnormal and huge floats) at file and '
                'interface level, own and inherited, over 1-3 files; compiled by gcc, clang, g++, clang++, rustc and javac into probes printing value bits, '
                'type and sign; literals around every range boundary compiled with and without --allow-undefined-behavior. '
                'Distinct by (tool, type, literal form, value, scope)')
    ctx.assumptions += ['Java carries unsigned types in signed ones of the same width (and 16-bit types in char or short): values are compared as bits of that width',
                        'float values are the correctly rounded images of the literal']
    jv.runtime_classes()
    acceptance(ctx, idlc, 6000 if ctx.thorough else 420)
    n = 1200 if ctx.thorough else 24
    seeds = [ctx.rng.getrandbits(48) for _ in range(n)]

    def one(i):
        if ctx.left() < 25:
            return None
        rng = random.Random(seeds[i])
        prog = program(rng, i) if i else directed()
        d = ctx.mkdir('k%d' % i)
        try:
            return (prog,) + probe(ctx, idlc, prog, d, ['--allow-undefined-behavior'] if i % 8 == 7 else [])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for r in common.parmap(one, range(n)):
        if r is None:
            ctx.count('programs_skipped_for_time')
            continue
        ctx.count('programs')
        judge(ctx, *r)
        c = r[1][0][1]
        ctx.sample('const %s %s = %s -> %#x' % (c.ty, c.name, c.lit[:60], value_of(c.ty, c.lit)))
    if not ctx.counters.get('programs'):
        ctx.inconclusive.append('no program was probed')
