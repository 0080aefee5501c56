"""Callers that pass one variable as an input and as an output of a call: the
implementation must see the value from before the call, the variable holds the
implementation's output afterwards. C and C++ stubs, C skeleton, copying transport."""
import os, shutil
from . import common

DECL = '''interface IO { method z(); };
struct T { uint64 a; IO o; };
struct O16 { IO o; };
struct M16 { uint64 a; int64 b; };
struct S3 { uint8[3] a; };
struct P { uint64[4] a; };
struct N { O16 x; uint64 p; interface y; };
struct D { N n; T[2] t; };
'''
LEAF = {'T': ['a', 'o'], 'O16': ['o'], 'M16': ['a', 'b'], 'S3': ['a[0]', 'a[2]'], 'P': ['a[0]', 'a[3]'], 'N': ['x.o', 'p', 'y'], 'D': ['n.x.o', 'n.p', 'n.y', 't[0].a', 't[0].o', 't[1].a', 't[1].o'],
        'uint8': [''], 'uint64': [''], 'IO': ['']}
OBJ = ('o', 'y')
# (input type, output type) pairs in call order; an upper-case direction letter marks the aliased pair
METHODS = []
for t in ('T', 'O16', 'M16', 'S3', 'P', 'N', 'D', 'uint8', 'uint64', 'IO', 'IO[3]'):
    for order in ('io', 'oi'):
        for pre in ((), (('in', 'uint8'),), (('out', 'uint64'),), (('in', 'uint64'), ('out', 'uint8'))):
            METHODS.append((t, order, pre))
for t in ('T[]', 'P[]', 'uint8[]', 'uint64[]', 'buffer'):
    for order in ('io', 'oi'):
        METHODS.append((t, order, (('in', 'uint8'), ('out', 'uint64'))))
METHODS = [m for m in METHODS if m[0] != 'T[]']    # arrays of structs with objects are refused


def text():
    ms = []
    for k, (t, order, pre) in enumerate(METHODS):
        ps = ['in %s a' % t, 'out %s b' % t]
        ps = ps if order == 'io' else ps[::-1]
        ms.append('method m%d(%s);' % (k, ', '.join(ps + ['%s %s e%d' % (d, x, j) for j, (d, x) in enumerate(pre)])))
    return DECL + 'interface IA {\n%s\n};\n' % '\n'.join(ms)


CT = {'uint8': 'uint8_t', 'uint64': 'uint64_t'}
OBJLEAF = lambda l: l.split('.')[-1] in OBJ


def leaves(t):
    """(accessor, is object)"""
    if t == 'IO[3]':
        return [('[%d]' % i, True) for i in range(3)]
    if t == 'IO':
        return [('', True)]
    if t in CT:
        return [('', False)]
    return [('.' + l, OBJLEAF(l)) for l in LEAF[t]]


def elems(t):
    return [('[%d]%s' % (i, l), o) for i in range(3) for l, o in leaves(t[:-2])] if t != 'buffer' else [('[%d]' % i, False) for i in range(6)]


def elemtype(t):
    return 'uint8_t' if t == 'buffer' else CT.get(t[:-2], t[:-2])


def sources():
    imp, cm, pm = '', '', ''
    for k, (t, order, pre) in enumerate(METHODS):
        arr = t.endswith('[]') or t == 'buffer'
        ct = CT.get(t, t)
        oarr = t == 'IO[3]'
        ls = elems(t) if arr else leaves(t)
        # ---- implementation (C)
        if arr:
            e = elemtype(t)
            v = 'void' if t == 'buffer' else e
            pin, pout = 'const %s *a, size_t al' % v, '%s *b, size_t bl, size_t *blo' % v
            A, B = ['((const %s *)a)%s' % (e, l) for l, _ in ls], ['((%s *)b)%s' % (e, l) for l, _ in ls]
        elif oarr:
            pin, pout = 'const IO (*a)[3]', 'IO (*b)[3]'
            A, B = ['(*a)' + l for l, _ in ls], ['(*b)' + l for l, _ in ls]
        elif t in CT or t == 'IO':
            pin, pout = ct + ' a', ct + ' *b'
            A, B = ['a'], ['(*b)']
        else:
            pin, pout = 'const %s *a' % ct, ct + ' *b'
            A, B = ['(*a)' + l for l, _ in ls], ['(*b)' + l for l, _ in ls]
        ps = [pin, pout] if order == 'io' else [pout, pin]
        for j, (d, x) in enumerate(pre):
            ps.append('%s %se%d' % (CT[x], '*' if d == 'out' else '', j))
        body = ''.join('  want(%d, "implementation", %d, %s);\n' % (k, i, ('(long)%s.context' if o else '(long)%s') % (a,) + ', ' + ('(long)&pool[%d]' % (10 + i) if o else str(10 + i))) for i, ((l, o), a) in enumerate(zip(ls, A)))
        body += ''.join('  memset(b, 0, bl * sizeof(%s)); *blo = bl;\n' % elemtype(t) for _ in '1' if arr and t != 'buffer') + ('  *blo = bl;\n' if t == 'buffer' else '')
        if not arr and not oarr and t not in CT and t != 'IO':
            body += '  { %s z = {0}; *b = z; }\n' % t
        body += ''.join('  %s = %s;\n' % (b, 'mk(%d)' % (40 + i) if o else str(40 + i)) for i, ((l, o), b) in enumerate(zip(ls, B)))
        body += ''.join('  want(%d, "extra", %d, (long)e%d, %d);\n' % (k, j, j, 90 + j) if d == 'in' else '  *e%d = %d;\n' % (j, 90 + j) for j, (d, x) in enumerate(pre))
        imp += 'int32_t im_m%d(X *me, %s) {\n (void)me; entered++;\n%s  return 0;\n}\n' % (k, ', '.join(ps), body)
        # ---- callers
        for lang in 'c', 'cpp':
            obj = lambda i: 'mk(%d)' % i if lang == 'c' or (not oarr and t != 'IO') else 'IO(mk(%d))' % i
            ctx = (lambda e: '(long)%s.context' % e) if lang == 'c' or (not oarr and t != 'IO') else (lambda e: '(long)%s.get().context' % e)
            n = 3
            if arr:
                e = elemtype(t)
                m = '  { static %s v[%d]; size_t lo = 77; memset(v, 0, sizeof v);\n' % (e, 6 if t == 'buffer' else n)
                cnt = 6 if t == 'buffer' else n
                a1, a2 = 'v, %d' % cnt, 'v, %d, &lo' % cnt
            elif oarr:
                m = '  { IO v[3];\n'
                a1, a2 = ('(const IO (*)[3])&v', '&v') if lang == 'c' else ('v', 'v')
            elif t in CT or (t == 'IO' and lang == 'c'):
                m = '  { %s v;\n' % ct
                a1, a2 = 'v', '&v'
            else:
                m = '  { %s v; %s\n' % (ct, '' if t == 'IO' else 'memset(&v, 0, sizeof v);')
                a1, a2 = ('&v', '&v') if lang == 'c' else ('v', 'v')
            m += ''.join('   v%s = %s;\n' % (l, obj(10 + i) if o else str(10 + i)) for i, (l, o) in enumerate(ls))
            args = [a1, a2] if order == 'io' else [a2, a1]
            for j, (d, x) in enumerate(pre):
                if d == 'out':
                    m += '   %s x%d = 0;\n' % (CT[x], j)
                args.append('&x%d' % j if d == 'out' else str(90 + j))
            m += '   int before = entered; int32_t r = %s%s);\n' % ('IA_m%d(o, ' % k if lang == 'c' else 'p.m%d(' % k, ', '.join(args))
            m += '   want(%d, "status", 0, r, 0); want(%d, "entries", 0, entered - before, 1);\n' % (k, k)
            m += ''.join('   want(%d, "caller", %d, %s, %s);\n' % (k, i, ctx('v' + l) if o else '(long)v' + l, '(long)&pool[%d]' % (40 + i) if o else 40 + i) for i, (l, o) in enumerate(ls))
            m += ''.join('   want(%d, "extra", %d, (long)x%d, %d);\n' % (k, j, j, 90 + j) for j, (d, x) in enumerate(pre) if d == 'out')
            if arr:
                m += '   want(%d, "length", 0, (long)lo, %d);\n' % (k, cnt)
            m += '  }\n'
            if lang == 'c':
                cm += m
            else:
                pm += m
    common_h = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "object.h"
#ifdef __cplusplus
extern "C" {
#endif
extern int entered, checks;
extern int pool[128];
void want(int m, const char *who, int i, long got, long exp);
Object mk(int i);
Object server(void);
#ifdef __cplusplus
}
#endif
'''
    imp = common_h + '#include "al_invoke.h"\ntypedef struct { int x; } X;\nint entered, checks; int pool[128];\n' + '''
void want(int m, const char *who, int i, long got, long exp) { checks++; if (got != exp) printf("BAD m%d %s %d got %ld expected %ld\\n", m, who, i, got, exp); }
static int32_t obj(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) { (void)a; (void)k; if (op == Object_OP_retain) ++*(int *)h; else if (op == Object_OP_release) --*(int *)h; return 0; }
Object mk(int i) { Object o = { obj, &pool[i] }; return o; }
static int32_t im_release(X *x) { (void)x; return 0; }
static int32_t im_retain(X *x) { (void)x; return 0; }
''' + imp + '''
static IA_DEFINE_INVOKE(inv, im_, X *)
static int32_t wire(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) {
  if (op == Object_OP_retain || op == Object_OP_release) return 0;
  int bi = ObjectCounts_numBI(k), bo = ObjectCounts_numBO(k), n = bi + bo + ObjectCounts_numOI(k) + ObjectCounts_numOO(k);
  ObjectArg c[64];
  for (int i = 0; i < n; i++) {
    c[i] = a[i];
    if (i < bi + bo) { c[i].b.ptr = malloc(a[i].b.size + 1); if (i < bi) memcpy(c[i].b.ptr, a[i].b.ptr, a[i].b.size); else memset(c[i].b.ptr, 0xa5, a[i].b.size); }
    else if (i >= bi + bo + ObjectCounts_numOI(k)) c[i].o = Object_NULL;
  }
  int32_t r = inv(h, op, c, k);
  for (int i = 0; i < n; i++) {
    if (i >= bi && i < bi + bo && r == 0) { memcpy(a[i].b.ptr, c[i].b.ptr, c[i].b.size); a[i].b.size = c[i].b.size; }
    if (i < bi + bo) free(c[i].b.ptr); else if (i >= bi + bo + ObjectCounts_numOI(k) && r == 0) a[i].o = c[i].o;
  }
  return r;
}
static X x;
Object server(void) { Object o = { wire, &x }; return o; }
'''
    c = common_h + '#include "al.h"\nint main(void) {\n Object o = server();\n' + cm + ' printf("done %d\\n", checks);\n return 0;\n}\n'
    p = common_h + '#include "al.hpp"\nint main() {\n IA p(server());\n' + pm + ' printf("done %d\\n", checks);\n return 0;\n}\n'
    return imp, c, p


def run(ctx, idlc):
    d = ctx.mkdir('alias')
    src = os.path.join(d, 'al.idl')
    open(src, 'w').write(text())
    files = {'al.idl': text()}
    try:
        for args, out in ((['--c', '--skel'], 'al_invoke.h'), (['--c'], 'al.h'), (['--cpp'], 'al.hpp')):
            r = idlc([src] + args + ['-o', os.path.join(d, out)])
            if not common.accepted(r):
                ctx.count('alias_not_compiled')
                return
        for n, t in zip(('imp.c', 'c.c', 'p.cpp'), sources()):
            open(os.path.join(d, n), 'w').write(t)
        I = ['-I/repo/tests/c', '-I/repo/tests/cpp', '-I' + d, '-w', '-g', '-fsanitize=address']
        for n, cmd in (('c', ['clang'] + I + ['imp.c', 'c.c', '-o', 'c']), ('cpp', ['clang', '-c'] + I + ['imp.c', '-o', 'imp.o']), ('cpp', ['clang++'] + I + ['imp.o', 'p.cpp', '-o', 'cpp'])):
            r = common.run(cmd, cwd=d, timeout=200, text=True)
            if r.returncode:
                ctx.count('alias_not_built')
                ctx.sample('alias: ' + r.stderr[:600])
                return
        for n in ('c', 'cpp'):
            r = common.run(['./' + n], cwd=d, timeout=60, text=True, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
            bad = [l for l in r.stdout.splitlines() if l.startswith('BAD')]
            for l in bad[:20]:
                m = int(l.split()[1][1:])
                ctx.violation('alias:%s:%s:%s' % (n, l.split()[2], ' '.join(map(str, METHODS[m][:2]))), '%s stub, one variable for the input a and the output b of method m%d: %s' % (n, m, l), files)
            if not bad and 'done' not in r.stdout:
                ctx.violation('alias:%s:crash' % n, 'one variable as input and output: exit %s %s' % (r.returncode, r.stderr[:1500]), files)
            for k in range(len(METHODS)):
                ctx.case(('alias', n, k))
                ctx.count('calls_with_one_variable_in_and_out')
    finally:
        shutil.rmtree(d, ignore_errors=True)
