"""C07 / C08: numbering of methods and errors, observed in running code."""
import os, random, shutil
from . import c04, common, core, glue, jv, rt
from .idl import *

SHAPES = [[], [], [], [('in', 'prim', 'uint32')], [('in', 'prim', 'uint32')], [('out', 'prim', 'uint32')], [('in', 'buffer', None)],
          [('in', 'prim', 'uint32'), ('out', 'prim', 'uint32')], [('in', 'obj', None)]]
MW = 'alpha beta gamma delta open close read write get set add sub flush sync m1 m2 q zed'.split()


def program(rng, i):
    """interface forests: many same-shaped methods, errors and constants
    interleaved, siblings sharing bases, names reused across unrelated chains"""
    nf = rng.choice([1, 1, 2, 3])
    files = [File('nm%d%s.idl' % (i, 'abc'[k]), ['nm%d%s.idl' % (i, 'abc'[j]) for j in range(k + 1, nf) if j == k + 1 or rng.random() < .5], []) for k in range(nf)]
    n = rng.randrange(14, 20) if i % 6 == 5 else rng.randrange(3, 9)
    names = ['I%s%d' % (rng.choice(['N', 'Na', 'A', 'Ab']), k) for k in range(n)]
    lvl = sorted((rng.randrange(nf) for _ in range(n)), reverse=True)
    ifs, used = [], {}
    for k, nm in enumerate(names):
        base = None
        if k and rng.random() < (.97 if n > 9 else .8):
            base = ifs[-1] if rng.random() < (.95 if n > 9 else .6) else rng.choice(ifs)
        u = used[nm] = set(used[base.name]) if base else set()
        its = []
        for _ in range(rng.choice([0, 0, 1, 2, 3, 5, 8])):
            w = rng.choice(MW)
            if w in u:
                w += '_%d' % len(u)
            if w in u:
                continue
            u.add(w)
            its.append(Method(w, [Param(d, pk, ty, 'a%d_' % j) for j, (d, pk, ty) in enumerate(rng.choice(SHAPES))], rng.random() < .1))
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            w = 'E_%s%d' % (rng.choice(['FULL', 'EMPTY', 'BUSY', 'GONE', 'X']), len(u))
            u.add(w)
            its.append(Error(w))
        for _ in range(rng.choice([0, 0, 1, 2])):
            w = 'K_%s%d' % (rng.choice(['MAX', 'MIN']), len(u))
            u.add(w)
            its.append(Const('uint32', w, str(rng.randrange(100))))
        rng.shuffle(its)
        it = Interface(nm, base.name if base else None, its)
        ifs.append(it)
        files[lvl[k]].decls.append(it)
    if rng.random() < .5:
        for f in files:
            rng.shuffle(f.decls)
    return Program(files)


# ---------------------------------------------------------------- C07
def workload(prog, rng, script, opts):
    core.workload(prog, rng, script, dict(opts, fail=.05, direct=0, vals=1)) if opts['bes'] != ['java'] else jv.workload(prog, rng, script, dict(opts, vals=2, fail=.05))
    ix = core.indexes(prog)
    for impl_if in prog.ifaces:
        for kbe in opts['bes']:
            for op, owner, m in prog.methods(impl_if):
                val = rt.Val(prog, m, rng, 'alias', [0, 1, 3])
                cnt, bi, bo, oi = c04.canonical(prog, m, val)
                c = c04.Raw()
                c.kind, c.prog, c.m, c.kbe, c.sbe, c.impl_if, c.stub_if = 'raw', prog, m, kbe, 'raw', impl_if, impl_if
                c.what, c.expect, c.val, c.status, c.op, c.flags, c.var, c.extra = 'dispatch', 'served', val, 0, op, 0, 'raw_dispatch', 0
                script.raw(c, kbe, ix[impl_if], 0, op, pack_counts(cnt), bi, bo, oi, rt.plan_blob(prog, m, val), 0, 0)


def judge(c, o):
    name = '%s.%s' % (c.impl_if, c.m.name)
    res = []
    if c.kind == 'raw':
        if o.raw is not None and o.impl != [name]:
            res.append(('op', 'op-code %d of %s ran %s, expected %s (status %s)' % (c.op, c.impl_if, o.impl or 'nothing', name, o.raw[0])))
        return res
    for inv in o.inv:
        if inv[0] != c.op:
            res.append(('op', 'stub method %s sent op-code %#x, expected %d' % (c.m.name, inv[0], c.op)))
    if not o.inv:
        res.append(('op', 'stub method %s sent no invocation' % c.m.name))
    if o.impl != [name]:
        res.append(('op', 'stub method %s ran %s, expected %s' % (c.m.name, o.impl or 'nothing', name)))
    return res


def limit_prog(total, split, rng):
    """chain of len(split)+1 interfaces holding `total` methods"""
    cuts = [0] + sorted(split) + [total]
    decls, prev = [], None
    for k in range(len(cuts) - 1):
        ms = [Method('m%d' % j, []) for j in range(cuts[k], cuts[k + 1])]
        if rng.random() < .5:
            ms.insert(rng.randrange(len(ms) + 1), Error('E%d' % k))
        decls.append(Interface('IX%d' % k, prev, ms))
        prev = 'IX%d' % k
    return Program([File('lim.idl', [], decls)])


DISPATCH = r'''
#include <stdio.h>
#include <stdlib.h>
#include "object.h"
#include "lim_invoke.h"
typedef struct { int x; } T;
static int last = -1;
static int32_t im_release(T *t) { (void)t; return 0; }
static int32_t im_retain(T *t) { (void)t; return 0; }
%(impls)s
static %(top)s_DEFINE_INVOKE(inv, im_, T *)
static ObjectOp seen;
static int32_t spy(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) { seen = op; return inv(h, op, a, k); }
int main(void) {
  T t; Object o = { spy, &t }; 
%(calls)s
  return 0;
}
'''


def limits(ctx, idlc):
    """0x4000 methods fit, one more does not; the top op-codes really dispatch"""
    rng = ctx.rng
    M = 0x4000
    cases = []
    for total in (M - 1, M, M + 1, M + 2, 0x7fff, 0x8001, 0xfffd, 0x10001) if ctx.thorough else (M, M + 1, rng.choice([M + 2, 0x8000, 0xfff0, 0x10001])):
        for split in ([], [1], [total - 1], sorted(rng.sample(range(1, total), 3))) if ctx.thorough else ([], rng.choice([[1], [total - 1], sorted(rng.sample(range(1, total), 3))])):
            for be in ('c', 'cskel', 'cpp', 'cppskel', 'java', 'rust'):
                if be == 'rust' and total <= M and not (ctx.thorough and not split):
                    continue
                cases.append((total, split, be, limit_prog(total, split, random.Random(rng.random()))))
    d = ctx.mkdir('lim')

    def one(ic):
        i, (total, split, be, prog) = ic
        src = prog.write(os.path.join(d, str(i)))
        out = os.path.join(d, '%d.out' % i)
        if be in ('java', 'rust'):
            os.makedirs(out)
        r = idlc([src, '--' + be.replace('skel', ''), '-o', out] + (['--skel'] if 'skel' in be else []), timeout=300)
        shutil.rmtree(out, ignore_errors=True)
        return r
    for (total, split, be, prog), r in zip(cases, common.parmap(one, list(enumerate(cases)))):
        ctx.case(('limit', total, len(split), be))
        ctx.count('limit_compiles')
        if common.accepted(r) != (total <= M):
            ctx.violation('limit:%s:%d' % (be, total), '%s %s an interface with %d methods over %d interfaces (largest op-code %#x): %s' % (
                be, 'accepted' if common.accepted(r) else 'rejected', total, len(split) + 1, total - 1, common.diag(r)), {'info.txt': 'split %s' % split})
    # observe the top of the range at run time
    for split in ([], [rng.randrange(1, M)]) if ctx.thorough else ([rng.randrange(M - 200, M)],):
        prog = limit_prog(M, split, rng)
        w = ctx.mkdir('top')
        src = prog.write(w)
        top = list(prog.ifaces)[-1]
        for a in ([['--c', '-o', w + '/lim.h'], ['--c', '--skel', '-o', w + '/lim_invoke.h']]):
            r = idlc([src] + a)
            if not common.accepted(r):
                return
        ops = sorted({0, 1, M - 1, M - 2, 255, 256, 4095, 4096, 8191, 8192} | {rng.randrange(M) for _ in range(60)} | set(split) | {s - 1 for s in split})
        impls = ''.join('static int32_t im_m%d(T *t) { (void)t; last = %d; return 0; }\n' % (k, k) for k in range(M))
        calls = ''.join('  last = -1; seen = 99999; { int r = %s_m%d(o); printf("%d %%d %%d %%d\\n", (int)seen, last, r); }\n' % (top, k, k) for k in ops)
        with open(w + '/t.c', 'w') as f:
            f.write(DISPATCH % dict(impls=impls, calls=calls, top=top))
        r = common.run(['clang', '-w', '-O0', '-I/repo/tests/c', '-I' + w, w + '/t.c', '-o', w + '/t'], timeout=300, text=True)
        if r.returncode:
            ctx.violation('limit:c:build', 'an interface with 0x4000 methods gives C code that does not build: ' + r.stderr[:1500], {})
            continue
        r = common.run([w + '/t'], timeout=60, text=True)
        got = {int(l.split()[0]): l for l in r.stdout.splitlines()}
        for k in ops:
            ctx.case(('topop', k > 0x3000, len(split)))
            ctx.count('high_op_calls')
            if got.get(k) != '%d %d %d 0' % (k, k, k):
                ctx.violation('limit:dispatch', 'method m%d (op-code %d of %d): observed "%s" (op sent, method run, status)' % (k, k, M, got.get(k)), {'split.txt': str(split)})


def java_constants(ctx, prog, lines, suffix, what, ref):
    """CONST lines of the Java driver -> compare fields IFACE_<suffix>NAME"""
    for t in lines:
        n = t[0]
        if n not in prog.ifaces:
            continue
        want = ref(n)
        if t[1].startswith(n + '_' + suffix):
            key = t[1][len(n) + 1 + len(suffix):]
            if key in want:
                yield n, key, int(t[3]), want[key]


def check07(ctx):
    idlc = common.Idlc(common.build_idlc())
    ctx.rule = ('random interface forests (chains up to 9 deep, shared bases, several files, shuffled declaration order, methods of equal shape, '
                'errors and constants interleaved); every stub method of every backend is called through a recording transport and every op-code is '
                'sent to every skeleton, own and inherited; the Java op constants are read by reflection, the C ones printed; interfaces around 0x4000 methods. '
                'Distinct by (stub, skeleton, method shape)')
    ctx.assumptions += ['op-code of a method = its position in the ancestor-first method list computed by the harness from the IDL text']
    limits(ctx, idlc)
    n = 900 if ctx.thorough else 24
    o = {'workload': workload, 'judge': judge, 'pairs': 8, 'inh_pairs': 4, 'reserve': 30}
    done = 0
    while done < n and ctx.left() > 60:
        k = min(64, n - done)
        core.drive(ctx, idlc, program, k, {'op', 'build'}, o)
        jv.drive(ctx, idlc, program, k, {'op', 'build'}, dict(o, bes=['java'], after=java_ops))
        c_ops(ctx, idlc, [program(random.Random(ctx.rng.random()), j) for j in range(k)])
        done += k
    if not ctx.counters.get('calls') or not ctx.counters.get('java_calls'):
        ctx.inconclusive.append('no call was observed')


def java_ops(ctx, prog, consts):
    ref = lambda n: {m.name: op for op, _, m in prog.methods(n)}
    for n, key, got, want in java_constants(ctx, prog, consts, 'OP_', 'op', ref):
        ctx.count('java_op_constants_read')
        if got != want:
            ctx.violation('op:java-constant', '%s_OP_%s is %d in the Java output, the method has op-code %d' % (n, key, got, want), common.program_files(prog))


def c_ops(ctx, idlc, progs):
    """the C op macros"""
    def one(ip):
        i, prog = ip
        d = ctx.mkdir('m%d' % i)
        prog.write(d)
        body = ''
        for f in prog.files:
            s = glue.stem(f.path)
            r = idlc([os.path.join(d, f.path), '--c', '-o', '%s/%s.h' % (d, s)])
            if not common.accepted(r):
                return prog, {}
            body += '#include "%s.h"\n' % s
        body += '#include <stdio.h>\nint main(void) {\n'
        for n in prog.ifaces:
            for op, own, m in prog.methods(n):
                k = '%s_OP_%s' % (n, m.name)
                body += '#ifdef %s\n printf("%s %s %%lld\\n", (long long)(%s));\n#endif\n' % (k, n, m.name, k)
        open(d + '/p.c', 'w').write('#include "object.h"\n' + body + 'return 0; }\n')
        r = common.run(['clang', '-w', '-I/repo/tests/c', '-I' + d, d + '/p.c', '-o', d + '/p'], timeout=120, text=True)
        out = common.run([d + '/p'], timeout=30, text=True).stdout if r.returncode == 0 else ''
        shutil.rmtree(d, ignore_errors=True)
        return prog, {tuple(l.split()[:2]): int(l.split()[2]) for l in out.splitlines()}
    for prog, got in common.parmap(one, list(enumerate(progs))):
        for n in prog.ifaces:
            for op, own, m in prog.methods(n):
                v = got.get((n, m.name))
                if v is None:
                    continue
                ctx.count('c_op_constants_read')
                if v != op:
                    ctx.violation('op:c-constant', '%s_OP_%s is %d in the C output, the method has op-code %d' % (n, m.name, v, op), common.program_files(prog))


# ---------------------------------------------------------------- C08
def probes(prog, mods):
    """source files printing '<lang> <iface> <error> <value>' for every error
    constant and '<lang>-call <iface> <i> <status>' for every error returned by
    an implementation through skeleton and stub"""
    c = ''.join('#include "%s_invoke.h"\n' % glue.stem(f.path) for f in prog.files) + ''.join('#include "%s.h"\n' % glue.stem(f.path) for f in prog.files)
    c = '#include <stdio.h>\n#include "object.h"\n' + c + 'typedef struct { int x; } T;\n'
    cm = ''
    some = lambda errs: list(enumerate(errs)) if len(errs) < 16 else [(k, errs[k]) for k in sorted({0, 1, len(errs) - 1, len(errs) // 2} | set(range(3, len(errs), max(1, len(errs) // 8))))]
    for n in prog.ifaces:
        ms = prog.methods(n)
        errs = prog.errors(n)
        for nm in ('release', 'retain'):
            c += 'static int32_t h%s_%s(T *t) { (void)t; return 0; }\n' % (n, nm)
        for op, own, m in ms:
            c += 'static int32_t h%s_%s(T *t, uint32_t sel) { (void)t; switch (sel) {\n' % (n, m.name)
            for k, (v, owner, e) in some(errs):
                c += 'case %d: return %s_%s;\n' % (k, owner, e)
            c += '} return -1; }\n'
        c += 'static %s_DEFINE_INVOKE(inv_%s, h%s_, T *)\n' % (n, n, n)
        for v, own, e in errs:
            cm += '#ifdef %s_%s\n printf("c %s %s %%lld\\n", (long long)%s_%s);\n#endif\n' % (n, e, n, e, n, e)
        for op, own, m in ms[:1] + ms[-1:]:
            for k, (v, owner, e) in some(errs):
                cm += ' { T t; Object o = { inv_%s, &t }; printf("c-call %s %s %%d\\n", (int)%s_%s(o, %d)); }\n' % (n, n, e, n, m.name, k)
    csrc = c + 'int main(void) {\n' + cm + 'return 0; }\n'
    p = ''.join('#include "%s_invoke.hpp"\n#include "%s.hpp"\n' % (glue.stem(f.path), glue.stem(f.path)) for f in prog.files)
    p = '#include <stdio.h>\n' + p
    pm = ''
    for n in prog.ifaces:
        ms, errs = prog.methods(n), prog.errors(n)
        p += 'struct Im%s : public %sImplBase {\n' % (n, n)
        for op, own, m in ms:
            p += '  int32_t %s(uint32_t sel) override { switch (sel) {\n' % m.name
            for k, (v, owner, e) in some(errs):
                p += '    case %d: return %s::%s;\n' % (k, n if k % 2 else owner, e)
            p += '  } return -1; }\n'
        p += '  Object obj_() { int32_t (*f)(ObjectCxt, ObjectOp, ObjectArg *, ObjectCounts) = &ImplBase::invoke; return (Object){f, static_cast<ImplBase *>(this)}; }\n};\n'
        for v, own, e in errs:
            pm += ' printf("cpp %s %s %%lld\\n", (long long)%s::%s);\n' % (n, e, n, e)
            pm += ' printf("cpp %s %s %%lld\\n", (long long)I%s::%s);\n' % (n, e, n, e)
        if errs and ms:
            pm += ' { %s s((new Im%s)->obj_());\n' % (n, n)
            for op, own, m in ms[:1] + ms[-1:]:
                for k, (v, owner, e) in some(errs):
                    pm += '  printf("cpp-call %s %s %%d\\n", (int)s.%s(%d));\n' % (n, e, m.name, k)
            pm += ' }\n'
    psrc = p + 'int main() {\n' + pm + 'return 0; }\n'
    r = '#![allow(warnings)]\n#[path = "%s"]\nmod object;\nmod interfaces {\n%s\n}\n' % (rt.OBJ_RS, '\n'.join('    pub mod %s { include!("%s"); }' % m for m in mods))
    rm = ''
    for n in prog.ifaces:
        ms, errs = prog.methods(n), prog.errors(n)
        low = n.lower()
        r += 'struct Im%s;\n' % n
        for it in prog.chain(n):
            r += 'impl interfaces::%s::I%s for Im%s {\n' % (it.name.lower(), it.name, n)
            for m in it.methods:
                r += '  fn r#%s(&mut self, sel: u32) -> Result<(), interfaces::%s::Error> { match sel {\n' % (m.name, it.name.lower())
                for k, (v, owner, e) in some(errs):
                    r += '    %d => Err(object::Error::from(interfaces::%s::%s).into()),\n' % (k, owner.lower(), e.upper())
                r += '    _ => Ok(()) } }\n'
            r += '}\n'
        for v, own, e in errs:
            if own == n:
                rm += ' println!("rust %s %s {}", i32::from(object::Error::from(interfaces::%s::%s)));\n' % (n, e, low, e.upper())
        if errs and ms:
            rm += ' { let o: interfaces::%s::%s = Im%s.into();\n' % (low, n, n)
            for op, own, m in ms[:1] + ms[-1:]:
                for k, (v, owner, e) in some(errs):
                    rm += '  println!("rust-call %s %s {}", o.r#%s(%d).map_or_else(|e| i32::from(object::Error::from(e)), |_| 0));\n' % (n, e, m.name, k)
            rm += ' }\n'
    rsrc = r + 'fn main() {\n' + rm + '}\n'
    j = 'import com.qualcomm.qti.mink.*;\nimport com.qualcomm.qti.qms.api.mink.IMinkObject;\npublic class P {\n  static int st(C c) { try { c.go(); return 0; } catch (IMinkObject.InvokeException e) { return e.getErrorCode(); } }\n  interface C { void go() throws IMinkObject.InvokeException; }\n'
    jm = ''
    for n in prog.ifaces:
        ms, errs = prog.methods(n), prog.errors(n)
        j += '  static class Im%s implements %s {\n' % (n, n)
        for op, own, m in ms:
            j += '    public void %s(int sel) throws IMinkObject.InvokeException { switch (sel) {\n' % m.name
            for k, (v, owner, e) in some(errs):
                j += '      case %d: throw new IMinkObject.InvokeException(%s);\n' % (k, '%s.%s_%s' % (owner, owner, e))
            j += '    } }\n'
        j += '  }\n'
        if errs and ms:
            jm += '    { %s s = new %s.Proxy(new %s.MinkObject(new Im%s()));\n' % (n, n, n, n)
            for op, own, m in ms[:1] + ms[-1:]:
                for k, (v, owner, e) in some(errs):
                    jm += '      System.out.println("java-call %s %s " + st(() -> s.%s(%d)));\n' % (n, e, m.name, k)
            jm += '    }\n'
    for n in prog.ifaces:
        if prog.errors(n):
            jm += '    dump(%s.class);\n' % n
    j += '''  static void dump(Class<?> c) throws Exception { for (java.lang.reflect.Field f : c.getDeclaredFields())
      if (f.getType() == int.class && f.getName().startsWith(c.getSimpleName() + "_")) System.out.println("java " + c.getSimpleName() + " " + f.getName().substring(c.getSimpleName().length() + 1) + " " + f.get(null)); }
'''
    jsrc = j + '  public static void main(String[] a) throws Exception {\n' + jm + '  }\n}\n'
    return csrc, psrc, rsrc, jsrc


def error_program(rng, i):
    prog = program(rng, i)
    k = 0
    if i % 8 == 3:
        # more errors than fit a byte
        it = rng.choice(list(prog.ifaces.values()))
        for j in range(rng.randrange(240, 330)):
            it.members.insert(rng.randrange(len(it.members) + 1), Error('E_MANY%d' % j))
    for it in prog.ifaces.values():
        for m in it.methods:
            m.params = [Param('in', 'prim', 'uint32', 'sel')]
            m.optional = False
        k += len(it.errors)
        if not it.errors and rng.random() < .5:
            for _ in range(rng.randrange(1, 5)):
                it.members.insert(rng.randrange(len(it.members) + 1), Error('E_Z%d' % k))
                k += 1
    # unique within each chain
    for it in prog.ifaces.values():
        for e in it.errors:
            k += 1
            e.name = '%s_%d' % (e.name, k) if rng.random() < .5 or any(e2.name == e.name for x in prog.ifaces.values() if x is not it for e2 in x.errors) else e.name
    return prog


LANGS = ('c', 'cpp', 'rust', 'java')


def many_errors(ctx, idlc):
    """chains with tens of thousands of errors: values beyond every 8- and 16-bit width"""
    rng = random.Random(ctx.rng.getrandbits(48))
    jobs = [(be, n) for n in ((36000, 67000, 140000) if ctx.thorough else (rng.choice([34000, 36000]), 67000)) for be in LANGS if not (be == 'rust' and n > (70000 if ctx.thorough else 40000) or be == 'java' and n > 40000)]

    def one(job):
        be, total = job
        r2 = random.Random(total)
        d = ctx.mkdir('many_%s_%d' % job)
        per = 9000 + r2.randrange(500)
        text, k, where = '', 0, []
        for i in range((total + per - 1) // per):
            mem = []
            for j in range(min(per, total - k)):
                where.append(i)
                mem.append('error E%d;' % k)
                if k % 700 == 3:
                    mem.append('method m%d(in uint32 s);' % k)
                k += 1
            text += 'interface I%d%s {\n%s\n};\n' % (i, ' : I%d' % (i - 1) if i else '', '\n'.join(mem))
        pick = sorted({0, 117, 118, 245, 246, 247, 16373, 16374, 32757, 32758, 32759, 65525, 65526, 65527, 131061, 131062, total - 1} | {r2.randrange(total) for _ in range(60)})
        pick = [e for e in pick if e < (28000 if be == 'java' else total)]
        open(d + '/x.idl', 'w').write(text)
        out = d + ('/x.hpp' if be == 'cpp' else '/x.h' if be == 'c' else '/o')
        if be in ('java', 'rust'):
            os.makedirs(out)
        r = idlc([d + '/x.idl', '--' + be, '-o', out], timeout=300)
        try:
            if not common.accepted(r):
                return job, pick, 'idlc: ' + common.diag(r), {}
            if be == 'c':
                open(d + '/p.c', 'w').write('#include <stdio.h>\n#include "object.h"\n#include "x.h"\nint main(void) {\n%s return 0; }\n' % ''.join(' printf("%d %%lld\\n", (long long)I%d_E%d);\n' % (e, where[e], e) for e in pick))
                cmd, run = ['clang', '-w', '-I/repo/tests/c', d + '/p.c', '-o', d + '/p'], [d + '/p']
            elif be == 'cpp':
                open(d + '/p.cpp', 'w').write('#include <stdio.h>\n#include "x.hpp"\nint main() {\n%s return 0; }\n' % ''.join(' printf("%d %%lld\\n", (long long)%s%d::E%d);\n' % (e, 'I' if e % 2 else 'II', where[e], e) for e in pick))
                cmd, run = ['clang++', '-w', '-I/repo/tests/c', '-I/repo/tests/cpp', d + '/p.cpp', '-o', d + '/p'], [d + '/p']
            elif be == 'rust':
                mods = ''.join('pub mod i%d { include!("o/i%d.rs"); }\n' % (i, i) for i in range(where[-1] + 1))
                open(d + '/p.rs', 'w').write('#[path = "%s"]\nmod object;\nmod interfaces {\n%s}\nfn main() {\n%s}\n' % (rt.OBJ_RS, mods, ''.join(
                    ' println!("%d {}", i32::from(object::Error::from(interfaces::i%d::E%d)));\n' % (e, where[e], e) for e in pick)))
                cmd, run = ['rustc', '--edition', '2021', '-Awarnings', '--cfg', 'feature="std"', d + '/p.rs', '-o', d + '/p'], [d + '/p']
            else:
                # a class file holds at most some 32000 constants, and every interface repeats those above it
                jtop = where[pick[-1]]
                open(out + '/P.java', 'w').write('import com.qualcomm.qti.mink.*;\npublic class P { public static void main(String[] a) throws Exception { for (int i : new int[] {%s}) System.out.println(i + " " + I%d.class.getField("I%d_E" + i).get(null)); } }\n' % (
                    ','.join(map(str, pick)), jtop, jtop))
                for f in os.listdir(out):
                    if f[0] == 'I' and int(f[1:-5]) > jtop:
                        os.unlink(out + '/' + f)
                cmd = ['javac', '-nowarn', '-J-XX:+UseSerialGC', '-cp', jv.runtime_classes(), '-d', d + '/cls'] + [out + '/' + f for f in sorted(os.listdir(out))]
                run = ['java', '-XX:+UseSerialGC', '-cp', jv.runtime_classes() + ':' + d + '/cls', 'P']
            r = common.run(cmd, cwd=d, timeout=300, text=True)
            if r.returncode:
                return job, pick, 'compile: ' + r.stderr[:1500], {}
            r = common.run(run, timeout=60, text=True)
            return job, pick, '', {int(l.split()[0]): int(l.split()[1]) for l in r.stdout.splitlines()}
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for (be, total), pick, bad, got in common.parmap(one, jobs):
        if bad:
            ctx.violation('many:build:%s' % be, '%s output of a chain with %d errors: %s' % (be, total, bad), {'info.txt': bad})
            continue
        for e in pick:
            ctx.case(('many', be, total, e))
            ctx.count('far_error_values_read_' + be)
            if got.get(e) != e + 10:
                ctx.violation('many:%s' % be, '%s: error number %d of a chain of %d has the value %s, expected %d' % (be, e, total, got.get(e), e + 10), {'info.txt': 'chain of interfaces, errors E0.. in order'})


def check08(ctx):
    idlc = common.Idlc(common.build_idlc())
    ctx.rule = ('random interface forests with errors interleaved among methods and constants at every level; each backend\'s output compiled into a '
                'probe that prints every error constant reachable from every interface (own and re-exported) and the status a caller observes '
                'when an implementation returns each named error through skeleton and stub. Distinct by (language, chain position, value)')
    ctx.assumptions += ['reference value = 10 + position in the ancestor-first error list computed from the IDL text']
    jv.runtime_classes()
    many_errors(ctx, idlc)
    n = 1500 if ctx.thorough else 48
    seeds = [ctx.rng.getrandbits(48) for _ in range(n)]

    def one(i):
        if ctx.left() < 20:
            return None
        rng = random.Random(seeds[i])
        prog = error_program(rng, i)
        d = ctx.mkdir('e%d' % i)
        try:
            fails, lines = [], []
            mods = []
            for be in LANGS:
                try:
                    if be == 'java':
                        src = jv.generate(idlc, prog, d)
                    else:
                        mods += rt.generate(idlc, prog, d, [be])
                except rt.BuildFail as e:
                    fails.append((e.stage, e.what))
            texts = probes(prog, mods)
            W = lambda n, t: (open(os.path.join(d, n), 'w').write(t), os.path.join(d, n))[1]
            cmds = {
                'c': ['clang', '-w', '-I/repo/tests/c', '-I' + d + '/c', W('e.c', texts[0]), '-o', d + '/ec'],
                'cpp': ['clang++', '-w', '-I/repo/tests/c', '-I/repo/tests/cpp', '-I' + d + '/cpp', W('e.cpp', texts[1]), '-o', d + '/ecpp'],
                'rust': ['rustc', '--edition', '2021', '-Awarnings', '--cfg', 'feature="std"', W('e.rs', texts[2]), '-o', d + '/erust'],
            }
            for be in LANGS[:3]:
                if any(be == s.split()[-1] for s, _ in fails):
                    continue
                r = common.run(cmds[be], cwd=d, timeout=200, text=True)
                if r.returncode:
                    fails.append(('compile ' + be, r.stderr[:2500]))
                    continue
                r = common.run([d + '/e' + be], timeout=60, text=True)
                lines += r.stdout.splitlines()
                if r.returncode:
                    fails.append(('run ' + be, r.stderr[:2500]))
            if not any('java' in s for s, _ in fails):
                W('java/P.java', texts[3])
                try:
                    cls = jv.compile(d, os.path.join(d, 'java'))
                    r = common.run(['java', '-XX:TieredStopAtLevel=1', '-XX:+UseSerialGC', '-cp', jv.runtime_classes() + ':' + cls, 'P'], timeout=60, text=True)
                    lines += r.stdout.splitlines()
                    if r.returncode:
                        fails.append(('run java', r.stderr[:2500]))
                except rt.BuildFail as e:
                    fails.append((e.stage, e.what))
            return prog, lines, fails
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for res in common.parmap(one, range(n)):
        if res is None:
            ctx.count('programs_skipped_for_time')
            continue
        prog, lines, fails = res
        ctx.count('programs')
        for stage, what in fails:
            ctx.violation('build:' + stage, 'no error values from %s: %s' % (stage, what), common.program_files(prog))
        want, seen = {}, set()
        for n in prog.ifaces:
            for v, own, e in prog.errors(n):
                want[n, e] = v
        for l in lines:
            lang, n, e, v = l.split()
            if (n, e) not in want:
                continue
            seen.add((lang, n, e))
            ctx.case((lang, len(prog.chain(n)), want[n, e]))
            ctx.count('error_values_read_' + lang)
            if int(v) != want[n, e]:
                ctx.violation('error:%s' % lang, '%s: error %s of %s is %s, expected %d' % (lang, e, n, v, want[n, e]), common.program_files(prog))
        for n, it in prog.ifaces.items():
            for e in it.errors:
                for lang in LANGS:
                    if (lang, n, e.name) not in seen and not any(lang in s.split() for s, _ in fails):
                        ctx.violation('missing:%s' % lang, 'error %s of %s has no constant in the %s output' % (e.name, n, lang), common.program_files(prog))
        if ctx.evaluations % 7 == 0:
            ctx.sample('%s' % sorted(want.items(), key=lambda x: x[1])[:5])
    if not ctx.counters.get('programs'):
        ctx.inconclusive.append('no program was built')
