"""C11: everything generated compiles without errors or warnings, alone and
with conforming user code.

Programs of every construct with identifiers drawn from the names generated
code uses itself are compiled by gcc, clang, g++, clang++, rustc and javac
under the flags of upstream's integration build; the compilers' exit status
and diagnostics decide."""
import copy, os, random, re, shutil
from . import common, c18, direct, gen, glue, jv, rt
from .idl import *

CFLAGS = ['-Wall', '-Wextra', '-Wno-unused-parameter', '-Werror', '-I/repo/tests/c']
XFLAGS = ['-Wall', '-Wextra', '-Wno-unused-parameter', '-Wno-missing-field-initializers', '-Werror', '-I/repo/tests/c', '-I/repo/tests/cpp']

# names which generated code or the runtime uses itself
LOCALS = ('h op a k me ctx r i o bi bo b result self args cx counts arg_idx err e x x_val x_ptr x_len x_lenout x_orig x_ref x_out x_buffer x_t m_x p_x '
          'obj mObj minkObject methodID boSizes oi oo invoke BI BO Error Object MARKER T bundleIn bundleOut bundleOut0 bundleIn1 i_0 j len size ptr value data buf arr idx count '
          'impl context func prefix type_ Buf NULL_ in_ out_ res ret ok Ok Err_ None_ Some_ Option_ std_ core_ object interfaces wrapper generic inner lock refs status tmp str n m s t u v w y z').split()
C_KW = 'auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while typeof asm'
CPP_KW = 'alignas alignof and and_eq asm bitand bitor bool catch char8_t char16_t char32_t class compl concept consteval constexpr constinit const_cast co_await co_return co_yield decltype delete dynamic_cast explicit export false friend mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public reinterpret_cast requires static_assert static_cast template this thread_local throw true try typeid typename using virtual wchar_t xor xor_eq'
JAVA_KW = 'abstract assert boolean byte catch class extends final finally implements import instanceof interface native new package private protected public strictfp super synchronized this throw throws transient try true false null var yield record sealed permits non'
RUST_KW = 'as async await become box crate dyn else enum fn impl in let loop macro match mod move mut override priv pub ref self Self super trait type unsafe unsized use where while abstract final typeof virtual yield try gen union raw'
KEYW = set(('in out method error const struct interface include buffer ' + ' '.join([C_KW, CPP_KW, JAVA_KW, RUST_KW])).split())
# types of the runtime: a method or type of that name hides them
RUNTIME = 'Object object invoke'.split()
TYPES = [w for w in LOCALS if w == w.lower() and w not in RUNTIME and w not in KEYW and not w.startswith(('interface', 'x_')) and w not in ('m', 'size')]
METHODS = [w for w in LOCALS if w not in RUNTIME and w not in KEYW] + 'get consume extract isNull from into new fmt eq default borrow to_owned type_id as_ref deref drop take write read transmute size_of pack_counts equals length put order allocate create release_all create_ init open close'.split()



def rename(rng, p, dens, javaok=False):
    """identifiers that coincide with locals of the generated code"""
    def pick(pool, used):
        c = [n for n in pool if n not in used and n not in KEYW]
        n = rng.choice(c)
        used.add(n)
        return n
    types = set()
    if rng.random() < .5:
        ren = {}
        for n in list(p.structs) + list(p.ifaces):
            c = [w for w in TYPES if w not in types and w not in p.consts and w not in {glue.stem(f.path) for f in p.files}]
            if c and rng.random() < dens:
                ren[n] = rng.choice(c)
                types.add(ren[n])
        for s in p.structs.values():
            s.name = ren.get(s.name, s.name)
            s.fields = [(ren.get(t, t), c, f) for t, c, f in s.fields]
        for it in p.ifaces.values():
            it.name, it.base = ren.get(it.name, it.name), ren.get(it.base, it.base)
            for m in it.methods:
                for q in m.params:
                    q.ty = ren.get(q.ty, q.ty)
        p.reindex()
    words = [n for n in LOCALS]
    for s in p.structs.values():
        used, fs = {f for _, _, f in s.fields} | types, []
        for t, c, f in s.fields:
            fs.append((t, c, pick([w for w in words if w != 'Object'], used) if rng.random() < dens else f))
        s.fields = fs
    names = {}
    taken = {m.name.lower() for it in p.ifaces.values() for m in it.members}
    for n in sorted(p.ifaces, key=lambda n: len(p.chain(n))):
        it = p.ifaces[n]
        used = names.setdefault(n, set())
        if it.base:
            used |= names[it.base]
        low = {u.lower() for u in used} | taken
        for m in it.members:
            if m.kind == 'method':
                if rng.random() < dens:
                    c = [w for w in METHODS if w.lower() not in low and w not in KEYW and w not in types]
                    m.name = rng.choice(c)
                    low.add(m.name.lower())
                used.add(m.name)
                u = {q.name for q in m.params}
                extra = [e.name for e in it.members if e.kind in ('error', 'const')] + list(p.ifaces)[:2] + list(p.structs)[:2] + [m.name]
                for q in m.params:
                    if rng.random() < dens:
                        if rng.random() < .25:
                            # built from another parameter's name
                            o = rng.choice(m.params).name
                            nn = rng.choice([o + rng.choice(['_val', '_ptr', '_len', '_lenout', '_ref', '_orig', '_out', '_buffer']), 'p_' + o, 'm_' + o, rng.choice(extra)])
                            if nn not in u and nn not in KEYW:
                                u.add(nn)
                                q.name = nn
                        else:
                            q.name = pick(words, u)
    return p


# ------------------------------------------------------------------ C and C++
def user_c(prog, be, ifaces, part):
    o = '#include <string.h>\n'
    cu = be == 'cu'
    ty = lambda t: 'Object' if cu or not t or t == 'interface' else t
    for n in ifaces:
        if 's' in part:
            for _, own, m in prog.methods(n):
                decl, call = '', ['t_']
                for j, p in enumerate(m.params):
                    v, T = 'p%d_' % j, glue.elem_ct(p)
                    if p.dir == 'in':
                        if p.pk == 'prim':
                            decl += '  %s %s = 0;\n' % (T, v)
                            call.append(v)
                        elif p.pk == 'struct':
                            decl += '  %s %s;\n  memset(&%s, 0, sizeof %s);\n' % (T, v, v, v)
                            call.append('&' + v)
                        elif p.pk in ('buffer', 'primarr', 'structarr'):
                            decl += '  %s %s[2];\n  memset(%s, 0, sizeof %s);\n' % (T, v, v, v)
                            call += [v, '2']
                        elif p.pk == 'obj':
                            decl += '  %s %s = Object_NULL;\n' % (ty(p.ty), v)
                            call.append(v)
                        else:
                            decl += '  %s%s %s[%d] = { %s };\n' % ('const ', ty(p.ty), v, p.cnt, ', '.join(['Object_NULL'] * p.cnt))
                            call.append('&' + v)
                    elif p.pk == 'prim':
                        decl += '  %s %s = 0;\n' % (T, v)
                        call.append('&' + v)
                    elif p.pk == 'struct':
                        decl += '  %s %s;\n  memset(&%s, 0, sizeof %s);\n' % (T, v, v, v)
                        call.append('&' + v)
                    elif p.pk in ('buffer', 'primarr', 'structarr'):
                        decl += '  %s %s[2];\n  size_t l%s = 0;\n  memset(%s, 0, sizeof %s);\n' % (T, v, v, v, v)
                        call += [v, '2', '&l' + v]
                    elif p.pk == 'obj':
                        decl += '  %s %s = Object_NULL;\n' % (ty(p.ty), v)
                        call.append('&' + v)
                    else:
                        decl += '  %s %s[%d] = { %s };\n' % (ty(p.ty), v, p.cnt, ', '.join(['Object_NULL'] * p.cnt))
                        call.append('&' + v)
                o += 'int32_t use_%s__%s(%s t_);\nint32_t use_%s__%s(%s t_) {\n%s  return %s_%s(%s);\n}\n' % (n, m.name, ty(n), n, m.name, ty(n), decl, n, m.name, ', '.join(call))
            o += 'int32_t life_%s(%s t_);\nint32_t life_%s(%s t_) { return %s_retain(t_) + %s_release(t_); }\n' % (n, ty(n), n, ty(n), n, n)
        if 'k' in part:
            pre = 'im_%s_' % n
            o += 'struct cx_%s { int refs; };\nint32_t %srelease(struct cx_%s *c) { return --c->refs, Object_OK; }\nint32_t %sretain(struct cx_%s *c) { c->refs++; return Object_OK; }\n' % (n, pre, n, pre, n)
            for _, own, m in prog.methods(n):
                o += 'int32_t %s%s(%s) { return Object_OK; }\n' % (pre, m.name, ', '.join(['struct cx_%s *cx_' % n] + sig_c(prog, m, cu)))
            o += 'int32_t inv_%s(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k);\n%s_DEFINE_INVOKE(inv_%s, %s, struct cx_%s *)\n' % (n, n, n, pre, n)
            o += 'Object mk_%s(struct cx_%s *c);\nObject mk_%s(struct cx_%s *c) { return (Object){ inv_%s, c }; }\n' % (n, n, n, n, n)
    return o


def sig_c(prog, m, cu):
    s = []
    ty = lambda t: 'Object' if cu or not t or t == 'interface' else t
    for j, p in enumerate(m.params):
        v, T = 'p%d_' % j, glue.elem_ct(p)
        i = p.dir == 'in'
        if p.pk == 'prim':
            s.append('%s %s%s' % (T, '' if i else '*', v))
        elif p.pk == 'struct':
            s.append('%s%s *%s' % ('const ' if i else '', T, v))
        elif p.pk in ('buffer', 'primarr', 'structarr'):
            t = 'void' if p.pk == 'buffer' else T
            s += ['%s%s *%s' % ('const ' if i else '', t, v), 'size_t n' + v] + ([] if i else ['size_t *l' + v])
        elif p.pk == 'obj':
            s.append('%s %s%s' % (ty(p.ty), '' if i else '*', v))
        else:
            s.append('%s%s (*%s)[%d]' % ('const ' if i else '', ty(p.ty), v, p.cnt))
    return s


def user_cpp(prog, ifaces, part):
    o = '#include <cstring>\n'
    ty = lambda t: t if t and t != 'interface' else 'ProxyBase'
    for n in ifaces:
        if 's' in part:
            for _, own, m in prog.methods(n):
                decl, call = '', []
                for j, p in enumerate(m.params):
                    v, T = 'p%d_' % j, glue.elem_ct(p)
                    i = p.dir == 'in'
                    if p.pk == 'prim':
                        decl += '  %s %s = 0;\n' % (T, v)
                        call.append(v if i else '&' + v)
                    elif p.pk == 'struct':
                        decl += '  %s %s;\n  memset((void *)&%s, 0, sizeof %s);\n' % (T, v, v, v)
                        call.append(v)
                    elif p.pk in ('buffer', 'primarr', 'structarr'):
                        decl += '  %s %s[2];\n  memset((void *)%s, 0, sizeof %s);\n' % (T, v, v, v) + ('' if i else '  size_t l%s = 0;\n' % v)
                        call += [v, '2'] + ([] if i else ['&l' + v])
                    elif p.pk == 'obj':
                        decl += '  %s %s;\n' % (ty(p.ty), v)
                        call.append(v)
                    else:
                        decl += '  %s %s[%d];\n' % (ty(p.ty), v, p.cnt)
                        call.append(v)
                o += 'int32_t use_%s__%s(Object t_);\nint32_t use_%s__%s(Object t_) {\n%s  %s stub_(t_);\n  return stub_.%s(%s);\n}\n' % (n, m.name, n, m.name, decl, n, m.name, ', '.join(call))
        if 'k' in part:
            body = ''
            for _, own, m in prog.methods(n):
                s = []
                for j, p in enumerate(m.params):
                    v, T = 'p%d_' % j, glue.elem_ct(p)
                    i = p.dir == 'in'
                    if p.pk == 'prim':
                        s.append('%s %s%s' % (T, '' if i else '*', v))
                    elif p.pk == 'struct':
                        s.append('%s%s &%s' % ('const ' if i else '', T, v))
                    elif p.pk in ('buffer', 'primarr', 'structarr'):
                        s += ['%s%s *%s' % ('const ' if i else '', 'void' if p.pk == 'buffer' else T, v), 'size_t n' + v] + ([] if i else ['size_t *l' + v])
                    elif p.pk == 'obj':
                        s.append('%s%s &%s' % ('const ' if i else '', ty(p.ty), v))
                    else:
                        s.append('%s%s (&%s)[%d]' % ('const ' if i else '', ty(p.ty), v, p.cnt))
                body += '  int32_t %s(%s) override { return Object_OK; }\n' % (m.name, ', '.join(s))
            o += ('class UsrImpl_%s : public %sImplBase {\n public:\n%s  static Object make_() { int32_t (*f)(ObjectCxt, ObjectOp, ObjectArg *, ObjectCounts) = &ImplBase::invoke; return (Object){ f, static_cast<ImplBase *>(new UsrImpl_%s) }; }\n};\n'
                  'Object mk_%s();\nObject mk_%s() { return UsrImpl_%s::make_(); }\n') % (n, n, body, n, n, n, n)
    return o


# ------------------------------------------------------------------ Rust
def user_rust(prog):
    N = glue.RustNames(prog)
    o = ''
    for n in prog.ifaces:
        o += '  pub struct UsrImpl_%s;\n' % n
        for anc in prog.chain(n):
            b = ''
            for m in anc.methods:
                sig, rty = [], []
                for j, p in enumerate(m.params):
                    v, T = 'p%d_' % j, N.elem(p)
                    if p.dir == 'in':
                        sig.append({'prim': '%s: %s', 'struct': '%s: &%s', 'buffer': '%s: &[%s]', 'primarr': '%s: &[%s]', 'structarr': '%s: &[%s]', 'obj': '%s: Option<&%s>', 'objarr': '%s: &[Option<%s>; ' + str(p.cnt) + ']'}[p.pk] % (
                            v, N.obj(p.ty) if p.pk in ('obj', 'objarr') else T))
                    elif p.pk in ('buffer', 'primarr', 'structarr'):
                        sig += ['%s: &mut [%s]' % (v, T), 'l%s: &mut usize' % v]
                    else:
                        rty.append({'prim': T, 'struct': T, 'obj': 'Option<%s>' % N.obj(p.ty), 'objarr': '[Option<%s>; %s]' % (N.obj(p.ty), p.cnt)}[p.pk])
                ret = '()' if not rty else rty[0] if len(rty) == 1 else '(%s)' % ', '.join(rty)
                b += '    fn r#%s(&mut self%s) -> Result<%s, crate::interfaces::%s::Error> { unimplemented!() }\n' % (m.name, ''.join(', ' + s for s in sig), ret, anc.name.lower())
            o += '  impl crate::interfaces::%s::I%s for UsrImpl_%s {\n%s  }\n' % (anc.name.lower(), anc.name, n, b)
        o += '  pub fn make_%s() -> %s { UsrImpl_%s.into() }\n' % (n, N.iface(n), n)
        for _, own, m in prog.methods(n):
            par, call, rty = [], [], []
            for j, p in enumerate(m.params):
                v, T = 'p%d_' % j, N.elem(p)
                if p.dir == 'in':
                    par.append('%s: %s' % (v, {'prim': T, 'struct': '&' + T, 'buffer': '&[u8]', 'primarr': '&[%s]' % T, 'structarr': '&[%s]' % T, 'obj': 'Option<&%s>' % N.obj(p.ty), 'objarr': '&[Option<%s>; %s]' % (N.obj(p.ty), p.cnt)}[p.pk]))
                    call.append(v)
                elif p.pk in ('buffer', 'primarr', 'structarr'):
                    par += ['%s: &mut [%s]' % (v, T), 'l%s: &mut usize' % v]
                    call += [v, 'l' + v]
                else:
                    rty.append({'prim': T, 'struct': T, 'obj': 'Option<%s>' % N.obj(p.ty), 'objarr': '[Option<%s>; %s]' % (N.obj(p.ty), p.cnt)}[p.pk])
            ret = '()' if not rty else rty[0] if len(rty) == 1 else '(%s)' % ', '.join(rty)
            # inherited methods are reached through Deref, or called on the ancestor itself
            o += '  pub fn use_%s__%s(t_: &%s%s) -> Result<%s, crate::interfaces::%s::Error> { let t_: &%s = t_; t_.r#%s(%s) }\n' % (
                n, m.name, N.iface(n), ''.join(', ' + x for x in par), ret, own.lower(), N.iface(own), m.name, ', '.join(call))
    return o


# ------------------------------------------------------------------ Java
def user_java(prog):
    JT = {'uint8': 'byte', 'int8': 'byte', 'uint16': 'char', 'int16': 'char', 'uint32': 'int', 'int32': 'int', 'uint64': 'long', 'int64': 'long', 'float32': 'float', 'float64': 'double'}
    o = 'package user;\nimport com.qualcomm.qti.mink.*;\nimport com.qualcomm.qti.qms.api.mink.IMinkObject;\npublic class User {\n'

    def T(p):
        if p.pk == 'buffer':
            return 'byte'
        if p.pk in ('obj', 'objarr'):
            return 'IMinkObject'
        return JT.get(p.ty) or '%s.%s' % (glue.stem(prog.where[p.ty].path), p.ty)
    for n in prog.ifaces:
        b, u = '', ''
        for _, own, m in prog.methods(n):
            par, call = [], []
            for j, p in enumerate(m.params):
                v, t = 'p%d_' % j, T(p)
                arr = p.pk in ('buffer', 'primarr', 'structarr', 'objarr')
                par.append('%s%s%s %s' % (t, '[]' if arr else '', '' if p.dir == 'in' else '[]', v))
                call.append(v)
                if p.dir == 'out' and arr:
                    par.append('int n' + v)
                    call.append('n' + v)
            b += '    @Override public void %s(%s) throws IMinkObject.InvokeException { }\n' % (m.name, ', '.join(par))
            u += '  static void use_%s__%s(%s) throws IMinkObject.InvokeException { t_.%s(%s); }\n' % (n, m.name, ', '.join(['%s.Proxy t_' % n] + par), m.name, ', '.join(call))
        o += '  static class UsrImpl_%s implements %s {\n%s  }\n%s  static IMinkObject mk_%s() { return new %s.MinkObject(new UsrImpl_%s()); }\n  static %s.Proxy px_%s(IMinkObject o) { return new %s.Proxy(o); }\n' % (n, n, b, u, n, n, n, n, n, n)
    return o + '}\n'


# ------------------------------------------------------------------ matrix
def reach(prog, f):
    seen, todo = [], [f]
    by = {g.path: g for g in prog.files}
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.append(g)
        todo += [by[i] for i in g.includes]
    return seen


def visible(prog, f):
    fs = reach(prog, f)
    return [n for n in prog.ifaces if prog.where[n] in fs]


def matrix(ctx, idlc, prog, d, rng, langs, full=False, mirror=False, short=False, extra=()):
    """[(tag, diagnostics)] of every compilation of one program"""
    fails = []
    tus = 0

    def cc(tag, cmd):
        r = common.run(cmd, cwd=d, timeout=240, text=True)
        if r.returncode != 0 or r.stderr.strip():
            fails.append((tag, '%s\n%s' % (' '.join(cmd), r.stderr[:3000])))
        return r.returncode == 0
    for be in langs:
        gdir = os.path.join(d, be)
        try:
            if be == 'java':
                jp = prog
                src = jv.generate(idlc, jp, d, extra)
            else:
                mods = rt.generate(idlc, prog, d, [be], extra)
        except rt.BuildFail as e:
            fails.append((be + ':idlc', 'error: %s' % e))
            continue
        if be in ('c', 'cu', 'cpp'):
            ext = 'hpp' if be == 'cpp' else 'h'
            fn = (lambda p, i, k: user_cpp(p, i, k)) if be == 'cpp' else (lambda p, i, k: user_c(p, be, i, k))
            where = {f: glue.stem(f.path) for f in prog.files}
            if mirror:
                # headers lie like the IDL files do, as '#include "dir/x.h"' needs
                shutil.rmtree(gdir)
                for f in prog.files:
                    where[f] = f.path[:-4]
                    os.makedirs(os.path.dirname(os.path.join(gdir, f.path)), exist_ok=True)
                    for sk in ([], ['--skel']):
                        idlc([os.path.join(d, 'idl', f.path), '--cpp' if be == 'cpp' else '--c', '-o', '%s/%s%s.%s' % (gdir, where[f], '_invoke' if sk else '', ext)] + sk + (['--no-typed-objects'] if be == 'cu' else []))
            S = ['%s.%s' % (where[f], ext) for f in prog.files]
            K = ['%s_invoke.%s' % (where[f], ext) for f in prog.files]
            f = rng.choice(prog.files)
            every = S + K + S[:1] + K[:1]
            rng.shuffle(every)
            tu = [('stub', [S[0]], 's', visible(prog, prog.files[0])), ('skel', [K[0]], 'k', [n for n in visible(prog, prog.files[0]) if prog.where[n] is prog.files[0]]),
                  ('all', every, 'sk', list(prog.ifaces))]
            if f is not prog.files[0]:
                tu.append(('other', ['%s_invoke.%s' % (where[f], ext)], 'sk', [n for n in prog.ifaces if prog.where[n] is f]))
            if short:
                tu = tu[2:3]
            for name, incs, part, ifs in tu:
                p = os.path.join(d, '%s_%s.%s' % (be, name, 'cpp' if be == 'cpp' else 'c'))
                open(p, 'w').write(''.join('#include "%s"\n' % i for i in incs) + fn(prog, ifs, part))
                comps = ['g++', 'clang++'] if be == 'cpp' else ['gcc', 'clang']
                for comp in comps[:1] if short else comps:
                    opts = [['-O0'], ['-O2']] if full else [[rng.choice(['-O0', '-O0', '-O2', '-O3'])]]
                    for op in opts:
                        tus += 1
                        cc('%s:%s:%s' % (be, name, comp), [comp] + op + (XFLAGS if be == 'cpp' else CFLAGS) + ['-I' + gdir, '-c', p, '-o', '/dev/null'])
        elif be == 'rust':
            o = '#![deny(warnings)]\n#[allow(warnings)]\n#[path = "%s"]\npub mod object;\n#[allow(unused, nonstandard_style)]\npub mod interfaces {\n%s\n}\n#[allow(nonstandard_style)]\npub mod user {\n  #![allow(unused)]\n%s}\n' % (
                rt.OBJ_RS, '\n'.join('    pub mod %s { include!("%s"); }' % m for m in mods), user_rust(prog))
            p = os.path.join(d, 'lib.rs')
            open(p, 'w').write(o)
            tus += 1
            cc('rust:lib:rustc', ['rustc', '--edition', '2021', '--crate-type', 'lib', '--cfg', 'feature="std"', '--check-cfg=cfg(feature,values("std"))', '--emit=metadata', p, '-o', os.path.join(d, 'lib.rmeta')])
        else:
            u = os.path.join(d, 'User.java')
            open(u, 'w').write(user_java(jp))
            os.makedirs(os.path.join(d, 'cls'))
            fs = sorted(os.path.join(src, x) for x in os.listdir(src) if x.endswith('.java'))
            tus += 1
            cc('java:all:javac', ['javac', '-J-XX:+UseSerialGC', '-J-XX:TieredStopAtLevel=1', '-encoding', 'UTF-8', '-cp', jv.runtime_classes(), '-d', os.path.join(d, 'cls')] + fs + [u])
    return fails, tus


def normal(err):
    """signature of a diagnostic: its first error or warning without names and places"""
    m = re.search(r'(?:error|warning)(?:\[\w+\])?: (.*)', err)
    t = m.group(1) if m else err[:80]
    t = re.sub("[‘’'`\"][^‘’'`\"]*[‘’'`\"]", 'X', t)
    return re.sub(r'[^A-Za-z]+', '-', t)[:60]


# ------------------------------------------------------------------ directed
def directed_programs():
    """name collisions between what different declarations become, one at a time"""
    I = lambda n, b, *ms: Interface(n, b, list(ms))
    M = lambda n, *ps: Method(n, list(ps))
    u = lambda n, d='in': Param(d, 'prim', 'uint32', n)
    one = lambda *ds, path='shape.idl': Program([File(path, [], list(ds))])
    A, C = ['c', 'cu', 'cpp', 'rust', 'java'], Const
    yield 'method release', one(I('IFoo', None, M('release', u('x')))), A
    yield 'method retain', one(I('IFoo', None, M('retain', u('x')))), A
    yield 'method invoke', one(I('IFoo', None, M('invoke', u('x')))), A
    yield 'method Object', one(I('IFoo', None, M('Object', u('x')), M('g', Param('out', 'obj', None, 'y')))), A
    yield 'method named like its interface', one(I('IFoo', None, M('IFoo', u('x')))), A
    yield 'method named like a struct', one(Struct('SFoo', [('uint32', 1, 'a'), ('uint32', 8, 'b')]), I('IFoo', None, M('SFoo', Param('in', 'struct', 'SFoo', 'x')))), A
    yield 'method named like the op-code of another', one(I('IFoo', None, M('m', u('x')), M('OP_m', u('x')))), A
    yield 'constant named like a method', one(I('IFoo', None, C('uint32', 'm', '5'), M('m', u('x')))), A
    yield 'error named like a method', one(I('IFoo', None, Error('m'), M('m', u('x')))), A
    yield 'file constant named like a member of the runtime', one(C('uint32', 'b', '5'), I('IFoo', None, M('m', u('x')))), A
    yield 'file constant named like a struct field', one(C('uint32', 'fld', '5'), Struct('SFoo', [('uint32', 1, 'fld'), ('uint32', 8, 'b')])), A
    yield 'file constant named like a derived parameter', one(C('uint32', 'x_val', '5'), I('IFoo', None, M('m', u('x')))), A
    yield 'two interfaces and methods with the same joined name', one(I('A', None, M('b_c', u('x'))), I('A_b', None, M('c', u('x')))), A
    yield 'struct named like a derived parameter', one(Struct('x_ptr', [('uint32', 1, 'a'), ('uint32', 8, 'b')]), I('IFoo', None, M('m', u('x', 'out'), Param('in', 'struct', 'x_ptr', 'y')))), A
    yield 'field named like its type', one(Struct('Sa', [('uint32', 2, 'a')]), Struct('Sb', [('Sa', 1, 'Sa')])), A
    yield 'field named Object next to an object', one(Struct('Sb', [('interface', 1, 'x'), ('uint64', 2, 'Object')])), A
    yield 'interface m with an error named like a parameter', one(I('m', None, Error('E'), M('f', u('E'), u('y')))), A
    yield 'constants that differ in case', one(I('IFoo', None, C('uint32', 'ab', '5'), C('uint32', 'AB', '6'), M('m', u('x')))), A
    yield 'file constants that differ in case', one(C('uint32', 'ab', '5'), C('uint32', 'AB', '6')), A
    yield 'error and constant that differ in case', one(I('IFoo', None, C('uint32', 'ab', '5'), Error('AB'), M('m', u('x')))), A
    for n in ('Error', 'Option', 'T', 'Object', 'ProxyBase', 'Proxy', 'MinkObject', 'std', 'size_t', 'I'):
        yield 'interface named ' + n, one(I(n, None, M('m', u('x'), Param('out', 'obj', None, 'y'), Param('out', 'prim', 'uint8', 'z')))), A
        yield 'struct named ' + n, one(Struct(n, [('uint32', 1, 'a'), ('uint32', 8, 'b')]), I('IFoo', None, M('m', u('x'), Param('in', 'struct', n, 'y')))), A
    yield 'interfaces Foo and IFoo', one(I('Foo', None, M('m', u('x'))), I('IFoo', None, M('m', u('x')))), A
    for n in 'notify notifyAll wait getClass hashCode toString finalize equals'.split():
        yield 'method %s without parameters' % n, one(I('IFoo', None, M(n))), A
    for n in 'get consume extract isNull as_ref deref clone into from fmt eq invoke_ create lock proxy asObject onTransact main close_ asBinder length'.split():
        yield 'method ' + n, one(I('IFoo', None, M(n, u('x'), Param('out', 'obj', 'IFoo', 'y')))), A
        yield 'method %s alone' % n, one(I('IFoo', None, M(n))), A
    yield 'file in a directory', Program([File('sub/base.idl', [], [I('IBase', None, M('m', u('x')))]), File('top.idl', ['sub/base.idl'], [I('IFoo', 'IBase', M('n', u('y')))])]), A
    yield 'file without declarations', Program([File('none.idl', [], []), File('top.idl', ['none.idl'], [I('IFoo', None, M('n', u('y')))])]), A
    odd = ['a b', 'a+b', '1a', 'a.b', "a'b", 'a;b', 'h\u00e9', 'x.d/b', 'y z/c', 'a%s', 'a#b', '-a', 'include']
    yield 'files of unusual names', Program([File(n + '.idl', [], [Struct('Sf%d' % i, [('uint32', 1, 'a')]), C('uint8', 'KF%d' % i, '1'), I('IF%d' % i, None, M('n', Param('in', 'struct', 'Sf%d' % i, 'y')))]) for i, n in enumerate(odd)] + [
        File('top.idl', ['./%s.idl' % n for n in odd], [I('IFoo', 'IF3', M('m', *[Param('out' if i % 2 else 'in', 'struct', 'Sf%d' % i, 'p%d' % i) for i in range(len(odd))]))])]), ['c', 'cu', 'cpp']
    yield 'two included files of the same stem', Program([File('p/x.idl', [], [Struct('SP', [('uint32', 1, 'a')])]), File('q/x.idl', [], [Struct('SQ', [('uint32', 1, 'a')])]), File('top.idl', ['p/x.idl', 'q/x.idl'], [I('IFoo', None, M('n', Param('in', 'struct', 'SP', 'y'), Param('in', 'struct', 'SQ', 'z')))])]), A
    yield 'struct array of one element', one(Struct('Sa', [('uint32', 1, 'a'), ('uint8', 4, 'c')]), Struct('Sb', [('Sa', 2, 'x'), ('uint64', 2, 'y')]), I('IFoo', None, M('m', Param('in', 'structarr', 'Sb', 'x'), Param('out', 'structarr', 'Sb', 'y'), Param('out', 'struct', 'Sb', 'z'), Param('out', 'struct', 'Sa', 'w')))), A
    yield 'method of 300 parameters', one(I('IFoo', None, M('m', *[u('p%d' % i) for i in range(300)]))), A
    yield 'interface of 600 methods', one(I('IFoo', None, *[M('m%d' % i) for i in range(600)])), ['java']
    yield 'interface of 1200 methods', one(I('IFoo', None, *[M('m%d' % i) for i in range(1200)])), A
    yield 'empty interface', one(I('IFoo', None)), A
    yield 'empty chain', one(I('IA', None), I('IB', 'IA'), I('IC', 'IB'), I('ID', 'IC')), A
    yield 'only optional', one(I('IFoo', None, Method('m', [u('x'), u('y'), u('z', 'out'), Param('in', 'objarr', None, 'o', 2)], True), Method('n', [], True))), A
    yield 'float constants', one(C('float32', 'F', '1'), C('float64', 'D', '-0.5'), I('IFoo', None, C('float32', 'G', '3'), C('float64', 'H', '1.5'), M('m', Param('in', 'prim', 'float32', 'x')))), A


def catalogue(ctx):
    rng = random.Random(ctx.rng.getrandbits(32))
    for name, p in (('singles', direct.p_singles()), ('limits', direct.p_limits()), ('bundles', direct.p_bundles(rng)), ('objstructs', direct.p_objstructs(rng)),
                    ('chain', direct.p_chain(rng)), ('far', direct.p_far_java(rng)), ('wide', direct.p_wide(rng, direct.WIDE if ctx.thorough else (21, 40)))):
        yield 'catalogue ' + name, p, ['c', 'cu', 'cpp', 'rust', 'java']


def directed(ctx, idlc):
    todo = [('catalogue arrstructs', f(random.Random(ctx.rng.getrandbits(32)), 0), l) for f in direct.arrstructs(idlc, ctx) for l in ('c', 'cu', 'cpp', 'rust')] + \
        [(n, p, l) for n, p, ls in catalogue(ctx) for l in ls] + [(n, p, l) for n, p, ls in directed_programs() for l in ls]

    def work(a):
        i, (name, p, lang) = a
        if lang == 'java':
            p = copy.deepcopy(p)
            c18.strip(p)
        d = ctx.mkdir('d%d' % i)
        try:
            fails, tus = matrix(ctx, idlc, p, d, random.Random(i), [lang], mirror=any('/' in f.path for f in p.files), short=not ctx.thorough)
            files = dict(common.program_files(p), **{k: v for k, v in common.read_tree(d).items() if not k.startswith(('cls', 'idl')) and not k.endswith('.rmeta')}) if fails else {}
            return fails, tus, files
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for (name, p, lang), (fails, tus, files) in zip(todo, common.parmap(work, enumerate(todo))):
        ctx.count('directed_shapes')
        for k in range(tus):
            ctx.case(('directed', name, lang, k))
        if fails:
            ctx.violation('shape:%s:%s' % (lang, name), '%s\n%s' % fails[0], files)


def check(ctx):
    idlc = common.Idlc(common.build_idlc())
    jv.runtime_classes()
    ctx.rule = 'a case is one translation unit (generated files and conforming user code) given to one compiler; distinct by (program, backend, unit, compiler)'
    directed(ctx, idlc)
    n = 700 if ctx.thorough else 60
    seeds = [ctx.rng.getrandbits(48) for _ in range(n)]

    def work(i):
        if ctx.left() < 40:
            return None
        rng = random.Random(seeds[i])
        java = i % 4 == 3
        p = gen.gen_program(rng, {'n_files': rng.choice([1, 2, 3]), 'n_ifaces': rng.choice([1, 3, 5]), 'n_structs': rng.choice([0, 2, 5]), 'n_methods': rng.choice([(0, 2), (1, 5), (4, 9)]), 'max_depth': rng.choice([1, 4, 6]),
                                  'p_obj_struct': .3, 'float_consts': True, 'fwd': rng.random() < .5, 'docs': rng.random() < .5})
        if java:
            c18.strip(p)
        dens = rng.choice([0, .3, .9])
        if dens:
            rename(rng, p, dens)
        d = ctx.mkdir('p%d' % i)
        langs = ['java'] if java else rng.sample(['c', 'cu', 'cpp', 'rust'], 2)
        if ctx.thorough:
            langs = ['java'] if java else ['c', 'cu', 'cpp', 'rust']
        try:
            fails, tus = matrix(ctx, idlc, p, d, rng, langs, ctx.thorough and i % 4 == 0)
            files = dict(common.program_files(p), **{k: v for k, v in common.read_tree(d).items() if not k.startswith(('cls', 'idl')) and not k.endswith('.rmeta')}) if fails else {}
            return p, langs, dens, fails, tus, files
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for i, w in enumerate(common.parmap(work, range(n))):
        if w is None:
            ctx.count('skipped_for_time')
            continue
        p, langs, dens, fails, tus, files = w
        for k in range(tus):
            ctx.case((p.text(), tuple(langs), k))
        ctx.count('programs')
        ctx.count('compilations', tus)
        for l in langs:
            ctx.count('programs_' + l)
        for it in p.ifaces.values():
            ctx.count('interfaces')
            ctx.count('methods', len(p.methods(it.name)))
        if dens:
            ctx.count('programs_with_colliding_names')
        if i % 29 == 0:
            ctx.sample('%s %s, %d compilations: %s' % (langs, dens, tus, [m.text() for it in p.ifaces.values() for m in it.methods][:3]))
        for tag, err in fails:
            ctx.violation('%s:%s' % (tag, normal(err)), err, files)
    if ctx.counters.get('compilations', 0) < 50:
        ctx.inconclusive.append('too few compilations')
