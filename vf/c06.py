"""C06: the size the compiler assumes for a struct vs the layouts of gcc,
clang, g++, clang++ and rustc, and the sizes stubs and skeletons really use."""
import os, random, shutil
from . import c04, common, core, direct, gen, glue, rt
from .idl import *

CC = [('gcc', ['gcc', '-std=gnu11']), ('clang', ['clang', '-std=gnu11'])]
CXX = [('g++', ['g++', '-std=gnu++17']), ('clang++', ['clang++', '-std=gnu++17'])]


# ---------------------------------------------------------------- generators
def wild_struct(rng, prog, name, ifaces):
    """random field list with no regard for alignment (mostly near misses)"""
    fields, off = [], 0
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 9])
    for j in range(n):
        r = rng.random()
        if r < .25 and prog.structs:
            t = rng.choice(list(prog.structs))
        elif r < .35:
            t = rng.choice(['interface'] + ifaces)
        else:
            t = rng.choice(PRIM_NAMES)
            if rng.random() < .6:
                # prefer something that fits here, so that violations sit deep
                fit = [x for x in PRIM_NAMES if off % PRIMS[x] == 0]
                t = rng.choice(fit)
        c = rng.choice([1, 1, 1, 1, 2, 3, 4, 7, 8, 16, 255, 256, 257, 1024, 65535]) if rng.random() < .5 else 1
        if t in prog.structs and prog.tsize(t) * c > 1 << 28:
            c = 1
        if t not in PRIMS and c > 1 and (t not in prog.structs or prog.objects(t)):
            c = min(c, 3)
        fields.append((t, c, 'f%d' % j))
        off += prog.tsize(t) * c
    if rng.random() < .55:
        al = max(prog.talign(t) for t, _, _ in fields)
        k = 0
        while off % al:
            t = rng.choice([x for x in PRIM_NAMES if PRIMS[x] <= al and off % PRIMS[x] == 0])
            fields.append((t, 1, 'z%d' % k))
            off += PRIMS[t]
            k += 1
    if sum(1 for _ in range(1)) and len(fields) > 1 and rng.random() < .15:
        i, j = rng.sample(range(len(fields)), 2)
        fields[i], fields[j] = fields[j], fields[i]
    return Struct(name, fields)


def wild_program(rng, i):
    """a few structs building on one another; the later ones may be invalid"""
    tag = 'w%d' % i
    prog = Program([File(tag + '.idl', [], [Interface('IW%d' % i, None, [])])])
    ifaces = ['IW%d' % i]
    order = []
    n = rng.choice([1, 2, 2, 3, 4])
    for k in range(n):
        name = 'W%d_%d' % (i, k)
        if k < n - 1:
            for _ in range(60):
                s = wild_struct(rng, prog, name, ifaces)
                prog.structs[name] = s
                if prog.layout_ok(name) and len(prog.objects(name)) < 9:
                    break
                del prog.structs[name]
            else:
                s = Struct(name, [('uint32', 3, 'f0')])
        else:
            s = wild_struct(rng, prog, name, ifaces)
        prog.structs[name] = s
        order.append(s)
    decls = order + prog.files[0].decls
    rng.shuffle(decls)
    files = [File(tag + '.idl', [], [])]
    if rng.random() < .4 and n > 1:
        # nested structs (closed under dependencies) and interface in an included file
        files.append(File(tag + '_inc.idl', [], []))
        files[0].includes.append(files[1].path)
        low = set(s.name for s in order[:n - 1])
        files[1].decls = [d for d in decls if d.name in low or d.kind == 'interface']
        files[0].decls = [d for d in decls if d.name not in low and d.kind != 'interface']
    else:
        files[0].decls = decls
    return Program(files)


def valid_program(rng, i):
    """valid structs of all sizes, with deep nesting"""
    prog = gen.gen_program(rng, {'n_structs': rng.choice([4, 8, 14]), 'n_ifaces': 2, 'n_methods': (0, 0), 'n_files': 1 + i % 3, 'consts': False, 'errors': False,
                                 'p_obj_struct': .3, 'max_struct_objs': 12, 'fwd': i % 2 == 1,
                                 'struct_sizes': [1, 2, 3, 5, 7, 8, 12, 15, 16, 17, 24, 31, 40, 64, 100, 200, 600]})
    # unique names across the batch
    ren = {}
    for n in list(prog.structs) + list(prog.ifaces):
        ren[n] = '%s_v%d' % (n, i)
    for f in prog.files:
        f.path = 'v%d_%s' % (i, f.path)
        f.includes = ['v%d_%s' % (i, x) for x in f.includes]
        for d in f.decls:
            d.name = ren.get(d.name, d.name)
            if d.kind == 'struct':
                d.fields = [(ren.get(t, t), c, n) for t, c, n in d.fields]
            elif d.kind == 'interface':
                d.base = ren.get(d.base, d.base)
    prog.reindex()
    # big arrays and long nesting on top
    names = [n for n in prog.structs if prog.where[n] is prog.files[0] and not prog.objects(n)]
    if names:
        extra = []
        prev = rng.choice(names)
        for k in range(rng.choice([1, 3, 8])):
            s = Struct('Deep%d_v%d' % (k, i), [(prev, rng.choice([1, 1, 2, 3]) if prog.tsize(prev) < 1 << 20 else 1, 'f'), (prev, 1, 'g')])
            prog.structs[s.name] = s
            extra.append(s)
            prev = s.name
        s = Struct('Big_v%d' % i, [(rng.choice(names), rng.choice([65535, 65534, 256, 255]), 'f')])
        extra.append(s)
        if rng.random() < .5:
            extra.reverse()
        prog.files[0].decls += extra
        prog.reindex()
    return prog


# ---------------------------------------------------------------- probes
def c_probe(progs, ext):
    o = '#include <stddef.h>\n#include <stdio.h>\n'
    for p in progs:
        for f in p.files:
            o += '#include "%s.%s"\n' % (glue.stem(f.path), ext)
    o += 'int main(void) {\n'
    for p in progs:
        for n, s in p.structs.items():
            o += '  printf("S %s %%zu\\n", sizeof(%s));\n' % (n, n)
            for t, c, fn in s.fields:
                o += '  printf("F %s %s %%zu %%zu\\n", offsetof(%s, %s), sizeof(((%s *)0)->%s));\n' % (n, fn, n, fn, n, fn)
    return o + '  return 0;\n}\n'


def rust_probe(progs, mods):
    o = '#![allow(warnings)]\n#[path = "%s"]\npub mod object;\npub mod interfaces {\n' % rt.OBJ_RS
    for m, f in mods:
        o += 'pub mod %s { include!("%s"); }\n' % (m, f)
    o += '}\nfn szf<T, F>(_: fn(&T) -> &F) -> usize { std::mem::size_of::<F>() }\nfn main() {\n'
    for p in progs:
        N = glue.RustNames(p)
        for n, s in p.structs.items():
            o += '  println!("S %s {}", std::mem::size_of::<%s>());\n' % (n, N.struct(n))
            for t, c, fn in s.fields:
                o += '  println!("F %s %s {} {}", std::mem::offset_of!(%s, r#%s), szf(|x: &%s| &x.r#%s));\n' % (n, fn, N.struct(n), fn, N.struct(n), fn)
    return o + '}\n'


def reference(progs):
    out = {}
    for p in progs:
        for n, s in p.structs.items():
            size, offs = p.layout(n)
            out[('S', n)] = (size,)
            for (t, c, fn), (_, off) in zip(s.fields, offs):
                out[('F', n, fn)] = (off, p.tsize(t) * c)
    return out


def parse(text):
    out = {}
    for l in text.splitlines():
        w = l.split()
        if w and w[0] == 'S':
            out[('S', w[1])] = (int(w[2]),)
        elif w and w[0] == 'F':
            out[('F', w[1], w[2])] = (int(w[3]), int(w[4]))
    return out


def generate(idlc, progs, d):
    """idlc runs; returns (accepted by {c, cpp, rust} per program, rust modules)"""
    for sub in ('idl', 'c', 'cpp', 'rust'):
        os.makedirs(os.path.join(d, sub), exist_ok=True)

    def one(p):
        p.write(os.path.join(d, 'idl'))
        acc = {}
        for be, ext in (('c', 'h'), ('cpp', 'hpp'), ('rust', None)):
            ok = True
            for f in p.files:
                out = os.path.join(d, be) if ext is None else os.path.join(d, be, glue.stem(f.path) + '.' + ext)
                r = idlc([os.path.join(d, 'idl', f.path), '--' + be, '-o', out])
                if r.returncode != 0:
                    ok = False
                    break
            acc[be] = ok
        return acc
    return [one(p) for p in progs]


def layouts(ctx, idlc, d, progs, kind):
    acc = generate(idlc, progs, d)
    for p, a in zip(progs, acc):
        valid = all(p.layout_ok(n) for n in p.structs)
        ctx.count('%s_programs_%s' % (kind, 'accepted' if a['c'] else 'rejected'))
        if not valid:
            ctx.count('misaligned_programs')
        if a['c'] != valid:
            ctx.count('accept_differs_from_reference')
    jobs = []
    for be, ext, compilers in (('c', 'h', CC), ('cpp', 'hpp', CXX)):
        ps = [p for p, a in zip(progs, acc) if a[be]]
        src = os.path.join(d, 'probe.' + ('c' if be == 'c' else 'cpp'))
        open(src, 'w').write(c_probe(ps, ext))
        for name, cmd in compilers:
            exe = os.path.join(d, 'probe-' + name)
            jobs.append((name, be, ps, cmd + ['-w', '-I/repo/tests/c', '-I/repo/tests/cpp', '-I' + os.path.join(d, be), src, '-o', exe], exe))
    ps = [p for p, a in zip(progs, acc) if a['rust']]
    stems = {glue.stem(f.path).lower() for p in ps for f in p.files} | {n.lower() for p in ps for n in p.ifaces}
    mods = [(n[:-3], os.path.join(d, 'rust', n)) for n in sorted(os.listdir(os.path.join(d, 'rust'))) if n[:-3] in stems]
    src = os.path.join(d, 'probe.rs')
    open(src, 'w').write(rust_probe(ps, mods))
    exe = os.path.join(d, 'probe-rustc')
    jobs.append(('rustc', 'rust', ps, ['rustc', '--edition', '2021', '--cfg', 'feature="std"', '-Awarnings', '-Copt-level=0', '-Cdebuginfo=0', src, '-o', exe], exe))
    for name, be, ps, cmd, exe in jobs:
        if not ps:
            continue
        files = {}
        r = common.run(cmd, cwd=d, timeout=300, text=True)
        if r.returncode != 0:
            ctx.count('probe_build_failures')
            if len(ps) > 1:
                # isolate: probe each program alone
                for j, p in enumerate(ps):
                    if ctx.left() < 30:
                        break
                    sd = os.path.join(d, 'iso')
                    shutil.rmtree(sd, ignore_errors=True)
                    os.makedirs(sd)
                    layouts(ctx, idlc, sd, [p], kind + '_iso')
                return
            ctx.violation('layout-build:%s' % name, 'accepted structs do not compile with %s, so they have no layout: %s' % (name, r.stderr[:1500]),
                          common.program_files(ps[0]))
            continue
        r = common.run([exe], timeout=60, text=True)
        got, ref = parse(r.stdout), reference(ps)
        bad = {}
        for k, v in ref.items():
            ctx.count('layout_facts_observed')
            if k[0] == 'S':
                p = next(p for p in ps if k[1] in p.structs)
                ctx.case((name, tuple((p.tsize(t), p.talign(t), c) for t, c, _ in p.structs[k[1]].fields)))
            if got.get(k) != v:
                bad.setdefault(k[1], []).append('%s: compiler-assumed %s, %s lays out %s' % (' '.join(k), v, name, got.get(k)))
        for n, lines in bad.items():
            p = next(p for p in ps if n in p.structs)
            ctx.violation('layout:%s:%s' % (name, ','.join('%s[%d]' % (t if t in PRIMS else 'struct' if t in p.structs else 'obj', c) for t, c, _ in p.structs[n].fields)),
                          'struct %s { %s } was accepted\n%s' % (n, ' '.join('%s[%d] %s;' % f for f in p.structs[n].fields), '\n'.join(lines[:8])),
                          common.program_files(p))
    if ps:
        p = ps[-1]
        n = list(p.structs)[-1]
        ctx.sample('%s %s: size %d, offsets %s' % (kind, n, p.layout(n)[0], p.layout(n)[1][:4]))


# ---------------------------------------------------------------- sizes on the wire
def wire_program(rng, i):
    """struct arguments alone and next to small parameters; sizes crowd the 16-byte boundary"""
    nm = gen.Namer(rng)
    prog = Program([File('sz%d.idl' % i, [], [])])
    order = []
    sizes = [1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 14, 15, 15, 16, 16, 16, 17, 17, 18, 19, 20, 23, 24, 31, 32, 33, 48]
    for k in range(9):
        s = gen.gen_struct(rng, prog, nm, 'S%d' % k, {'struct_sizes': sizes + ([300, 1000, 4000] if k == 8 else []), 'ifaces': ['ISz'], 'p_obj_struct': .15})
        prog.structs[s.name] = s
        order.append(s)
    if rng.random() < .7:
        s = Struct('Sbig', [(rng.choice([n for n in prog.structs if not prog.objects(n)] or ['uint8']), rng.choice([255, 256, 257, 2000]), 'f')])
        prog.structs[s.name] = s
        order.append(s)
    # sizes that are small again modulo 2^16
    t, c, rest = rng.choice([('uint64', 8193, []), ('uint64', 8194, []), ('uint8', 65535, [('uint8', 1, 'z')]), ('uint8', 65535, [('uint8', 9, 'z')]), ('uint16', 32768, [('uint32', 2, 'z')]), ('float32', 16385, [])])
    s = Struct('Sfar', [(t, c, 'f')] + rest)
    prog.structs[s.name] = s
    order.append(s)
    ms = []
    for s in order:
        P = lambda d, n: Param(d, 'struct', s.name, n)
        for ps in ([P('in', 'a')], [P('out', 'a')], [P('in', 'a'), Param('in', 'prim', rng.choice(PRIM_NAMES), 'b')],
                   [P('out', 'a'), Param('out', 'prim', rng.choice(PRIM_NAMES), 'b')],
                   [P('in', 'a'), P('in', 'c'), P('out', 'd')] if len(prog.objects(s.name)) < 8 else [P('in', 'a')]):
            ms.append(Method('sz%d' % len(ms), ps))
        if not prog.objects(s.name):
            ms.append(Method('sz%d' % len(ms), [Param('in', 'structarr', s.name, 'a'), Param('out', 'structarr', s.name, 'b')]))
    decls = order + [Interface('ISz', None, ms)]
    rng.shuffle(decls)
    prog.files[0].decls = decls
    prog.reindex()
    return prog


def judge_raw(c, o):
    return c04.judge(c, o) if c.what in ('well-formed', 'size-in', 'size-out') else []


def check(ctx):
    idlc = common.Idlc(common.build_idlc())
    ctx.rule = ('(a) random valid and unconstrained (mostly misaligned) struct sets, every accepted one compiled by gcc, clang, g++, clang++ and '
                'rustc into a probe printing sizeof/offsetof; (b) struct arguments driven through all stubs and skeletons, transmitted sizes and '
                'bundling compared with the packed size; (c) raw envelopes with sizes around the packed size. Distinct by (compiler or backend, '
                'field shape list) resp. call shape')
    ctx.assumptions += ['x86-64 host ABI; the packed layout (sum of preceding sizes) is computed by the harness from the IDL text']
    asp_w = {'wire', 'env'}
    nb = 30 if ctx.thorough else 2

    def lay(b):
        rng = random.Random(seeds[b])
        d = ctx.mkdir('lay%d' % b)
        if b % 2:
            progs = [wild_program(rng, i) for i in range(70)]
        else:
            progs = [valid_program(rng, i) for i in range(14)]
        layouts(ctx, idlc, d, progs, 'random' if b % 2 else 'valid')
        shutil.rmtree(d, ignore_errors=True)
    seeds = [ctx.rng.getrandbits(40) for _ in range(nb * 8)]
    common.parmap(lay, range(len(seeds)) if ctx.thorough else range(16))
    # array lengths the length type does not hold: refused, or laid out as written
    progs = []
    for k, (c, t) in enumerate([(c, t) for c in (65536, 65537, 65544, 131072, 131080, 2 ** 24 + 8, 2 ** 31 + 8, 2 ** 32, 2 ** 32 + 8, 2 ** 64 + 8) for t in ('uint8', 'uint64', 'Ov%d', 'interface', 'IOv%d')]):
        t = t % k if '%' in t else t
        sub = Struct('Ov%d' % k, [('uint32', 2, 'a')])
        progs.append(Program([File('ov%d.idl' % k, [], [sub, Interface('IOv%d' % k, None, []), Struct('Tv%d' % k, [(t, c, 'f')])])]))
    d = ctx.mkdir('over')
    layouts(ctx, idlc, d, progs, 'oversize')
    shutil.rmtree(d, ignore_errors=True)
    n = 240 if ctx.thorough else 8
    core.drive(ctx, idlc, wire_program, n, asp_w, {'vals': 1, 'pairs': 8, 'reserve': 30})
    core.drive(ctx, idlc, wire_program, n // 2, {'refuse'},
               {'workload': c04.workload, 'judge': judge_raw, 'n_counts': 0, 'n_sizes': 6, 'reserve': 30})
    if not ctx.counters.get('layout_facts_observed') or not ctx.counters.get('calls'):
        ctx.inconclusive.append('no layout or call was observed')
