"""C10: every well-formed, rule-respecting IDL is accepted, by every backend,
whatever the declaration order and whichever file holds a declaration."""
import copy, os, random, shutil
from . import acc, common, fe, gen, sweep, tok
from .c09 import base_program, token_mutate
from .idl import *


def big_opts(rng):
    return {'n_files': rng.choice([1, 1, 2, 3, 5]), 'n_ifaces': rng.randrange(0, 8), 'n_structs': rng.randrange(0, 14), 'n_methods': (0, rng.choice([2, 8, 20])),
            'max_depth': rng.choice([1, 4, 8]), 'fwd': rng.random() < .6, 'scatter': rng.random() < .5, 'docs': rng.random() < .4, 'float_consts': True,
            'p_obj_struct': rng.choice([0, 0, .4]), 'max_struct_objs': rng.choice([2, 4, 9])}


def permute(rng, p):
    """move declarations to other places of the include closure"""
    q = copy.deepcopy(p)
    ds = [d for f in q.files for d in f.decls]
    rng.shuffle(ds)
    for f in q.files:
        f.decls = []
    for d in ds:
        rng.choice(q.files).decls.append(d)
    if rng.random() < .5 and len(q.files) < 6:
        f = File('zextra%d.idl' % rng.randrange(1000), [], [])
        rng.choice(q.files).includes.append(f.path)
        q.files.append(f)
        for _ in range(rng.randrange(len(ds) + 1)):
            g = rng.choice(q.files)
            if g.decls:
                f.decls.append(g.decls.pop(rng.randrange(len(g.decls))))
    q.reindex()
    return q


def extreme(rng, k):
    """programs at the edges of what the grammar and the restrictions allow"""
    P1 = lambda *ds: Program([File('ex%d.idl' % k, [], list(ds))])
    kinds = ['deepstruct', 'deepiface', 'wide', 'consts', 'maxargs', 'maxarr', 'longid', 'diamond', 'empty', 'emptyiface', 'manymethods', 'errors', 'sizes', 'optional', 'chainfiles', 'onlyinclude',
             'objstructs', 'samefield', 'docs', 'unused', 'alignedges', 'reuse', 'casing', 'memlike', 'deepest']
    kind = kinds[k % len(kinds)]
    if kind == 'deepstruct':
        n = rng.randrange(5, 40)
        ds = [Struct('D0', [('uint64', 1, 'a')])]
        for i in range(1, n):
            ds.append(Struct('D%d' % i, [('D%d' % (i - 1), 1, 'n')] + ([('uint64', 1, 'b')] if rng.random() < .5 else [])))
        ds.append(Interface('IDeep', None, [Method('m', [Param('in', 'struct', 'D%d' % (n - 1), 'a'), Param('out', 'struct', 'D%d' % (n // 2), 'b'), Param('in', 'structarr', 'D%d' % (n - 1), 'c')])]))
        rng.shuffle(ds)
        return kind, P1(*ds)
    if kind == 'deepiface':
        n = rng.randrange(5, 60)
        ds = [Interface('N%d' % i, 'N%d' % (i - 1) if i else None, [Method('m%d' % i, [Param('in', 'obj', 'N%d' % rng.randrange(n), 'o')]), Error('E%d' % i), Const('int32', 'C%d' % i, str(-i))]) for i in range(n)]
        rng.shuffle(ds)
        return kind, P1(*ds)
    if kind == 'deepest':
        # every kind of chain at once, each far past what programs use
        a, b, c = rng.choice([70, 130, 180]), rng.choice([70, 110]), rng.choice([40, 70])
        ds = [Struct('D%d' % i, [('D%d' % (i + 1) if i < a - 1 else 'uint64', 1, 'n'), ('uint64', 1, 'k')]) for i in range(a)]
        ds += [Interface('N%d' % i, 'N%d' % (i + 1) if i < b - 1 else None, [Method('m%d' % i, [Param('in', 'struct', 'D%d' % (a - 1 - i % 3), 'o')]), Error('E%d' % i)]) for i in range(b)]
        if rng.random() < .5:
            rng.shuffle(ds)
        fs = [File('dp%d.idl' % i, ['dp%d.idl' % (i + 1)] if i < c - 1 else [], []) for i in range(c)]
        for i, x in enumerate(ds):
            fs[i * c // len(ds)].decls.append(x)
        return kind, Program(fs)
    if kind == 'wide':
        ds = [Struct('W%d' % i, [(t, c, 'f%d' % j) for j, (t, c) in enumerate([(rng.choice(['uint32', 'float32', 'int32']), rng.randrange(1, 9)) for _ in range(rng.randrange(1, 120))])]) for i in range(20)]
        return kind, P1(*ds)
    if kind == 'consts':
        from . import c17
        ds = [Const(t, 'K%d_%s' % (i, t.upper()), l) for t in fe.INT_LIMITS for i, l in enumerate([str(v) for v in (fe.INT_LIMITS[t][0], fe.INT_LIMITS[t][1], 0, fe.INT_LIMITS[t][1] // 2)] +
              [('-0x%x' % -v if v < 0 else '0x%X' % v) for v in fe.INT_LIMITS[t]])]
        ds += [Const(t, 'KF%d_%s' % (i, t.upper()), l) for t in ('float32', 'float64') for i, l in enumerate(['0', '1', '-1', '0.0', '3.14', '-2.5', '100000', '00.5', '0.000001'])]
        ms = [Const(d.ty, 'I' + d.name, d.lit) for d in ds]
        return kind, P1(Interface('IK', None, ms), *ds)
    if kind == 'maxargs':
        d = rng.choice(['in', 'out'])
        e = 'out' if d == 'in' else 'in'
        ps = [Param(d, 'buffer', None, 'b%d' % i) for i in range(14)] + [Param(d, 'prim', rng.choice(PRIM_NAMES), 's%d' % i) for i in range(rng.randrange(2, 30))] + \
             [Param(d, 'obj', rng.choice([None, 'IMax']), 'o%d' % i) for i in range(15)] + [Param(e, 'objarr', rng.choice([None, 'IMax']), 'oa', 15)] + \
             [Param(e, 'primarr', rng.choice(PRIM_NAMES), 'p%d' % i) for i in range(15)]
        rng.shuffle(ps)
        return kind, P1(Interface('IMax', None, [Method('m', ps), Method('n', [Param('in', 'objarr', None, 'a', 1), Param('out', 'objarr', 'IMax', 'b', 1)])]))
    if kind == 'maxarr':
        return kind, P1(Struct('A1', [('uint8', 65535, 'a'), ('uint8', 1, 'b')]), Struct('A2', [('uint64', 65535, 'a')]), Struct('A3', [('A2', 3, 'a')]), Struct('A4', [('uint16', 1, 'a'), ('uint8', 32768, 'b')]),
                        Interface('IA', None, [Method('m', [Param('in', 'struct', 'A1', 'a'), Param('out', 'struct', 'A3', 'b')])]))
    if kind == 'longid':
        n = 'L' + 'abcdefghij_' * rng.randrange(5, 60)
        return kind, P1(Struct(n + 'S', [('uint32', 1, n.lower())]), Const('int8', n + 'K', '-128'), Interface(n[:230] + 'I', None, [Method(n + 'm', [Param('in', 'struct', n + 'S', n + 'p')]), Error(n + 'E')]),
                        Interface('a', None, [Method('b', [Param('in', 'prim', 'uint8', 'c')])]), Interface('Z9__', None, []))
    if kind == 'diamond':
        n = rng.randrange(2, 5)
        ds = [Struct('Q0', [('uint32', 1, 'a')])]
        for i in range(1, n + 1):
            ds.append(Struct('Q%d' % i, [('Q%d' % (i - 1), 1, 'l'), ('Q%d' % (i - 1), rng.choice([1, 2]), 'r')]))
        rng.shuffle(ds)
        return kind, P1(*ds)
    if kind == 'empty':
        return kind, P1()
    if kind == 'emptyiface':
        return kind, P1(Interface('IE', None, []), Interface('IF', 'IE', []), Interface('IG', 'IF', [Method('m', [])]))
    if kind == 'manymethods':
        return kind, P1(Interface('IM', None, [Method('m%d' % i, [Param('in', 'prim', 'uint32', 'a')], rng.random() < .1) for i in range(rng.randrange(80, 200))]))
    if kind == 'errors':
        return kind, P1(Interface('IEr', None, [Error('E%d' % i) for i in range(rng.randrange(200, 400))]), Interface('IEr2', 'IEr', [Error('F')]))
    if kind == 'sizes':
        ds, ms = [], []
        for i in range(1, 34):
            ds.append(Struct('Z%d' % i, [('uint8', i, 'a')]))
            ms.append(Method('m%d' % i, [Param('in', 'struct', 'Z%d' % i, 'a'), Param('in', 'prim', 'uint64', 'b'), Param('out', 'struct', 'Z%d' % i, 'c'), Param('out', 'prim', 'uint16', 'd'), Param('in', 'structarr', 'Z%d' % i, 'e')]))
        return kind, P1(Interface('IZ', None, ms), *ds)
    if kind == 'optional':
        return kind, P1(Interface('IO', None, [Method('m%d' % i, [], True) for i in range(9)]), Interface('IP', 'IO', [Method('n', [], True)]))
    if kind == 'chainfiles':
        n = rng.randrange(5, 25)
        fs = [File('ch%d.idl' % i, ['ch%d.idl' % (i + 1)] if i < n - 1 else [], [Struct('C%d' % i, [('C%d' % (i + 1) if i < n - 1 else 'uint64', 1, 'x')]), Interface('IC%d' % i, 'IC%d' % (i + 1) if i < n - 1 else None, [Method('m%d' % i, [])])]) for i in range(n)]
        return kind, Program(fs)
    if kind == 'onlyinclude':
        return kind, Program([File('oi.idl', ['oj.idl'], []), File('oj.idl', [], [Interface('IJ', None, [Method('m', [])]), Struct('SJ', [('uint8', 1, 'a')])])])
    if kind == 'objstructs':
        t = rng.choice(['interface', 'IOb'])
        ds = [Struct('O1', [(t, 1, 'o')]), Struct('O2', [('uint64', 1, 'a'), (t, 1, 'o'), ('uint32', 2, 'b')]), Struct('O3', [('O2', 1, 'x'), ('O1', 2, 'y')]), Struct('O4', [(t, 3, 'o')]),
              Struct('O5', [('uint8', 8, 'p'), ('O4', 1, 'q'), ('int64', 1, 'r')])]
        ms = [Method('m%d%s' % (i, d), [Param(d, 'struct', 'O%d' % i, 'a')] + ([Param(d, 'obj', 'IOb', 'b')] if rng.random() < .5 else [])) for i in range(1, 6) for d in ('in', 'out')]
        ds.append(Interface('IOb', None, ms))
        rng.shuffle(ds)
        return kind, P1(*ds)
    if kind == 'samefield':
        return kind, P1(Struct('F1', [('uint32', 1, 'same')]), Struct('F2', [('F1', 1, 'same'), ('uint32', 1, 'other')]), Const('uint8', 'same', '1'),
                        Interface('IFf', None, [Method('same', [Param('in', 'struct', 'F2', 'same'), Param('out', 'prim', 'uint8', 'other')]), Method('other', [Param('in', 'prim', 'uint8', 'same')]), Const('uint8', 'same2', '2')]))
    if kind == 'docs':
        return kind, P1(Interface('ID', None, [Method('m%d' % i, [Param('in', 'prim', 'uint8', 'a')], i % 2 == 1, t) for i, t in enumerate(['', ' x\n', '  * a\n  * b\n', '\n\n', '\t\ttabs\n', ' é 漢 🙂\n', '*', ' @param a\n\n   deep\n ', ' // x\n', ' "quote" \'q\' \\ \n'])]))
    if kind == 'unused':
        return kind, Program([File('un.idl', ['uo.idl', 'up.idl'], [Interface('IU', None, [Method('m', [])])]), File('uo.idl', ['up.idl'], [Struct('U1', [('U2', 2, 'x')])]), File('up.idl', [], [Struct('U2', [('uint16', 3, 'x')]), Const('float64', 'UK', '1.5')])])
    if kind == 'alignedges':
        return kind, P1(Struct('G1', [('uint8', 1, 'a'), ('uint8', 1, 'b'), ('uint16', 1, 'c'), ('uint32', 1, 'd'), ('uint64', 1, 'e'), ('float64', 1, 'f'), ('float32', 2, 'g'), ('int16', 4, 'h'), ('int8', 8, 'i')]),
                        Struct('G2', [('uint8', 4, 'a'), ('G3', 1, 'b'), ('uint8', 4, 'c')]), Struct('G3', [('uint32', 1, 'a'), ('uint16', 2, 'b')]), Struct('G4', [('uint8', 5, 'a')]), Struct('G5', [('G4', 3, 'a'), ('uint8', 1, 'b'), ('uint64', 1, 'c')]))
    if kind == 'reuse':
        return kind, P1(Interface('IR1', None, [Method('m', [Param('in', 'prim', 'uint8', 'a')]), Error('E'), Const('uint8', 'K', '1')]), Interface('IR2', None, [Method('m', [Param('out', 'prim', 'uint8', 'a')]), Error('E'), Const('uint8', 'K', '2')]),
                        Interface('IR3', None, [Method('E', []), Method('K', []), Error('E'), Const('int8', 'K', '3')]), Const('uint8', 'K', '9'))
    if kind == 'casing':
        return kind, P1(Struct('Case', [('uint8', 1, 'a'), ('uint8', 1, 'A')]), Interface('ICase', None, [Method('m', [Param('in', 'prim', 'uint8', 'x'), Param('in', 'prim', 'uint8', 'X')]), Method('M', [])]))
    # names close to keywords and types
    return kind, P1(Struct('structure', [('uint32', 1, 'int8y'), ('uint32', 1, 'inn')]), Interface('interfaceX', None, [Method('methodical', [Param('in', 'obj', 'interfaceX', 'input'), Param('out', 'prim', 'uint8', 'outer')]), Error('errors'), Const('uint8', 'constant', '1')]),
                    Interface('Uses', None, [Method('go', [Param('in', 'struct', 'structure', 'bufferx'), Param('in', 'buffer', None, 'buf')])]))


def judge_sweep(r, got, v, why, cfg):
    if r.returncode != 0:
        return 'rejected', common.diag(r)
    if not all(got.values()) or (not got and not acc.CFG[cfg][1]):
        return 'missing', 'accepted but wrote %s' % sorted(got)


def check(ctx):
    idlc = common.Idlc(common.build_idlc())
    rel = common.Idlc(common.build_idlc(kind='rel'))
    lib = common.build_lib()
    sweep.run(ctx, 'accept', {'dbg': idlc, 'rel': rel}, judge_sweep)
    ctx.rule = ('a case is one file set the reference front end accepts, distinct by (source, backend, flags); valid random programs in several declaration orders and placements over the include set, '
                'programs at the edges of the restrictions, random trivia, and textual mutants that stay valid')
    ctx.assumptions += ['the reference front end in vf/fe.py; reserved words of any target language, and names that differ only in case for the Rust and Java files, are left out']
    total = 30000 if ctx.thorough else 1000
    seeds = [ctx.rng.getrandbits(48) for _ in range(total)]
    chunk = 40

    def variants(rng, i):
        k = rng.random()
        if i % 8 == 0:
            kind, p = extreme(rng, i // 8)
            yield 'extreme-' + kind, p, None
            q = permute(rng, p) if kind not in ('chainfiles',) else p
            yield 'extreme-' + kind + '-moved', q, None
        elif k < .6:
            p = gen.gen_program(rng, big_opts(rng))
            yield 'random', p, None
            yield 'moved', permute(rng, p), None
            q = copy.deepcopy(p)
            for f in q.files:
                f.decls.reverse()
            yield 'reversed', q, None
        else:
            p = base_program(rng, True)
            txt = {f.path: tok.render(f, rng, rng.choice([.1, .3, .6])) if rng.random() < .5 else tok.compact(f) for f in p.files}
            yield 'trivia', p, txt
            for _ in range(3):
                t2 = dict(txt)
                f = rng.choice(p.files).path
                t2[f] = token_mutate(rng, t2[f] if rng.random() < .5 else p.files[[x.path for x in p.files].index(f)].text())
                yield 'mutant', p, t2

    def work(c):
        if ctx.left() < 25:
            return None
        out, libitems = [], []
        root = ctx.mkdir('k%d' % c)
        for i in range(c * chunk, min((c + 1) * chunk, total)):
            rng = random.Random(seeds[i])
            for j, (src, p, txt) in enumerate(variants(rng, i)):
                d = os.path.join(root, '%d_%d' % (i, j))
                os.makedirs(d)
                p.reindex()
                txt = txt or {f.path: f.text() for f in p.files}
                for k, v in txt.items():
                    with open(os.path.join(d, k), 'w', newline='') as fh:
                        fh.write(v)
                main = os.path.join(d, p.files[0].path)
                v, why, info = fe.verdict(main)
                if v != 'accept':
                    out.append((src, v, why, None, txt, None))
                    shutil.rmtree(d)
                    continue
                stem = p.files[0].path[:-4]
                cfgs = [x[0] for x in acc.CFGS]
                own = [x[1] for x in fe.parse(txt[p.files[0].path])[1] if x[0] == 'interface']
                if info['structobj'] or acc.case_fold_clash(own + [stem]) or stem in own:
                    cfgs.remove('java')
                if acc.case_fold_clash(own + [stem]):
                    cfgs.remove('rust')
                if src in ('mutant', 'moved', 'reversed') and not ctx.thorough:
                    cfgs = rng.sample(cfgs, 2)
                res = []
                for cfg in cfgs:
                    fl = acc.flags(rng, d)
                    r, got = acc.compile_one(idlc, main, cfg, os.path.join(d, 'out-' + cfg), extra=fl, incs=[d] if rng.random() < .2 else [])
                    bad = None
                    if r.returncode != 0:
                        bad = 'rejected: ' + common.diag(r)
                    elif cfg in ('rust', 'java'):
                        req, allow = acc.expected(cfg, stem, own)
                        if not req <= set(got):
                            bad = 'accepted but wrote %s, expected %s' % (sorted(got), sorted(req))
                    elif not got or not list(got.values())[0]:
                        bad = 'accepted but wrote nothing'
                    res.append((cfg, fl, bad))
                out.append((src, v, why, res, txt, len(libitems) if 'rust' in cfgs or ctx.thorough else None))
                if out[-1][5] is not None:
                    libitems.append(('', [d], main))
        lr = common.lib_run(lib, libitems, root) if libitems else []
        shutil.rmtree(root, ignore_errors=True)
        return out, lr
    for w in common.procmap(work, range((total + chunk - 1) // chunk)):
        if w is None:
            ctx.count('chunks_skipped_for_time')
            continue
        out, lr = w
        for src, v, why, res, txt, li in out:
            if v != 'accept':
                ctx.count('%s_%s' % (src, v))
                if src != 'mutant' and v == 'reject':
                    ctx.count('generator_produced_invalid')
                    ctx.sample('generator produced an invalid program (%s): %s' % (src, why))
                continue
            files = {'idl/' + k: t for k, t in txt.items()}
            ctx.count('programs_' + src.split('-')[0])
            key = hash(tuple(sorted(txt.items())))
            for cfg, fl, bad in res:
                ctx.case((src, key, cfg, tuple(x for x in fl if x.startswith('--'))))
                ctx.count('compiler_runs')
                if bad:
                    ctx.violation('%s:%s:%s' % (src, cfg, 'rejected' if bad.startswith('rejected') else 'missing'), '%s %s: %s' % (cfg, ' '.join(fl), bad), files)
            if li is not None:
                ctx.case((src, key, 'library'))
                ctx.count('library_runs')
                if not (lr[li] or '').startswith('ok'):
                    ctx.violation('%s:library:rejected' % src, 'idlc::Language::Rust.generate: %s' % lr[li], files)
            if ctx.evaluations % 301 < 7:
                ctx.sample('%s: %d files, %d bytes accepted in %d configurations' % (src, len(txt), sum(map(len, txt.values())), len(res)))
    if ctx.counters.get('compiler_runs', 0) < 500:
        ctx.inconclusive.append('too few runs')
