"""C19: a rejected input leaves the file system as it was; an accepted one
writes exactly the expected files, whole.

A snapshot (bytes, size, mtime, inode of everything under a scratch tree that
holds inputs, outputs and the working directory) is taken around every run."""
import os, random, re, shutil
from . import acc, c09, common, fe, gen, tok
from .idl import *

BANNER = b'// AUTOGENERATED FILE: DO NOT EDIT (idlc v'
JUNK = [b'', b'old', b'OLD CONTENT \xff\x00 ' * 40, b'x' * 300000, b'// AUTOGENERATED FILE: DO NOT EDIT (idlc v0.0.1)\nold old old\n' * 50]
MARKS = ['Copyright (c) someone\n', 'one line', 'a\n\nb\n', 'x\n' * 500, 'no newline at end\nsecond']


def mark_text(m, cfg):
    if not m:
        return b''
    body = ''.join(('* ' if cfg == 'java' else '// ') + l + '\n' for l in m.splitlines())
    return ((('/*\n' + body + '*/\n') if cfg == 'java' else body) + '\n').encode()


def expected(p, cfg):
    """file names a multi-file backend must write / may write"""
    main = p.files[0]
    stem = main.path[:-4]
    names = [d.name for d in main.decls if d.kind == 'interface']
    content = any(d.kind in ('const', 'struct') for d in main.decls)
    if cfg == 'rust':
        req = {n.lower() + '.rs' for n in names}
        if content:
            req.add(stem.lower() + '.rs')
        return req, req
    req = {n + '.java' for n in names}
    opt = {stem + '.java'}
    return (req | opt if content else req), req | opt


def whole(data, cfg, p, name):
    """problems of one written file: truncated or spliced text"""
    t = data.decode('utf-8', 'replace')
    # comments and literals may hold anything
    t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    t = re.sub(r'//[^\n]*', '', t)
    t = re.sub(r'"(?:[^"\\]|\\.)*"', '""', t)
    for a, b in ('{}', '()', '[]'):
        if t.count(a) != t.count(b):
            return 'unbalanced %s%s: %d/%d' % (a, b, t.count(a), t.count(b))
    return None


def pre(rng, out, cfg, exp):
    """pre-existing state of the output path"""
    k = rng.random()
    if not acc.CFG[cfg][1]:
        if k < .7:
            with open(out, 'wb') as f:
                f.write(rng.choice(JUNK))
            os.utime(out, (10 ** 9, 10 ** 9))
        return
    os.makedirs(out)
    for n in sorted(exp):
        if rng.random() < .5:
            with open(os.path.join(out, n), 'wb') as f:
                f.write(rng.choice(JUNK))
            os.utime(os.path.join(out, n), (10 ** 9, 10 ** 9))
    for n in ('unrelated.txt', 'Other.java', 'other.rs', 'mod.rs', '.keep'):
        if rng.random() < .4:
            with open(os.path.join(out, n), 'wb') as f:
                f.write(b'mine')
    if rng.random() < .3:
        os.makedirs(os.path.join(out, 'dir', 'sub'))
        open(os.path.join(out, 'dir', 'sub', 'f'), 'w').write('mine')


def changes(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            out.append('created ' + k)
        elif k not in b:
            out.append('removed ' + k)
        elif a[k] != b[k]:
            out.append('modified ' + k)
    return out


def accept_case(idlc, rng, d):
    p = gen.gen_program(rng, {'n_files': rng.choice([1, 1, 2, 3]), 'n_ifaces': rng.choice([0, 1, 2, 3, 5, 9]), 'n_structs': rng.choice([0, 0, 2, 5]), 'n_methods': (0, 4), 'fwd': True,
                              'scatter': rng.random() < .3, 'docs': rng.random() < .3, 'consts': rng.random() < .6, 'p_obj_struct': rng.choice([0, 0, .4]), 'float_consts': True})
    cfg = rng.choice([c[0] for c in acc.CFGS] + ['rust', 'java'])
    if cfg == 'java' and any(p.objects(s) for s in p.structs):
        cfg = 'rust'
    main = p.write(os.path.join(d, 'in'))
    os.makedirs(os.path.join(d, 'cwd'))
    args, multi = acc.CFG[cfg]
    mark = rng.choice([None, None] + MARKS + [''])
    fl = []
    if mark is not None:
        open(os.path.join(d, 'in', 'mark.txt'), 'w').write(mark)
        fl = ['--marking', os.path.join(d, 'in', 'mark.txt')]
    if rng.random() < .2:
        fl.append('--no-typed-objects')
    # a clean compile for the complete content
    cl = os.path.join(d, 'clean')
    if multi:
        os.makedirs(cl)
    r0 = idlc([main, '-o', cl] + args + fl, cwd=d)
    if r0.returncode:
        return ('acc', cfg, p, 'rejected', [], None, False)
    clean = common.read_tree(cl) if multi else {os.path.basename(main): open(cl, 'rb').read()}
    shutil.rmtree(cl) if multi else os.unlink(cl)
    probs = []
    req, allow = expected(p, cfg) if multi else (None, None)
    out = os.path.join(d, 'outdir', 'o')
    os.makedirs(os.path.dirname(out))
    pre(rng, out, cfg, allow)
    cwd = os.path.join(d, 'cwd')
    bare = multi and rng.random() < .25
    if bare:
        cwd = out
    spelled = out if rng.random() < .6 else os.path.relpath(out, cwd)
    if rng.random() < .3:
        # the file system takes only so much: a run that fails half-way is followed by one that does not
        k = rng.choice([0, 1, 64, rng.randint(0, max(map(len, clean.values()), default=0))])
        r = idlc([main] + ([] if bare else ['-o', spelled]) + args + fl, cwd=cwd, limit_fsize=k)
        if r.returncode == 0:
            for n, b in clean.items():
                f = os.path.join(out, n) if multi else out
                if not os.path.isfile(f) or open(f, 'rb').read() != b:
                    probs.append(('fault', 'exit status 0 although %s could not be written (limit %d bytes)' % (n, k)))
        elif b'panicked' not in r.stderr and not r.stderr.strip():
            probs.append(('fault', 'a write error goes without a diagnostic'))
        faults = True
    else:
        faults = False
    before = common.snapshot(d)
    r = idlc([main] + ([] if bare else ['-o', spelled]) + args + fl, cwd=cwd)
    after = common.snapshot(d)
    if r.returncode:
        return ('acc', cfg, p, 'second run rejected: ' + common.diag(r), [], None, faults)
    ch = changes(before, after)
    orel = os.path.relpath(out, d)
    if multi:
        got = {n: open(os.path.join(out, n), 'rb').read() for n in os.listdir(out) if os.path.isfile(os.path.join(out, n))}
        written = set(clean)
        if not req <= written <= allow:
            probs.append('files', 'wrote %s, expected %s' % (sorted(written), sorted(req))) if False else probs.append(('files', 'wrote %s, expected %s' % (sorted(written), sorted(req))))
        touched = {c.split(' ', 1)[1] for c in ch}
        wanted = {os.path.join(orel, n) for n in written}
        if touched - wanted:
            probs.append(('stray', 'also touched %s' % sorted(touched - wanted)))
        for n in written:
            if got.get(n) != clean[n]:
                probs.append(('mixed', '%s differs from a clean compilation' % n))
    else:
        touched = {c.split(' ', 1)[1] for c in ch}
        if touched - {orel}:
            probs.append(('stray', 'also touched %s' % sorted(touched - {orel})))
        if not os.path.isfile(out):
            probs.append(('files', 'output file missing'))
        elif open(out, 'rb').read() != list(clean.values())[0]:
            probs.append(('mixed', 'output differs from a clean compilation'))
    for n, b in clean.items():
        head = mark_text(mark, cfg) + BANNER
        if not b.startswith(head):
            probs.append(('banner', '%s does not start with the marking and the banner: %r, expected %r' % (n, b[:120], head[:120])))
        w = whole(b[len(mark_text(mark, cfg)):], cfg, p, n)
        if w:
            probs.append(('partial', '%s: %s' % (n, w)))
        if b.count(BANNER) != 1:
            probs.append(('banner', '%s carries %d banners' % (n, b.count(BANNER))))
    # every interface and method is somewhere in the output
    text = b'\n'.join(clean.values()).decode('utf-8', 'replace')
    for x in p.files[0].decls:
        if x.kind == 'interface':
            src = text if not multi else clean.get(x.name.lower() + '.rs' if cfg == 'rust' else x.name + '.java', b'').decode('utf-8', 'replace')
            for m in x.methods:
                if not re.search(r'\b(?:\w+_)?%s' % re.escape(m.name), src):
                    probs.append(('partial', 'method %s.%s is not in the output' % (x.name, m.name)))
    return ('acc', cfg, p, None, probs, len(clean), faults)


def backend_reject(rng):
    """inputs only a backend refuses, or refused late"""
    k = rng.choice(['java-obj', 'rust-kw', 'too-many', 'inc-java-obj'])
    if k == 'java-obj':
        return k, 'java', Program([File('br.idl', [], [Interface('IA', None, [Method('a', [])]), Const('uint8', 'K', '1'), Struct('O', [('interface', 1, 'o')]), Interface('IB', None, [Method('m', [Param('in', 'struct', 'O', 'o')])])])])
    if k == 'inc-java-obj':
        return k, 'java', Program([File('br.idl', ['bi.idl'], [Interface('IA', None, [Method('a', [])]), Interface('IB', None, [Method('m', [Param('out', 'struct', 'O', 'o')])])]), File('bi.idl', [], [Struct('O', [('uint64', 1, 'x'), ('IA', 1, 'o')])])])
    if k == 'rust-kw':
        w = rng.choice(['fn', 'match', 'impl', 'dyn', 'loop', 'crate', 'where'])
        return k, 'rust', Program([File('br.idl', [], [Interface('IA', None, [Method('a', [])]), Struct('S', [('uint8', 1, 'a')]), Interface('IB', None, [Method(w, [Param('in', 'prim', 'uint8', 'x')])]), Interface('IC', None, [])])])
    cfg = rng.choice(['c', 'cpp-skel', 'java', 'rust'])
    return k, cfg, Program([File('br.idl', [], [Interface('IA', None, [Method('a', [])]), Interface('IB', None, [Method('m', [Param('in', 'buffer', None, 'b%d' % i) for i in range(16)])])])])


def reject_case(idlc, rng, d):
    os.makedirs(os.path.join(d, 'in'))
    os.makedirs(os.path.join(d, 'cwd'))
    out = os.path.join(d, 'outdir', 'o')
    os.makedirs(os.path.dirname(out))
    k = rng.random()
    cfg = rng.choice([c[0] for c in acc.CFGS])
    fl, extra = [], []
    if k < .6:
        mc = None
        while mc is None:
            mc = c09.make_case(rng, os.path.join(d, 'in'))
        stage, det, main, txt = mc
        v, why, _ = fe.verdict(main)
        if v != 'reject':
            return None
        stage = 'grammar' if why.startswith('grammar') else stage
        stem = os.path.basename(main)[:-4]
        exp = {stem + '.rs', stem + '.java', 'ia.rs'} | {n.lower() + '.rs' for n in re.findall(r'interface (\w+)', ' '.join(txt.values()))} | {n + '.java' for n in re.findall(r'interface (\w+)', ' '.join(txt.values()))}
    elif k < .75:
        stage, cfg, p = backend_reject(rng)
        main = p.write(os.path.join(d, 'in'))
        exp = {'br.rs', 'br.java', 'ia.rs', 'ib.rs', 'IA.java', 'IB.java', 'ic.rs'}
        why = stage
    else:
        p = c09.base_program(rng, True)
        main = p.write(os.path.join(d, 'in'))
        exp = {'x.rs'} | {n.lower() + '.rs' for n in p.ifaces} | {n + '.java' for n in p.ifaces}
        stage = why = rng.choice(['no-marking', 'marking-not-utf8', 'conflict', 'unknown-flag', 'no-input', 'dump', 'input-dir', 'two-langs', 'empty-input', 'binary-input'])
        if stage == 'no-marking':
            fl = ['--marking', os.path.join(d, 'in', 'nope')]
        elif stage == 'marking-not-utf8':
            open(os.path.join(d, 'in', 'mk'), 'wb').write(b'\xff\xfe\x00bad')
            fl = ['--marking', os.path.join(d, 'in', 'mk')]
        elif stage == 'conflict':
            cfg = rng.choice(['java', 'rust'])
            fl = ['--skel']
        elif stage == 'unknown-flag':
            fl = ['--frobnicate']
        elif stage == 'no-input':
            main = os.path.join(d, 'in', 'missing.idl')
        elif stage == 'input-dir':
            main = os.path.join(d, 'in')
        elif stage == 'two-langs':
            fl = ['--cpp', '--java', '--rust']
        elif stage == 'dump':
            fl = ['--dump', rng.choice(['pst', 'ast', 'mir'])]
        elif stage == 'empty-input':
            open(main, 'w').write('interface')
        elif stage == 'binary-input':
            open(main, 'wb').write(b'struct S { uint8 a; };\xff\xfe')
    multi = acc.CFG[cfg][1]
    if multi and rng.random() < .15:
        pass        # output directory does not exist
    else:
        pre(rng, out, cfg, exp)
    before = common.snapshot(d)
    r = idlc([main, '-o', out] + acc.CFG[cfg][0] + fl, cwd=os.path.join(d, 'cwd'))
    after = common.snapshot(d)
    if r.returncode == 0 and stage != 'dump':
        return (stage, cfg, 'accepted', why, [])
    return (stage, cfg, None, why, changes(before, after), {'in/' + k: v for k, v in common.read_tree(os.path.join(d, 'in')).items()})


def collisions(ctx, idlc):
    """interface names that meet after the backend's case folding"""
    cases = [
        ('rust', 'two interfaces', 'cf.idl', 'interface IFoo { method a(); };\ninterface Ifoo { method b(); };\n', {'ifoo.rs'}, ['a', 'b'], 2),
        ('rust', 'interface named like the file', 'ifile.idl', 'const uint8 K = 1;\ninterface IFile { method a(); };\n', None, None, None),
        ('rust', 'interface named like the file, mixed case', 'IFile.idl', 'struct S { uint8 a; };\ninterface ifile { method a(); };\n', None, None, None),
        ('java', 'two interfaces', 'cf.idl', 'interface IFoo { method a(); };\ninterface Ifoo { method b(); };\n', None, None, None),
        ('java', 'interface named like the file', 'IFile.idl', 'const uint8 K = 1;\ninterface IFile { method a(); };\n', None, None, None),
        ('java', 'interface named like the file, other case', 'ifile.idl', 'const uint8 K = 1;\ninterface IFile { method a(); };\n', None, None, None),
    ]
    for cfg, what, name, text, *_ in cases:
        d = ctx.mkdir('col')
        main = os.path.join(d, name)
        open(main, 'w').write(text)
        r, got = acc.compile_one(idlc, main, cfg, os.path.join(d, 'o'))
        ctx.case(('collision', cfg, what))
        ctx.count('collision_cases')
        if r.returncode:
            continue        # refusing is C10's business
        names = re.findall(r'interface (\w+)', text)
        stem = name[:-4]
        bad = None
        for n in names:
            meth = re.search(r'interface %s \{ method (\w+)' % n, text).group(1)
            f = n.lower() + '.rs' if cfg == 'rust' else n + '.java'
            c = got.get(f, b'').decode()
            if cfg == 'rust':
                ok = re.search(r'\bfn r#%s\b|\bfn %s\b' % (meth, meth), c) and re.search(r'pub struct %s\b' % n, c)
            else:
                ok = len(re.findall(r'^public interface %s\b' % n, c, re.M)) == 1
            if not ok:
                bad = 'interface %s has no file of its own: %s' % (n, sorted(got))
            elif cfg == 'java' and len(re.findall(r'^package', c, re.M)) + len(re.findall(r'^public interface', c, re.M)) != 2:
                bad = 'file %s holds two top-level interfaces, one inside the other' % f
        if cfg == 'rust' and ('const' in text or 'struct' in text):
            c = got.get(stem.lower() + '.rs', b'').decode()
            if not re.search(r'pub const K|pub struct S', c):
                bad = 'the file-level module lost its content'
        if bad:
            ctx.violation('collision:%s:%s' % (cfg, what), '%s: %s' % (what, bad), {'idl/' + name: text})


def check(ctx):
    idlc = common.Idlc(common.build_idlc())
    ctx.rule = ('a case is one run with a snapshot of the scratch tree before and after; distinct by (stage of the rejection or number of files, backend, pre-existing state); accepted runs are also compared with a clean '
                'compilation, the expected file names and the banner')
    ctx.assumptions += ['the Java file-level interface is always written, even when it is empty', 'write errors of the file system are not rejections of the input']
    collisions(ctx, idlc)
    n = 14000 if ctx.thorough else 3200
    seeds = [ctx.rng.getrandbits(48) for _ in range(n)]

    def work(i):
        if ctx.left() < 25:
            return None
        rng = random.Random(seeds[i])
        d = ctx.mkdir('c%d' % i)
        try:
            return accept_case(idlc, rng, d) if i % 3 == 0 else reject_case(idlc, rng, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def case(i):
        r = work(i)
        return r
    for i, r in enumerate(common.parmap(case, range(n))):
        if r is None:
            ctx.count('cases_skipped')
            continue
        if r[0] == 'acc':
            _, cfg, p, rej, probs, nf, faults = r
            files = common.program_files(p)
            if rej:
                ctx.count('accept_cases_rejected')
                if rej.startswith('second'):
                    ctx.violation('accept:%s:second-run' % cfg, rej, files)
                continue
            ctx.case(('accept', cfg, nf, len(p.files)))
            ctx.count('accepted_runs')
            ctx.count('write_faults_before_a_run', int(faults))
            ctx.count('files_checked', nf)
            for kind, msg in probs:
                ctx.violation('%s:%s' % (kind, cfg), msg, files)
            if i % 301 == 0:
                ctx.sample('accepted %s: %d files' % (cfg, nf))
        else:
            stage, cfg, bad, why, ch = r[:5]
            if bad:
                ctx.count('reject_cases_accepted')
                continue
            ctx.case(('reject', stage, cfg, why[:30]))
            ctx.count('rejected_runs')
            ctx.count('stage_' + stage)
            if ch:
                ctx.violation('reject:%s:%s' % (stage, cfg), 'rejected (%s) but %s' % (why, ch), r[5])
            if i % 401 == 1:
                ctx.sample('rejected %s at %s: nothing touched' % (cfg, stage))
    if ctx.counters.get('accepted_runs', 0) < 100 or ctx.counters.get('rejected_runs', 0) < 100:
        ctx.inconclusive.append('too few runs')
