"""C13: output is a function of the file set and the flags alone.

Every program is compiled once as a baseline, then again and again: fresh hash
seeds, other working directories, other absolute locations, other spellings of
every path. Names and bytes of all files written must be those of the
baseline; the library must produce the bytes of the command-line driver."""
import os, random, shutil
from . import acc, common, gen, tok
from .idl import *

LOCS = ['short', 'a/very/deep/location/with/many/components/in/it', 'with space', 'ünïcödé', 'dots.in.name', 'x.idl.d', 'UPPER', '.hidden', "quo'te", 'plus+eq=at@']


def program(rng, i):
    p = gen.gen_program(rng, {'n_files': rng.choice([1, 2, 3, 4, 6]), 'n_ifaces': rng.randrange(1, 9), 'n_structs': rng.randrange(1, 12), 'n_methods': (0, 5), 'fwd': rng.random() < .5,
                              'scatter': rng.random() < .5, 'docs': rng.random() < .4, 'float_consts': True, 'p_obj_struct': rng.choice([0, 0, .4])})
    # a layout: some files in sub directories (relative spelling), some found by search
    place = {}
    for f in p.files:
        place[f.path] = ''
    for f in p.files[1:]:
        place[f.path] = rng.choice(['', 'sub', 'sub/deep', 'INC1', 'INC2', 'INC1'])
    for f in p.files:
        new = []
        for inc in f.includes:
            d, me = place[inc], place[f.path]
            base = 'src/' + me if not me.startswith('INC') else me
            rel = os.path.relpath((d if d.startswith('INC') else 'src/' + d) + '/' + inc, base)
            rel = rel if '/' in rel else './' + rel
            # bare: found by search (the main directory is always part of it)
            bare = d.startswith('INC') or d == ''
            if bare and rng.random() < .7:
                new.append(inc)
                if rng.random() < .3:
                    new.insert(rng.randrange(len(new) + 1), rel)    # one file under two names
            else:
                new.append(rel)
        f.includes = new
    files = {}
    for f in p.files:
        d = place[f.path]
        key = (d if d.startswith('INC') else 'src/' + d if d else 'src') + '/' + f.path
        files[key] = tok.render(f, rng, .1) if rng.random() < .3 else f.text()
    return p, files, 'src/' + p.files[0].path


def materialise(root, files):
    for k, v in files.items():
        q = os.path.join(root, k)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'w', newline='') as fh:
            fh.write(v)
    for d in ('INC1', 'INC2', 'src/sub/deep'):
        os.makedirs(os.path.join(root, d), exist_ok=True)


def redundant(rng, p):
    """an equivalent spelling of a path"""
    k = rng.randrange(6)
    parts = p.split('/')
    i = rng.randrange(1, len(parts))
    if k == 0:
        parts.insert(i, '.')
    elif k == 1 and parts[i - 1] not in ('', '..', '.'):
        parts[i:i] = ['..', parts[i - 1]]
    elif k == 2:
        parts.insert(i, '')
        if i == 1 and parts[0] == '':
            return p
    elif k == 3:
        parts[i:i] = ['.', '', '.'] if i > 1 else ['.']
    return '/'.join(parts)


def variant(rng, k, d, files, main, cfg, fl, base_root):
    """returns (label, root, cwd, main spelling, include spellings, output spelling, env)"""
    label = ['repeat', 'cwd', 'relative', 'relocated', 'redundant', 'dirlink', 'filelink', 'env', 'reloc+rel', 'output', 'inclink', 'mtime', 'incfilelinks'][k]
    root, cwd, env = base_root, d, None
    m, incs = os.path.join(root, main), [os.path.join(root, 'INC1'), os.path.join(root, 'INC2')]
    out = os.path.join(d, 'v%d' % k)
    if label == 'cwd':
        cwd = rng.choice(['/', root, os.path.join(root, 'src'), os.path.join(root, 'INC1'), '/tmp'])
    elif label == 'relative':
        cwd = rng.choice([d, root, root + '/src', root + '/src/sub/deep', '/'])
        m, incs = os.path.relpath(m, cwd), [os.path.relpath(x, cwd) for x in incs]
        if rng.random() < .5:
            m = './' + m
        if rng.random() < .5:
            out = os.path.relpath(out, cwd)
    elif label in ('relocated', 'reloc+rel'):
        root = os.path.join(d, 'loc', rng.choice(LOCS))
        if not os.path.isdir(root):
            materialise(root, files)
        m, incs = os.path.join(root, main), [os.path.join(root, 'INC1'), os.path.join(root, 'INC2')]
        if label == 'reloc+rel':
            cwd = os.path.join(root, 'src')
            m, incs = os.path.basename(main), ['../INC1', '../INC2']
    elif label == 'redundant':
        for _ in range(rng.randrange(1, 4)):
            m, incs = redundant(rng, m), [redundant(rng, x) + rng.choice(['', '/', '//', '/.']) for x in incs]
    elif label in ('dirlink', 'inclink'):
        ln = os.path.join(d, 'ln%d' % k)
        if not os.path.lexists(ln):
            os.symlink(root, ln)
        if label == 'dirlink':
            m = os.path.join(ln, main)
        incs = [os.path.join(ln, 'INC1'), os.path.join(ln, 'INC2')]
        if rng.random() < .4:
            incs = incs + [os.path.join(root, 'INC1'), ln + '/src']    # the same directories again
    elif label == 'incfilelinks':
        # include directories that hold nothing but links to the files
        for n in ('INC1', 'INC2'):
            ld = os.path.join(root, 'LNK' + n)
            if not os.path.isdir(ld):
                os.makedirs(ld)
                for f in sorted(os.listdir(os.path.join(root, n))):
                    os.symlink(rng.choice([os.path.join(root, n, f), '../%s/%s' % (n, f)]), os.path.join(ld, f))
        incs = [os.path.join(root, 'LNKINC1'), os.path.join(root, 'LNKINC2')]
    elif label == 'filelink':
        os.makedirs(os.path.join(d, 'fl'), exist_ok=True)
        ln = os.path.join(d, 'fl', rng.choice(['renamed.idl', 'noext', os.path.basename(main)]))
        if not os.path.lexists(ln):
            os.symlink(m, ln)
        m = ln
    elif label == 'env':
        env = {'TZ': 'Asia/Tokyo', 'LANG': 'tr_TR.UTF-8', 'LC_ALL': 'C', 'HOME': '/nonexistent', 'USER': 'x', 'RUST_LOG': rng.choice(['off', 'trace', 'info']), 'TERM': 'dumb', 'COLUMNS': '20', 'SOURCE_DATE_EPOCH': '1', 'PWD': '/nowhere'}
    elif label == 'output':
        out = os.path.join(d, rng.choice(['o u t', 'out.idl', 'ö', 'x.h.h']) + '%d' % k)
    elif label == 'mtime':
        for f in files:
            os.utime(os.path.join(root, f), (rng.randrange(10 ** 9), rng.randrange(10 ** 9)))
    return label, root, cwd, m, incs, out, env


def one_run(idlc, cfg, fl, cwd, m, incs, out, env, bare=False):
    args, multi = acc.CFG[cfg]
    ao = os.path.normpath(os.path.join(cwd, out))
    if multi:
        os.makedirs(ao)
    cmd = [m] + args + fl
    if bare:
        cwd = ao    # without -o the files go to the working directory
    else:
        cmd += ['-o', out]
    for x in incs:
        cmd += ['-I', x]
    r = idlc(cmd, cwd=cwd, env=env, timeout=60)
    if multi:
        got = common.read_tree(ao)
        shutil.rmtree(ao)
    else:
        got = {'out': open(ao, 'rb').read()} if os.path.exists(ao) else {}
        if got:
            os.unlink(ao)
    return r, got


def diff(a, b):
    if set(a) != set(b):
        return 'file names differ: %s / %s' % (sorted(a), sorted(b))
    for k in a:
        if a[k] != b[k]:
            la, lb = a[k].split(b'\n'), b[k].split(b'\n')
            for n, (x, y) in enumerate(zip(la, lb)):
                if x != y:
                    return '%s line %d: %r / %r' % (k, n + 1, x, y)
            return '%s: length differs' % k
    return None


def check(ctx):
    idlc = common.Idlc(common.build_idlc())
    lib = common.build_lib()
    ctx.rule = ('a case is one recompilation of a file set compared byte for byte with its baseline; distinct by (program, backend, variation); variations: fresh process (hash seeds), working directory, '
                'relative and redundant spellings, relocation, directory and file symlinks, environment, output spelling, timestamps, concurrency, library instead of driver')
    ctx.assumptions += ['a symlinked input file names the file it points to']
    total = 1600 if ctx.thorough else 150
    seeds = [ctx.rng.getrandbits(48) for _ in range(total)]
    reps = 12 if ctx.thorough else 4

    def work(i):
        if ctx.left() < 25:
            return None
        rng = random.Random(seeds[i])
        d = ctx.mkdir('p%d' % i)
        p, files, main = program(rng, i)
        root = os.path.join(d, 'base')
        materialise(root, files)
        res = []
        obj = any(p.objects(s) for s in p.structs)
        rust_base, java_ok = None, not obj
        for cfg in [c[0] for c in acc.CFGS]:
            if cfg == 'java' and not java_ok:
                continue
            fl = acc.flags(rng, d)
            m, incs = os.path.join(root, main), [os.path.join(root, 'INC1'), os.path.join(root, 'INC2')]
            r, base = one_run(idlc, cfg, fl, d, m, incs, os.path.join(d, 'b-' + cfg), None)
            if r.returncode or (not base and not acc.CFG[cfg][1]):
                res.append((cfg, 'baseline', 'rejected', common.diag(r)))
                continue
            if cfg == 'rust' and '--marking' not in fl:
                rust_base = base
            ks = list(range(1, 13)) if ctx.thorough else rng.sample(range(1, 13), 5)
            for k in [0] * reps + ks:
                label, rt, cwd, mm, ii, out, env = variant(rng, k, d, files, main, cfg, fl, root)
                bare = label == 'repeat' and acc.CFG[cfg][1] and rng.random() < .3
                r, got = one_run(idlc, cfg, fl, cwd, mm, ii, out, env, bare)
                bad = ('exit %d: %s' % (r.returncode, common.diag(r))) if r.returncode else diff(base, got)
                res.append((cfg, label, bad, '%s -I %s cwd=%s env=%s %s' % (mm, ii, cwd, env, fl)))
        if rust_base:
            od = os.path.join(d, 'lib')
            m = os.path.join(root, main)
            if rng.random() < .5:
                m = redundant(rng, m)
            l = common.lib_run(lib, [(od, [root + '/INC1', root + '/INC2', root + '/src'], m)], d)[0]
            got = common.read_tree(od) if os.path.isdir(od) else {}
            res.append(('rust', 'library', None if not rust_base and not got else ('library: ' + str(l)) if not l.startswith('ok') else diff(rust_base, got), ''))
        shutil.rmtree(d, ignore_errors=True)
        return res, files, i
    for w in common.parmap(work, range(total)):
        if w is None:
            ctx.count('programs_skipped_for_time')
            continue
        res, files, i = w
        ctx.count('programs')
        for cfg, label, bad, how in res:
            if label == 'baseline':
                ctx.count('baseline_rejected')
                ctx.sample('baseline rejected: ' + how)
                continue
            ctx.case((i, cfg, label))
            ctx.count('runs_' + label)
            if bad:
                ctx.violation('%s:%s' % (cfg, label), '%s\n%s' % (bad, how), files)
        if i % 40 == 0:
            ctx.sample('%s: %s' % (list(files), sorted({(c, l) for c, l, _, _ in res})[:12]))
    # many hash seeds for a few programs with many declarations
    def seeds_run(i):
        if ctx.left() < 20:
            return None
        rng = random.Random('seeds%d/%d' % (ctx.seed, i))
        d = ctx.mkdir('s%d' % i)
        n = 10
        ds = [Struct('S%d' % k, [('uint64', 1, 'a')] + [('S%d' % j, 1, 'n%d' % j) for j in range(k) if rng.random() < .3]) for k in range(n)]
        ds += [Interface('I%d' % k, 'I%d' % (k - 1) if k % 3 else None, [Method('m%d' % k, [Param('in', 'struct', 'S%d' % rng.randrange(n), 's'), Param('in', 'obj', 'I%d' % rng.randrange(n), 'o')]), Error('E%d' % k), Const('int32', 'C%d' % k, str(k))]) for k in range(n)]
        fs = [File('h%d.idl' % k, ['h%d.idl' % j for j in range(k + 1, 6)], []) for k in range(6)]
        rng.shuffle(ds)
        for x in ds:
            rng.choice(fs).decls.append(x)
        files = {'src/' + f.path: f.text() for f in fs}
        materialise(d, files)
        bad, runs = None, 0
        cfg = acc.CFGS[i % 6][0]
        base = None
        for k in range(80 if ctx.thorough else 12):
            r, got = one_run(idlc, cfg, [], d, d + '/src/h0.idl', [], os.path.join(d, 'o%d' % k), None)
            runs += 1
            if r.returncode:
                bad = 'exit %d %s' % (r.returncode, common.diag(r))
                break
            if base is None:
                base = got
            elif diff(base, got):
                bad = diff(base, got)
                break
        shutil.rmtree(d, ignore_errors=True)
        return cfg, bad, runs, files
    for i, w in enumerate(common.parmap(seeds_run, range(120 if ctx.thorough else 36))):
        if w:
            cfg, bad, runs, files = w
            ctx.case(('seeds', i, cfg))
            ctx.count('runs_hash_seeds', runs)
            if bad:
                ctx.violation('%s:repeat' % cfg, bad, files)
    if ctx.counters.get('runs_repeat', 0) < 100:
        ctx.inconclusive.append('too few runs')
