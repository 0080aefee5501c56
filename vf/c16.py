"""C16: the compiler is total and memory-safe on arbitrary input, and its
builds agree.

Every input is given to the debug and release builds and to an optimised build
with AddressSanitizer and the standard library's unsafe-precondition checks
(thorough: also the `opt` profile). Monitored: termination within a time
bound, signals, sanitizer reports, a diagnostic on standard error for every
refusal, outputs for every acceptance, equal decisions and equal bytes."""
import os, random, re, shutil, time
from . import acc, c09, c10, c17, common, fe, gen, sweep, tok
from .idl import *

TLIM = 40           # seconds; the reference inputs take milliseconds


def rand_bytes(rng):
    k = rng.randrange(8)
    n = rng.choice([0, 1, 2, 7, 64, 500, 3000])
    if k == 0:
        return bytes(rng.getrandbits(8) for _ in range(n))
    if k == 1:
        return bytes(rng.choice(b' \t\r\n/*{}[]();:=,"#-.0123456789abcxyzAZ_') for _ in range(n))
    if k == 2:
        return rng.choice([b'\x00', b'\xff', b'{', b'/*', b'//', b'/**\n', b'(', b'"', b'#[optional] ', b'const ', b'struct ', b'include ', b'-', b'0', b'\r', b'\xef\xbb\xbf']) * rng.choice([1, 2, 100, 5000, 200000])
    if k == 3:
        return rng.choice([b'\xef\xbb\xbf', b'\xfe\xff', b'\xff\xfe', b'\xc3\x28', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc0\x80']) + b'struct S { uint8 a; };'
    t = []
    for _ in range(n // 4 + 1):
        t.append(rng.choice(c09.POOL + ['IFoo', 'S', 'x', 'uint32', 'const ', 'interface ', 'struct ', 'method ', ' ', '\n', 'in ', 'out ', '1', '{', '};', ');']))
    return rng.choice(['', ' ']).join(t).encode('utf-8', 'surrogatepass')


def byte_mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
        if not b:
            break
        i = rng.randrange(len(b))
        k = rng.randrange(7)
        if k == 0:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 1:
            del b[i:i + rng.choice([1, 1, 2, 5, 20])]
        elif k == 2:
            b[i:i] = bytes([rng.getrandbits(8)])
        elif k == 3:
            j = rng.randrange(len(b))
            b[i:i] = b[j:j + rng.choice([1, 5, 30, 200])]
        elif k == 4:
            b[i] = rng.choice(b'{}[]();:/*#"\r\n\x00\xff-.09')
        elif k == 5:
            del b[i:]
        else:
            b[i:i] = rng.choice(['é', '漢', '\u2028', '\U0001F642', '\ufeff', '\x0b']).encode()
    return bytes(b)


NUMS = ['0', '00', '1', '01', '255', '256', '257', '65534', '65535', '65536', '65537', '131072', '4294967295', '4294967296', '18446744073709551615', '18446744073709551616', '9' * 40, '0' * 500 + '3', '0x10', '-1', '1.5', '']


def numerals(rng, k):
    a, b, c = rng.choice(NUMS), rng.choice(NUMS), rng.choice(NUMS)
    t = rng.choice(PRIM_NAMES)
    sp = rng.choice(['', ' ', '/* 3 */', '\n', '// 3\n'])
    forms = [
        'struct S { %s[%s%s%s] a; };' % (t, sp, a, sp),
        'struct S { uint64[%s] a; }; struct T { S[%s] b; }; struct U { T[%s] c; };' % (a, b, c),
        'interface I { method m(in interface[%s%s] a, out I[%s] b); };' % (sp, a, b),
        'interface I { method m(in %s[%s] a); };' % (t, a),
        'struct S { uint8 a; }; interface I { method m(in S[%s] a); };' % a,
        'const %s K = %s;' % (t, rng.choice([a, '-' + a, c17.out_of_range(rng, 'int64'), '0x' + 'f' * rng.choice([1, 16, 17, 40]), '-0x' + '8' + '0' * 15])),
        'interface I { const %s K = %s; };' % (t, rng.choice([a, '-' + a])),
        'struct S { interface[%s] a; }; interface I { method m(in S a); };' % a,
        'struct S { I[%s] a; uint64[%s] b; }; struct T { S[%s] x; }; interface I { method m(out T a, in S b); };' % (a, b, c),
    ]
    return rng.choice(forms)


def sizes(rng):
    """struct sizes whose products approach or pass machine integers"""
    n = rng.randrange(2, 8)
    out, cnts = ['struct S0 { uint64[%d] a; };' % rng.choice([1, 65535, 2])], []
    for i in range(1, n):
        cnts.append(rng.choice([2, 255, 256, 65535, 65535, 32768]))
        out.append('struct S%d { S%d[%d] a; };' % (i, i - 1, cnts[-1]))
    out.append('interface I { method m(in S%d a, out S%d b, in S%d[] c); };' % (n - 1, rng.randrange(n), n - 1))
    rng.shuffle(out)
    return '\n'.join(out)


def big(rng, k):
    """large but regular inputs"""
    kind = k % 13
    if kind == 0:
        n = rng.choice([1000, 60000, 500000])
        return 'longident', 'interface %s { method %s(in uint8 %s); };' % ('I' + 'x' * 200, 'm' * n, 'p' * n)
    if kind == 1:
        n = rng.choice([100, 400])
        return 'structchain%d' % n, 'struct S0 { uint64 a; };' + ''.join('struct S%d { S%d a; };' % (i, i - 1) for i in range(1, n)) + 'interface I { method m(in S%d a); };' % (n - 1)
    if kind == 2:
        n = rng.choice([100, 200])
        return 'ifacechain%d' % n, 'interface I0 { method m0(); };' + ''.join('interface I%d : I%d { method m%d(); };' % (i, i - 1, i) for i in range(1, n))
    if kind == 3:
        return 'manyfields', 'struct S {' + ''.join('uint8 f%d;' % i for i in range(3000)) + '};'
    if kind == 4:
        return 'manyparams', 'interface I { method m(' + ', '.join('in uint8 p%d' % i for i in range(800)) + '); };'
    if kind == 5:
        return 'longcomment', '/*' + 'c * / ' * 50000 + '*/ interface I { /**\n' + ' doc ' * 20000 + '*/ method m(); }; //' + 'e' * 100000
    if kind == 6:
        return 'manyconsts', ''.join('const uint32 K%d = %d;' % (i, i) for i in range(3000))
    if kind == 7:
        return 'manystructs', ''.join('struct S%d { uint32 a; };' % i for i in range(800)) + 'interface I {' + ''.join('method m%d(in S%d a);' % (i, i) for i in range(0, 800, 8)) + '};'
    if kind == 8:
        return 'wideattrs', 'interface I { ' + '#[optional] ' * 3000 + 'method m(); };'
    if kind == 9:
        return 'comments', 'interface I {' + '/* a */ // b\n' * 4000 + 'method m(); };'
    if kind == 10:
        n = rng.choice([100, 300])
        return 'structcycle', ''.join('struct S%d { S%d a; };' % (i, (i + 1) % n) for i in range(n))
    if kind == 11:
        n = rng.choice([100, 800])
        return 'ifacecycle', ''.join('interface I%d : I%d { };' % (i, (i + 1) % n) for i in range(n))
    n = 10
    return 'doubling', 'struct S0 { uint64 a; };' + ''.join('struct S%d { S%d a; S%d b; };' % (i, i - 1, i - 1) for i in range(1, n)) + 'interface I { method m(in S%d a, out S%d b); };' % (n - 1, n - 2)


def make_input(rng, i, d):
    """writes an input; returns (class, path)"""
    k = rng.random()
    main = os.path.join(d, 'in%d.idl' % (i % 7))
    if k < .15:
        data, cls = rand_bytes(rng), 'bytes'
    elif k < .45:
        p = c09.base_program(rng, True)
        txt = {f.path: (f.text() if rng.random() < .6 else tok.render(f, rng, .2)) for f in p.files}
        v = rng.choice(p.files).path
        for n, t in txt.items():
            b = t.encode()
            if n == v:
                b = byte_mutate(rng, b)
            open(os.path.join(d, n), 'wb').write(b)
        return 'mutated', os.path.join(d, p.files[0].path)
    elif k < .6:
        mc = None
        while mc is None:
            mc = c09.make_case(rng, d)
        return 'violating', mc[2]
    elif k < .72:
        data, cls = numerals(rng, i).encode(), 'numerals'
    elif k < .77:
        data, cls = sizes(rng).encode(), 'sizes'
    elif k < .97:
        p = gen.gen_program(rng, c10.big_opts(rng))
        return 'valid', p.write(d)
    else:
        n, t = big(rng, rng.randrange(13))
        data, cls = t.encode(), 'big-' + n
    open(main, 'wb').write(data)
    return cls, main


def all_flags(rng, d):
    fl = acc.flags(rng, d)
    k = rng.random()
    if k < .12:
        fl += ['--dump', rng.choice(['pst', 'ast', 'mir'])]
    if k > .95:
        open(os.path.join(d, 'mk'), 'wb').write(rand_bytes(rng))
        fl = [x for x in fl if not x.endswith('marking.txt') and x != '--marking'] + ['--marking', os.path.join(d, 'mk')]
    if rng.random() < .05:
        fl += ['-I', rng.choice(['/nonexistent', d, '/dev/null', d + '/x' * 50])]
    return fl


SAN = re.compile(rb'ERROR: AddressSanitizer: ([\w-]+)|unsafe precondition\(s\) violated|has overflowed its stack|SUMMARY: \w+Sanitizer')


def observe(idlc, main, cfg, fl, out, tlim=TLIM):
    t = time.time()
    r, got = acc.compile_one(idlc, main, cfg, out, extra=fl, timeout=tlim)
    return r, got, time.time() - t


def judge_one(kind, r, got, fl):
    """violations of totality for one run"""
    if r.timed_out:
        return 'timeout', 'did not terminate within %d s' % TLIM
    m = SAN.search(r.stderr)
    if m:
        return 'sanitizer', r.stderr[max(0, m.start() - 200):m.start() + 2500].decode(errors='replace')
    if r.returncode < 0 and not (kind == 'opt' and r.returncode == -6 and b'panicked at' in r.stderr):
        return 'signal%d' % -r.returncode, 'died of signal %d: %s' % (-r.returncode, common.diag(r))
    if r.returncode == 0:
        if '--dump' not in fl and not got and kind != 'multi':
            return 'nooutput', 'exit status 0 and no output'
    else:
        if not r.stderr.strip():
            return 'nodiag', 'exit status %d without a diagnostic' % r.returncode
        if got:
            return 'partial', 'exit status %d with output %s' % (r.returncode, sorted(got))
    return None


def check(ctx):
    import threading
    kinds = ['dbg', 'rel', 'asan'] + (['opt'] if ctx.thorough else [])
    bins, errs = {}, []

    def b(k):
        try:
            bins[k] = common.Idlc(common.build_idlc(kind=k))
        except common.InternalError as e:
            errs.append((k, str(e)))
    b('dbg')
    ts = [threading.Thread(target=b, args=(k,)) for k in kinds[1:]]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise common.InternalError(str(errs))
    os.environ.setdefault('ASAN_OPTIONS', '')
    common.BASE_ENV['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0'
    ctx.rule = ('a case is one input given to every build; distinct by (input class, decision, backend, input digest); classes: random bytes and token soup, byte mutations of valid programs, planted violations, '
                'boundary numerals, overflowing sizes, valid programs, large regular inputs')
    ctx.assumptions += ['time bound %d s per run; nesting depth up to 400 structs and 200 interfaces (the cost grows polynomially, so deeper is slow, not wrong)' % TLIM, 'the opt profile aborts on panic by configuration: a panic message with SIGABRT counts as a diagnostic there']
    total = 12000 if ctx.thorough else 600
    seeds = [ctx.rng.getrandbits(48) for _ in range(total)]

    def work(i):
        if ctx.left() < 25:
            return None
        rng = random.Random(seeds[i])
        d = ctx.mkdir('c%d' % i)
        try:
            cls, main = make_input(rng, i, d)
            files = {'in/' + k: v for k, v in common.read_tree(d).items()}
            res = []
            v = fe.verdict(main)[0] if not cls.startswith('big') and cls not in ('bytes',) else 'unknown'
            for cfg in rng.sample([c[0] for c in acc.CFGS], 2 if not cls.startswith('big') else 1):
                fl = all_flags(rng, d)
                runs = {}
                for k in kinds:
                    runs[k] = observe(bins[k], main, cfg, fl, os.path.join(d, 'o-%s-%s' % (cfg, k), 'out'))
                probs = []
                for k, (r, got, t) in runs.items():
                    j = judge_one(k if not acc.CFG[cfg][1] else ('multi' if k != 'opt' else 'opt'), r, got, fl)
                    if j and not (j[0] == 'nooutput' and acc.CFG[cfg][1]):
                        probs.append((j[0], k, j[1]))
                    if r.returncode == 0 and v == 'reject' and '--dump' not in fl and '--allow-undefined-behavior' not in fl:
                        probs.append(('unrefused', k, 'accepted although it violates a restriction: %s' % fe.verdict(main)[1]))
                r0, g0, t0 = runs['dbg']
                for k in kinds[1:]:
                    r, g, t = runs[k]
                    if (r.returncode == 0) != (r0.returncode == 0):
                        probs.append(('decision', k, 'debug exit %d (%s), %s exit %d (%s)' % (r0.returncode, common.diag(r0)[:200], k, r.returncode, common.diag(r)[:200])))
                    elif r0.returncode == 0 and g != g0:
                        from .c13 import diff
                        probs.append(('bytes', k, 'debug and %s outputs differ: %s' % (k, diff(g0, g))))
                    elif r0.returncode == 0 and '--dump' in fl and 'pst' in fl and r.stdout != r0.stdout:
                        probs.append(('dump', k, 'dumps differ'))
                res.append((cfg, fl, r0.returncode, probs, max(x[2] for x in runs.values())))
            return cls, res, files
        finally:
            shutil.rmtree(d, ignore_errors=True)
    slow, slowest = 0, None
    for i, w in enumerate(common.parmap(work, range(total))):
        if w is None:
            ctx.count('inputs_skipped_for_time')
            continue
        cls, res, files = w
        ctx.count('class_' + cls.split('-')[0])
        for cfg, fl, rc, probs, t in res:
            if t > slow:
                slow = t
                slowest = (cls, cfg, fl)
            ctx.case((cls, rc == 0, cfg, tuple(x for x in fl if x.startswith('--')), tuple(sorted(files.items()))))
            ctx.count('runs', len(kinds))
            ctx.count('decisions_accept' if rc == 0 else 'decisions_reject')
            for sig, k, msg in probs:
                ctx.violation('%s:%s:%s' % (sig, k, cls), '%s %s: %s' % (cfg, fl, msg), files)
        if i % 211 == 0:
            ctx.sample('%s: %s' % (cls, [(c, rc) for c, _, rc, _, _ in res]))
    ctx.sample('slowest run %.2f s: %s' % (slow, slowest), cap=99)
    ctx.count('slowest_run_ms', int(slow * 1000))
    directed(ctx, bins, kinds)
    odd_command_lines(ctx, bins, kinds)

    def judge(r, got, v, why, cfg):
        j = judge_one('dbg' if not acc.CFG[cfg][1] else 'multi', r, got, [])
        if j and not (r.returncode == -6 and b'panicked at' in r.stderr):
            return j
        if r.returncode == 0 and v == 'reject':
            return 'unrefused', 'accepted although it violates a restriction: ' + why
    sweep.run(ctx, None, bins, judge, .3)
    if ctx.counters.get('runs', 0) < 500:
        ctx.inconclusive.append('too few runs')


VALID = b'struct S { uint32 a; };\ninterface I { const uint8 K = 3; error E; method m(in S s, out uint8 r, in interface o); };\n'


def command_lines(rng):
    """unusual invocations: (name, files to create {path: bytes}, arguments); {o} stands for the output path"""
    V = {b'x.idl': VALID}
    yield 'no arguments', V, []
    yield 'no output option', V, [b'x.idl']
    for be in (b'--c', b'--cpp', b'--rust', b'--java'):
        b = be.decode()
        yield 'missing input ' + b, {}, [b'nope.idl', b'-o', b'o', be]
        yield 'directory as input ' + b, {b'd.idl/f': b''}, [b'd.idl', b'-o', b'o', be]
        yield 'directory as output ' + b, dict(V, **{}) | {b'o/f': b''}, [b'x.idl', b'-o', b'o', be]
        yield 'file as output ' + b, V | {b'o': b'old'}, [b'x.idl', b'-o', b'o', be]
        yield 'output in missing directory ' + b, V, [b'x.idl', b'-o', b'no/such/o', be]
        yield 'empty output ' + b, V, [b'x.idl', b'-o', b'', be]
        for n in (b'a.b.idl', b'noext', b'x.IDL', b'with space.idl', b'.idl', b'..idl', b'-dash.idl', 'h\u00e9llo.idl'.encode(), b'bad\xff\xfe.idl', b'a.idl.idl', b'x' * 200 + b'.idl', b'1x.idl', b'x\ny.idl', b'"q".idl', b'x%s{}.idl'):
            yield 'input named %r %s' % (n[:20], b), {n: VALID}, [b'./' + n, b'-o', b'o', be]
            yield 'include named %r %s' % (n[:20], b), {n: b'struct T { uint8 a; };', b'x.idl': b'include "' + n + b'"\ninterface J { method m(in T t); };'}, [b'x.idl', b'-o', b'o', be]
            yield 'include ./ named %r %s' % (n[:20], b), {n: b'struct T { uint8 a; };', b'x.idl': b'include "./' + n + b'"\ninterface J { method m(in T t); };'}, [b'x.idl', b'-o', b'o', be]
        yield 'bad marking ' + b, V | {b'm': b'\xff\xfe\x00'}, [b'x.idl', b'-o', b'o', be, b'--marking', b'm']
        yield 'missing marking ' + b, V, [b'x.idl', b'-o', b'o', be, b'--marking', b'none']
        yield 'directory as marking ' + b, V | {b'm/f': b''}, [b'x.idl', b'-o', b'o', be, b'--marking', b'm']
        for mk in (b'', b'\n', b'\n\n\n', b'\\', b'*/', b'/*', b'??/', b'//\\\n', b'\r', b'a\r\nb', b'\x00', 'h\u00e9\u2028'.encode(), b'x' * 70000):
            yield 'marking %r %s' % (mk[:8], b), V | {b'm': mk}, [b'x.idl', b'-o', b'o', be, b'--marking', b'm']
        yield 'include directory is a file ' + b, V, [b'x.idl', b'-o', b'o', be, b'-I', b'x.idl', b'-I', b'', b'-I', b'\xff']
        yield 'include dir of itself ' + b, {b'x.idl': b'include "."\n'}, [b'x.idl', b'-o', b'o', be]
        for inc in (b'..idl', b'/.idl', b'./.idl', b'd.idl', b'./d.idl', b'd/', b'x.idl/y.idl', b'//x.idl', b'/', b'a/../../../../../../../../x.idl', b'nope/../t.idl', b'./././t.idl', b'\xc3\xa9.idl', b'd/../t.idl'):
            yield 'include of %r %s' % (inc[:20], b), {b'd/.idl': b'', b'd.idl/f': b'', b't.idl': b'struct T { uint8 a; };', b'x.idl': b'include "' + inc + b'"\ninterface J { method m(in uint8 t); };'}, [b'x.idl', b'-o', b'o', be]
        yield 'not utf-8 ' + b, {b'x.idl': b'// \xff\nstruct S { uint8 a; };'}, [b'x.idl', b'-o', b'o', be]
        yield 'skel and untyped and ub ' + b, V, [b'x.idl', b'-o', b'o', be, b'--skel', b'--no-typed-objects', b'--allow-undefined-behavior']
        for dump in (b'pst', b'ast', b'mir', b'none'):
            yield 'dump %s %s' % (dump.decode(), b), V, [b'x.idl', b'-o', b'o', be, b'--dump', dump]
            yield 'dump of garbage %s %s' % (dump.decode(), b), {b'x.idl': b'struct {'}, [b'x.idl', b'-o', b'o', be, b'--dump', dump]
            yield 'dump of nothing %s %s' % (dump.decode(), b), {}, [b'x.idl', b'-o', b'o', be, b'--dump', dump]
    for a, b in ((b'--c', b'--cpp'), (b'--java', b'--rust'), (b'--cpp', b'--rust')):
        yield 'two backends %s %s' % (a.decode(), b.decode()), V, [b'x.idl', b'-o', b'o', a, b]
    yield 'two inputs', V | {b'y.idl': VALID}, [b'x.idl', b'y.idl', b'-o', b'o']
    yield 'unknown flag', V, [b'x.idl', b'--nope']
    yield 'help', {}, [b'--help']
    yield 'version', {}, [b'--version']
    yield 'many include directories', V, [b'x.idl', b'-o', b'o'] + [b'-I', b'd'] * 3000


def odd_command_lines(ctx, bins, kinds):
    def one(a):
        i, (name, files, args) = a
        d = ctx.mkdir('cl%d' % i)
        try:
            ref, probs = None, []
            for k in kinds:
                w = os.path.join(d, k).encode()
                os.makedirs(w)
                for n, b in files.items():
                    f = os.path.join(w, n)
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    open(f, 'wb').write(b)
                multi = (b'--rust' in args or b'--java' in args) and b'o' in args and 'as output' not in name
                if multi:
                    os.makedirs(os.path.join(w, b'o'), exist_ok=True)
                r = bins[k](list(args), cwd=w, timeout=60)
                tree = {}
                for root, _, fs in os.walk(w):
                    for f in fs:
                        q = os.path.join(root, f)
                        rel = os.path.relpath(q, w)
                        b = open(q, 'rb').read()
                        if files.get(rel) != b:
                            tree[rel] = b
                j = judge_one('multi' if k != 'opt' else 'opt', r, {}, [])
                if j and j[0] != 'nooutput':
                    probs.append((j[0], k, j[1]))
                if r.returncode != 0 and tree:
                    probs.append(('partial', k, 'exit status %d and wrote %s' % (r.returncode, sorted(tree))))
                if r.returncode == 0 and not tree and not r.stdout and not multi:
                    probs.append(('silent', k, 'exit status 0 and neither output nor text'))
                now = (r.returncode == 0, tree)
                if ref is None:
                    ref = now
                elif now != ref:
                    probs.append(('disagree', k, 'debug %s %s, %s %s %s' % (ref[0], sorted(ref[1]), k, now[0], sorted(now[1]))))
            return name, files, args, ref[0], probs
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for name, files, args, ok, probs in common.parmap(one, list(enumerate(command_lines(ctx.rng)))):
        ctx.case(('command-line', name))
        ctx.count('command_lines')
        ctx.count('command_lines_accepted', int(ok))
        for sig, k, msg in probs:
            ctx.violation('%s:%s:cli-%s' % (sig, k, re.sub(r' --\w+', '', name)), '%s: %s' % (args, msg), {'in/' + os.fsdecode(n).encode('ascii', 'backslashreplace').decode(): v for n, v in files.items()})


def directed(ctx, bins, kinds):
    """fixed inputs: every `big` shape on every build and one backend each, special files, and the known findings"""
    cases = []
    for k in range(13):
        rng = random.Random('big%d' % k)
        n, t = big(rng, k)
        for j, cfg in enumerate(['c', 'cpp-skel', 'rust', 'java']):
            if ctx.thorough or j == k % 4 or j == (k + 1) % 4:
                cases.append((n, t.encode(), cfg))
    for n, t in [('empty', b''), ('nul', b'\x00'), ('bom', b'\xef\xbb\xbfstruct S { uint8 a; };'), ('crlf', b'struct S {\r\n uint8 a;\r\n};\r\n'), ('cr', b'struct S {\r uint8 a;\r};\r//x\r'), ('openc', b'/* '), ('opend', b'interface I { /**\n'),
                 ('slash', b'/'), ('docs', b'interface I { /**\n*/ /**\n*/ method m(); /**\n*/ };'), ('doc-tail', b'interface I { method m(); /**\n x */ };'), ('doc1', b'interface I { /**\n*/method m(); };'), ('doc-cr', b'interface I { /**\r*/ method m(); };'),
                 ('lead-comma', b'interface I { method m(, in uint8 a); };'), ('arr0', b'struct S { uint8[0] a; };'), ('arr65536', b'struct S { uint8[65536] a; };'), ('arrbig', b'struct S { uint8[99999999999999999999] a; };'),
                 ('objarr0', b'interface I { method m(in I[0] a); };'), ('objarrbig', b'interface I { method m(in I[99999999999999999999] a); };')]:
        for cfg in ('c', 'cpp', 'rust', 'java'):
            cases.append((n, t, cfg))

    def one(c):
        n, t, cfg = c
        d = ctx.mkdir('d-%s-%s' % (n, cfg))
        try:
            main = os.path.join(d, 'x.idl')
            open(main, 'wb').write(t)
            out, ref, mx = [], None, 0
            for k in kinds:
                r, got, dt = observe(bins[k], main, cfg, [], os.path.join(d, 'o' + k, 'out'), 60)
                mx = max(mx, dt)
                j = judge_one(k, r, got, [])
                if j and not (j[0] == 'nooutput' and acc.CFG[cfg][1]):
                    out.append((j[0], k, j[1]))
                if ref is None:
                    ref = (r.returncode == 0, got)
                elif ref != (r.returncode == 0, got):
                    out.append(('disagree', k, 'debug accepts: %s; %s accepts: %s; same bytes: %s' % (ref[0], k, r.returncode == 0, ref[1] == got)))
            return c, out, mx
        finally:
            shutil.rmtree(d, ignore_errors=True)
    for (n, t, cfg), out, dt in common.parmap(one, cases):
        if dt > 2:
            ctx.sample('directed %s %s took %.1f s' % (n, cfg, dt), cap=99)
        ctx.case(('directed', n, cfg))
        ctx.count('directed_runs', len(kinds))
        for sig, k, msg in out:
            ctx.violation('%s:%s:directed-%s' % (sig, k, n), '%s: %s' % (cfg, msg), {'x.idl': t})
    # known: the tree of a nested struct is built in full, whatever repeats in it
    d = ctx.mkdir('dbl')
    main = os.path.join(d, 'x.idl')
    t = 'struct S0 { uint64 a; };\n' + ''.join('struct S%d { S%d a; S%d b; };\n' % (i, i - 1, i - 1) for i in range(1, 45)) + 'interface I { method m(in S44 a); };\n'
    open(main, 'w').write(t)
    r = bins['rel'](['-o', os.path.join(d, 'o'), main], cwd=d, timeout=6, limit_as=6 << 30)
    ctx.case(('doubling', 45))
    if r.timed_out or r.returncode < 0:
        ctx.violation('blowup:doubling45', 'a struct of 45 levels that each hold the previous one twice does not compile in 6 s and 6 GB', {'x.idl': t})
