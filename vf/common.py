"""Shared check framework: building /repo, running idlc, verdicts, evidence."""
import hashlib, json, os, random, resource, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(ROOT, '.build')
TARGET = os.path.join(BUILD, 'target')
KNOWN = os.path.join(ROOT, 'known_findings.json')
NCPU = os.cpu_count() or 4

BASE_ENV = {
    'HOME': '/root', 'PATH': os.environ.get('PATH', ''), 'LANG': 'C.UTF-8',
    'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu',
    'CARGO_NET_OFFLINE': 'true', 'RUST_BACKTRACE': '0', 'TMPDIR': '/tmp',
}
for k in ('RUSTUP_HOME', 'CARGO_HOME', 'JAVA_HOME'):
    if k in os.environ:
        BASE_ENV[k] = os.environ[k]


class InternalError(Exception):
    pass


def run(cmd, cwd=None, timeout=300, env=None, input=None, limit_as=None, text=False, limit_fsize=None):
    e = dict(BASE_ENV)
    if env:
        e.update(env)

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit_as:
            resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
        if limit_fsize is not None:
            # writes beyond the limit fail with EFBIG
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit_fsize, limit_fsize))
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, start_new_session=True)
        try:
            out, err = p.communicate(input, timeout=timeout)
            to = False
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, err = p.communicate()
            to = True
    except FileNotFoundError as x:
        raise InternalError('cannot run %s: %s' % (cmd[0], x))
    if text:
        out, err = out.decode(errors='replace'), err.decode(errors='replace')
    r = subprocess.CompletedProcess(cmd, p.returncode, out, err)
    r.timed_out = to
    return r


KINDS = {
    # kind: (toolchain, arguments, RUSTFLAGS, output directory)
    'dbg': ([], [], '', 'debug'),
    'rel': ([], ['--release'], '', 'release'),
    'opt': ([], ['--profile', 'opt'], '', 'opt'),
    # optimised, with AddressSanitizer and the library's unsafe-precondition checks
    'asan': (['+nightly'], ['--release', '--target', 'x86_64-unknown-linux-gnu'], '-Zsanitizer=address -Zub-checks=yes', 'x86_64-unknown-linux-gnu/release'),
}


def build_idlc(release=False, kind=None):
    kind = kind or ('rel' if release else 'dbg')
    tc, args, flags, sub = KINDS[kind]
    target = TARGET if kind in ('dbg', 'rel') else TARGET + '-' + kind
    os.makedirs(target, exist_ok=True)
    cmd = ['cargo'] + tc + ['build', '--offline', '-p', 'idlc'] + args
    env = {'CARGO_TARGET_DIR': target}
    if flags:
        env['RUSTFLAGS'] = flags
    r = run(cmd, cwd=REPO, timeout=800, env=env)
    if r.returncode != 0:
        sys.stderr.write(r.stderr.decode(errors='replace')[-4000:])
        raise InternalError('building idlc (%s) failed' % kind)
    src = os.path.join(target, sub, 'idlc')
    # private copy: a concurrent rebuild must not swap the binary under us
    d = os.path.join(BUILD, 'bin')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    dst = os.path.join(d, 'idlc-%s-%s' % (kind, h))
    if not os.path.exists(dst):
        tmp = dst + '.%d' % os.getpid()
        shutil.copy2(src, tmp)
        os.rename(tmp, dst)
    return dst


class Idlc:
    def __init__(self, path):
        self.path = path
        self.runs = 0

    def __call__(self, args, cwd=None, timeout=60, limit_as=None, env=None, limit_fsize=None):
        self.runs += 1
        return run([self.path] + args, cwd=cwd, timeout=timeout, limit_as=limit_as, env=env, limit_fsize=limit_fsize)


def accepted(r):
    return r.returncode == 0


def diag(r):
    """short stable diagnostic text of a compiler run"""
    t = r.stderr.decode(errors='replace') if isinstance(r.stderr, bytes) else r.stderr
    lines = [l for l in t.splitlines() if l.strip() and not l.startswith('note: run with')]
    return ' | '.join(lines)[:600]


class Ctx:
    def __init__(self, prop, level='exploration'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.budget = float(os.environ.get('VERIF_BUDGET', 330 if self.tier == 'quick' else 3300))
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.work = os.path.join(BUILD, 'work', prop + '-%d' % os.getpid())
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(BUILD, 'replay', prop)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.replays, exist_ok=True)
        self.violations = []
        self.known_hit = {}
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.assumptions = []
        self.rule = ''
        self.inconclusive = []
        self.known = {}
        try:
            for e in json.load(open(KNOWN)).get('findings', []):
                if e['property'] == prop:
                    self.known[e['sig']] = e
        except FileNotFoundError:
            pass

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def left(self):
        return self.budget - (time.time() - self.t0)

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def case(self, key, nontrivial=True):
        """record one evaluation; `key` identifies it for distinctness"""
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=10).digest())

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def mkdir(self, name):
        p = os.path.join(self.work, name)
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p)
        return p

    def violation(self, sig, what, files=None):
        """sig: exact identification of the failing input/site; what: text.
        files: {name: content} saved for replay."""
        if sig in self.known:
            if sig not in self.known_hit:
                self.known_hit[sig] = True
                print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[sig]['what']))
                sys.stdout.flush()
            return
        d = os.path.join(self.replays, '%03d' % len(self.violations))
        if len(self.violations) < 40:
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, 'what.txt'), 'w') as f:
                f.write('property %s\nsignature %s\nseed %d tier %s\n\n%s\n' % (self.prop, sig, self.seed, self.tier, what))
            for n, c in (files or {}).items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb' if isinstance(c, bytes) else 'w') as f:
                    f.write(c)
            print('VIOLATION property=%s replay=%s' % (self.prop, d))
            print('  ' + sig + ': ' + what.replace('\n', '\n  ')[:1500])
            sys.stdout.flush()
        self.violations.append((sig, what))

    def finish(self):
        wall = time.time() - self.t0
        cov = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.distinct),
            'rule': self.rule,
            'samples': self.samples or ['(none)'],
        }
        cov.update({'observed_' + k: v for k, v in sorted(self.counters.items())})
        if self.known_hit:
            cov['known_findings_reproduced'] = sorted(self.known_hit)
        if self.inconclusive:
            cov['inconclusive'] = self.inconclusive[:20]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        print('%s %s: %d evaluations, %d distinct, %d violations, %.1fs %s' % (
            self.prop, self.tier, self.evaluations, len(self.distinct), len(self.violations), wall,
            json.dumps(self.counters)[:900]))
        if self.inconclusive and not self.violations:
            print('INCONCLUSIVE: ' + '; '.join(map(str, self.inconclusive[:5])))
            return 2
        return 1 if self.violations else 0


def parmap(fn, items, workers=None):
    """ordered thread map (work happens in subprocesses)"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(fn, items))


_FN = None


def _call(a):
    return _FN(a)


def procmap(fn, items, workers=None):
    """ordered process map for work that is heavy in Python itself; results are pickled"""
    global _FN
    import multiprocessing as mp
    _FN = fn
    with mp.get_context('fork').Pool(workers or NCPU) as pool:
        return pool.map(_call, list(items), chunksize=1)


def snapshot(root):
    """{relative path: (type, sha, size, mtime_ns, inode)} of a tree"""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ('l', os.readlink(p), st.st_mtime_ns, st.st_ino)
            elif os.path.isdir(p):
                out[rel] = ('d',)
            else:
                out[rel] = ('f', hashlib.sha256(open(p, 'rb').read()).hexdigest(), st.st_size, st.st_mtime_ns, st.st_ino)
    return out


def read_tree(root):
    out = {}
    for d, _, files in os.walk(root):
        for n in files:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = open(p, 'rb').read()
    return out


def program_files(prog):
    return {'idl/' + f.path: f.text() for f in prog.files}


def build_lib():
    """the harness crate that calls idlc::Language::generate"""
    src = os.path.join(ROOT, 'harness', 'lib')
    lock = os.path.join(REPO, 'Cargo.lock')
    if os.path.exists(lock):
        shutil.copyfile(lock, os.path.join(src, 'Cargo.lock'))
    t = os.path.join(BUILD, 'target-lib')
    r = run(['cargo', 'build', '--offline'], cwd=src, timeout=800, env={'CARGO_TARGET_DIR': t})
    if r.returncode != 0:
        sys.stderr.write(r.stderr.decode(errors='replace')[-4000:])
        raise InternalError('building the library harness failed')
    p = os.path.join(t, 'debug', 'vf_lib')
    h = hashlib.sha256(open(p, 'rb').read()).hexdigest()[:16]
    dst = os.path.join(BUILD, 'bin', 'lib-' + h)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not os.path.exists(dst):
        tmp = dst + '.%d' % os.getpid()
        shutil.copy2(p, tmp)
        os.rename(tmp, dst)
    return dst


def lib_run(exe, items, work, timeout=300):
    """items: [(outdir or '', [include dirs], input)] -> ['ok n'|'err ..'|'panic'|'died']"""
    out = [None] * len(items)
    todo = list(range(len(items)))
    while todo:
        lf = os.path.join(work, 'list-%d.txt' % todo[0])
        with open(lf, 'w') as f:
            for i in todo:
                o, inc, p = items[i]
                f.write('%s\t%s\t%s\n' % (o, ';'.join(inc), p))
        r = run([exe, lf], cwd=work, timeout=timeout)
        last = -1
        for ln in r.stdout.decode(errors='replace').splitlines():
            if ln.startswith('S '):
                last = int(ln[2:])
            elif ln.startswith('R '):
                _, k, v = ln.split(' ', 2)
                out[todo[int(k)]] = v
        os.unlink(lf)
        if last < 0:
            for i in todo:
                out[i] = 'died'
            break
        if out[todo[last]] is None:
            out[todo[last]] = 'died'
        todo = todo[last + 1:]
    return out
