"""Acceptance/rejection runs shared by C09, C10, C12, C16 and C19."""
import os, shutil
from . import common, fe

# (name, arguments, multi-file?)
CFGS = [('c', ['--c'], False), ('c-skel', ['--c', '--skel'], False), ('cpp', ['--cpp'], False), ('cpp-skel', ['--cpp', '--skel'], False),
        ('rust', ['--rust'], True), ('java', ['--java'], True)]
CFG = {n: (a, m) for n, a, m in CFGS}


def flags(rng, workdir, ub=None):
    """random subset of the interface-neutral flags"""
    f = []
    if rng.random() < .3:
        f.append('--no-typed-objects')
    if rng.random() < .3:
        p = os.path.join(workdir, 'marking.txt')
        if not os.path.exists(p):
            open(p, 'w').write(rng.choice(['Copyright (c) someone\n', 'one line', 'a\n\nb\n', '']))
        f += ['--marking', p]
    if ub or (ub is None and rng.random() < .25):
        f.append('--allow-undefined-behavior')
    return f


def expected(cfg, stem, info):
    """files a run must produce: (required, allowed)"""
    if not CFG[cfg][1]:
        return None, None
    ext = 'rs' if cfg == 'rust' else 'java'
    low = (lambda n: n.lower()) if cfg == 'rust' else (lambda n: n)
    req = {low(n) + '.' + ext for n in info}
    return req, req | {stem + '.' + ext, low(stem) + '.' + ext}


def compile_one(idlc, main, cfg, out, incs=(), extra=(), timeout=60):
    """run the compiler into the fresh path `out`; returns (result, {file: bytes})"""
    args, multi = CFG[cfg]
    target = out
    if multi:
        os.makedirs(out)
    else:
        os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = [main, '-o', target] + args + list(extra)
    for i in incs:
        cmd += ['-I', i]
    r = idlc(cmd, timeout=timeout)
    if multi:
        got = common.read_tree(out)
        shutil.rmtree(out, ignore_errors=True)
    else:
        got = {}
        if os.path.lexists(out):
            got[os.path.basename(out)] = open(out, 'rb').read()
            os.unlink(out)
    return r, got


def case_fold_clash(names):
    return len({n.lower() for n in names}) != len(names)
