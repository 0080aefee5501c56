"""Token streams of IDL programs and renderings with arbitrary trivia."""
from .idl import *

# separator kinds between two tokens
KW, SP, OPT, WSO, DECL = 'kw', 'sp', 'opt', 'wso', 'decl'
# KW: one whitespace character must follow at once, then any trivia
# SP: some trivia (identifiers would merge); OPT: any trivia or none
# WSO: whitespace only, at least one (between attribute and method)
# DECL: like OPT, between declarations or members


def const_toks(c):
    return [('const', KW), (c.ty, SP), (c.name, OPT), ('=', OPT), (c.lit, OPT), (';', DECL)]


def bound_toks(n):
    return [('[', OPT), (str(n), OPT), (']', OPT)]


def param_toks(p):
    t = [(p.dir, SP)]
    if p.pk == 'buffer':
        t += [('buffer', SP)]
    elif p.pk in ('primarr', 'structarr'):
        t += [(p.ty, OPT), ('[', OPT), (']', OPT)]
    elif p.pk == 'objarr':
        t += [(p.ty or 'interface', OPT)] + bound_toks(p.cnt)
    elif p.pk == 'obj':
        t += [(p.ty or 'interface', SP)]
    else:
        t += [(p.ty, SP)]
    return t + [(p.name, OPT)]


def decl_toks(d):
    if d.kind == 'raw':
        return [(d.text_, DECL)]
    if d.kind == 'const':
        return const_toks(d)
    if d.kind == 'struct':
        t = [('struct', KW), (d.name, OPT), ('{', OPT)]
        for ty, c, n in d.fields:
            t += [(ty, SP if c == 1 else OPT)] + (bound_toks(c) if c != 1 else []) + [(n, OPT), (';', OPT)]
        return t + [('};', DECL)]
    t = [('interface', KW), (d.name, OPT)]
    if d.base:
        t += [(':', OPT), (d.base, OPT)]
    t += [('{', DECL)]
    for m in d.members:
        if m.kind == 'raw':
            t += [(m.text_, DECL)]
        elif m.kind == 'const':
            t += const_toks(m)
        elif m.kind == 'error':
            t += [('error', KW), (m.name, OPT), (';', DECL)]
        else:
            if m.doc is not None:
                t += [('/**\n' + m.doc + '*/', DECL)]
            if m.optional:
                t += [('#[optional]', WSO)]
            t += [('method', KW), (m.name, OPT), ('(', OPT)]
            for i, p in enumerate(m.params):
                t += ([(',', OPT)] if i else []) + param_toks(p)
            t += [(');', DECL)]
    return t + [('};', DECL)]


def file_toks(f):
    t = []
    for i in f.includes:
        t += [('include "%s"' % i, DECL)]
    for d in f.decls:
        t += decl_toks(d)
    return t


WSP = [' ', ' ', '\n', '\t', '  ', '\n\n', ' \n  ', '\r\n', '\t \n']
CTEXT = ['', ' ', 'note', ' a b c ', ' method x(); ', ' }; struct Z { uint8 a; }; ', ' "quoted ', " it's ", ' // nested ', ' é ü 漢字 🙂 ',
         ' * ', ' #[optional] ', ' \\ ', ' const uint8 Q = 300; ', '*', ' error E; ', ' include "nope.idl" ', ' ( [ { ', ' ) ] } ', ' interface ']


def comment(rng):
    t = rng.choice(CTEXT)
    if rng.random() < .45:
        return '//' + t.replace('\n', ' ') + rng.choice(['\n', '\n', '\r\n', '\r'])
    body = t.replace('*/', '')
    if rng.random() < .2:
        body += '\n' + rng.choice(CTEXT)
    if body.startswith('*') and body[1:2] in ('\n', '\r'):
        body = ' ' + body        # must not become a documentation block
    if body.endswith('/') and body == '/':
        body = ' '
    return '/*' + body + '*/'


def trivia(rng, kind, dens, nocomment=False):
    """text to put after a token"""
    if kind == WSO:
        return rng.choice([' ', '\n', '\n  ', '\t', '  ', '\r\n'])
    parts = []
    while rng.random() < dens and len(parts) < 4:
        parts.append(rng.choice(WSP) if rng.random() < .5 or nocomment else comment(rng))
    s = ''.join(parts)
    if kind == KW and (not s or s[0] not in ' \t\n\r'):
        s = rng.choice(WSP) + s
    if kind == SP and not s:
        s = ' '
    return s


def render(f, rng, dens=.3, nocomment=False):
    """random rendering of one file; same tokens, different trivia"""
    out = [trivia(rng, OPT, dens, nocomment)]
    for t, k in file_toks(f):
        out.append(t)
        out.append(trivia(rng, k, dens, nocomment))
    return ''.join(out)


def compact(f):
    """the least trivia the grammar needs"""
    out = ''
    for t, k in file_toks(f):
        if t.startswith('/**\n'):
            out += t
            continue
        out += t + (' ' if k in (KW, SP, WSO) else '')
    return out
