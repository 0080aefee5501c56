"""C14: trivia, documentation, markings and untyped objects change nothing but
what they are allowed to change.

Metamorphic monitor: the compiler is run on a program and on an edited copy of
it (or with another flag), and the outputs are compared: byte for byte for
trivia, behind the prepended block for markings, as token streams of the target
language with comments attributed to methods for documentation, and as token
streams modulo object type names for untyped objects. Compilers decide whether
hostile documentation and markings stay inside their comments."""
import copy, os, random, re, shutil
from . import common, c11, c18, gen, glue, rt, tok
from .idl import *

MODES = {'c.stub': ['--c'], 'c.skel': ['--c', '--skel'], 'cu.stub': ['--c', '--no-typed-objects'], 'cu.skel': ['--c', '--skel', '--no-typed-objects'],
         'cpp.stub': ['--cpp'], 'cpp.skel': ['--cpp', '--skel'], 'rust': ['--rust'], 'java': ['--java']}
LANG = lambda mode: {'c': 'c', 'cu': 'c', 'cpp': 'c', 'rust': 'rust', 'java': 'java'}[mode.split('.')[0]]


def outputs(idlc, src, tmp, modes, extra=()):
    """{mode: (accepted, {file: text})}"""
    res = {}
    for m in modes:
        out = os.path.join(tmp, 'o')
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        d = m in ('rust', 'java')
        p = idlc([src, '-o', out if d else out + '/out'] + MODES[m] + list(extra))
        res[m] = (p.returncode == 0, {k: open(os.path.join(out, k), newline='', encoding='utf-8', errors='surrogateescape').read() for k in sorted(os.listdir(out))} if p.returncode == 0 else {}, p)
    shutil.rmtree(os.path.join(tmp, 'o'), ignore_errors=True)
    return res


# ------------------------------------------------------------------ target language tokens
ID = re.compile(r'[A-Za-z_0-9$.\x80-\U0010ffff]+')


def lex(text, lang, cr):
    """[('c', comment) | ('t', token)]; line breaks count only at the end of preprocessor lines"""
    if lang == 'java':
        # unicode escapes come before everything else (JLS 3.3)
        text = re.sub(r'(?<!\\)((?:\\\\)*)\\u+([0-9a-fA-F]{4})', lambda m: m.group(1) + chr(int(m.group(2), 16)), text)
    text = text.replace('\r\n', '\n')
    if cr:
        text = text.replace('\r', '\n')
    if lang == 'c':
        text = re.sub(r'\\[ \t]*\n', '', text)
    out, i, n = [], 0, len(text)
    first, directive = True, False
    while i < n:
        ch = text[i]
        if ch == '\n':
            if directive:
                out.append(('t', '<eol>'))
            first, directive = True, False
            i += 1
        elif ch in ' \t\r\f\v':
            i += 1
        elif text.startswith('//', i):
            j = text.find('\n', i)
            j = n if j < 0 else j
            out.append(('c', text[i:j]))
            i = j
        elif text.startswith('/*', i):
            if lang == 'rust':
                depth, j = 1, i + 2
                while j < n and depth:
                    if text.startswith('/*', j):
                        depth, j = depth + 1, j + 2
                    elif text.startswith('*/', j):
                        depth, j = depth - 1, j + 2
                    else:
                        j += 1
            else:
                j = text.find('*/', i + 2)
                j = n if j < 0 else j + 2
                if not text[i:j].endswith('*/') or j - i < 4:
                    out.append(('t', '<unterminated>'))
            out.append(('c', text[i:j]))
            i = j
        else:
            if ch == '"' or ch == "'" and not (lang == 'rust' and re.match(r"'[A-Za-z_]\w*(?!')", text[i:i + 40])):
                j = i + 1
                while j < n and text[j] not in (ch, '\n'):
                    j += 2 if text[j] == '\\' else 1
                t = text[i:j + 1]
            else:
                m = ID.match(text, i)
                t = m.group(0) if m else ch
            if first and t == '#' and lang == 'c':
                directive = True
            first = False
            out.append(('t', t))
            i += len(t)
    if directive:
        out.append(('t', '<eol>'))
    return out


CRS = {'c': (False, True), 'rust': (False,), 'java': (True,)}


def code(lx):
    return [t for k, t in lx if k == 't']


def comments(lx):
    """[(comment run, name of what follows)]"""
    out, i = [], 0
    while i < len(lx):
        if lx[i][0] != 'c':
            i += 1
            continue
        j = i
        while j < len(lx) and lx[j][0] == 'c':
            j += 1
        head = ''
        brack = 0
        for k, t in lx[j:]:
            if k == 'c' or t in '({;=' and not brack:
                break
            if t == '[':
                brack += 1
            if t == ']':
                brack -= 1
            elif not brack and re.match(r'[A-Za-z_]', t):
                head = t
        out.append(('\n'.join(t for _, t in lx[i:j]), head))
        i = j
    return out


def names(meth, head):
    """is this what a method's code is called in some backend?"""
    return head == meth or head.endswith('_' + meth)


# ------------------------------------------------------------------ programs
def program(rng, java=False):
    # constants 'differ in case' only, names etc. are C11's business
    p = gen.gen_program(rng, {'n_files': rng.choice([1, 1, 2, 3]), 'n_ifaces': rng.choice([1, 2, 4]), 'n_structs': rng.choice([0, 2, 4]), 'n_methods': rng.choice([(0, 2), (1, 4), (3, 7)]), 'max_depth': rng.choice([1, 3, 5]),
                              'p_obj_struct': .3, 'float_consts': True, 'fwd': rng.random() < .5, 'docs': rng.random() < .6})
    if java:
        c18.strip(p)
    return p


def write(p, root, texts):
    for f in p.files:
        q = os.path.join(root, f.path)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'w', newline='', encoding='utf-8') as fh:
            fh.write(texts[f.path])


def plain(f):
    """one token per line"""
    return ''.join(t + ('\n' if k == tok.DECL else ' ') for t, k in tok.file_toks(f))


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i, a[max(0, i - 6):i + 8], b[max(0, i - 6):i + 8]
    return min(len(a), len(b)), a[-6:], b[-6:]


# ------------------------------------------------------------------ trivia
def render_variant(rng, f, k):
    if k == 0:
        return tok.compact(f)
    if k == 1:
        return tok.render(f, rng, .95)
    if k == 2:
        s = tok.render(f, rng, .2)
        return s + rng.choice(['// no line break', '/* last */', '/**/', '\t', '\n\n\n', '// é', '//', '/***/'])
    if k == 3:
        # every line break is CRLF or CR; documentation keeps its own
        s = rng.choice(['\r\n', '\r'])
        out = ''
        for t, kind in tok.file_toks(f):
            out += t + tok.trivia(rng, kind, .5).replace('\r\n', '\n').replace('\r', '\n').replace('\n', s)
        return out
    if k == 4:
        # exactly one comment in the whole file, at any gap
        ts = tok.file_toks(f)
        at = rng.randrange(len(ts) + 1) if ts else 0
        out = '' if at else tok.comment(rng)
        for i, (t, kind) in enumerate(ts):
            out += t + ('\n' if kind == tok.DECL else ' ')
            if i + 1 == at and kind != tok.WSO:
                out += tok.comment(rng) + '\n'
        return out
    return tok.render(f, rng, rng.choice([.1, .4, .7]), nocomment=rng.random() < .3)


def trivia_case(ctx, idlc, rng, i):
    p = program(rng, i % 5 == 4)
    d = ctx.mkdir('t%d' % i)
    v = []
    try:
        base = {f.path: plain(f) for f in p.files}
        write(p, d + '/b', base)
        modes = list(MODES) if i % 5 == 4 else [m for m in MODES if m != 'java']
        want = {f.path: outputs(idlc, os.path.join(d, 'b', f.path), d, modes) for f in p.files}
        runs = 0
        for f, w in want.items():
            for m in modes:
                if not w[m][0]:
                    v.append(('trivia:base:%s' % m, 'idlc refuses a valid program: %s' % common.diag(w[m][2]), dict(base)))
        for k in range(6) if not v else ():
            texts = {f.path: render_variant(rng, f, k) for f in p.files}
            if rng.random() < .5:
                # only one file of the set is edited
                keep = rng.choice(p.files).path
                texts = {q: t if q == keep else base[q] for q, t in texts.items()}
            write(p, d + '/v', texts)
            for f in p.files:
                got = outputs(idlc, os.path.join(d, 'v', f.path), d, modes)
                for m in modes:
                    runs += 1
                    if got[m][:2] == want[f.path][m][:2]:
                        continue
                    if not got[m][0]:
                        what = 'refused: ' + common.diag(got[m][2])
                    else:
                        a, b = want[f.path][m][1], got[m][1]
                        n = [x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)][0]
                        what = 'file %s: %r against %r' % ((n,) + first_diff(a.get(n, '').split('\n'), b.get(n, '').split('\n'))[1:])
                    v.append(('trivia:%s' % m, '%s of %s with other trivia (variant %d): %s' % (m, f.path, k, what[:600]), {**{'base/' + q: t for q, t in base.items()}, **{'edited/' + q: t for q, t in texts.items()}}))
            shutil.rmtree(d + '/v')
        return p, runs, v
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ documentation
def hostile_doc(rng, mark):
    """text between '/**' NEWLINE and '*/'; mark is a word of its own"""
    w = lambda: rng.choice(['note', 'x', 'é', '漢字', '@param[out] y', '}; int bad;', '#define Q 1', '"', "'", '\\', '\\n', '\\u0041', 'C:\\users\\u', '\\u', '\\\\u002a/', '\\u002a\\u002f', '/ *', '/*', '/* a', '//', '// x', '???/', '<pre>', '</pre>', '```', '[link]', '*', '**',
                            '#[optional]', 'method m();', '!', '/', '{', '(', ');', '%s', '$', '\t', '*\t*', '-> {', '&amp;', '@', '`', '/**', 'int x; //'])
    lines = []
    for _ in range(rng.randrange(1, 6)):
        pre = rng.choice([' * ', ' * ', '   * ', '\t* ', '* ', '*', '', '    ', ' *\t', 'é * ', ' ** ', '/', ' /', '!'])
        lines.append(pre + ' '.join(w() for _ in range(rng.randrange(0, 4))))
    lines[rng.randrange(len(lines))] = rng.choice([' * ', '   ', ' ** ', '']) + mark + ' ' + w()
    nl = rng.choice(['\n', '\n', '\n', '\r\n', '\r'])
    body = nl.join(lines)
    if rng.random() < .8:
        body += nl + rng.choice(['', ' ', '   ', '\t', 'é'])
    while '*/' in body:
        body = body.replace('*/', '* /')
    if body.endswith('*') and rng.random() < .5:
        body += ' '
    return nl, body


def doc_positions(f):
    """[(index into tokens, method that follows as the next member or None, method around it or None)]"""
    ts = tok.file_toks(f)
    res = []
    prev = tok.DECL
    # walk declarations along with tokens
    i = len(f.includes)
    member_at = {}
    around = {}
    for d in f.decls:
        n = len(tok.decl_toks(d))
        if d.kind == 'interface':
            j = i + len(tok.decl_toks(Interface(d.name, d.base, []))) - 1
            for m in d.members:
                ln = len(tok.decl_toks(Interface('x', None, [m]))) - len(tok.decl_toks(Interface('x', None, [])))
                if m.kind == 'method':
                    member_at[j] = m
                    if m.doc is not None:
                        member_at[j + 1] = m
                    for q in range(j + 1 + (m.doc is not None), j + ln):
                        around[q] = m
                j += ln
        i += n
    for q in range(len(ts) + 1):
        if q and ts[q - 1][1] == tok.WSO:
            continue
        res.append((q, member_at.get(q), around.get(q)))
    return ts, res


def join(ts):
    return ''.join(t + ('\n' if k == tok.DECL else ' ') for t, k in ts)


def doc_case(ctx, idlc, rng, i):
    java = i % 3 == 2
    p = program(rng, java)
    d = ctx.mkdir('d%d' % i)
    modes = ['java', 'c.stub', 'cpp.stub'] if java else rng.sample([m for m in MODES if m != 'java'], 4)
    v, runs, stats = [], 0, []
    try:
        base = {f.path: plain(f) for f in p.files}
        write(p, d + '/b', base)
        main = p.files[0]
        want = outputs(idlc, os.path.join(d, 'b', main.path), d, modes)
        lexed = {}
        for k in range(6):
            f = rng.choice(p.files)
            ts, pos = doc_positions(f)
            kind = rng.choice(['add', 'add', 'add-member', 'add-member', 'remove', 'change'])
            docs = [(q, m) for q, m, _ in pos if m is not None and m.doc is not None and q < len(ts) and ts[q][0].startswith('/**\n')]
            mark = 'ZQX%dMARK' % rng.randrange(10 ** 6)
            nl, body = hostile_doc(rng, mark)
            text = '/**' + nl + body + '*/'
            present = None
            if kind in ('remove', 'change') and docs:
                q, m = rng.choice(docs)
                ts = ts[:q] + ([(text, tok.DECL)] if kind == 'change' else []) + ts[q + 1:]
                target = {m.name}
                if kind == 'change':
                    present = m
            else:
                c = [x for x in pos if x[1] is not None] if kind == 'add-member' else pos
                q, m, ar = rng.choice(c or pos)
                glue_ = [(text, tok.DECL)]
                ts = ts[:q] + glue_ + ts[q:]
                target = {x.name for x in (m, ar) if x is not None}
                if m is not None and not ts[q + 1][0].startswith('/**\n'):
                    present = m
            texts = dict(base)
            texts[f.path] = join(ts)
            write(p, d + '/v', texts)
            got = outputs(idlc, os.path.join(d, 'v', main.path), d, modes)
            shutil.rmtree(d + '/v')
            files = {**{'base/' + x: t for x, t in base.items()}, **{'edited/' + x: t for x, t in texts.items()}}
            stats.append(kind + ('' if target else ' (no method follows)'))
            for m_ in modes:
                runs += 1
                lang = LANG(m_)
                if not got[m_][0] or not want[m_][0]:
                    if got[m_][0] != want[m_][0]:
                        v.append(('doc:%s:refused' % m_, '%s: documentation changes whether the file is accepted: %s' % (kind, common.diag(got[m_][2])), files))
                    continue
                a, b = want[m_][1], got[m_][1]
                if set(a) != set(b):
                    v.append(('doc:%s:files' % m_, '%s: other output files %s' % (kind, sorted(set(a) ^ set(b))), files))
                    continue
                seen = 0
                for n in a:
                    for cr in CRS[lang]:
                        key = (m_, n, cr)
                        if key not in lexed:
                            lexed[key] = lex(a[n], lang, cr)
                        la, lb = lexed[key], lex(b[n], lang, cr)
                        if code(la) != code(lb):
                            v.append(('doc:%s:code' % m_, '%s at token %d of %s (%r): code of %s changes: %r against %r' % ((kind, q, f.path, text, n) + first_diff(code(la), code(lb))[1:]), files))
                            break
                        ca, cb = comments(la), comments(lb)
                        other = lambda c: [x for x in c if not any(names(t, x[1]) for t in target)]
                        if other(ca) != other(cb):
                            v.append(('doc:%s:comment' % m_, '%s at token %d of %s: comments of something else than %s change in %s: %r against %r' % ((kind, q, f.path, sorted(target) or 'nothing', n) + first_diff(other(ca), other(cb))[1:]), files))
                            break
                        hit = [h for t, h in cb if mark in t]
                        seen += len(hit)
                        if any(not any(names(t, h) for t in target) for h in hit):
                            v.append(('doc:%s:attach' % m_, '%s at token %d of %s: documentation for %s is attached to %s' % (kind, q, f.path, sorted(target) or 'nothing', hit), files))
                            break
                # a documented method of the main file must carry its documentation where it is declared
                if present is not None and m_ in ('c.stub', 'cpp.stub', 'rust', 'java', 'cu.stub') and f is main and not seen and not re.search('[^\x00-\x7f]', body.split(mark)[0].splitlines()[-1] if body.split(mark)[0].splitlines() else ''):
                    if cut_free(nl + body, mark):
                        v.append(('doc:%s:lost' % m_, '%s: documentation %r of %s is nowhere in the output' % (kind, text, present.name), files))
        return p, runs, v, stats
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cut_free(body, mark):
    """whether the documented cutting of leading columns keeps the mark"""
    ls = re.split('\r\n|\n|\r', body + '*')
    ind = ls[-1].find('*')
    line = [l for l in ls if mark in l][0]
    return 0 <= ind <= line.find(mark) and ind <= 3


# ------------------------------------------------------------------ markings
MTEXT = ['Copyright (c) Someone.\nAll rights reserved.\n', 'one line without break', '\n', '\n\n\n', 'é ü 漢字 🙂\n', 'a\r\nb\r\n', 'a\rint bad;\rb\n', 'ends with a backslash \\\n', '\\', 'a \\ \nb', 'a \\\nb\\\nc', '/* a */\n', '*/ class Bad {}\n', 'x */', '/*', '//', '/* open\n',
         '\\u002a/ class Bad {}\n', '\\u', 'C:\\users\\u1\n', '\\\\u002a\\u002f', '??/\nint bad;\n', 'a ??/', '#define X 1\n', '"\n', "'\n", '! x\n/ y\n', ' \t \n', '}\n', '\x0c', '\x0b', '\u2028int bad;\n', '\x85', 'line\n' * 200, 'x' * 5000]


def marking_text(rng):
    if rng.random() < .6:
        return rng.choice(MTEXT)
    return ''.join(rng.choice(['word', ' ', '\n', '\n', '\r\n', '\r', '\\', '*/', '/*', '//', '\\u002a', '\\u', '\t', 'é', '"', '*', '/', 'int a;', '!', '#', '??/']) for _ in range(rng.randrange(1, 25)))


def prefix_ok(pre, lang):
    """a marking block: nothing but comments under every reading of line breaks"""
    return all(not code(lex(pre + 'CANARY', lang, cr))[:-1] and code(lex(pre + 'CANARY', lang, cr)) == ['CANARY'] for cr in CRS[lang])


def marking_case(ctx, idlc, rng, i):
    p = program(rng, True)
    d = ctx.mkdir('m%d' % i)
    v, runs = [], 0
    try:
        base = {f.path: plain(f) for f in p.files}
        write(p, d + '/b', base)
        src = os.path.join(d, 'b', rng.choice(p.files).path)
        modes = list(MODES)
        want = outputs(idlc, src, d, modes)
        for k in range(4):
            t = marking_text(rng) if i or k else ''
            mf = os.path.join(d, 'mark.txt')
            open(mf, 'w', newline='', encoding='utf-8').write(t)
            got = outputs(idlc, src, d, modes, ['--marking', mf])
            for m in modes:
                runs += 1
                files = dict({'idl/' + x: y for x, y in base.items()}, **{'mark.txt': t})
                if got[m][0] != want[m][0]:
                    v.append(('marking:%s:refused' % m, 'marking %r: %s' % (t[:200], common.diag(got[m][2])), files))
                    continue
                a, b = want[m][1], got[m][1]
                if set(a) != set(b):
                    v.append(('marking:%s:files' % m, 'marking %r: other files %s' % (t[:200], sorted(set(a) ^ set(b))), files))
                    continue
                for n in a:
                    if not b[n].endswith(a[n]):
                        v.append(('marking:%s:content' % m, 'marking %r changes more than a prefix of %s' % (t[:200], n), files))
                        break
                    pre = b[n][:len(b[n]) - len(a[n])]
                    if not prefix_ok(pre, LANG(m)):
                        v.append(('marking:%s:code' % m, 'marking %r leaves its comment: %r' % (t[:200], pre[:300]), files))
                        break
                    ws = [w for w in re.findall('[A-Za-z]{4,}', t)]
                    if any(w not in pre for w in ws):
                        v.append(('marking:%s:lost' % m, 'marking %r is not in %r' % (t[:200], pre[:300]), files))
                        break
        return p, runs, v
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ untyped objects
def untype(toks, ifaces):
    """the token stream with object types spelled Object and their typedefs dropped"""
    out, i = [], 0
    while i < len(toks):
        if toks[i] == 'typedef' and toks[i + 1:i + 2] == ['Object'] and toks[i + 2] in ifaces and toks[i + 3] == ';':
            i += 4
            continue
        out.append('Object' if toks[i] in ifaces else toks[i])
        i += 1
    return out


def untyped_case(ctx, idlc, rng, i):
    p = program(rng, i % 4 == 3)
    d = ctx.mkdir('u%d' % i)
    v, runs = [], 0
    try:
        base = {f.path: plain(f) for f in p.files}
        write(p, d + '/b', base)
        for f in p.files:
            src = os.path.join(d, 'b', f.path)
            a = outputs(idlc, src, d, list(MODES) if i % 4 == 3 else [m for m in MODES if m != 'java'])
            for part in ('stub', 'skel'):
                runs += 1
                x, y = a['c.' + part], a['cu.' + part]
                if x[0] != y[0]:
                    v.append(('untyped:%s:refused' % part, common.diag((y if x[0] else x)[2]), base))
                    continue
                x, y = x[1]['out'], y[1]['out']
                cx, cy = code(lex(x, 'c', False)), code(lex(y, 'c', False))
                tx, ty = untype(cx, p.ifaces), untype(cy, p.ifaces)
                if tx != ty:
                    v.append(('untyped:%s:code' % part, '%s of %s: typed %r against untyped %r' % ((part, f.path) + first_diff(tx, ty)[1:]), base))
                left = [t for t in cy if t in p.ifaces]
                if left:
                    v.append(('untyped:%s:type' % part, '%s of %s: untyped output still names object types %s' % (part, f.path, sorted(set(left))), base))
                if [c for c, _ in comments(lex(x, 'c', False))] != [c for c, _ in comments(lex(y, 'c', False))]:
                    v.append(('untyped:%s:comment' % part, '%s of %s: comments differ' % (part, f.path), base))
            other = [m for m in a if not m.startswith('c.') and not m.startswith('cu.')]
            b = outputs(idlc, src, d, other, ['--no-typed-objects'])
            for m in other:
                runs += 1
                if a[m][:2] != b[m][:2]:
                    v.append(('untyped:%s' % m, '--no-typed-objects changes the %s output of %s: %s' % (m, f.path, common.diag(b[m][2])), base))
        return p, runs, v
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ compilers
def compile_case(ctx, idlc, rng, i):
    """hostile documentation and a hostile marking in everything c11 compiles"""
    lang = ['c', 'cu', 'cpp', 'rust', 'java'][i % 5]
    p = program(rng, lang == 'java')
    for it in p.ifaces.values():
        for m in it.methods:
            if rng.random() < .8:
                while True:
                    nl, body = hostile_doc(rng, 'ZQ')
                    if nl == '\n':
                        break
                m.doc = body
                if rng.random() < .3:
                    m.doc = body.replace('\n', rng.choice(['\r', '\r\n']))
    d = ctx.mkdir('c%d' % i)
    mf = os.path.join(d, 'mark.txt')
    t = marking_text(rng)
    open(mf, 'w', newline='', encoding='utf-8').write(t)
    try:
        fails, tus = c11.matrix(ctx, idlc, p, d, rng, [lang], extra=['--marking', mf] if rng.random() < .7 else [])
        v = [('compile:%s:%s' % (tag, c11.normal(err)), 'with marking %r and hostile documentation: %s' % (t[:200], err), dict(common.program_files(p), **dict({'mark.txt': t}, **{k: x for k, x in common.read_tree(d).items() if not k.startswith(('cls', 'idl')) and not k.endswith('.rmeta')}))) for tag, err in fails]
        return p, tus, v
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(ctx):
    idlc = common.Idlc(common.build_idlc())
    c11.jv.runtime_classes()
    ctx.rule = 'a case is one compiler run (or compilation) compared with its reference; distinct by (section, program, variant, backend)'
    t = 8 if ctx.thorough else 1
    for name, fn, n in (('trivia', trivia_case, 60), ('doc', doc_case, 150), ('marking', marking_case, 50), ('untyped', untyped_case, 60), ('compile', compile_case, 50)):
        seeds = [ctx.rng.getrandbits(48) for _ in range(n * t)]

        def work(i):
            if ctx.left() < 40:
                return None
            return fn(ctx, idlc, random.Random(seeds[i]), i)
        kinds = {}
        for i, w in enumerate(common.procmap(work, range(n * t))):
            if w is None:
                ctx.count('skipped_for_time')
                continue
            p, runs, v = w[:3]
            for k in range(runs):
                ctx.case((name, p.text(), k))
            ctx.count(name + '_programs')
            ctx.count(name + '_comparisons', runs)
            for s in w[3] if len(w) > 3 else ():
                ctx.count('doc edits: ' + s)
            if i % 41 == 0:
                ctx.sample('%s: %d comparisons on %s' % (name, runs, [m.text() for it in p.ifaces.values() for m in it.methods][:2]))
            for sig, what, files in v:
                ctx.violation(sig, what, files)
        if ctx.counters.get(name + '_comparisons', 0) < 50:
            ctx.inconclusive.append('too few comparisons: ' + name)
