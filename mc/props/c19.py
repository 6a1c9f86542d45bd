"""C19 strings, delimiters and samples of the configuration are read literally"""
from common import *
import re

SDELIM = '"~\'`!@%&*=:;<>?/|.\\'
ELASTIC = 'elastic (w, n, e, s)\n'
SAMPLE = 'sample\ns\nends\n'


def enc(content, esc, dl, mask=0):
    """write a string; mask tells which characters are escaped without need"""
    return dl + ''.join(esc + c if c in (esc, dl) or mask >> i & 1 else c for i, c in enumerate(content)) + dl


def requote(s):
    return s.replace('\\', '\\\\').replace('"', '\\"')


# ---- contents of strings ------------------------------------------------------------------------------------------------
def str_body(case):
    esc, dl, content, mask = case
    line = '<' + content + '>'
    t = 'BOX d\ndelim %s%s\n%sshapes { w (%s) }\n%sEND d\n' % (esc, dl, SAMPLE, enc(line, esc, dl, mask << 1), ELASTIC)
    r = yield Run(['-f', config(t)], b'T')
    check_rc(r)
    if r.out != line.encode() + b'T' or r.err:
        raise Fail('string %r was read as %r (%r)' % (line, r.out, r.err[:200]))
    if mask == 0:
        l = yield Run(['-f', config(t), '-l', '-d', 'd'])
        check_rc(l)
        if 'W: "%s"' % requote(line) not in decode(l.out):
            raise Fail('string %r is listed as %r' % (line, l.out[-100:]))


def str_cases():
    for dl in SDELIM:
        for esc in ['\\', '?', 'a', '#', ')', '~'][:pick(4, 6)]:
            if esc == dl:
                continue
            al = list(dict.fromkeys([dl, esc, '"', '\\', '#', ')', 'x', ' ', '\u4e16']))
            for n in range(4):
                for c in itertools.product(al if n < 3 else al[:pick(3, 6)], repeat=n):
                    for m in range(1 << n) if n < 3 else (0, (1 << n) - 1):
                        yield esc, dl, ''.join(c), m
    al = ['"', '\\', 'x', ' '] + pick([], [',', '('])
    for n in range(3, pick(6, 7)):
        for c in itertools.product(al, repeat=n):
            yield '\\', '"', ''.join(c), 0
    for c in '\u00e4\u20ac\U0001f600\u0301\u0308\u200b':
        for d in SDELIM:
            yield ('\\' if d != '\\' else '?'), d, 'a' + c + d + c, 0
    for n in ladder(pick(300, 1100), 16300):
        for c in 'x"\\' if n < 600 or n > 8000 or not n & 1 else 'x':
            yield '\\', '"', c * n, 0


# ---- unterminated strings and the like are rejected ------------------------------------------------------------------------
def raw_cases():
    al = ['"', '\\', 'x', ',', '#', '\t']
    for n in range(1, pick(6, 7)):
        for c in itertools.product(al, repeat=n):
            yield ''.join(c)


def raw_parse(s):
    """the tokens of one line of a shape block; None if the line is not lexically correct"""
    res, i = [], 0
    while i < len(s):
        c = s[i]
        if c in ' \t':
            i += 1
        elif c == ',':
            res.append(',')
            i += 1
        elif c == '#':
            break
        elif c == '"':
            i += 1
            t = ''
            while i < len(s) and s[i] != '"':
                if s[i] == '\\':
                    i += 1
                    if i >= len(s):
                        return None
                t += s[i]
                i += 1
            if i >= len(s):
                return None
            res.append('=' + t)
            i += 1
        else:
            return None
    return res


def raw_body(s):
    t = 'BOX o\n%sshapes { w ("o") }\n%sEND o\nBOX d\n%sshapes { w (\n%s\n) }\n%sEND d\nBOX e\n%sshapes { w ("e") }\n%sEND e\n' % (
        SAMPLE, ELASTIC, SAMPLE, s, ELASTIC, SAMPLE, ELASTIC)
    p = raw_parse(s)
    if p and any('\t' in x for x in p):
        return                 # tabs in shapes: not specified
    good = p and len(p) % 2 == 1 and all(x[0] == '=' for x in p[::2]) and all(x == ',' for x in p[1::2])
    if good:
        ls = [x[1:] for x in p[::2]]
        if len({len(x) for x in ls}) > 1 or not all(ls):
            good = False
    r = yield Run(['-f', config(t), '-d', 'd'], b'T')
    if good:
        check_rc(r)
        if r.out.split(b'\n')[0].rstrip(b'T') != ls[0].encode():
            raise Fail('%r was read as %r' % (s, r.out))
    else:
        check_rc(r, 1)
    q = yield Run(['-f', config(t), '-q', '(all)'])
    check_rc(q)
    if q.out.split() != ([b'd', b'e', b'o'] if good else [b'e', b'o']):
        raise Fail('%r: designs are %r' % (s, q.out))
    if bool(q.err) == bool(good):
        raise Fail('%r: messages are %r' % (s, q.err[:300]))


# ---- delimiter specifications ------------------------------------------------------------------------------------------------
def spec_cases():
    al = [chr(c) for c in range(0x21, 0x7f)]
    for a in al:
        for b in al:
            yield a + b
    for a in al + ['\u00e4', '\u4e16']:
        yield a
        yield '~"' + a
        yield '\\' + a + a


def spec_body(s):
    ok = len(s.encode()) == 2 and len(s) == 2 and s[0] != s[1] and s[1] in SDELIM
    c = '<a' + ('"' if s[1:] != '"' else '|') + '>'
    shape = enc(c, s[0], s[1]) if ok else enc(c, '\\', '"')
    for kw in ('delim', 'DELIMITER') if s[0] in 'a\\"' else ('delim',):
        t = 'BOX d\n%s %s\n%sshapes { w (%s) }\n%sEND d\nBOX e\n%sshapes { w ("e") }\n%sEND e\n' % (kw, s, SAMPLE, shape, ELASTIC, SAMPLE, ELASTIC)
        q = yield Run(['-f', config(t), '-q', '(all)'])
        check_rc(q)
        if q.out != (b'd\ne\n' if ok else b'e\n'):
            raise Fail('delim %s: designs are %r; %r' % (s, q.out, q.err[:300]))
        r = yield Run(['-f', config(t), '-d', 'd'], b'T')
        if ok:
            check_rc(r)
            if r.out != c.encode() + b'T':
                raise Fail('delim %s: shape %r is drawn as %r' % (s, c, r.out))
        else:
            check_rc(r, 1)


# ---- where delimiters change ---------------------------------------------------------------------------------------------------
PAIRS = (None, '~|', '?"', '"\'', '\\=')


def pos_body(case):
    changes, broken = case
    esc, dl = '\\', '"'
    out = ['BOX d\n']

    def ch(i):
        nonlocal esc, dl
        c = PAIRS[changes[i]]
        if c:
            out.append('delim %s\n' % c)
            esc, dl = c[0], c[1]
    mark = '\\"|\'~?='
    ch(0)
    out.append('author %s\n' % enc('me ' + mark, esc, dl))
    ch(1)
    out.append('replace global %s with %s\n' % (enc('[?]', esc, dl), enc('<"\'|=~>', esc, dl)))
    out.append(SAMPLE)
    ch(2)
    w = 'w' + mark
    out.append('shapes { w (%s,\n %s) }\n' % (enc(w, esc, dl), enc(w[::-1], esc, dl)))
    ch(3)
    out.append('tags (%s, %s)\n' % (enc('tag-a', esc, dl), enc('tag-b', esc, dl)))
    out.append('designer %s\n' % enc('you ' + mark, esc, dl))
    out.append(ELASTIC)
    if broken:
        out.append(';\n')
    out.append('END d\nBOX e\nauthor "\\\\|"\n%sshapes { w ("\\"e|~") }\n%sEND e\n' % (SAMPLE, ELASTIC))
    f = config(''.join(out))
    l = yield Run(['-f', f, '-l'])
    check_rc(l)
    lines = decode(l.out).split('\n')
    if 'unknown artist, coded by \\|:' not in lines:
        raise Fail('author of the second design is missing in\n%s' % decode(l.out))
    r = yield Run(['-f', f, '-d', 'e'], b'T')
    check_rc(r)
    if r.out != b'"e|~T':
        raise Fail('second design is drawn as %r' % r.out)
    if broken:
        return
    if 'you %s, coded by me %s:' % (mark, mark) not in lines or l.err:
        raise Fail('authors of the first design are missing in\n%s' % decode(l.out))
    r = yield Run(['-f', f, '-d', 'd'], b'a?\nb')
    check_rc(r)
    if decode(r.out) != w + 'a<"\'|=~>\n' + w[::-1] + 'b':
        raise Fail('first design is drawn as %r' % decode(r.out))
    q = yield Run(['-f', f, '-q', 'tag-b'])
    if q.out != b'd\n':
        raise Fail('tag query yields %r' % q.out)


# ---- samples ----------------------------------------------------------------------------------------------------------------------
SLINES = ('', 'x', '  x', 'ends x', 'it ends', '# no comment', '\t"x', 'END d', '  ', 'y  ', 'friends', 'parent p', '\u4e16\\\u00e4', 'shapes { w ("y") }',
          '-ends', 'ends.', 'sample', 'BOX q', '}', 'end', 'ends ends')


def sample_text(lines):
    ls = list(lines)
    while ls and not ls[0].strip():
        ls.pop(0)
    return '\n'.join(ls).rstrip()


def sample_body(case):
    lines, first, end, eol, oe = case
    body = ('sample' + first + '\n' + ''.join(l + '\n' for l in lines) + end + '\n').replace('\n', eol)
    t = 'BOX d\n%sshapes { w ("#") }\n%sEND d\nBOX e\n%sshapes { w ("e") }\n%sEND e\n' % (body, ELASTIC, SAMPLE, ELASTIC)
    s = sample_text(([first] if first.strip() else []) + list(lines))
    e = {'LF': '\n', 'CRLF': '\r\n', 'CR': '\r'}[oe]
    l = yield Run(['-f', config(t), '-l', '-e', oe])
    r = yield Run(['-f', config(t), '-d', 'd'], b'T')
    if not s:
        check_rc(r, 1)
        if b'SAMPLE block must not be empty' not in l.err:
            raise Fail('no message about empty sample: %r' % l.err[:200])
        return
    check_rc(l)
    check_rc(r)
    if r.out != b'#T' or r.err or l.err:
        raise Fail('sample %r: output is %r; %r %r' % (lines, r.out, r.err[:200], l.err[:200]))
    out = decode(l.out)
    want = 'd:%s%s%s%s%s%se:%s' % (e, e, s.replace('\n', e), e, e, e, e)
    i = out.find(e + 'd:' + e)
    if i < 0 or not out[i + len(e):].startswith(want):
        raise Fail('sample %r: listing is\n%r\nexpected\n%r' % (lines, out, want))


def sample_cases():
    sl = SLINES[:pick(11, 14)]
    for n in range(4):
        for ls in itertools.product(sl if n == 3 else SLINES, repeat=n):
            yield ls, '', 'ends', '\n', 'LF'
    for ls in itertools.product(('', 'x', ' y ', 'it ends', 'ends!'), repeat=2):
        for first in ('', ' ', ' \t ', ' # z'):
            for end in ('ends', '  ends', '\tends \t', 'ENDS', 'Ends'):
                for eol in ('\n', '\r\n'):
                    for oe in ('LF', 'CRLF', 'CR'):
                        yield ls, first, end, eol, oe
    for n in (100, 1000, 8192, 20000):
        yield ('x' * n,), '', 'ends', '\n', 'LF'
        yield ('x', ) * n, '', 'ends', '\n', 'LF'


# ---- comments and white space ----------------------------------------------------------------------------------------------------------
DESIGN = '''BOX d, alias-1
author "me # no comment"
tags ("a", "b")
indent "box"
@@SAMPLE@@
shapes {
  nw ("+-", "||") n ("-", "=") ne ("-+", "||")
  w ("|#") e ("#|")
  sw ("+-") s ("-") se ("-+")
}
elastic (n, e, s, w)
replace once "a" with "b"
reverse global "b" to "a"
padding { left 1 right 2 }
END d
'''
STOK = 'sample\n # x\nends\n'
TOK = [t for t in re.findall(r'@@SAMPLE@@|[\w-]+|"[^"]*"|[^\s]', DESIGN)]
FILLS = ('\n', '\t', ' ', '\r\n', '\n\n \t\n', ' # comment\n', '# " ) } END d\n', '#\n', '\ufeff', ' #\u4e16\n', '\n# sample\n')


def build(gaps):
    s = ''
    for i, t in enumerate(TOK):
        if t == '@@SAMPLE@@':
            s = s.rstrip(' ') + gaps.get(i, ' ') + STOK
        else:
            s += gaps.get(i, ' ') + t
    return s + gaps.get(len(TOK), '\n')


def ws_body(case):
    gaps = dict(case)
    base, var = config(build({})), config(build(gaps))
    for a, inp in ((['-d', 'D'], b'a\n  b\n'), (['-l', '-d', 'alias-1'], b''), (['-l'], b'')):
        r0 = yield Run(['-f', base] + a, inp)
        r1 = yield Run(['-f', var] + a, inp)
        check_rc(r0)
        check_rc(r1)
        o0 = r0.out.replace(os.fsencode(base), b'F').replace(b'-', b'')
        o1 = r1.out.replace(os.fsencode(var), b'F').replace(b'-', b'')
        if o0 != o1 or r1.err:
            raise Fail('gaps %r make a difference: %r instead of %r; %r' % (gaps, o1, o0, r1.err[:300]))


def ws_cases():
    n = len(TOK)
    for i in range(n + 1):
        for f in FILLS:
            if f != '\ufeff' or i == 0:        # a byte order mark belongs at the start of the file
                yield ((i, f),)
        for f in FILLS[:6]:
            for j in range(i + 1, n + 1, pick(5, 1)):
                yield (i, f), (j, FILLS[5])
        # no white space at all where none is needed
        if 0 < i < n and not (TOK[i][0].isalnum() and TOK[i - 1][-1].isalnum()) and TOK[i][0] != '@' and TOK[i - 1][0] != '@':
            yield ((i, ''),)
    yield tuple((i, '') for i in range(1, n) if not (TOK[i][0].isalnum() and TOK[i - 1][-1].isalnum())
                and TOK[i][0] != '@' and TOK[i - 1][0] != '@')
    for f in FILLS:
        yield tuple((i, f if f != '\ufeff' else ' ') for i in range(n + 1))
    for t in ('', '# comment at the end', '#', ' ', '\r', '\t# x'):
        yield ((n, '\n' + t),)
        yield ((n, t),) if t else ((n, ''),)


def kw_cases():
    for i, t in enumerate(TOK):
        if t.isalpha():
            for f in (str.upper, str.lower, str.title, str.swapcase):
                yield i, f(t)
    yield -1, 'SAMPLE\n # x\nENDS\n'
    yield -1, 'Sample\n # x\nEnds\n'


def kw_body(case):
    i, t = case
    global TOK
    s = ''
    for j, x in enumerate(TOK):
        s += ' ' + ('\n' + (t if i == -1 else STOK) if x == '@@SAMPLE@@' else t if i == j else x)
    base, var = config(build({})), config(s + '\n')
    for a, inp in ((['-d', 'D'], b'a\n  b\n'), (['-l'], b'')):
        r0 = yield Run(['-f', base] + a, inp)
        r1 = yield Run(['-f', var] + a, inp)
        check_rc(r1)
        o0 = r0.out.replace(os.fsencode(base), b'F').replace(b'-', b'').replace(b'D', b'd')
        o1 = r1.out.replace(os.fsencode(var), b'F').replace(b'-', b'').replace(b'D', b'd')
        if o0 != o1 or r1.err:
            raise Fail('%r makes a difference: %r instead of %r; %r' % (t, o1, o0, r1.err[:300]))


# ---- regular expressions ---------------------------------------------------------------------------------------------------------------------
PATS = (('a.c', 'x'), (r'a\.c', 'y'), ('"', "'"), ('[.]', '|'), (r'\\', '/'), (r'\|', '!'), ('^ *#', '//'), ('(a)(.)', '$2$1'), (r'\s+$', ''))


def pat_body(case):
    pair, p, anti = case
    esc, dl = pair
    pat, rep = PATS[p]
    kw = 'reverse global %s to %s\n' if anti else 'replace global %s with %s\n'
    t = 'BOX d\ndelim %s\n%s%sshapes { w (%s) }\n%sEND d\n' % (pair, kw % (enc(pat, esc, dl), enc(rep, esc, dl)), SAMPLE, enc('>', esc, dl), ELASTIC)
    inp = ['a.c', 'abc"', '\\|', '  # x', 'a\\.c . |']
    want = [re.sub(pat, rep.replace('$', '\\'), l) for l in inp]
    text = ''.join(l + '\n' for l in inp)
    if anti:
        r = yield Run(['-f', config(t), '-r'], ''.join('>' + l + '\n' for l in inp).encode())
        want = [l.rstrip() for l in want]
    else:
        r = yield Run(['-f', config(t), '-i', 'none'], text.encode())
        return_want = want
        want = None
        ind = min(len(l) - len(l.lstrip()) for l in inp)
        want = ['>' + l.rstrip() for l in return_want]
    check_rc(r)
    got = decode(r.out).split('\n')[:-1]
    if got != want:
        raise Fail('rule %r -> %r: %r instead of %r' % (pat, rep, got, want))


# ---- sizes ---------------------------------------------------------------------------------------------------------------------------
def size_cases():
    for n in ladder(pick(70, 300), 4200):
        for k in ('length', 'lines', 'blank', 'indent', 'shape', 'comment', 'gap', 'rules'):
            if k != 'shape' or n < 1500:
                if k != 'rules' or n < 600:
                    yield k, n


def size_body(case):
    kind, n = case
    sample, shape, gap, rules, inp, want = 's', ['#'], '\n', '', 'a', None
    if kind == 'length':
        sample = 'a' + 'xy "' * n + 'b'
    elif kind == 'lines':
        sample = 'a\n' * n + 'b'
    elif kind == 'blank':
        sample = 'a\n' + '\n' * n + 'b'
    elif kind == 'indent':
        sample = ' ' * n + 'a\nb'
    elif kind == 'shape':
        shape = ['%04d' % i for i in range(n)]
    elif kind == 'comment':
        gap = '\n# ' + '"x' * n + '\n'
    elif kind == 'gap':
        gap = '\n' * n + ' ' * n
    elif kind == 'rules':
        rules = ''.join('replace "%s" with "%s"\n' % (chr(0x100 + i), chr(0x101 + i)) for i in range(n))
        inp, want = '\u0100', chr(0x100 + n)
    t = 'BOX d\nauthor "me"%sdesigner "you"\n%ssample\n%s\nends%sshapes { w (%s) }\n%sEND d%sBOX e\n%sshapes { w (">") }\n%sEND e\n' % (
        gap, rules, sample, gap, ', '.join('"%s"' % x for x in shape), ELASTIC, gap, SAMPLE, ELASTIC)
    f = config(t)
    r = yield Run(['-f', f, '-d', 'd'], (inp + '\n').encode() * len(shape))
    check_rc(r)
    exp = ''.join(x + (want or inp) + '\n' for x in shape)
    if decode(r.out) != exp or r.err:
        raise Fail('%s %d: the box is %r; %r' % (kind, n, r.out[:300], r.err[:300]))
    r = yield Run(['-f', f, '-d', 'e'], b'T')
    if r.rc or r.out != b'>T' or r.err:
        raise Fail('%s %d: the design after it: %r %r' % (kind, n, r.out[:300], r.err[:300]))
    l = yield Run(['-f', f, '-l'])
    check_rc(l)
    if '\nyou, coded by me:\n\n' + sample + '\n\n' not in decode(l.out):
        raise Fail('%s %d: the sample is listed as %r' % (kind, n, l.out[:600]))


def spaces():
    pairs = ['%s%s' % (e, d) for d in SDELIM for e in '\\?~a' if e != d]
    return [
        Space('sizes', size_cases, size_body, 'plain', 'lengths of samples, indentations, comments, numbers of lines, shape lines, rules'),
        Space('strings', str_cases, str_body, 'plain', 'contents of strings x delimiters x escape characters x needlessly escaped characters'),
        Space('raw', raw_cases, raw_body, 'plain', 'all character sequences where a string list is expected'),
        Space('specs', spec_cases, spec_body, 'plain', 'all delimiter specifications of two printable characters'),
        Space('positions', lambda: ((c, b) for c in itertools.product(range(len(PAIRS)), repeat=4) for b in (0, 1)), pos_body, 'plain',
              'delimiter changes at all positions of a design'),
        Space('samples', sample_cases, sample_body, 'plain', 'sample blocks of up to three lines; ends of the block; line ends'),
        Space('layout', ws_cases, ws_body, 'plain', 'white space and comments between any two tokens'),
        Space('keywords', kw_cases, kw_body, 'plain', 'case of keywords'),
        Space('patterns', lambda: itertools.product(pairs, range(len(PATS)), (0, 1)), pat_body, 'plain', 'regular expressions x delimiters'),
    ]
