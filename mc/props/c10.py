"""C10 colour escape sequences are invisible and obey the colour options"""
from common import *
from core import ESC_RE, strip_esc
import re

RED, RST, BLD = '\x1b[31m', '\x1b[0m', '\x1b[1m'
TOK = re.compile('(%s)' % ESC_RE.pattern)
COLS = (['--color'], ['--no-color'])


def sdesign(d):
    """the same design without escape sequences"""
    return Design(d.name, {k: [strip_esc(l) for l in v] for k, v in d.user.items()}, elastic=d.elastic, padding=d.pad,
                  indent=d.indent, rep=d.rep, rev=d.rev)


def tokens(s):
    """-> list of (escapes before, character), and escapes at the end"""
    res, pend = [], []
    i = 0
    while i < len(s):
        m = ESC_RE.match(s, i) if s[i] == '\x1b' else None
        if m:
            pend.append(m.group())
            i = m.end()
        else:
            res.append((tuple(pend), s[i]))
            pend = []
            i += 1
    return res, tuple(pend)


RST_RE = re.compile('\x1b[\\[(](0|10|39|49|59|75)?[\x40-\x7e]$')


def colours(seq):
    """the sequences since the last one that switches something off: resets end the effect of earlier text, so that they
    are not tied to the character which follows them"""
    seq = [x for x in seq if x.startswith('\x1b[')]
    while any(RST_RE.match(x) for x in seq):
        seq.pop(0)
    return tuple(seq)


def no_esc(r, what):
    if b'\x1b' in r.out:
        raise Fail('escape sequence in the output %s: %r' % (what, r.out[:400]))


def check_order(text, out, box=True):
    """escape sequences of each text line appear in order, between the same characters; the characters of the text are
    lower case letters and do not occur in the frame"""
    rows = [l for l in decode(out).split('\n')]
    pos = 0
    for line in text.split('\n'):
        t, end = tokens(line)
        ix = [i for i, (e, c) in enumerate(t) if 'a' <= c <= 'z']
        if not ix:
            continue
        want = [(e if k else e, c) for k, (e, c) in enumerate(t[ix[0]:ix[-1] + 1])]
        key = ''.join(c for e, c in want).replace('\t', ' ')
        while pos < len(rows) and not any('a' <= c <= 'z' for c in strip_esc(rows[pos])):
            pos += 1
        if pos == len(rows):
            raise Fail('text line %r is missing' % line)
        o, oend = tokens(rows[pos])
        pos += 1
        ox = [i for i, (e, c) in enumerate(o) if 'a' <= c <= 'z']
        got = o[ox[0]:ox[-1] + 1]
        if '\t' not in line and ''.join(c for e, c in got) != key:
            raise Fail('text differs: %r %r' % (line, rows[pos - 1]))
        g = [(e, c) for e, c in got if c != ' ' or e]
        w = [(e, c if c != '\t' else ' ') for e, c in want if c not in ' \t' or e]
        # the sequences directly before the first character may be joined by those of the design
        w0 = colours(w[0][0])
        if colours(g[0][0])[-len(w0):] != w0 and w0:
            raise Fail('sequences before the text: expected %r, got %r in %r' % (w[0][0], g[0][0], rows[pos - 1]))
        if g[1:] != w[1:]:
            raise Fail('sequences within the text: expected %r, got %r in %r' % (w, g, rows[pos - 1]))
        after = t[ix[-1] + 1][0] if ix[-1] + 1 < len(t) else end
        if after and RST_RE.match(after[0]) and box:
            a = o[ox[-1] + 1][0] if ox[-1] + 1 < len(o) else oend
            if not a or a[0] != after[0]:
                raise Fail('sequence after the text: expected %r, got %r in %r' % (after[0], a, rows[pos - 1]))


def draw_body(case):
    di, t, o = case
    d = DES[di]
    s = sdesign(d)
    a = o.args()
    ref = yield Run(['-f', config(s.cfg())] + a + ['--no-color'], strip_esc(t).encode())
    r = yield Run(['-f', config(d.cfg())] + a + ['--color'], t.encode())
    n = yield Run(['-f', config(d.cfg())] + a + ['--no-color'], t.encode())
    judge(s, strip_esc(t), o, ref, ())
    for x in (r, n):
        check_rc(x, ref.rc)
    no_esc(n, 'with --no-color')
    if n.out != ref.out:
        raise Fail('with --no-color:\n%s\nwithout escape sequences in text and design:\n%s' % (decode(n.out),
                                                                                             decode(ref.out)))
    if strip_esc(decode(r.out)) != decode(ref.out):
        raise Fail('with --color, after removal of the escape sequences:\n%s\nexpected:\n%s' % (
            strip_esc(decode(r.out)), decode(ref.out)))
    check_order(t, r.out)


def remove_body(case):
    """a coloured box is removed / mended like one without colours"""
    di, t, o, op = case
    d = DES[di]
    s = sdesign(d)
    a = o.args()
    box = yield Run(['-f', config(d.cfg())] + a + ['--color'], t.encode())
    check_rc(box)
    pb = strip_esc(decode(box.out))
    xa = ['-d', d.name, op] + (a if op == '-m' else [])
    ref = yield Run(['-f', config(s.cfg())] + xa + ['--no-color'], pb.encode())
    check_rc(ref)
    for text, des in ((box.out, d), (box.out, s), (pb.encode(), d)):
        if des is s and d is not s and any('\x1b' in l for v in d.user.values() for l in v):
            continue          # the design does not belong to the box
        r = yield Run(['-f', config(des.cfg())] + xa + ['--color'], text)
        n = yield Run(['-f', config(des.cfg())] + xa + ['--no-color'], text)
        for x in (r, n):
            check_rc(x)
        no_esc(n, 'of %s with --no-color' % op)
        if lines(n.out) != lines(ref.out):
            raise Fail('%s --no-color of %r\n%s\nexpected:\n%s' % (op, text, decode(n.out), decode(ref.out)))
        if [l.rstrip() for l in strip_esc(decode(r.out)).split('\n')] != lines(ref.out):
            raise Fail('%s --color of %r, after removal of the escape sequences:\n%s\nexpected:\n%s' % (
                op, text, strip_esc(decode(r.out)), decode(ref.out)))
        if text is box.out:
            check_order(t, r.out, False)


def lines(b):
    return [l.rstrip() for l in decode(b).split('\n')]


def term_body(case):
    """whether colours are written depends on the option, otherwise on the terminal type only"""
    term, opt, op = case
    d = DES[3]
    t = 'a%sb%s c\n' % (RED, RST)
    box = yield Run(['-f', config(d.cfg()), '--color'], t.encode())
    r = yield Run(['-f', config(d.cfg()), '-d', d.name] + op + opt, box.out if op else t.encode(),
                  env={'TERM': term})
    check_rc(r)
    colour = {'--color': True, '--no-color': False}.get(opt[-1]) if opt else TERMS[term]
    if colour:
        if b'\x1b[31m' not in r.out:
            raise Fail('colours are missing: %r' % r.out)
    else:
        no_esc(r, 'TERM=%s %s' % (term, opt))


TERMS = {None: False, '': False, 'xterm-mono': False, 'dumb': False, 'vt100': False, 'vt52': False, 'vt220': False,
         'no-such-terminal': False, 'xterm': True, 'xterm-256color': True, 'xterm-color': True, 'linux': True,
         'screen': True, 'screen-256color': True, 'tmux': True, 'rxvt': True, 'cygwin': True, 'ansi': True}
DES = []


def seqs():
    for c in range(0x40, 0x7f):
        yield '\x1b[' + chr(c)
        yield '\x1b[38;5;196' + chr(c)
    for c in range(0x30, 0x7f):
        if chr(c) not in '[':
            yield '\x1b' + chr(c)
        yield '\x1b(' + chr(c)
    for p in ('0', '1;31', '38;2;1;2;3', '?25', '>4;2', ';;', '0 ', '1;31$', '48:5:9'):
        yield '\x1b[' + p + 'm'
    yield '\x1b[' + '1;' * 200 + 'm'
    for p in range(110):
        yield '\x1b[%dm' % p
        yield '\x1b[%d;1m' % p
        yield '\x1b[1;%dm' % p


def spaces():
    D = [closed(), west(padding={'left': 1}), mixed(padding={'h': 1}),
         Design('col', {'NW': RED + '+', 'N': '-', 'NE': '+' + RST, 'E': RED + '|' + RST, 'SE': '+' + RST, 'S': '-',
                        'SW': RED + '+', 'W': RED + '|' + RST}, padding={'h': 1}),
         Design('cw', {'W': RED + '#' + RST}),
         Design('ct', {'N': [RED + '=', BLD + '-' + RST + '.'][:1], 'S': '_' + RST}),
         closed('txt', indent='text')]
    DES.extend(D)
    toks = ['a', ' ', RED, RST, BLD, '\u4e16']
    opts = [O(), O('c'), O('hrjr'), O(indent='n'), O(indent='t'), O(size=(14, 6))]
    few = [O(), O('r'), O(indent='t')]

    def one(n):
        for s in strings(toks, n):
            yield s + '\n  b\n'

    def two(n):
        p = ['a', ' a', RED + 'a', 'a' + RST, ' ' + RED + 'a', RED + 'a' + RST + 'b' + RST, '', RED, '  ' + RST,
             RED + ' a ' + RST + ' ', '\ta', RED + '\ta', 'a\t' + RED + 'b']
        for x in itertools.product(p, repeat=n):
            yield '\n'.join(x) + '\n'

    return [
        Space('lines', lambda: itertools.product((0, 1, 3), one(pick(4, 6)), (O(), O('c', indent='t'))), draw_body,
              'plain', 'all lines of up to %d tokens (letters, blanks, wide characters, escape sequences)' % pick(4, 6)),
        Space('designs', lambda: itertools.product(range(len(D)), two(2), opts[:pick(3, 6)]), draw_body, 'plain',
              'all pairs of lines x designs with and without colours x alignments, indentation, size'),
        Space('forms', lambda: itertools.product((0, 1), (t for s in seqs() for t in (
            'a%sb\n' % s, '%sa\nb\n' % s, 'a%s\n' % s, 'a %s%s b\n' % (s, RED), '  %sa\n   b\n' % s)), (O(),)),
              draw_body, 'plain', 'every final character of CSI, two-byte and character set sequences, in five places'),
        Space('remove', lambda: itertools.product(range(len(D)), [x for x in two(2) if strip_esc(x).strip()], few[:1],
                                                  ('-r', '-m')),
              remove_body, 'plain', 'removing and mending coloured boxes'),
        Space('ladders', lambda: ((di, t, o) for n in list(range(0, pick(70, 300))) + [2 ** k + j for k in (7, 8, 9, 10)
                                                                                       for j in (-1, 0, 1)]
                                  for t in ('a\x1b[' + '1' * n + 'mb\nc\n', 'a' * n + RED + 'b' + RST + '\n' + RED + 'c\n',
                                            RED * n + 'a\nb\n', (RED + 'a' + RST) * min(n, 300) + '\nb\n',
                                            ('a' + RED + 'b' + RST + '\n') * min(n, 300), ' ' * n + RED + 'x' + RST + 'y\n')
                                  if t.strip() for di in (0, 3) for o in (O(),)), draw_body, 'plain',
              'lengths and numbers of sequences, and their positions in the text'),
        Space('term', lambda: itertools.product(TERMS, ([], ['--color'], ['--no-color'], ['--no-color', '--color'],
                                                        ['--color', '--no-color']), ([], ['-r'], ['-m'])), term_body,
              'plain', 'terminal types x colour options x operations'),
    ]
