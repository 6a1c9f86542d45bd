"""C15 removing a box never loses text; blank lines obey the kill option"""
from common import *
import shipped
import unicodedata


def split(s):
    ls = s.split('\n')
    if ls[-1] == '':
        ls.pop()
    return [l.rstrip() for l in ls]


def strip_blank(ls):
    ls = list(ls)
    while ls and not ls[0]:
        ls.pop(0)
    while ls and not ls[-1]:
        ls.pop()
    return ls


KILL = {'': None, '-k true': True, '-k false': False, '--kill-blank': True, '--no-kill-blank': False, '-ktrue': True,
        '-kfalse': False, '-k yes': True, '-k no': False, '-k on': True, '-k off': False, '-k 1': True, '-k 0': False}


def kargs(k):
    return k.split()


def plain_body(case):
    """a text without any part of a frame"""
    di, t, k = case
    d = DES[di]
    r = yield Run(['-f', config(d.cfg()), '-d', d.name, '-r'] + kargs(k), t.encode())
    check_rc(r)
    got, want = split(decode(r.out)), split(t)
    if KILL[k] is False or KILL[k] is None and d.open['t'] and d.open['b']:
        if got != want:
            raise Fail('%r became %r, although blank lines are to be kept' % (want, got))
        if strip_blank(want) and r.out.endswith(b'\n') != t.endswith('\n'):
            raise Fail('end of last line: %r' % r.out)
    else:
        if strip_blank(got) != strip_blank(want):
            raise Fail('%r became %r' % (want, got))


def shipped_plain_body(case):
    name, t = case
    r = yield Run(['-f', core.REPO + '/boxes-config', '-d', name, '-r'], t.encode())
    check_rc(r)
    if strip_blank(split(decode(r.out))) != strip_blank(split(t)):
        raise Fail('%r became %r' % (t, r.out))


def blank_body(case):
    """a box around lines of which some are blank, with all forms of the option"""
    di, pat, k, pad, order = case
    d = DES[di]
    f = ['-f', config(d.cfg()), '-d', d.name]
    t = ''.join(x + '\n' for x in pat)
    p = ['-p', pad] if pad else []
    r = yield Run(f + p, t.encode())
    check_rc(r)
    rows = decode(r.out).split('\n')[:-1]
    L = layout(d, t, O(pad=(('v', int(pad[1:])),) if pad else ()))
    if r.out != L.out.encode():
        return
    x = kargs(k)
    g = (['-r'] + x if order else x + ['-r'])
    q = yield Run(f + g + p, r.out)
    check_rc(q)
    got = split(decode(q.out))
    kill = KILL[k]
    if kill is None:
        kill = not (d.open['t'] and d.open['b'])
    nt = 0 if d.open['t'] else len(L.tops)
    nb = 0 if d.open['b'] else len(L.bots)
    body = len(rows) - nt - nb
    inner = [''] * L.y0 + [l.rstrip() for l in L.lines]
    inner += [''] * (body - len(inner))
    inner = [(' ' * L.boxind + x).rstrip() for x in inner]
    want = strip_blank(inner) if kill else inner[L.pad['t']:len(inner) - L.pad['b']]
    if not strip_blank(rows):
        return                # not a box at all
    for end, p in ((0, 't'), (-1, 'b')):      # what lies outside of the frame is no part of the box
        if d.open[p] and (kill or L.pad[p] or body > len(L.lines)):
            for x in got, want:
                while x and not x[end]:
                    x.pop(end)
    if got != want:
        raise Fail('%s box:\n%s\nremoved: %r\nexpected: %r' % ('killing blank lines,' if kill else 'keeping,',
                                                             decode(r.out), got, want))


def manual_body(case):
    """a box whose body lines are given literally: frame parts may be missing"""
    di, lines, k = case
    d = DES[di]
    f = ['-f', config(d.cfg()), '-d', d.name]
    L = layout(d, 'xx\n', O())
    top = [''.join(x) for x in L.rows[:len(L.tops)]] if not d.open['t'] else []
    bot = [''.join(x) for x in L.rows[-len(L.bots):]] if not d.open['b'] else []
    lf = '' if d.open['l'] else L.rows[L.y0 + len(top)][1]
    rg = '' if d.open['r'] else L.rows[L.y0 + len(top)][3]
    body, want = [], []
    for text, hasl, hasr in lines:
        if hasl and lf:
            if not text.strip() and not hasr:
                body.append(lf)
            else:
                body.append(lf + ' ' * L.pad['l'] + text)
        else:
            body.append(text)
        if hasr and rg:
            body[-1] += '  ' + rg
        want.append(text.rstrip())
    padl = [lf + '  ' + rg]
    t = '\n'.join(x.rstrip() for x in top + padl * L.pad['t'] + body + padl * L.pad['b'] + bot) + '\n'
    if not any(x for x in want):
        return
    r = yield Run(f + ['-r'] + kargs(k), t.encode())
    check_rc(r)
    kill = KILL[k]
    if kill is None:
        kill = not (d.open['t'] and d.open['b'])
    got = split(decode(r.out))
    if kill:
        want = strip_blank(want)
        for end, p in ((0, 't'), (-1, 'b')):      # what lies outside of the frame is no part of the box
            while d.open[p] and got and not got[end]:
                got.pop(end)
    if got != want:
        raise Fail('box:\n%s\nremoved: %r\nexpected: %r' % (t, got, want))


DES = []


def spaces():
    DES.extend([
        closed(), closed('cp', padding={'h': 1}), west(), west('wpad', padding={'left': 2}),
        Design('north', {'N': '~'}), Design('south', {'S': '~'}),
        Design('tb', {'N': '=', 'S': '='}), Design('east', {'E': '%'}),
        Design('cmt', {'NW': '/*', 'N': '*', 'NE': '**', 'W': ' *', 'SW': ' *', 'S': '*', 'SE': '*/'},
               padding={'left': 1}),
        Design('two', {'NW': [' .', ' #'], 'N': ['-', '#'], 'NE': ['. ', '# '], 'W': ' #', 'E': '# ',
                       'SW': [' #', ' ,'], 'S': ['#', ' '], 'SE': ['# ', ', ']}),
        mixed(), Design('lr', {'W': '[', 'E': ']'}, padding={'h': 1}),
        Design('pads', {'NW': '.', 'N': '-', 'NE': '.', 'W': '|', 'E': '|', 'SW': "'", 'S': '-', 'SE': "'"},
               padding={'a': 1}),
        Design('esc', {'W': '\x1b[31m#\x1b[0m', 'E': '\x1b[31m#\x1b[0m', 'N': '#', 'S': '#'}),
        Design('wide', {'NW': '\u4e00', 'N': '\u4e8c', 'NE': '\u4e00', 'W': '\u4e09', 'E': '\u4e09',
                        'SW': '\u4e00', 'S': '\u4e8c', 'SE': '\u4e00'}, padding={'h': 1}),
    ])
    n = len(DES)
    ln = ['', 'a', '  bc', 'd  e', '   ']
    ln2 = ln + ['\u00e9\u4e16', '\tt', 'x\ty', '\x1b[1mz\x1b[0m']

    def texts(al, k):
        for j in range(1, k + 1):
            for x in itertools.product(al, repeat=j):
                yield '\n'.join(x) + '\n'
                if x[-1].strip() and j < 3:
                    yield '\n'.join(x)

    notab = [t for t in texts(ln2, 2) if '\t' not in t and '\x1b' not in t]
    used = set(shipped.text())
    pool = [chr(c) for c in range(0x3b1, 0x3c9) if chr(c) not in used][:6]
    a, b, c = pool[0], pool[1], pool[2]
    st = [a + '\n', '  %s%s\n%s\n' % (a, b, c), '%s %s\n\n  %s\n' % (a, b, c), '\n\n%s\n   %s%s%s\n\n' % (a, b, c, a),
          '%s%s' % (a * 30, b), '\n'.join(' ' * i + a * (i % 7 + 1) for i in range(12)) + '\n']
    def sizes():
        for n in ladder(pick(40, 140), pick(1100, 4200)):
            for i in (0, 2, 4, 6, 8, 10):
                for k in ('', '-k true', '-k false'):
                    yield i, 'x' * n + '\n' + ' ' * n + 'y\n', k
                    yield i, 'x y\n' * n, k
                    yield i, '\n' * n + 'x\n' + '\n' * n + ' y\n' + '\n' * n, k

    def bsizes():
        for n in ladder(pick(30, 140), pick(600, 2100)):
            for i in (0, 1, 3, 4, 8, 12):
                for k in ('', '-k true', '-k false'):
                    yield i, ('',) * n + ('x',) + ('',) * (n // 2) + (' y',) + ('',) * (n % 7), k, '', n % 2
                    yield i, ('x', ' y', '') * n + ('z',), k, '', n % 2
                    yield i, ('x' * n, '', ' ' * n + 'y'), k, 'v1', n % 2
                    if n < 300:
                        yield i, ('', 'x', ''), k, 'v%d' % n, 0

    return [
        Space('plain-sizes', sizes, plain_body, 'plain', 'lengths, indentations, numbers of lines and of blank lines'),
        Space('blank-sizes', bsizes, blank_body, 'plain', 'the same in boxes; sizes of padding'),
        Space('plain', lambda: itertools.product(range(n), texts(ln, pick(4, 5)), ['', '-k true', '-k false']),
              plain_body, 'plain', 'removal from texts without frame, up to %d lines' % pick(4, 5)),
        Space('plain-chars', lambda: itertools.product(range(n), notab, ['', '-k true', '-k false']), plain_body,
              'plain', 'the same with wide and multi-byte characters'),
        Space('plain-shipped', lambda: itertools.product([x for x in shipped.names() if x != 'headline'], st), shipped_plain_body, 'plain',
              'all designs of the shipped configuration, texts of characters that occur in none of them'),
        Space('blank', lambda: itertools.product(range(n), itertools.chain.from_iterable(
            itertools.product(['', 'x', ' y'], repeat=j) for j in range(1, pick(5, 7))), ['', '-k true', '-k false'],
            ['', 'v1', 'v2'], [0]), blank_body, 'plain',
            'all patterns of blank lines in a box of up to %d lines' % pick(4, 6)),
        Space('forms', lambda: itertools.product(range(n), [('x',), ('', 'x', ''), ('', '', 'x', '', ' y', ''), ('', '')],
                                                 list(KILL), ['', 'v1'], [0, 1]), blank_body, 'plain',
              'all forms of the option'),
        Space('manual', lambda: itertools.product(range(n), itertools.chain.from_iterable(
            itertools.product([(x, l, r) for x in ('', 'ab', '  c') for l in (0, 1) for r in (0, 1)], repeat=j)
            for j in range(1, pick(3, 4))), ['', '-k true', '-k false']), manual_body, 'plain',
            'boxes in which parts of the left and right side are missing'),
    ]
