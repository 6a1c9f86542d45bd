"""C12 removing a box restores the text that was put into it"""
from common import *
import re
import shipped


def norm(s, dedent=False):
    ls = [l.rstrip() for l in s.split('\n')]
    while ls and not ls[0]:
        ls.pop(0)
    while ls and not ls[-1]:
        ls.pop()
    if dedent:
        n = min((len(l) - len(l.lstrip(' ')) for l in ls if l), default=0)
        ls = [l[n:] for l in ls]
    return ls


def roundtrip(args, name, t, o, want=None, dedent=False, env=None):
    r = yield Run(args + ['-d', name] + o.args(), t.encode(), env=env)
    check_rc(r)
    p = ['-p', ''.join('%s%d' % x for x in o.pad)] if o.pad else []
    r2 = yield Run(args + ['-d', name, '-r'] + p, r.out, env=env)
    check_rc(r2)
    got = norm(decode(r2.out), dedent)
    exp = norm(t if want is None else want, dedent)
    if got != exp:
        raise Fail('box:\n%s\nremoved: %r\nexpected: %r' % (decode(r.out), got, exp))
    ls = decode(r2.out).split('\n')
    if r2.out and (t.endswith('\n') and ls[-1] or not t.endswith('\n') and not ls[-1] and
                   len(ls) == len(t.split('\n')) + 1):
        raise Fail('line terminator of the last line: %r' % r2.out)


def body(case):
    di, t, o = case
    d = DES[di]
    L = layout(d, t, o)
    if L.pad['l'] != L.fullpad['l']:
        return          # the padding gave way to the requested size
    mode = (o.indent or d.indent or 'b')[0]
    shift = o.align and 'hl' not in o.align or False
    yield from roundtrip(['-f', config(d.cfg())], d.name, t, o, None, mode == 'n' or bool(shift))


def shipped_body(case):
    name, t, o = case
    yield from roundtrip(['-f', core.REPO + '/boxes-config'], name, t, o, None, bool(o.align))


def nest_body(case):
    """draw boxes around boxes, then remove them one by one"""
    seq, t = case
    f = config('\n'.join(d.cfg() for d in NEST))
    stack = [t.encode()]
    for i in seq:
        r = yield Run(['-f', f, '-d', NEST[i].name], stack[-1])
        check_rc(r)
        stack.append(r.out)
    cur = stack.pop()
    for i in reversed(seq):
        r = yield Run(['-f', f, '-d', NEST[i].name, '-r'], cur)
        check_rc(r)
        cur = r.out
        want = stack.pop()
        if norm(decode(cur)) != norm(decode(want)):
            raise Fail('after removal of box %r: %r instead of %r' % (NEST[i].name, decode(cur), decode(want)))


def repeat_body(case):
    """draw and remove, again and again"""
    di, t, o = case
    d = DES[di]
    f = config(d.cfg())
    if o.pad and (d.open['t'] or d.open['b']):
        return          # blank lines outside of the frame are no part of the box
    cur = t.encode()
    first = None
    for _ in range(4):
        r = yield Run(['-f', f, '-d', d.name] + o.args(), cur)
        check_rc(r)
        if first is None:
            first = r.out
        elif r.out != first:
            raise Fail('the box changes:\n%s\n%s' % (decode(first), decode(r.out)))
        r = yield Run(['-f', f, '-d', d.name, '-r'] + (['-p', ''.join('%s%d' % x for x in o.pad)] if o.pad else []), r.out)
        check_rc(r)
        cur = r.out
    if norm(decode(cur)) != norm(t):
        raise Fail('%r becomes %r' % (t, decode(cur)))


def recolour_body(case):
    """the box was drawn without colours, and the text within was coloured afterwards, or vice versa"""
    di, t, how = case
    d = COL[di]
    f = config(d.cfg())
    r = yield Run(['-f', f, '-d', d.name, '--no-color' if how != 'strip' else '--color'], t.encode())
    check_rc(r)
    box = decode(r.out)
    if how == 'strip':
        box = core.strip_esc(box)
    elif how == 'word':
        box = re.sub('[a-z]+', lambda m: '\x1b[32m' + m.group() + '\x1b[0m', box)
    for a in ([], ['-d', d.name]):
        r2 = yield Run(['-f', f, '-r', '--color'] + a, box.encode())
        check_rc(r2)
        got = norm(core.strip_esc(decode(r2.out)))
        if got != norm(t):
            raise Fail('%s: box:\n%s\nremoved: %r\nexpected: %r' % (a, box, got, norm(t)))
        if how == 'word' and len(re.findall('\x1b.32m[a-z]+\x1b.0m', decode(r2.out))) != len(re.findall('[a-z]+', t)):
            raise Fail('%s: colours of the text have changed: %r' % (a, decode(r2.out)))


def surrounded_body(case):
    """white space at the ends of the lines of a box, and blank lines above and below it, make no difference"""
    ds, di, t, (above, below, w, every), op = case
    d = (COL if ds else DES)[di]
    f = config(d.cfg())
    r = yield Run(['-f', f, '-d', d.name, '--color'], t.encode())
    check_rc(r)
    ls = decode(r.out).removesuffix('\n').split('\n')
    ls = [' ' * w] * above + [l + ' ' * w if i % every == 0 else l for i, l in enumerate(ls)] + [' ' * w] * below
    res = []
    for a in ([], ['-d', d.name]) if ds else (['-d', d.name],):
        r2 = yield Run(['-f', f, op, '--color'] + a, ('\n'.join(ls) + '\n').encode())
        check_rc(r2)
        got = norm(core.strip_esc(decode(r2.out)))
        want = norm(t) if op == '-r' else norm(core.strip_esc(decode(r.out)))
        if got != want:
            raise Fail('%s %s: box:\n%s\nresult: %r\nexpected: %r' % (op, a, '\n'.join(ls), got, want))


def blank_body(case):
    """designs whose corners and horizontal shapes contain blanks at either end"""
    nw, n, ne, h, t, s, o = case
    d = Design('b', {'NW': [nw] * h, 'N': [n] * h, 'NE': [ne] * h, 'W': '|'.ljust(len(nw)), 'E': '|'.rjust(len(ne)),
                     'SW': '@'.ljust(len(nw)), 'S': '=', 'SE': '@'.ljust(len(ne))} if s == 't' else
               {'SW': [nw] * h, 'S': [n] * h, 'SE': [ne] * h, 'W': '|'.ljust(len(nw)), 'E': '|'.rjust(len(ne)),
                'NW': '@'.ljust(len(nw)), 'N': '=', 'NE': '@'.ljust(len(ne))})
    yield from roundtrip(['-f', config(d.cfg())], d.name, t, o)


COL = []
DES = []
NEST = []


def spaces():
    D = [d for d in std_designs() if d.name != 'corners']     # its left side is blank beside the text
    D += [Design('pads', {'NW': '.', 'N': '-', 'NE': '.', 'W': '|', 'E': '|', 'SW': "'", 'S': '-', 'SE': "'"},
                 padding={'left': 2, 'right': 1, 'top': 1, 'bottom': 2}),
          Design('ledge', {'NW': ['  .', '  #'], 'N': ['-', '#'], 'NE': ['. ', '# '], 'W': '  #', 'E': '# ',
                           'SW': ['  #', '  ,'], 'S': ['#', ' '], 'SE': ['# ', ', ']}, padding={'a': 1}),
          Design('inner', {'N': '= =', 'S': '= =', 'W': ':', 'E': ':'}, padding={'h': 1}),
          Design('esc', {'W': '\x1b[31m#\x1b[0m', 'E': '\x1b[31m#\x1b[0m'}, padding={'h': 1})]
    DES.extend(D)
    NEST.extend([closed('a'), Design('b', {'W': '#'}, padding={'left': 1}),
                 Design('c', {'NW': '/*', 'N': '*', 'NE': '**', 'W': ' *', 'SW': ' *', 'S': '*', 'SE': '*/'},
                        padding={'left': 1}),
                 Design('d', {'N': '~', 'S': '~'}), Design('e', {'NW': '<', 'N': '=', 'NE': '>', 'W': '!', 'E': '!',
                                                              'SW': '<', 'S': '=', 'SE': '>'}, padding={'a': 1})])
    ln = ['', 'a', ' bc', '  d', 'x y', '\u4e16e']

    def texts(n):
        for k in range(1, n + 1):
            for x in itertools.product(ln, repeat=k):
                if any(x):
                    yield '\n'.join(x) + '\n'
                    if k == 2:
                        yield '\n'.join(x)

    al = ['', 'hcvc', 'hrvb', 'hcvt', 'hlvc', 'hrvt', 'hlvb']
    opts = [O(a, s, p) for a in al for s in (None, (20, 9), (0, 12), (7, 0)) for p in ((), (('a', 1),), (('l', 3),
                                                                                      ('t', 2)))]
    names = shipped.names()
    few = [O(), O('hc'), O(size=(60, 30)), O('hrvb', (70, 30)), O(pad=(('a', 3),)), O('hcvc', (64, 40), (('h', 2),))]
    st = ['foo\nbarbaz\n', 'one\n\n  two\n     three\n', 'q\n', 'longer line of words that is wide\nk\n\nz\n']
    R, Z = '\x1b[31m', '\x1b[0m'
    base = {'NW': '/=', 'N': '=', 'NE': '=:', 'W': '[-', 'E': '-]', 'SW': '@_', 'S': '_', 'SE': '_%'}
    for n in (1, 2, 3, 8):
        for c in itertools.combinations(base, n):      # designs with any one, two, three or all shapes coloured
            COL.append(Design('c', {k: R + v + Z if k in c else v for k, v in base.items()}, padding={'h': 1}))
    def sizes():
        for n in ladder(pick(40, 140), pick(1100, 4200)):
            for i in (0, 1, 2, 6):
                yield i, 'x' * n + '\n', O()
                yield i, 'ab c\n' + ' ' * n + 'xy\n' * (n < 3000), O()
                yield i, ' ' * n + 'x\n' + ' ' * n + ' y\n', O()
                yield i, 'x ' * n + 'y\nb\n', O()
                yield i, 'a\n' + ' b c\n' * n, O()
                yield i, 'a\n' + '\n' * n + 'b\n', O()
                if n < 2000:
                    yield i, 'abc\nd\n', O('', (n, 0))
                    yield i, 'abc\nd\n', O('', (0, n))
                    yield i, 'abc\nd\n', O('hcvc', (n + 3, n % 50))
                if n < 600:
                    yield i, 'abc\nd\n', O(pad=(('l', n),))
                    yield i, 'abc\nd\n', O(pad=(('r', n),))
                    yield i, 'abc\nd\n', O(pad=(('t', n),))
                    yield i, 'abc\nd\n', O(pad=(('b', n),))

    return [
        Space('sizes', sizes, body, 'plain', 'lengths, indentations, numbers of words, lines and blank lines, sizes and '
              'paddings up to a bound and around round numbers'),
        Space('surrounded', lambda: itertools.chain(
            ((0, i, x, e, op) for i in range(len(D)) for x in ('ab\n', 'one two\n\n  x y\n', 'a\nb\nc\nd\n')
             for e in itertools.product((0, 1, 3), (0, 2), (0, 1, 5), (1, 2)) if e[:3] != (0, 0, 0)
             for op in (('-r',) if e[0] + e[1] else ('-r', '-m'))),
            ((1, i, x, e, op) for i in range(0, len(COL), pick(3, 1)) for x in ('ab\n', 'one two\n\n  x y\n')
             for e in ((0, 0, 1, 1), (0, 0, 7, 2)) for op in ('-r', '-m'))), surrounded_body, 'plain',
              'trailing white space and blank lines around boxes'),
        Space('blanks', lambda: itertools.product(('+', '+ ', '+    ', ' +', '  + '), ('-', '- ', ' -', ' '),
                                                  ('+', ' +', '   +', '+  ', '    '), (1, 2, 3), ('a\n', 'xyz u\n\n b\n'),
                                                  'tb', (O(), O(size=(20, 7)))), blank_body, 'plain',
              'designs with blanks at either end of their corners and horizontal shapes'),
        Space('recoloured', lambda: itertools.product(range(len(COL)), ('ab\n', 'one two\n\n  x y\n', 'a\nb\nc\nd\n'),
                                                      ('plain', 'strip', 'word')), recolour_body, 'plain',
              'partly coloured designs; boxes drawn without colours, stripped, or with text coloured afterwards'),
        Space('texts', lambda: itertools.product(range(len(D)), texts(pick(3, 4)), [O()]), body, 'plain',
              'all texts of up to %d lines x designs' % pick(3, 4)),
        Space('options', lambda: itertools.product(range(len(D)), list(texts(2))[::pick(3, 1)], opts), body, 'plain',
              'alignments x sizes x paddings'),
        Space('indent', lambda: itertools.product(range(len(D)), texts(2), [O(indent=i) for i in 'btn'] + [
            O('hc', indent='t'), O(size=(16, 6), indent='t')]), body, 'plain', 'indentation modes'),
        Space('shipped', lambda: ((n, t, o) for n, t, o in itertools.product(names, st, few)
                               if n != 'headline' or '  ' not in t), shipped_body, 'plain',
              'all designs of the shipped configuration x sizes, alignments, paddings'),
        Space('nesting', lambda: ((s, t) for n in range(1, pick(4, 5)) for s in itertools.product(range(5), repeat=n)
                                  if all(a != b for a, b in zip(s, s[1:]))
                                  for t in ('k\n', 'one\n\n  two\n', '  w x\n y\n')), nest_body, 'plain',
              'all sequences of up to %d nested boxes' % pick(3, 4)),
        Space('repeat', lambda: itertools.product(range(len(D)), [t for t in texts(2) if norm(t) == [
            l.rstrip() for l in t.removesuffix('\n').split('\n')]], [O(), O(pad=(('a', 1),))]),
              repeat_body, 'plain', 'four rounds of drawing and removing'),
    ]
