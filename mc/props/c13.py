"""C13 box removal detects the design when designs are distinguishable"""
from common import *
from c12 import norm
import re

POOL = []


def detect_body(case):
    """every set and order of designs with disjoint frames: with and without -d the result is the same"""
    seq, i, t, op = case
    f = config('\n'.join(POOL[k].cfg() for k in seq))
    d = POOL[seq[i]]
    r = yield Run(['-f', f, '-d', d.name, '--color'], t.encode())
    check_rc(r)
    box = r.out
    for b, c in ((box, '--color'), (core.strip_esc(decode(box)).encode(), '--no-color')):
        if b == box and c == '--no-color':
            continue
        r1 = yield Run(['-f', f, '-d', d.name, op, c], b)
        r2 = yield Run(['-f', f, op, c], b)
        check_rc(r1)
        check_rc(r2)
        if r1.out != r2.out:
            raise Fail('%s of a box of design %s\n%s\nwith -d:\n%s\nwithout:\n%s' % (op, d.name, decode(b), decode(r1.out),
                                                                                 decode(r2.out)))
    if op == '-r' and d.name != 'cor' and norm(decode(r2.out)) != norm(t):
        raise Fail('removal yields %r instead of %r' % (decode(r2.out), t))


def trailing_body(case):
    """white space at line ends, and colours which were added to the text, do not hinder the detection"""
    i, t, w, every, colour, op = case
    f = config('\n'.join(POOL[k].cfg() for k in range(len(POOL))))
    d = POOL[i]
    r = yield Run(['-f', f, '-d', d.name, '--color', '-s', '20'], t.encode())
    check_rc(r)
    s = decode(r.out)
    if colour == 'strip':
        s = core.strip_esc(s)
    elif colour == 'word':
        s = re.sub('[a-z]{2,}', lambda m: '\x1b[32m' + m.group() + '\x1b[0m', s)
    elif colour == 'line':
        s = re.sub('(?m)^(.+)$', '\x1b[1m\\1\x1b[0m', s)
    box = ''.join(l + ' ' * w + '\n' if k % every == 0 else l + '\n' for k, l in enumerate(s.removesuffix('\n').split('\n')))
    r1 = yield Run(['-f', f, '-d', d.name, op, '--color'], box.encode())
    r2 = yield Run(['-f', f, op, '--color'], box.encode())
    check_rc(r1)
    if r1 != r2:
        raise Fail('%s of\n%s\nwith -d:\n%s\nwithout:\n%s %s' % (op, box, decode(r1.out), decode(r2.out), decode(r2.err)))


def none_body(case):
    seq, t, op = case
    f = config('\n'.join(POOL[k].cfg() for k in seq))
    r = yield Run(['-f', f, op], t.encode())
    check_rc(r, 1)
    if r.out or not r.err:
        raise Fail('no design matches, but output is %r, messages %r' % (r.out, r.err))


def outfile_body(case):
    seq, t, op = case
    f = config('\n'.join(POOL[k].cfg() for k in seq))
    w = core.CTX.fresh_dir()
    with open(w + '/in', 'w') as o:
        o.write(t)
    with open(w + '/out', 'w') as o:
        o.write('before')
    r = yield Run(['-f', f, op, w + '/in', w + '/out'], b'')
    check_rc(r, 1)
    got = open(w + '/out').read()
    if got:
        if got != 'before':
            raise Fail('output file contains %r' % got)


def opts_body(case):
    """detection works for boxes drawn with any size, padding, alignment and indentation"""
    seq, i, t, o = case
    f = config('\n'.join(POOL[k].cfg() for k in seq))
    d = POOL[seq[i]]
    r = yield Run(['-f', f, '-d', d.name] + o.args(), t.encode())
    check_rc(r)
    for a in (['-r'], ['-m'], ['-m'] + o.args()):
        r1 = yield Run(['-f', f, '-d', d.name] + a, r.out)
        r2 = yield Run(['-f', f] + a, r.out)
        check_rc(r1)
        if r1 != r2:
            raise Fail('%s of\n%s\nwith -d:\n%s\nwithout:\n%s' % (a, decode(r.out), decode(r1.out), decode(r2.out)))


def single_body(case):
    """a design with only one visible shape beside another one with a complete frame"""
    n, w, h, h2, order, t, op = case
    sh = {n: block(w, h, 2)}
    if n in CORNERS:
        sh[OPP[n]] = [' ' * w] * h2
    d = Design('one', sh, elastic=[n if n in s[1:4] else s[2] for s in (NORTH, SOUTH, WEST, EAST)])
    other = closed('other')
    f = config('\n'.join(x.cfg() for x in ((d, other) if order else (other, d))))
    r = yield Run(['-f', f, '-d', 'one', '-s', '20'], t.encode())     # (elastic shapes must occur twice to be recognised)
    check_rc(r)
    r1 = yield Run(['-f', f, '-d', 'one', op], r.out)
    r2 = yield Run(['-f', f, op], r.out)
    check_rc(r1)
    if r1 != r2:
        raise Fail('%s of a box of design %s\n%s\nwith -d:\n%s\nwithout:\n%s %s' % (op, d.cfg(), decode(r.out), decode(r1.out),
                                                                                 decode(r2.out), r2.err))


OPP = {'NW': 'SW', 'SW': 'NW', 'NE': 'SE', 'SE': 'NE'}


def two_body(case):
    """designs with two visible shapes, with blanks within them, and blank shapes of another height opposite of corners"""
    a, b, pa, pb, h, order, t, op = case
    sh = {a: [pa.replace('X', 'A')], b: [pb.replace('X', 'B')]}
    for n in (a, b):
        for m in (a, b):
            if n != m and any(n in s and m in s for s in (WEST, EAST)):
                k = max(len(sh[n][0]), len(sh[m][0]))
                sh[n], sh[m] = [sh[n][0].ljust(k)], [sh[m][0].ljust(k)]
    for n in (a, b):
        o = OPP.get(n)
        if o and o not in sh and h > 1 and not any(x in sh for x in (NORTH if o in NORTH else SOUTH)):
            sh[o] = [' ' * len(sh[n][0])] * h
    el = []
    for s in (NORTH, SOUTH, WEST, EAST):
        c = [n for n in s[1:4] if n in sh]
        el.append(s[2] if s[2] in c or not c else c[0])
    d = Design('one', sh, elastic=el)
    if d.open['l'] and d.open['r'] and d.open['t'] and d.open['b']:
        return
    other = closed('other')
    f = config('\n'.join(x.cfg() for x in ((d, other) if order else (other, d))))
    r = yield Run(['-f', f, '-d', 'one', '-s', '20'], t.encode())
    check_rc(r)
    r1 = yield Run(['-f', f, '-d', 'one', op], r.out)
    r2 = yield Run(['-f', f, op], r.out)
    check_rc(r1)
    if r1 != r2:
        raise Fail('%s of a box of design %s\n%s\nwith -d:\n%s\nwithout:\n%s %s' % (op, d.cfg(), decode(r.out), decode(r1.out),
                                                                                 decode(r2.out), r2.err))


def spaces():
    POOL.extend([
        Design('plus', {'NW': '+', 'N': '-', 'NE': '+', 'E': '|', 'SE': '+', 'S': '-', 'SW': '+', 'W': '|'}),
        Design('hash', {'W': '#'}, padding={'left': 1}),
        Design('cmt', {'NW': '/*', 'N': '*', 'NE': '**', 'W': ' *', 'SW': ' *', 'S': '*', 'SE': '*/'}, padding={'left': 1}),
        Design('top', {'N': '~'}),
        Design('bot', {'S': '='}),
        Design('two', {'NW': '<<', 'N': '"', 'NE': '>>', 'W': ['( ', ' ('], 'E': [' )', ') '], 'SW': '<<', 'S': '"',
                       'SE': '>>'}, padding={'h': 1, 't': 1}),
        Design('right', {'E': ['%', '$']}),
        Design('red', {'NW': '\x1b[31m@', 'N': '@', 'NE': '@\x1b[0m', 'W': '\x1b[31m@\x1b[0m', 'E': '\x1b[31m@\x1b[0m',
                       'SW': '\x1b[31m@', 'S': '@', 'SE': '@\x1b[0m'}),
        Design('wide', {'NW': '\u4e00', 'N': '\u4e8c', 'NE': '\u4e00', 'W': '\u4e09', 'E': '\u4e09', 'SW': '\u4e00',
                        'S': '\u4e8c', 'SE': '\u4e00'}),
        Design('sides', {'W': '[', 'E': ']'}),
        Design('frame', {'N': ['^', '_'], 'NW': [' .', '. '], 'NE': ['; ', ' ;'], 'S': ['_', '&'], 'SW': ["`:", '`.'],
                         'SE': ["'`", "`'"], 'W': '{ ', 'E': ' }'}, padding={'a': 1}),
        Design('cor', {'NW': '\\', 'NE': '?', 'SW': '!', 'SE': '9'}),
    ])
    n = len(POOL)
    texts = ['abc def\ng\n', ' abc\n  de\n\n f\n', 'long line of words\nab\nab\nab\n']
    allidx = range(n)
    def sizes():
        for n in ladder(pick(30, 140), pick(600, 2100)):
            for i in allidx:
                for k, x in enumerate(('x' * n + '\n', 'ab\n' * n, 'a\n' + '\n' * n + 'b\n', ' ' * n + 'ab\n' + ' ' * n + 'c\n')):
                    yield i, x, 0, 1, '', '-r' if (n + k) % 3 else '-m'
                    if POOL[i].name == 'red':
                        yield i, x, 1, 1, 'strip', '-r' if (n + k) % 3 else '-m'

    return [
        Space('sizes', sizes, trailing_body, 'plain', 'lengths, indentations, numbers of lines and blank lines'),
        Space('single', lambda: ((n, w, h, x, *r) for n in ALL for w, h in itertools.product((1, 2, 3), repeat=2)
                                   for x in ((1, 2, 3) if n in CORNERS else (1,)) for r in itertools.product((0, 1), texts, ('-r', '-m'))), single_body, 'plain',
              'designs with a single visible shape of any size'),
        Space('two', lambda: ((a, b, x, y, h, o, t, op) for a, b in itertools.combinations(ALL, 2) for x in ('X', 'X ', ' X', ' X ')
                              for y in ('X', 'X ', ' X', ' X ')[:pick(3, 4)] for h in (1, 3) for o in (0, 1) for t in texts[:1]
                              for op in ('-r', '-m')), two_body, 'plain', 'designs with two visible shapes'),
        Space('pairs', lambda: ((s, i, t, op) for s in itertools.permutations(allidx, 2) for i in (0, 1)
                                for t in texts + ['ab\ncd', 'abc\n'] for op in ('-r', '-m')
                                if not (t == 'abc\n' and POOL[s[i]].name in ('cor',))), detect_body, 'plain',
              'all ordered pairs of %d designs, without and with colours' % n),
        Space('all', lambda: ((s, i, t, op) for k in range(n)
                              for s in (tuple(allidx)[k:] + tuple(allidx)[:k], tuple(reversed(allidx)))
                              for i in range(n) for t in texts for op in ('-r', '-m')), detect_body, 'plain',
              'configurations with all designs, every rotation'),
        Space('triples', lambda: ((s, i, t, op) for s in itertools.permutations(allidx, 3) for i in range(3)
                                  for t in texts[:pick(1, 3)] for op in ('-r', '-m')[:pick(1, 2)]), detect_body,
              'plain', 'all ordered triples of designs'),
        Space('options', lambda: ((tuple(allidx), i, t, o) for i in range(n) for t in texts
                                  for o in (O('hcvc', (40, 15)), O('hrvb', (30, 11)), O(pad=(('a', 2),)),
                                            O(size=(25, 0)), O(indent='n'), O(indent='t'), O('r'))), opts_body,
              'plain', 'sizes, paddings, alignments'),
        Space('trailing', lambda: itertools.product(range(n), texts, (0, 1, 4), (1, 2), ('', 'strip', 'word', 'line'), ('-r', '-m')),
              trailing_body, 'plain', 'trailing white space and colours added to a box'),
        Space('none', lambda: ((s, t, op) for k in (1, 2, 3) for s in itertools.combinations(allidx, k)
                               for t in ('abc\n', 'a b\n  c\nde\n', '12\n34\n56\n78\n', ' x\n\n y\n') for op in ('-r', '-m')),
              none_body, 'plain', 'no design matches'),
        Space('none-outfile', lambda: ((s, t, op) for s in itertools.combinations(allidx, 2) for t in ('abc\nd\n',)
                                       for op in ('-r', '-m')), outfile_body, 'plain',
              'no design matches: nothing is written to the output file'),
    ]
