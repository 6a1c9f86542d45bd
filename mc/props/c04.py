"""C04 requested box size and padding are honoured"""
from common import *

ASPECTS = ('size', 'pos', 'text')


def designs():
    return [closed(), mixed(), west(padding={'left': 1}), Design('e2', {'E': '<<'}, padding={'all': 2}),
            Design('tb', {'N': '=', 'S': '--'}, padding={'v': 1, 'left': 2}),
            Design('south', {'S': '-', 'SE': '+', 'E': '|'}, padding={'all': 1, 'right': 3}),
            Design('w3', {'W': '###', 'N': ['==='], 'NW': '/==', 'SW': '\\__', 'S': '_'}),
            Design('n3', {'N': ['-', '=', '~'], 'E': '>>>>', 'W': '<', 'NE': ['----', '   >', '>>>>'], 'NW': ['-', '<', '<']}),
            Design('s2', {'S': ['-', '='], 'W': '<<<', 'SW': ['<--', '\\==']})]


def padspecs(n, vals):
    one = [(k, v) for k in 'ahvtrbl' for v in vals]
    for m in range(1, n + 1):
        yield from itertools.product(one, repeat=m)


def words_body(case):
    """the notations of -p and -s: long area names, abbreviations, sizes with and without x"""
    kind, w, n, d = case
    d = DES[d]
    t = 'ab\n\nc\n'
    if kind == 'p':
        r = yield Run(['-f', config(d.cfg()), '-p', '%s%d' % (w, n)], t.encode())
        judge(d, t, O(pad=((w[0], n),)), r, ASPECTS)
    elif kind == 'pcfg':
        p = dict(d.pad)
        p[w] = n
        d = Design(d.name, d.user, d.elastic, p)
        r = yield Run(['-f', config(d.cfg())], t.encode())
        judge(d, t, O(), r, ASPECTS)
    else:
        r = yield Run(['-f', config(d.cfg()), '-s', w], t.encode())
        a, _, b = w.partition('x')
        judge(d, t, O(size=(int(a or 0), int(b or 0))), r, ASPECTS)


AREAS = ('all', 'horizontal', 'vertical', 'top', 'right', 'bottom', 'left')
DES = []


def spaces():
    D = designs()
    DES.extend(D)
    sizes = [None] + [(w, h) for w in range(0, pick(13, 20)) for h in range(0, pick(8, 12)) if w or h]
    pads = [(), (('a', 0),), (('a', 1),), (('h', 3),), (('v', 2),), (('l', 2), ('t', 1)), (('r', 4), ('b', 1))]
    texts = ['x\n', 'abc\n\nde\n', '\n', '  ab\n c\n'] + pick([], ['abcdefghij\n' * 6, 'a\nb\nc\nd\n'])
    sp = [
        draw_space('sizes', D, texts, [O(size=s, pad=p) for s in sizes for p in pick(pads[:5:2] + pads[5:], pads)],
                   ASPECTS, 'all sizes x paddings x designs (open and closed) x texts'),
        draw_space('paddings', D, ['abc\n\nde\n'], [O(pad=p) for p in padspecs(pick(2, 3), (0, 1, 3))], ASPECTS,
                   'all sequences of padding components up to length %d' % pick(2, 3)),
        draw_space('squeeze', D, ['abc\nde\n'],
                   [O(size=s, pad=p) for s in [(w, h) for w in pick((6, 9, 12), range(3, 16)) for h in
                                               pick((0, 4, 6), range(0, 9))]
                    for p in padspecs(2, (0, 2))], ASPECTS, 'padding which does not fit into the requested size'),
        draw_space('aligned', D, ['abc\n\nde\n', '  x\n'],
                   [O(a, s, p) for a in ('c', 'r', 'hcvb', 'hrvcjl') for s in sizes[::3] for p in pads[::2]],
                   ASPECTS, 'sizes and paddings of aligned text'),
        Space('notations', lambda: itertools.chain(
            ((k, a[:n], v, d) for k in ('p', 'pcfg') for a in AREAS for n in range(1, len(a) + 1) for v in (0, 2, 5)
             for d in range(len(D)) if (k == 'pcfg' or n == 1) and a[:n] != 'to'),   # ("to" is a keyword)
            (('s', s, 0, d) for s in ('9', 'x7', '9x7', '1', 'x1', '200', 'x90', '120x30', '2x2') for d in range(len(D)))),
            words_body, 'plain', 'every abbreviation of every padding area in the configuration, forms of sizes'),
        draw_space('large', D[:3], ['abc\nde\n'],
                   [O(size=s, pad=p) for s in [(n, 0) for n in range(1, pick(260, 1200))] + [(0, n) for n in
                                                                                            range(1, pick(260, 600))]
                    for p in ((), (('a', 7),))] + [O(pad=((k, n),)) for n in range(pick(100, 400)) for k in 'ahvtrbl'],
                   ASPECTS, 'every width, height and padding up to a bound'),
    ]
    return sp
