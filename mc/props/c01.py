"""C01 drawing a box never changes, drops, adds or reorders text"""
from common import *

ASPECTS = ('text',)


def ladder_body(case):
    kind, n, d = case
    d = DES[d]
    if kind == 'lines':
        text = ''.join('%s\n' % ('' if i % 7 == 3 else 'l%d' % i) for i in range(n))
    elif kind == 'length':
        text = 'x\n' + ''.join(chr(97 + i % 26) for i in range(n)) + '\ny\n'
    elif kind == 'wide':
        text = '\u4e2d\u3042' * (n // 2) + 'z' * (n % 2) + '\nq\n'
    elif kind == 'words':
        text = ' '.join('w%d' % i for i in range(n)) + '\n'
    elif kind == 'gap':
        text = 'a' + ' ' * n + 'b\n\n\nc\n'
    else:
        text = 'a\n' + '\n' * n + 'b\n'
    yield from draw(d, text, O(), ASPECTS)


DES = []


def spaces():
    DES.extend([closed(), west(padding={'left': 1}), mixed()])
    std = std_designs()
    o0 = [O()]
    sp = [
        draw_space('alphabet', [std[0]], lambda: strings(['a', 'b', ' ', '\u4e2d', 'e\u0301', '\n'], pick(5, 6)), o0,
                   ASPECTS, 'all texts over {a, b, blank, wide, combining, newline} up to length %d' % pick(5, 6)),
        draw_space('designs', std[1:], lambda: strings(['a', ' ', '\u4e2d', '\n'], pick(5, 6)), o0, ASPECTS,
                   'all texts over {a, blank, wide, newline} up to length %d x %d designs' % (pick(5, 6), len(std) - 1)),
        draw_space('characters', [std[0], std[2]],
                   lambda: (t for c in chars() for t in (c + '\n', 'a' + c + 'b\nc\n', ' ' + c + ' \n\n' + c)),
                   o0, ASPECTS, 'every printable character of the listed Unicode blocks at line start, middle and end'),
        draw_space('options', [std[0], std[2], std[9], std[4]],
                   lambda: (''.join(x) for x in itertools.product(['', 'a', '  bb', ' c d '], repeat=pick(3, 4))
                            for x in ['\n'.join(x) + '\n']),
                   [O(a, s, p, i) for a in ('', 'c', 'hrvb', 'jr') for s in (None, (12, 9), (3, 2))
                    for p in ((), (('a', 2),)) for i in (None, 't', 'n')],
                   ASPECTS, 'all line patterns x alignment, size, padding and indentation options'),
    ]
    lens = ladder(pick(330, 1100), 16382, 0)

    def ladders():
        for n in lens:
            for kind in ('lines', 'length', 'wide', 'words', 'gap', 'blank'):
                if kind == 'words' and n > 2500 or kind == 'wide' and n > 5000 or kind in ('lines', 'blank') and n > 4200:
                    continue
                for d in range(3) if n < 1100 else [0]:
                    if kind == 'lines' and n == 0:
                        continue
                    yield kind, n, d
    sp.append(Space('ladders', ladders, ladder_body, 'plain',
                    'number of lines, line lengths, numbers of words, gaps and blank lines, each size once'))
    return sp


def chars():
    import unicodedata
    for a, b in ((0x21, 0x7f), (0xa1, 0x250), (0x370, 0x530), (0x5d0, 0x5eb), (0x2010, 0x2028), (0x2030, 0x205f),
                 (0x20a0, 0x20c1), (0x2190, 0x2200), (0x2500, 0x2600), (0x3041, 0x3097), (0x30a1, 0x3100),
                 (0x4e00, 0x4e20), (0xac00, 0xac20), (0xff01, 0xffe0), (0x1f300, 0x1f340), (0x1f600, 0x1f650),
                 (0x20000, 0x20010)):
        for c in range(a, b):
            ch = chr(c)
            if ch in '+-|#' or unicodedata.category(ch) in ('Cn', 'Cc', 'Cs', 'Co', 'Zs', 'Zl', 'Zp', 'Mn', 'Cf'):
                continue
            yield ch
