"""C02 every drawn box is rectangular in display columns"""
from common import *

ASPECTS = ('rect',)
ESC = '\x1b[31m'


def wide_designs():
    return [
        closed(),
        Design('fullwidth', {'NW': '\u4e00', 'N': '\u4e8c', 'NE': '\u4e00', 'W': '\u4e09', 'E': '\u4e09',
                             'SW': '\u4e00', 'S': '\u4e8c', 'SE': '\u4e00'}),
        Design('halfwide', {'NW': '+', 'N': '\u4e8c', 'NE': '+', 'W': '|', 'E': '|', 'SW': '+', 'S': '=', 'SE': '+'},
               padding={'h': 1}),
        Design('combining', {'NW': 'o\u0308', 'N': '-', 'NE': 'o\u0308', 'W': 'I\u0301', 'E': 'I\u0301',
                             'SW': 'o\u0308', 'S': '=\u0302', 'SE': 'o\u0308'}),
        Design('coloured', {'NW': '\x1b[32m+', 'N': '-', 'NE': '+\x1b[0m', 'W': '\x1b[1m|\x1b[0m',
                            'E': '\x1b[4m|\x1b[0m', 'SW': '+', 'S': '\x1b[7m=\x1b[27m', 'SE': '+'}),
        Design('eastblank', {'E': [' |', ' |'], 'W': ['| ', '||'], 'NE': '_.', 'SE': "_'", 'N': '_', 'S': '_'}),
    ]


def spaces():
    D = wide_designs()
    al = ['a', ' ', '\u4e2d', '\u0301', '\n']
    esc = ['a', ' ', '\u4e2d', ESC, '\n']
    opts = [O(), O('c', (9, 5)), O('hr', (8, 0)), O('jr', None, (('h', 2),))]

    def body(c):
        i, t, o = c
        yield from draw(D[i], t, o, ASPECTS, extra=['--color'] if D[i].name == 'coloured' or '\x1b' in t else [])

    def sp(name, alphabet, n, what, ds, os):
        return Space(name, lambda: itertools.product(ds, strings(alphabet, n, 1), os), body, 'plain', what)

    lens = ladder(pick(70, 330), 8000)

    def sizes():
        for n in lens:
            for ch in ('\u4e2d', 'a\u0301', ESC + 'a' + '\x1b[0m'):
                yield 0, 'x' * n + ch + 'x\nb\n'
                if n < 2000:
                    yield 0, ch * n + '\nb\n'
                    yield 1, 'x' * n + '\n' + ch + '\n'
            if n < 4100:
                yield 1, 'a\n' * n + '\u4e2d\n'

    return [
        Space('sizes', sizes, lambda c: draw(D[c[0]], c[1], O(), ASPECTS), 'plain',
              'wide and combining characters and escape sequences at every column up to a bound and around round numbers, '
              'as many of them, and as many lines'),
        sp('widths', al, pick(5, 6), 'all texts over {narrow, blank, wide, combining, newline} up to length %d x 6 '
           'designs' % pick(5, 6), range(6), opts[:1]),
        sp('escapes', esc, pick(4, 6), 'all texts over {narrow, blank, wide, escape sequence, newline}', range(6),
           opts[:1]),
        sp('placed', ['a', ' ', '\u4e2d', '\n'], pick(4, 5), 'alignment, size and padding', range(6), opts[1:]),
        Space('shapewidths', lambda: ((a, b, c, d, t) for a in SH for b in SH for c in SH for d in SH
                                      for t in pick(('a\n', '\u4e2d\nbb b\n'), ('a\n', '\u4e2d\nbb b\n', 'abcd\n'))),
              shape_body, 'plain', 'all combinations of narrow, wide, multi-character shapes on the four sides'),
        draw_space('characters', [closed()], lambda: (t for c in every_char() for t in ('a%sb\nx\n' % c,)), [O()],
                   ASPECTS, 'every assigned character of the listed blocks: its width must agree with the width tables '
                   'of libunistring'),
    ]


SH = ('x', '\u4e2d', 'x\u0301', 'xy', '\u4e2dx', '\u3000x', ' x')


def shape_body(c):
    n, s, w, e, t = c
    d = Design('s', {'N': n, 'S': s, 'W': w, 'E': e, 'NE': 'O' * core.width(e), 'SE': 'O' * core.width(e)})
    yield from draw(d, t, O(), ASPECTS)


def every_char():
    import unicodedata
    blocks = [(0xa1, 0x1200), (0x1e00, 0x2000), (0x2010, 0x2028), (0x2030, 0x205f), (0x20a0, 0x2c00), (0x2e80, 0x3000),
              (0x3001, 0x3400), (0xa000, 0xa0a0), (0xf900, 0xfa00), (0xfe30, 0xfe70), (0xff01, 0xfff0),
              (0x1f000, 0x1fa00)]
    for a, b in blocks:
        for c in range(a, b, pick(5, 1)):
            ch = chr(c)
            if unicodedata.category(ch) in ('Cn', 'Cc', 'Cs', 'Co', 'Zs', 'Zl', 'Zp', 'Cf'):
                continue
            yield ch
