"""C07 tabs are expanded to tab stops and restored as requested"""
import re
from common import *
from model import expand

ASPECTS = ('tabs', 'indent', 'text', 'pos', 'rect')
AL = ['\t', ' ', 'a', '\u4e2d', '\u0301']


def removal(case):
    """With any restoration mode, the result of box removal occupies the same columns."""
    di, t, ts, mode = case
    d = DES[di]
    cfg = config(d.cfg())
    # a box whose indentation consists of the tabs of the original text
    r = yield Run(['-f', cfg, '-t', '%dk' % ts], t.encode())
    check_rc(r)
    box = r.out
    base = yield Run(['-f', cfg, '-r', '-d', d.name, '-t', '%de' % ts], box)
    check_rc(base)
    r2 = yield Run(['-f', cfg, '-r', '-d', d.name, '-t', '%d%s' % (ts, mode)], box)
    check_rc(r2)
    a, b = decode(base.out), decode(r2.out)
    if '\t' in a:
        raise Fail('tab in the output of mode e: %r' % a)
    if expand_all(b, ts) != a:
        raise Fail('mode %s shifts the text: %r expands to %r, but should be %r' % (mode, b, expand_all(b, ts), a))
    for x, y in zip(a.split('\n'), b.split('\n')):
        if not x.strip():
            continue
        body = y.lstrip(' \t')
        if '\t' in body:
            raise Fail('tab inside the text: %r' % y)
        if mode == 'u':
            n = len(x) - len(x.lstrip(' '))
            if y[:len(y) - len(body)] != '\t' * (n // ts) + ' ' * (n % ts):
                raise Fail('not as many tabs as possible: %r for %d columns' % (y, n))


def roundtrip(case):
    """mode k on drawing and on removal brings the original indentation back"""
    t, ts, di = case
    d = DES[di]
    cfg = config(d.cfg())
    r = yield Run(['-f', cfg, '-t', '%dk' % ts], t.encode())
    check_rc(r)
    r2 = yield Run(['-f', cfg, '-r', '-d', d.name, '-t', '%dk' % ts], r.out)
    check_rc(r2)
    got, want = decode(r2.out), t
    lines = t.split('\n')[:-1]
    ind = {re.match(r'[\t ]*', l).group() for l in lines}
    if len(ind) == 1 and got != want:
        raise Fail('expected %r, got %r' % (want, got))


def expand_all(s, ts):
    return '\n'.join(expand(l, ts)[0] for l in s.split('\n'))


def default_unit(case):
    """-t N alone means mode e, and no -t means 8e"""
    t, a, b, rm = case
    d = DES[0]
    base = ['-f', config(d.cfg())] + (['-r', '-d', d.name] if rm else [])
    r1 = yield Run(base + a, t.encode())
    r2 = yield Run(base + b, t.encode())
    check_rc(r1)
    if r1 != r2:
        raise Fail('%r and %r differ' % (a, b))


DES = []


def spaces():
    D = [closed(), west(padding={'left': 1}), mixed()]
    DES.extend(D)
    stops = pick((1, 2, 3, 4, 8), range(1, 17))
    ind = ['', '\t', '\t\t', ' \t', '   \t', '\t \t', '  ', '\t   ', '     ', ' \t \t ']

    def indents():
        for x in itertools.product(ind, repeat=2):
            yield '%sab\n%sc\td\n' % x

    def all_opts(ts):
        return [O(tabs='%d%s' % (n, m)) for n in ts for m in 'euk']

    lens = ladder(pick(70, 300), 2100)

    def sizes():
        for n in lens:
            yield 'x' * n + '\ty\n'
            yield '\t' * n + 'y\n\t\tz\n'
            yield 'a\t' * n + '\nb\n'
            if n < 600:
                yield '\tx\n' * n + ' \ty\n'

    return [
        draw_space('sizes', D[:1], sizes, all_opts((3, 8)), ASPECTS, 'tabs at every column up to a bound and around '
                   'round numbers, as many tabs in a line, and as many lines with tabs'),
        draw_space('texts', D[:1], lambda: (x + '\n' for x in strings(AL, pick(4, 5))), all_opts(stops), ASPECTS,
                   'all lines over {tab, blank, narrow, wide, combining} up to length %d x tab stops x modes' %
                   pick(4, 5)),
        draw_space('indents', D, indents, all_opts(pick((1, 2, 3, 4, 5, 8, 16), range(1, 17))), ASPECTS,
                   'all pairs of indentations made of tabs and blanks'),
        draw_space('align', D, lambda: list(indents())[::3], [O('c', (30, 6), (), i, tabs='%d%s' % (n, m))
                                                             for n in (3, 8) for m in 'uk' for i in (None, 't', 'n')],
                   ASPECTS, 'with alignment, size and indentation modes'),
        draw_space('blank', D[:1], lambda: ('%s\n%s\n%s\n' % x for x in itertools.product(
            ['', '\t', '\t\tx', '\t\t', ' \ty'], repeat=3)), all_opts((4, 8)), ASPECTS, 'blank lines with tabs'),
        Space('removal', lambda: itertools.product(range(3), indents(), pick((1, 3, 4, 8), range(1, 17)), 'uk'),
              removal, 'plain', 'box removal in modes u and k against mode e'),
        Space('roundtrip', lambda: ((i + 'ab\n' + i + 'c\n', ts, d) for i in strings(['\t', ' '], pick(5, 7))
                                    for ts in pick((1, 2, 4, 8), range(1, 17)) for d in range(3)), roundtrip, 'plain',
              'drawing and removal in mode k restores the indentation byte by byte'),
        draw_space('escapes', [closed()], lambda: ('a%s\t%sb\n' % (x, y) for x in ESCS for y in ESCS),
                   all_opts((4, 8)), ('text', 'rect', 'tabs'), 'tabs after escape sequences'),
        draw_space('stops', D[:2], ['\ta\tb\n\t\t c\n', 'x\ty\n', '\t\n a\n'],
                   [O(tabs='%d%s' % (n, m)) for n in range(1, 17) for m in 'euk'], ASPECTS, 'every permitted tab distance'),
        Space('forms', lambda: ((t, a, b, rm) for t in ('\ta\n\tb\tc\n', 'a\tb\n') for rm in (0, 1) for a, b in (
            ([], ['-t', '8']), ([], ['-t', '8e']), (['-t', '4'], ['-t', '4e']),
            (['-t', '1'], ['-t', '1e']), (['--tabs', '5'], ['-t', '5e']))), default_unit, 'plain', 'short forms of -t'),
    ]


ESCS = ('', '\x1b[31m', '\x1b[0m', '\x1b(B', '\x1bM')
