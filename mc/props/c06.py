"""C06 indentation is applied to the box, to the text, or dropped"""
from common import *

ASPECTS = ('indent', 'pos', 'text')
LEAD = ['', 'a', ' a', '  b b', '   c', '\td', '\u3000e', ' \u3000f', ' \u3000', '  ', '\t', '\u0301']


def removal(case):
    """the indentation is there again when the box is removed"""
    di, t, mode = case
    d = DES[di]
    o = O(indent=mode)
    r = yield Run(['-f', config(d.cfg())] + o.args(), t.encode())
    check_rc(r)
    r2 = yield Run(['-f', config(d.cfg()), '-r', '-d', d.name], r.out)
    check_rc(r2)
    L = layout(d, t, o)
    m = (mode or d.indent or 'b')[0]
    want = [l for l in L.text.lines]
    if m == 'n':
        want = [l[L.text.indent:] for l in want]
    got = [x.rstrip() for x in decode(r2.out).split('\n')]
    if strip_blank(got) != strip_blank(want):
        raise Fail('after removal of the box the text is %r instead of %r' % (got[:8], want[:8]))


def strip_blank(ls):
    ls = list(ls)
    while ls and not ls[0].strip():
        ls.pop(0)
    while ls and not ls[-1].strip():
        ls.pop()
    return ls


DES = []


def spaces():
    D = [closed(indent=i) for i in (None, 'box', 'text', 'none')] + \
        [west(padding={'left': 1}, indent=i) for i in (None, 'text')] + [mixed()]
    DES.extend(D)

    def texts():
        for n in (1, 2, pick(2, 3)):
            for x in itertools.product(LEAD, repeat=n):
                yield '\n'.join(x) + '\n'

    def texts3():
        for x in itertools.product(LEAD[:5] + ['\t'], repeat=3):
            yield '\n'.join(x) + '\n'

    def rtexts():
        for x in itertools.product(LEAD[:6], repeat=pick(2, 3)):
            t = '\n'.join(x) + '\n'
            if t.strip():
                yield t

    return [
        draw_space('modes', D, texts, [O(indent=i) for i in (None, 'b', 't', 'n')], ASPECTS,
                   'all leading white space patterns of up to %d lines x modes in design and command line' % pick(2, 3)),
        draw_space('three', D[:1] + D[2:3], texts3, [O(indent=i) for i in (None, 't', 'none')], ASPECTS,
                   'three lines with blank lines in between'),
        draw_space('names', D[:3], ['    x\n  y\n'], [O(indent=i) for i in ('box', 'text', 'none', 'b', 't', 'n', 'BOX',
                                                                          'Text', 'NONE')][:6], ASPECTS,
                   'notations of the mode'),
        draw_space('amount', D[:1] + D[4:], lambda: (' ' * n + 'x\n' + ' ' * m + 'yz\n'
                                                    for n in ladder(pick(140, 600), pick(4200, 16000), 0)
                                                    for m in (n, n + 1, n + 9, 2)),
                   [O(indent=i) for i in (None, 't', 'n')], ASPECTS, 'every amount of indentation up to a bound, and around round '
                   'numbers'),
        draw_space('combined', D, [' a\n   b\n', '  a\n\n  b\n'],
                   [O(a, s, p, i) for a in ('', 'c', 'jc', 'hr') for s in (None, (12, 7)) for p in ((), (('l', 3),))
                    for i in (None, 't', 'n')], ASPECTS, 'together with size, padding and alignment'),
        Space('removal', lambda: itertools.product(range(len(D)), rtexts(), (None, 'b', 't', 'n')), removal, 'plain',
              'drawing with any mode and removing the box again'),
    ]
