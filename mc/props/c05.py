"""C05 alignment and justification place text exactly as requested"""
from common import *

ASPECTS = ('pos', 'just', 'size', 'text')
COMP = ['h' + x for x in 'lcr'] + ['v' + x for x in 'tcb'] + ['j' + x for x in 'lcr'] + ['l', 'c', 'r']


def equivalence(case):
    """shorthands mean the documented combinations; a later component overrides an earlier one"""
    a, b, d, t, s = case
    d = DES[d]
    r1 = yield Run(['-f', config(d.cfg()), '-a', a, '-s', s], t.encode())
    r2 = yield Run(['-f', config(d.cfg()), '-a', b, '-s', s], t.encode())
    check_rc(r1)
    check_rc(r2)
    if r1.out != r2.out:
        raise Fail('-a %s and -a %s yield different results' % (a, b))


DES = []


def spaces():
    D = [closed(), west(padding={'left': 1}), mixed(padding={'a': 1}),
         Design('tx', {'N': '-', 'S': '=', 'E': '|', 'W': '|', 'NE': '+', 'SE': '+', 'NW': '+', 'SW': '+'},
                indent='text', padding={'left': 2})]
    DES.extend(D)
    texts = ['x\n', 'abcd\n\n ef\ng\n', '   i j\n  k\n      l\n', ' \u4e2db\n  e\u0301\n']
    seq = [''.join(x) for n in range(0, 3) for x in itertools.product(COMP, repeat=n)]
    big = ladder(pick(60, 300), pick(1100, 4200))
    sizes = [None, (14, 9), (15, 10), (13, 0)]
    lines = ['', 'a', ' b', '  cc', 'ddd', '   e']
    return [
        draw_space('sequences', D, texts[:pick(3, 4)], [O(a, s, (), i) for a in seq for s in sizes[:pick(3, 4)]
                                                        for i in (None,)], ASPECTS,
                   'all sequences of up to two alignment components x sizes'),
        draw_space('triples', D[:1] + D[3:], texts[1:3],
                   [O(''.join(x), s) for x in itertools.product(COMP, repeat=3) for s in ((15, 10),)], ASPECTS,
                   'all sequences of three components'),
        draw_space('parities', [D[0], D[3]],
                   lambda: ('\n'.join(x) + '\n' for x in itertools.product(lines, repeat=pick(2, 3))),
                   [O(a, (w, h), (), i) for a in ('c', 'r', 'l', 'hcvt', 'hrvcjl', 'hcvbjr', 'hrjc', 'hljc')
                    for w, h in ((7, 5), (8, 6), (11, 7), (12, 8)) for i in (None, 't', 'n')], ASPECTS,
                   'line patterns x sizes of either parity x indentation modes'),
        draw_space('spare', D, texts[1:], [O(a, (w, h)) for a in ('c', 'r', 'hcvcjl', 'vb') for w in range(8, pick(24, 60))
                                           for h in (5, 8, 9)], ASPECTS, 'every amount of spare space'),
        draw_space('large', D, lambda: ('ab\n c\n' + 'd' * n + '\n' for n in big), [O(a, s) for a in ('c', 'r', 'hcvcjl', 'jr', 'hrvbjc')
                                                                              for s in (None, (1201, 40))], ASPECTS,
                   'long lines beside short ones'),
        draw_space('far', D, ['ab\n  cde\n\nf\n'], [O(a, s) for a in ('c', 'r', 'hcvcjl', 'hrvb', 'hrvcjc') for n in big
                                                    for s in ((n, 9), (14, n % 600 + 4))], ASPECTS,
                   'spare space of every size up to a bound and around round numbers'),
        draw_space('many', D[:2], lambda: ('ab\n c\n' * n + 'def\n' for n in big if n < 700), [O(a, s) for a in ('c', 'hrvb', 'hcvcjr')
                                                                                   for s in (None, (20, 800))], ASPECTS,
                   'many lines'),
        draw_space('replaced', [closed('rp', rep=[('g', '[bd]', 'xyz'), ('o', '^e', ''), ('g', 'a+', 'q')]),
                                closed('rt', rep=[('g', '[bd]', 'xyz'), ('o', '^ +', ' ')], indent='text')],
                   lambda: ('\n'.join(x) + '\n' for x in itertools.product(lines[1:] + ['  eaaa'], repeat=2)),
                   [O(a, s) for a in ('', 'c', 'r', 'hrjc') for s in (None, (20, 6), (21, 7))], ASPECTS,
                   'alignment of text that was changed by replacement rules'),
        Space('shorthands', lambda: ((p + a + q, p + b + q, d, t, s) for a, b in (
            ('l', 'hlvcjl'), ('c', 'hcvcjc'), ('r', 'hrvcjr'), ('l', 'jlvchl'), ('c', 'vcjchc'), ('r', 'jrhrvc'))
            for p in ('', 'hl', 'vb', 'jr', 'r') for q in ('', 'hr', 'vt', 'jc') for d in range(4) for t in texts
            for s in ('12x8', '17x9')), equivalence, 'plain', 'shorthands against their documented meaning'),
    ]
