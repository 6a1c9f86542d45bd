"""C09 replacement and reversion rules are applied in order to every line"""
from common import *
from model import apply_rules

ASPECTS = ('text', 'size', 'frame', 'just')
# (pattern, replacement): literals, anchors, classes, groups, empty matches; growing, shrinking, order dependent
RULES = [('a', 'b'), ('b', 'a'), ('aa', 'c'), ('^', '>'), ('b*$', '<'), ('a', ''), ('(a)(b)', '$2$1'), ('c', 'aab'),
         ('[a-c]', '[$0]'), ('b*', 'z'), ('\u00e9', 'ee'), ('a|\u00e9', '\u4e2d'), ('(b+)', '${1}$1'), ('^ +', ''),
         ('\\w$', 'W'), ('(?<=a)b', 'X'), ('\\\\', '/'), ('"', 'Q')]
MODES = ('', 'g', 'o')


def rule_body(case):
    rules, t, ind = case
    d = closed('r', rep=rules, rev=[('g', 'zzz', 'wrong'), ('g', '[a-c]', 'wrong')], indent=ind)
    yield from draw(d, t, O(), ASPECTS)


def rev_body(case):
    rules, t = case
    d = closed('r', rep=[('g', '[a-c]', 'wrong')], rev=rules)
    plain = closed('r')
    r = yield Run(['-f', config(plain.cfg())], t.encode())
    check_rc(r)
    r2 = yield Run(['-f', config(d.cfg()), '-r', '-d', 'r'], r.out)
    check_rc(r2)
    w = max(core.width(l) for l in t.split('\n'))
    want = [apply_rules(rules, l + ' ' * (w - core.width(l))).rstrip() for l in t.split('\n')]
    want2 = [apply_rules(rules, l).rstrip() for l in t.split('\n')]
    got = [l.rstrip() for l in decode(r2.out).split('\n')]
    if blankless(got) not in (blankless(want), blankless(want2)):
        raise Fail('reversed text: expected %r, got %r' % (want, got))


def blankless(ls):
    ls = list(ls)
    while ls and not ls[0].strip():
        ls.pop(0)
    while ls and not ls[-1].strip():
        ls.pop()
    return ls


def mend_body(case):
    """mending applies the reversion rules and then the replacement rules"""
    i, t = case
    rep, rev = PAIRS[i]
    d = closed('r', rep=[('g', *rep)], rev=[('g', *rev)])
    c = config(d.cfg())
    r = yield Run(['-f', c], t.encode())
    judge(d, t, O(), r, ASPECTS)
    r2 = yield Run(['-f', c, '-m', '-d', 'r'], r.out)
    check_rc(r2)
    if r2.out != r.out:
        raise Fail('mended box differs:\n%s\n%s' % (decode(r.out), decode(r2.out)))
    r3 = yield Run(['-f', c, '-r', '-d', 'r'], r.out)
    check_rc(r3)
    got = [l.rstrip() for l in decode(r3.out).split('\n')]
    want = [l.rstrip() for l in t.split('\n')]
    if blankless(got) != blankless(want):
        raise Fail('removal yields %r instead of %r' % (got, want))


# rules which the model does not know (conditional substitution, change of case), with their effect on each character of the text
EXT = [('(a)|b', '${1:+yes:no}'), ('(a)|b', '<${1:+%s:%s}>' % ('y' * 9, 'n' * 14)), ('(a|b)', '\\\\U$1\\\\E-' + 'x' * 5), ('a', '\\\\$' + 'z' * 12), ('(?<n>a)', '${n}${n}${n}$1'),
       ('b|(a)', '${1:-none}' + '.' * 20), ('a', '\\\\x{e9}' * 4), ('a', '$$' * 7)]
EXTW = [{'a': 'yes', 'b': 'no'}, {'a': '<%s>' % ('y' * 9), 'b': '<%s>' % ('n' * 14)}, {'a': 'A-xxxxx', 'b': 'B-xxxxx'}, {'a': '$' + 'z' * 12}, {'a': 'aaaa'},
        {'a': 'a' + '.' * 20, 'b': 'none' + '.' * 20}, {'a': '\u00e9' * 4}, {'a': '$' * 7}]


def ext_body(case):
    i, m, t, op = case
    w = EXTW[i]
    want = ''
    for n, c in enumerate(t):
        want += w.get(c, c) if m == 'g' or not any(x in w for x in t[:n]) else c
    p, s = EXT[i]
    cfg = 'BOX r\nsample\nx\nends\nshapes { w ("#") }\nelastic (w)\n%s %s "%s" %s "%s"\nEND r\n' % (
        'reverse' if op else 'replace', {'g': 'global', 'o': 'once'}[m], p, 'to' if op else 'with', s)
    r = yield Run(['-f', config(cfg), '-d', 'r'] + ([op] if op else []), ('#' * bool(op) + t + '\n').encode())
    check_rc(r)
    got = decode(r.out)
    if got != '#' * (not op) + want + '\n':
        raise Fail('rule %r -> %r (%s): expected %r, got %r' % (p, s, m, want, got))


PAIRS = [(('a', 'xyz'), ('xyz', 'a')), (('([ab])', '<$1>'), ('<([ab])>', '$1')), (('\\*/', '*\\\\/'), ('\\*\\\\/', '*/')),
         (('\u00e9', '\u4e2d\u4e2d'), ('\u4e2d+', '\u00e9'))]


def invalid_body(case):
    """an invalid rule is an error when it is used, with a message, not silence or a crash"""
    rule, op = case
    d = closed('r', rep=[('g', *rule)] if op != '-r' else (), rev=[('g', *rule)] if op == '-r' else ())
    r = yield Run(['-f', config(d.cfg()), '-d', 'r'] + ([op] if op else []), b'+-+\n|a|\n+-+\n')
    check_rc(r, 1)
    if not r.err:
        raise Fail('no message for the invalid rule %r' % (rule,))
    if r.out:
        raise Fail('output in spite of the invalid rule: %r' % r.out)


def spaces():
    one = [(m, *x) for x in RULES for m in MODES]
    oneg = [('g', *x) for x in RULES]
    t1 = ['a\n', 'ab\n', 'aab b\n', '\n', 'caab\u00e9a\nba\n', '  abc\n a\n\nbb\n', 'a"\\b\n']
    al = ['a', 'b', 'c', '\u00e9', ' ']
    return [
        Space('single', lambda: (((r,), t + '\n', i) for r in one for t in strings(al, pick(3, 5), 1) for i in (None,)),
              rule_body, 'plain', 'every rule x global/once/default x all lines up to length %d' % pick(3, 5)),
        Space('pairs', lambda: ((p, t, i) for p in itertools.product([('g', *x) for x in RULES] + [('o', *x) for x in
                                                                                                  RULES], repeat=2)
                                for t in t1[2:7:pick(2, 1)] for i in (None, 'text')), rule_body, 'plain',
              'all ordered pairs of rules'),
        Space('triples', lambda: ((p, t, None) for p in itertools.product(oneg[:pick(9, 14)], repeat=3)
                                  for t in ('caab\u00e9a\nba\n',)), rule_body, 'plain', 'all ordered triples of rules'),
        Space('reverse', lambda: ((p, t) for n in (1, 2) for p in itertools.product(
            [(m, *RULES[i]) for i in (0, 1, 2, 5, 6, 7, 8, 10, 11, 12, 16) for m in ('g', 'o')], repeat=n)
            for t in ('ab c\naabca\n', 'caab\u00e9a\nba\n')[:pick(1, 2) if n == 2 else 2]), rev_body, 'plain',
              'all lists of one or two reversion rules upon removal'),
        Space('mend', lambda: itertools.product(range(len(PAIRS)), ['a\n', 'ab b\n\nba \u00e9\n', '*/ x\n', 'x*/*/\na\n',
                                                                    '\u00e9a\u00e9\n']), mend_body, 'plain',
              'inverse rules: draw, mend, remove'),
        Space('growth', lambda: (((('g', 'a', 'bcd' * k),), 'a' * n + '\nx\n', None) for k in (0, 1, 3, 11)
                                 for n in range(1, pick(80, 400))), rule_body, 'plain',
              'growth of the text by factors of 0 to 33 for every length (buffer sizes)'),
        Space('growth-modes', lambda: ((((m, a, b * k),), t * n + '\nx\n', i) for m in MODES for a, b in (
            ('a', 'bcd'), ('(a|b)', '$1-'), ('^', 'xy'), ('a+', '$0$0')) for k in (1, 5, 9, 30) for t in ('a', 'ab', 'b a')
            for n in pick((1, 2, 3, 5, 9, 20), range(1, 60)) for i in (None, 'text')), rule_body, 'plain',
              'global and single replacement by longer text (buffer sizes)'),
        Space('extended', lambda: ((i, m, t, op) for i in range(len(EXT)) for m in 'go' for op in ('', '-r')
                                   for t in itertools.chain(strings(['a', 'b', 'c', 'x yz'], pick(4, 6), 1), ('ab' * k for k in range(3, pick(30, 200)))))
              , ext_body, 'plain', 'conditional replacement, change of case, escapes; short and long results'),
        Space('many', lambda: ((tuple(('g', 'k%dk' % i, 'k%dk' % (i + 1)) for i in range(n)), 'k0k xk0k\n', None)
                               for n in range(1, pick(40, 150))), rule_body, 'plain',
              'chains of n rules, each using the result of the previous one'),
        Space('invalid', lambda: itertools.product([('(', 'x'), ('a)', 'x'), ('[', 'x'), ('a', '$9'), ('a', '${x'),
                                                    ('*', 'x'), ('a{2,1}', 'x')], ('', '-r')),
              invalid_body, 'plain', 'rules which cannot be compiled or substituted'),
    ]
