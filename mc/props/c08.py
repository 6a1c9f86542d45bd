"""C08 line ends and white space at line ends are under control"""
from common import *

ASPECTS = ('eol', 'trail', 'size')
EOLS = {'': '\n', 'LF': '\n', 'CRLF': '\r\n', 'CR': '\r'}


def mixture(case):
    """the form of line ends in the input has no influence"""
    di, t, e, op = case
    d = DES[di]
    args = ['-f', config(d.cfg())] + (['-e', e] if e else []) + op + (['-d', d.name] if '-r' in op else [])
    n = t.count('\n')
    base = yield Run(args, t.encode())
    check_rc(base)
    check_ends(base.out, EOLS[e], t.endswith('\n'))
    if not t:
        if base.out:
            raise Fail('empty input yields %r' % base.out)
        return
    for bits in range(1, 1 << n):
        parts = t.split('\n')
        s = ''.join(p + ('' if i == n else '\r\n' if bits >> i & 1 else '\n') for i, p in enumerate(parts))
        r = yield Run(args, s.encode())
        if r != base:
            raise Fail('input %r yields %r, but with LF line ends %r' % (s, r.out[:400], base.out[:400]))


def check_ends(out, eol, fin):
    s = decode(out)
    if not s:
        return
    if s.endswith(eol) != fin:
        raise Fail('last line %s, but the input did%s end in a line terminator: %r' % (
            'is terminated' if not fin else 'is not terminated', '' if fin else ' not', s[-60:]))
    rest = s.replace(eol, '')
    if '\n' in rest or '\r' in rest:
        raise Fail('line terminator other than %r in output %r' % (eol, s[:300]))
    for i, l in enumerate(s.split(eol)):
        if l.strip(WS) and l != l.rstrip(' \t'):
            raise Fail('line %d ends in white space: %r' % (i + 1, l))


def trailing(case):
    """trailing white space of the input has no influence at all on a drawn box"""
    di, t, ws, args = case
    d = DES[di]
    a = ['-f', config(d.cfg())] + list(args)
    r1 = yield Run(a, t.encode())
    s = ''.join(l + w + '\n' for l, w in zip(t.split('\n'), ws))
    r2 = yield Run(a, s.encode())
    check_rc(r1)
    if r1 != r2:
        raise Fail('trailing white space changes the result:\n%s' % decode(r2.out))


def mended(case):
    di, t, e = case
    d = DES[di]
    args = ['-f', config(d.cfg()), '-m', '-d', d.name] + (['-e', e] if e else [])
    r = yield Run(['-f', config(d.cfg())], t.encode())
    check_rc(r)
    for b in (r.out, r.out.replace(b'\n', b'\r\n')):
        r2 = yield Run(args, b)
        check_rc(r2)
        check_ends(r2.out, EOLS[e], t.endswith('\n'))


from model import WS
DES = []
LN = ['', 'a', ' bc', 'd ', '  ']


def spaces():
    D = [closed(), west(padding={'left': 1}), mixed(padding={'a': 1}), Design('open', {'N': '-'}),
         closed('rl', rep=[('g', 'a', 'x ')], rev=[('g', 'x', 'a')])]
    DES.extend(D)

    def texts(n):
        for k in range(0, n + 1):
            for x in itertools.product(LN, repeat=k):
                t = '\n'.join(x)
                yield t
                if k:
                    yield t + '\n'

    ops = [[], ['-r'], ['-s', '12x7', '-a', 'c'], ['-i', 'none'], ['-t', '4u'], ['-r', '-k', 'true']]
    ws = ['', ' ', '  ', '\t', ' \t ', '\u3000', '\u2003 ', '\r']
    def sizes():
        for n in ladder(pick(40, 140), 4200):
            for e in ('\n', '\r\n'):
                for fin in ('z', 'z' + e):
                    for m in ('x', ''):
                        yield (m + e) * n + fin

    return [
        draw_space('lines', D[:1], sizes, [O(), O(eol='CRLF')], ASPECTS, 'every number of lines up to a bound and '
                   'around round numbers, in both forms'),
        Space('mixtures', lambda: itertools.product(range(4), sorted(set(texts(pick(2, 3)))), EOLS, ops), mixture,
              'plain', 'all texts of up to %d lines x every mixture of LF and CRLF x terminator options x operations' %
              pick(2, 3)),
        draw_space('draw', D, lambda: sorted(set(texts(pick(3, 4)))), [O(eol=e or None) for e in ('', 'CRLF', 'CR')],
                   ASPECTS, 'all texts of up to %d lines x terminators' % pick(3, 4)),
        Space('trailing', lambda: ((d, t, w, a) for d in range(5) for t in ('a\n', 'a\nbc\n', '  x\n\ny\n')
                                   for w in itertools.product(ws, repeat=t.count('\n'))
                                   for a in ((), ('-a', 'r'), ('-i', 'text'))
                                   if w.count('\r') == 0 or True), trailing, 'plain',
              'every combination of trailing white space'),
        Space('mend', lambda: itertools.product(range(4), [t for t in sorted(set(texts(2))) if t.strip()], EOLS),
              mended, 'plain', 'line ends of mended boxes'),
        draw_space('long', D[:2], lambda: ('x' * n + e for n in ladder(pick(200, 600), 16379) for e in ('', '\n', '  \n', '\r\n')),
                   [O(), O(eol='CRLF')], ASPECTS, 'line ends of lines of every length'),
    ]
