"""Shared pieces of the checks: designs, alphabets, the drawing check."""
import itertools
import os
import core
from core import Run, Fail, Space, config
from model import Design, O, layout, aspects, matches, NORTH, SOUTH, WEST, EAST, CORNERS, ALL

TIER = 'quick'


def quick():
    return TIER == 'quick'


def pick(q, t):
    return q if TIER == 'quick' else t


CRASH = 'the program crashed (status %d): %s'


def check_rc(r, want=0):
    if r.rc < 0 or r.rc == 99:
        if r.rc == -14:
            raise Fail('the program did not end within the time limit')
        raise Fail(CRASH % (r.rc, r.err[-600:].decode('utf-8', 'replace')))
    if r.rc != want:
        raise Fail('exit status %d, expected %d: %s' % (r.rc, want, r.err[-400:].decode('utf-8', 'replace')))


def decode(b, enc='utf-8'):
    try:
        return b.decode(enc)
    except UnicodeDecodeError:
        raise Fail('output is not valid %s: %r' % (enc, b[:300]))


def judge(d, text, o, r, want):
    """Compare one drawn box with the specification, with regard to the aspects in `want`."""
    L = layout(d, text, o)
    if L.rows is None:
        check_rc(r, 1)
        return L
    check_rc(r)
    if r.out == L.out.encode('utf-8', 'surrogateescape'):
        return L
    out = decode(r.out)
    if L.empty:
        raise Fail('empty input, but the output is %r' % out[:200])
    if matches(L, d, text, o, out):
        return L
    bad = aspects(L, o, out)
    hit = [bad[k] for k in want if k in bad]
    if hit:
        raise Fail('; '.join(hit) + '\n--- expected:\n' + L.out[:3000])
    return L


def draw(d, text, o, want, extra=(), env=None):
    r = yield Run(['-f', config(d.cfg())] + o.args() + list(extra), text.encode('utf-8', 'surrogateescape'), env=env)
    return judge(d, text, o, r, want)


def draw_space(name, designs, texts, opts, want, what, kind='plain'):
    """designs x texts x options"""
    def cases():
        return itertools.product(range(len(designs)), texts() if callable(texts) else texts, opts)

    def body(c):
        i, t, o = c
        yield from draw(designs[i], t, o, want)
    return Space(name, cases, body, kind, what)


def strings(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield ''.join(t)


def ladder(upto, top, lo=1):
    """every number up to a bound, then numbers around powers of two and other round numbers"""
    res = set(range(lo, upto))
    for b in [2 ** k for k in range(5, 17)] + [3 * 2 ** k for k in range(4, 16)] + [10 ** k for k in (2, 3, 4)] + [
            5 * 10 ** k for k in (1, 2, 3)] + [1000 * k for k in range(1, 20)]:
        res |= {b - 1, b, b + 1}
    return sorted(n for n in res if lo <= n <= top)


# ---- designs -----------------------------------------------------------------------------------------------------------
_pool = [chr(c) for c in itertools.chain(range(0x41, 0x5b), range(0x30, 0x3a), range(0x100, 0x17f), range(0x391, 0x3a2),
                                         range(0x410, 0x450))]


def block(w, h, k):
    """a shape of w x h cells, all different; k selects the characters"""
    return [''.join(_pool[(k * 6 + y * w + x) % len(_pool)] for x in range(w)) for y in range(h)]


def closed(name='closed', **kw):
    return Design(name, {'NW': '+', 'N': '-', 'NE': '+', 'E': '|', 'SE': '+', 'S': '-', 'SW': '+', 'W': '|'}, **kw)


def mixed(name='mixed', **kw):
    """all sixteen shapes, sizes pairwise different where that is allowed"""
    sh = {}
    wl, wr, ht, hb = 2, 3, 2, 1
    for i, n in enumerate(ALL):
        w = wl if n in WEST else wr if n in EAST else {'NNW': 1, 'N': 2, 'NNE': 3, 'SSW': 2, 'S': 1, 'SSE': 1}[n]
        h = ht if n in NORTH else hb if n in SOUTH else {'WNW': 1, 'W': 2, 'WSW': 1, 'ENE': 1, 'E': 1, 'ESE': 2}[n]
        sh[n] = block(w, h, i)
    return Design(name, sh, elastic=('NNW', 'NNE', 'S', 'W', 'ENE', 'ESE'), **kw)


def west(name='west', s='#', **kw):
    return Design(name, {'W': s}, **kw)


def std_designs():
    return [
        closed(),
        mixed(),
        west(padding={'left': 1}),
        Design('north', {'N': block(2, 2, 3)}),
        Design('southeast', {'S': '-', 'E': '|', 'SE': '+'}, padding={'all': 1}),
        Design('eastonly', {'E': ['>>', '<<']}, padding={'horiz': 1, 'top': 1}),
        Design('corners', {'NW': '+=', 'SE': '=+'}),
        Design('topbottom', {'NW': '/*', 'N': '*', 'NE': '**', 'W': ' *', 'SW': ' *', 'S': '*', 'SE': '*/'},
               padding={'left': 1}),
        Design('wide', {'NW': '\u4e00', 'N': '\u4e8c', 'NE': '\u4e00', 'W': '\u4e09', 'E': '\u4e09',
                        'SW': '\u4e00', 'S': '\u4e8c', 'SE': '\u4e00'}, padding={'h': 1}),
        Design('text', {'W': '||', 'N': '=', 'NW': '||', 'E': '||', 'NE': '||'}, indent='text', padding={'a': 1}),
    ]
