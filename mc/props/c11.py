"""C11 the character encoding of the text does not change the box"""
from common import *
import ctypes
import re

_libc = ctypes.CDLL(None)
_libc.iconv_open.restype = ctypes.c_void_p
_libc.iconv_open.argtypes = [ctypes.c_char_p, ctypes.c_char_p]
_libc.iconv.argtypes = [ctypes.c_void_p] + [ctypes.POINTER(ctypes.c_char_p), ctypes.POINTER(ctypes.c_size_t)] * 2
_libc.iconv.restype = ctypes.c_size_t
_cd = {}


def iconv(b, src, dst):
    """convert with the C library (trusted); None if not convertible"""
    k = (src, dst)
    if k not in _cd:
        _cd[k] = _libc.iconv_open(dst.encode(), src.encode())
        if _cd[k] in (None, ctypes.c_void_p(-1).value):
            raise RuntimeError('no converter %s -> %s' % k)
    _libc.iconv(_cd[k], None, None, None, None)
    buf = ctypes.create_string_buffer(len(b) * 6 + 16)
    p, n = ctypes.c_char_p(b), ctypes.c_size_t(len(b))
    q, m = ctypes.c_char_p(ctypes.addressof(buf)), ctypes.c_size_t(len(buf))
    r = _libc.iconv(_cd[k], ctypes.byref(p), ctypes.byref(n), ctypes.byref(q), ctypes.byref(m))
    if r == ctypes.c_size_t(-1).value or r > 0:
        return None
    return buf.raw[:len(buf) - m.value]


def enc(s, e):
    return iconv(s.encode('utf-8'), 'UTF-8', e)


SINGLE = ['ISO-8859-%d' % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16)] + [
    'KOI8-R', 'KOI8-U', 'CP437', 'CP850', 'CP866', 'CP1250', 'CP1251', 'CP1252', 'CP1253', 'CP1254', 'CP1256', 'CP1257',
    'MACINTOSH', 'HP-ROMAN8', 'VISCII', 'latin1', 'iso_8859-1', 'US-ASCII']
MULTI = ['EUC-JP', 'SHIFT_JIS', 'GBK', 'GB18030', 'BIG5', 'EUC-KR', 'UTF-8', 'utf8', 'GB2312', 'CP932', 'BIG5-HKSCS',
         'JOHAB', 'EUC-TW']
_rep = {}


def repertoire(e):
    """all characters of an encoding which take one or two bytes, can be converted back and forth, are printable, and
    whose width does not depend on the encoding"""
    if e in _rep:
        return _rep[e]
    res = []
    if e in SINGLE:
        seqs = [bytes([b]) for b in range(0xa0 if 'ASCII' not in e and 'ISO' in e.upper() else 0x80, 0x100)]
    elif e.upper() in ('UTF-8', 'UTF8'):
        seqs = [chr(c).encode() for c in range(0xa0, 0x3000)]
    else:
        seqs = [bytes([a, b]) for a in range(0x81, 0xff) for b in range(0x40, 0xff)]
        seqs += [bytes([a]) for a in range(0xa0, 0xe0)]
    for s in seqs:
        u = iconv(s, e, 'UTF-8')
        if not u:
            continue
        try:
            u = u.decode()
        except UnicodeDecodeError:
            continue
        if len(u) != 1 or not u.isprintable() or u.isspace() or enc(u, e) != s:
            continue
        if core._uni.uc_width(ord(u), e.encode()) != core._uni.uc_width(ord(u), b'UTF-8') or core.cwidth(u) < 1:
            continue
        res.append(u)
    _rep[e] = res
    return res


def same_body(case):
    """E in, E out == UTF-8 in, UTF-8 out"""
    e, t, di, o, op = case
    d = DES[di]
    a = ['-f', config(d.cfg()), '-d', d.name] + list(o)
    b = t.encode()
    if op:
        r = yield Run(a, b)
        check_rc(r)
        b = r.out
        a += [op]
    be = enc(b.decode(), e)
    if be is None:
        return
    u = yield Run(a, b)
    check_rc(u)
    want = enc(decode(u.out), e)
    for env, n in (({}, ['-n', e]), ({'LANG': 'C'}, ['--encoding=' + e]), ({'LC_ALL': 'C'}, ['-n', e])):
        r = yield Run(a + n, be, env=env)
        check_rc(r)
        if r.out != want:
            raise Fail('in encoding %s: expected %r\n(%s)\ngot %r' % (e, want, decode(u.out), r.out))
        if r.err:
            raise Fail('messages: %r' % r.err)


def locale_body(case):
    """the encoding of the locale is used unless another one is requested"""
    env, cs, t, op = case
    d = DES[0]
    a = ['-f', config(d.cfg()), '-d', d.name] + op
    u = yield Run(a + ['-n', cs], t)
    r = yield Run(a, t, env=env)
    check_rc(u)
    if r != u:
        raise Fail('locale %r: %r, but -n %s: %r' % (env, r, cs, u))


UTF8 = re.compile(rb'[\x00-\x7f]|[\xc2-\xdf][\x80-\xbf]|\xe0[\xa0-\xbf][\x80-\xbf]|[\xe1-\xec\xee\xef][\x80-\xbf]{2}|'
                  rb'\xed[\x80-\x9f][\x80-\xbf]|\xf0[\x90-\xbf][\x80-\xbf]{2}|[\xf1-\xf3][\x80-\xbf]{3}|'
                  rb'\xf4[\x80-\x8f][\x80-\xbf]{2}')


def utf8_pattern(b):
    """regular expression for the text that results from the bytes"""
    i, bad, res, ctl = 0, 0, '', False
    for i_ in range(len(b) + 1):
        if i == len(b):
            break
        m = UTF8.match(b, i)
        if m:
            if bad:
                res += '[?]{1,%d}' % bad
                bad = 0
            c = m.group().decode()
            if 0x7f <= ord(c) < 0xa0:
                ctl = True
            res += re.escape(c)
            i = m.end()
        else:
            bad += 1
            i += 1
    if bad:
        res += '[?]{1,%d}' % bad
    return res, ctl


def invalid_body(case):
    """invalid bytes: the rest of the line and the other lines are unharmed"""
    pre, bad, post, op = case
    line = pre + bad + post
    pat, ctl = utf8_pattern(line)
    if ctl:
        return
    d = DES[1]
    t = b'first\n' + line + b'\nlast\n'
    if op:
        t = b''.join(b'# ' + x + b'\n' for x in t.split(b'\n')[:-1])
        r = yield Run(['-f', config(d.cfg()), '-d', d.name, '-r'], t)
        p = ''
    else:
        r = yield Run(['-f', config(d.cfg()), '-d', d.name], t)
        p = '# '
    check_rc(r)
    out = decode(r.out)
    if not re.fullmatch('%sfirst *\n%s%s *\n%slast *\n' % (p, p, pat, p), out):
        raise Fail('input %r yields %r, expected a match of %r' % (t, out, pat))


def invalid_multi(case):
    e, bad, op = case
    if iconv(bad + b' ', e, 'UTF-8') is not None:
        return
    for i in range(len(bad)):
        u = iconv(bad[i:i + 1], e, 'UTF-8')
        if u and 0x7f <= ord(u.decode()[0]) < 0xa0:
            return           # control characters are rejected
    d = DES[1]
    t = b'first\nab' + bad + b' cd\nlast\n'
    r = yield Run(['-f', config(d.cfg()), '-d', d.name, '-n', e], t)
    check_rc(r)
    ls = r.out.split(b'\n')
    if len(ls) != 4 or ls[0] != b'# first' or ls[2] != b'# last' or not ls[1].startswith(b'# ab') or \
            not ls[1].endswith(b' cd') or b'?' not in ls[1]:
        raise Fail('%s: input %r yields %r' % (e, t, r.out))


DES = []
RSEEN = {}


def width_body(case):
    """every character of an encoding in a box: rectangular with regard to the widths in that encoding"""
    e, s = case
    s = 'a' + s
    w = sum(max(0, core._uni.uc_width(ord(c), e.encode())) for c in s)
    t = enc(s, e) + b'\n'
    r = yield Run(['-f', config(DES[0].cfg()), '-n', e], t)
    check_rc(r)
    want = b'+' + b'-' * w + b'+\n|' + enc(s, e) + b'|\n+' + b'-' * w + b'+\n'
    if r.out != want:
        raise Fail('expected %r, got %r' % (want, r.out))


def spaces():
    D = [closed(), west(padding={'left': 1}), Design('uml', {'NW': '\u00c4', 'N': '\u00d6', 'NE': '\u00c4', 'W': '\u00df',
                                                            'E': '\u00df', 'SW': '\u00c4', 'S': '\u00d6',
                                                            'SE': '\u00c4'}, padding={'h': 1}),
         Design('cjk', {'NW': '\u4e00', 'N': '\u4e8c', 'NE': '\u4e00', 'W': '\u4e09', 'E': '\u4e09',
                        'SW': '\u4e00', 'S': '\u4e8c', 'SE': '\u4e00'}),
         Design('cyr', {'W': '\u0436', 'N': '\u0448', 'E': '\u0436|'})]
    DES.extend(D)

    def texts(e):
        r = repertoire(e)
        n = pick(24, 12)
        for i in range(0, len(r), n):
            c = r[i:i + n]
            yield 'a ' + ''.join(c[:n // 2]) + '\n  ' + ' '.join(c[n // 2:]) + 'x\n'

    def same():
        for e in SINGLE + MULTI:
            for i, t in enumerate(texts(e)):
                big = e in MULTI
                for di in (0, 1) if not big else (i % 2,):
                    for o in ((), ('-a', 'c')) if not big else ((),):
                        for op in (None, '-r', '-m') if not big or pick(0, 1) else ((None, '-r', '-m')[i % 3],):
                            yield e, t, di, o, op
        for e in ('ISO-8859-1', 'ISO-8859-15', 'CP1252', 'UTF-8'):
            for t in strings(['a', '\u00e9', ' ', '\n'], pick(4, 6), 1):
                if t.strip():
                    for op in (None, '-r', '-m'):
                        yield e, t + '\n', 2, (), op
        for e, di in (('GBK', 3), ('BIG5', 3), ('EUC-JP', 3), ('KOI8-R', 4), ('ISO-8859-5', 4), ('CP866', 4)):
            c = repertoire(e)
            for t in strings(['a', c[30 % len(c)], ' ', '\n'], pick(3, 5), 1):
                if t.strip():
                    for op in (None, '-r'):
                        yield e, t + '\n', di, (), op

    def sizes():
        for n in ladder(pick(70, 300), 5300):
            for e, c in (('UTF-8', '\u00e9'), ('UTF-8', '\u4e16'), ('UTF-8', '\U0001f600'), ('ISO-8859-1', '\u00e9'),
                         ('EUC-JP', '\u4e16'), ('GB18030', '\u00e9'), ('KOI8-R', '\u0436')):
                if n * len(c.encode(e)) < 15900:
                    yield e, 'x' * (n % 3) + c * n + '\ny' + c + '\n', 0, (), (None, '-r')[n % 2]
                if n < 700:
                    yield e, (c + 'a\n') * n + '\nb\n', 0, (), (None, '-r')[n % 2]

    ib = [0x80, 0xbf, 0xc0, 0xc1, 0xc3, 0xe0, 0xe4, 0xed, 0xa0, 0xf0, 0xf4, 0x90, 0xf5, 0xf8, 0xfc, 0xfe, 0xff]

    def invalid():
        for n in range(1, pick(3, 4) + 1):
            for x in itertools.product(ib, repeat=n):
                b = bytes(x)
                yield b'ab', b, b' cd', 0
                if n < 3:
                    for pre, post in ((b'', b'x'), (b'\xc3\xa9', b''), (b'', b''), (b' ', b'\xe4\xb8\xad'),
                                      (b'x', b'\t|')):
                        if post == b'\t|':
                            continue
                        for op in (0, 1):
                            yield pre, b, post, op
        for x in itertools.product((0xf0, 0xf4, 0xf5, 0xf8, 0xfc), (0x80, 0x90, 0x88, 0x84, 0xbf), (0x80, 0xbf),
                                   (0x80, 0xbf), (0, 0x80), (0, 0x80)):
            yield b'ab', bytes(c for c in x if c), b' cd', 0
            yield b'', bytes(c for c in x if c), b' cd', 0

    def multi():
        for e in ('EUC-JP', 'SHIFT_JIS', 'GBK', 'BIG5', 'EUC-KR', 'ISO-8859-3', 'ISO-8859-6', 'ISO-8859-8', 'US-ASCII',
                  'CP1252', 'CP1253'):
            for a in range(0x80, 0x100):
                yield e, bytes([a]), 0
                for b in (0x80, 0xa0, 0xff, 0x81, 0xfe):
                    yield e, bytes([a, b]), 0

    def widths():
        for e in MULTI + SINGLE:
            seq = []
            for s in [bytes([a, b]) for a in range(0x81, 0xff) for b in range(0x40, 0xff)] if e in MULTI else \
                    [bytes([a]) for a in range(0xa0, 0x100)]:
                u = iconv(s, e, 'UTF-8')
                if u and len(u.decode()) == 1 and u.decode().isprintable() and not u.decode().isspace() and \
                        enc(u.decode(), e) == s:
                    seq.append(u.decode())
                    if len(seq) == pick(16, 1):
                        yield e, ''.join(seq)
                        seq = []

    loc = [({'LANG': 'C.UTF-8'}, 'UTF-8'), ({'LANG': 'C'}, 'US-ASCII'), ({'LANG': 'POSIX'}, 'US-ASCII'),
           ({'LANG': None}, 'US-ASCII'), ({'LANG': 'C', 'LC_CTYPE': 'C.UTF-8'}, 'UTF-8'),
           ({'LANG': 'C.UTF-8', 'LC_CTYPE': 'C'}, 'US-ASCII'), ({'LANG': 'C', 'LC_ALL': 'C.UTF-8'}, 'UTF-8'),
           ({'LC_ALL': 'C', 'LC_CTYPE': 'C.UTF-8', 'LANG': 'C.UTF-8'}, 'US-ASCII'),
           ({'LANG': 'C.utf8'}, 'UTF-8'), ({'LANG': 'no_SUCH.UTF-8'}, 'US-ASCII')]
    bt = [b'abc\n', 'a\u00e9\u4e16\n'.encode(), b'\xff\xfe x\n', 'a\u0301b\n \u00e9\n'.encode()]
    return [
        Space('same', same, same_body, 'plain', 'all characters of %d encodings, drawing, removing, mending, -n under '
              'three locales' % len(SINGLE + MULTI)),
        Space('sizes', sizes, same_body, 'plain', 'lengths and numbers of lines in several encodings'),
        Space('locale', lambda: ((a, b, t, op) for a, b in loc for t in bt for op in ([], ['-r'], ['-a', 'c'])),
              locale_body, 'plain', 'encoding from LANG, LC_CTYPE, LC_ALL'),
        Space('invalid', invalid, invalid_body, 'plain', 'all sequences of up to %d invalid or incomplete UTF-8 bytes in '
              'several contexts' % pick(3, 4)),
        Space('invalid-multi', multi, invalid_multi, 'plain', 'invalid bytes of other encodings'),
        Space('widths', widths, width_body, 'plain', 'all characters of each encoding, with the width in that encoding'),
    ]
