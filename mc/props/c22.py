"""C22 an ad-hoc design (-c) is equivalent to a design which has a left side only"""
from common import *

TEXTS = ('a', 'a\n  b\n', '\n a \n\n', '  x\ty\n\t z', '', '\u4e16\u754c\n\u00e4\n', '\n', 'a\r\n\r\nb\r\n')
OPTS = ([], ['-a', 'c', '-s', '20x7'], ['-p', 'a1'], ['-p', 'l0'], ['-p', 'l3t1', '-i', 'text'], ['-i', 'none'], ['-t', '4u'], ['-e', 'CRLF'],
        ['-s', '12'], ['-s', 'x5', '-a', 'hrvb'], ['-a', 'jr'], ['-k', 'true'], ['-k', 'false'], ['--color'], ['--no-color'], ['-n', 'UTF-8'])


def ref(s):
    return config('BOX w\nsample\ns\nends\nshapes { w (%s) }\nelastic (w, n, e, s)\npadding { left 1 }\nEND w\n' % quote(s))


def quote(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def same(a, b, what):
    if (a.rc, a.out) != (b.rc, b.out):
        raise Fail('%s: results differ\n--- ad-hoc (%d):\n%s%s\n--- configured (%d):\n%s%s' % (
            what, a.rc, a.out.decode('utf-8', 'replace'), a.err.decode('utf-8', 'replace')[:500],
            b.rc, b.out.decode('utf-8', 'replace'), b.err.decode('utf-8', 'replace')[:500]))


def body(case):
    s, t, o, conf = case
    env = {'BOXES': '/nonexistent/boxes'} if conf == 'env' else None
    pre = ['-f', config(closed().cfg())] if conf == 'file' else []
    a = yield Run(pre + ['-c', s] + o, t.encode(), env=env)
    b = yield Run(['-f', ref(s), '-d', 'w'] + o, t.encode())
    if b.rc != 0:
        raise Fail('configured design fails: %r' % b.err)
    same(a, b, 'drawing')
    box = b.out
    variants = [box]
    if box and '-e' not in o:
        ls = box.split(b'\n')
        variants += [b'x\n' + box, box + b'y z\n', b'\n'.join(b'  ' + l for l in ls), b'\n'.join(l[1:] if i % 2 else l for i, l in enumerate(ls)),
                     b'\n'.join(l.rstrip() for l in ls), t.encode()]
    for v in dict.fromkeys(variants):
        for op in ('-r', '-m'):
            a = yield Run(['-c', s, op] + o, v, env=env)
            b = yield Run(['-f', ref(s), '-d', 'w', op] + o, v)
            if b.rc not in (0, 1):
                check_rc(b)
            same(a, b, op)


AL = ['#', '/', ' ', '"', '\\', '\u00e4', '\u4e16', 'x', '\u0301', '\x1b[31m', '\x1b[0m', '-', "'"]


def legal(s):
    """not tested: strings without any column, and strings which start or end with a part of a grapheme"""
    from core import strip_esc
    import re
    p = strip_esc(s)
    return width(p) > 0 and p.strip(' \u0301') and not p.startswith('\u0301')


def width(s):
    return core.width(s)


def cases():
    for n in (1, 2):
        for c in itertools.product(AL, repeat=n):
            s = ''.join(c)
            if not legal(s):
                continue
            for i, t in enumerate(TEXTS):
                for j, o in enumerate(OPTS):
                    if n == 1 or i < 3 or j == 0 or not quick():
                        if n == 1 or j < 5 or i == 1 or not quick():
                            yield s, t, o, ('', 'env', 'file')[(i + j) % 3]
    for c in itertools.product(AL[:8], repeat=3):
        s = ''.join(c)
        if legal(s):
            for t in TEXTS[:pick(2, 8)]:
                yield s, t, [], ''
    for n in ladder(pick(70, 300), 2500):
        for s in ('#' * n, '\u4e16' * n, '#' + ' ' * n, ' ' * n + '#', '\x1b[3' + '1' * n + 'm#'):
            yield s, TEXTS[1], [], ''
    for s in ('#' * 100, '\u4e16' * 50, ' * ', 'rem ', '<!-- ', '\u2588\u2588', 'a' * 2000, '\U0001f600', '\u00a0', '\u3000x', '\u200bx', 'e\u0301'):
        for t in TEXTS:
            for o in OPTS:
                yield s, t, o, ''


# ---- strings which cannot be a shape -------------------------------------------------------------------------------------------------
def bad_cases():
    yield ''
    for c in list(range(1, 0x20)) + list(range(0x7f, 0xa0)):
        if c in (0x1b, 9):
            continue
        for s in (chr(c), '#' + chr(c), chr(c) + '#', '#' + chr(c) + '#'):
            yield s
    for s in ('#\n#', '\n', '#\n', '#\r\n', 'a\nb\nc', '\x1b[31m#\n'):
        yield s


def bad_body(s):
    for o in ([], ['-r'], ['-m'], ['-l'], ['-d', 'closed']):
        for conf in (0, 1):
            r = yield Run((['-f', config(closed().cfg())] if conf else []) + ['-c', s] + o, b'# T\n')
            check_rc(r, 1)
            if r.out:
                raise Fail('-c %r: output is %r' % (s, r.out))
            if not r.err.strip():
                raise Fail('-c %r: no message' % s)


# ---- independence of the locale's character set for ASCII strings; -l; -q --------------------------------------------------------------
def info_body(s):
    r = yield Run(['-c', s, '-l'])
    check_rc(r)
    if 'W: "%s"' % s.replace('\\', '\\\\').replace('"', '\\"') not in decode(r.out):
        raise Fail('details are\n%s' % decode(r.out))
    for env in ({'LC_ALL': 'C'}, {'LC_ALL': 'C', 'BOXES': ''}, {'HOME': '/nonexistent'}):
        a = yield Run(['-c', s], b'T\nU\n', env=env)
        check_rc(a)
        if a.out != s.encode() + b' T\n' + s.encode() + b' U\n':
            raise Fail('output is %r' % a.out)


def spaces():
    return [
        Space('equivalence', cases, body, 'plain', 'short strings x texts x options x drawing, removing, mending (intact and broken boxes)'),
        Space('illegal', bad_cases, bad_body, 'plain', 'control characters and line breaks'),
        Space('info', lambda: [x for x in strings('#/x"\\- ', pick(3, 4), 1) if x.strip()], info_body, 'plain', 'details and environments'),
    ]
