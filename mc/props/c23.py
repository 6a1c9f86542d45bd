"""C23 files and standard streams are interchangeable"""
from common import *

CFG = closed(padding={'left': 1, 'right': 1}).cfg() + mixed().cfg() + west(padding={'left': 1}).cfg()
BOX = '+-----+\n| one |\n|  b  |\n+-----+\n'
TEXTS = [b'', b'a', b'a\n', b'\n', b'one\n  two\n\n', b'x\r\ny\r\n', b'\tx\n\t\ty', '\u4e16\n\u00e4\n'.encode(), b'\x1b[31mred\x1b[0m\n', BOX.encode(),
         b'# a\n# b\n', b'   # a\n', b'bad\x01\n', b'\xff\xfe', b'x' * 150 + b'\n' + b'y\n' * 600]
OPS = [[], ['-d', 'mixed', '-s', '30x12', '-a', 'c'], ['-d', 'west'], ['-r'], ['-r', '-d', 'west'], ['-m'], ['-m', '-d', 'closed'], ['-d', 'nosuch'],
       ['-e', 'CRLF'], ['-e', 'CR', '-d', 'west'], ['-t', '4k', '-i', 'text'], ['-l'], ['-q', '(all)'], ['-q', 'zz'], ['-c', '//'], ['--color'], ['--no-color'],
       ['-l', '-d', 'mixed'], ['-n', 'ISO-8859-1', '-d', 'west'], ['-k', 'true', '-r', '-d', 'closed']]
SRC = ('stdin', '-', 'file', 'rel', 'link', 'uni', 'dashes')
DST = ('stdout', '-', 'new', 'old', 'long', 'rel', 'link', 'uni')


def put(p, b):
    with open(p, 'wb') as f:
        f.write(b)


def get(p):
    with open(p, 'rb') as f:
        return f.read()


def place(src, dst, d, t):
    """-> input argument, output argument, standard input, file with the input, file with the output"""
    os.makedirs(d + '/sub', exist_ok=True)
    inf = outf = None
    a = {'stdin': '-', '-': '-', 'file': d + '/in', 'rel': 'sub/in', 'link': d + '/inlink', 'uni': d + '/\u00e4 \u4e16.txt', 'dashes': '-r'}[src]
    b = {'stdout': None, '-': '-', 'new': d + '/new', 'old': d + '/old', 'long': d + '/old', 'rel': 'sub/out', 'link': d + '/outlink', 'uni': d + '/\u00f6 \u754c'}[dst]
    if a != '-':
        inf = {'file': a, 'rel': d + '/sub/in', 'link': d + '/target-in', 'uni': a, 'dashes': d + '/-r'}[src]
        put(inf, t)
        if src == 'link':
            os.symlink(inf, a)
    if b not in (None, '-'):
        outf = {'rel': d + '/sub/out', 'link': d + '/target-out'}.get(dst, b)
        if dst in ('old', 'link'):
            put(outf, b'old')
        if dst == 'long':
            put(outf, b'old contents\n' * 2000)
        if dst == 'link':
            os.symlink(outf, b)
    return a, b, inf, outf


def body(case):
    op, t, src, dst = case
    pre = ['-f', config(CFG)] + op
    ref = yield Run(pre, t)
    if ref.rc not in (0, 1):
        check_rc(ref)
    if ref.rc == 1 and (ref.out or not ref.err):
        raise Fail('failure: output is %r, message is %r' % (ref.out[:200], ref.err))
    d = core.CTX.fresh_dir()
    a, b, inf, outf = place(src, dst, d, t)
    args = [] if b is None and src == 'stdin' else [a] if b is None else [a, b]
    if src == 'dashes':
        args = ['--'] + args
    r = yield Run(pre + args, t if inf is None else b'# decoy\n', cwd=d)
    if (r.rc, r.err) != (ref.rc, ref.err):
        raise Fail('status and messages are %d, %r instead of %d, %r' % (r.rc, r.err[:300], ref.rc, ref.err[:300]))
    got = r.out if outf is None else get(outf)
    if ref.rc == 0 and got != ref.out:
        raise Fail('output is %r instead of %r' % (got[:500], ref.out[:500]))
    if (outf is not None or r.rc) and r.out:
        raise Fail('standard output is %r' % r.out[:300])
    if inf is not None and get(inf) != t:
        raise Fail('the input file was changed')
    left = sorted(x for x in os.listdir(d) + os.listdir(d + '/sub'))
    want = sorted(['sub'] + [os.path.basename(x) for x in {inf, outf, d + '/inlink' if src == 'link' else None, d + '/outlink' if dst == 'link' else None} if x])
    if left != want:
        raise Fail('files %r, expected %r' % (left, want))


# ---- failures ---------------------------------------------------------------------------------------------------------------------------
BADSRC = ('missing', 'dir', 'denied', 'dangling', 'loop', 'nodir', 'notdir', 'empty')
BADDST = ('dir', 'denied', 'nodir', 'notdir', 'loop', 'empty')


def bad_path(k, d):
    if k == 'missing':
        return d + '/missing'
    if k == 'dir':
        os.makedirs(d + '/dir', exist_ok=True)
        return d + '/dir'
    if k == 'denied':
        put(d + '/denied', b'keep')
        return d + '/denied'
    if k == 'dangling':
        os.symlink(d + '/nowhere', d + '/dangling')
        return d + '/dangling'
    if k == 'loop':
        if not os.path.islink(d + '/loop'):
            os.symlink(d + '/loop', d + '/loop')
        return d + '/loop'
    if k == 'nodir':
        return d + '/nodir/x'
    if k == 'notdir':
        put(d + '/file', b'f')
        return d + '/file/x'
    return ''


def bad_body(case):
    op, src, dst = case
    d = core.CTX.fresh_dir()
    put(d + '/in', b'# T\n')
    put(d + '/out', b'keep')
    a = {'ok': d + '/in', '-': '-'}.get(src)
    if a is None:
        a = bad_path(src, d)
    b = {'ok': d + '/out', '-': '-', None: None, 'new': d + '/new'}.get(dst, 0)
    if b == 0:
        b = bad_path(dst, d)
    r = yield Run(['-f', config(CFG)] + op + [a] + ([b] if b is not None else []), b'# S\n', env={'BXMC_DENY': d + '/denied'})
    check_rc(r, 1)
    if r.out:
        raise Fail('standard output is %r' % r.out)
    if not r.err.strip():
        raise Fail('no message')
    if get(d + '/in') != b'# T\n':
        raise Fail('the input file was changed')
    if src in BADSRC and src != 'dir' and os.path.exists(d + '/new'):
        raise Fail('an output file was created although there is no input')
    if src in BADSRC and src != 'dir' and get(d + '/out') != b'keep':
        raise Fail('the output file was changed although there is no input')
    if os.path.exists(d + '/denied') and get(d + '/denied') != b'keep':
        raise Fail('the file was changed')


def bad_cases():
    ops = [o for o in OPS if o[:2] != ['-d', 'nosuch'] and o[:1] not in (['-l'], ['-q'])]
    for op in ops:
        for s in BADSRC:
            for t in (None, '-', 'ok', 'new') + BADDST:
                yield op, s, t
        for t in BADDST:
            for s in ('ok', '-'):
                yield op, s, t
    for op in (['-l'], ['-q', '(all)']):
        for s in BADSRC:
            if s != 'dir':
                yield op, s, None
        for t in BADDST:
            yield op, 'ok', t


# ---- the same file as target repeatedly; history of runs -----------------------------------------------------------------------------------
def history_body(ops):
    """a sequence of runs from file to file gives the same as a sequence of runs through pipes"""
    d = core.CTX.fresh_dir()
    cur = b'one\n  two\n'
    put(d + '/f0', cur)
    for i, o in enumerate(ops):
        o = OPS[o]
        r = yield Run(['-f', config(CFG)] + o, cur)
        f = yield Run(['-f', config(CFG)] + o + ['f%d' % (i % 2), 'f%d' % (1 - i % 2)], b'decoy', cwd=d)
        if (r.rc, r.err) != (f.rc, f.err):
            raise Fail('step %d: %d %r, %d %r' % (i, r.rc, r.err[:200], f.rc, f.err[:200]))
        if r.rc:
            return
        if get(d + '/f%d' % (1 - i % 2)) != r.out or f.out:
            raise Fail('step %d: the file contains %r instead of %r' % (i, get(d + '/f%d' % (1 - i % 2))[:300], r.out[:300]))
        cur = r.out


# ---- large texts -----------------------------------------------------------------------------------------------------------------------
def text_of(n, line):
    s = (b'w' * (line - 1) + b'\n') * (n // line + 1)
    return s[:n]


def large_body(case):
    op, n, line, src, dst = case
    yield from body((op, text_of(n, line), src, dst))


# ---- runs which fail in the middle -----------------------------------------------------------------------------------------------------
ODD = (Design('odd', {'NW': '12', 'N': '34', 'NE': '5', 'SW': '1', 'S': '678', 'SE': '23', 'W': '9', 'E': '0'},
              elastic=['N', 'W', 'E', 'S']).cfg(),
       Design('rx', {'W': '#'}, rep=[('g', 'a', 'b'), ('o', 'x(', 'y')]).cfg(),
       Design('rx', {'W': '#'}, rep=[('g', 'a', 'b'), ('o', 'x', '${y')]).cfg(),
       Design('rx', {'W': '#'}, rev=[('g', 'a', 'b'), ('o', 'x', '$9')]).cfg(),
       closed().cfg())
BADTEXT = (b'\x01', b'\x7f', b'\x1f', b'\xc2\x85', b'\xe2\x80\xa8')


def error_body(case):
    """a run which fails leaves standard output empty, wherever the cause is"""
    ci, op, n, k, bad = case
    ls = [b'line x %d' % i for i in range(n)]
    if bad is not None:
        ls[k] = ls[k][:3] + bad + ls[k][3:]
    t = b'\n'.join(ls) + b'\n'
    r = yield Run(['-f', config(ODD[ci])] + op, t)
    if r.rc not in (0, 1):
        check_rc(r)
    if r.rc == 1 and (r.out or not r.err.strip()):
        raise Fail('failure: output is %r, message is %r' % (r.out[:300], r.err[:300]))
    d = core.CTX.fresh_dir()
    put(d + '/in', t)
    for a in (['in'], ['in', 'out']):
        f = yield Run(['-f', config(ODD[ci])] + op + a, b'', cwd=d)
        if (f.rc, f.err) != (r.rc, r.err) or f.out != (r.out if len(a) == 1 else b''):
            raise Fail('status, output and message with %r are %d, %r, %r instead of %d, %r, %r' % (a, f.rc, f.out[:200], f.err[:200], r.rc,
                                                                                                     r.out[:200], r.err[:200]))


def error_cases():
    ops = [[], ['-r', '-d', 'closed'], ['-m', '-d', 'closed'], ['-c', '%%'], ['-s', '30x10'], ['-r'], ['-m']]
    for ci in range(len(ODD)):
        for op in ops:
            if ci < len(ODD) - 1:
                op = [x.replace('closed', 'odd' if ci == 0 else 'rx') for x in op]
            for n in (1, 2, 5) + pick((20,), (20, 150)):
                yield ci, op, n, 0, None
                for k in range(n):
                    for bad in BADTEXT if n <= 5 else BADTEXT[:1]:
                        yield ci, op, n, k, bad


SIZES = sorted({k * 1024 + j for k in (2, 4, 8, 16, 32, 64, 128) for j in (-2, -1, 0, 1, 2)})


def spaces():
    return [
        Space('large', lambda: ((op, n, line, s, d) for op in ([], ['-d', 'west', '-e', 'CRLF'], ['-r', '-d', 'west'], ['-c', '//'])
                                for n in SIZES for line in (31, 64, 1000) for s, d in (('file', 'new'), ('stdin', 'old'), ('file', 'stdout'))),
              large_body, 'plain', 'sizes of the text around multiples of the sizes of buffers'),
        Space('errors', error_cases, error_body, 'plain', 'runs that fail because of a character in any line, a rule, or the design'),
        Space('combinations', lambda: itertools.product(OPS, TEXTS, SRC, DST), body, 'plain', 'operations x texts x kinds of input x kinds of output'),
        Space('failures', bad_cases, bad_body, 'plain', 'operations x unusable inputs x unusable outputs'),
        Space('histories', lambda: (h for n in (2, 3) for h in itertools.product(pick([0, 2, 3, 4, 6, 8, 19], range(11)), repeat=n)), history_body, 'plain',
              'sequences of operations alternating between two files'),
    ]
