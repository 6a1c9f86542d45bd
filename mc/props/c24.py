"""C24 timing and faults of input and output"""
from common import *
from core import F_COOKIE_IN, F_COOKIE_OUT, F_PERTURB

CFG = closed(padding={'left': 1, 'right': 1}).cfg() + mixed().cfg() + west(padding={'left': 1}).cfg()
SHORT = [b'a', b'\n', b'a\n', b'ab\nc', b'\xe4\xb8\x96\n\xc3\xa4', b'a\r\n\r\nb', b'\tx\n\t', b'\x1b[1mx\x1b[0m', b'# a\n# b\n', b'+-+\n|a|\n', b'# ab\xc3\xa4',
         b'x\n\n\n', b'   # a\n']
LONG = [b'+-----+\n| one |\n|  b  |\n+-----+\n', 'one \u4e16\n   two\u00e4\n\n\tthree\n'.encode(), b'# one\n# \n#   two\n',
        b'\x1b[31mred\x1b[0m text\r\n\r\nx\r\n']
HUGE = [b'x' * 4095 + b'\n' + b'y' * 4096 + b'\nz', b'a b\n' * 3000, '\u4e16'.encode() * 2000 + b'\n' + b'\xc3\xa4' * 4000 + b'\n']
OPS = [['-d', 'closed'], ['-d', 'mixed', '-s', '30x12'], ['-d', 'west', '-e', 'CRLF'], ['-r'], ['-r', '-d', 'west'], ['-m', '-d', 'closed'], ['-m', '-d', 'west'],
       ['-c', '//', '-i', 'text']]
LISTS = [['-l'], ['-l', '-d', 'mixed'], ['-q', '(all)'], ['-q', '-zz', '-e', 'CR'], ['-l', '-d', 'west', '-e', 'CRLF']]


def conf():
    return config(CFG)


def same(r, ref, what):
    if (r.rc, r.out, r.err) != (ref.rc, ref.out, ref.err):
        raise Fail('%s makes a difference: %d %r %r instead of %d %r %r' % (what, r.rc, r.out[:300], r.err[:300], ref.rc, ref.out[:300], ref.err[:300]))


def failed(r, what):
    if r.rc < 0 or r.rc == 99:
        check_rc(r, 1)
    if r.rc == 0:
        raise Fail('%s: the program reports success' % what)
    if not r.err.strip():
        raise Fail('%s: the program does not print a message' % what)


def compositions(n):
    for m in range(1 << (n - 1)):
        c, k = [], 1
        for i in range(n - 1):
            if m >> i & 1:
                c.append(k)
                k = 1
            else:
                k += 1
        yield tuple(c + [k])


# ---- input arrives in pieces ------------------------------------------------------------------------------------------------
def chunk_body(case):
    op, t, ch = case
    pre = ['-f', conf()] + op
    ref = yield Run(pre, t)
    r = yield Run(pre, t, chunks=ch, flags=F_COOKIE_IN | F_PERTURB)
    same(r, ref, 'reading in pieces of %r bytes' % (ch,))


def chunk_cases():
    for t in SHORT:
        for op in OPS:
            for c in compositions(len(t)):
                yield op, t, c
    for t in LONG:
        for op in OPS:
            for k in range(1, len(t) + 1):
                yield op, t, (k,)
                for j in range(1, len(t) + 1 - k) if not quick() or k % 4 == 1 else ():
                    yield op, t, (k, j, len(t))
    for t in HUGE:
        for op in OPS[:pick(2, 7)]:
            for k in (1, 2, 3, 7, 511, 512, 513, 1024, 4095, 4096, 4097, 8191, 65536) + pick((), tuple(range(4, 600, 11))):
                yield op, t, (k,)


# ---- output leaves in pieces ---------------------------------------------------------------------------------------------------
def step_body(case):
    op, t, k = case
    pre = ['-f', conf()] + op
    ref = yield Run(pre, t)
    r = yield Run(pre, t, out_step=k, flags=F_COOKIE_OUT | F_PERTURB)
    same(r, ref, 'writing in pieces of %d bytes' % k)


def step_cases():
    for t in SHORT + LONG:
        for op in OPS:
            for k in range(1, pick(48, 300)):
                yield op, t, k
    for t in HUGE:
        for op in OPS[:3]:
            for k in (1, 3, 100, 1023, 1024, 1025, 4095, 4096, 5000):
                yield op, t, k
    for op in LISTS:
        for k in range(1, pick(64, 700)):
            yield op, b'', k


# ---- reading fails ------------------------------------------------------------------------------------------------------------------
def rfault_body(case):
    op, t, ch, k = case
    r = yield Run(['-f', conf()] + op, t, chunks=ch, in_err=k, flags=F_COOKIE_IN | F_PERTURB)
    failed(r, 'reading fails after %d of %d bytes' % (k, len(t)))
    if r.out:
        raise Fail('reading fails after %d bytes: there is output: %r' % (k, r.out[:300]))
    d = core.CTX.fresh_dir()
    path = d + '/BXMC-COOKIE-IN'
    with open(path, 'wb') as f:
        f.write(t)
    r = yield Run(['-f', conf()] + op + [path], t, chunks=ch, in_err=k, flags=F_COOKIE_IN | F_PERTURB)
    failed(r, 'reading the input file fails after %d of %d bytes' % (k, len(t)))
    if r.out:
        raise Fail('reading fails after %d bytes: there is output: %r' % (k, r.out[:300]))


def rfault_cases():
    for t in SHORT + LONG + [b'']:
        for op in OPS:
            for k in range(len(t) + 1):
                for ch in ((), (1,), (3, 2)):
                    yield op, t, ch, k
    for t in HUGE:
        for op in OPS[:pick(2, 5)]:
            for k in list(range(4094, 4099)) + [0, 1, 8191, 8192, 8193, len(t) - 1, len(t)] + list(range(0, len(t), pick(1500, 97))):
                yield op, t, (), k
                yield op, t, (1000,), k


# ---- writing fails ------------------------------------------------------------------------------------------------------------------
def wfault_body(case):
    op, t, steps = case
    pre = ['-f', conf()] + op
    ref = yield Run(pre, t)
    if ref.rc or not ref.out:
        return
    n = len(ref.out)
    ks = range(n) if n < 600 else sorted(set(list(range(0, n, pick(n // 40, n // 400 + 1))) + [0, 1, 1023, 1024, 1025, 4095, 4096, 4097, 8192, n - 1, n - 2]))
    d = core.CTX.fresh_dir()
    for k in ks:
        if k >= n:
            continue
        r = yield Run(pre, t, out_err=k, out_step=steps, flags=F_COOKIE_OUT | F_PERTURB)
        failed(r, 'writing fails after %d of %d bytes' % (k, n))
        if not ref.out.startswith(r.out):
            raise Fail('other output than without fault')
        if steps == 0 and op[0] not in ('-l', '-q'):
            r = yield Run(pre + ['-', d + '/BXMC-COOKIE-OUT'], t, out_err=k, flags=F_COOKIE_OUT | F_PERTURB)
            failed(r, 'writing the output file fails after %d of %d bytes' % (k, n))
    # a fault which is out of reach has no effect
    r = yield Run(pre, t, out_err=n, out_step=steps, flags=F_COOKIE_OUT | F_PERTURB)
    same(r, ref, 'a fault after the last byte')
    r = yield Run(pre + ['-', '/dev/full'], t)
    failed(r, 'the device is full')


def wfault_cases():
    for t in SHORT + LONG:
        for op in OPS:
            for s in (0, 1, 7):
                yield op, t, s
    for t in HUGE:
        for op in OPS[:pick(2, 5)]:
            yield op, t, 0
    for op in LISTS:
        for s in (0, 50):
            yield op, b'', s


# ---- both --------------------------------------------------------------------------------------------------------------------------------
def both_body(case):
    op, t, ch, k = case
    pre = ['-f', conf()] + op
    ref = yield Run(pre, t)
    r = yield Run(pre, t, chunks=ch, out_step=k, flags=F_COOKIE_IN | F_COOKIE_OUT | F_PERTURB)
    same(r, ref, 'reading %r and writing %d bytes' % (ch, k))
    for e in range(0, len(ref.out), pick(3, 1)):
        r = yield Run(pre, t, chunks=ch, out_step=k, out_err=e, flags=F_COOKIE_IN | F_COOKIE_OUT | F_PERTURB)
        failed(r, 'writing fails after %d bytes' % e)


def both_cases():
    for t in SHORT:
        for op in OPS:
            for ch in ((1,), (2,), (1, 3)):
                for k in (1, 2, 5, 16):
                    yield op, t, ch, k


# ---- the configuration ---------------------------------------------------------------------------------------------------------------------
CONFIGS = [west().cfg(), '# c\n\n' + closed(tags=('a', 'b')).cfg() + west(sample='x\n  y').cfg()]


def cfg_body(case):
    i, q = case
    t = CONFIGS[i].encode()
    d = core.CTX.fresh_dir()
    path = d + '/BXMC-COOKIE-IN'
    with open(path, 'wb') as f:
        f.write(t)
    ref = yield Run(['-f', path] + q)
    check_rc(ref)
    for ch in [(k,) for k in list(range(1, 40)) + list(range(41, len(t), pick(37, 3)))] + [(k, len(t)) for k in range(1, len(t), pick(5, 1))]:
        r = yield Run(['-f', path] + q, t, chunks=ch, flags=F_COOKIE_IN | F_PERTURB)
        same(r, ref, 'reading the configuration in pieces of %r bytes' % (ch,))
    for k in range(0, len(t) + 1, pick(2, 1)):
        for ch in ((), (7,)):
            r = yield Run(['-f', path] + q, t, chunks=ch, in_err=k, flags=F_COOKIE_IN | F_PERTURB)
            failed(r, 'reading the configuration fails after %d of %d bytes' % (k, len(t)))
            if r.out:
                raise Fail('output is %r' % r.out)


def spaces():
    return [
        Space('reads', chunk_cases, chunk_body, 'plain', 'all divisions of short texts into reads; division sizes of long texts'),
        Space('writes', step_cases, step_body, 'plain', 'all write sizes'),
        Space('read-faults', rfault_cases, rfault_body, 'plain', 'a read error at every position, also instead of the end of the file'),
        Space('write-faults', wfault_cases, wfault_body, 'plain', 'a write error at every position'),
        Space('both', both_cases, both_body, 'plain', 'divided reads and writes with write errors'),
        Space('configuration', lambda: itertools.product(range(len(CONFIGS)), (['-q', '(all)'], ['-l'])), cfg_body, 'plain', 'divided reads and read errors of the configuration file'),
    ]
