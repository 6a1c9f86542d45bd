"""C21 command line arguments"""
from common import *
import re

MIXED = mixed()
CLOSED = closed(padding={'left': 1, 'right': 1})
CFG = MIXED.cfg() + CLOSED.cfg() + west(padding={'left': 1}).cfg()
CFG2 = west('other', '//').cfg() + Design('closed', {'N': '=', 'S': '=', 'W': '!'}).cfg()
TEXT = b'  one\n\ta two\n\n    three\n'


def cfg():
    return config(CFG)


def cfg2():
    return config(CFG2)


def bad(r, what):
    check_rc(r, 1)
    if r.out:
        raise Fail('%s: there is output: %r' % (what, r.out[:200]))
    if not r.err.startswith(b'boxes: ') and not r.err.startswith(b'boxes:'):
        raise Fail('%s: message is %r' % (what, r.err[:200]))


def same(a, b, what):
    if (a.rc, a.out, a.err) != (b.rc, b.out, b.err):
        raise Fail('%s: results differ\n--- first (%d):\n%s%s\n--- second (%d):\n%s%s' % (
            what, a.rc, a.out.decode('utf-8', 'replace'), a.err.decode('utf-8', 'replace'),
            b.rc, b.out.decode('utf-8', 'replace'), b.err.decode('utf-8', 'replace')))


# ---- argument strings -------------------------------------------------------------------------------------------------
# a parser returns a list of equivalent canonical argument lists (the first one counts), None if the string is not valid, or
# (list, 'may') if the string may also be rejected

def p_align(s):
    low = s.lower()
    h, v, j = 'l', 't', ''
    i = 0
    if not s:
        return None
    while i < len(low):
        c, n = low[i], low[i + 1:i + 2]
        if c in 'lcr':
            h, v, j = c, 'c', c
            i += 1
        elif c == 'h' and n and n in 'lcr':
            h = n
            i += 2
        elif c == 'v' and n and n in 'tcb':
            v = n
            i += 2
        elif c == 'j' and n and n in 'lcr':
            j = n
            i += 2
        else:
            return None
    return ['-a', 'h%sv%s%s' % (h, v, 'j' + j if j else '')], low != s


def p_pad(s):
    m = re.fullmatch(r'(?:[ahvtlbrAHVTLBR][0-9]+)+', s)
    if not m:
        return None
    p = {}
    for c, n in re.findall(r'([a-z])([0-9]+)', s.lower()):
        for k in {'a': 'lrtb', 'h': 'lr', 'v': 'tb'}.get(c, c):
            p[k] = int(n)
    if any(n >= 1 << 31 for n in p.values()):
        return None
    return ['-p', ''.join('%s%d' % x for x in sorted(p.items()))], s != s.lower()


def p_size(s):
    m = re.fullmatch(r'([0-9]*)(?:[xX]([0-9]*))?', s)
    if not m:
        return None
    w, h = int(m.group(1) or 0), int(m.group(2) or 0)
    if w == 0 and h == 0 or w >= 1 << 63 or h >= 1 << 63:
        return None
    strict = re.fullmatch(r'([1-9][0-9]*)|([1-9][0-9]*)?x[1-9][0-9]*', s)
    return ['-s', ('%d' % w if w else '') + ('x%d' % h if h else '')], not strict


def p_tabs(s):
    m = re.fullmatch(r'( *[+]?[0-9]+)([ekuEKU]?)', s)
    if not m or not 1 <= int(m.group(1)) <= 16:
        return None
    return ['-t', '%d%s' % (int(m.group(1)), m.group(2).lower() or 'e')], not re.fullmatch('[1-9][0-9]*[eku]?', s)


def p_eol(s):
    if s.upper() not in ('CR', 'LF', 'CRLF'):
        return None
    return ['-e', s.upper()], s != s.upper()


def p_indent(s):
    for w in ('box', 'text', 'none'):
        if s and w.startswith(s.lower()):
            return ['-i', w], s != s.lower()
    return (['-i', 'box'], True) if s == '' else None


def p_kill(s):
    l = s.lower()
    if l in ('true', 'yes', 'on', '1', 't'):
        return ['-k', 'true'], s != 'true'
    if l in ('false', 'no', 'off', '0', 'f'):
        return ['-k', 'false'], s != 'false'
    return None


BOXED = b'#\n# one\n#  two \n#\n'


def parsers():
    return {
        'a': (p_align, ['-d', 'mixed', '-s', '30x14'], TEXT),
        'p': (p_pad, ['-d', 'closed'], TEXT),
        's': (p_size, ['-d', 'closed'], TEXT),
        't': (p_tabs, ['-d', 'west', '-i', 'text'], b'\t\tx\n        y\tz\n\t   v\n'),
        'e': (p_eol, ['-d', 'closed'], TEXT),
        'i': (p_indent, ['-d', 'closed'], b'    one\n      two\n'),
        'k': (p_kill, ['-d', 'west', '-r'], BOXED),
    }


def arg_cases():
    n = pick(0, 1)
    yield from (('a', s) for s in strings('lcrhvjtb', 4 + n))
    yield from (('a', s) for s in strings('hlVcJRx \u00e4', 3 + n))
    yield from (('p', s) for s in strings('ahvtlbr01', 4 + n))
    yield from (('p', s) for s in strings('aL2-+ .x\u00e4', 3 + n))
    yield from (('s', s) for s in strings('0123x', 4 + n))
    yield from (('s', s) for s in strings('30xX -+.e', 4))
    yield from (('t', s) for s in strings('0129eku', 4 + n))
    yield from (('t', s) for s in strings('18eKU +-x.', 3 + n))
    for o in 'eik':
        yield from ((o, s) for s in strings('crlfLF ', 4))
        yield from ((o, s) for s in strings('boxtenTE', 4))
        yield from ((o, s) for s in strings('01ytn', 3))
        for w in ('true', 'false', 'yes', 'no', 'on', 'off', 'text', 'box', 'none', 'CRLF', 'LF', 'CR', 'LFCR'):
            for a in {w, w.upper(), w.title()}:
                yield o, a
                for i in range(len(a) + 1):
                    yield o, a[:i]
                    yield o, a[:i] + 'x' + a[i:]
                    yield o, a[:i] + a[i + 1:]
    for k in (31, 32, 33, 63, 64, 65, 96):
        for d in (-1, 0, 1, 2, 5):
            z = str((1 << k) + d)
            if k >= 63:
                yield 's', z
                yield 's', '5x' + z
                yield 's', 'x' + z
            for t in ('', 'e', 'u'):
                yield 't', z + t
            if (1 << k) + d >= 1 << 31:
                for c in 'ahvtlbr':
                    yield 'p', c + z
                    yield 'p', 'a1' + c + z
            yield 't', '-' + z
            yield 'p', 'a-' + z
            yield 's', '-' + z


def arg_body(case):
    o, s = case
    fn, pre, inp = parsers()[o]
    want = fn(s)
    pre = ['-f', cfg()] + pre
    if o == 's' and want and any(int(x) > 3000 for x in re.findall('[0-9]+', s)):
        return                   # would be very large
    r = yield Run(pre + ['-' + o, s], inp)
    if want is None:
        bad(r, '-%s %r' % (o, s))
        d = core.CTX.fresh_dir()
        with open(d + '/in', 'wb') as f:
            f.write(inp)
        for existing in ([] if len(s) > 2 else [False, True]):
            if existing:
                with open(d + '/out', 'wb') as f:
                    f.write(b'keep')
            r = yield Run(pre + ['-' + o, s, d + '/in', d + '/out'])
            bad(r, '-%s %r' % (o, s))
            if existing and open(d + '/out', 'rb').read() != b'keep' or not existing and os.path.exists(d + '/out'):
                raise Fail('the output file was touched')
    else:
        args, may = want
        if may and r.rc == 1 and not r.out:
            return
        check_rc(r)
        c = yield Run(pre + args, inp)
        check_rc(c)
        same(r, c, '-%s %r compared with %s' % (o, s, ' '.join(args)))


# ---- forms -------------------------------------------------------------------------------------------------------------------
LONG = {'a': 'align', 'c': 'create', 'd': 'design', 'e': 'eol', 'f': 'config', 'h': 'help', 'i': 'indent', 'l': 'list', 'm': 'mend',
        'n': 'encoding', 'p': 'padding', 'q': 'tag-query', 'r': 'remove', 's': 'size', 't': 'tabs', 'v': 'version'}
OTHERS = ['color', 'no-color', 'kill-blank', 'no-kill-blank', 'extra']
NAMES = list(LONG.values()) + OTHERS
VALUES = {'a': ('c', 'hrvb', 'jr'), 'c': ('#', '-x', '--', '='), 'd': ('west', 'MIXED', 'nosuch'), 'e': ('CRLF', 'CR', 'x'), 'f': (None,),
          'i': ('text', 'none', '-'), 'n': ('UTF-8', 'ISO-8859-1'), 'p': ('a2', 'l1t2', 'x'), 'q': ('(all)', 'zz', '-a'),
          's': ('30x10', '44', 'x9', '-1'), 't': ('4', '2u', '0'), 'h': (), 'l': (), 'm': (), 'r': (), 'v': ()}


def prefixes(name):
    """all ways to abbreviate a long option"""
    return [name[:i] for i in range(1, len(name) + 1) if i == len(name) or sum(n.startswith(name[:i]) for n in NAMES) == 1]


def form_body(case):
    o, v, rest, inp = case
    if o == 'f':
        v = cfg2()
    base = [] if o == 'f' else ['-f', cfg()]
    if v is None:
        forms = [['-' + o]] + [['--' + p] for p in prefixes(LONG[o])]
    else:
        forms = [['-' + o, v], ['-' + o + v]]
        for p in prefixes(LONG[o]):
            forms += [['--%s=%s' % (p, v)], ['--' + p, v]]
    ref = None
    rest = list(rest)
    for f in forms:
        r = yield Run(base + f + rest, inp)
        if r.rc not in (0, 1):
            check_rc(r)
        if ref is None:
            ref = r
        same(ref, r, '%s compared with %s' % (f, forms[0]))
        if rest:
            r = yield Run(base + rest + f, inp)
            same(ref, r, 'options before %s instead of after' % f)
    if ref.rc == 1 and not ref.err:
        raise Fail('%s: failure without a message' % forms[0])


def form_cases():
    for o in LONG:
        for v in VALUES[o] or (None,):
            for rest in ((), ('-d', 'west'), ('-r',), ('-d', 'mixed', '-s', '40x12')):
                if o in 'ds' and any(x == '-' + o for x in rest):
                    continue
                for inp in (TEXT, b'# one\n#   two\n'):
                    yield o, v, rest, inp


def long_body(p):
    """an arbitrary long option without and with an argument"""
    exact = p in NAMES
    hits = [n for n in NAMES if n.startswith(p)]
    ok = exact or len(hits) == 1
    name = p if exact else hits[0] if ok else None
    needs = name in [LONG[o] for o in VALUES if VALUES[o]] + ['extra']
    r = yield Run(['-f', cfg(), '--' + p], b'+---+\n| T |\n+---+\n')
    if not ok or needs:
        bad(r, '--' + p)
        if b'Usage:' not in r.err:
            raise Fail('--%s: no hint on usage: %r' % (p, r.err))
    else:
        check_rc(r)
    r = yield Run(['-f', cfg(), '--' + p + '=x'], b'T')
    if not ok or not needs:
        bad(r, '--' + p + '=x')
    r = yield Run(['-f', cfg(), '--' + p + '='], b'T')
    if not ok or not needs:
        bad(r, '--' + p + '=')


def long_cases():
    seen = set()
    for n in NAMES:
        for i in range(1, len(n) + 1):
            for x in (n[:i], n[:i] + 'x', n[:i].upper(), n[:i - 1] + '-', n[:i] + '-' + n[i:], n[1:i + 1], n[:i] + n[-1]):
                if x and x not in seen:
                    seen.add(x)
                    yield x
    for s in strings('abcdefghijklmnopqrstuvwxyz-', 2, 1):
        if s not in seen and s != '-':
            yield s


def short_body(c):
    known = 'acdefhiklmnpqrstvx'
    needs = 'acdefiknpqstx'
    r = yield Run(['-f', cfg(), '-' + c], b'T')
    if c in 'rm':
        return
    if c in needs or c not in known:
        if c == '?':
            return
        bad(r, '-' + c)
        if b'Usage:' not in r.err:
            raise Fail('-%s: no hint on usage: %r' % (c, r.err))
    else:
        check_rc(r)
    r = yield Run(['-f', cfg(), '-r', '-' + c], b'# T')
    if c in needs or c not in known:
        bad(r, '-' + c)


def cluster_cases():
    for n in (1, 2, 3):
        for fl in itertools.product('rml', repeat=n):
            for o in (None, 'a', 'd', 'i', 'p', 's', 't', 'e', 'k'):
                if o == 'k' and 'm' in fl:
                    continue
                yield fl, o


def cluster_body(case):
    fl, o = case
    v = {'a': 'c', 'd': 'west', 'i': 'none', 'p': 'a1', 's': '30', 't': '2u', 'e': 'CR', 'k': 'true', None: ''}[o]
    for inp in (TEXT, b'# one\n#   two\n'):
        ref = yield Run(['-f', cfg()] + ['-' + f for f in fl] + (['-' + o, v] if o else []), inp)
        if o:
            r = yield Run(['-f', cfg(), '-' + ''.join(fl) + o, v], inp)
            same(ref, r, '-%s%s %s' % (''.join(fl), o, v))
        r = yield Run(['-f', cfg(), '-' + ''.join(fl) + (o or '') + v], inp)
        same(ref, r, '-%s%s%s' % (''.join(fl), o or '', v))


# ---- pairs -----------------------------------------------------------------------------------------------------------------------
INST = [('a', 'c'), ('a', 'hrvb'), ('a', 'jr'), ('a', 'vbjc'), ('c', '#'), ('c', ';;'), ('color', None), ('no-color', None), ('d', 'mixed'),
        ('d', 'west'), ('d', 'closed'), ('e', 'CRLF'), ('e', 'LF'), ('e', 'CR'), ('f', 1), ('f', 2), ('i', 'text'), ('i', 'none'), ('i', 'box'),
        ('k', 'true'), ('k', 'false'), ('kill-blank', None), ('no-kill-blank', None), ('l', None), ('m', None), ('n', 'UTF-8'),
        ('n', 'ISO-8859-1'), ('p', 'a1'), ('p', 'l3t0'), ('p', 'v2r1'), ('r', None), ('s', '30x10'), ('s', '44x20'), ('s', '50'), ('t', '4'), ('t', '8u'),
        ('t', '2k'), ('t', '8e'), ('t', '8'), ('t', '4u')]
GROUP = {'kill-blank': 'k', 'no-kill-blank': 'k', 'no-color': 'color'}
PTEXT = (b'  one\n\ta \x1b[31mtwo\x1b[0m\xc3\xa4\n\n    three\n', b'#\n# one\n#\n  // x\n', b'\t\t  x\n\t         y\n')


def argv(x):
    o, v = x
    if o == 'f':
        v = cfg() if v == 1 else cfg2()
    return ['-' + o if len(o) == 1 else '--' + o] + ([v] if v is not None else [])


def group(x):
    return GROUP.get(x[0], x[0])


def pair_cases():
    for a, b in itertools.combinations(range(len(INST)), 2):
        if {group(INST[a]), group(INST[b])} == {'k', 'm'} or group(INST[a]) == group(INST[b]) == 'k':
            continue
        yield a, b
        if group(INST[a]) == group(INST[b]):
            yield b, a


def pair_body(case):
    a, b = (INST[i] for i in case)
    for pre in ([], ['-r'], ['-m'], ['-d', 'west']) if 'm' not in (a[0], b[0]) else ([], ['-d', 'mixed']):
        if pre == ['-m'] and 'k' in (group(a), group(b)):
            continue
        if pre[:1] == ['-d'] and 'd' in (a[0], b[0]):
            continue
        f = [] if 'f' in (a[0], b[0]) else ['-f', cfg()]
        for t in PTEXT:
            r1 = yield Run(f + pre + argv(a) + argv(b), t)
            if r1.rc not in (0, 1):
                check_rc(r1)
            if group(a) != group(b):
                r2 = yield Run(f + argv(b) + pre + argv(a), t)
                same(r1, r2, 'order of %s %s' % (a, b))
                r2 = yield Run(argv(b) + argv(a) + pre + f, t)
                same(r1, r2, 'order of %s %s' % (a, b))
            else:
                if a[0] in 'ap':
                    want = ['-' + a[0], a[1] + b[1]]
                elif a[0] == 's' and ('x' in a[1]) > ('x' in b[1]):
                    continue        # not specified whether the height is kept
                else:
                    want = argv(b)
                r2 = yield Run(f + pre + want, t)
                same(r1, r2, '%s after %s' % (b, a))


OV = {'d': ('mixed', 'west', 'closed'), 'e': ('CRLF', 'LF', 'CR', 'crlf'), 'i': ('text', 'none', 'box', 't', 'n', 'b'),
      's': ('30x10', '5x3', '44x20', '1x1', '20x90'), 'n': ('UTF-8', 'ISO-8859-1', 'ISO-8859-15', 'US-ASCII'),
      't': [str(n) + c for n in range(1, 17) for c in ('', 'e', 'u', 'k')], 'c': ('#', ';;', '// ', '\u4e16')}


def override_cases():
    for o, vs in OV.items():
        for a, b in itertools.product(vs, repeat=2):
            yield o, (a, b)
        if o != 't':
            for c in itertools.product(vs, repeat=3):
                yield o, c


def override_body(case):
    """of several values for a setting, the last one is used"""
    o, vs = case
    for pre in ([], ['-r'], ['-d', 'west']):
        if pre[:1] == ['-d'] and o in 'dc' or pre == ['-r'] and o == 'c':
            continue
        for t in PTEXT if o != 't' else PTEXT[::2]:
            ref = yield Run(['-f', cfg()] + pre + ['-' + o, vs[-1]], t)
            r = yield Run(['-f', cfg()] + pre + [w for v in vs for w in ('-' + o, v)], t)
            same(ref, r, '-%s with the values %r' % (o, vs))


def triple_cases():
    idx = [i for i, x in enumerate(INST) if x not in (('a', 'vbjc'), ('c', ';;'), ('d', 'closed'), ('e', 'CR'), ('e', 'LF'), ('f', 1), ('f', 2), ('s', '50'),
                                                      ('kill-blank', None), ('no-kill-blank', None), ('i', 'box'), ('t', '8e'), ('n', 'UTF-8'))]
    for c in itertools.combinations(idx, 3):
        g = [group(INST[i]) for i in c]
        if len(set(g)) == 3 and not {'k', 'm'} <= set(g):
            yield c


def triple_body(c):
    ref = None
    for p in itertools.permutations(c):
        r = yield Run(['-f', cfg()] + [w for i in p for w in argv(INST[i])], PTEXT[0])
        if r.rc not in (0, 1):
            check_rc(r)
        ref = ref or r
        same(ref, r, 'order of %s' % [INST[i] for i in p])


# ---- invalid arguments among valid ones -----------------------------------------------------------------------------------------
INVALID = [['-a', 'x'], ['-a', ''], ['-a', 'h'], ['-c', ''], ['-e', 'FF'], ['-i', 'boxx'], ['-k', 'maybe'], ['-p', '4'], ['-p', 'a'], ['-q', ''],
           ['-q', 'A'], ['-q', 'a,a'], ['-s', 'x'], ['-s', '0'], ['-s', '5y'], ['-t', '17'], ['-t', '0'], ['-t', '4z'], ['-t', '4ue'], ['-z'], ['--none'],
           ['--co'], ['--list=1'], ['-x', 'foo'], ['--size=-4'], ['--padding=l1x']]


def invalid_body(case):
    bad_, i, order, files = case
    x = argv(INST[i])
    if bad_[0] == '-k' and group(INST[i]) in 'km' and order:
        return
    args = (x + bad_) if order else (bad_ + x)
    d = core.CTX.fresh_dir()
    with open(d + '/in', 'wb') as f:
        f.write(TEXT)
    if files == 'existing':
        with open(d + '/out', 'wb') as f:
            f.write(b'keep')
    f = [] if INST[i][0] == 'f' else ['-f', cfg()]
    r = yield Run(f + args + [d + '/in', d + '/out'] if files else f + args, TEXT)
    bad(r, ' '.join(args))
    if files == 'existing':
        if open(d + '/out', 'rb').read() != b'keep':
            raise Fail('the output file was changed')
    elif os.path.exists(d + '/out'):
        raise Fail('the output file was created')
    if open(d + '/in', 'rb').read() != TEXT:
        raise Fail('the input file was changed')


# ---- file arguments ----------------------------------------------------------------------------------------------------------------
def files_body(case):
    kinds, where = case
    d = core.CTX.fresh_dir()
    with open(d + '/in', 'wb') as f:
        f.write(b'file')
    with open(d + '/old', 'wb') as f:
        f.write(b'keep')
    paths = [{'in': d + '/in', 'new': d + '/new', 'old': d + '/old', '-': '-', 'none': d + '/missing/x'}[k] for k in kinds]
    o = ['-f', cfg(), '-d', 'west']
    args = list(paths)
    pos = {'end': len(args), 'start': 0, 'mid': 1, 'dashes': None}[where]
    if pos is None:
        args = o + ['--'] + args
    else:
        args[pos:pos] = o
    r = yield Run(args, b'stdin')
    if len(paths) > 2:
        bad(r, 'arguments %s' % (kinds,))
        if b'illegal parameter -- ' + os.fsencode(paths[2]) not in r.err:
            raise Fail('message is %r' % r.err)
        if os.path.exists(d + '/new') or open(d + '/old', 'rb').read() != b'keep' or open(d + '/in', 'rb').read() != b'file':
            raise Fail('a file was touched')
        return
    src = kinds[0] if kinds else '-'
    dst = kinds[1] if len(kinds) > 1 else '-'
    if src in ('none', 'new') or dst == 'none':
        bad(r, 'arguments %s' % (kinds,))
        return
    want = b'# ' + {'in': b'file', 'old': b'keep', '-': b'stdin'}[src]
    if dst == src != '-':
        return
    check_rc(r)
    if dst == '-':
        got = r.out
    else:
        if r.out:
            raise Fail('output on stdout: %r' % r.out)
        got = open({'in': d + '/in', 'old': d + '/old', 'new': d + '/new'}[dst], 'rb').read()
    if got != want:
        raise Fail('output is %r' % got)


def files_cases():
    for n in range(5):
        for k in itertools.product(('in', 'new', 'old', '-', 'none'), repeat=n):
            for w in ('end', 'start', 'mid', 'dashes'):
                if n or w in ('end', 'dashes'):
                    yield k, w


# ---- help and version ----------------------------------------------------------------------------------------------------------------
def info_body(case):
    o, rest, first = case
    r = yield Run((rest + [o]) if not first else [o] + rest, b'T')
    check_rc(r)
    if not r.out:
        raise Fail('output %r; %r' % (r.out[:200], r.err[:200]))
    t = decode(r.out)
    if o in ('-v', '--version'):
        v = open(core.REPO + '/Makefile').read()
        v = re.search(r'^BVERSION *= *(\S+)', v, re.M).group(1)
        if not re.fullmatch(r'boxes version %s\n' % re.escape(v), t):
            raise Fail('version is %r' % t)
    else:
        for s, l in LONG.items():
            if not re.search(r'^ +-%s, --%s\b' % (s, l), t, re.M):
                raise Fail('option --%s is not mentioned in the usage information' % l)
        if 'Usage:' not in t:
            raise Fail('no usage information')


def info_cases():
    for o in ('-v', '--version', '-h', '--help'):
        for rest in ([], ['-r'], ['-d', 'nosuch'], ['-f', '/nonexistent'], ['-l'], ['-t', '4'], ['-c', '#']):
            for first in (True, False):
                yield o, rest, first
    yield '-?', [], True


def spaces():
    res = [
        Space('arguments', lambda: dict.fromkeys(arg_cases()), arg_body, 'plain', 'all short argument strings of -a -p -s -t -e -i -k'),
        Space('forms', form_cases, form_body, 'plain', 'short, long, abbreviated, separate and attached forms'),
        Space('long', long_cases, long_body, 'plain', 'all prefixes and variants of long options'),
        Space('short', lambda: [chr(c) for c in range(0x21, 0x7f) if c != 0x2d], short_body, 'plain', 'all single letters as options'),
        Space('clusters', cluster_cases, cluster_body, 'plain', 'combined single letter options'),
        Space('pairs', pair_cases, pair_body, 'plain', 'all ordered pairs of options'),
        Space('override', override_cases, override_body, 'plain', 'all pairs (triples) of values of the same option'),
        Space('invalid', lambda: itertools.product(INVALID, range(len(INST)), (0, 1), ('', 'new', 'existing')), invalid_body, 'plain',
              'invalid arguments combined with every option'),
        Space('files', files_cases, files_body, 'plain', 'all lists of up to four file arguments'),
        Space('info', info_cases, info_body, 'plain', 'help and version'),
    ]
    if not quick():
        res.append(Space('triples', triple_cases, triple_body, 'plain', 'all orders of three options'))
    return res
