"""C25 memory safety: every execution of the enumerated spaces is run in an instrumented build (AddressSanitizer,
UndefinedBehaviorSanitizer), and in two builds which fill indeterminate memory differently."""
from common import *
import re
import shipped

DRAW, REMOVE, MEND, DETECT = [], ['-r'], ['-m'], 'detect'


def sane(r):
    if r.rc < 0 or r.rc == 99 or r.rc > 1:
        if r.rc == -14:
            raise Fail('the program did not end within the time limit')
        m = re.search(rb'(runtime error|AddressSanitizer).*', r.err)
        raise Fail('the program crashed (status %d): %s' % (r.rc, (m.group(0) if m else r.err[-300:]).decode('utf-8', 'replace')))
    if r.rc == 1 and not r.err.strip():
        raise Fail('exit status 1 without a message')


def one(args, inp=b'', **kw):
    r = yield Run(args, inp, **kw)
    sane(r)
    return r


def two(args, inp=b'', **kw):
    """the same run with indeterminate memory filled in two ways"""
    r0 = yield Run(args, inp, kind='zero', **kw)
    r1 = yield Run(args, inp, kind='pattern', **kw)
    for r in (r0, r1):
        sane(r)
    if r0 != r1:
        raise Fail('the result depends on indeterminate memory: %r / %r' % (r0, r1))
    return r0


_units = None


def units():
    """single-design configurations: all shipped designs, and generated ones"""
    global _units
    if _units is None:
        t = shipped.text()
        u = []
        for m in re.finditer(r'^BOX .*?^END [^\n]*\n', t, re.M | re.S):
            u.append((re.match(r'BOX +([^\s,]+)', m.group(0)).group(1), m.group(0)))
        for d in std_designs():
            u.append((d.name, d.cfg()))
        rules = Design('rules', {'W': '# ', 'E': ' #', 'N': '=', 'NW': '##', 'NE': '##'}, rep=[('g', 'a', 'bcd'), ('o', ' *$', ''), ('g', '(b)', '$1$1')],
                       rev=[('g', 'bcd', 'a'), ('o', '^', 'x')], padding={'a': 2})
        u.append(('rules', rules.cfg()))
        esc = Design('esc', {'NW': '\x1b[1m+\x1b[0m', 'N': '\x1b[1m-\x1b[0m', 'NE': '+', 'W': '\x1b[31m|', 'E': '|\x1b[0m', 'SW': '+', 'S': '-', 'SE': '\x1b[7m+\x1b[0m'})
        u.append(('esc', esc.cfg()))
        _units = u
    return _units


# ---- texts ------------------------------------------------------------------------------------------------------------------
SIGMA = [b' ', b'a', b'\xc3\xa4', b'\n', b'\xcc\x81', b'\t', b'\x1b', b'\xe4\xb8\x96', b'\r', b'\x1b[1m', b'\xff', b'#', b'\xe2\x80\x8b']
OPS = ([], ['-r'], ['-m'], ['-s', '7x5', '-a', 'hcvcjr', '-p', 'a1'], ['-i', 'text', '-k', 'true', '-e', 'CRLF'], ['-t', '3k', '-r'], ['-t', '2u', '-m', '-i', 'none'])


def text_cases():
    n = len(units())
    for k in range(0, pick(2, 3) + 1):
        for t in itertools.product(SIGMA, repeat=k):
            for i in range(n):
                if quick() and k == 2 and i < n - 12 and (SIGMA.index(t[0]) % 2 == 0 or SIGMA.index(t[1]) % 2 == 0):
                    continue             # shipped designs: a fixed part of the alphabet in the quick tier
                for o in OPS[:3] if k > 1 else OPS:
                    yield i, b''.join(t), o
    std = range(n - 12, n)
    for t in itertools.product(SIGMA[:pick(6, 10)], repeat=pick(3, 4)):
        for i in std:
            for o in OPS[:3]:
                yield i, b''.join(t), o


def text_body(run):
    def body(c):
        i, t, o = c
        name, cfg = units()[i]
        yield from run(['-f', config(cfg), '-d', name] + o, t)
        if o in (['-r'], ['-m']):
            yield from run(['-f', config(cfg)] + o, t)
    return body


# ---- damaged boxes -----------------------------------------------------------------------------------------------------------
BT = ['a\n', 'ab c\n\n  d\n', '\u4e16\u4e16\n\ta\n']


def chars(line):
    """positions of character boundaries"""
    return range(len(line) + 1)


def damage(box, level):
    """every single damage of a box"""
    ls = box.split('\n')
    if ls and ls[-1] == '':
        ls.pop()
    n = len(ls)
    for a in range(n + 1):
        for b in range(a, n + 1):
            yield ls[a:b]
    for i in range(n):
        yield ls[:i + 1] + ls[i:]
        yield ls[:i] + [''] + ls[i:]
        yield ls[:i] + ['', ' '] + ls[i + 1:]
        for c in chars(ls[i]):
            l = ls[i]
            yield ls[:i] + [l[:c]] + ls[i + 1:]
            yield ls[:i] + [l[c:]] + ls[i + 1:]
            yield ls[:i] + [l[:c] + l[c + 1:]] + ls[i + 1:]
            yield ls[:i] + [l[:c] + ' ' + l[c:]] + ls[i + 1:]
            if level:
                for x in ('X', '\u4e16', '\t', '\x1b[1m', l[c:c + 1] or ' '):
                    yield ls[:i] + [l[:c] + x + l[c:]] + ls[i + 1:]
                    yield ls[:i] + [l[:c] + x + l[c + 1:]] + ls[i + 1:]
    w = max([len(l) for l in ls] + [0])
    for c in range(1, w):
        yield [l[c:] for l in ls]
        yield [l[:c] for l in ls]
        yield [' ' * c + l for l in ls]
        for e in range(c + 1, w, pick(5, 1)):
            yield [l[c:e] for l in ls]


def damage_cases():
    n = len(units())
    for i in range(n):
        for j in range(pick(1, 2)) if i < n - 12 else range(pick(2, 3)):
            for part in range(pick(2, 64)):
                yield i, j, part


def damage_body(run):
    def body(c):
        i, j, part = c
        name, cfg = units()[i]
        f = ['-f', config(cfg)]
        std = i >= len(units()) - 12
        r = yield Run(f + ['-d', name, '--no-color'], BT[j].encode())
        check_rc(r)
        seen = set()
        k = 0
        for ls in damage(decode(r.out), not quick() or std):
            t = ('\n'.join(ls) + '\n').encode()
            if t in seen:
                continue
            seen.add(t)
            k += 1
            if quick() and not std and len(r.out) > 220 and k % 5:
                continue                 # large designs: a fixed subset in the quick tier
            if k % pick(2, 64) != part:
                continue
            yield from run(f + ['-r'], t)
            yield from run(f + ['-m' if k % 2 else '-r', '-d', name], t)
    return body


# ---- configurations ---------------------------------------------------------------------------------------------------------
CONF = '''parent "p.cfg"
BOX d, al
    author "A"
    revision "1"
    created "2"
    revdate "3"
    tags ("t1", "t2")
    indent "box"
    delimspec \\"
    sample
    s
    ends
    shapes { nw ("+") n ("-", "=") w ("|\\"") e ("xx") }
    elastic (n, w, e, s)
    replace global "a" with "b"
    reverse "b" to "a"
    padding { left 1 top 2 }
END d
'''.replace('n ("-", "=")', 'n ("-")').replace('("|\\"")', '("\\"")')
VALID = CONF.replace('parent "p.cfg"\n', '')
TOK = re.compile(r'"(?:\\.|[^"\n])*"|[A-Za-z]+|\d+|\s+|.')
REPL = ['BOX', 'END', 'parent', 'sample', 'ends', 'shapes', 'elastic', 'padding', 'tags', 'delimspec', 'indent', 'replace', 'global', 'with', 'to', '{', '}', '(', ')',
        ',', '""', '"', '"\\', '\\', '1', '99999999999', '-1', 'x', 'nw', 'se', '\n', '#', '"x"', ':global:', '\0', '\xff']
CHARS = ['', '"', '\\', '(', ')', '{', '}', '\n', ' ', '#', ',', '\0', '\xff', '\u4e16', '\x1b', 'a', '1']


def conf_runs():
    return (['-d', 'd'], ['-l'], ['-q', 't1'], ['-r'], ['-l', '-d', 'al'])


def conf_cases():
    for base in (0, 1):
        toks = TOK.findall((VALID, CONF)[base])
        for i in range(len(toks)):
            yield base, 'del', i, 0
            yield base, 'dup', i, 0
            yield base, 'swap', i, 0
            yield base, 'cut', i, 0
            yield base, 'tail', i, 0
            for r in range(len(REPL)) if base == 0 else ():
                yield base, 'rep', i, r
                if not quick():
                    yield base, 'ins', i, r
        if base == 0:
            for i in range(len(VALID)):
                for c in range(len(CHARS)):
                    yield base, 'chr', i, c
                    if not quick():
                        yield base, 'ich', i, c
                yield base, 'end', i, 0
            if not quick():
                n = [k for k in range(len(toks)) if not toks[k].isspace()]
                for a in n:
                    for b in n:
                        if a < b:
                            yield base, 'del2', a, b
                            yield base, 'swap2', a, b


def conf_text(c):
    base, op, i, k = c
    s = (VALID, CONF)[base]
    t = TOK.findall(s)
    if op == 'del':
        del t[i]
    elif op == 'dup':
        t.insert(i, t[i] + ' ')
    elif op == 'swap':
        j = min(i + 2, len(t) - 1)
        t[i], t[j] = t[j], t[i]
    elif op == 'cut':
        t = t[:i]
    elif op == 'tail':
        t = t[i:]
    elif op == 'rep':
        t[i] = REPL[k]
    elif op == 'ins':
        t.insert(i, ' ' + REPL[k] + ' ')
    elif op == 'del2':
        t[i] = t[k] = ''
    elif op == 'swap2':
        t[i], t[k] = t[k], t[i]
    elif op == 'chr':
        return s[:i] + CHARS[k] + s[i + 1:]
    elif op == 'ich':
        return s[:i] + CHARS[k] + s[i:]
    elif op == 'end':
        return s[:i]
    return ''.join(t)


def conf_body(run):
    def body(c):
        t = conf_text(c).encode('utf-8').replace(b'\xc3\xbf', b'\xff')
        d = core.CTX.fresh_dir()
        with open(d + '/c.cfg', 'wb') as f:
            f.write(t)
        with open(d + '/p.cfg', 'w') as f:
            f.write('BOX q\nsample\nx\nends\nshapes { w ("q") }\nelastic (w)\nEND q\n')
        for q in conf_runs()[:2 if quick() and c[1] == 'chr' else 9]:
            yield from run(['-f', d + '/c.cfg'] + q, b'ab\n c\n', cwd=d)
        for n in os.listdir(d):
            os.unlink(d + '/' + n)
        os.rmdir(d)
    return body


# ---- option arguments --------------------------------------------------------------------------------------------------------
OPTS = {'a': 'hvjlcrtbx', 'c': '/*"\\ \n\u4e16', 'd': 'a,\u4e16 ', 'e': 'CRLFcrlf', 'f': '/.\n', 'i': 'boxten', 'k': 'truefals01', 'n': 'UTF-8l1', 'p': 'ahvlrtb19-', 'q': '+-()alx,\n',
        's': '0123x-', 't': '0138eku', 'x': '()debug,'}
NUMS = sorted({str(s * (2 ** k + e)) for k in range(0, 66) for e in (-1, 0, 1) for s in (1, -1)} | {'0' * 20, '9' * 30, '1' * 300, '007'})


def opt_cases():
    for o, al in OPTS.items():
        for k in range(0, pick(3, 4) + 1):
            if len(al) ** k > pick(1100, 11000):
                continue
            for t in itertools.product(al, repeat=k):
                yield o, ''.join(t)
    for n in NUMS:
        for o, f in (('s', '%s'), ('s', 'x%s'), ('s', '5x%s'), ('s', '%sx3'), ('p', 'a%s'), ('p', 'l%st1'), ('t', '%s'), ('t', '%sk'), ('d', '%s'), ('e', '%s'), ('k', '%s')):
            yield o, f % n
    for k in list(range(1, 40)) + sorted({2 ** i + e for i in range(6, 15) for e in (-1, 0, 1)}):
        for o, al in OPTS.items():
            for ch in (al[0], al[-1], '%', '\u4e16'):
                yield o, ch * k


BIG = re.compile(r'\d{4,}')


def opt_body(run):
    f = VALID + closed().cfg()

    def body(c):
        o, a = c
        if o in 'sp' and BIG.search(a):
            big = [int(x[-4000:]) for x in re.findall(r'\d+', a)]
            if any(1100 < (b if b < 2 ** 63 else 0) for b in big):
                # sizes which would need gigabytes of memory: only the parsing of the argument is of interest
                yield from run(['-f', config(f), '-' + o, a, '-' + o, '-zzz'], b'x\n')
                return
        for rest in ([], ['-r'], ['-l']) if o in 'adkmntxq' else ([],):
            yield from run(['-f', config(f), '-' + o, a] + rest, b'ab\n\tc\n', env={'HOME': ''})
    return body


# ---- argument vectors --------------------------------------------------------------------------------------------------------
ARGV = ['-r', '-m', '-l', '-h', '-v', '-q', '-', '--', '-d', 'closed', '-s', '9x9', '-k', 'true', '-c', '#', '-x', '--no-color', 'nonexistent/x', '', '-', '-p', 'a1', '-i', 'text', '-zz',
        '-n', 'ASCII', '-t', '4k', '-e', 'CR', '-a', 'c', '--color', '--help']


def argv_cases():
    seen = set()
    for k in range(0, pick(2, 3) + 1):
        for c in itertools.product(ARGV, repeat=k):
            if c not in seen:
                seen.add(c)
                yield c
    for n in (10, 100, 1000):
        for a in ARGV:
            yield (a,) * n


def argv_body(run):
    f = closed().cfg() + VALID

    def body(c):
        seen = []
        for k in ('zero', 'pattern') if run is two else (None,):
            d = core.CTX.fresh_dir()
            with open(d + '/ASCII', 'w') as o:
                o.write('a file\n')
            r = yield Run(['-f', config(f)] + list(c), b'ab\n\tc\n', cwd=d, kind=k)
            sane(r)
            files = []
            for n in sorted(os.listdir(d)):
                with open(d + '/' + n, 'rb') as o:
                    files.append((n, o.read()))
                os.unlink(d + '/' + n)
            os.rmdir(d)
            seen.append((r, files))
        if seen[0] != seen[-1]:
            raise Fail('the result depends on indeterminate memory: %r / %r' % (seen[0], seen[-1]))
    return body


# ---- sizes --------------------------------------------------------------------------------------------------------------------
UNITS = [b'x', b' ', b'\t', b'\xe4\xb8\x96', b'e\xcc\x81', b'\x1b[1m', b'\xcc\x81', b'# ', b'+', b'|', b'\xff', b'x ']
LAD = sorted({2 ** i + e for i in range(3, 13) for e in (-1, 0, 1)} | {5, 6, 79, 80, 81, 1000, 2000})
LADN = sorted({c + e for c in (100, 200, 300, 400, 500, 600, 800, 1000, 1500, 2000, 3000) for e in (-1, 0, 1)} | set(LAD))   # numbers of things
LADL = sorted({2 ** i + e for i in range(13, 17) for e in (-1, 0, 1)} | {16370, 16371, 16372, 16373, 16374, 16380, 16400, 20000, 32768})


def size_cases():
    for i, k in ((i, k) for i in range(3) for k in LAD + (LADL if i == 0 else [])):
        for u in UNITS:
            for o in OPS[:3]:
                yield i, 'line', u, k, o
    for k in LAD[:pick(22, 99)]:
        for u in (b'x', b'', b'\xe4\xb8\x96 a', b'# x', b'|'):
            for i in range(3):
                for o in OPS[:3]:
                    yield i, 'lines', u, k, o
                    yield i, 'stairs', u, min(k, 300), o
    for k in LADN:
        for u in (b'x', b'') if k <= pick(2100, 9999) else ():
            for i in pick((2,), (0, 2)):
                for o in OPS[:3]:
                    yield i, 'lines', u, k, o
        if k <= pick(302, 9999):
            for u in ('tags', 'aliases', 'rules', 'designs', 'parents', 'shapes', 'samplel'):
                yield -1, u, b'', k, []
    for k in LAD[:pick(20, 32)]:
        for u in ('name', 'alias', 'tag', 'author', 'rep', 'with', 'sample', 'samplel', 'shape', 'shapes', 'parent', 'indent', 'unknown', 'comment', 'tags', 'aliases', 'rules', 'designs',
                  'parents'):
            yield -1, u, b'', k, []


def sized_cfg(u, k):
    s = VALID
    if u == 'name':
        return s.replace('BOX d,', 'BOX %s,' % ('d' * k)), 'd' * k
    if u == 'alias':
        return s.replace(', al', ', ' + 'a' * k), 'a' * k
    if u == 'tag':
        return s.replace('"t1"', '"%s"' % ('t' * k)), 'd'
    if u == 'author':
        return s.replace('"A"', '"%s"' % ('A' * k)), 'd'
    if u == 'rep':
        return s.replace('global "a"', 'global "%s"' % ('a' * k)), 'd'
    if u == 'with':
        return s.replace('with "b"', 'with "%s"' % ('b$0' * k)), 'd'
    if u == 'sample':
        return s.replace('    s\n', 's' * k + '\n'), 'd'
    if u == 'samplel':
        return s.replace('    s\n', '    s\n' * k), 'd'
    if u == 'shape':
        return s.replace('nw ("+") n ("-")', 'n ("%s")' % ('-' * k)), 'd'
    if u == 'shapes':
        return s.replace('e ("xx")', 'e (%s)' % ', '.join(['"xx"'] * k)), 'd'
    if u == 'parent':
        return 'parent "%s"\n' % ('p' * k) + s, 'd'
    if u == 'indent':
        return s.replace('indent "box"', 'indent "%s"' % ('b' * k)), 'd'
    if u == 'unknown':
        return s.replace('indent', 'x' * k), 'd'
    if u == 'comment':
        return '#' * k + '\n' + s, 'd'
    if u == 'tags':
        return s.replace('"t1"', ', '.join('"u%d"' % i for i in range(min(k, 600)))), 'd'
    if u == 'aliases':
        return s.replace(', al', ''.join(', a%d' % i for i in range(min(k, 600)))), 'd'
    if u == 'rules':
        return s.replace('    reverse', '    replace "b" with "a"\n' * min(k, 600) + '    reverse'), 'd'
    if u == 'designs':
        return ''.join(west('w%d' % i).cfg() for i in range(min(k, 300))) + s, 'd'
    if u == 'parents':
        return ''.join('parent "p%d"\n' % i for i in range(min(k, 600))) + s, 'd'


def size_body(run):
    D = [('closed', closed().cfg()), ('mixed', mixed(padding={'all': 1}).cfg()), ('west', west(padding={'left': 1}, indent='text', rep=[('g', 'x', 'y')]).cfg())]

    def body(c):
        i, kind, u, k, o = c
        if i >= 0:
            name, cfg = D[i]
            t = u * k + b'\n' if kind == 'line' else (u + b'\n') * k if kind == 'lines' else b''.join(u * j + b'\n' for j in range(0, k, max(1, k // 100)))
            yield from run(['-f', config(cfg), '-d', name] + o, t, timeout=15000)
            return
        cfg, name = sized_cfg(kind, k)
        d = core.CTX.fresh_dir()
        with open(d + '/c.cfg', 'w') as f:
            f.write(cfg)
        for q in (['-d', name], ['-l'], ['-l', '-d', name], ['-q', 't2'], ['-r', '-d', name], ['-m']):
            yield from run(['-f', d + '/c.cfg'] + q, b'ab\n c\n', cwd=d, timeout=15000)
        os.unlink(d + '/c.cfg')
        os.rmdir(d)
    return body


# ---- character encodings ----------------------------------------------------------------------------------------------------
ENCS = ['ASCII', 'ISO-8859-1', 'ISO-8859-15', 'UTF-8', 'UTF-16', 'UTF-16LE', 'UTF-16BE', 'UTF-32', 'UTF-7', 'EUC-JP', 'SHIFT_JIS', 'ISO-2022-JP', 'GB18030', 'BIG5', 'KOI8-R', 'CP437', 'CP1252',
        'nonsense', '']
EB = [0x01, 0x0a, 0x0d, 0x1b, 0x20, 0x23, 0x24, 0x41, 0x5c, 0x7e, 0x7f, 0x80, 0x8e, 0x9b, 0xa1, 0xc2, 0xc3, 0xe3, 0xed, 0xf0, 0xf4, 0xfe, 0xff, 0x00]


def enc_cases():
    for e in ENCS:
        for b in range(256):
            yield e, bytes([b])
        for c in itertools.product(EB, repeat=2) if not quick() or e in ('ASCII', 'UTF-8', 'UTF-16', 'ISO-2022-JP', 'SHIFT_JIS', 'UTF-7') else ():
            yield e, bytes(c)
        if not quick():
            for c in itertools.product(EB[3:18], repeat=3):
                yield e, bytes(c)


def enc_body(run):
    f = west(padding={'left': 1}).cfg()

    def body(c):
        e, t = c
        yield from run(['-f', config(f), '-n', e], t + b'\n')
        yield from run(['-f', config(f), '-n', e, '-r'], b'# ' + t)
    return body


# ---- regular expressions ------------------------------------------------------------------------------------------------------
RX = ['a', '.', '*', '(', ')', '^', '$', '|', '[', ']', '\\\\', '?', '{1', '\\\\b', '(?<n>', '\u4e16']
SX = ['$', '0', '1', 'x', '{', '}', '\\\\U', '\\\\E', '$0', '${n}', '$1', '\u4e16', '\\\\', '*', '${1:+', ':']


def rx_cases():
    for k in range(0, pick(2, 3) + 1):
        for p in itertools.product(RX, repeat=k):
            yield ''.join(p), '<$0>', 'ggo'[k % 3]
    for k in range(0, pick(2, 3) + 1):
        for s in itertools.product(SX, repeat=k):
            yield '(?<n>a)|b', ''.join(s), 'gog'[k % 3]


def rx_body(run):
    def body(c):
        p, s, m = c
        f = config('BOX w\nsample\ns\nends\nshapes { w ("#") }\nelastic (w)\n%s %s "%s" with "%s"\n%s %s "%s" to "%s"\nEND w\n' % (
            'replace', {'g': 'global', 'o': 'once'}[m], p, s, 'reverse', {'g': 'global', 'o': 'once'}[m], p, s))
        for t in (b'a\n', b'xa\xe4\xb8\x96ab\n\nb\n'):
            yield from run(['-f', f], t)
            yield from run(['-f', f, '-r'], b'#' + t.replace(b'\n', b'\n#'))
    return body


# ---- the environment -------------------------------------------------------------------------------------------------------------
def env_cases():
    for k in [0, 1, 2, 3, 10, 100, 254, 255, 256, 257, 1000, 1023, 1024, 1025, 4080] + list(range(4085, 4100)) + [8192, 65536]:
        for v in ('HOME', 'XDG_CONFIG_HOME', 'BOXES', 'LANG', 'LC_ALL', 'TERM', 'NO_COLOR', '-f', 'in', 'out'):
            for ch in ('x', '/', '/a', '~', '\u4e16'):
                yield v, ch, k


def env_body(run):
    def body(c):
        v, ch, k = c
        s = (ch * k)[:max(k, 0)] if len(ch) == 1 else (ch * (k // 2 + 1))[:k]
        base = ['-f', config(west().cfg())]
        if v == '-f':
            yield from run(['-f', s], b'a\n')
        elif v == 'in':
            yield from run(base + [s], b'a\n')
        elif v == 'out':
            yield from run(base + ['-', '/nonexistent-bxmc/' + s], b'a\n')
        else:
            yield from run(base if v in ('LANG', 'LC_ALL', 'TERM', 'NO_COLOR') else [], b'a\n', env={v: s})
            yield from run((base if v in ('LANG', 'LC_ALL', 'TERM', 'NO_COLOR') else []) + ['-l'], b'a\n', env={v: s})
    return body


def spaces():
    A = [('texts', text_cases, text_body, 'all short texts over special characters x all shipped and generated designs x operations'),
         ('damaged', damage_cases, damage_body, 'every single damage of boxes of every design, removed and mended'),
         ('configurations', conf_cases, conf_body, 'all single mutations of a configuration (tokens and characters)'),
         ('options', opt_cases, opt_body, 'all short option arguments, number and length ladders'),
         ('arguments', argv_cases, argv_body, 'all short command lines'),
         ('sizes', size_cases, size_body, 'size ladders around powers of two of text and configuration elements'),
         ('encodings', enc_cases, enc_body, 'all byte values and pairs in many encodings'),
         ('expressions', rx_cases, rx_body, 'all short regular expressions and replacements'),
         ('environment', env_cases, env_body, 'length ladders for environment variables and file names')]
    order = ('environment', 'sizes', 'expressions', 'options', 'arguments', 'encodings', 'configurations', 'texts', 'damaged')   # time left is passed on
    A.sort(key=lambda x: order.index(x[0]))
    r = [Space(n + '-mem', c, b(two), ('zero', 'pattern'), w + '; indeterminate memory filled in two ways') for n, c, b, w in A]
    r += [Space(n, c, b(one), 'asan', w + '; sanitizers') for n, c, b, w in A]
    return r
