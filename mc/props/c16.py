"""C16 only consistent box designs are accepted, and the others are isolated"""
from common import *
import re

SIDES = (NORTH, EAST, tuple(reversed(SOUTH)), tuple(reversed(WEST)))


# ---- the rules, written down again ---------------------------------------------------------------------------------
def verdict(user, elastic):
    """user: shape name -> list of lines; elastic: names. Returns a Design, or the reason for rejection."""
    sh = {}
    for n, ls in user.items():
        if not ls:
            continue                         # empty shape: not defined
        if not all(ls):
            return 'empty shape line'
        if len({core.width(l) for l in ls}) != 1:
            return 'not rectangular'
        sh[n] = ls
    if not any(core.strip_esc(l).strip() for ls in sh.values() for l in ls):
        return 'no shape'
    d = Design('d', sh, elastic)
    for side in (NORTH, SOUTH):
        if len({d.h[n] for n in side if n in d.shapes}) > 1:
            return 'heights'
    for side in (WEST, EAST):
        if len({d.w[n] for n in side if n in d.shapes}) > 1:
            return 'widths'
    for n in d.elastic:
        if n not in d.shapes:
            return 'elastic shape does not exist'
        if n in CORNERS:
            return 'elastic corner'
    for side in (NORTH, SOUTH, WEST, EAST):
        ex = [n for n in side[1:4] if n in d.shapes]
        e = [n in d.elastic for n in ex]
        if not 1 <= sum(e) <= 2:
            return 'elasticity'
        if any(a and b for a, b in zip(e, e[1:])):
            return 'adjoining elastics'
    return d


def cfg(name, user, elastic, order=0):
    sh = 'shapes {\n' + ''.join('  %s (%s)\n' % (n.lower(), ', '.join('"%s"' % l for l in ls))
                               for n, ls in user.items()) + '}\n'
    el = 'elastic (%s)\n' % ', '.join(x.lower() for x in elastic) if elastic else ''
    sa = 'sample\ns\nends\n'
    parts = [sa, sh, el]
    return 'BOX %s\n%sEND %s\n' % (name, ''.join(parts[i] for i in ((0, 1, 2), (2, 1, 0), (1, 0, 2), (0, 2, 1))[order]),
                                  name)


TEXT = 'ab\nc\n'


def valid_body(case):
    user, elastic, order = case
    v = verdict(user, elastic)
    if not elastic:
        v = 'no elastic entry' if isinstance(v, Design) else v
    r = yield Run(['-f', config(cfg('d', user, elastic, order)), '-d', 'd'], TEXT.encode())
    if isinstance(v, str):
        if r.rc == 0:
            raise Fail('accepted, although: %s' % v)
        check_rc(r, 1)
        if not re.match(rb'boxes: .*: line \d+: ', r.err):
            raise Fail('no proper message: %r' % r.err[:200])
        return
    if r.rc:
        check_rc(r, 1)
        L = layout(v, TEXT, O())
        if L.rows is None:
            return
        raise Fail('rejected, although it is consistent: %s' % r.err[:300].decode('utf-8', 'replace'))
    L = layout(v, TEXT, O())
    if L.rows is not None and r.out != L.out.encode() and not matches(L, v, TEXT, O(), decode(r.out)):
        raise Fail('drawn differently:\n%s\nexpected:\n%s' % (decode(r.out), L.out))


KINDS = (None, ['%'], ['%%'], ['%', '%'], ['%%', '%%'], ['%', '%%'], [], ['\u4e16'], [''], ['%', '%', '%'])


def mk(names, kinds):
    u = {}
    for i, (n, k) in enumerate(zip(names, kinds)):
        if k is not None:
            u[n] = [l.replace('%', chr(ord('a') + i)) for l in k]
    return u


def auto_elastic(u):
    """for every side: the first defined shape which is no corner, or nothing if the side is generated"""
    res = []
    for side in SIDES:
        e = [n for n in side[1:4] if u.get(n)]
        if e:
            res.append(e[0])
        else:
            res.append(side[2])
    return tuple(res)


def size_cases():
    groups = [('NW', 'N', 'NE', 'E', 'SE'), ('SW', 'W', 'NW', 'S'), ('NW', 'NE', 'SE', 'SW'),
              ('NNW', 'N', 'NNE', 'W'), ('ENE', 'E', 'ESE', 'SW'), ('S', 'SSW', 'WNW', 'E', 'NW'),
              ('NW', 'WNW', 'WSW', 'SE')]
    for g in groups:
        k = KINDS[:pick(4 if len(g) > 4 else 7, 6 if len(g) > 4 else 10)]
        for ks in itertools.product(k, repeat=len(g)):
            u = mk(g, ks)
            yield u, auto_elastic(u), 0
    if not quick():
        for ks in itertools.product(KINDS[:4], repeat=8):
            u = mk(('NW', 'N', 'NE', 'E', 'SE', 'S', 'SW', 'W'), ks)
            yield u, auto_elastic(u), 0


def elastic_cases():
    for side in SIDES:
        others = [s[2] for s in SIDES if s != side]
        for ex in itertools.product((0, 1), repeat=3):
            u = {n: [chr(ord('a') + i)] for i, n in enumerate(side[1:4]) if ex[i]}
            u.update({n: ['#'] for n in others})
            u.setdefault(side[0], ['+'])
            for el in itertools.product((0, 1), repeat=5):
                for drop in (None,) + tuple(others):
                    e = tuple(n for n, b in zip(side, el) if b) + tuple(o for o in others if o != drop)
                    for order in (0, 1, 2) if drop is None else (0,):
                        yield u, e, order
    for u in ({'W': ['#']}, {'NW': ['#']}, {'N': ['#'], 'E': ['!']}, {n: ['x'] for n in ALL}):
        for k in range(pick(3, 4)):
            for e in itertools.combinations(ALL, k):
                yield u, e, 0
    full = {n: ['x'] for n in ALL}
    for a in itertools.product(range(8), repeat=2):
        for b in itertools.product(range(8), repeat=2):
            e = tuple(s[1 + i] for s, m in zip(SIDES, a + b) for i in range(3) if m >> i & 1)
            yield full, e, 0


# ---- entries -----------------------------------------------------------------------------------------------------------
def entry_cases():
    W = 'shapes { w ("#") }\n'
    E = 'elastic (w, n, e, s)\n'
    S = 'sample\nxx\nends\n'
    base = [S, W, E]
    ok, bad = True, False
    for n in range(4):
        for p in itertools.permutations(base, n):
            yield ''.join(p), n == 3
    for dup in (S, 'sample\nyy\nends\n'):
        for i in range(4):
            x = list(base)
            x.insert(i, dup)
            yield ''.join(x), bad
    # a mandatory entry is missing, but another one occurs twice
    for m in range(3):
        for i in range(3):
            if i != m:
                for p in itertools.permutations([x for j, x in enumerate(base) if j != m] + [base[i]]):
                    yield ''.join(p), bad
    extra = {
        'padding { left 1 }\n': ok, 'padding { left -1 }\n': None, 'padding { foo 1 }\n': None,
        'padding { }\n': bad, 'padding { left }\n': bad, 'padding { 1 }\n': bad, 'padding ( left 1 )\n': bad,
        'padding { left 1, right 2 }\n': bad, 'padding { left 1 right 2 all 0 }\n': ok, 'padding 1\n': bad,
        'indent "text"\n': ok, 'indent "box"\n': ok, 'indent "none"\n': ok, 'indent "NONE"\n': ok, 'indent "foo"\n': bad,
        'indent ""\n': bad, 'indent text\n': bad, 'indent "t"\n': bad,
        'author "me"\n': ok, 'author ""\n': ok, 'author me\n': bad, 'author "a\tb"\n': ok, 'author "x" "y"\n': bad,
        'designer "me"\n': ok, 'designer 5\n': bad, 'foo "bar"\n': ok, 'foo bar\n': bad, 'f\u00f6\u00f6 "bar"\n': ok,
        'revision "1.2"\n': ok, 'created "2000"\n': ok,
        'tags ("a", "b")\n': ok, 'tags "a"\n': ok, 'tags "a,b"\n': ok, 'tags ("a", "a")\n': ok, 'tags ("--")\n': ok,
        'tags ()\n': bad, 'tags (a)\n': bad, 'tags ("a" "b")\n': bad, 'tags\n': bad,
        'replace "a" with "b"\n': ok, 'replace global "a" with "b"\n': ok, 'replace once "a" with "b"\n': ok,
        'replace "a" to "b"\n': bad, 'replace "a"\n': bad, 'replace twice "a" with "b"\n': bad, 'replace a with "b"\n': bad,
        'reverse "a" to "b"\n': ok, 'reverse "a" with "b"\n': bad, 'reverse once "a" to "b"\n': ok,
        'delim ~!\n': ok, 'delimiter ~!\n': ok, 'delim ~~\n': bad, 'delim ~\n': bad, 'delim ~!x\n': bad, 'delim xa\n': bad,
        ';\n': bad, '42\n': bad, '"foo"\n': bad, ')\n': bad, '}\n': bad, '(\n': bad, '# comment\n': ok, '\n\t  \n': ok,
        'box foo\n': bad, 'with "x"\n': bad, '$$\n': bad,
    }
    for x, v in extra.items():
        for i in (0, 3) if 'delim' in x else range(4):
            y = list(base)
            if 'delim' in x and v and i == 0:
                continue
            y.insert(i, x)
            yield ''.join(y), v
    for s, v in {
            'shapes { w ("#") w ("#") }\n': bad, 'shapes { w ("#") e ("#") }\n': ok, 'shapes { }\n': bad, 'shapes { w () }\n': bad,
            'shapes { w ("") }\n': bad, 'shapes { w (" ") }\n': bad, 'shapes { w ("#",) }\n': bad, 'shapes { w "#" }\n': bad,
            'shapes { w (#) }\n': bad, 'shapes { q ("#") }\n': bad, 'shapes { w ("#") n () }\n': ok,
            'shapes { W ("#") }\n': ok, 'SHAPES{w("#")}\n': ok, 'shapes { w ("#" "#") }\n': bad,
            'shapes ( w ("#") )\n': None, 'shapes { w ("#"), e ("#") }\n': bad, 'shapes { w ("\x01") }\n': bad,
            'shapes { w ("\t") }\n': bad, 'shapes { w ("#", "##") }\n': bad, 'shapes { w ("#", "") }\n': bad,
            'shapes { w ("\u4e16", "ab") }\n': ok, 'shapes { w ("\u4e16", "a") }\n': bad,
            'shapes { w ("\x1b[1m#\x1b[0m") }\n': ok, 'shapes { w ("#") nw (" ") }\n': ok,
            'shapes { w ("#") n ("") }\n': bad}.items():
        if v is not None:
            yield S + s + E, v
    for e, v in {'elastic (w,n,e,s)\n': ok, 'elastic (w)\n': ok, 'elastic ()\n': bad, 'elastic w\n': bad, 'elastic (w n)\n': bad,
                 'elastic (foo)\n': bad, 'elastic (nw)\n': bad, 'elastic (w,w)\n': ok, 'elastic (n)\n': bad,
                 'elastic (W, N)\n': ok, 'elastic (w,)\n': bad, 'elastic ("w")\n': bad, 'elastic (wnw)\n': bad}.items():
        yield S + W + e, v
        yield e + W + S, v
    for h, t, v in (('BOX foo\n', 'END foo\n', ok), ('BOX foo\n', 'END FOO\n', ok), ('box foo\n', 'end foo\n', ok),
                    ('BOX foo\n', 'END bar\n', bad), ('BOX foo\n', 'END\n', bad), ('BOX foo, a, b\n', 'END foo\n', ok),
                    ('BOX foo, a\n', 'END a\n', bad), ('BOX\n', 'END foo\n', bad), ('BOX f\u00f6o\n', 'END f\u00f6o\n', bad),
                    ('BOX 1foo\n', 'END 1foo\n', bad), ('BOX foo, \n', 'END foo\n', bad), ('BOX foo, foo\n', 'END foo\n', None),
                    ('BOX foo-_2\n', 'END foo-_2\n', ok), ('BOX foo,\n  a\n', '  END\n foo\n', ok)):
        if v is not None:
            yield (h, S + W + E, t), v


def entry_body(case):
    e, v = case
    c = e if isinstance(e, tuple) else ('BOX foo\n', e, 'END foo\n')
    t = ''.join(c)
    name = re.match(r'(?i)box\s+([^\s,]*)', c[0]).group(1)
    r = yield Run(['-f', config(t), '-d', name or 'foo'], b'ab\n')
    q = yield Run(['-f', config(t), '-q', '(all)'])
    if v is None:
        if r.rc != 0 or not re.search(rb'line \d+: ', r.err):
            if 'author' in t and r.rc == 1:
                return
            raise Fail('tolerable mistake: exit status %d, message %r' % (r.rc, r.err[:200]))
        return
    if v:
        check_rc(r)
        if b'#' not in r.out and b'ab' not in r.out:
            raise Fail('output is %r' % r.out)
        if [x for x in decode(q.out).split('\n') if x and 'alias' not in x] != [name] or q.rc:
            raise Fail('query yields %r, %r' % (q.out, q.err[:300]))
        if r.err and not any(x in t for x in ('tags', 'n ("")', 'sample', '""')):
            raise Fail('message although the design is correct: %r' % r.err[:200])
    else:
        if r.rc == 0:
            raise Fail('accepted:\n%s' % t)
        check_rc(r, 1)
        if not re.search(rb'boxes: .*: line \d+: ', r.err):
            raise Fail('no proper message: %r' % r.err[:200])
        if q.out:
            raise Fail('query yields %r' % q.out)


# ---- isolation ---------------------------------------------------------------------------------------------------------
GOOD = [Design('alpha', {'NW': '+', 'N': '-', 'NE': '+', 'E': '|', 'SE': '+', 'S': '-', 'SW': '+', 'W': '|'},
               padding={'h': 1}, aliases=('al',)),
        Design('beta', {'W': '//', }, padding={'left': 1}, indent='text'),
        Design('gamma', {'NW': '/*', 'N': '*', 'NE': '**', 'W': ' *', 'SW': ' *', 'S': '*', 'SE': '*/'},
               rep=(('g', 'x', 'yy'),), tags=['t'])]


def faults():
    W = 'shapes { w ("#") }\n'
    E = 'elastic (w, n, e, s)\n'
    S = 'sample\nxx\nends\n'
    yield from ('BOX bad\n%sEND bad\n' % x for x in (
        '', S, W, E, S + W, S + E, W + E, S + S + W + E,
        S + 'shapes { w ("#") w ("#") }\n' + E, S + 'shapes { }\n' + E, S + 'shapes { w ("#", "##") }\n' + E,
        S + 'shapes { n ("#") e ("#", "#") ne ("##") }\n' + E, S + 'shapes { q ("#") }\n' + E, S + 'shapes { w (x) }\n' + E,
        S + 'shapes { w ("\x01") }\n' + E, S + 'shapes { w "#" }\n' + E, S + 'shapes { w ("#",) }\n' + E,
        S + 'shapes { w ("#)\n }\n' + E, S + W + 'elastic (nw)\n', S + W + 'elastic (foo)\n', S + W + 'elastic ()\n',
        S + W + 'elastic (wnw)\n', S + 'shapes { w ("#") wnw ("#") }\nelastic (w, wnw)\n',
        S + 'shapes { n ("#") }\nelastic (w)\n',
        'author me\n' + S + W + E, 'indent "foo"\n' + S + W + E, 'foo bar\n' + S + W + E, 'padding { left }\n' + S + W + E,
        'padding { }\n' + S + W + E, 'tags ()\n' + S + W + E, S + W + 'replace "a" to "b"\n' + E,
        S + W + E + 'reverse "a" with "b"\n', 'delim ~~\n' + S + W + E, 'delim ~\n' + S + W + E, 'delim ab\n' + S + W + E,
        'delim ~|\nauthor |x|\nfoo bar\n' + S + W.replace('"', '|') + E, 'author "unterminated\n' + S + W + E, ';\n' + S + W + E, S + W + '42\n' + E,
        S + W + E + '"foo"\n', S + W + E + ')\n', '}\n' + S + W + E, 'sample\nends\n' + W + E,
        'sample\n\n   \nends\n' + W + E, 'sample\n\x01\nends\n' + W + E))
    ok = S + W + E
    yield 'BOX bad\n' + ok + 'END worse\n'
    yield 'BOX bad\n' + ok + 'END\n'
    yield 'BOX b\u00e4d\n' + ok + 'END b\u00e4d\n'
    yield 'BOX 7bad\n' + ok + 'END 7bad\n'
    yield 'BOX\n' + ok + 'END bad\n'
    yield 'BOX bad,\n' + ok + 'END bad\n'
    yield 'BOX bad, b\u00e4d\n' + ok + 'END bad\n'
    yield 'junk\n'
    yield '; $ % "x" 42 ) }\n'
    yield 'END bad\n'
    yield 'parent /nonexistent-bxmc/config\n'
    yield 'parent\n'


def dups():
    """designs which are only faulty because of their names"""
    ok = 'sample\nxx\nends\nshapes { w ("#") }\nelastic (w, n, e, s)\n'
    yield 'BOX alpha\n' + ok + 'END alpha\n'
    yield 'BOX ALPHA\n' + ok + 'END alpha\n'
    yield 'BOX al\n' + ok + 'END al\n'
    yield 'BOX bad, alpha\n' + ok + 'END bad\n'
    yield 'BOX bad, x, AL\n' + ok + 'END bad\n'


FAULTS = []
ITEXT = b'  fox\n  x\n'


def iso_body(case):
    fs, perm, pos = case
    good = [GOOD[i] for i in perm]
    parts = [d.cfg() for d in good]
    clean = config(''.join(parts))
    rng = []
    k = 0
    lines = 1
    text = ''
    for i in range(len(parts) + 1):
        for f, p in zip(fs, pos):
            if p == i:
                b = FAULTS[f][0]
                if rng and rng[-1][1] == lines and not b.startswith('BOX bad\n'):
                    rng[-1] = (rng[-1][0], lines + b.count('\n'))       # skipped along with the fault before
                else:
                    rng.append((lines, lines + b.count('\n')))
                text += b
                lines += b.count('\n')
        if i < len(parts):
            text += parts[i]
            lines += parts[i].count('\n')
    dirty = config(text)
    only_parent = False
    q = yield Run(['-f', dirty, '-q', '(all)'])
    check_rc(q)
    want = sorted(d.name for d in good)
    names = [x for x in decode(q.out).split('\n') if x and 'alias' not in x]
    if names != want:
        raise Fail('valid designs are %r, expected %r' % (names, want))
    got = [int(x) for x in re.findall(rb'(?m)^boxes: [^\n]*: line (\d+): ', q.err)]
    for a, b in rng:
        if not any(a <= x <= b for x in got):
            raise Fail('no message about the fault in lines %d-%d: %r' % (a, b, q.err[:400]))
    for x in got:
        if not any(a <= x <= b for a, b in rng):
            raise Fail('message about a line which is all right (%d, faults are %r): %r' % (x, rng, q.err[:400]))
    if config(text) not in dirty or b'boxes: %s: line' % os.fsencode(dirty) not in q.err:
        raise Fail('file is not named: %r' % q.err[:300])
    for d in good:
        r1 = yield Run(['-f', clean, '-d', d.name], ITEXT)
        r2 = yield Run(['-f', dirty, '-d', d.name], ITEXT)
        if r1.out != r2.out or r1.rc != r2.rc or r1.rc:
            raise Fail('design %s: %r (%d) instead of %r; %r' % (d.name, r2.out, r2.rc, r1.out, r2.err[:300]))
        m = yield Run(['-f', dirty, '-d', d.name, '-r'], r2.out)
        m0 = yield Run(['-f', clean, '-d', d.name, '-r'], r2.out)
        if m.out != m0.out or m.rc != m0.rc:
            raise Fail('removal with design %s: %r instead of %r' % (d.name, m.out, m0.out))
    if not FAULTS[fs[0]][1]:
        r1 = yield Run(['-f', clean], ITEXT)
        r2 = yield Run(['-f', dirty], ITEXT)
        if r1.out != r2.out or r2.rc:
            raise Fail('default design: %r (%d) instead of %r; %r' % (r2.out, r2.rc, r1.out, r2.err[:200]))
    r1 = yield Run(['-f', clean, '-l'])
    r2 = yield Run(['-f', dirty, '-l'])
    if r1.out.split(b'\n')[2:] != r2.out.split(b'\n')[2:]:
        raise Fail('the listing differs')


def mut_body(case):
    """one token of a design is deleted, repeated, or preceded by something that does not belong there"""
    i, junk = case
    toks = MUT
    t = toks[:i] + (junk if isinstance(junk, list) else toks[i:i + 1] * junk) + toks[i + (not isinstance(junk, list)):]
    bad = ''.join(t)
    a, b = GOOD[0].cfg(), GOOD[2].cfg()
    f = config(a + bad + b)
    q = yield Run(['-f', f, '-q', '(all)'])
    check_rc(q)
    names = decode(q.out).split()
    if [x for x in names if x in ('alpha', 'gamma')] != ['alpha', 'gamma']:
        raise Fail('after change to %r: designs are %r' % (bad, names))
    for d in (GOOD[0], GOOD[2]):
        r1 = yield Run(['-f', config(a + b), '-d', d.name], ITEXT)
        r2 = yield Run(['-f', f, '-d', d.name], ITEXT)
        if r1.out != r2.out or r2.rc:
            raise Fail('after change to %r: design %s: %r (%d)' % (bad, d.name, r2.out, r2.rc))
    if 'bad' not in names and not q.err:
        raise Fail('after change to %r: no message' % bad)


MUT = re.findall(r'sample\n.*?\nends\n|\w+\s*|"[^"]*"\s*|.\s*', '''BOX bad, worse
author "me"
tags ("a", "b")
indent "text"
sample
  xx
ends
shapes {
  nw ("+", "+") n ("-", "=") ne ("+", "+")
  w ("|")
}
elastic (n, e, s, w)
replace once "a" with "b"
reverse global "b" to "a"
padding { left 1 right 2 }
END bad
''', re.S)


def spaces():
    FAULTS.extend((f, False) for f in faults())
    FAULTS.extend((f, True) for f in dups())
    nf = len(FAULTS)
    nd = sum(1 for f in FAULTS if f[1])

    def iso():
        for f in range(nf):
            dup = FAULTS[f][1]
            for perm in itertools.permutations(range(3)):
                for p in range(4):
                    if dup and perm.index(0) >= p:
                        continue
                    yield (f,), perm, (p,)

    def many():
        for n in ladder(pick(12, 70), pick(260, 1100)):
            for k, f in enumerate((0, 1, nf // 3, nf // 2)):
                if not FAULTS[f][1]:
                    for p in (0, 1, 3):
                        yield (f,) * n, (0, 1, 2), (p,) * n
                    yield (f,) * n, (2, 0, 1), tuple(i * 4 // n for i in range(n))

    def iso2():
        for f in itertools.product(range(nf - nd), repeat=2):
            for p in ((0, 0), (1, 1), (1, 2), (0, 3)) if not quick() else ((1, 1),):
                yield f, (0, 1, 2), p

    junk = [';', '42 ', '"x" ', 'word ', '$', ', ', '( ', ') ', '= ']
    keep = [i for i, t in enumerate(MUT) if t.strip() not in ('}', 'END', 'BOX', '{', ')', 'shapes', 'elastic')
            and not t.startswith('sample')]

    def muts():
        for i in range(2, len(MUT)):
            for j in junk:
                if not (j == ') '):
                    yield i, [j]
            if i in keep:
                yield i, 0
                yield i, 2
    return [
        Space('sizes', size_cases, valid_body, 'plain', 'assignments of shape sizes to groups of shapes'),
        Space('elastic', elastic_cases, valid_body, 'plain', 'existing shapes x elastic shapes of a side'),
        Space('entries', entry_cases, entry_body, 'plain', 'entries of a design: order, repetition, values'),
        Space('isolation', iso, iso_body, 'plain', 'every fault at every position among all orders of correct designs'),
        Space('many-faults', many, iso_body, 'plain', 'the same fault many times'),
        Space('two-faults', iso2, iso_body, 'plain', 'all pairs of faults'),
        Space('mutations', muts, mut_body, 'plain', 'token mutations of a design between correct designs'),
    ]
