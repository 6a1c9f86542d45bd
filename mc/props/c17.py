"""C17 design names, aliases and parent configs"""
from common import *
import re

SHELL = 'sample\ns\nends\nshapes { w ("%s") }\nelastic (w, n, e, s)\n'


def box(header, mark):
    return 'BOX %s\n%sEND %s\n' % (header, SHELL % mark, re.split(r'[, ]', header)[0])


def place(files):
    d = core.CTX.fresh_dir()
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(t.encode('utf-8', 'surrogateescape'))
    return d


def expect_found(r, mark, what):
    check_rc(r)
    if r.out != mark.encode() + b'T':
        raise Fail('%s: expected the design drawn with %r, but the output is %r; %r' % (what, mark, r.out, r.err[:300]))


def expect_unknown(r, what):
    if r.rc == 0:
        raise Fail('%s: there is no such design, but the output is %r' % (what, r.out))
    check_rc(r, 1)
    if not r.err or r.out:
        raise Fail('%s: failure without message, or with output: %r %r' % (what, r.out, r.err[:200]))


def bfs(start, parents):
    """order in which the files are used: level by level; among the parents of a file the one mentioned last goes first"""
    order = [start]
    for f in order:
        ps = list(dict.fromkeys(parents[f]))
        for p in reversed(ps):
            if p not in order:
                order.append(p)
    return order


FILES = 'abcd'


def graph_body(case):
    parents, own, place_at = case
    # own: files with designs of their own; place_at: where the parent lines are (0: top, 1: between, 2: end)
    files = {}
    for i, f in enumerate(FILES[:len(parents)]):
        ps = ['parent %s.cfg\n' % p for p in parents[i]]
        ds = [box('own' + f, f.upper()), box('x', f.upper() + 'x')] if own >> i & 1 else []
        if ds and f != 'a':
            ds.append(box('y, z' + f, f.upper() + 'y'))
        if place_at == 0:
            parts = ps + ds
        elif place_at == 1:
            parts = ds[:1] + ps + ds[1:]
        else:
            parts = ds + ps
        files[f + '.cfg'] = ''.join(parts)
    d = place(files)
    pm = {f: parents[i] for i, f in enumerate(FILES[:len(parents)])}
    order = bfs('a', pm)
    act = [f for f in order if own >> FILES.index(f) & 1]
    l = yield Run(['-f', 'a.cfg', '-l'], cwd=d)
    if not act:
        expect_unknown(l, 'listing')
        r = yield Run(['-f', 'a.cfg'], b'T', cwd=d)
        expect_unknown(r, 'drawing')
        return
    check_rc(l)
    got = re.findall(r'(?m)^    - (\w)\.cfg', decode(l.out))
    if len(order) == 1:
        if got or b'in "a.cfg"' not in l.out:
            raise Fail('the only config file is a.cfg, but the listing says\n%s' % decode(l.out)[:500])
    elif got != order:
        raise Fail('config files are used in the order %r, expected %r' % (got, order))
    names = {'x': act[0].upper() + 'x'}
    for f in act:
        names['own' + f] = f.upper()
    ny = [f for f in act if f != 'a']
    if ny:
        names['y'] = ny[0].upper() + 'y'
        names['z' + ny[0]] = ny[0].upper() + 'y'
    q = yield Run(['-f', 'a.cfg', '-q', '(all)'], cwd=d)
    check_rc(q)
    want = sorted(n for n in names if n[0] != 'z')
    if [n for n in decode(q.out).split('\n') if n and '(alias)' not in n] != want:
        raise Fail('designs are %r, expected %r' % (q.out, want))
    for n in sorted(names):
        r = yield Run(['-f', 'a.cfg', '-d', n], b'T', cwd=d)
        expect_found(r, names[n], 'design ' + n)
    for f in FILES[:len(parents)]:
        if f not in act:
            r = yield Run(['-f', 'a.cfg', '-d', 'own' + f], b'T', cwd=d)
            expect_unknown(r, 'design own%s' % f)
    r = yield Run(['-f', 'a.cfg'], b'T', cwd=d)
    expect_found(r, act[0].upper(), 'default design')


# ---- names -------------------------------------------------------------------------------------------------------------
class D:
    def __init__(self, header, mark, f):
        self.header, self.mark, self.f = header, mark, f
        ids = [x.strip().lower() for x in header.split(',')]
        self.name, self.aliases = ids[0], ids[1:]
        self.valid = True
        self.hidden = False


def names_body(case):
    files, ids = case
    txt, ds = {}, []
    for i, hs in enumerate(files):
        t = 'parent f%d.cfg\n' % (i + 1) if i + 1 < len(files) else ''
        mine = []
        for j, h in enumerate(hs):
            m = '%s%d' % (chr(65 + i), j)
            d = D(h, m, i)
            for o in mine:
                if o.valid and set([d.name] + d.aliases) & set([o.name] + o.aliases):
                    d.valid = False
            mine.append(d)
            t += box(h, m)
        txt['f%d.cfg' % i] = t
        ds += mine
    cwd = place(txt)
    kept = []
    fuzzy = set()        # names for which the documentation leaves open what happens
    vague = False
    for d in ds:
        if not d.valid:
            vague |= any(set([d.name] + d.aliases) & set(o.aliases) for o in ds if o.f < d.f)
            fuzzy.update([d.name] + d.aliases)
            continue
        for o in kept:
            if o.f < d.f and not o.hidden:
                if o.name == d.name:
                    d.hidden = True
                if d.name in o.aliases or o.name in d.aliases:
                    fuzzy.update(d.aliases + [d.name])
        kept.append(d)
    q = yield Run(['-f', 'f0.cfg', '-q', '(all)'], cwd=cwd)
    if vague:
        pass                 # a clash of names within a parent which may or may not be solved by hiding
    elif not any(d.valid for d in ds):
        expect_unknown(q, 'query')
    else:
        check_rc(q)
        got = [x for x in decode(q.out).lower().split('\n') if x]
        gn = [x for x in got if 'alias' not in x and x not in fuzzy]
        want = sorted(d.name for d in kept if not d.hidden and d.name not in fuzzy)
        if gn != want:
            raise Fail('designs are %r, expected %r' % (gn, want))
        ga = sorted(x[:-8] for x in got if 'alias' in x and x[:-8] not in fuzzy)
        al = set(a for d in kept if not d.hidden for a in d.aliases) - fuzzy
        hid = set(a for d in kept if d.hidden for a in d.aliases)
        # an alias that is only defined by hidden designs does not exist
        if ga != sorted(al):
            raise Fail('aliases are %r, expected %r%s' % (ga, sorted(al), ' (with hidden designs)' if hid else ''))
    if not vague and () not in files[1:] and any(not d.valid for d in ds) != bool(q.err) and any(d.valid for d in ds):
        raise Fail('messages are %r, but %d designs are faulty' % (q.err[:300], sum(not d.valid for d in ds)))
    stale = []
    for n in ids:
        r = yield Run(['-f', 'f0.cfg', '-d', n], b'T', cwd=cwd)
        m = [d for d in ds if n.lower() in [d.name] + d.aliases]
        if not m:
            expect_unknown(r, 'design ' + n)
        elif m[0].hidden:
            vis = [d for d in m if not d.hidden]
            if n.lower() in fuzzy:
                continue
            if r.rc == 0 and r.out == m[0].mark.encode() + b'T':
                stale.append(n)
            elif vis:
                expect_found(r, vis[0].mark, 'design ' + n)
            else:
                expect_unknown(r, 'design ' + n)
        elif m[0].valid:
            expect_found(r, m[0].mark, 'design ' + n)
    r = yield Run(['-f', 'f0.cfg'], b'T', cwd=cwd)
    fst = [d for d in ds if d.valid]
    if fst:
        expect_found(r, fst[0].mark, 'default design')
    else:
        expect_unknown(r, 'default design')
    if stale:
        raise Fail('%r is an alias of a design of a parent which is hidden, but it is still found' % stale, key='hidden-alias')


def headers(ids, upper=True):
    h = list(ids) + [', '.join(p) for p in itertools.permutations(ids, 2)]
    if upper:
        h += [ids[0].upper(), '%s,%s' % (ids[1], ids[0].upper())]
    return h


def names_cases():
    h = headers('pq')
    h3 = headers('pqr', False)
    ids = ['p', 'q', 'P', 'Q', 'r']
    one = [()] + [(a,) for a in h]
    for n in range(4):                       # a single file
        for f in itertools.product(h3 if n < 3 or not quick() else headers('pq'), repeat=n):
            yield (f,), ids
    two = one + list(itertools.product(h, repeat=2))
    for a in two:
        for b in two:
            yield (a, b), ids
    h3a = headers('pqr', False)
    for a in [()] + [(x,) for x in h3a]:
        for b in [()] + [(x,) for x in h3a]:
            for c in [()] + [(x,) for x in h3a] + ([] if quick() else list(itertools.product(h3a, repeat=2))):
                yield (a, b, c), ids


def graph_cases():
    def lists(n, k):
        return [p for m in range(k + 1) for p in itertools.product(FILES[:n], repeat=m)]
    for ps in itertools.product(lists(2, 3), repeat=2):
        for own in range(4):
            for at in range(3):
                yield ps, own, at
    l3 = [p for m in range(pick(3, 4)) for p in itertools.permutations('abc', m)]
    for ps in itertools.product(l3, repeat=3):
        for own in (7, 6) if quick() else range(8):
            yield ps, own, 0
    l4 = [p for m in range(3) for p in itertools.permutations('abcd', m)]
    if quick():
        for a in l4:
            for b, c, d in itertools.product([(), ('a',), ('d',), ('c', 'd'), ('d', 'c')], repeat=3):
                yield (a, b, c, d), 15, 1
    else:
        l4b = [p for p in l4 if 'a' not in p]
        for ps in itertools.product(l4b, l4b, l4b, [(), ('a',), ('b',), ('d',), ('b', 'c')]):
            yield ps, 15, 1


# ---- many parents --------------------------------------------------------------------------------------------------------
def many_cases():
    top = pick(14, 40)
    for n in range(4, top):
        yield [[i + 1] if i + 1 < n else [] for i in range(n)]                                 # chain
        yield [list(range(1, n))] + [[] for _ in range(n - 1)]                                 # star
        yield [[(i + 1) % n] for i in range(n)]                                                # ring
        yield [[c for c in (2 * i + 1, 2 * i + 2) if c < n] for i in range(n)]                 # tree
        yield [[j for j in range(n) if j != i] for i in range(n)]                              # complete graph
        yield [list(range(1, n)) * 2] + [[0, n - 1 - i] for i in range(1, n)]                  # mentioned again
        for k in (3, 4, 5):
            yield [[c for c in range(k * i + 1, k * i + k + 1) if c < n] for i in range(n)]    # wide trees


def many_body(g):
    n = len(g)
    nm = lambda i: 'f%02d.cfg' % i
    cwd = place({nm(i): ''.join('parent %s\n' % nm(p) for p in ps) + box('own%02d' % i, 'F%02d' % i) + box('x%d' % (i % 3), 'X%02d' % i)
                 for i, ps in enumerate(g)})
    order = bfs(0, dict(enumerate(g)))
    l = yield Run(['-f', nm(0), '-l'], cwd=cwd)
    check_rc(l)
    got = [int(x) for x in re.findall(r'(?m)^    - f(\d\d)\.cfg', decode(l.out))]
    if got != order:
        raise Fail('config files are used in the order %r, expected %r' % (got, order))
    q = yield Run(['-f', nm(0), '-q', '(all)'], cwd=cwd)
    check_rc(q)
    want = ['own%02d' % i for i in sorted(order)] + sorted({'x%d' % (i % 3) for i in order})
    if decode(q.out).split() != want:
        raise Fail('designs are %r, expected %r' % (q.out, want))
    for i in order:
        r = yield Run(['-f', nm(0), '-d', 'own%02d' % i], b'T', cwd=cwd)
        expect_found(r, 'F%02d' % i, 'design of file %d' % i)
    for k in range(3):
        w = next((i for i in order if i % 3 == k), None)
        if w is not None:
            r = yield Run(['-f', nm(0), '-d', 'x%d' % k], b'T', cwd=cwd)
            expect_found(r, 'X%02d' % w, 'design x%d' % k)


# ---- lookup --------------------------------------------------------------------------------------------------------------
LCFG = (('ab', 'A'), ('b-1, b_2, bb, AbB', 'B'), ('a-b, a1', 'C'), ('z', 'D'))


def lookup_cases():
    for n in range(pick(4, 5)):
        for t in itertools.product('abAB12-_', repeat=n):
            yield ''.join(t)
    for s in ('ab ', ' ab', 'ab,', 'ab\n', 'abb (alias)', 'b-1, b_2', '"ab"', '\u00e4b', 'ab\u0301', '\xff', '*', 'a*', 'a?', '[ab]',
              '(all)', 'a' * 500, '%s', '%n%n', 'ab\x1b', 'BOX', 'END', '\uff41\uff42', 'ABB', 'aBb', 'B_2', '\u212aa', 'Z', '\x00'[:0]):
        yield s


def lookup_body(s):
    cfg = ''.join(box(h, m) for h, m in LCFG)
    ids = {x.strip().lower(): m for h, m in LCFG for x in h.split(',')}
    raw = s.encode('utf-8') if '\xff' not in s else s.encode('latin-1')
    for a in (['-d', raw], [b'-d' + raw], [b'--design=' + raw]):
        if a == [b'-d']:
            continue
        r = yield Run(['-f', config(cfg)] + a, b'T')
        key = s.lower() if s.isascii() else None
        if key in ids:
            expect_found(r, ids[key], repr(s))
        else:
            expect_unknown(r, repr(s))


# ---- ways to refer to a parent -----------------------------------------------------------------------------------------------
def refs():
    """(parent line(s), what it resolves to: a mark, or None for an error, or '' for no reference)"""
    for kw in ('parent', 'PARENT', 'Parent'):
        for sp in (' ', '\t', '   ', ' \t '):
            for tail in ('', ' ', '\t', '  \t', '\r'):
                yield '%s%sp.cfg%s\n' % (kw, sp, tail), 'P'
    for f, m in (('./p.cfg', 'P'), ('sub/p.cfg', 'S'), ('sub/../p.cfg', 'P'), ('sub//p.cfg', 'S'), ('@/p.cfg', 'P'), ('@/sub/p.cfg', 'S'),
                 ('with blank.cfg', 'W'), ('"p.cfg"', None), ("'p.cfg'", None), ('p.cfg # comment', None), ('\u00fcml\u00e4ut \u4e16.cfg', 'U'),
                 ('missing.cfg', None), ('sub', None), ('.', None), ('/', None), ('', None), ('p.cfg,sub/p.cfg', None), ('P.CFG', None),
                 ('~/p.cfg', None), ('$HOME/p.cfg', None), ('*.cfg', None), ('p.cfg\x00'[:5], 'P'), ('p\x01.cfg', None), ('q"uote.cfg', 'Q'),
                 ('/dev/null', ''), ('empty.cfg', ''), ('bad.cfg', ''), (':global:', 'G'), (':GLOBAL:', 'G'), (' :Global: ', 'G'), (':global', None),
                 ('global', None), ('::global::', None), ('p\\.cfg', None), ('\udcff.cfg', None), ('x' * 300, None), ('sub/' * 300 + 'p.cfg', None)):
        yield 'parent %s\n' % f, m
    yield '# parent p.cfg\n', ''
    yield 'parent p.cfg\nparent missing.cfg\n', 'P'
    yield 'parent missing.cfg\nparent p.cfg\n', 'P'
    yield 'parent sub/p.cfg\nparent p.cfg\n', 'P'
    yield 'parent p.cfg\nparent sub/p.cfg\n', 'S'
    yield 'parent p.cfg\nparent sub/p.cfg\nparent p.cfg\n', 'S'
    yield '\ufeffparent p.cfg\n', 'P'
    yield 'BOX bad\nEND bad\nparent p.cfg\n', 'P'
    yield 'junk\nparent p.cfg\n', 'P'


def ref_body(case):
    line, mark, pos, glob = case
    files = {'p.cfg': box('par, x2', 'P'), 'sub/p.cfg': box('par, x2', 'S'), 'with blank.cfg': box('par, x2', 'W'),
             '\u00fcml\u00e4ut \u4e16.cfg': box('par, x2', 'U'), 'q"uote.cfg': box('par, x2', 'Q'), 'empty.cfg': '',
             'bad.cfg': 'BOX par\nsample\n', 'r/x': ''}
    if glob:
        files['r/opt/bxmc-global/boxes'] = box('par, x2', 'G')
    d = place(files)
    line = line.replace('@', d)
    m, o = box('main', 'M'), box('other', 'O')
    text = {0: line + m + o, 1: m + line + o, 2: m + o + line, 3: m.replace('sample\ns', 'sample\n' + line) + o,
            4: line}[pos]
    if pos == 2 and text.endswith('\n'):
        text = text[:-1]
    with open(os.path.join(d, 'main.cfg'), 'wb') as f:
        f.write(text.encode('utf-8', 'surrogateescape'))
    env = {'BXMC_ROOT': d + '/r'}
    if pos == 3:
        if '\x01' in line or '\udcff' in line:
            return           # not permitted in samples
        mark = ''
    if mark == 'G' and not glob:
        mark = None
    r = yield Run(['-f', 'main.cfg', '-d', 'PAR'], b'T', cwd=d, env=env)
    l = yield Run(['-f', 'main.cfg', '-l'], cwd=d, env=env)
    if mark:
        expect_found(r, mark, 'design of parent')
    else:
        expect_unknown(r, 'design of parent')
        if mark is None and not re.search(rb'boxes: main.cfg: line \d+: ', l.err):
            raise Fail('no message about the reference: %r' % l.err[:300])
    if pos == 4 and not mark:
        expect_unknown(l, 'listing')
        return
    check_rc(l)
    for n, k in (('main', 'M'), ('other', 'O'), (None, 'M')):
        r = yield Run(['-f', 'main.cfg'] + (['-d', n] if n else []), b'T', cwd=d, env=env)
        if pos != 4:
            expect_found(r, k, 'design %s' % n)
        elif n:
            expect_unknown(r, 'design ' + n)
        else:
            expect_found(r, mark, 'default design')
    q = yield Run(['-f', 'main.cfg', '-q', '(all)'], cwd=d, env=env)
    want = ([] if pos == 4 else ['main', 'other']) + (['par', 'x2 (alias)'] if mark else [])
    if [x for x in decode(q.out).split('\n') if x] != want:
        raise Fail('designs are %r, expected %r' % (q.out, want))
    # the same from somewhere else: relative references depend on the current directory
    if pos == 0 and mark and 'parent sub/p.cfg\n' == line:
        r = yield Run(['-f', d + '/main.cfg', '-d', 'par'], b'T', cwd=d + '/sub', env=env)
        expect_unknown(r, 'design of parent in another directory')


def ref_cases():
    for l, m in refs():
        for pos in range(5):
            for g in (1, 0) if 'lobal' in l else (1,):
                yield l, m, pos, g


# ---- sizes ------------------------------------------------------------------------------------------------------------------
def size_cases():
    for n in ladder(pick(40, 140), pick(2100, 8000)):
        yield 'name', n
        yield 'alias', n
        if n < 1500:
            yield 'aliases', n
            yield 'designs', n
        if n < 250:
            yield 'file', n


def size_body(case):
    what, n = case
    u = 'x' * n + 'y'
    if what == 'name':
        f = ['-f', config(box('a', 'A') + box(u, 'M') + box(u + 'z, ' + u[1:], 'N'))]
        tests = ((u, 'M'), (u.upper(), 'M'), (u + 'z', 'N'), (u[1:], 'N'), (u[:-1], None), (u + 'x', None), ('x' + u, None))
    elif what == 'alias':
        f = ['-f', config(box('a, ' + u, 'A') + box('b, c, %sz' % u, 'M'))]
        tests = ((u, 'A'), (u.upper() + 'Z', 'M'), ('c', 'M'), (u[:-1], None), (u + 'y', None))
    elif what == 'aliases':
        f = ['-f', config(box('a', 'A') + box('b' + ''.join(', n%d' % i for i in range(n)), 'M') + box('c, d', 'C'))]
        tests = (('n0', 'M'), ('N%d' % (n - 1), 'M'), ('n%d' % (n // 2), 'M'), ('n%d' % n, None), ('d', 'C'))
    elif what == 'designs':
        f = ['-f', config(''.join(box('n%d, m%d' % (i, i), '%d' % i) for i in range(n)))]
        tests = (('n0', '0'), ('m%d' % (n - 1), '%d' % (n - 1)), ('N%d' % (n // 2), '%d' % (n // 2)), ('n%d' % n, None))
    else:
        d = place({'main.cfg': 'parent %s\n' % ('p' * n) + box('a', 'A'), 'p' * n: box('b, c', 'B')})
        f = ['-f', d + '/main.cfg']
        tests = (('b', 'B'), ('c', 'B'), ('a', 'A'))
        r = yield Run(['-f', 'main.cfg', '-d', 'c'], b'T', cwd=d)
        expect_found(r, 'B', 'design of a parent with a long name')
        f = ['-f', 'main.cfg']
        for nm, m in tests:
            r = yield Run(f + ['-d', nm], b'T', cwd=d)
            expect_found(r, m, nm)
        return
    for nm, m in tests:
        if what == 'name' and n == 1 and nm == 'y':
            continue
        r = yield Run(f + ['-d', nm], b'T')
        if m is None:
            if not nm or nm == u:
                continue
            expect_unknown(r, '%s %d: %s' % (what, n, nm[-20:]))
        else:
            expect_found(r, m, '%s %d: %s' % (what, n, nm[-20:]))


def spaces():
    return [
        Space('sizes', size_cases, size_body, 'plain', 'lengths of names, aliases and file names, numbers of aliases and designs'),
        Space('graphs', graph_cases, graph_body, 'plain', 'all parent graphs of up to 3 (partly 4) config files, self references and cycles included'),
        Space('many', many_cases, many_body, 'plain', 'chains, stars, rings, trees and complete graphs of up to %d config files' % pick(13, 39)),
        Space('names', names_cases, names_body, 'plain', 'all placements of names and aliases over chains of up to 3 files'),
        Space('lookup', lookup_cases, lookup_body, 'plain', 'design names on the command line'),
        Space('references', ref_cases, ref_body, 'plain', 'forms and positions of parent references'),
    ]
