"""C20 listings and tag queries"""
from common import *
from model import quote
import re

SH = 'shapes { w ("#") }\nelastic (w, n, e, s)\n'
TAG = re.compile(r'^(?!.*?--)[a-z][a-z0-9-]*(?<!-)$')
EOLS = {'LF': '\n', 'CRLF': '\r\n', 'CR': '\r'}


class D:
    def __init__(self, name, aliases=(), tags=(), author=None, designer=None, sample='s', forms=None, pre=''):
        self.name, self.aliases, self.tags = name, tuple(aliases), tuple(tags)
        self.author, self.designer, self.sample = author, designer, sample
        self.forms = forms              # text of the tag entries if they are not a simple list

    def cfg(self):
        t = 'BOX ' + ', '.join((self.name,) + self.aliases) + '\n'
        if self.forms is not None:
            t += self.forms
        elif self.tags:
            t += 'tags (%s)\n' % ', '.join(quote(x) for x in self.tags)
        if self.author is not None:
            t += 'author %s\n' % quote(self.author)
        if self.designer is not None:
            t += 'designer %s\n' % quote(self.designer)
        return t + 'sample\n%s\nends\n%sEND %s\n\n' % (self.sample, SH, self.name)


def order(designs):
    return sorted(designs, key=lambda d: d.name.lower())


def stats(designs):
    cnt = {}
    for d in designs:
        for t in d.tags:
            cnt[t] = cnt.get(t, 0) + 1
    return ' | '.join('%s (%d)' % x for x in sorted(cnt.items()))


def listing(designs, f, parents=(), e='\n'):
    n = len(designs)
    head = '%d Available Style%s' % (n, '' if n == 1 else 's')
    if parents:
        res = [head + ':', '-' * (len(head) + 1), '', 'Configuration Files:', '    - ' + f] + ['    - %s (parent)' % p for p in parents] + ['']
    else:
        head += ' in "%s":' % f
        res = [head, '-' * width(head)]
    res += ['']
    for d in order(designs):
        names = d.name + (' alias ' + ', '.join(d.aliases) if d.aliases else '')
        if d.designer is not None and d.author is not None and d.designer != d.author:
            res += [names, '%s, coded by %s:' % (d.designer, d.author)]
        elif d.designer is not None:
            res += [names, d.designer + ':']
        elif d.author is not None:
            res += [names, 'unknown artist, coded by %s:' % d.author]
        else:
            res += [names + ':']
        res += ['', d.sample, '', '']
    s = stats(designs)
    if s:
        res += [s]
    return ''.join(x.replace('\n', e) + e for x in res)


def width(s):
    return core.width(s)


def names(designs, e='\n'):
    res = ''
    for d in order(designs):
        res += d.name + e + ''.join('%s (alias)%s' % (a, e) for a in d.aliases)
    return res


def select(designs, q):
    """-> list of designs, or None if the query is not valid"""
    terms = [t.strip(' \t') for t in q.split(',')]
    terms = [t for t in terms if t]
    if not terms:
        return None
    seen = set()
    req, exc, plain = [], [], []
    for t in terms:
        raw = t[1:] if t[0] in '+-' else t
        if raw != '(all)' and not TAG.match(raw) or raw in seen:
            return None
        seen.add(raw)
        (req if t[0] == '+' else exc if t[0] == '-' else plain).append(raw)
    res = []
    for d in designs:
        ok = all(x in d.tags for x in req) and not any(x in d.tags for x in exc)
        if ok and plain and not req and '(all)' not in plain:
            ok = any(x in d.tags for x in plain)
        if ok:
            res.append(d)
    return res


def query(designs, q, f=None, args=()):
    f = f or config(''.join(d.cfg() for d in designs))
    r = yield Run(['-f', f, '-q', q] + list(args))
    want = select(designs, q)
    if want is None:
        check_rc(r, 1)
        if r.out or not r.err:
            raise Fail('query %r: output is %r, message is %r' % (q, r.out, r.err[:200]))
    else:
        check_rc(r)
        if decode(r.out) != names(want) or r.err:
            raise Fail('query %r yields\n%sinstead of\n%s%s' % (q, decode(r.out), names(want), r.err[:200]))


# ---- queries --------------------------------------------------------------------------------------------------------------
UNI = ('a', 'b1', 'c-d')
POPULATION = [D(n, ('x-' + n,) * (i % 2), [t for k, t in enumerate(UNI) if i >> k & 1])
              for i, n in zip((5, 0, 3, 7, 1, 6, 4, 2), ('m', 'B', 'a-z', 'A0', 'zz', 'k_1', 'K', 'k-1'))]


def query_cases():
    terms = [p + t for t in UNI + ('zz',) for p in ('', '+', '-')] + ['(all)']
    for n in range(1, pick(4, 5)):
        for c in itertools.product(terms, repeat=n):
            yield ','.join(c)
    for seps in itertools.product(('', ',', ' ', ' , ', ',,', '\t'), repeat=3):
        for a, b in (('a', 'b1'), ('+a', '-b1'), ('-a', '-c-d'), ('', ''), ('+c-d', '')):
            yield seps[0] + a + seps[1] + b + seps[2]


# ---- malformed tags in queries ---------------------------------------------------------------------------------------------
def tag_cases():
    for s in strings('an0-+A_, ', pick(4, 5)):
        yield s
    for s in strings('on-e', 5, 5):
        if s.lstrip('+-').startswith('none'):
            continue               # reserved
        yield s
    for c in range(1, 127):
        for s in (chr(c), 'a' + chr(c), chr(c) + 'a', 'a' + chr(c) + 'a', '+' + chr(c), '(all' + chr(c), chr(c) + 'all)'):
            yield s
    for s in ('\u00e4', 'a\u00e4', '\u4e16', '(ALL)', '(all', 'all)', '(all)(all)', '(all),(all)', '(all),a', 'a' * 300, '(all) ', 'non', 'no', 'anone'):
        yield s


def tag_query_body(s):
    if '\n' in s or '\r' in s or '\v' in s or '\f' in s or '+(all)' in s or '-(all)' in s:
        return
    ds = [D('p'), D('q', (), ('a',)), D('r', (), ('aa', 'n')), D('s', (), ('a0', 'a-n', 'an'))]
    yield from query(ds, s)


# ---- tags in the configuration ----------------------------------------------------------------------------------------------
def parse_tags(entries):
    """-> (tags, number of messages)"""
    tags, bad = [], 0
    for e in entries:
        for t in e.split(','):
            t = t.strip(' \t')
            if not TAG.match(t) or t in tags:
                bad += 1
            else:
                tags.append(t)
    return tags, bad


def cfg_tag_body(case):
    entries, form = case
    if form == 'list':
        txt = 'tags (%s)\n' % ', '.join(quote(e) for e in entries)
    elif form == 'single':
        txt = ''.join('tags %s\n' % quote(e) for e in entries)
    else:
        txt = ''.join('tags (%s)\n' % quote(e) for e in entries)
    tags, bad = parse_tags(entries)
    ds = [D('x', ('y',), tags, forms=txt), D('p', (), ('a', 'n'))]
    f = config(''.join(d.cfg() for d in ds))
    r = yield Run(['-f', f, '-l'])
    check_rc(r)
    if decode(r.out) != listing(ds, f):
        raise Fail('tags %r: listing is\n%s' % (entries, decode(r.out)))
    n = len([l for l in r.err.split(b'\n') if l])
    if n != bad:
        raise Fail('tags %r: %d messages expected: %r' % (entries, bad, r.err))
    for t in tags[:2]:
        r = yield Run(['-f', f, '-q', t])
        check_rc(r)
        if decode(r.out) != names([d for d in ds if t in d.tags]):
            raise Fail('tags %r, query %r: output is %r' % (entries, t, r.out))
    r = yield Run(['-f', f, '-l', '-d', 'y'])
    check_rc(r)
    if 'Tags:                   %s\n' % (', '.join(tags) or 'none') not in decode(r.out):
        raise Fail('tags %r: details are\n%s' % (entries, decode(r.out)))
    r = yield Run(['-f', f, '-d', 'y'], b'T')
    check_rc(r)
    if r.out != b'#T':
        raise Fail('box is %r' % r.out)


def cfg_tag_cases():
    for s in strings('an0-A_, ', pick(3, 4)):
        for form in ('single', 'list'):
            yield (s,), form
    words = ('a', 'n', 'a,n', ' n ', 'A', '', 'a-', 'n,n', '1', 'zz,a,', '\u00e4', 'b,a')
    for n in (2, 3):
        for c in itertools.product(words, repeat=n):
            for form in ('list', 'single', 'lists'):
                yield c, form


# ---- order and completeness -------------------------------------------------------------------------------------------------
NAMES = ('b', 'A', 'a-', 'a_1', 'a1', 'aB', 'ab-c', 'Z', 'z0', 'a')


def order_body(case):
    perm, al, eol = case
    ds = []
    for k, i in enumerate(perm):
        ds.append(D(NAMES[i] if NAMES[i][-1] != '-' else NAMES[i] + 'x', ['%s%d-%d' % (n, j, k) for j, n in enumerate(al[k])],
                    ('t%d' % (i % 3),) if i % 2 else (), sample='s%d\n  t' % i))
    f = config(''.join(d.cfg() for d in ds))
    e = EOLS[eol]
    r = yield Run(['-f', f, '-l', '-e', eol])
    check_rc(r)
    if decode(r.out) != listing(ds, f, (), e):
        raise Fail('listing is\n%s\ninstead of\n%s' % (decode(r.out), listing(ds, f, (), e)))
    r = yield Run(['-f', f, '-q', '(all)', '-e', eol])
    check_rc(r)
    if decode(r.out) != names(ds, e):
        raise Fail('query yields\n%s\ninstead of\n%s' % (decode(r.out), names(ds, e)))


def order_cases():
    A = ((), ('p',), ('z', 'B', 'a'))
    for n in range(1, 4):
        for p in itertools.permutations(range(len(NAMES)), n):
            if len({NAMES[i].lower() for i in p}) < n:
                continue
            for al in itertools.product(A[:pick(2, 3)] if n == 3 else A, repeat=n):
                if n == 3 and len(al[0]) == 1:
                    continue
                yield p, al, 'LF'
    for p in itertools.permutations((0, 2, 3, 4, 5, 7), pick(5, 6)):
        yield p, ((),) * 6, 'CRLF' if p[0] % 2 else 'CR'


def many_body(n):
    ds = [D('d%s%d' % ('xYz'[i % 3], i * 7919 % n), ['e%d-%d' % (i, k) for k in range(i % 4)],
            ['t%d' % k for k in range(i % 7)]) for i in range(n)]
    f = config(''.join(d.cfg() for d in ds))
    r = yield Run(['-f', f, '-l'])
    check_rc(r)
    if decode(r.out) != listing(ds, f):
        raise Fail('listing of %d designs differs' % n)
    yield from query(ds, '+t1,-t4')
    ds = [D('x', ['a%d' % i for i in range(n)], ['t%d' % i for i in range(n)])]
    f = config(ds[0].cfg())
    r = yield Run(['-f', f, '-l'])
    check_rc(r)
    if decode(r.out) != listing(ds, f):
        raise Fail('listing of a design with %d aliases differs' % n)
    yield from query(ds, 't%d' % (n - 1))
    yield from query(ds, '-t%d' % (n - 1))


# ---- the persons --------------------------------------------------------------------------------------------------------------
def author_body(case):
    a, d, al, par, eol = case
    e = EOLS[eol]
    d0 = fresh()
    ds = [D('x', al, ('t',), a, d, sample='\u4e16  x\n  y'), D('Y', (), (), d, a)]
    parents = []
    f = d0 + '/main-\u00e4'
    for k in range(par):
        parents.append(d0 + '/p%d' % k)
        ds.append(D('x%d' % k, ('x',) * 0, ('t',)))
        with open(parents[-1], 'w') as h:
            h.write(ds[-1].cfg())
    with open(f, 'w') as h:
        h.write(''.join('parent %s\n' % p for p in reversed(parents)) + ds[0].cfg() + ds[1].cfg())
    r = yield Run(['-f', f, '-l', '-e', eol])
    check_rc(r)
    want = listing(ds, f, parents, e)
    if decode(r.out) != want or r.err:
        raise Fail('listing is\n%s\ninstead of\n%s%r' % (decode(r.out), want, r.err[:200]))
    yield from query(ds, '(all)', f)
    yield from query(ds, 't', f)


def fresh():
    return core.CTX.fresh_dir()


PEOPLE = (None, 'Jim', 'Joe (joe@x.y)', 'J\u00f6', '', '"\\', '\u4e16\u754c')


# ---- details --------------------------------------------------------------------------------------------------------------------
SIDES = ('NW', 'NNW', 'N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW')
PADS = ({}, {'left': 1}, {'top': 2}, {'right': 3}, {'bottom': 4}, {'all': 1}, {'horiz': 2}, {'vert': 1}, {'left': 1, 'right': 2},
        {'top': 1, 'bottom': 2}, {'left': 1, 'bottom': 3}, {'right': 1, 'top': 1, 'left': 0}, {'left': 2, 'top': 1, 'right': 1},
        {'all': 1, 'left': 0}, {'all': 1, 'right': 0}, {'all': 1, 'top': 0}, {'all': 1, 'bottom': 0})
RULES = ((), (('g', 'a', 'b'),), (('o', '\\*/', '*\\/'), ('g', '"x', '\u00e4')))


def detail_designs():
    qs = Design('quotes', {'W': ['"\\', '\\"'], 'E': ['\u4e16"'], 'N': ["'"]})
    return std_designs() + [qs, Design('ew', {'W': '<', 'E': '>'}), Design('se-only', {'SE': block(2, 3, 1)}),
                            Design('stars', {n: '*' for n in ('NW', 'N', 'NE', 'E', 'SE', 'S', 'SW', 'W')})]


DD = detail_designs()


def detail(d, f, author, designer):
    p = d.padding
    pad = ', '.join('%s %d' % (n, p[k]) for k, n in zip('ltrb', ('left', 'top', 'right', 'bottom')) if p[k])

    def rules(rs, word):
        return ('\n' + ' ' * 24).join('%d. (%s) "%s" %s "%s"' % (i + 1, 'glob' if m == 'g' else 'once', a, word, b)
                                      for i, (m, a, b) in enumerate(rs)) or 'none'
    t = 'Complete Design Information for "%s":' % d.name
    res = [t, '-' * len(t),
           'Alias Names:            ' + (', '.join(d.aliases) or 'none'),
           'Author:                 ' + (author or '(unknown author)'),
           'Original Designer:      ' + (designer or '(unknown artist)'),
           'Configuration File:     ' + f,
           'Indentation Mode:       ' + {'text': 'text (retain indentation inside of box)', 'none': 'none (discard indentation)'}.get(
               d.indent, 'box (indent box)'),
           'Replacement Rules:      ' + rules(d.rep, 'WITH'),
           'Reversion Rules:        ' + rules(d.rev, 'TO'),
           'Minimum Box Dimensions: %d x %d  (width x height)' % (d.minw(), d.minh()),
           'Default Padding:        ' + (pad or 'none'),
           'Default Killblank:      ' + ('no' if d.open['t'] and d.open['b'] else 'yes'),
           'Tags:                   ' + (', '.join(d.tags or ()) or 'none'),
           'Elastic Shapes:         ' + ', '.join(n for n in SIDES if n in d.elastic)]
    first = 'Defined Shapes:'
    for n in SIDES:
        for i, l in enumerate(d.user.get(n, ())):
            res.append('%-24s%3s%s "%s"%s' % (first, n if i == 0 else '', ' ' if i else ':', l.replace('\\', '\\\\').replace('"', '\\"'),
                                              ',' if i < len(d.user[n]) - 1 else ' '))
            first = ''
    return '\n'.join(res) + '\n'


def detail_body(case):
    i, pad, ind, rep, rev, al, who, eol = case
    d0 = DD[i]
    d = Design(d0.name, d0.user, elastic=d0.elastic, padding=PADS[pad], indent=ind, rep=RULES[rep], rev=RULES[rev],
               tags=[None, ['t1'], ['b', 'a']][al], aliases=((), ('al',), ('z', 'al'))[al])
    au, de = PEOPLE[who % 4], PEOPLE[who // 4]
    d.extra = ''.join('%s %s\n' % (k, quote(v)) for k, v in (('author', au), ('designer', de)) if v is not None)
    f = config(D('other', (), ('o',)).cfg() + d.cfg() + D('third').cfg())
    for nm in (d.name, d.name.upper()) + d.aliases:
        r = yield Run(['-f', f, '-l', '-d', nm, '-e', eol])
        check_rc(r)
        want = detail(d, f, au, de)
        got = decode(r.out).replace(EOLS[eol], '\n')
        if got != want or r.err:
            raise Fail('details are\n%s\ninstead of\n%s\n%r' % (got, want, r.err[:200]))


def detail_cases():
    for i in range(len(DD)):
        for p in range(len(PADS)):
            for ind in (None, 'text', 'none', 'box'):
                yield i, p, ind, 0, 0, 0, 0, 'LF'
        for a, b, al, who, eol in itertools.product(range(3), range(3), range(3), range(16), ('LF', 'CRLF', 'CR')):
            if eol == 'LF' or who < 2:
                yield i, 0, None, a, b, al, who, eol


def shipped_body(case):
    kind, arg = case
    import shipped
    f = core.REPO + '/boxes-config'
    txt = open(f, encoding='utf-8').read()
    r = yield Run(['-f', f, '-l'])
    check_rc(r)
    q = yield Run(['-f', f, '-q', '(all)'])
    check_rc(q)
    prim = [l for l in decode(q.out).split('\n')[:-1] if not l.endswith(' (alias)')]
    boxes = [m.group(1) for m in re.finditer(r'^BOX +([\w-]+)', txt, re.M)]
    if sorted(boxes, key=str.lower) != prim:
        raise Fail('designs of the shipped configuration: %r instead of %r' % (prim, sorted(boxes, key=str.lower)))
    if not decode(r.out).startswith('%d Available Styles' % len(boxes)):
        raise Fail('number of designs is wrong: %r' % r.out[:40])
    tags = {}
    for b in re.split(r'^BOX ', txt, flags=re.M)[1:]:
        n = re.match(r'[\w-]+', b).group()
        tags[n] = [t for m in re.finditer(r'^\s*tags\s*(\([^)]*\)|"[^"]*")', b, re.M) for x in re.findall(r'"([^"]*)"', m.group(1))
                   for t in (y.strip() for y in x.split(','))]
    allt = sorted({t for v in tags.values() for t in v})
    cnt = ' | '.join('%s (%d)' % (t, sum(t in v for v in tags.values())) for t in allt)
    if decode(r.out).split('\n')[-2] != cnt:
        raise Fail('tag statistics differ: %r instead of %r' % (decode(r.out).split('\n')[-2], cnt))
    for t in allt:
        for p in ('', '+', '-'):
            q = yield Run(['-f', f, '-q', p + t])
            check_rc(q)
            got = [l for l in decode(q.out).split('\n')[:-1] if not l.endswith(' (alias)')]
            want = [n for n in sorted(tags, key=str.lower) if (t in tags[n]) != (p == '-')]
            if got != want:
                raise Fail('query %s yields %r instead of %r' % (p + t, got, want))


# ---- lengths -----------------------------------------------------------------------------------------------------------------
def length_body(n):
    t = 'x' * n + 'y'
    ds = [D('a', (), [t, 'b']), D('b', ['z' * n], [t + '-1'], 'w' * n, 'q ' * n + 'r', 'u ' * n + 'v'),
          D('n' * n + 'k', [], ['b'], '\u4e16' * n, None, 'x\n' * n + 'y')]
    f = config(''.join(d.cfg() for d in ds))
    r = yield Run(['-f', f, '-l'])
    check_rc(r)
    if decode(r.out) != listing(ds, f):
        raise Fail('listing with lengths of %d differs: %r' % (n, decode(r.out)[:2000]))
    for q in (t, t + '-1', '-' + t, '+b,-' + t, t + ',' + t + '-1', t[1:], t + 'y'):
        yield from query(ds, q, f)


def spaces():
    return [
        Space('lengths', lambda: ladder(pick(40, 140), 5100), length_body, 'plain', 'lengths of names, tags, persons, samples'),
        Space('queries', query_cases, lambda q: query(POPULATION, q), 'plain', 'all queries of a bounded number of terms over 8 designs with all subsets of three tags'),
        Space('query-tags', lambda: dict.fromkeys(tag_cases()), tag_query_body, 'plain', 'all short strings as query'),
        Space('config-tags', cfg_tag_cases, cfg_tag_body, 'plain', 'all short strings as tags of a design; lists of tags'),
        Space('order', order_cases, order_body, 'plain', 'all orders of designs with all placements of aliases'),
        Space('many', lambda: [n for n in ladder(pick(40, 140), 1100) if n < 300 or n > 990 or not quick()],
              many_body, 'plain', 'large numbers of designs, tags, aliases'),
        Space('people', lambda: itertools.product(PEOPLE, PEOPLE, ((), ('al',)), (0, 1, 2), EOLS), author_body, 'plain', 'authors, designers, parents'),
        Space('details', detail_cases, detail_body, 'plain', 'details of single designs'),
        Space('shipped', lambda: [('all', 0)], shipped_body, 'plain', 'shipped configuration'),
    ]
