"""C26 termination and growth of the running time.  Time is measured in control flow edges taken by the code of boxes
(an instrumented build counts them), which is a deterministic number."""
from common import *
import re
import c25

STEPS = re.compile(rb'BXMC-STEPS=(\d+)\n')


def steps(r, what):
    if r.rc == -14:
        raise Fail('%s: the program did not end within the time limit' % what)
    m = STEPS.search(r.err)
    if r.rc < 0 or r.rc == 99 or r.rc > 1 or not m:
        raise Fail('%s: the program crashed (status %d): %s' % (what, r.rc, r.err[-300:]))
    return int(m.group(1))


# ---- opposite sides -----------------------------------------------------------------------------------------------------------
def side_kinds(W):
    """sizes of the three inner shapes of a side, elastic ones negative"""
    R = range(1, W + 1)
    for e in R:
        yield (0, -e, 0)
        for f in R:
            yield (f, -e, 0)
            yield (-e, f, 0)
            if f < 3:
                yield (f, -e, 1)
            for g in R:
                yield (-e, f, -g)


HN = (('NNW', 'N', 'NNE'), ('SSW', 'S', 'SSE'))
VN = (('WNW', 'W', 'WSW'), ('ENE', 'E', 'ESE'))


def build_design(vert, a, b):
    sh, el = {}, []
    for names, k in zip(VN if vert else HN, (a, b)):
        for n, s in zip(names, k):
            if s:
                c = {'NNW': 'a', 'N': 'b', 'NNE': 'c', 'SSW': 'd', 'S': 'e', 'SSE': 'f', 'WNW': 'a', 'W': 'b', 'WSW': 'c', 'ENE': 'd', 'E': 'e', 'ESE': 'f'}[n]
                sh[n] = [c] * abs(s) if vert else c * abs(s)
                if s < 0:
                    el.append(n)
    for n in (HN if vert else VN):
        sh[n[1]] = '-' if vert else '|'
        el.append(n[1])
    return Design('d', sh, tuple(el))


def sides_cases():
    k = list(side_kinds(pick(4, 6)))
    for a in k:
        for b in k:
            for vert in (False, True):
                for n in pick((1, 11), (1, 7, 30)):
                    yield vert, a, b, n


def sides_body(case):
    vert, a, b, n = case
    d = build_design(vert, a, b)
    t = 'x\n' * n if vert else 'x' * n + '\n'
    f = config(d.cfg())
    r = yield Run(['-f', f], t.encode())
    s = steps(r, 'drawing')
    L = layout(d, t, O())
    if L.rows is None:
        if r.rc != 1 or r.out or not STEPS.sub(b'', r.err).strip():
            raise Fail('the sides cannot be equally long, but exit status is %d, output %r, message %r' % (r.rc, r.out[:200], r.err[:200]))
    elif r.rc:
        raise Fail('exit status %d: %r' % (r.rc, r.err[:200]))
    lim = 60000 + 2500 * max(len(L.out if L.rows else ''), 64)
    if s > lim:
        raise Fail('drawing takes %d steps, more than %d' % (s, lim))
    if L.rows and n > 1:
        for op in ('-r', '-m'):
            r2 = yield Run(['-f', f, op], r.out)
            s = steps(r2, op)
            if s > lim * 4:
                raise Fail('%s takes %d steps, more than %d' % (op, s, lim * 4))


# ---- growth -------------------------------------------------------------------------------------------------------------------
def patterns(i):
    """lines from which large texts are made: ordinary words, blanks, and the characters of the frame in all roles"""
    name, cfg = c25.units()[i]
    r = ['x y ', ' ', '\u4e16 ', 'e\u0301', '\x1b[1mx\x1b[0m']
    m = re.findall(r'"((?:\\.|[^"\n])+)"', cfg[cfg.lower().find('shapes'):])
    for s in m[:pick(4, 40)]:
        s = re.sub(r'\\(.)', r'\1', s)
        if s.strip() and s not in r:
            r.append(s)
    return r[:pick(7, 24)]


def make(p, shape, n):
    if shape == 'lines':
        return (p + '\n') * (4 * n)
    if shape == 'wide':
        return p * (4 * n // max(1, len(p))) + '\n'
    if shape == 'blank':
        return p + '\n' * (4 * n) + p + '\n'
    if shape == 'stairs':
        return ''.join(' ' * (k % 40) + p + '\n' for k in range(4 * n))
    return (p * (n // 8 // max(1, len(p)) + 1) + '\n') * (n // 4)


SHAPES = ('lines', 'wide', 'square', 'blank', 'stairs')
BOUND = {'lines': 2.7, 'wide': 2.7, 'square': 6.5, 'blank': 2.7, 'stairs': 2.7}
BASE = 400000           # constant part of the work which does not need to shrink


def grow_cases():
    for i in range(len(c25.units())):
        for j in range(len(patterns(i))):
            for s in SHAPES[:3] if quick() and i < len(c25.units()) - 12 else SHAPES:
                yield i, j, s


def ratio(what, prev, cur, bound):
    if prev is not None and cur > BASE + bound * prev:
        raise Fail('%s: twice the size takes %.2f times the steps (%d after %d)' % (what, cur / prev, cur, prev))


def grow_body(case):
    i, j, s = case
    name, cfg = c25.units()[i]
    f = config(cfg)
    p = patterns(i)[j]
    prev = {}
    for n in pick((120, 240, 480), (120, 240, 480, 960)):
        t = make(p, s, n).encode()
        r = yield Run(['-f', f, '-d', name, '--no-color'], t, timeout=15000)
        box = r.out
        cur = {'drawing': steps(r, 'drawing')}
        rc0 = r.rc
        for op in ('-r', '-m'):
            for k, x in (('a text', t), ('a box', box)):
                if k == 'a box' and rc0:
                    continue
                r = yield Run(['-f', f, op] + (['-d', name] if k == 'a text' else []), x, timeout=15000)
                cur['%s of %s' % (op, k)] = steps(r, op)
        for k in cur:
            ratio('%s, %s of %d %r' % (k, s, n, p), prev.get(k), cur[k], BOUND[s])
        prev = cur


# ---- detection among all designs -----------------------------------------------------------------------------------------------
def detect_cases():
    for i in range(len(c25.units()) - 12):
        for s in ('lines', 'wide', 'square'):
            yield i, s


def detect_body(case):
    i, s = case
    name, cfg = c25.units()[i]
    prev = None
    r = yield Run(['-f', core.REPO + '/boxes-config', '-r'], b'x\n', timeout=15000)
    base = steps(r, 'removal')           # mostly the configuration
    for n in pick((60, 120, 240), (60, 120, 240, 480, 960)):
        r = yield Run(['-f', config(cfg), '-d', name, '--no-color'], make('x y ', s, n).encode(), timeout=15000)
        steps(r, 'drawing')
        r = yield Run(['-f', core.REPO + '/boxes-config', '-r'], r.out, timeout=15000)
        c = max(steps(r, 'removal') - base, 1)
        ratio('detection, %s of %d' % (s, n), prev, c, BOUND[s])
        prev = c


# ---- options and sizes ----------------------------------------------------------------------------------------------------------
def opt_cases():
    for i in range(len(c25.units()) - 12, len(c25.units())):
        for o in (['-s', '%(n)d'], ['-s', 'x%(n)d'], ['-p', 'h%(n)d'], ['-p', 'v%(n)d'], ['-p', 'a%(h)d'], ['-s', '%(h)dx%(h)d', '-a', 'c'], ['-a', 'hcvcjr', '-s', '%(n)d'],
                  ['-t', '8u'], ['-i', 'none'], ['-k', 'true', '-p', 'v%(n)d']):
            yield i, tuple(o)


def opt_body(case):
    i, o = case
    name, cfg = c25.units()[i]
    prev = None
    for n in (100, 200, 400, 800):
        a = [x % {'n': n, 'h': n // 8} for x in o]
        r = yield Run(['-f', config(cfg), '-d', name] + a, b'ab\n\tc d\n', timeout=15000)
        c = steps(r, 'drawing')
        ratio('drawing with %r' % (a,), prev, c, 6.5 if '%(h)d' in ' '.join(o) else 2.7)
        prev = c


# ---- configuration -----------------------------------------------------------------------------------------------------------------
def conf_text(kind, n):
    if kind == 'designs':
        return ''.join(closed('c%d' % i, tags=('t%d' % (i % 7), 'u')).cfg() for i in range(n))
    if kind == 'broken':
        return ''.join(closed('c%d' % i).cfg().replace('shapes', 'shpes') for i in range(n)) + closed().cfg()
    if kind == 'aliases':
        return closed(aliases=['a%d' % i for i in range(n)]).cfg()
    if kind == 'tags':
        return closed(tags=['t%d' % i for i in range(n)]).cfg()
    if kind == 'comments':
        return '# comment\n' * (4 * n) + closed().cfg()
    if kind == 'sample':
        return closed(sample='\n'.join('line %d' % i for i in range(4 * n))).cfg()
    if kind == 'rules':
        return closed(rep=[('g', 'a%d' % i, 'b') for i in range(n)]).cfg()
    if kind == 'shape':
        return Design('d', {'W': ['#'] * n, 'E': ['|'] * n}).cfg()
    if kind == 'wideshape':
        return Design('d', {'N': '-' * n, 'W': '#'}).cfg()
    raise KeyError(kind)


# where boxes compares every element with all earlier ones, the work may quadruple
QUAD = ('aliases', 'tags', 'designs', 'shape')


def conf_cases():
    for k in ('designs', 'broken', 'aliases', 'tags', 'comments', 'sample', 'rules', 'shape', 'wideshape'):
        for a in ([], ['-l'], ['-q', 'u'], ['-r'], ['-l', '-d', 'closed']):
            yield k, tuple(a)


def conf_body(case):
    k, a = case
    prev = None
    for n in (50, 100, 200, 400):
        r = yield Run(['-f', config(conf_text(k, n))] + list(a), b'ab\n', timeout=15000)
        c = steps(r, 'parsing')
        ratio('%s of %d' % (k, n), prev, c, 4.6 if k in QUAD else 2.7)
        prev = c


# ---- parents -----------------------------------------------------------------------------------------------------------------------
def parent_cases():
    for n in (1, 2, 3):
        for links in itertools.product(*[list(itertools.product((0, 1), repeat=n))] * n):
            for a in ([], ['-l'], ['-r'], ['-q', '(all)']):
                yield n, links, tuple(a)


def parent_body(case):
    """every graph of parent links between up to three files, cycles included"""
    n, links, a = case
    d = core.CTX.fresh_dir()
    for i in range(n):
        with open('%s/f%d' % (d, i), 'w') as f:
            f.write(''.join('parent f%d\n' % j for j in range(n) if links[i][j]) + west('w%d' % i).cfg())
    r = yield Run(['-f', d + '/f0'] + list(a), b'# x\n', cwd=d)
    s = steps(r, 'parsing')
    if s > 400000 * n:
        raise Fail('reading %d files takes %d steps' % (n, s))


# ---- regular expressions ------------------------------------------------------------------------------------------------------------
RX = ['(a+)+$', '(a|a)*$', '(a|aa)+$', '(.*a){12}', '^(a?){30}a{30}$', '(x*)*', '', '$', '^', '(?=a)', 'a*', '(a*)*b', '(?R)?a', '\\\\b', '(?:a|b|ab)*c']


def rx_cases():
    for p in RX:
        for s in ('', 'y', '$0$0'):
            for n in (10, 30, 100, 1000):
                yield p, s, n


def rx_body(case):
    p, s, n = case
    f = config('BOX w\nsample\ns\nends\nshapes { w ("#") }\nelastic (w)\nreplace global "%s" with "%s"\nreverse global "%s" to "%s"\nEND w\n' % (p, s, p, s))
    for t in (b'a' * n + b'b\n', b'ab' * n + b'\n'):
        r = yield Run(['-f', f], t, timeout=20000)
        steps(r, 'replacing')
        r = yield Run(['-f', f, '-r'], b'#' + t, timeout=20000)
        steps(r, 'reversing')


def spaces():
    return [
        Space('parents', parent_cases, parent_body, 'steps', 'all graphs of parent links between up to three files'),
        Space('expressions', rx_cases, rx_body, 'steps', 'expressions with explosive backtracking or empty matches'),
        Space('configuration', conf_cases, conf_body, 'steps', 'growth of the number of steps with the size of the configuration'),
        Space('options', opt_cases, opt_body, 'steps', 'growth with the requested size'),
        Space('detection', detect_cases, detect_body, 'steps', 'growth of the detection among all shipped designs'),
        Space('growth', grow_cases, grow_body, 'steps', 'growth with the size of the text: all designs x text patterns x shapes x operations'),
        Space('sides', sides_cases, sides_body, 'steps', 'all combinations of fixed and elastic shape sizes on opposite sides, both directions'),
    ]
