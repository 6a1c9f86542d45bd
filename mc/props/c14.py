"""C14 mending repairs a damaged box and leaves an intact one alone"""
from common import *
import shipped


def intact_body(case):
    """mending an intact box with the options it was drawn with reproduces it, again and again"""
    di, t, o, extra = case
    d = DES[di]
    a = ['-f', config(d.cfg()), '-d', d.name] + o.args()
    L = layout(d, t, o)
    if L.rows is None or L.pad != L.fullpad:
        return               # a requested size leaves no room for the padding: what was padding cannot be known
    if (d.open['t'] and not L.rows[0][2].strip() and (L.pad["t"] or o.size and o.size[1])) or (
            d.open['b'] and (L.pad["b"] or o.size and o.size[1])):
        return               # nor which of the blank lines outside of the frame were padding
    r = yield Run(a, t.encode())
    check_rc(r)
    cur = r.out
    for k in range(2):
        m = yield Run(a + ['-m'] + list(extra), cur)
        check_rc(m)
        if m.out != r.out:
            raise Fail('%sbox:\n%s\nmended:\n%s' % ('second time: ' if k else '', decode(r.out), decode(m.out)))
        cur = m.out


def shipped_body(case):
    name, t, o = case
    a = ['-f', core.REPO + '/boxes-config', '-d', name] + o.args()
    r = yield Run(a, t.encode())
    check_rc(r)
    n = r.out.count(b'\n')
    if o.size and o.size[1] and n > o.size[1]:
        return                # size not attainable with the shapes of the design
    if name == 'headline' and '  ' in t:
        return                # rules which cannot be reverted
    m = yield Run(a + ['-m'], r.out)
    check_rc(m)
    if m.out != r.out:
        raise Fail('box:\n%s\nmended:\n%s' % (decode(r.out), decode(m.out)))


# what the user does to a body line: (new text or None, what happens to the right border)
TEXTS = (None, 'q', 'much longer text', '  in', '')
BORDER = ('keep', 'gone', 'left', 'right', 'glued')


def edit_body(case):
    """a box in which text lines were edited, inserted and deleted, and the right border was damaged"""
    di, t, o, edits, term = case
    d = DES[di]
    a = ['-f', config(d.cfg()), '-d', d.name] + o.args()
    L = layout(d, t, o)
    r = yield Run(a, t.encode())
    check_rc(r)
    if r.out != L.out.encode():
        return                # the drawing itself is not the subject of this check
    if d.open['t'] and L.pad['t'] or d.open['b'] and L.pad['b']:
        return                # which of the blank lines outside of the frame were padding cannot be known
    if len(L.rows) - len(L.tops) * (not d.open['t']) - len(L.bots) * (not d.open['b']) > (
            len(L.lines) + L.pad['t'] + L.pad['b']):
        return                # nor which of the blank lines inside of the frame are part of the text
    nt = 0 if d.open['t'] else len(L.tops)
    first = nt + L.y0
    box = list(L.rows)
    res, text = [], []
    lines = list(L.lines)
    k = 0
    pre, body, post = box[:first], box[first:first + len(lines)], box[first + len(lines):]
    lp = ' ' * L.pad['l']

    def border(content, right, b, full):
        if b == 'gone' or not right.strip():
            return content
        if b == 'keep':
            return content + ' ' * max(0, full - len(content)) + right
        if b == 'left':
            return content + ' ' + right
        if b == 'right':
            return content + ' ' * max(1, full + 3 - len(content)) + right
        return content + right

    out = []
    for (ind, left, mid, right), l, e in zip(body, lines, edits):
        ins = None
        if e == 'del':
            continue
        if isinstance(e, tuple) and e[0] == 'ins':
            ins = e[1]
            e = (None, 'keep')
        nl = l if e[0] is None else e[0]
        out.append(border(ind + left + lp + nl, right, e[1], width(ind + left + mid)))
        text.append(nl)
        if ins is not None:
            out.append(border(ind + left + lp + ins, right, 'gone' if ins != 'z' else 'left', 0))
            text.append(ins)
    if not any(x.strip() for x in text):
        return
    s = '\n'.join([''.join(x) for x in pre] + out + [''.join(x) for x in post])
    s = '\n'.join(x.rstrip() for x in s.split('\n')) + ('\n' if term else '')
    want_text = '\n'.join((' ' * L.boxind + x).rstrip() for x in text) + ('\n' if term else '')
    w = yield Run(a, want_text.encode())
    m = yield Run(a + ['-m'], s.encode())
    check_rc(m)
    if m.out != w.out:
        raise Fail('damaged box:\n%s\nmended:\n%s\nexpected:\n%s' % (s, decode(m.out), decode(w.out)))
    m2 = yield Run(a + ['-m'], m.out)
    if m2.out != m.out:
        raise Fail('mending again changes the box:\n%s\n%s' % (decode(m.out), decode(m2.out)))


from core import width
DES = []


def spaces():
    DES.extend([
        closed(padding={'h': 1}), closed('bare'), west(padding={'left': 1}),
        Design('cmt', {'NW': '/*', 'N': '*', 'NE': '**', 'W': ' *', 'SW': ' *', 'S': '*', 'SE': '*/'},
               padding={'left': 1}),
        Design('tb', {'NW': '.--', 'N': '-', 'NE': '--.', 'W': '|  ', 'E': '  |', 'SW': "'--", 'S': '-', 'SE': "--'"},
               padding={'v': 1}),
        Design('all', {'NW': '(', 'N': '=', 'NE': ')', 'W': '{', 'E': '}', 'SW': '[', 'S': '_', 'SE': ']'},
               padding={'left': 2, 'right': 3, 'top': 1, 'bottom': 2}),
        Design('txt', {'W': '||', 'N': '=', 'NW': '||', 'E': '||', 'NE': '||'}, padding={'h': 1}),
        Design('east', {'E': '%'}, padding={'h': 1}),
        Design('top', {'N': '~'}),
        mixed(padding={'h': 1}),
        Design('ledge', {'NW': ['  .', '  #'], 'N': ['-', '#'], 'NE': ['. ', '# '], 'W': '  #', 'E': '# ',
                         'SW': ['  #', '  ,'], 'S': ['#', ' '], 'SE': ['# ', ', ']}, padding={'a': 1}),
        Design('esc', {'W': '\x1b[31m#\x1b[0m', 'E': '\x1b[31m#\x1b[0m', 'N': '#', 'NW': '#', 'NE': '#'},
               padding={'h': 1}),
    ])
    n = len(DES)
    ln = ['', 'a', ' bc', 'd e']

    def texts(k):
        for j in range(1, k + 1):
            for x in itertools.product(ln, repeat=j):
                if any(x):
                    yield '\n'.join(x) + '\n'
        yield '  a\n   b\n'
        yield '  a\n   b'
        yield 'x\n\ny'
        yield 'x\n\u4e16\u754c y\n'

    opts = [O(), O(size=(20, 0)), O(size=(0, 8)), O(size=(20, 9)), O(pad=(('a', 1),)), O(indent='t'), O(indent='n'),
            O('vc'), O('vb'), O('vb', (20, 9)), O('hlvc', (15, 7))]
    st = ['foo\nbar baz\n', 'one\n\n  two\n']
    def sizes():
        for n in ladder(pick(30, 140), pick(600, 2100)):
            for i in (0, 1, 2, 3, 4, 9):
                yield i, 'x' * n + '\n', O(), ()
                yield i, 'ab\n' * n, O(), ()
                yield i, 'a\n' + '\n' * n + 'b\n', O(), ()
                yield i, ' ' * n + 'ab\n' + ' ' * n + 'c\n', O(), ()
                yield i, 'ab\nc\n', O(size=(n, 0)), ()
                yield i, 'ab\nc\n', O(size=(0, n)), ()
                if n < 500:
                    yield i, 'ab\nc\n', O(pad=(('a', n),)), ()

    def edits3():
        for n in ladder(pick(30, 100), pick(300, 1100)):
            for i in (0, 1, 3, 4):
                for e in (('q', 'gone'), ('much longer text', 'keep'), ('x' * n, 'left'), 'del', ('ins', 'z')):
                    yield i, 'alpha\nb\n', O(), (e, ('y' * n, 'left')), True
                    if n < 300:
                        keep = [(None, 'keep')] * n
                        keep[n // 2] = e
                        yield i, 'alpha\n' * n, O(), tuple(keep), True
                        yield i, 'alpha\nb\n' * (n // 2) + 'c\n' * (n % 2), O(), (e,) * n, True

    return [
        Space('sizes', sizes, intact_body, 'plain', 'mending of intact boxes of every size up to a bound and around round '
              'numbers'),
        Space('edits-sizes', edits3, edit_body, 'plain', 'damaged boxes with long lines and many lines'),
        Space('intact', lambda: ((d, t, o, ()) for d in range(n) for t in texts(pick(3, 4)) for o in opts),
              intact_body, 'plain', 'mending of intact boxes: texts x designs x options, twice'),
        Space('shipped', lambda: itertools.product(shipped.names(), st, [O(), O(size=(66, 30)), O(pad=(('a', 2),))]),
              shipped_body, 'plain', 'all designs of the shipped configuration'),
        Space('edits1', lambda: ((d, t, o, tuple((e if i == k else (None, 'keep')) for i in range(t.count('\n'))), True)
                                 for d in range(n) for t in ('alpha\n', 'alpha\nbe ta\n', '  in\nmore\n', 'a\n\nb\n')
                                 for k in range(t.count('\n'))
                                 for e in [(x, b) for x in TEXTS for b in BORDER] + ['del', ('ins', 'z'), ('ins', ''),
                                                                                   ('ins', 'new long line of text')]
                                 for o in (O(), O(pad=(('a', 1),)), O(indent='t'))), edit_body, 'plain',
              'every single edit of every line'),
        Space('edits2', lambda: ((d, t, O(), e, tm) for d in range(n) for t in ('alpha\nbe ta\n', '  u\n   v\n', 'abc\nd\ne f\n')
                                 for e in itertools.product([(x, b) for x in TEXTS[:pick(3, 5)] for b in BORDER[:pick(4, 5)]]
                                                            + ['del', ('ins', 'z')], repeat=min(pick(2, 3), t.count('\n')))
                                 for tm in (True, False)), edit_body, 'plain', 'all combinations of edits of several lines'),
    ]
