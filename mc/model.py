"""Executable specification of boxes: box designs, text preparation, layout of a drawn box.

Written from the documentation (man page, config file documentation), not from the program's data structures.  The
checks compare the real program with it on every case of an exhaustively enumerated space.
"""
import math
import re
from core import width, cwidth, strip_esc

NORTH = ('NW', 'NNW', 'N', 'NNE', 'NE')        # left to right
SOUTH = ('SW', 'SSW', 'S', 'SSE', 'SE')        # left to right
WEST = ('NW', 'WNW', 'W', 'WSW', 'SW')         # top to bottom
EAST = ('NE', 'ENE', 'E', 'ESE', 'SE')         # top to bottom
ALL = ('NW', 'NNW', 'N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW')
CORNERS = ('NW', 'NE', 'SE', 'SW')
VSIDE = {'NW': WEST, 'SW': WEST, 'NE': EAST, 'SE': EAST}
HSIDE = {'NW': NORTH, 'NE': NORTH, 'SW': SOUTH, 'SE': SOUTH}


def quote(s, delim='"', esc='\\'):
    return delim + ''.join(esc + c if c in (delim, esc) else c for c in s) + delim


class Design:
    """A box design. `shapes` maps shape names to lists of lines."""
    def __init__(self, name, shapes, elastic=None, padding=None, indent=None, rep=(), rev=(), tags=None, aliases=(),
                 sample='sample', extra=''):
        self.name = name
        self.user = {k: ([v] if isinstance(v, str) else list(v)) for k, v in shapes.items()}
        self.rep = rep
        self.rev = rev
        self.tags = tags
        self.aliases = tuple(aliases)
        self.sample = sample
        self.pad = dict(padding or {})         # config notation: area -> n, in order
        self.indent = indent
        self.extra = extra
        self.finalize()
        if elastic is None:
            elastic = [s[2] for s in (NORTH, SOUTH, WEST, EAST)]
        self.elastic = tuple(elastic)
        for side in (NORTH, SOUTH, WEST, EAST):    # generated sides are always elastic
            if all(s not in self.user for s in side[1:4]) and side[2] not in self.elastic:
                self.elastic += (side[2],)

    def finalize(self):
        sh = dict(self.user)
        for c in CORNERS:
            if c not in sh:
                w = next((width(sh_[0]) for sh_ in (self.user.get(n) for n in VSIDE[c]) if sh_), 1)
                h = next((len(sh_) for sh_ in (self.user.get(n) for n in HSIDE[c]) if sh_), 1)
                sh[c] = [' ' * w] * h
        for side in (NORTH, SOUTH):
            if not any(n in sh for n in side[1:4]):
                sh[side[2]] = [' '] * len(sh[side[0]])
        for side in (WEST, EAST):
            if not any(n in sh for n in side[1:4]):
                sh[side[2]] = [' ' * width(sh[side[0]][0])]
        self.shapes = sh
        self.w = {n: width(v[0]) for n, v in sh.items()}
        self.h = {n: len(v) for n, v in sh.items()}
        self.open = {k: all(strip_esc(l).strip(' ') == '' for n in side if n in sh for l in sh[n])
                     for k, side in (('t', NORTH), ('b', SOUTH), ('l', WEST), ('r', EAST))}
        p = {'l': 0, 'r': 0, 't': 0, 'b': 0}
        for area, n in self.pad.items():
            for k in {'a': 'lrtb', 'h': 'lr', 'v': 'tb'}.get(area[0], area[0]):
                p[k] = n
        self.padding = p

    def minw(self):
        return max(sum(self.w[n] for n in side if n in self.shapes) for side in (NORTH, SOUTH))

    def minh(self):
        return max(sum(self.h[n] for n in side if n in self.shapes) for side in (WEST, EAST))

    def cfg(self):
        t = 'BOX ' + ', '.join((self.name,) + self.aliases) + '\n'
        if self.tags is not None:
            t += 'tags (%s)\n' % ', '.join('"%s"' % x for x in self.tags)
        if self.indent:
            t += 'indent "%s"\n' % self.indent
        t += 'sample\n%s\nends\n' % self.sample
        t += 'shapes {\n' + '\n'.join('  %s (%s)' % (n.lower(), ', '.join(quote(l) for l in self.user[n]))
                                      for n in ALL if n in self.user) + '\n}\n'
        t += 'elastic (%s)\n' % ', '.join(x.lower() for x in self.elastic)
        for m, a, b in self.rep:
            t += 'replace %s%s with %s\n' % ('global ' if m == 'g' else 'once ' if m == 'o' else '', quote(a), quote(b))
        for m, a, b in self.rev:
            t += 'reverse %s%s to %s\n' % ('global ' if m == 'g' else 'once ' if m == 'o' else '', quote(a), quote(b))
        if self.pad:
            t += 'padding {\n' + '\n'.join('  %s %d' % x for x in self.pad.items()) + '\n}\n'
        t += self.extra
        t += 'END %s\n\n' % self.name
        return t

    def frame_chars(self):
        return {c for v in self.shapes.values() for l in v for c in strip_esc(l)} - {' '}


# ---- sizes -----------------------------------------------------------------------------------------------------------
def _lengths(side, dims, shapes, elastic):
    """the lengths which the inner part of a side can have, ascending; yields (length, {shape: count})"""
    inner = [n for n in side[1:4] if n in shapes]
    el = [n for n in inner if n in elastic]
    cnt = {n: 1 for n in inner if n not in el}
    total = sum(dims[n] for n in cnt)
    for n in el:
        cnt[n] = 0
    i = 0
    while True:
        n = el[i % len(el)]
        cnt[n] += 1
        total += dims[n]
        i += 1
        yield total, cnt


def common_length(d, sides, dims, target):
    """smallest length >= target which both sides can have; returns None if there is none"""
    a, b = sides
    # two elastic shapes of a south or west side are extended in clockwise order, like all others
    ga = _lengths(a, dims, d.shapes, d.elastic)
    gb = _lengths(b, dims, d.shapes, d.elastic)
    x, cx = next(ga)
    y, cy = next(gb)
    limit = target + 4000
    while x != y or x < target:
        if x <= y:
            x, cx = next(ga)
        else:
            y, cy = next(gb)
        if x > limit and y > limit:
            return None
    return x, cx, cy


def clockwise(side):
    return tuple(reversed(side))


_fcache = {}


def fit(d, targetw, targeth):
    k = (d, targetw, targeth)
    r = _fcache.get(k)
    if r is None:
        if len(_fcache) > 20000:
            _fcache.clear()
        w = common_length(d, (NORTH, clockwise(SOUTH)), d.w, targetw)
        h = common_length(d, (clockwise(WEST), EAST), d.h, targeth)
        r = None
        if w is not None and h is not None:
            tops = assemble_h(d, NORTH, w[1])
            bots = assemble_h(d, SOUTH, w[2])
            left = assemble_v(d, WEST, h[1])
            right = assemble_v(d, EAST, h[2])
            r = (w[0], h[0], tops, bots, left, right)
        _fcache[k] = r or ()
    return r or None


def assemble_h(d, side, cnt):
    res = [''] * d.h[side[0]]
    for n in side[1:4]:
        for _ in range(cnt.get(n, 0)):
            res = [a + b for a, b in zip(res, d.shapes[n])]
    return res


def assemble_v(d, side, cnt):
    res = list(d.shapes[side[0]])
    for n in side[1:4]:
        res += d.shapes.get(n, []) * cnt.get(n, 0)
    return res + list(d.shapes[side[4]])


# ---- text ------------------------------------------------------------------------------------------------------------
WS = ' \t\r\n\v\f\u0085\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029' \
     '\u202f\u205f\u3000'


def expand(s, ts):
    """tab expansion in display columns; returns (text, [(column, width) of each tab])"""
    if '\t' not in s:
        return s, []
    out, col, tabs = [], 0, []
    i = 0
    from core import ESC_RE
    while i < len(s):
        c = s[i]
        if c == '\t':
            n = ts - col % ts
            tabs.append((col, n))
            out.append(' ' * n)
            col += n
        elif c == '\x1b':
            m = ESC_RE.match(s, i)
            if m:
                out.append(m.group())
                i = m.end()
                continue
            out.append(c)
        else:
            out.append(c)
            col += cwidth(c)
        i += 1
    return ''.join(out), tabs


def split_lines(text):
    """-> (lines without terminators, True if the last one was terminated)"""
    if text == '':
        return [], True
    ls = text.split('\n')
    fin = ls[-1] == ''
    if fin:
        ls.pop()
    return [l[:-1] if l.endswith('\r') else l for l in ls], fin


class Text:
    """The input text as the documentation describes it: trailing space removed, tabs expanded, common indentation"""
    def __init__(self, text, ts=8):
        raw, self.final = split_lines(text)
        self.lines, self.tabs = [], []
        for l in raw:
            e, t = expand(l.rstrip(WS), ts)
            self.lines.append(e)
            self.tabs.append(t)
        ind = [len(l) - len(l.lstrip(' ')) for l in self.lines if width(l) > 0]
        self.indent = min(ind) if ind else 0


# ---- options -----------------------------------------------------------------------------------------------------------
class O:
    """Drawing options, both as command line arguments and for the model"""
    __slots__ = ('align', 'size', 'pad', 'indent', 'tabs', 'eol')

    def __init__(self, align='', size=None, pad=(), indent=None, tabs='8e', eol=None):
        self.align = align      # argument of -a
        self.size = size        # (w, h), either may be 0
        self.pad = pad          # sequence of (letter, n)
        self.indent = indent    # b, t, n
        self.tabs = tabs
        self.eol = eol          # CRLF, LF, CR

    def args(self):
        a = []
        if self.align:
            a += ['-a', self.align]
        if self.size:
            w, h = self.size
            a += ['-s', (str(w) if w else '') + ('x%d' % h if h else '')]
        if self.pad:
            a += ['-p', ''.join('%s%d' % x for x in self.pad)]
        if self.indent:
            a += ['-i', self.indent]
        if self.tabs != '8e':
            a += ['-t', self.tabs]
        if self.eol:
            a += ['-e', self.eol]
        return a

    def alignment(self):
        h, v, j = 'l', 't', ''
        s = self.align
        i = 0
        while i < len(s):
            c = s[i]
            if c in 'lcr':
                h, v, j = c, 'c', c
                i += 1
                continue
            if c == 'h':
                h = s[i + 1]
            elif c == 'v':
                v = s[i + 1]
            elif c == 'j':
                j = s[i + 1]
            i += 2
        return h, v, j


class Layout:
    """What the box looks like. rows[i] = (indent, left, inner, right) as strings of display text"""


def layout(d, text, o, alt=(0, 0, 0)):
    m = re.match(r'\d+', o.tabs)
    ts = int(m.group()) if m else 8
    tm = o.tabs[-1] if o.tabs[-1] in 'euk' else 'e'
    t = Text(text, ts)
    L = Layout()
    L.text = t
    L.d = d
    if not t.lines:
        L.rows, L.out, L.empty = [], '', True
        return L
    L.empty = False
    mode = o.indent[0] if o.indent else d.indent[0] if d.indent else 'b'
    L.mode = mode
    lines = t.lines
    if mode != 't':
        lines = [l[t.indent:] if width(l) >= t.indent else l for l in lines]
    if d.rep:
        lines = [apply_rules(d.rep, l) for l in lines]
    ind = t.indent
    if d.rep and mode == 't':
        x = [len(l) - len(l.lstrip(' ')) for l in lines if width(l) > 0]
        ind = min(x) if x else 0
    L.lines = lines
    widths = [width(l) for l in lines]
    maxw = max(widths)
    pad = dict(d.padding)
    for k, n in o.pad:
        for x in {'a': 'lrtb', 'h': 'lr', 'v': 'tb'}.get(k, k):
            pad[x] = n
    L.fullpad = dict(pad)
    cw, ch = d.w['NW'] + d.w['NE'], d.h['NW'] + d.h['SW']
    minw, minh = d.minw(), d.minh()
    rw, rh = o.size or (0, 0)
    if rw:
        minw = max(minw, rw + (d.w['NE'] if d.open['r'] else 0) + (d.w['NW'] if d.open['l'] else 0))
    if rh:
        minh = max(minh, rh + (d.h['NW'] if d.open['t'] else 0) + (d.h['SW'] if d.open['b'] else 0))
    if rw:
        shrink(pad, 'l', 'r', pad['l'] + pad['r'] + maxw + cw - minw)
    elif pad['l'] + pad['r']:
        minw = max(minw, pad['l'] + pad['r'] + maxw + cw)
    if rh:
        shrink(pad, 't', 'b', pad['t'] + pad['b'] + len(lines) + ch - minh)
    elif pad['t'] + pad['b']:
        minh = max(minh, pad['t'] + pad['b'] + len(lines) + ch)
    L.pad = pad
    f = fit(d, max(maxw, minw - cw), max(len(lines), minh - ch))
    if f is None:
        L.impossible = True
        L.rows = None
        return L
    L.impossible = False
    iw, ih, tops, bots, left, right = f
    L.iw, L.ih = iw, ih
    h, v, j = o.alignment()
    hfill = iw - maxw - pad['l'] - pad['r']
    vfill = ih - len(lines) - pad['t'] - pad['b']
    L.hfill, L.vfill = hfill, vfill
    x0 = pad['l'] + {'l': 0, 'c': (hfill + alt[0]) // 2, 'r': hfill}[h]
    y0 = pad['t'] + {'t': 0, 'c': (vfill + alt[1]) // 2, 'b': vfill}[v]
    L.x0, L.y0 = x0, y0
    inner = []
    L.cols = []
    skew = (iw - maxw - x0) - x0
    for l, w in zip(lines, widths):
        body = l.lstrip(' ')
        own = len(l) - len(body)
        bw = w - own
        if not strip_esc(body).strip(WS):
            inner.append(' ' * iw if not body else l + ' ' * (iw - w))
            L.cols.append(None)
            continue
        if j == '':
            c = own
        elif j == 'l':
            c = ind if mode == 't' else 0
        elif j == 'r':
            c = maxw - bw
        elif mode == 't':
            room = maxw - ind - bw
            c = room // 2 + ind + (room % 2 and alt[2] ^ (skew - ind == 1))
        else:
            room = maxw - bw
            c = room // 2 + (room % 2 and alt[2] ^ (skew == 1))
        inner.append(' ' * (x0 + c) + body + ' ' * (iw - x0 - c - bw))
        L.cols.append(x0 + c)
    rows = []
    n = ih + ch
    nt, nb = len(tops), len(bots)
    ntext = len(lines)
    vis0 = nt if d.open['t'] else 0
    vis1 = n - (nb if d.open['b'] else 0)
    blank = ' ' * iw
    boxind = t.indent if mode == 'b' else 0
    L.boxind = boxind
    inds = [make_indent(boxind, tabs, ts, tm) for tabs in t.tabs]
    L.tops, L.bots, L.left, L.right = tops, bots, left, right
    L.n = n
    eol = {'CRLF': '\r\n', 'LF': '\n', 'CR': '\r', None: '\n', 'default': '\n'}[o.eol]
    out = []
    for y in range(vis0, vis1):
        ti = y - nt - y0
        if y < nt:
            mid = tops[y]
        elif y >= n - nb:
            mid = bots[y - (n - nb)]
        elif 0 <= ti < ntext:
            mid = inner[ti]
        else:
            mid = blank
        ind = inds[min(max(ti, 0), ntext - 1)]
        row = (ind, '' if d.open['l'] else left[y], mid, right[y])
        rows.append(row)
        s = ''.join(row)
        r = s.rstrip(WS)
        out.append(r or s)
    L.rows = rows
    L.eol = eol
    L.lines_out = out
    L.out = eol.join(out) + (eol if t.final else '')
    return L


def shrink(pad, a, b, excess):
    for i in range(max(0, excess)):
        x, y = (b, a) if i % 2 else (a, b)
        if pad[x]:
            pad[x] -= 1
        elif pad[y]:
            pad[y] -= 1
        else:
            break


def make_indent(n, tabs, ts, mode):
    if mode == 'u':
        return '\t' * (n // ts) + ' ' * (n % ts)
    if mode == 'k':
        s, col = '', 0
        for c, w in tabs:
            if c + w > n:
                break
            s += ' ' * (c - col) + '\t'
            col = c + w
        return s + ' ' * (n - col)
    return ' ' * n


def apply_rules(rules, s):
    """rules of the form (mode, pattern, replacement), in order, each to the result of the previous one"""
    for m, a, b in rules:
        def sub(mo, b=b):
            return re.sub(r'\\(.)|\$(\d+)|\$\{(\d+)\}',
                          lambda x: x.group(1) or mo.group(int(x.group(2) or x.group(3))), b)
        s = re.sub(a, sub, s, count=1 if m == 'o' else 0, flags=re.A)
    return s


def matches(L, d, text, o, out):
    """True if `out` is what is specified; centring may be rounded either way"""
    if out == L.out:
        return True
    if 'c' in o.align:
        for i in range(1, 8):
            if layout(d, text, o, (i & 1, i >> 1 & 1, i >> 2 & 1)).out == out:
                return True
    return False


# ---- judging -----------------------------------------------------------------------------------------------------------
def raw_rows(out, eol):
    if out == '':
        return [], True
    ls = out.split(eol)
    fin = ls[-1] == ''
    if fin:
        ls.pop()
    return ls, fin


def cells(s):
    """-> list of (column, char) of the visible characters, zero-width ones attached to their predecessor"""
    res, col = [], 0
    for c in strip_esc(s):
        w = cwidth(c)
        if w == 0 and res:
            res[-1] = (res[-1][0], res[-1][1] + c)
        else:
            res.append((col, c))
        col += w
    return res


def picture(rows, ts, frame):
    """decode drawn rows into frame cells and text runs, independent of any particular size or position"""
    fr, tx = [], []
    for y, s in enumerate(rows):
        s, _ = expand(s, ts)
        run = None
        for col, c in cells(s):
            if c[0] == ' ':
                continue
            if c[0] in frame:
                fr.append((y, col, c))
            elif run is None:
                run = [y, col, c, col + width(c)]
            else:
                run[2] += ' ' * (col - run[3]) + c
                run[3] = col + width(c)
        if run:
            tx.append(tuple(run[:3]))
    return fr, tx


def aspects(L, o, out):
    """In which aspects does the output differ from the specification?  Only called if it differs at all."""
    d = L.d
    bad = {}
    ts = int(re.match(r'\d+', o.tabs).group()) if re.match(r'\d', o.tabs) else 8
    eol = L.eol
    rows, fin = raw_rows(out, eol)
    erows, efin = raw_rows(L.out, eol)
    if fin != efin or any('\n' in r or '\r' in r for r in rows):
        bad['eol'] = 'line terminators differ from what was requested'
    rows = [r.strip('\r\n') for r in rows]
    for i, r in enumerate(rows):
        if r.strip(WS) and r != r.rstrip(' \t'):
            bad['trail'] = 'line %d ends in white space' % (i + 1)
    frame = d.frame_chars()
    fr, tx = picture(rows, ts, frame)
    efr, etx = picture(erows, ts, frame)
    # text
    if [t[2] for t in tx] != [t[2] for t in etx]:
        bad['text'] = 'text inside the box: expected %r, got %r' % ([t[2] for t in etx][:6], [t[2] for t in tx][:6])
    elif tx:
        if [t[0] - tx[0][0] for t in tx] != [t[0] - etx[0][0] for t in etx]:
            bad['text'] = 'blank lines between the text lines have changed'
        if [t[1] - tx[0][1] for t in tx] != [t[1] - etx[0][1] for t in etx]:
            bad['just'] = 'text lines are not placed relative to each other as requested: columns %r, expected %r' % (
                [t[1] for t in tx][:8], [t[1] for t in etx][:8])
            if not o.alignment()[2]:
                bad['text'] = bad['just']
    # frame
    ox = min((c for _, c, _ in fr), default=0)
    eox = min((c for _, c, _ in efr), default=0)
    norm = [(y, c - ox, s) for y, c, s in fr]
    enorm = [(y, c - eox, s) for y, c, s in efr]
    if norm != enorm:
        bad['frame'] = 'the frame is not the one which design, text and options call for'
    dim = (max((c for _, c, _ in norm), default=0), len(rows))
    edim = (max((c for _, c, _ in enorm), default=0), len(erows))
    if dim != edim:
        bad['size'] = 'box size: expected %r, got %r' % (edim, dim)
    if not d.open['r']:
        ew = {}
        for i, r in enumerate(rows):
            ew.setdefault(width(expand(r, ts)[0]), []).append(i + 1)
        if full_right(d) and len(ew) > 1:
            bad['rect'] = 'the lines of the box have different widths %r' % dict(list(ew.items())[:4])
        elif dim == edim and norm != enorm:
            x = L.iw + (0 if d.open['l'] else d.w['NW'])
            a = [(y, c) for y, c, s in norm if c >= x]
            b = [(y, c) for y, c, s in enorm if c >= x]
            if a != b:
                bad['rect'] = 'the right border is not in the same column on all lines'
        elif dim != edim and not full_right(d):
            lasts = {}
            for y, c, s in norm:
                lasts[y] = max(lasts.get(y, 0), c)
    # position of the text relative to the frame
    if tx and etx and (fr or not efr):
        if fr:
            a, b = (tx[0][0], tx[0][1] - ox), (etx[0][0], etx[0][1] - eox)
            if a != b:
                bad['pos'] = 'text starts at line/column %r relative to the frame, expected %r' % (a, b)
    if fr and ox != eox:
        bad['indent'] = 'the box is indented by %d columns, expected %d' % (ox, eox)
    if not fr and not efr and tx and etx and tx[0][1] != etx[0][1]:
        bad['indent'] = 'text starts in column %d, expected %d' % (tx[0][1], etx[0][1])
    a = [re.match(r'[ \t]*', r).group() for r in rows]
    b = [re.match(r'[ \t]*', r).group() for r in erows]
    if a != b and [width(expand(x, ts)[0]) for x in a] == [width(expand(x, ts)[0]) for x in b]:
        bad['tabs'] = 'tabs in the indentation: %r, expected %r' % (
            [x for x, y in zip(a, b) if x != y][:3], [y for x, y in zip(a, b) if x != y][:3])
    if any('\t' in r.lstrip(' \t') for r in rows):
        bad['tabs'] = 'a tab was written inside the box'
    if not bad:
        bad['other'] = 'output differs from the specification'
    return bad


def full_right(d):
    """True if every line of the right side ends in a visible character"""
    return all(strip_esc(l)[-1:].strip(WS) for n in EAST if n in d.shapes for l in d.shapes[n])
