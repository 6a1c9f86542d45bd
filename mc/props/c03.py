"""C03 the frame is assembled exactly as the box design says"""
from common import *

ASPECTS = ('frame', 'size')

# inner parts of a side: (sizes of the three shapes (0: none), indexes of elastic ones)
INNER = [((0, 0, 0), ())]
for _sz in itertools.product((0, 1, 2, 3), repeat=3):
    _n = [i for i in range(3) if _sz[i]]
    for _k in (1, 2):
        for _e in itertools.combinations(_n, _k):
            if any(_n.index(b) - _n.index(a) == 1 for a, b in zip(_e, _e[1:])):
                continue
            INNER.append((_sz, _e))
INNER_Q = [x for x in INNER if max(x[0]) <= 2]
# reduced list of opposites: every kind of side once
OPP = [((0, 0, 0), ()), ((0, 1, 0), (1,)), ((0, 2, 0), (1,)), ((0, 3, 0), (1,)), ((2, 0, 0), (0,)), ((0, 0, 2), (2,)),
       ((1, 1, 0), (0,)), ((1, 2, 0), (1,)), ((2, 0, 1), (0,)), ((1, 0, 3), (2,)), ((1, 2, 1), (1,)),
       ((2, 1, 1), (0,)), ((1, 3, 2), (2,)), ((1, 1, 2), (0, 2)), ((3, 2, 2), (0, 2)), ((2, 1, 3), (0, 2))]


def side_design(horiz, a, b, corners, transpose=False):
    """a design with the inner parts a and b on the sides NORTH/SOUTH (horiz) or WEST/EAST"""
    s1, s2 = (NORTH, SOUTH) if horiz else (WEST, EAST)
    sh, el = {}, []
    k = 0
    for side, (sz, e) in ((s1, a), (s2, b)):
        for i in range(3):
            k += 1
            if sz[i]:
                sh[side[i + 1]] = block(sz[i], 1, k) if horiz else block(1, sz[i], k)
                if i in e:
                    el.append(side[i + 1])
        if not sum(sz):
            el.append(side[2])
    for i, c in enumerate(CORNERS):
        if corners & 1 << i:
            sh[c] = [chr(0x3b1 + i)]
    if not sh:
        return None
    for side in ((WEST, EAST) if horiz else (NORTH, SOUTH)):
        el.append(side[2])
    return Design('x', sh, elastic=el)


def side_body(case):
    horiz, a, b, c, n = case
    d = side_design(horiz, a, b, c)
    if d is None:
        return
    text = 'x' * n + '\n' if horiz else 'x\n' * n
    yield from draw(d, text, O(), ASPECTS)


def subset_body(case):
    bits, t = case
    sh = {n: [_c] for i, (n, _c) in enumerate(zip(ALL, 'ABCDEFGHIJKLMNOP')) if bits & 1 << i}
    el = []
    for side in (NORTH, EAST, SOUTH, WEST):
        inner = [n for n in side[1:4] if n in sh]
        el.append(inner[(bits >> 3) % len(inner)] if inner else side[2])
    d = Design('x', sh, elastic=el)
    yield from draw(d, t, O(), ASPECTS)


def subsets():
    if not quick():
        return range(1, 1 << 16)
    res = set()
    idx = {n: i for i, n in enumerate(ALL)}
    for s1, s2 in itertools.combinations((NORTH, EAST, SOUTH, WEST), 2):
        free = [idx[n] for n in s1[1:4] + s2[1:4]] + [idx[c] for c in CORNERS]
        for b in range(1, 1 << len(free)):
            res.add(sum(1 << f for i, f in enumerate(free) if b & 1 << i))
    return sorted(res)


def dims_body(case):
    wl, wr, ht, hb, defined, t = case
    sh = {}
    k = 0
    for n in ALL:
        k += 1
        if n in CORNERS:
            if defined & 1 << CORNERS.index(n):
                sh[n] = block(wl if n in WEST else wr, ht if n in NORTH else hb, k)
        elif n in 'NESW':
            if defined & 1 << (4 + 'NESW'.index(n)):
                sh[n] = block({'E': wr, 'W': wl}.get(n, 1), {'N': ht, 'S': hb}.get(n, 1), k)
    if not sh:
        return
    yield from draw(Design('x', sh), t, O(), ASPECTS)


def random_free_mix(case):
    i, j, k, l, t = case
    h1, h2, v1, v2 = OPP[i], OPP[j], OPP[k], OPP[l]
    a = side_design(True, h1, h2, 15)
    b = side_design(False, v1, v2, 0)
    sh = dict(a.user)
    if b:
        sh.update(b.user)
    el = [e for e in a.elastic if e in NORTH + SOUTH] + [e for e in (b.elastic if b else 'WE') if e in WEST + EAST]
    for side in (WEST, EAST):
        if not any(n in sh for n in side[1:4]):
            el.append(side[2])
    yield from draw(Design('x', sh, elastic=sorted(set(el), key=ALL.index)), t, O(), ASPECTS)


def spaces():
    inner = pick(INNER_Q, INNER)
    ns = pick((1, 2, 5, 8, 11, 12), range(1, 20))
    big = ladder(pick(40, 140), pick(600, 2100))

    def bigs():
        for n in big:
            for h in (True, False):
                for x in ((0, 1, 0), (2, 1, 0), (1, 1, 1), (0, 3, 2)):
                    yield 'text', h, x, n
                for w in range(5):
                    if h or n < 300:
                        yield 'shape', h, w, n

    def big_body(c):
        what, h, x, n = c
        if what == 'text':
            a = (x, (1,))
            d = side_design(h, a, ((0, 2, 0), (1,)), 15)
            yield from draw(d, 'x' * n + '\n' if h else 'x\n' * n, O(), ASPECTS)
            return
        s = [2, 1, 1, 1, 2]
        s[x] = n
        # x: which of the five shapes of the top (left) side has the size n; or its neighbours' thickness
        side = NORTH if h else WEST[::-1] if WEST[0] == 'SW' else WEST
        sh = {}
        for i, nm in enumerate(side):
            sh[nm] = block(s[i], 1, i) if h else block(1, s[i], i)
        d = Design('x', sh, elastic=[side[2]] + ([('W'), ('E'), 'S'] if h else ['N', 'E', 'S']))
        yield from draw(d, 'abc\n' * 3, O(), ASPECTS)
        sh = {side[2]: block(1, n, 3) if h else block(n, 1, 3), side[0]: block(1, n, 5) if h else block(n, 1, 5)}
        d = Design('x', sh, elastic=[side[2]] + (['W', 'E', 'S'] if h else ['N', 'E', 'S']))
        if x == 0 and n < 1000:
            yield from draw(d, 'abc\n' * 3, O(), ASPECTS)

    return [
        Space('large', bigs, big_body, 'plain', 'texts and shapes of every width and height up to a bound and around '
              'round numbers'),
        Space('horizontal', lambda: ((True, a, b, c, n) for a in inner for b in OPP for c in pick((0, 15), (0, 3, 15))
                                     for n in ns), side_body, 'plain',
              'all inner parts of the top side (shape sizes, elastic choices) x kinds of bottom sides x text widths'),
        Space('vertical', lambda: ((False, a, b, c, n) for a in inner for b in OPP for c in pick((0, 15), (0, 3, 15))
                                   for n in ns), side_body, 'plain',
              'all inner parts of the left side x kinds of right sides x text heights'),
        Space('mirrored', lambda: ((h, b, a, 15, n) for h in (True, False) for a in inner for b in OPP
                                   for n in pick((1, 4, 9), ns)), side_body, 'plain', 'the same with sides exchanged'),
        Space('subsets', lambda: itertools.product(subsets(), ('x\n',) if quick() else ('xyz\n\nx\n',)), subset_body,
              'plain', 'subsets of the sixteen shapes (quick: all subsets touching two sides and any corners)'),
        Space('dimensions', lambda: itertools.product((1, 2, 3), (1, 2), (1, 2, 3), (1, 2), range(1, 256),
                                                      pick(('xyz\n\nx\n',), ('x\n', 'xyz\n\nx\n'))), dims_body, 'plain',
              'all widths and heights of the sides x all subsets of corners and middle shapes'),
        Space('mixed', lambda: itertools.product(range(1, 16, pick(2, 1)), range(0, 16, pick(3, 1)),
                                                 range(1, 16, pick(2, 1)), range(0, 16, pick(3, 1)),
                                                 ('abcdefg\n\nx\n',)), random_free_mix, 'plain',
              'products of kinds of sides in both directions'),
    ]
