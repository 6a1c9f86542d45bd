"""C18 discovery of the configuration file"""
from common import *

NAMES = ('.boxes', 'box-designs', 'boxes-config', 'boxes')
GLOBALFILE = '/opt/bxmc-global/boxes'      # compiled in as GLOBALCONF; redirected into the scratch directory
GDIRS = ('/etc/xdg/boxes', '/usr/local/share/boxes', '/usr/share/boxes')
SHELL = 'sample\ns\nends\nshapes { w ("%s") }\nelastic (w, n, e, s)\n'


def cfg(mark, par=''):
    return par + 'BOX d\n' + SHELL % ('<' + mark + '>') + 'END d\n'


DENY = []


def fresh():
    DENY.clear()
    return core.CTX.fresh_dir()


def put(p, kind, mark):
    """create a directory entry of some kind"""
    if kind is None:
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if kind == 'file':
        with open(p, 'w') as f:
            f.write(cfg(mark))
    elif kind == 'deny':
        DENY.append(p)                 # a file which may not be read
        with open(p, 'w') as f:
            f.write(cfg(mark))
    elif kind == 'denydir':
        DENY.append(p)
        os.makedirs(p, exist_ok=True)
        put(p + '/.boxes', 'deny', mark)
    elif kind == 'empty':
        open(p, 'w').close()
    elif kind == 'dir':
        os.makedirs(p, exist_ok=True)
    elif kind == 'dangling':
        os.symlink(p + '.nowhere', p)
    elif kind == 'loop':
        os.symlink(p, p)
    elif kind == 'link':
        with open(p + '.target', 'w') as f:
            f.write(cfg(mark))
        os.symlink(p + '.target', p)
    elif kind == 'linkdir':
        os.makedirs(p + '.target', exist_ok=True)
        os.symlink(p + '.target', p)
    else:
        raise AssertionError(kind)


def populate(p, kind, mark):
    """a location which is supposed to be a directory: kind is a dict name -> kind, or a kind"""
    if isinstance(kind, dict):
        os.makedirs(p, exist_ok=True)
        for n, k in kind.items():
            put(os.path.join(p, n), k, mark + n)
    else:
        put(p, kind, mark)


def content(p):
    """the mark in a file; '' if there is none"""
    with open(p) as f:
        s = f.read()
    return s.split('<')[1].split('>')[0] if '<' in s else ''


def isfile(p):
    return os.path.isfile(p) and os.path.realpath(p) not in DENY


def in_dir(p):
    if p and os.path.isdir(p) and os.path.realpath(p) not in DENY:
        for n in NAMES:
            q = os.path.join(p, n)
            if isfile(q):
                return content(q)
    return None


def file_or_dir(p):
    if p and isfile(p):
        return content(p)
    return in_dir(p)


def expected(f, env, root, cwd):
    """the documented search; None = nothing found"""
    def ab(p):
        return os.path.join(cwd, p) if p else p
    if f is not None:
        return file_or_dir(ab(f))
    if env.get('BOXES') is not None:
        return file_or_dir(ab(env['BOXES']))
    dirs = []
    home, xdg = env.get('HOME'), env.get('XDG_CONFIG_HOME')
    dirs.append(ab(home) if home else None)
    dirs.append(ab(xdg + '/boxes') if xdg is not None else None)
    dirs.append(ab(home + '/.config/boxes') if home is not None else None)
    for d in dirs:
        r = in_dir(d)
        if r is not None:
            return r
    return global_conf(root)


def global_conf(root):
    if isfile(root + GLOBALFILE):
        return content(root + GLOBALFILE)
    for d in GDIRS:
        r = in_dir(root + d)
        if r is not None:
            return r
    return None


def judge18(r, want, what):
    if not want:
        if r.rc == 0:
            raise Fail('%s: there is no usable configuration, but the output is %r' % (what, r.out))
        check_rc(r, 1)
        if not r.err or r.out:
            raise Fail('%s: failure without message, or with output: %r %r' % (what, r.out, r.err[:300]))
    else:
        check_rc(r)
        if r.out != b'<' + os.fsencode(want) + b'>T':
            raise Fail('%s: expected the configuration marked %r, got %r' % (what, want, r.out))


def go(d, f, env, what, extra=()):
    e = {'HOME': None}
    e.update({k: v for k, v in env.items()})
    e['BXMC_ROOT'] = d
    if DENY:
        e['BXMC_DENY'] = ':'.join(DENY)
    want = expected(f, env, d, d)
    r = yield Run((['-f', f] if f is not None else []) + list(extra), b'T', env=e, cwd=d)
    judge18(r, want, what)


# ---- which locations exist ---------------------------------------------------------------------------------------------
EXPL = (None, 'x/file', 'x/dir', 'x/missing', 'x/none', '')


def loc_body(case):
    f, b, bits = case
    d = fresh()
    put(d + '/x/file', 'file', 'F')
    populate(d + '/x/dir', {'boxes-config': 'file'}, 'D')
    populate(d + '/x/none', {'config': 'file'}, 'N')
    for i, (p, k) in enumerate((('h/.boxes', 'H'), ('c/boxes/boxes-config', 'X'), ('h/.config/boxes/box-designs', 'C'), (GLOBALFILE[1:], 'G'),
                                (GDIRS[0][1:] + '/boxes', 'g0'), (GDIRS[1][1:] + '/.boxes', 'g1'),
                                (GDIRS[2][1:] + '/boxes-config', 'g2'))):
        if bits >> i & 1:
            put(os.path.join(d, p), 'file', k)
    env = {'HOME': d + '/h', 'XDG_CONFIG_HOME': d + '/c', 'BOXES': b and os.path.join(d, b)}
    if b == '':
        env['BOXES'] = ''
    yield from go(d, f, {k: v for k, v in env.items() if v is not None}, 'drawing')


# ---- file names in directories ----------------------------------------------------------------------------------------------
def names_body(case):
    loc, kinds = case
    d = fresh()
    ent = dict(zip(NAMES, kinds))
    env, f = {'HOME': d + '/nohome'}, None
    p = {'f': 'x', 'b': 'x', 'home': 'h', 'xdg': 'c/boxes', 'hc': 'h/.config/boxes', 'g0': GDIRS[0][1:], 'g1': GDIRS[1][1:],
         'g2': GDIRS[2][1:]}[loc]
    populate(os.path.join(d, p), {n: k for n, k in ent.items() if k}, 'm')
    if loc == 'f':
        f = d + '/x'
    elif loc == 'b':
        env['BOXES'] = d + '/x'
    elif loc in ('home', 'hc'):
        env['HOME'] = d + '/h'
    elif loc == 'xdg':
        env['XDG_CONFIG_HOME'] = d + '/c'
    if loc != 'g2':
        put(d + GDIRS[2] + '/.boxes', 'file', 'fallback')
    yield from go(d, f, env, 'location %s with %r' % (loc, ent))


# ---- kinds of locations -----------------------------------------------------------------------------------------------------------
KINDS = (None, 'file', 'dangling', 'denydir', {'.boxes': 'deny', 'boxes': 'file'}, {}, {'.boxes': 'file'}, {'boxes': 'file'}, {'.boxes': 'dir', 'boxes': 'file'}, {'boxes': 'dir'},
         {'.boxes': 'empty', 'boxes': 'file'}, {'.boxes': 'dangling', 'boxes-config': 'link'}, 'linkdir', {'config': 'file', 'boxes.cfg': 'file'})


def kinds_body(case):
    a, b, c, which = case
    d = fresh()
    locs = {'hxg': ('h', 'c/boxes', GDIRS[0][1:]), 'hcg': ('h', 'h/.config/boxes', GLOBALFILE[1:]),
            'glb': (GLOBALFILE[1:], GDIRS[1][1:], GDIRS[2][1:])}[which]
    if which == 'hcg' and (a is None or not isinstance(a, dict)):
        return
    for i, (p, k) in enumerate(zip(locs, (a, b, c))):
        populate(os.path.join(d, p), k, 'l%d' % i)
    env = {'HOME': d + '/h', 'XDG_CONFIG_HOME': d + '/c'}
    yield from go(d, None, env, 'locations %r with %r' % (locs, (a, b, c)))


# ---- explicit locations -----------------------------------------------------------------------------------------------------
def explicit_body(case):
    how, kind, form, rest = case
    d = fresh()
    os.makedirs(d + '/s')
    populate(d + '/s/l', kind, 'e')
    env = {'HOME': d + '/h'}
    if rest:
        put(d + '/h/.boxes', 'file', 'fallback')
        put(d + GLOBALFILE, 'file', 'global')
        put(d + '/.boxes', 'file', 'here')
    p = {'abs': d + '/s/l', 'rel': 's/l', 'slash': 's/l/', 'dot': './s/../s/l', 'dir': 's/l/.', 'sub': 's/l/.boxes', 'case': 's/L',
         'blank': 's/l ', 'quote': '"s/l"'}[form]
    f = None
    if how == 'f':
        f = p
    elif how == 'b':
        env['BOXES'] = p
    else:
        env['BOXES'] = d + '/h'
        f = p
    w = expected(p, env, d, d)
    e = dict(env, BXMC_ROOT=d, BXMC_DENY=':'.join(DENY))
    yield from go(d, f, env, '%s=%s with %r' % (how, p, kind))
    if how == 'f':
        r2 = yield Run(['--config=' + p], b'T', env=e, cwd=d)
        judge18(r2, w, '--config=')
        r3 = yield Run(['-f', p, '-l'], b'', env=e, cwd=d)
        if (r3.rc == 0) != bool(w):
            raise Fail('listing: exit status %d' % r3.rc)
        r4 = yield Run(['-c', '#', '-f', p], b'T', env=e, cwd=d)
        check_rc(r4)
        if r4.out != b'# T':
            raise Fail('ad-hoc design: %r' % r4.out)


# ---- environment variables -----------------------------------------------------------------------------------------------------------
def env_body(case):
    h, x, b, bits = case
    d = fresh()
    for n, k in (('a', 1), ('b', 2), ('\u00e4 \u4e16', 4), ('c d', 8)):
        if bits & k:
            put(d + '/%s/.boxes' % n, 'file', 'home' + n)
            put(d + '/%s/boxes/boxes' % n, 'file', 'xdg' + n)
            put(d + '/%s/.config/boxes/boxes-config' % n, 'file', 'conf' + n)
    if bits & 16:
        put(d + '/boxes/.boxes', 'file', 'cwd')
    put(d + GDIRS[1] + '/boxes', 'file', 'fallback')
    env = {}
    for k, v in (('HOME', h), ('XDG_CONFIG_HOME', x), ('BOXES', b)):
        if v is not None:
            env[k] = v.replace('@', d)
    yield from go(d, None, env, 'environment %r' % (case,))


# ---- the global configuration as parent -----------------------------------------------------------------------------------------------
def parent_body(case):
    g, a, b, c = case
    d = fresh()
    put(d + GLOBALFILE, g, 'g')
    for p, k in zip(GDIRS, (a, b, c)):
        populate(d + p, k, p)
    put(d + '/h/.boxes', 'file', 'home')
    with open(d + '/main.cfg', 'w') as f:
        f.write('parent :global:\n' + cfg('main').replace('BOX d', 'BOX m').replace('END d', 'END m'))
    want = global_conf(d)
    deny = ':'.join(DENY)
    for e in ({'HOME': d + '/h'}, {'HOME': d + '/h', 'BOXES': d + '/h'}):
        env = dict(e, BXMC_ROOT=d, BXMC_DENY=deny)
        r = yield Run(['-f', 'main.cfg', '-d', 'd'], b'T', env=env, cwd=d)
        judge18(r, want, 'design of the global configuration')
        r = yield Run(['-f', 'main.cfg'], b'T', env=env, cwd=d)
        judge18(r, 'main', 'design of the given configuration')
        l = yield Run(['-f', 'main.cfg', '-q', '(all)'], env=env, cwd=d)
        check_rc(l)
        if l.out != (b'd\nm\n' if want else b'm\n'):
            raise Fail('designs are %r' % l.out)
        if want is None and b'global' not in l.err:
            raise Fail('no message: %r' % l.err)


# ---- long paths ---------------------------------------------------------------------------------------------------------------
def long_cases():
    # lengths of the resulting paths (at most 4095 characters, each part at most 255)
    for n in ladder(pick(40, 140), 1700)[40:] + [1999, 2000, 2047, 2048, 2049, 3000, 3500, 3800]:
        for how in ('f', 'fd', 'b', 'bd', 'h', 'x', 'hc'):
            yield how, n


def long_body(case):
    how, n = case
    d = fresh()
    base, n = d + '/', max(0, n - len(d) - 1)
    p = base + '/'.join(['k' * 40] * (n // 41) + (['m' * (n % 41)] if n % 41 else []))
    p = p.rstrip('/')
    env, f = {'HOME': d + '/h'}, None
    put(d + GDIRS[1] + '/boxes', 'file', 'fallback')
    if how in 'fb':
        p += 'q'
        put(p, 'file', 'e')
    elif how == 'x':
        populate(p + '/boxes', {NAMES[n % 4]: 'file'}, 'e')
    elif how == 'hc':
        populate(p + '/.config/boxes', {NAMES[n % 4]: 'file'}, 'e')
    else:
        populate(p, {NAMES[n % 4]: 'file'}, 'e')
    if how[0] == 'f':
        f = p
    elif how[0] == 'b':
        env['BOXES'] = p
    elif how == 'x':
        env['XDG_CONFIG_HOME'] = p
    else:
        env['HOME'] = p
    yield from go(d, f, env, '%s: path of length %d' % (how, len(p)))


def spaces():
    bs = pick(tuple(range(128)), tuple(range(128)))
    ek = (None, 'file', 'dir', 'dangling', 'deny') + pick((), ('empty', 'link'))
    dk = KINDS[:pick(11, 14)]
    vals = (None, '', '@/a', 'b', '@/missing', '@/a/', '@/\u00e4 \u4e16', 'c d', '@/a/.boxes', '//', '@/a/boxes')
    v2 = vals if not quick() else vals[:5] + vals[6:7]
    return [
        Space('long', long_cases, long_body, 'plain', 'lengths of paths'),
        Space('locations', lambda: itertools.product(EXPL, EXPL, bs), loc_body, 'plain',
              'subsets of existing locations x explicit locations given by option and variable'),
        Space('names', lambda: itertools.product(('f', 'b', 'home', 'xdg', 'hc', 'g0', 'g1', 'g2'), itertools.product(ek, repeat=4)), names_body,
              'plain', 'kinds of the four file names in each kind of directory'),
        Space('kinds', lambda: itertools.product(dk, dk, dk, ('hxg', 'hcg', 'glb')), kinds_body, 'plain',
              'kinds of three consecutive locations'),
        Space('explicit', lambda: itertools.product(('f', 'b', 'fb'), KINDS + ('loop', 'empty', 'link', 'deny'),
                                                    ('abs', 'rel', 'slash', 'dot', 'dir', 'sub', 'case', 'blank', 'quote'), (0, 1)),
              explicit_body, 'plain', 'explicit locations: kinds x ways to write them x whether a fallback exists'),
        Space('environment', lambda: itertools.product(vals, vals, v2, (31, 0, 16, 15) + pick((), tuple(range(1, 15)))), env_body, 'plain',
              'values of the environment variables'),
        Space('parent', lambda: itertools.product((None, 'file', 'dir', 'link'), dk, dk, (None, {'.boxes': 'file'})), parent_body, 'plain',
              'the global configuration as parent'),
    ]
