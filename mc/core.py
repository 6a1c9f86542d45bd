"""bxmc core: exhaustive enumeration of executions of the real boxes program.

A *space* is a finite, deterministically enumerated set of cases.  Every case is a small coroutine: it yields Run
objects (one execution of boxes each), gets Result objects back, and raises Fail if the property does not hold.  All
cases of a space are executed, distributed over the CPUs; nothing is sampled.
"""
import collections
import ctypes
import ctypes.util
import fcntl
import hashlib
import json
import multiprocessing as mp
import os
import select
import shutil
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('BXMC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
MAGIC = 0x62786d63
F_COOKIE_IN, F_COOKIE_OUT, F_PERTURB = 1, 2, 4
NCPU = int(os.environ.get('BXMC_JOBS', '0')) or max(1, min(8, os.cpu_count() or 1))
BASE_ENV = {'LANG': 'C.UTF-8', 'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent-bxmc'}


class Fail(Exception):
    """The property does not hold. `key` identifies the failing input for the known-findings file."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Run:
    __slots__ = ('args', 'inp', 'env', 'cwd', 'timeout', 'flags', 'chunks', 'in_err', 'out_err', 'out_step', 'kind')

    def __init__(self, args, inp=b'', env=None, cwd='', timeout=4000, flags=F_PERTURB, chunks=(), in_err=-1,
                 out_err=-1, out_step=0, kind=None):
        self.kind = kind        # build to run, if not the one of the space
        self.args = args
        self.inp = inp
        self.env = env
        self.cwd = cwd
        self.timeout = timeout
        self.flags = flags
        self.chunks = chunks
        self.in_err = in_err
        self.out_err = out_err
        self.out_step = out_step

    def encode(self, mult=1):
        p = [struct.pack('<II', MAGIC, len(self.args) + 1)]
        for a in [b'boxes'] + [x if isinstance(x, bytes) else os.fsencode(x) for x in self.args]:
            p.append(struct.pack('<I', len(a)))
            p.append(a)
        env = dict(BASE_ENV)
        if self.env:
            for k, v in self.env.items():
                if v is None:
                    env.pop(k, None)
                else:
                    env[k] = v
        p.append(struct.pack('<I', len(env)))
        for k, v in env.items():
            e = os.fsencode(k) + b'=' + (v if isinstance(v, bytes) else os.fsencode(v))
            p.append(struct.pack('<I', len(e)))
            p.append(e)
        c = os.fsencode(self.cwd)
        p.append(struct.pack('<I', len(c)))
        p.append(c)
        p.append(struct.pack('<I', len(self.inp)))
        p.append(self.inp)
        p.append(struct.pack('<III', self.timeout * mult, self.flags, len(self.chunks)))
        for x in self.chunks:
            p.append(struct.pack('<I', x))
        p.append(struct.pack('<iii', self.in_err, self.out_err, self.out_step))
        return b''.join(p)

    def describe(self):
        env = ' '.join('%s=%r' % (k, v) for k, v in (self.env or {}).items())
        s = 'args:  ' + ' '.join(sh_quote(a) for a in self.args) + '\n'
        if env:
            s += 'env:   ' + env + '\n'
        if self.cwd:
            s += 'cwd:   ' + self.cwd + '\n'
        if self.chunks or self.in_err >= 0 or self.out_err >= 0 or self.out_step:
            s += 'io:    chunks=%r in_err=%d out_err=%d out_step=%d\n' % (list(self.chunks), self.in_err, self.out_err,
                                                                         self.out_step)
        inp = self.inp if len(self.inp) < 4000 else self.inp[:4000] + b'...[%d bytes]' % len(self.inp)
        s += 'stdin: %r\n' % inp
        return s


def sh_quote(a):
    if isinstance(a, bytes):
        a = a.decode('utf-8', 'backslashreplace')
    return "'" + a.replace("'", "'\\''") + "'" if not a or any(c in " \t\n'\"\\$`*?[]{}()<>|&;#~!" for c in a) else a


Result = collections.namedtuple('Result', 'rc out err')


def ok(r):
    return r.rc == 0


def crashed(r):
    return r.rc < 0 or r.rc == 99


class Zygote:
    def __init__(self, binary):
        self.binary = binary
        self.start()

    def start(self):
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0,
                                  stderr=subprocess.DEVNULL, env=dict(BASE_ENV, BXMC_TMP=CTX.dir if CTX else ''))
        for f in (self.p.stdin, self.p.stdout):
            try:
                fcntl.fcntl(f.fileno(), 1031, 1 << 20)
            except OSError:
                pass
        self.buf = b''
        os.set_blocking(self.p.stdin.fileno(), False)

    def send(self, data):
        mv = memoryview(data)
        fi, fo = self.p.stdin.fileno(), self.p.stdout.fileno()
        while mv:
            r, w, _ = select.select([fo], [fi], [])
            if r:                # take the answers, so that nobody waits for a full pipe
                d = os.read(fo, 1 << 18)
                if not d:
                    raise RuntimeError('zygote died')
                self.buf += d
            if w:
                mv = mv[os.write(fi, mv[:1 << 16]):]

    def _need(self, n):
        while len(self.buf) < n:
            d = os.read(self.p.stdout.fileno(), 1 << 18)
            if not d:
                raise RuntimeError('zygote died')
            self.buf += d

    def recv(self):
        self._need(8)
        rc, n = struct.unpack_from('<iI', self.buf)
        self._need(8 + n + 4)
        out = self.buf[8:8 + n]
        m, = struct.unpack_from('<I', self.buf, 8 + n)
        self._need(12 + n + m)
        err = self.buf[12 + n:12 + n + m]
        self.buf = self.buf[12 + n + m:]
        return Result(rc, out, err)

    def run(self, r, mult=1):
        self.send(r.encode(mult))
        return self.recv()

    def close(self):
        self.p.stdin.close()
        self.p.wait()


# ---- building --------------------------------------------------------------------------------------------------------
def build(kind):
    r = subprocess.run([os.path.join(HERE, 'build.sh'), BUILD, kind], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        sys.stderr.write(r.stderr.decode(errors='replace'))
        raise SystemExit('bxmc: building the program under test failed')
    return r.stdout.decode().strip().splitlines()[-1]


# ---- display width (trusted base: libunistring) -----------------------------------------------------------------------
_uni = ctypes.CDLL(ctypes.util.find_library('unistring') or 'libunistring.so.5')
_uni.uc_width.argtypes = [ctypes.c_uint32, ctypes.c_char_p]
_uni.uc_width.restype = ctypes.c_int
_wcache = {}


def cwidth(ch):
    w = _wcache.get(ch)
    if w is None:
        c = ord(ch)
        w = 1 if 0x20 <= c < 0x7f else max(0, _uni.uc_width(c, b'UTF-8'))
        _wcache[ch] = w
    return w


import re
ESC_RE = re.compile(r'\x1b\[[^\x40-\x7e]*[\x40-\x7e]|\x1b\([^\x30-\x7e]*[\x30-\x7e]|\x1b[\x30-\x5a\x5c-\x7e]')


def strip_esc(s):
    return ESC_RE.sub('', s) if '\x1b' in s else s


def width(s):
    if s.isascii() and '\x1b' not in s:
        return len(s)
    return sum(cwidth(c) for c in strip_esc(s))


# ---- per-worker context ------------------------------------------------------------------------------------------------
class Ctx:
    """Scratch space of a worker; config files are cached by content."""
    def __init__(self, root, w):
        self.dir = os.path.join(root, 'w%d' % w)
        os.makedirs(self.dir, exist_ok=True)
        self.cache = {}
        self.n = 0

    def config(self, text):
        if isinstance(text, str):
            text = text.encode('utf-8')
        p = self.cache.get(text)
        if p is None:
            p = os.path.join(self.dir, 'c%d.cfg' % len(self.cache))
            with open(p, 'wb') as f:
                f.write(text)
            self.cache[text] = p
        return p

    def fresh_dir(self):
        self.n += 1
        p = os.path.join(self.dir, 'd%d' % self.n)
        os.makedirs(p)
        return p


CTX = None


def config(text):
    return CTX.config(text)


class Space:
    def __init__(self, name, cases, body, kind='plain', what=''):
        self.name = name        # short name
        self.cases = cases      # callable -> iterable of cases (deterministic)
        self.body = body        # generator function: body(case)
        self.kinds = kind if isinstance(kind, tuple) else (kind,)     # plain | asan | zero | pattern; the first one is the default
        self.what = what        # one-line description for the evidence


class Shared:
    pass


def _digest(r):
    return int.from_bytes(hashlib.blake2b(b'%d|' % r.rc + r.out, digest_size=7).digest(), 'little')


def _worker(w, nw, root, spaces, bins, deadline, conn, maxfail, known, share):
    global CTX
    CTX = Ctx(root, w)
    stats = {'cases': 0, 'runs': 0, 'states': set(), 'complete': True, 'per': {}, 'fails': [], 'errors': [],
             'samples': [], 'known': {}, 'knownkeys': known}
    zs = {}
    WINDOW = 24
    try:
        for si, sp in enumerate(spaces):
            def zyg(r):
                k = r.kind or sp.kinds[0]
                if k not in zs:
                    zs[k] = Zygote(bins[k])
                return zs[k]

            ncase = nrun = 0
            t0 = time.time()
            # every space gets its share of the time which is left; what it does not need is left to the others
            until = deadline if not share else t0 + max(0, deadline - t0) / (len(spaces) - si)
            done = True
            active = collections.deque()      # (gen, case, request, history, size), sent but not yet answered
            ready = collections.deque()       # answered but not yet processed
            outstanding = 0
            it = iter(enumerate(sp.cases()))
            exhausted = False

            def drain():
                nonlocal outstanding
                while active:
                    e = active.popleft()
                    ready.append((e, zyg(e[2]).recv()))
                outstanding = 0

            def step(gen, case, value, hist):
                """advance a coroutine; send its next request, if any"""
                nonlocal outstanding
                try:
                    r = gen.send(value)
                except StopIteration:
                    return
                except Fail as f:
                    drain()
                    _confirm(zyg, sp, stats, f, case, hist)
                    return
                data = r.encode()
                zyg(r).send(data)
                active.append((gen, case, r, hist, len(data)))
                outstanding += len(data)

            while True:
                if time.time() > until + 12:     # abandon the cases which have been started
                    done = stats['complete'] = False
                    for z in zs.values():
                        z.p.kill()
                        z.p.wait()
                    zs.clear()
                    break
                while not exhausted and len(active) < WINDOW and outstanding < 700000 and not ready:
                    if len(stats['fails']) >= maxfail or time.time() > until:
                        exhausted = True
                        done = stats['complete'] = False
                        break
                    try:
                        idx, case = next(it)
                    except StopIteration:
                        exhausted = True
                        break
                    if idx % nw != w:
                        continue
                    ncase += 1
                    step(sp.body(case), case, None, [])
                if ready:
                    (gen, case, r, hist, n), res = ready.popleft()
                elif active:
                    gen, case, r, hist, n = active.popleft()
                    outstanding -= n
                    res = zyg(r).recv()
                else:
                    break
                nrun += 1
                if res.rc == -14:      # timeout: decide with a much longer limit, on its own
                    drain()
                    res = zyg(r).run(r, 8)
                stats['states'].add(_digest(res))
                if w == 0 and len(stats['samples']) < 3 * (si + 1) and nrun % 97 == 1:
                    stats['samples'].append((sp.name, r, res))
                step(gen, case, res, hist + [(r, res)])
            stats['cases'] += ncase
            stats['runs'] += nrun
            stats['per'][sp.name] = (ncase, nrun, round(time.time() - t0, 2), done)
    except Exception:
        stats['errors'].append(traceback.format_exc())
    for z in zs.values():
        try:
            z.p.kill()
            z.p.wait()
        except Exception:
            pass
    stats.pop('pending_fail', None)
    stats['samples'] = [(n, r.describe(), repr(res.out[:300]), res.rc) for n, r, res in stats['samples']]
    conn.send(stats)
    conn.close()


def _confirm(zyg, sp, stats, fail, case, hist):
    """A violation is only reported if it can be reproduced by running the whole case again, on its own."""
    for _ in range(1):
        gen = sp.body(case)
        v = None
        try:
            while True:
                r = gen.send(v)
                v = zyg(r).run(r, 8)
        except StopIteration:
            stats.setdefault("unconfirmed", []).append(repr(case)[:300] + " " + str(fail)[:3000])
            return
        except Fail as f:
            fail = f
    if fail.key is not None and fail.key in stats['knownkeys']:
        stats['known'][fail.key] = stats['known'].get(fail.key, 0) + 1
        return
    text = []
    for r, res in hist:
        text.append(r.describe() + 'exit:  %d\nstdout:\n%s\nstderr: %s\n' % (
            res.rc, res.out[:6000].decode('utf-8', 'backslashreplace'),
            res.err[:1500].decode('utf-8', 'backslashreplace')))
    cfgs = set()
    for r, res in hist:
        for i, a in enumerate(r.args):
            if a == '-f' and i + 1 < len(r.args) and os.path.isfile(r.args[i + 1]):
                cfgs.add(r.args[i + 1])
    ct = ''
    for c in sorted(cfgs):
        if c.startswith(REPO):
            continue
        with open(c, 'rb') as f:
            ct += '--- config file %s ---\n%s\n' % (c, f.read()[:8000].decode('utf-8', 'backslashreplace'))
    stats['fails'].append({'space': sp.name, 'case': repr(case)[:2000], 'msg': str(fail), 'key': fail.key,
                           'detail': '\n'.join(text) + '\n' + ct})


def load_known():
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m:
                res.append(m.groups())
    return res


def run_property(pid, tier, spaces, level='model_checking', assumptions=(), budget=None, rule='', extra=None):
    t0 = time.time()
    budget = budget or float(os.environ.get('BXMC_BUDGET', '0')) or (700 if tier == 'quick' else 840)
    bins = {k: build(k) for k in sorted({k for s in spaces for k in s.kinds})}
    root = tempfile.mkdtemp(prefix='bxmc.%s.' % pid, dir=os.environ.get('TMPDIR', '/tmp'))
    maxfail = int(os.environ.get('BXMC_MAXFAIL', '3'))
    procs = []
    results = []
    known = {k[1] for k in load_known() if k[0] == pid}
    try:
        for w in range(NCPU):
            a, b = mp.Pipe(False)
            p = mp.get_context('fork').Process(target=_worker, args=(w, NCPU, root, spaces, bins, t0 + budget, b,
                                                                     maxfail, known, tier != 'quick'))
            p.start()
            b.close()
            procs.append((p, a))
        for p, a in procs:
            try:
                results.append(a.recv())
            except EOFError:
                results.append({'errors': ['worker died'], 'cases': 0, 'runs': 0, 'states': set(), 'complete': False,
                                'per': {}, 'fails': [], 'samples': []})
            p.join()
    finally:
        for p, a in procs:
            if p.is_alive():
                p.terminate()
        shutil.rmtree(root, ignore_errors=True)
    errors = [e for r in results for e in r['errors']]
    fails = [f for r in results for f in r['fails']]
    unconfirmed = [f for r in results for f in r.get('unconfirmed', [])]
    states = set()
    for r in results:
        states |= r['states']
    runs = sum(r['runs'] for r in results)
    cases = sum(r['cases'] for r in results)
    complete = all(r['complete'] for r in results)
    per = {}
    for r in results:
        for k, (c, n, t, d) in r['per'].items():
            o = per.get(k, (0, 0, 0, True))
            per[k] = (o[0] + c, o[1] + n, max(o[2], t), o[3] and d)
    vio = fails
    hits = {}
    for r in results:
        for k, n in r.get('known', {}).items():
            hits[k] = hits.get(k, 0) + n
    for k in [k for k in load_known() if k[0] == pid and k[1] in hits]:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    paths = []
    for i, f in enumerate(vio[:5]):
        h = hashlib.sha1((f['space'] + f['case']).encode()).hexdigest()[:10]
        p = os.path.join(VERIF, 'evidence', 'replay', '%s-%s.txt' % (pid, h))
        with open(p, 'w') as o:
            o.write('property: %s\nspace:    %s\ncase:     %s\n\n%s\n\n%s\n' % (pid, f['space'], f['case'], f['msg'],
                                                                               f['detail']))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('    [%s] %s' % (f['space'], f['msg'].splitlines()[0][:300] if f['msg'] else ''))
        paths.append(p)
    samples = []
    for n, d, out, rc in [s for r in results for s in r['samples']][:6]:
        samples.append('[%s] %s-> exit %d, stdout %s' % (n, d, rc, out))
    wall = round(time.time() - t0, 2)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
        'coverage': {
            'states': len(states), 'transitions': runs, 'traces_validated_against_impl': cases,
            'exhaustive': bool(complete),
            'rule': rule or 'every case of every listed space is executed on the real program; states = distinct '
                            'observable outcomes (exit status and output), transitions = executions of the program, '
                            'traces = cases whose outcome was compared with the model or relation of the property',
            'samples': samples or ['none'],
            'spaces': {s.name: {'what': s.what, 'cases': per.get(s.name, (0, 0, 0, False))[0],
                                'executions': per.get(s.name, (0, 0, 0, False))[1], 'build': '+'.join(s.kinds),
                                'wall_s': per.get(s.name, (0, 0, 0, False))[2],
                                'exhaustive': bool(per.get(s.name, (0, 0, 0, False))[3])} for s in spaces},
        },
        'wall_s': wall, 'assumptions': list(assumptions),
        'violations': len(vio),
    }
    if hits:
        ev['coverage']['known_findings'] = hits
    if unconfirmed:
        ev['coverage']['unconfirmed'] = len(unconfirmed)
    if extra:
        ev['coverage'].update(extra)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    print('%s %s: %d cases, %d executions, %d distinct outcomes, %s, %.1fs' % (
        pid, tier, cases, runs, len(states), 'exhaustive' if complete else 'INCOMPLETE', wall))
    if os.environ.get('BXMC_VERBOSE'):
        for k, v in per.items():
            print('    %-28s %8d cases %8d runs %6.1fs%s' % (k, *v[:3], '' if v[3] else ' INCOMPLETE'))
        for u in unconfirmed[:3]:
            print('    unconfirmed:', u[:300])
    if errors:
        for e in errors[:2]:
            sys.stderr.write(e + '\n')
        if not vio:
            return 2
    return 1 if vio else 0
