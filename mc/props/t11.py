"""T11: SCP client, put against a sink and get against a source speaking the scp1 protocol."""
import itertools
import os
import stat
from mc import sshmodel
from mc.core import Violation, Choices, explore
from mc.fsutil import CaseDir, write, snapshot, diff, CONTENT
from impactutils.extern.scp.scp import SCPClient

LEVEL = 'fault_enumeration'
RULE = ('put and get of every scenario (file sizes around the buffer, names, modes, nested/empty/sibling-prefix trees, lists, target '
        'absent/directory/file, times on request) with every fault (error, fatal, garbage, close, timeout, malformed or escaping names, '
        'bad sizes, data cut or padded, lost status) at every protocol step (quick 1, thorough 2 deviations); every '
        'composition of a 5-byte file and fixed chunk patterns for larger data on receive; all sequences of 1..2 (thorough 3) transfers out of 8 through one client, with every single fault in any of them '
        '(the next transfer must work as on a new client) and the progress reports of every file. local obstacles (files and directories in the way, no permission, existing trees); local files growing or shrinking at every report. Distinct = distinct (tree, result).')
ASSUMPTIONS = ['control records arrive in one piece (they are acknowledged one by one); file data arrive in any pieces',
               'local files may grow or shrink during a put, not change otherwise']
K = 1000000000
F = lambda b, mode=0o644, t=0: (mode, K + t, K + 7 + t, b)
B = 16
SIZES = [0, 1, B - 1, B, B + 1, 2 * B, 5 * B + 3]


def data(n):
    return bytes((i * 37 + 11) % 256 for i in range(n))


TREES = [
    {}, {'a': F(b'abc')}, {'a': F(b'abc', 0o600, 5), 'sub': F({'b': F(data(40), 0o755)}, 0o755)},
    {'sub': F({}, 0o750), 'sub2': F({'x': F(b'x')}, 0o755)},
    {'a': F({'b': F({'c': F(b'1')}, 0o755)}, 0o755), 'ab': F({'c': F(b'2')}, 0o755), 'z': F(b'3')},
    {'d': F({'d': F({'d': F(b'deep', 0o640)}, 0o755)}, 0o755)},
    {'s p': F({"it's $x": F(b'q'), 'é': F(b'u')}, 0o755), 'trail ': F(b't')},
]
DEEP = F(b'bottom')
for _i in range(30):
    DEEP = F({'n%d' % _i: DEEP, 'f': F(b'%d' % _i)}, 0o755)
TREES.append({'wide': F({'f%03d' % i: F(b'%d' % i, 0o600 + i % 2 * 0o44, 1000 + i) for i in range(150)}, 0o755),
              'dirs': F({'d%02d' % i: F({'x': F(b'%d' % i)}, 0o755) for i in range(40)}, 0o755), 'deep': DEEP})
BIG = len(TREES) - 1



def build(node, path):
    mode, m, a, body = node
    if isinstance(body, dict):
        os.makedirs(path)
        for k, v in body.items():
            build(v, os.path.join(path, k))
    else:
        write(path, body)
    os.chmod(path, mode | (0o700 if isinstance(body, dict) else 0o400))
    os.utime(path, (a, m))


def flatten(node, path, out):
    mode, m, a, body = node
    if isinstance(body, dict):
        out[path] = ('d', mode, m, None)
        for k, v in body.items():
            flatten(v, os.path.join(path, k), out)
    else:
        out[path] = ('f', mode, m, body)


def accessed(root):
    """access times of the files, without reading them"""
    return {os.path.relpath(os.path.join(b, n), root): int(os.lstat(os.path.join(b, n)).st_atime) for b, d, f in os.walk(root) for n in f}


def wanted(name, node, out):
    if isinstance(node[3], dict):
        for k, v in node[3].items():
            wanted(os.path.join(name, k), v, out)
    else:
        out[name] = node[2]
    return out


def observe(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            st = os.lstat(p)
            if stat.S_ISDIR(st.st_mode):
                out[os.path.relpath(p, root)] = ('d', st.st_mode & 0o7777, int(st.st_mtime), None)
            else:
                out[os.path.relpath(p, root)] = ('f', st.st_mode & 0o7777, int(st.st_mtime), open(p, 'rb').read())
    return out


def cases(tier):
    q = tier == 'quick'
    b = 1 if q else 2
    for i in range(len(SIZES)):
        for mode in (0o644, 0o600, 0o755, 0o444, 0o400, 0o4755, 0o2711):
            for tgt in ('dir', 'new', 'file'):
                for pt in (0, 1):
                    bnd = b if mode == 0o644 and tgt == 'new' else 1 if mode == 0o644 else 0
                    yield ['put', 'file', [i, mode], tgt, pt, bnd]
                    yield ['get', 'file', [i, mode], tgt, pt, bnd]
    for way, tgt, pt in itertools.product(('put', 'get'), ('dir', 'new'), (0, 1)):
        yield [way, 'tree', [BIG, 0], tgt, pt, 0]
        if tgt == 'dir':
            yield [way, 'longlist', 0, tgt, pt, 0]
    for t in range(BIG):
        for tgt in ('dir', 'new'):
            for pt in (0, 1):
                for spell in (range(3) if not pt else [0]):
                    yield ['put', 'tree', [t, spell], tgt, pt, b if not spell and t < 3 else 1]
                    yield ['get', 'tree', [t, spell], tgt, pt, b if not spell and t < 3 else 1]
    for pt in (0, 1):
        yield ['put', 'list', 0, 'dir', pt, b]
        yield ['get', 'list', 0, 'dir', pt, b]
        yield ['get', 'list', 0, 'new', pt, 0]
        yield ['get', 'list', 0, 'file', pt, 0]
        yield ['put', 'mixed', 0, 'dir', pt, 1]
        yield ['get', 'mixed', 0, 'dir', pt, 1]
    yield ['get', 'missing', 0, 'dir', 0, 0]
    yield ['get', 'norec', 0, 'dir', 0, 0]
    yield ['put', 'missing', 0, 'dir', 0, 0]
    yield ['put', 'norec', 0, 'dir', 0, 0]
    yield ['put', 'again', 0, 'dir', 0, 0]
    # chunkings: every composition of 5 data bytes + status byte, buffer sizes 1..6
    n = 5
    for mask in range(1 << n):
        for buf in ((1, 2, 5, 6) if q else range(1, 8)):
            yield ['chunk', [n, mask, buf]]
    for size in (0, B, 100, 16384, 16385, 40000):
        for pat in ([1], [3, 1], [16383], [7, 1, 16384], [100000]):
            for buf in (B, 16384):
                if size > 1000 and pat == [1] and q:
                    continue
                yield ['chunk2', [size, pat, buf]]
        yield ['putbig', [size, 16384]]
    for ob in ('direxists', 'filefordir', 'dirforfile', 'readonly', 'unreadable', 'enter', 'cwd', 'newline', 'forms'):
        yield ['local', ob]
    # the local file changes while it is sent: at every report, by every amount
    for size in (1, B, B + 1, 2 * B, 3 * B + 5):
        for at in range(1, size // B + 2):
            for delta in (-size, -B, -1, 1, B - 1, B, 3 * B):
                yield ['change', [size, at, delta]]
    # several transfers through one client, every single fault in any of them
    for n in ((1, 2) if q else (1, 2, 3)):
        for seq in itertools.product(OPS, repeat=n):
            yield ['hist', list(seq), 1]
    if q:
        for seq in itertools.product(('pf', 'gt', 'gx'), repeat=3):
            yield ['hist', list(seq), 1]


class T(object):
    def __init__(self, mk):
        self.mk = mk
        self.opened = 0

    def open_session(self, *a, **k):
        self.opened += 1
        return self.mk()


OPS = ['pf', 'pt', 'pm', 'px', 'gf', 'gt', 'gm', 'gx']


class Either(object):
    """a session that becomes sink or source when the command is given; one command per session"""

    def __init__(self, rem, tree):
        self.rem, self.tree, self.c, self.closed = rem, tree, None, False

    def settimeout(self, t):
        pass

    def exec_command(self, cmd):
        if self.c is not None or self.closed:
            raise Exception('Channel closed.')
        w = cmd if isinstance(cmd, bytes) else cmd.encode()
        self.c = sshmodel.SinkChannel(self.rem) if b' -t ' in w else sshmodel.SourceChannel(self.rem, self.tree)
        self.c.exec_command(cmd)

    def close(self):
        self.closed = True
        if self.c is not None:
            self.c.close()

    def __getattr__(self, name):
        return getattr(self.c, name)


def check_progress(ctx, calls, files, complete, what):
    """files: [(name, size)] in any order"""
    cur = {}
    for a in calls:
        ctx.check(len(a) == 3, '%s: progress callback got %r' % (what, a))
        nm, size, sent = a
        nm = os.path.basename(nm if isinstance(nm, bytes) else os.fsencode(nm))
        ctx.check(0 <= sent <= size and size > 0, '%s: progress %r' % (what, a))
        ctx.check(sent > cur.get(nm, (0, -1))[1], '%s: progress of %r does not grow: %r' % (what, nm, calls))
        ctx.check(nm in cur or sent == 0 or (size == 1 and sent == 1), '%s: progress of %r starts at %r' % (what, nm, sent))
        cur[nm] = (size, sent)
    for nm, size in files if complete else []:
        w = (size or 1, size or 1)
        ctx.check(cur.get(nm) == w, '%s: progress of %r ended at %r, expected %r' % (what, nm, cur.get(nm), w))
    ctx.check(set(cur) <= {n for n, _ in files}, '%s: progress of %r' % (what, sorted(cur)))


def leaves(name, node, out):
    if isinstance(node[3], dict):
        for k, v in node[3].items():
            leaves(k, v, out)
    else:
        out.append((os.fsencode(name), len(node[3])))
    return out


HT = F({'p0': F(data(B + 3), 0o600, 40), 'in': F({'p1': F(b'', 0o644, 50), 'p2': F(b'12', 0o755, 60)}, 0o755, 70)}, 0o750, 80)
HI = {'pf': [('f', F(data(20), 0o644, 1))], 'pt': [('t', HT)], 'pm': [('m1', F(b'', 0o600, 3)), ('m2', F(data(2 * B), 0o644, 4))],
      'px': [('nofile', None)]}


def hist(case, ctx, cwd, ch):
    """every transfer of a sequence through one client does what it would do on a new client"""
    seq = case[1]
    items = {}
    for op, its in HI.items():
        for n, node in its:
            if node is not None:
                items[n] = node
                build(node, 'src/' + n) if isinstance(node[3], dict) else (os.makedirs('src', exist_ok=True), build(node, 'src/' + n))
    src = observe('src')
    rem = sshmodel.Remote(ch, cwd)
    tree = {'/r/' + n: node for n, node in items.items()}
    chans = []

    def mk():
        chans.append(Either(rem, tree))
        return chans[-1]
    tr = T(mk)
    calls = []
    c = SCPClient(tr, buff_size=B, progress=lambda *a: calls.append(a))
    for i, op in enumerate(seq):
        d = 'step%d' % i
        os.makedirs(d)
        os.chmod(d, 0o755)
        its = HI['p' + op[1]]
        del calls[:]
        before = rem.faults
        opened = tr.opened
        times = op[1] == 't'
        err = None
        try:
            if op[0] == 'p':
                names = ['src/' + n for n, _ in its]
                c.put(names if len(names) > 1 else names[0], cwd + '/' + d, recursive=times, preserve_times=times)
            else:
                names = ['/r/' + n for n, _ in its]
                c.get(names if len(names) > 1 else names[0], d, recursive=times, preserve_times=times)
        except Exception as e:
            err = e
        what = 'transfer %d (%s) of %r' % (i + 1, op, seq)
        ctx.op()
        ctx.check(tr.opened == opened + 1, '%s opened %d sessions' % (what, tr.opened - opened))
        ctx.check(all(x.closed for x in chans), '%s left its session open' % what)
        bad = rem.faults > before or op[1] == 'x'
        lines = [l for _, c_, l in ch.trace if c_ == 2]
        amb = op == 'gm' and len(lines) == 1 and lines[0].startswith('C') and lines[0].strip().endswith(' m2')
        if bad:
            ctx.check(err is not None or amb, '%s returned although the remote side failed' % what)
        elif err is not None:
            raise Violation('%s failed although nothing was refused: %s: %s' % (what, type(err).__name__, err))
        files = []
        for n, node in its:
            if node is not None:
                leaves(n, node, files)
        check_progress(ctx, list(calls), files, err is None and not amb, what)
        if err is None and not amb:
            want = {}
            for n, node in its:
                flatten(node, n, want)
            compare(ctx, observe(d), want, what, times)
        for k, v in observe(d).items():
            # without preserve_times nothing carries the time of another file
            if not times:
                ctx.check(v[2] > K + 10 ** 8, '%s: %r carries the old time %r' % (what, k, v[2]))
    ctx.check(observe('src') == src, 'the transfers changed local files')
    ctx.traces += 1
    ctx.state((seq, [l for _, c_, l in ch.trace if c_]))
    ctx.outcome(('hist', len(seq), rem.faults))


def run(case, ctx):
    kind = case[0]
    if kind == 'hist':
        def hbody(ch):
            with CaseDir(ctx) as cwd:
                hist(case, ctx, cwd, ch)
        explore(hbody, case[2])
        return
    if kind in ('chunk', 'chunk2', 'putbig', 'local', 'change'):
        with CaseDir(ctx) as cwd:
            {'local': local, 'change': change}.get(kind, chunk)(case, ctx, cwd)
        return

    def body(ch):
        with CaseDir(ctx) as cwd:
            (put if kind == 'put' else get)(case, ctx, cwd, ch)
    explore(body, case[5])


def change(case, ctx, cwd):
    """what arrives is the announced number of bytes of the file, or the put fails"""
    size, at, delta = case[1]
    full = data(size + 4 * B)
    write('src', full[:size])
    write('next', b'next file')
    os.makedirs('R')
    rem = sshmodel.Remote(Choices(), cwd + '/R')
    n = [0]

    def progress(name, total, sent):
        n[0] += 1
        if n[0] == at:
            if delta < 0:
                os.truncate('src', max(0, size + delta))
            else:
                with open('src', 'ab') as f:
                    f.write(full[size:size + delta])
    tr = T(lambda: sshmodel.SinkChannel(rem))
    c = SCPClient(tr, buff_size=B, progress=progress)
    err = None
    try:
        c.put(['src', 'next'], cwd + '/R')
    except Exception as e:
        err = e
    ctx.op()
    got = observe('R')
    what = 'put of %d bytes that change by %d after report %d' % (size, delta, at)
    ctx.check(set(got) <= {'src', 'next'}, '%s created %r' % (what, sorted(got)))
    if err is None:
        ctx.check('src' in got and got['src'][3] == full[:size], '%s returned; remote file has %d bytes' % (what, len(got['src'][3]) if 'src' in got else -1))
        ctx.check('next' in got and got['next'][3] == b'next file', '%s returned without the next file' % what)
    elif delta > 0:
        ctx.count('refused_growth')
    ctx.state((size, at, delta, err is None))
    ctx.outcome((err is None, type(err).__name__))


def local(case, ctx, cwd):
    """obstacles on the local side"""
    ob = case[1]
    node = F({'p': F(b'12345', 0o600), 'in': F({'q': F(data(40), 0o644)}, 0o755)}, 0o755)
    tree = {'/r/t': node, '/r/p': F(b'single', 0o644)}
    rem = sshmodel.Remote(Choices(), cwd)
    chans = []

    def mk():
        chans.append(Either(rem, tree))
        return chans[-1]
    c = SCPClient(T(mk), buff_size=B)
    os.makedirs('L')
    os.makedirs('R')

    def attempt(f):
        ctx.op()
        try:
            f()
        except Exception as e:
            return e
    if ob == 'enter':
        with SCPClient(T(mk), buff_size=B) as c2:
            c2.get('/r/p', 'L/p')
        ctx.check(open('L/p', 'rb').read() == b'single' and all(x.closed for x in chans), 'get in a with statement')
        return
    if ob == 'cwd':
        os.chdir('L')
        for args in ((), ('',)):
            for path, rec in (('/r/p', False), ('/r/t', True)):
                e = attempt(lambda: c.get(path, *args, recursive=rec))
                got = {k: v[3] for k, v in observe('.').items() if v[0] == 'f'}
                ctx.equal((e, got), (None, {'p': b'single'} if not rec else {'t/p': b'12345', 't/in/q': data(40)}), 'get without a local path')
                for k in got:
                    os.remove(k)
                if rec:
                    os.rmdir('t/in')
                    os.rmdir('t')
        return
    if ob == 'newline':
        write('S/a\nb', b'odd')
        write('S/t\n/c\n\nd', b'deep')
        e = attempt(lambda: c.put('S/a\nb', cwd + '/R'))
        e2 = attempt(lambda: c.put('S/t\n', cwd + '/R', recursive=True))
        ctx.equal((e, e2, sorted(observe('R'))), (None, None, ['a\\^Jb', 't\\^J', 't\\^J/c\\^J\\^Jd']), 'put of names with line breaks')
        return
    if ob == 'forms':
        write('S/x', b'x')
        write('S/y', b'y')
        for i, files in enumerate((['S/x', 'S/y'], ('S/x', 'S/y'), [b'S/x', b'S/y'], ('S/y',), 'S/x', b'S/x')):
            d = 'R/%d' % i
            os.mkdir(d)
            e = attempt(lambda: c.put(files, cwd + '/' + d))
            names = sorted((x if isinstance(x, str) else x.decode())[2:] for x in (files if isinstance(files, (list, tuple)) else [files]))
            ctx.equal((e, sorted(observe(d))), (None, names), 'put of %r' % (files,))
        for i, paths in enumerate((['/r/p'], ('/r/p',), '/r/p', b'/r/p', ('/r/p', b'/r/p'))):
            d = 'L/%d' % i
            os.mkdir(d)
            e = attempt(lambda: c.get(paths, d))
            ctx.equal((e, sorted(observe(d))), (None, ['p']), 'get of %r' % (paths,))
        return
    if ob == 'unreadable':
        if os.geteuid() == 0:
            return
        write('no', b'secret')
        os.chmod('no', 0)
        write('yes', b'y')
        ctx.check(attempt(lambda: c.put(['yes', 'no'], cwd + '/R')) is not None, 'put of an unreadable file returned')
        ctx.check(attempt(lambda: c.put('yes', cwd + '/R/y2')) is None and open('R/y2', 'rb').read() == b'y', 'put after a failed put')
        return
    if ob == 'direxists':
        write('L/t/in/q', b'old, and much longer than the new content is going to be, so that it shows')
        write('L/t/in/mine', b'mine')
        write('L/t/other/mine', b'mine')
        e = attempt(lambda: c.get('/r/t', 'L', recursive=True))
        ctx.check(e is None, 'get into an existing tree failed: %r' % e)
        got = {k: v[3] for k, v in observe('L').items() if v[0] == 'f'}
        ctx.equal(got, {'t/p': b'12345', 't/in/q': data(40), 't/in/mine': b'mine', 't/other/mine': b'mine'}, 'existing tree after get')
        return
    if ob == 'filefordir':
        write('L/t/in', b'a file')
        keep = 'L/t/in'
    elif ob == 'dirforfile':
        write('L/t/p/mine', b'a file')
        keep = 'L/t/p/mine'
    else:
        if os.geteuid() == 0:
            return
        write('L/keep', b'a file')
        keep = 'L/keep'
        os.chmod('L', 0o555)
    e = attempt(lambda: c.get('/r/t', 'L', recursive=True))
    os.chmod('L', 0o755)
    ctx.check(e is not None, 'get returned although it cannot write (%s)' % ob)
    ctx.check(open(keep, 'rb').read() == b'a file', '%s: existing file altered' % ob)
    ctx.check(all(x.closed for x in chans), 'failed get left its session open')
    e = attempt(lambda: c.get('/r/p', 'L/later'))
    ctx.check(e is None and open('L/later', 'rb').read() == b'single', 'get after a failed get: %r' % e)
    ctx.state(ob)


def chunk(case, ctx, cwd):
    kind, a = case
    if kind == 'putbig':
        size, buf = a
        write('src', data(size))
        os.makedirs('R')
        rem = sshmodel.Remote(Choices(), cwd + '/R')
        c = SCPClient(T(lambda: sshmodel.SinkChannel(rem)), buff_size=buf)
        c.put('src', cwd + '/R/dst')
        ctx.check(open('R/dst', 'rb').read() == data(size), 'put altered %d bytes' % size)
        ctx.op(rem.events)
        ctx.state((size, buf))
        return
    if kind == 'chunk':
        n, mask, buf = a
        pieces, cur = [], 1
        for i in range(n):
            if mask >> i & 1:
                pieces.append(cur)
                cur = 1
            else:
                cur += 1
        pieces.append(cur)
        body = b'\x00\n\x01C\xff'[:n]
    else:
        n, pieces, buf = a
        body = data(n)
    st = {'i': 0}
    rem = sshmodel.Remote(Choices(), cwd)

    def nxt(want):
        p = pieces[st['i'] % len(pieces)]
        st['i'] += 1
        return p
    tree = {'/r/f': F(body, 0o644)}
    holder = {}

    def mk():
        ch = sshmodel.SourceChannel(rem, tree, nxt)
        holder['c'] = ch
        return ch
    SCPClient(T(mk), buff_size=buf).get('/r/f', cwd + '/out')
    ctx.check(open('out', 'rb').read() == body, 'received %r, sent %r (pieces %r)' % (open('out', 'rb').read()[:40], body[:40], pieces))
    ctx.op(rem.events)
    ctx.state((kind, tuple(pieces), buf, n))
    ctx.outcome('ok')


def compare(ctx, got, want, what, times, skipdirmode=False):
    for k in sorted(set(got) | set(want)):
        if k not in got:
            raise Violation('%s returned but %r is missing' % (what, k))
        if k not in want:
            raise Violation('%s created %r' % (what, k))
        g, w = got[k], want[k]
        ctx.check(g[0] == w[0], '%s: %r is of the wrong kind' % (what, k))
        if g[0] == 'f':
            ctx.check(g[3] == w[3], '%s: %r has %r, expected %r' % (what, k, g[3][:60], w[3][:60]))
            ctx.check(g[1] == w[1], '%s: %r has mode %o, expected %o' % (what, k, g[1], w[1]))
        else:
            ctx.check(g[1] in (w[1], w[1] & ~0o022, w[1] | 0o700), '%s: directory %r has mode %o, expected %o' % (what, k, g[1], w[1]))
        if times and w[2]:
            ctx.check(g[2] == w[2], '%s: %r has time %d, expected %d' % (what, k, g[2], w[2]))


def scenario(case):
    """-> (list of (name, node)), recursive)"""
    _, kind, a, tgt, pt, _ = case
    if kind in ('file',):
        return [('name x', F(data(SIZES[a[0]]), a[1]))], False
    if kind == 'tree':
        return [('tree', F(TREES[a[0]], 0o755))], True
    if kind in ('list', 'again'):
        return [('one', F(b'11')), ('two', F(data(33), 0o600, 9))], False
    if kind == 'longlist':
        return [('l%03d' % i, F(data(i % 40), 0o644, 50 + i)) for i in range(120)], False
    if kind == 'mixed':
        return [('one', F(b'11')), ('tree', F(TREES[2], 0o755)), ('three', F(b'3')), ('t2', F(TREES[3], 0o755))], True
    if kind == 'missing':
        return [('one', F(b'11'))], False
    return [('tree', F(TREES[1], 0o755))], False


def put(case, ctx, cwd, ch):
    _, kind, a, tgt, pt, _ = case
    items, rec = scenario(case)
    os.makedirs('R/home')
    os.makedirs('src')
    touched, at = {}, {}
    for n, node in items:
        build(node, 'src/' + n)
        wanted(n, node, at)
    touched = {k: (int(os.stat('src/' + k).st_mtime), v) for k, v in at.items()}
    spell = a[1] if kind == 'tree' else 0
    paths = [('src/%s', 'src/%s/', cwd + '//src/%s')[spell] % n for n, _ in items]
    if kind == 'missing':
        paths = ['src/nofile']
    want = {}
    if tgt == 'dir':
        os.makedirs('R/t $x')
        os.chmod('R/t $x', 0o755)
        for n, node in items:
            flatten(node, 't $x/' + n, want)
        want['t $x'] = ('d', 0o755, 0, None)
    else:
        if tgt == 'file':
            write('R/t $x', b'longer previous content ' * 9)
        flatten(items[0][1], 't $x', want)
    want['home'] = ('d', os.stat('R/home').st_mode & 0o7777, 0, None)
    before = observe('R')
    src = observe('src')
    for k, (m_, a_) in touched.items():
        os.utime('src/' + k, (a_, m_))
    rem = sshmodel.Remote(ch, cwd + '/R/home')
    tr = T(lambda: sshmodel.SinkChannel(rem))
    c = SCPClient(tr, buff_size=B)
    err = None
    try:
        c.put(paths if len(paths) > 1 or pt else paths[0], cwd + '/R/t $x', recursive=rec, preserve_times=bool(pt))
        if kind == 'again':
            c.put(paths, cwd + '/R/t $x')
    except Exception as e:
        err = e
    ctx.traces += 1
    ctx.op(rem.events + len(ch.trace))
    acc = accessed('R')
    ctx.check(observe('src') == src, 'put changed local files')
    if kind in ('missing', 'norec'):
        ctx.check(err is not None, 'put of a %s returned without an error' % {'missing': 'missing file', 'norec': 'directory without recursion'}[kind])
        return
    if rem.faults:
        ctx.check(err is not None, 'put returned although the remote side failed')
    elif err is not None:
        raise Violation('put failed although nothing was refused: %s: %s' % (type(err).__name__, err))
    else:
        compare(ctx, observe('R'), want, 'put', pt)
        for k, v in at.items() if pt else []:
            k = 't $x/' + k if tgt == 'dir' else '/'.join(['t $x'] + k.split('/')[1:])
            ctx.equal(acc.get(k), v, 'put: access time of %r' % k)
    ctx.state((case[1:5], err is None, sorted((k, v[0], v[1], v[3]) for k, v in observe('R').items())))
    ctx.outcome((err is None, type(err).__name__, str(err)[:30]))


def get(case, ctx, cwd, ch):
    _, kind, a, tgt, pt, _ = case
    items, rec = scenario(case)
    os.makedirs('L')
    tree = {'/r/' + n: node for n, node in items}
    paths = ['/r/' + n for n, _ in items]
    spell = a[1] if kind == 'tree' else 0
    if kind == 'missing':
        paths = ['/r/nofile']
    want = {}
    if tgt == 'dir':
        os.makedirs('L/t')
        os.chmod('L/t', 0o755)
        for n, node in items:
            flatten(node, 't/' + n, want)
        want['t'] = ('d', 0o755, 0, None)
    else:
        if tgt == 'file':
            write('L/t', b'longer previous content ' * 9)
        flatten(items[0][1], 't', want)
    write('outside', b'O')
    local = ('L/t', 'L/t/', cwd + '/L/t')[spell]
    rem = sshmodel.Remote(ch, cwd)
    c = SCPClient(T(lambda: sshmodel.SourceChannel(rem, tree)), buff_size=B)
    err = None
    try:
        c.get(paths if len(paths) > 1 or pt else paths[0], local, recursive=rec, preserve_times=bool(pt))
    except Exception as e:
        err = e
    ctx.traces += 1
    ctx.op(rem.events)
    acc = accessed('L')
    got = observe('L')
    rest = [k for k in os.listdir('.') if k not in ('L', 'outside')]
    extra = sorted(k for k in got if k.split('/')[0] != 't')
    ctx.check(not rest and not extra and open('outside', 'rb').read() == b'O', 'get wrote outside the local path: %r' % (rest + extra))
    if kind in ('missing', 'norec') or kind == 'list' and tgt != 'dir':
        ctx.check(err is not None, 'get (%s) returned without an error' % kind)
        return
    # a channel that closes between two top-level entries cannot be told from the regular end
    amb = False
    lines = [l for n, c_, l in ch.trace]
    if rem.faults and err is None and (kind in ('list', 'mixed')):
        tops = set()
        for n, node in items[1:]:
            tops.add(('D' if isinstance(node[3], dict) else 'C', n))
        closes = [l for n, c_, l in ch.trace if c_ == 2]
        amb = len(closes) == 1 and any(l.startswith('T') or (l[0], l.strip().split(' ', 2)[-1]) in tops for l in closes)
    if rem.faults:
        ctx.check(err is not None or amb, 'get returned although the remote side failed')
    elif err is not None:
        raise Violation('get failed although nothing was refused: %s: %s' % (type(err).__name__, err))
    else:
        compare(ctx, got, want, 'get', pt)
        at = {}
        for n, node in items if pt else []:
            wanted(n, node, at)
        for k, v in at.items():
            k = 't/' + k if tgt == 'dir' else '/'.join(['t'] + k.split('/')[1:])
            ctx.equal(acc.get(k), v, 'get: access time of %r' % k)
    ctx.state((case[1:5], err is None, sorted((k, v[0], v[1], v[3]) for k, v in got.items())))
    ctx.outcome((err is None, type(err).__name__, str(err)[:30]))
