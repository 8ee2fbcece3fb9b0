"""T05: FTP delivery, all single (thorough: double) server faults."""
import itertools
import os
import posixpath
from mc import net
from mc.core import Violation, explore
from mc.fsutil import CaseDir, write, snapshot, CONTENT, large_tree
from mc.ftpmodel import FTPServer
net.install()
from impactutils.transfer.factory import get_sender_class  # noqa

LEVEL = 'fault_enumeration'
RULE = ('every scenario (tree x listed files x remote directory spelling x prior server state x credentials) '
        'with every server answer (refusal 5xx, transient 4xx, connection lost before/after the effect, half '
        'stored) at every command of the conversation, and large deliveries (120 files, 25 levels, 3 MB) without faults; quick: 1 deviation, thorough: 2. '
        'Distinct = distinct (server file tree, result) pairs.')
ASSUMPTIONS = ['the in-memory server follows RFC 959 for the commands used',
               'the client talks through socket.create_connection (ftplib does)']

TREES = [{}, {'a.txt': 'text'}, {'sub/b.bin': 'bin', 'c': 'empty'}, {'a': 'text', 'a.tmp': 'crlf'},
         {'s p/x y.txt': 'crlf', 's p/z/q': 'nonl', 'd/d/d': 'text'}, {'sub/big': 'big', '.h': 'text'},
         {' l/t ': 'text', 't / x': 'bin'}]
NTREES = len(TREES)
TREES.append(large_tree())
LOCALS = [('d', 'd'), ('d', '{cwd}/d'), ('w/d', 'w/d/'), ('d', './d')]
LISTED = [[], ['f1.txt'], ['f1.txt', '{cwd}/in/f2.bin']]
FC = {'f1.txt': 'text', 'in/f2.bin': 'bin'}
NLISTED = len(LISTED)
LISTED.append(['list%03d' % i for i in range(60)] + ['list.huge'])
FC.update((f, 'huge' if f == 'list.huge' else 'text') for f in LISTED[NLISTED])
REMOTES = ['/pub/in', '/pub/new/deep', 'pub/in', '/pub/in/', '/']
NREMOTES = len(REMOTES)
REMOTES.append('/' + '/'.join('deep%d' % i for i in range(25)))
CREDS = [{}, {'user': 'u', 'password': 'pw'}, {'user': '', 'password': 'x@y'}, {'user': 'u'}]


def cases(tier):
    for t, l in itertools.product(range(NTREES), range(NLISTED)):
        if not TREES[t] and not LISTED[l]:
            continue
        for r in range(NREMOTES):
            for loc in (range(len(LOCALS)) if TREES[t] else [0]):
                for prior in (0, 1):
                    full = tier == 'thorough' or (loc == 0 and prior == 1)
                    yield [t, l, r, loc, prior, (t + l + r) % 4, full]
    # large deliveries, and a deep remote directory
    for r in range(len(REMOTES)):
        for loc in range(len(LOCALS)):
            for t, l in ((1, 0), (1, 1), (NTREES, 0), (NTREES, NLISTED)):
                yield [t, l, r, loc, loc % 2, r % 4, False]


def run(case, ctx):
    t, l, r, loc, prior, cred, full = case
    bound = 0 if not full else (1 if ctx.quick else (2 if loc == 0 and prior == 1 and r in (1, 2) else 1))
    Sender = get_sender_class('ftp')
    remote = REMOTES[r]
    rdir = '/' + remote.strip('/')
    with CaseDir(ctx) as cwd:
        sent, kw = {}, {}
        if TREES[t]:
            disk, spell = LOCALS[loc]
            for rel, c in TREES[t].items():
                write(os.path.join(disk, rel), CONTENT[c])
                sent[posixpath.join(rdir, rel)] = CONTENT[c]
            kw['local_directory'] = spell.replace('{cwd}', cwd)
        for f in LISTED[l]:
            rel = f.replace('{cwd}/', '')
            write(rel, CONTENT[FC[rel]])
            sent[posixpath.join(rdir, os.path.basename(rel))] = CONTENT[FC[rel]]
            kw.setdefault('local_files', []).append(f.replace('{cwd}', cwd))
        srcs = snapshot('.')
        before = {'/pub/in/keep': b'K', '/pub/in/sub/keep2': b'KK', '/other/a.txt': b'O'}
        if prior:
            before[sorted(sent)[0]] = b'previous content'
        props = {'remote_host': 'ftp.model', 'remote_directory': remote}
        props.update(CREDS[cred])
        login = ('u', 'pw') if cred == 1 else ('u', '') if cred == 3 else ('anonymous', None)

        def body(ch):
            def monitor(srv, what, path):
                if path in sent:
                    if what == 'store':
                        raise_later.append('final name %r is written directly instead of by renaming' % path)
                    elif what == 'rename' and srv.files[path] != sent[path]:
                        raise_later.append('incomplete file renamed to final name %r' % path)
            raise_later = []
            srv = FTPServer(ch, before, (), login, monitor)
            net.clear()
            srv.attach('ftp.model')
            s = Sender(properties=dict(props), **kw)
            err = None
            try:
                ret = s.send()
            except Exception as e:
                err = e
            ctx.op(len(srv.commands))
            ctx.traces += 1
            if raise_later:
                raise Violation(raise_later[0])
            f = srv.files
            for k, v in before.items():
                if k not in sent:
                    ctx.check(f.get(k) == v, 'unrelated remote file %r changed' % k)
            for k, v in sent.items():
                if f.get(k) != v:
                    if err is None:
                        raise Violation('send returned %r but %r is %s on the server' % (
                            ret, k, 'absent' if k not in f else 'not the local content'))
                    ctx.check(f.get(k) == before.get(k), '%r is partial on the server' % k)
            if err is None:
                ctx.check(ret[0] == len(sent), 'send reported %r files, %d were delivered' % (ret[0], len(sent)))
                extra = set(f) - set(sent) - set(before)
                ctx.check(not extra, 'files left on the server: %r' % sorted(extra))
            elif not ch.deviations:
                raise Violation('send failed although the server refused nothing: %s: %s' % (
                    type(err).__name__, err))
            ctx.check(snapshot('.') == srcs, 'sources changed')
            ctx.state((err is None, sorted((k, len(v)) for k, v in f.items() if '.tmp' not in k or k in sent)))
            ctx.outcome((err is None, type(err).__name__, str(err)[:60]))
        explore(body, bound)
