"""T03: cancel marker; all histories of send / cancel by copy, FTP and SSH."""
import itertools
import os
import posixpath
import tempfile
from mc import net, sshmodel
from mc.core import Violation, Choices, explore
from mc.fsutil import CaseDir, write, snapshot, diff, CONTENT
from mc.ftpmodel import FTPServer
net.install()
from impactutils.transfer.factory import get_sender_class  # noqa

LEVEL = 'model_checking'
RULE = ('every history over {send, cancel, cancel(text A), cancel(text B)} of depth 1..4 (thorough: 1..5 copy/FTP, '
        'adding send/cancel through a second sender object) x method x marker name x initial destination; after '
        'every step the whole destination tree is compared with the reference model. Plus every single server '
        'answer (refusal, lost connection, half-stored data) at every step of a cancel by FTP and SSH: a cancel '
        'that returns has placed the complete marker.')
ASSUMPTIONS = ['FTP server and remote host are the in-process models also used by T05 and T06 (remote commands run in a real shell)',
               'the cancel text is representable in the file encoding (UTF-8 here)']

TEXTS = {'c': None, 'A': 'withdrawn 100% sure\nline\\ntwo %s\\c', 'B': "it's $HOME `x` \"q\" é\n", 'E': ''}
NAMES = ['.cancel', 'CANCEL ME', '.cancel.tmp']
# delivered files; some resemble the marker
TREE = {'a.txt': 'text', 'sub/.cancel': 'crlf', '.cancel.bak': 'nonl', 'sub/deep/b': 'bin', 'cancel': 'empty'}
LISTED = {'f1.txt': 'text', 'x.CANCEL ME': 'nonl'}
METHODS = ['copy', 'ftp', 'ssh']
INIT = ['absent', 'empty', 'files', 'marker']


def histories(depth, alpha):
    for n in range(1, depth + 1):
        for h in itertools.product(alpha, repeat=n):
            yield ''.join(h)


def cases(tier):
    q = tier == 'quick'
    for m in METHODS:
        for name in range(len(NAMES)):
            for init in range(len(INIT)):
                if m == 'ssh':
                    d, alpha = (2 if q and (name or init != 2) else 3 if q else 4), 'scAB'
                else:
                    d, alpha = (4 if q else 5), 'scABE'
                if not q and m == 'ssh' and name:
                    d = 3
                for h in histories(d, alpha):
                    if q and m == 'ssh' and len(h) > 2 and h.count('s') > 1:
                        continue
                    yield [m, name, init, h, 0]
                # histories with two sender objects: lower case / digits use the second object
                for h in histories(2 if m == 'ssh' else 3, ['s', 'A', '1', '2']):
                    if '1' in h or '2' in h:
                        yield [m, name, init, h, 0]
    for m in ('ftp', 'ssh'):
        for name in range(len(NAMES)):
            for init in (1, 2, 3):
                for h in ('c', 'A', 'B'):
                    yield [m, name, init, h, 1 if q else 2]


def run(case, ctx):
    method, ni, ii, hist, bound = case
    if bound:
        explore(lambda ch: one(method, ni, ii, hist, ch, ctx), bound)
    else:
        one(method, ni, ii, hist, Choices(), ctx)


def one(method, ni, ii, hist, ch, ctx):
    with CaseDir(ctx) as cwd:
        # the directory for temporary files: nothing is left in it
        old, tempfile.tempdir = tempfile.tempdir, os.path.join(cwd, 'temp')
        try:
            os.makedirs('temp')
            history(method, ni, ii, hist, ch, ctx, cwd)
            ctx.check(not os.listdir('temp'), 'temporary files left behind: %r' % sorted(snapshot('temp')))
        finally:
            tempfile.tempdir = old


def history(method, ni, ii, hist, ch, ctx, cwd):
    name, init = NAMES[ni], INIT[ii]
    deliver = {}
    for rel, c in TREE.items():
        write('d/' + rel, CONTENT[c])
        deliver[rel] = CONTENT[c]
    for rel, c in LISTED.items():
        write('l/' + rel, CONTENT[c])
        deliver[rel] = CONTENT[c]
    write('key', b'k')
    prior = {}
    if init == 'files':
        prior = {'keep': b'K', 'a.txt': b'previous', 'sub/.cancel2': b'x'}
    elif init == 'marker':
        prior = {name: b'older cancel text that is longer than the others ' * 3, 'keep': b'K'}
    else:
        prior = {}
    exists = init != 'absent'
    outside = {'ev': b'O', 'evx/' + name: b'P'}
    srv = rem = None
    if method == 'copy':
        os.makedirs('R/data')
        for k, v in outside.items():
            write('R/' + k, v)
        if exists:
            os.makedirs('R/data/ev')
        for k, v in prior.items():
            write('R/data/ev/' + k, v)
        props = {'remote_directory': cwd + '/R/data/ev'}
    elif method == 'ftp':
        files = {'/out/' + k: v for k, v in outside.items()}
        files.update({'/pub/ev/' + k: v for k, v in prior.items()})
        srv = FTPServer(ch, files, ['/pub'] + (['/pub/ev'] if exists else []))
        net.clear()
        srv.attach('ftp.model')
        props = {'remote_host': 'ftp.model', 'remote_directory': '/pub/ev'}
    else:
        os.makedirs('R/home')
        os.makedirs('R/data')
        for k, v in outside.items():
            write('R/' + k, v)
        if exists:
            os.makedirs('R/data/ev')
        for k, v in prior.items():
            write('R/data/ev/' + k, v)
        rem = sshmodel.Remote(ch, cwd + '/R/home', None, key=cwd + '/key', user='me')
        sshmodel.CURRENT = rem
        props = {'remote_host': 'ssh.model', 'remote_directory': cwd + '/R/data/ev',
                 'private_key': cwd + '/key', 'remote_user': 'me'}
    S = get_sender_class(method)

    def mk():
        return S(properties=dict(props), local_directory='d', cancelfile=name,
                 local_files=['l/' + k for k in sorted(LISTED)])
    objs = [mk(), mk()]
    model = dict(prior)

    def observe():
        if method == 'ftp':
            ctx.check({k: v for k, v in srv.files.items() if not k.startswith('/pub/ev/')} ==
                      {'/out/' + k: v for k, v in outside.items()}, 'file outside the remote directory changed')
            return {k[len('/pub/ev/'):]: v for k, v in srv.files.items() if k.startswith('/pub/ev/')}
        s = snapshot('R')
        ctx.check({k: v for k, v in s.items() if not k.startswith('data/ev/')} == outside,
                  'file outside the remote directory changed')
        return {k[len('data/ev/'):]: v for k, v in s.items() if k.startswith('data/ev/')}

    for i, op in enumerate(hist):
        o = objs[1 if op in '12' else 0]
        err = None
        ctx.op()
        what = 'step %d (%s) of history %s by %s' % (i + 1, op, hist, method)
        before = dict(model)
        try:
            if op in 's1':
                o.send()
            elif op == 'c':
                o.cancel()
            elif op == '2':
                o.cancel(cancel_content='2')
            elif i % 2:
                o.cancel(TEXTS[op])
            else:
                o.cancel(cancel_content=TEXTS[op])
        except Exception as e:
            err = e
        if op in 's1':
            model.update(deliver)
            if method == 'copy':
                model.pop(name, None)
        else:
            model[name] = ('2' if op == '2' else TEXTS[op] or '').encode()
        got = observe()
        if err is not None:
            # only a cancel into a directory that does not exist may fail, without effect
            if ch.deviations:
                for k in before:
                    if k != name:
                        ctx.check(got.get(k) == before[k], '%s: delivered file %r changed' % (what, k))
                ctx.check(method == 'ssh' or got.get(name) in (before.get(name), model[name]),
                          '%s failed and left a partial marker' % what)
                ctx.outcome(('failed', type(err).__name__))
                break
            if op not in 's1' and not exists:
                ctx.check(got == before, '%s failed and changed the destination' % what)
                model = before
                continue
            raise Violation('%s failed: %s: %s' % (what, type(err).__name__, err))
        exists = True
        d = diff(got, model)
        ctx.check(not d, '%s: %s' % (what, d))
        ctx.state((method, ni, ii, sorted((k, v[:40]) for k, v in got.items())))
        ctx.outcome((op, name in got))
    srcs = snapshot('.')
    ctx.check({k: v for k, v in srcs.items() if k.startswith(('d/', 'l/'))} ==
              dict([('d/' + k, CONTENT[c]) for k, c in TREE.items()] +
                   [('l/' + k, CONTENT[c]) for k, c in LISTED.items()]), 'local files changed')
    ctx.check(not [k for k in srcs if k.split('/')[0] not in ('d', 'l', 'key', 'R', 'temp')], 'extra local files: %r' % sorted(srcs))
    ctx.traces += 1
