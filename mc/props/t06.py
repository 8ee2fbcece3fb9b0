"""T06: SSH delivery; all single faults and command schedules of the conversation."""
import itertools
import os
from mc import sshmodel
from mc.core import Violation, explore
from mc.fsutil import CaseDir, write, snapshot, CONTENT, large_tree
from impactutils.transfer.factory import get_sender_class

LEVEL = 'fault_enumeration'
RULE = ('every scenario (tree x listed files x remote directory state/spelling) with, at every remote command '
        'and every scp acknowledgement, every answer: done at once, started only when awaited (schedule), '
        'refused, connection lost, error/fatal/timeout/close acknowledgement with half the data stored '
        '(quick: 1 deviation, thorough: 2 on the small scenarios); large deliveries without faults. Distinct = distinct (remote tree, result) pairs.')
ASSUMPTIONS = ['remote shell is POSIX sh (the real /bin/sh, in a scratch directory)',
               'the remote scp sink follows the scp1 protocol (names without separators)']
TREES = [{}, {'a.txt': 'text'}, {'sub/b.bin': 'bin', 'c': 'empty'},
         {'s p/x y.txt': 'crlf', "d/it's $HOME": 'nonl'}, {'d/d': 'big', 'd/R/e': 'text'}]
NTREES = len(TREES)
TREES.append(large_tree(30, 12, 14))
LOCALS = [('d', 'd'), ('d', '{cwd}/d'), ('w/d', 'w/d/')]
LISTED = [[], ['f1.txt'], ['f1.txt', '{cwd}/in/f 2;x.bin']]
FC = {'f1.txt': 'text', 'in/f 2;x.bin': 'bin'}
NLISTED = len(LISTED)
LISTED.append(['list%03d' % i for i in range(30)] + ['list.huge'])
FC.update((f, 'huge' if f == 'list.huge' else 'text') for f in LISTED[NLISTED])
#          path below the remote root, prior state
REMOTES = [('data/ev', 'absent'), ('data/ev', 'dir'), ('data/new dir/$x', 'absent'), ('data/ev/', 'dir'),
           ('data/plain', 'file'), ('home:rel', 'absent'), ('data/ev', 'old'),
           ('data/ev', 'blocked')]


def cases(tier):
    for t, l in itertools.product(range(NTREES), range(NLISTED)):
        if not TREES[t] and not LISTED[l]:
            continue
        for r in range(len(REMOTES)):
            for loc in (range(len(LOCALS)) if TREES[t] else [0]):
                yield [t, l, r, loc, 1 if tier == 'thorough' or (loc == 0 and (t + l) <= 2) else 0]
    # large deliveries
    for r in (0, 1, 2, 6):
        for t, l in ((NTREES, 0), (NTREES, NLISTED)):
            yield [t, l, r, 0, 0]
    if tier == 'thorough':
        for t, l in ((1, 0), (0, 1)):
            for r in range(len(REMOTES)):
                yield [t, l, r, 0, 2]


def run(case, ctx):
    t, l, r, loc, bound = case
    Sender = get_sender_class('ssh')
    rname, rstate = REMOTES[r]

    def body(ch):
        with CaseDir(ctx) as cwd:
            home = cwd + '/R/home'
            os.makedirs(home)
            os.makedirs(cwd + '/R/data')
            if rname.startswith('home:'):
                remote = rname[5:]
                rdir = os.path.join(home, remote)
            else:
                remote = cwd + '/R/' + rname
                rdir = remote.rstrip('/')
            sent, kw = {}, {}
            if TREES[t]:
                disk, spell = LOCALS[loc]
                for rel, c in TREES[t].items():
                    write(os.path.join(disk, rel), CONTENT[c])
                    sent[os.path.join(rdir, rel)] = CONTENT[c]
                kw['local_directory'] = spell.replace('{cwd}', cwd)
            for f in LISTED[l]:
                rel = f.replace('{cwd}/', '')
                write(rel, CONTENT[FC[rel]])
                sent[os.path.join(rdir, os.path.basename(rel))] = CONTENT[FC[rel]]
                kw.setdefault('local_files', []).append(f.replace('{cwd}', cwd))
            write(cwd + '/R/data/other', b'untouched')
            before = {}
            if rstate in ('dir', 'old', 'blocked'):
                os.makedirs(rdir)
                before[rdir + '/keep'] = b'K'
                if rstate == 'blocked':
                    # a plain file where a directory is to be made, and files with similar names
                    for n in ('sub2', 'sub.txt', 'd~', 's px'):
                        before[rdir + '/' + n] = b'sibling'
                    for p in sent:
                        top = os.path.relpath(p, rdir).split('/')[0]
                        if top != os.path.basename(p):
                            write(rdir + '/' + top, b'in the way')
                if rstate == 'old':
                    for p in sent:
                        before[p] = b'previous content'
            for p, v in before.items():
                write(p, v)
            if rstate == 'file':
                write(rdir, b'in the way')
            write(cwd + '/key', b'k')
            srcs = {k: v for k, v in snapshot('.').items() if not k.startswith('R/')}
            bad = []

            def monitor(what, path):
                if what == 'open' and path in sent:
                    bad.append('final name %r is written directly instead of by renaming' % path)
                for p, v in sent.items():
                    if os.path.isfile(p):
                        with open(p, 'rb') as f:
                            g = f.read()
                        if g != v and g != before.get(p):
                            bad.append('%r holds %d bytes, neither the previous nor the complete new file' % (p, len(g)))
            rem = sshmodel.Remote(ch, home, monitor, key=cwd + '/key', user='me')
            sshmodel.CURRENT = rem
            props = {'remote_host': 'ssh.model', 'remote_directory': remote, 'private_key': cwd + '/key',
                     'remote_user': 'me'}
            s = Sender(properties=props, **kw)
            err = None
            try:
                ret = s.send()
            except Exception as e:
                err = e
            ctx.op(rem.events)
            ctx.traces += 1
            ctx.check(not bad, bad[0] if bad else '')
            snap = snapshot('R')
            f = {os.path.join(cwd, 'R', k): v for k, v in snap.items()}
            for p, v in sent.items():
                if f.get(p) != v:
                    if err is None:
                        raise Violation('send returned %r but %r is %s on the remote host' % (
                            ret, p, 'absent' if p not in f else 'not the local content'))
                    ctx.check(f.get(p) == before.get(p), '%r is partial on the remote host' % p)
            for p, v in before.items():
                if p not in sent:
                    ctx.check(f.get(p) == v, 'unrelated remote file %r changed' % p)
            ctx.check(f.get(cwd + '/R/data/other') == b'untouched', 'file outside the remote directory changed')
            if err is None:
                ctx.check(ret[0] == len(sent), 'send reported %r files, %d were to be sent' % (ret[0], len(sent)))
                extra = set(f) - set(sent) - set(before) - {cwd + '/R/data/other'}
                ctx.check(not extra, 'files left on the remote host: %r' % sorted(extra))
            elif not rem.faults:
                raise Violation('send failed although nothing was refused: %s: %s' % (type(err).__name__, err))
            now = {k: v for k, v in snapshot('.').items() if not k.startswith('R/')}
            ctx.check(now == srcs, 'local files changed')
            ctx.state((err is None, sorted((k, len(v)) for k, v in snap.items() if '.tmp' not in k)))
            ctx.outcome((err is None, type(err).__name__, str(err)[:25]))
    explore(body, bound)
