"""T04: sender validation, later modification, caller data, factory."""
import copy
import email
import itertools
import os
from mc import net, sshmodel
from mc.core import Violation, Choices
from mc.fsutil import CaseDir, write, snapshot, CONTENT
from mc.ftpmodel import FTPServer
from mc.smtpmodel import Servers
net.install()
from impactutils.exceptions import RequiredArgumentError  # noqa
from impactutils.transfer.factory import get_sender_class  # noqa

LEVEL = 'model_checking'
RULE = ('(a) all five senders x every subset of the required properties; (b) all senders x 12 file arguments x 5 '
        'directory arguments; (c) all histories of depth <= 4 (quick 3 for FTP, 2 for e-mail/SSH) over add-files (good, '
        'several, empty, missing, partly missing, a directory), change-directory (good, missing, a file), '
        'add-property and send, transmitted set compared with the reference model after every send; '
        '(d) transfer names. Caller objects are compared after every step.')
ASSUMPTIONS = ['documented error types: RequiredArgumentError, FileNotFoundError, TypeError, KeyError (class factory)']

REQ = {'copy': ['remote_directory'], 'ftp': ['remote_directory', 'remote_host'],
       'ssh': ['private_key', 'remote_host', 'remote_directory'],
       'email': ['smtp_servers', 'sender', 'subject', 'recipients', 'message'],
       'pdl': ['java', 'jarfile', 'privatekey', 'configfile', 'source', 'type', 'code', 'eventsource', 'eventsourcecode']}
VAL = {'remote_directory': '/pub/out', 'remote_host': 'ftp.model', 'smtp_servers': ['smtp.model'], 'sender': 's@q.model',
       'subject': 'sub', 'recipients': ['a@b.model', 'c@d.model'], 'message': 'text', 'private_key': 'key'}
FILEARGS = ['none', 'empty', 'one', 'two', 'missing', 'partly', 'partly2', 'dir', 'str', 'tuple', 'set', 'gen', 'many', 'manymiss', 'manydir']
DIRARGS = ['none', 'good', 'slash', 'missing', 'file']
NAMES = ['copy', 'ftp', 'pdl', 'email', 'ssh', 'COPY', 'Copy', '', 'scp', 'sftp', 'mail', 'copy ', 'cop', None, 1]
OPS = ['+1', '+23', '+0', '+m', '+1m', '+d', 'D2', 'Dm', 'Df', 'P', 'S']


def cases(tier):
    q = tier == 'quick'
    for i in range(len(NAMES)):
        yield ['name', i]
    for m in sorted(REQ):
        for k in range(len(REQ[m]) + 1):
            for sub in itertools.combinations(range(len(REQ[m])), k):
                yield ['subset', m, list(sub)]
        for f in FILEARGS:
            for d in DIRARGS:
                yield ['args', m, f, d]
    for m, depth in (('copy', 3 if q else 4), ('ftp', 3), ('email', 2 if q else 3), ('ssh', 2), ('pdl', 2 if q else 3)):
        for n in range(1, depth + 1):
            for h in itertools.product(OPS, repeat=n):
                for start in (0, 1):
                    yield ['hist', m, start, list(h) + ([] if h[-1] == 'S' else ['S'])]


def props_for(m):
    p = {k: VAL.get(k, k + '_value') for k in REQ[m]}
    if m == 'ssh':
        p['remote_host'] = 'ssh.model'
    return p


def run(case, ctx):
    with CaseDir(ctx) as cwd:
        write('f1.txt', CONTENT['text'])
        write('in/f2.bin', CONTENT['bin'])
        write('f3', CONTENT['crlf'])
        write('key', b'k')
        write('d1/a', CONTENT['text'])
        write('d1/sub/b', CONTENT['nonl'])
        write('d2/c', CONTENT['crlf'])
        if case[0] == 'name':
            n = NAMES[case[1]]
            try:
                c = get_sender_class(n)
            except KeyError:
                ctx.check(n not in REQ, 'documented transfer name %r refused' % n)
                ctx.outcome(('refused', n))
                ctx.state(('name', n))
                return
            ctx.op()
            ctx.check(n in REQ, 'undocumented transfer name %r accepted' % (n,))
            others = [get_sender_class(o) for o in REQ if o != n]
            ctx.check(c not in others, '%r maps to the same class as another name' % n)
            ctx.check(sorted(c(properties=props_for(n)).getRequiredProperties()) == sorted(REQ[n]),
                      'class for %r has the wrong required properties' % n)
            ctx.state(('name', n))
        elif case[0] == 'subset':
            construct(case, ctx)
        elif case[0] == 'args':
            args(case, ctx)
        else:
            hist(case, ctx, cwd)


def construct(case, ctx):
    _, m, sub = case
    full = props_for(m)
    keep = [REQ[m][i] for i in sub]
    p = {k: full[k] for k in keep}
    p['extra_unknown'] = 'x'
    orig = copy.deepcopy(p)
    ctx.op()
    err = None
    try:
        s = get_sender_class(m)(properties=p)
        if not keep:
            try:
                get_sender_class(m)()
                raise Violation('%s sender without properties accepted' % m)
            except RequiredArgumentError:
                pass
    except RequiredArgumentError as e:
        err = e
    complete = len(keep) == len(REQ[m])
    ctx.check((err is None) == complete, '%s sender with properties %r %s' % (
        m, keep, 'refused: %s' % err if err else 'accepted although some are missing'))
    if err is not None:
        ctx.check(any(k in str(err) for k in REQ[m] if k not in keep), 'error %r names no missing property' % str(err))
    ctx.check(p == orig, 'caller dictionary changed by construction')
    ctx.state((m, sub))
    ctx.outcome(err is None)


def args(case, ctx):
    _, m, fa, da = case
    f = {'none': None, 'empty': [], 'one': ['f1.txt'], 'two': ['f1.txt', 'in/f2.bin'], 'missing': ['nofile'],
         'partly': ['f1.txt', 'nofile'], 'partly2': ['nofile', 'f1.txt'], 'dir': ['d1'], 'str': 'f1.txt',
         'tuple': ('f1.txt',), 'set': {'f1.txt'}, 'gen': None}.get(fa)
    if fa == 'gen':
        f = iter(['f1.txt'])
    d = {'none': None, 'good': 'd1', 'slash': 'd1/', 'missing': 'nodir', 'file': 'f1.txt'}[da]
    if fa.startswith('many'):
        f = []
        for i in range(40):
            write('m/f%02d' % i, CONTENT['nonl'])
            f.append('m/f%02d' % i)
        f = f + {'many': [], 'manymiss': ['nofile'], 'manydir': ['d1']}[fa]
    want = []
    if fa in ('missing', 'partly', 'partly2', 'dir', 'manymiss', 'manydir') or da in ('missing', 'file'):
        want.append(FileNotFoundError)
    if fa in ('str', 'tuple', 'set', 'gen'):
        want.append(TypeError)
    p = props_for(m)
    orig = (copy.deepcopy(p), copy.deepcopy(f) if fa != 'gen' else None)
    ctx.op()
    try:
        get_sender_class(m)(properties=p, local_files=f, local_directory=d)
    except tuple(want) if want else () as e:
        ctx.outcome(type(e).__name__)
    except Exception as e:
        raise Violation('%s sender with files %s, directory %s failed with %s: %s; expected %s' % (
            m, fa, da, type(e).__name__, e, [w.__name__ for w in want] or 'success'))
    else:
        ctx.check(not want, '%s sender accepted files %s, directory %s' % (m, fa, da))
    ctx.check((p, f if fa != 'gen' else None) == orig, 'caller objects changed by construction')
    if fa in ('many', 'manymiss', 'manydir', 'partly', 'partly2', 'dir', 'two') and da == 'none':
        s = get_sender_class(m)(properties=p, local_files=['f1.txt'])
        ctx.op()
        try:
            s.addFiles(f)
        except FileNotFoundError as e:
            ctx.check(want, '%s sender refused to add %d files: %s' % (m, len(f), e))
        else:
            ctx.check(not want, '%s sender added %d files, the last of which is no file' % (m, len(f)))
        ctx.check((p, f) == orig, 'caller objects changed by adding files')
    ctx.state(('args', m, fa, da))


def hist(case, ctx, cwd):
    _, m, start, ops = case
    p = props_for(m)
    alt = '/pub/alt'
    if m in ('copy', 'ssh'):
        p['remote_directory'] = cwd + '/R/pub/out'
        alt = cwd + '/R/pub/alt'
        os.makedirs('R/pub')
        os.makedirs('R/home')
        if m == 'ssh':
            p['private_key'] = cwd + '/key'
            p['remote_user'] = 'me'
            sshmodel.CURRENT = sshmodel.Remote(Choices(), cwd + '/R/home', None, key=cwd + '/key', user='me')
    elif m == 'pdl':
        write('pdl.sh', b'#!/bin/sh\nfor a in "$@"; do printf \'%s\\n\' "$a"; done > out.txt\necho ok\n', 0o755)
        p['java'] = cwd + '/pdl.sh'
    files = ['f1.txt'] if start else []
    lists = {'+1': ['f1.txt'], '+23': ['in/f2.bin', 'f3'], '+0': [], '+m': ['nofile'], '+1m': ['f3', 'nofile'], '+d': ['d1']}
    callers = [p, files] + list(lists.values())
    orig = copy.deepcopy(callers)
    content = {'f1.txt': CONTENT['text'], 'in/f2.bin': CONTENT['bin'], 'f3': CONTENT['crlf']}
    dirs = {'d1': {'a': CONTENT['text'], 'sub/b': CONTENT['nonl']}, 'd2': {'c': CONTENT['crlf']}}
    s = get_sender_class(m)(properties=p, local_files=files, local_directory='d1' if start else None)
    mfiles, mdir, mrem = list(files), 'd1' if start else None, 0
    for i, op in enumerate(ops):
        ctx.op()
        what = 'step %d (%s) of %r by %s' % (i + 1, op, ops, m)
        bad = op in ('+m', '+1m', '+d', 'Dm', 'Df')
        try:
            if op[0] == '+':
                s.addFiles(lists[op])
            elif op[0] == 'D':
                s.changeDirectory({'2': 'd2', 'm': 'nodir', 'f': 'f1.txt'}[op[1]])
            elif op == 'P':
                s.addProperty('remote_directory' if m in ('copy', 'ftp', 'ssh') else
                              'subject' if m == 'email' else 'source', alt)
        except FileNotFoundError as e:
            ctx.check(bad, '%s refused: %s' % (what, e))
        else:
            ctx.check(not bad, '%s accepted something that does not exist' % what)
            if op[0] == '+':
                mfiles += lists[op]
            elif op == 'D2':
                mdir = 'd2'
            elif op == 'P':
                mrem = 1
        if op == 'S':
            want = {}
            if m != 'email':
                for f in mfiles:
                    want[os.path.basename(f)] = content[f]
                for k, v in dirs.get(mdir, {}).items():
                    want[k] = v
            n = len(mfiles) + len(dirs.get(mdir, {}))
            if m in ('copy', 'ssh'):
                ret = s.send()
                got = snapshot('R/pub/' + ('alt' if mrem else 'out'))
                os.system('rm -rf R/pub; mkdir R/pub')
            elif m == 'ftp':
                srv = FTPServer(Choices(), {})
                net.clear()
                srv.attach('ftp.model')
                ret = s.send()
                pre = '/pub/alt/' if mrem else '/pub/out/'
                got = {k[len(pre):] if k.startswith(pre) else k: v for k, v in srv.files.items()}
            elif m == 'email':
                srv = Servers(Choices(), ['smtp.model'])
                ret = s.send()
                msg = email.message_from_bytes(srv.accepted[0][3])
                got = sorted((q.get_filename(), q.get_payload(decode=True)) for q in msg.walk()
                             if q.get_content_disposition() == 'attachment')
                want = sorted([(os.path.basename(f), content[f]) for f in mfiles] +
                              [(os.path.basename(k), v) for k, v in dirs.get(mdir, {}).items()])
                ctx.check(msg['Subject'] == (alt if mrem else 'sub'), '%s: subject %r' % (what, msg['Subject']))
            else:
                if len(mfiles) > 1:
                    try:
                        s.send()
                    except Exception:
                        continue
                    raise Violation('%s: second file accepted' % what)
                ret = s.send()
                a = open('out.txt').read().splitlines()
                got = sorted(x for x in a if x.startswith(('--file', '--directory', '--source')))
                want = sorted(['--file=' + f for f in mfiles] + (['--directory=' + mdir] if mdir else []) +
                              ['--source=' + (alt if mrem else 'source_value')])
            ctx.check(ret[0] == n, '%s: reported %r files, %d were to be sent' % (what, ret[0], n))
            if got != want:
                raise Violation('%s transmitted %r, expected %r' % (what, sorted(got), sorted(want)))
        ctx.check(callers == orig, '%s changed an object of the caller: %r' % (what, callers))
        ctx.state((m, start, tuple(mfiles), mdir, mrem))
    ctx.outcome((m, len(mfiles), mdir))
