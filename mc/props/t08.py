"""T08: content of e-mail messages as received by an in-memory SMTP server."""
import collections
import email
import email.header
import email.utils
import email.policy
import io
import itertools
import mimetypes
import os
import shutil
import tempfile
import zipfile
from mc import net
from mc.core import Violation, Choices
from mc.fsutil import CaseDir, write, snapshot, CONTENT, large_tree
from mc.smtpmodel import Servers
net.install()
from impactutils.transfer.factory import get_sender_class  # noqa

LEVEL = 'exploration'
RULE = ('every file content x file type (extension) alone; every pair of listed files over a reduced alphabet x every '
        'directory tree x zip on/off; message/subject texts x limits; cancel with every combination of configured and '
        'given text; servers that refuse; one large delivery (100 files, 3 MB, a text of 9000 lines). The temporary directory must be afterwards what it was. Every accepted message is parsed and compared part by part. Distinct = distinct messages '
        '(structure and decoded content).')
ASSUMPTIONS = ['messages are read back with the standard library e-mail parser', 'text line ends are compared modulo CRLF, as SMTP transmits them']

PRIMARY = 'all@quarry.model'
C = dict(CONTENT)
C['utf8'] = 'Größe – 5 °C\nзем\n'.encode('utf-8')
C['latin'] = b'Gr\xf6\xdfe\n'
C['long'] = b'x' * 2000 + b'\nFrom me\n.\n..\n'
C['cr'] = b'a\rb\n\rc'
EXTS = ['.txt', '.html', '.csv', '.xml', '.json', '.png', '.jpg', '.gif', '.wav', '.mp3', '.pdf', '.zip', '.gz', '.txt.gz', '.tar.bz2',
        '', '.unknownext', '.eml', '.mp4', '.kml', '.hdf', '.py', '.svg']
NAMES = ['a b.txt', 'Größe.txt', '.hidden', "it's;q\"x.txt", 'UPPER.TXT', 'x.txt.bin']
TREES = [None, {}, {'a.txt': 'text'}, {'sub/a.txt': 'crlf', 'a.txt': 'text'}, {'x/y/z.bin': 'bin', '.h': 'nonl', 'd/d/d': 'empty'}]
NTREES = len(TREES)
TREES.append(large_tree(30, 12, 14))
DIRS = [('d', 'd'), ('d', '{cwd}/d'), ('w/d', 'w/d/'), ('d', './d')]
TEXTS = ['message text', 'two\nlines\n', '', 'Größe é зем\n', '.\n..\n.end\n', 'From me\nTo: you\n\nSubject: x', 'x' * 1500, ' lead\ttab \n\n']
NTEXTS = len(TEXTS)
TEXTS.append('\n'.join('line %d of a long text' % i for i in range(9000)))
SUBJ = ['Subject line', 'Größe: é', 'A: b; c', 'very long subject ' * 8 + 'end']


def cases(tier):
    for ext in EXTS:
        for c in C:
            if c == 'huge' and ext not in ('.txt', '.png', '.wav', '.pdf', '.gz', ''):
                continue
            for z in (0, 1):
                yield {'files': [['f' + ext, c]], 'zip': z}
    for nm in NAMES:
        for c in ('text', 'bin', 'utf8', 'empty'):
            for z in (0, 1):
                yield {'files': [[nm, c]], 'zip': z}
    small = [['f.txt', 'text'], ['g.bin', 'bin'], ['h.png', 'bin'], ['i.html', 'utf8']]
    for t in range(NTREES):
        for k in (0, 1, 2):
            for fs in itertools.combinations(small, k):
                for z in (0, 1):
                    for loc in (range(len(DIRS)) if TREES[t] is not None else [0]):
                        for lim in ((None, 0, 1) if tier == 'thorough' or loc == 0 else (None,)):
                            yield {'files': list(fs), 'tree': t, 'zip': z, 'loc': loc, 'lim': lim}
    # many files, a large file, deep and wide directories
    for z in (0, 1):
        for lim in (None, 1):
            for t in (0, NTREES):
                yield {'files': [['list%02d.txt' % i, 'text'] for i in range(40)], 'tree': t, 'zip': z, 'lim': lim}
    # a file listed twice is attached twice
    for k in (1, 2):
        for t in range(NTREES):
            yield {'files': small[:k] + small[:1], 'tree': t, 'zip': 0}
    for k in (0, 1):
        yield {'files': small[:k], 'zip': 0, 'text': NTEXTS}
        yield {'files': [], 'zip': 0, 'cancel': [None, NTEXTS, k]}
    yield {'files': [], 'zip': 0, 'cancel': [NTEXTS, None, 0]}
    for tx in range(NTEXTS):
        for sb in range(len(SUBJ)):
            for k in (0, 1):
                for lim in (None, 0, 1):
                    yield {'files': small[:k], 'zip': 0, 'text': tx, 'subj': sb, 'lim': lim}
    for k in (0, 1):
        for z in (0, 1):
            for lim in (None, 0, 1):
                for cancel in (None, [None, None, 0], [1, None, 1]):
                    yield dict({'files': small[:k], 'zip': z, 'lim': lim, 'prim': 1}, **({'cancel': cancel} if cancel else {}))
    # a server that fails: nothing may be left behind either
    for fail in (1, 2, 3):
        for t in (0, 2):
            for z in (0, 1):
                for cancel in (None, [None, None, 0]):
                    yield dict({'files': small[:2], 'tree': t, 'zip': z, 'fail': fail}, **({'cancel': cancel} if cancel else {}))
    for given in [None, 'POS'] + list(range(NTEXTS)):
        for conf in (None, 0, 3):
            for cs in (0, 1):
                for lim in (None, 0, 1):
                    yield {'files': small[:1], 'tree': 2, 'zip': 0, 'cancel': [given, conf, cs], 'lim': lim}
    if tier == 'thorough':
        for (e1, e2) in itertools.product(EXTS, EXTS):
            for c1, c2 in itertools.product(('text', 'bin', 'crlf'), repeat=2):
                for z in (0, 1):
                    yield {'files': [['p' + e1, c1], ['q' + e2, c2]], 'tree': 3, 'zip': z}


def run(case, ctx):
    with CaseDir(ctx) as cwd:
        one(case, ctx, cwd)


def norm(t):
    return t.replace('\r\n', '\n')


def one(case, ctx, cwd):
    files = case['files']
    tree = TREES[case.get('tree', 0)]
    z = case['zip']
    text = TEXTS[case.get('text', 0)]
    subj = SUBJ[case.get('subj', 0)]
    kw = {}
    direct = []
    archive = []
    for nm, c in files:
        write('in/' + nm, C[c])
        direct.append((nm, C[c]))
        archive.append((nm, C[c]))
        kw.setdefault('local_files', []).append('in/' + nm)
    if tree is not None:
        disk, spell = DIRS[case.get('loc', 0)]
        os.makedirs(disk)
        for rel, c in tree.items():
            write(os.path.join(disk, rel), C[c])
            direct.append((os.path.basename(rel), C[c]))
            archive.append((rel, C[c]))
        kw['local_directory'] = spell.replace('{cwd}', cwd)
    rec = ['fred@foo.model', 'barney@bar.model']
    props = {'recipients': rec, 'smtp_servers': ['smtp.model'], 'sender': 'mrslate@quarry.model',
             'subject': subj, 'message': text}
    if case.get('prim'):
        props['primary_recipient'] = PRIMARY
    if case.get('lim') is not None:
        props['max_bcc'] = case['lim']
    if z:
        props['zip_file'] = 'all files.zip'
    cancel = case.get('cancel')
    want_text = text
    if cancel:
        given, conf, cs = cancel
        want_text = 'This is a cancel message.'
        if isinstance(given, int):
            want_text = TEXTS[given]
        elif given == 'POS':
            want_text = 'positional'
        if conf is not None:
            props['cancel_content'] = want_text = TEXTS[conf]
        if cs:
            props['cancel_subject'] = subj = 'Cancelled: see below'
        direct = []
    before = snapshot('.')
    os.mkdir('temp')
    os.mkdir('temp/other')
    write('temp/all files.zip', b'of somebody else')
    used = snapshot('temp')
    keep, tempfile.tempdir = tempfile.tempdir, os.path.abspath('temp')
    try:
        deliver(case, ctx, props, kw, want_text, subj, direct, archive, tree)
    finally:
        tempfile.tempdir = keep
    ctx.check(snapshot('temp') == used, 'the temporary directory holds %r afterwards' % sorted(snapshot('temp')))
    shutil.rmtree('temp')
    ctx.check(snapshot('.') == before, 'local files changed')


def deliver(case, ctx, props, kw, want_text, subj, direct, archive, tree):
    files, z, cancel = case['files'], case['zip'], case.get('cancel')
    if case.get('fail'):
        srv = Servers(Choices([case['fail']]), ['smtp.model'])
        s = get_sender_class('email')(properties=props, **kw)
        try:
            s.cancel() if cancel else s.send()
        except Exception:
            ctx.op(srv.commands)
            return
        raise Violation('message not accepted by the server, but no error')
    srv = Servers(Choices(), ['smtp.model'])
    s = get_sender_class('email')(properties=props, **kw)
    if cancel:
        if cancel[0] is None:
            ret = s.cancel()
        elif cancel[0] == 'POS':
            ret = s.cancel('positional')
        else:
            ret = s.cancel(cancel_content=TEXTS[cancel[0]])
    else:
        ret = s.send()
    ctx.op(srv.commands)
    msgs = srv.accepted
    ctx.check(len(msgs) == (1 if case.get('lim') is None else 2), '%d messages were sent' % len(msgs))
    for _, frm, rcpts, raw in msgs:
        m = email.message_from_bytes(raw)
        h = str(email.header.make_header(email.header.decode_header(m['Subject'])))
        ctx.equal(' '.join(h.split()), ' '.join(subj.split()), 'subject')
        ctx.equal(m['From'], 'mrslate@quarry.model', 'From')
        for hd in ('Subject', 'From', 'To', 'Date'):
            ctx.check(len(m.get_all(hd) or []) == 1, 'header %s occurs %d times' % (hd, len(m.get_all(hd) or [])))
        # one message per recipient names the recipient, a blind-copied one the primary recipient or nobody
        ctx.equal(m['To'].strip(), rcpts[0] if case.get('lim') == 0 else PRIMARY if case.get('prim') else '', 'To')
        ctx.check(email.utils.parsedate_to_datetime(m['Date']) is not None, 'unreadable date %r' % m['Date'])
        bodies, got = [], []
        for part in m.walk():
            if part.is_multipart() and part.get_content_maintype() == 'multipart':
                continue
            if part.get_content_disposition() == 'attachment':
                if part.is_multipart():
                    raise Violation('attachment %r cannot be decoded (%s)' % (part.get_filename(), part.get_content_type()))
                got.append((part.get_filename(), part.get_payload(decode=True)))
                guess, coding = mimetypes.guess_type(part.get_filename())
                if coding or guess is None or guess.startswith(('message/', 'multipart/')):
                    guess = 'application/octet-stream'
                ctx.equal(part.get_content_type(), guess, 'declared type of %r' % part.get_filename())
            else:
                bodies.append(part.get_payload(decode=True).decode(part.get_content_charset() or 'ascii'))
        ctx.check(len(bodies) == 1, '%d text parts' % len(bodies))
        b, w = norm(bodies[0]), norm(want_text)
        # SMTP ends the data with a line break: one trailing newline is not significant
        ctx.check(b.rstrip('\n') == w.rstrip('\n'), 'message text %r, expected %r' % (b[:200], w[:200]))
        if cancel:
            ctx.check(not got, 'cancel message has attachments')
        elif z and (files or tree is not None):
            ctx.check(len(got) == 1 and got[0][0] == 'all files.zip', 'attachments %r, expected one archive' % [n for n, _ in got])
            zf = zipfile.ZipFile(io.BytesIO(got[0][1]))
            have = sorted((i.filename, zf.read(i)) for i in zf.infolist() if not i.filename.endswith('/'))
            if have != sorted(archive):
                raise Violation('archive entries %r, expected %r' % ([(n, len(d)) for n, d in have], [(n, len(d)) for n, d in sorted(archive)]))
            ctx.check(have == sorted(archive), 'archive content differs')
        else:
            gs, ws = sorted(got), sorted(direct)
            if gs != ws:
                raise Violation('attachments %r, expected %r' % ([(n, len(d)) for n, d in gs], [(n, len(d)) for n, d in ws]))
        ctx.state((subj, want_text, got if not z else [], z and sorted(archive)))
    if cancel:
        ctx.check(isinstance(ret, str) and ret, 'cancel returned %r instead of a message' % (ret,))
    else:
        ctx.check(ret[0] == len(archive), 'send reported %r files, %d were attached' % (ret[0], len(archive)))
    ctx.outcome((len(msgs), bool(cancel), z, len(direct)))
