"""T01: a copy send mirrors the sources exactly."""
import itertools
import os
import shutil
from mc.core import Violation
from mc.fsutil import CaseDir, write, snapshot, diff, CONTENT, large_tree
from impactutils.transfer.factory import get_sender_class

LEVEL = 'exploration'
RULE = ('complete product: every set of <=k files (k=2 quick, 3 thorough) from an alphabet of relative paths (nested, '
        'repeating the directory name, blanks, dots, non-ASCII, symlink) x spellings of the local '
        'directory x sets of listed files (also ones below the local directory) x spellings of the remote '
        'directory x prior remote content (also a cancel marker and files named like one), directories in the place of files; '
        'one large delivery (120 files, 25 levels, 3 MB, names of 170 characters) per spelling; '
        'the whole scratch directory is compared with the predicted one. Distinct = distinct final trees.')
ASSUMPTIONS = ['files are not changed by others during the send',
               'transmitted files do not collide at the destination (colliding names have no defined winner)']
NPROC = 8

FILES = [('a.txt', 'text'), ('sub/b.bin', 'bin'), ('sub/deep/c', 'big'), ('d', 'empty'),
         ('w/d/w/d', 'crlf'), ('ad/da.d', 'nonl'), ('.hidden', 'bin'), ('sp ace/q (1).txt', 'crlf'),
         ('sub/\u00e9\u4e2d.dat', 'text'), ('x.tmp_20200101000000', 'text'), ('.cancel', 'text'),
         ('.cfg/h/x.y', 'bin')]
NBASE = len(FILES)
FILES += sorted(large_tree().items())
# (cwd-relative local directory on disk, spelling passed to the sender); {cwd} is replaced
LOCALS = [('d', 'd'), ('d', '{cwd}/d'), ('d', 'd/'), ('d', './d'), ('w/d', 'w/d'), ('w/d', '{cwd}/w//d/'),
          ('w/d', 'w/../w/d'), ('a', 'a')]
LISTED = [[], ['f1.txt'], ['f1.txt', 'in/f2.bin'], ['in/.f3', '{cwd}/in/f 4.csv']]
NLISTED = len(LISTED)
LISTED.append(['in/list%03d' % i for i in range(60)] + ['in/list.huge'])
LCONT = {'f1.txt': 'text', 'in/f2.bin': 'big', 'in/.f3': 'empty', 'in/f 4.csv': 'crlf'}
LCONT.update((f, 'huge' if f == 'in/list.huge' else 'text') for f in LISTED[NLISTED])
REMOTES = [('out', '{cwd}/out'), ('out', 'out'), ('out', '{cwd}/out/'), ('out/new/deep', '{cwd}/out/new/deep'),
           ('out/x', 'out//x'), ('out', './out'), ('out', '{cwd}/in/../out')]
PRIOR = [None, {}, {'keep.me': b'old', 'sub/keep2': b'old2', 'a.txt': b'OLDER AND LONGER CONTENT THAN BEFORE',
                    'f1.txt': b''},
         # the cancel marker of an earlier cancel, and files that merely look like one
         {'.cancel': b'cancelled', '.cancel2': b'old', 'sub/.cancel': b'old', 'x.cancel': b'old', 'old.tmp_1': b'o'}]
# files below the local directory that are listed as well (they go to their base name too)
BOTH = [[1], [1, 2], [2, 4], [5, 7], [0, 2]]


def cases(tier):
    k = 2 if tier == 'quick' else 3
    trees = [list(c) for n in range(k + 1) for c in itertools.combinations(range(NBASE), n)]
    for tree in [None] + trees:
        for li in (range(NLISTED) if tree is None or len(tree) < 2 or tier != 'quick' else (0, 2)):
            if tree is None and not LISTED[li]:
                continue
            for loc in (range(len(LOCALS)) if tree is not None else [0]):
                for rem in range(len(REMOTES)):
                    for pr in range(len(PRIOR)):
                        yield [tree, loc, li, rem, pr, False]
    # large deliveries
    for loc in range(len(LOCALS)):
        for rem in range(len(REMOTES)):
            for li in (0, NLISTED):
                yield [list(range(NBASE, len(FILES))), loc, li, rem, rem % 3, False]
    # symbolic link to a file, and a second send over the first
    for loc in range(len(LOCALS)):
        for rem in range(len(REMOTES)):
            yield [[0, 1], loc, 1, rem, 2, True]
    for tree in BOTH:
        for li in range(2):
            for loc in range(len(LOCALS)):
                for pr in range(len(PRIOR)):
                    yield [tree, loc, li, 0, pr, 'both']
    # a directory in the place of a file to be sent: refused, nothing lost
    for tree in ([0], [0, 1], [1], [2]):
        for li in range(3):
            for rem in range(3):
                yield [tree, 0, li, rem, 1, 'blocked']


def run(case, ctx):
    tree, loc, li, rem, pr, link = case
    Copy = get_sender_class('copy')
    with CaseDir(ctx) as cwd:
        want = {}
        ldisk, lspell = LOCALS[loc]
        rdisk, rspell = REMOTES[rem]
        lspell = lspell.replace('{cwd}', cwd)
        rspell = rspell.replace('{cwd}', cwd)
        sent = {}
        if tree is not None:
            os.makedirs(ldisk)
            for i in tree:
                rel, c = FILES[i]
                write(os.path.join(ldisk, rel), CONTENT[c])
                sent[rel] = CONTENT[c]
            if link is True:
                write('elsewhere', b'link target')
                os.symlink(os.path.join(cwd, 'elsewhere'), os.path.join(ldisk, 'ln'))
                sent['ln'] = b'link target'
        files = []
        os.makedirs('in', exist_ok=True)
        for f in LISTED[li]:
            rel = f.replace('{cwd}/', '')
            data = CONTENT[LCONT[rel]]
            write(rel, data)
            files.append(f.replace('{cwd}', cwd))
            base = os.path.basename(rel)
            sent[base] = data
        total = len(sent)
        if link == 'both':
            for i in tree:
                rel, c = FILES[i]
                if '/' in rel and os.path.basename(rel) not in sent:
                    files.append(os.path.join(lspell, rel))
                    sent[os.path.basename(rel)] = CONTENT[c]
                    total += 1
        if PRIOR[pr] is not None:
            os.makedirs(rdisk, exist_ok=True)
            for k, v in PRIOR[pr].items():
                write(os.path.join(rdisk, k), v)
        if link == 'blocked':
            return blocked(ctx, Copy, rdisk, rspell, lspell, files, sent)
        want = snapshot('.')
        want.pop(os.path.join(rdisk, '.cancel'), None)
        for k, v in sent.items():
            want[os.path.join(rdisk, k)] = v
        kw = {}
        if files:
            kw['local_files'] = list(files)
        if tree is not None:
            kw['local_directory'] = lspell
        for rnd in range(2 if link is True else 1):
            s = Copy(properties={'remote_directory': rspell}, **kw)
            ret = s.send()
            ctx.op()
            got = snapshot('.')
            d = diff(got, want)
            if d:
                raise Violation('destination is not the mirror of the sources: ' + d)
            n = ret[0]
            ctx.check(n == total, 'send reported %r files, %d were to be transmitted' % (n, total))
            ctx.check(isinstance(ret[1], str), 'no message')
        st = sorted((k, len(v)) for k, v in got.items() if k.startswith(rdisk + '/'))
        ctx.state(st)
        ctx.outcome((n, len(got)))


def blocked(ctx, Copy, rdisk, rspell, lspell, files, sent):
    for name in sorted(sent):
        write(os.path.join(rdisk, name, 'inside'), b'keep')
        before = snapshot('.')
        try:
            ret = Copy(properties={'remote_directory': rspell}, local_files=list(files), local_directory=lspell).send()
        except Exception as e:
            ret = None
            ctx.outcome(type(e).__name__)
        ctx.op()
        ctx.check(ret is None, 'send returned %r although the directory %r is in the place of a file' % (ret, name))
        now = snapshot('.')
        for k, v in before.items():
            if k[len(rdisk) + 1:] not in sent and '.tmp_' not in k:
                ctx.check(now.get(k) == v, 'a refused send changed %r' % k)
        inside = os.path.join(rdisk, name)
        ctx.check(os.listdir(inside) == ['inside'], 'a refused send left %r in directory %r' % (os.listdir(inside), name))
        shutil.rmtree(rdisk)
    ctx.state(('blocked', sorted(sent)))
