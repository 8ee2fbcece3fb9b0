"""M05: get_recent_timezone_data against a stand-in release site."""
import io
import itertools
import os
import shutil
import tempfile
import urllib.request
import zipfile
from mc.swap import Swap
from mc.core import Violation
from mc.fsutil import CaseDir, snapshot, write
from impactutils.time import timeutils

LEVEL = 'fault_enumeration'
RULE = ('every release page of up to 3 anchors over 7 kinds (the data set relative or absolute, look-alike, source archive, plain link, no target) that holds or lacks the data set, x every archive layout (flat, one folder, '
        'nested, folder entries, large files, several folders, files beside folders, parent and absolute names; stored or compressed) x 6 states of the output directory; every network fault (page or archive '
        'refused, connection lost while reading either), the archive cut at every length and with every byte of the member data damaged. Downloads and deletions go to stand-ins that refuse to leave the output directory.')
ASSUMPTIONS = ['file names in one archive are distinct', 'the release site is modelled by its page and its archive (no network)']
SITE = 'https://github.com'
ASSET = '/evansiroky/timezone-boundary-builder/releases/download/2023b/timezones.shapefile.zip'
ANCHORS = {'rel': ASSET, 'abs': SITE + ASSET, 'like': ASSET.replace('timezones.', 'timezones-with-oceans.'), 'json': ASSET.replace('shapefile', 'geojson'),
           'src': '/evansiroky/timezone-boundary-builder/archive/refs/tags/2023b.zip', 'plain': '/about', 'none': None}
EXT = ['shp', 'shx', 'dbf', 'prj', 'cpg']


def files(prefixes):
    out = []
    for i, e in enumerate(EXT):
        out.append((prefixes[i % len(prefixes)] + 'combined-shapefile.' + e, ('%s data %d\n' % (e, i)).encode() * (20 + i)))
    return out


LAYOUTS = {
    'flat': files(['']),
    'folder': files(['dist/']),
    'entries': [('dist/', None)] + files(['dist/']),
    'nested': files(['a/b/']),
    'nestentries': [('a/', None), ('a/b/', None)] + files(['a/b/']),
    'two': files(['p/', 'q/']),
    'twonested': files(['p/x/', 'q/', '']),
    'beside': [('README.txt', b'read me')] + files(['dist/']),
    'beside2': files(['dist/']) + [('README.txt', b'read me')],
    'dot': files(['./dist/']),
    'parent': files(['../up/']),
    'parents': files(['../../../']),
    'absolute': files(['/abs/']),
    'justparent': files(['..//']),
    'lastentry': files(['dist/']) + [('dist/', None)],
    'emptydir': files(['']) + [('other/', None)],
}
LAYOUTS['large'] = [('dist/combined-shapefile.' + e, b''.join(b'%09d' % (i * 7 + j) for i in range(300000))) for j, e in enumerate(EXT)]
PRE = ['empty', 'other', 'same_folder', 'old', 'deep', 'similar']
OWN = ['out/combined-shapefile.' + e for e in EXT] + ['out/timezones.shapefile.zip']


def archive(layout, comp=0):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED][comp]) as z:
        for name, data in LAYOUTS[layout]:
            zi = zipfile.ZipInfo(name)
            zi.compress_type = [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED][comp]
            z.writestr(zi, data or b'')
    return b.getvalue()


def page(kinds):
    tags = []
    for k in kinds:
        h = ANCHORS[k]
        tags.append('<a class="x">none</a>' if h is None else '<li><a href="%s" rel="nofollow"><span>%s</span></a></li>' % (h, k))
    return ('<html><body><p>caf\xe9</p>%s</body></html>' % '\n'.join(tags)).encode('utf-8')


def cases(tier):
    for n in (0, 1, 2, 3):
        for ks in itertools.product(sorted(ANCHORS), repeat=n):
            if n < 3 or tier != 'quick' or len(set(ks)) == 3:
                yield ['page', list(ks)]
    for lay in sorted(LAYOUTS):
        for comp in (0, 1):
            for pre in PRE:
                yield ['layout', lay, comp, pre]
    for lay in ('flat', 'folder', 'entries'):
        for f in range(4):
            yield ['fault', lay, f]
        n = len(archive(lay))
        for a in range(0, n, 100 if tier == 'quick' else 40):
            yield ['cut', lay, a, min(a + (100 if tier == 'quick' else 40), n)]
        yield ['damage', lay]


class Resp(io.BytesIO):
    fail = False

    def read(self, *a):
        if self.fail:
            super().read(10)
            raise ConnectionResetError(104, 'Connection reset by peer')
        return super().read(*a)


class Site(object):
    """page, archive and the fault: None, 'page', 'archive' (refused), 'pageread', 'archiveread'"""

    def __init__(self, html, data, fault=None):
        self.html, self.data, self.fault, self.log = html, data, fault, []

    def urlopen(self, url, *a, **k):
        url = url if isinstance(url, str) else url.full_url
        self.log.append(url)
        what = 'page' if url.endswith('/releases/latest') else 'archive' if url == SITE + ASSET else None
        if what is None:
            r = Resp(archive('flat') if url.endswith('.zip') else b'<html></html>')     # some other archive, some other page
            self.wrong = True
            return r
        if self.fault == what:
            raise urllib.error.URLError('refused')
        r = Resp(self.html if what == 'page' else self.data)
        r.fail = self.fault == what + 'read'
        return r


class Guard(object):
    """deleting and moving stays below the output directory"""
    NAMES = [(shutil, 'rmtree'), (shutil, 'move'), (os, 'remove'), (os, 'unlink'), (os, 'rmdir'), (os, 'rename'), (os, 'replace')]

    def __init__(self, outdir):
        self.root, self.temp, self.bad = os.path.realpath(outdir), os.path.realpath(os.path.join(outdir, '..', 'temp')), []

    def __enter__(self):
        busy, pairs = [], []
        for m, n in self.NAMES:
            f = getattr(m, n)

            def wrap(*a, _f=f, _n=n, **k):
                paths = [p for p in a[:2] if isinstance(p, (str, bytes, os.PathLike))] if _n in ('move', 'rename', 'replace') else list(a[:1])
                if not busy:
                    for p in paths:
                        if isinstance(p, int):
                            continue
                        q = os.path.realpath(os.fspath(p))
                        if not q.startswith((self.root + os.sep, self.temp + os.sep)) and not (_n == 'move' and q == self.root):
                            self.bad.append('%s(%s)' % (_n, p))
                            raise PermissionError(1, 'refused by the check', str(p))
                busy.append(1)
                try:
                    return _f(*a, **k)
                finally:
                    busy.pop()
            pairs.append((m, n, wrap))
        self.swap = Swap(*pairs)
        self.swap.__enter__()
        return self

    def __exit__(self, *a):
        self.swap.__exit__()


def prepare(pre):
    os.mkdir('out')
    write('beside.txt', b'not part of the output')
    write('up/keep.txt', b'not part of the output either')
    if pre == 'other':
        write('out/mine.txt', b'mine')
    elif pre == 'same_folder':
        write('out/dist/mine.txt', b'mine')
        write('out/a/mine.txt', b'mine')
        write('out/p/x/mine.txt', b'mine')
    elif pre == 'old':
        for e in EXT:
            write('out/combined-shapefile.' + e, b'old' * 1000)
        write('out/timezones.shapefile.zip', b'old')
    elif pre == 'deep':
        write('out/k/l/m.txt', b'mine')
    elif pre == 'similar':
        for n in ('combined-shapefile.sbn', 'combined-shapefile.shp.xml', 'combined-shapefile-with-oceans.shp', 'combined-shapefile', 'mine.zip', 'timezones.geojson.zip',
                  'my timezones.shapefile.zip', 'dist.shp', '.hidden', 'tmp'):
            write('out/' + n, b'mine')
    return snapshot('.')


def fetch(ctx, site):
    out = os.path.abspath('out')
    swap = Swap((urllib.request, 'urlopen', site.urlopen))
    swap.__enter__()
    os.makedirs('temp', exist_ok=True)
    keep, tempfile.tempdir = tempfile.tempdir, os.path.abspath('temp')
    ctx.op()
    ctx.traces += 1
    try:
        with Guard(out) as g:
            try:
                return timeutils.get_recent_timezone_data(out), None, g
            except Exception as e:
                return None, e, g
    finally:
        swap.__exit__()
        tempfile.tempdir = keep
        if not os.listdir('temp'):
            os.rmdir('temp')


def run(case, ctx):
    with CaseDir(ctx):
        globals()['do_' + case[0]](ctx, *case[1:])
    ctx.state(case)


def kept(ctx, before, g, what):
    ctx.check(not g.bad, '%s: touches what is not its own: %s' % (what, g.bad))
    now = snapshot('.')
    for k, v in before.items():
        if k in OWN or (k == 'out/README.txt' and 'beside' in what):
            continue
        if now.get(k) != v:
            raise Violation('%s: earlier file %s is %s' % (what, k, 'gone' if k not in now else 'changed'))
    return now


def good(ctx, lay, before, res, err, g, what):
    now = kept(ctx, before, g, what)
    ctx.check(err is None, '%s: fails with %r' % (what, err))
    ctx.check(isinstance(res, (str, os.PathLike)) and os.path.realpath(res) == os.path.realpath('out/combined-shapefile.shp'), '%s: returned %r' % (what, res))
    for name, data in LAYOUTS[lay]:
        if data is None:
            continue
        p = os.path.join('out', os.path.basename(name))
        if now.get(p) != data:
            raise Violation('%s: %s is %s' % (what, p, 'missing' if p not in now else 'wrong'))
    allowed = {os.path.join('out', os.path.basename(n)) for n, d in LAYOUTS[lay]} | set(before) | {'out/timezones.shapefile.zip'}
    ctx.check(set(now) <= allowed, '%s: leaves extra files %r' % (what, sorted(set(now) - allowed)))
    ctx.outcome((what.split()[0], len(now)))


def do_page(ctx, kinds):
    before = prepare('other')
    site = Site(page(kinds), archive('folder', 1))
    res, err, g = fetch(ctx, site)
    what = 'page %r' % (kinds,)
    if 'rel' in kinds or 'abs' in kinds:
        good(ctx, 'folder', before, res, err, g, what)
        ctx.check(site.log[1:] == [SITE + ASSET], '%s: downloaded %r' % (what, site.log))
    else:
        ctx.check(err is not None, '%s: no data set on the page, yet %r was returned (downloaded %r)' % (what, res, site.log))
        kept(ctx, before, g, what)


def do_layout(ctx, lay, comp, pre):
    before = prepare(pre)
    res, err, g = fetch(ctx, Site(page(['plain', 'like', 'rel', 'src']), archive(lay, comp)))
    good(ctx, lay, before, res, err, g, 'layout %s with %s output directory' % (lay, pre))


def do_fault(ctx, lay, f):
    f = ['page', 'archive', 'pageread', 'archiveread'][f]
    for pre in PRE:
        shutil.rmtree('out', ignore_errors=True)
        before = prepare(pre)
        res, err, g = fetch(ctx, Site(page(['rel']), archive(lay), f))
        ctx.check(err is not None, 'network fault (%s) not reported, %r returned' % (f, res))
        kept(ctx, before, g, 'network fault (%s)' % f)
        ctx.outcome(f)


def do_cut(ctx, lay, a, b):
    data = archive(lay)
    for n in range(a, b):
        shutil.rmtree('out', ignore_errors=True)
        before = prepare('other')
        res, err, g = fetch(ctx, Site(page(['rel']), data[:n]))
        ctx.check(err is not None, 'archive cut after %d of %d bytes not reported, %r returned' % (n, len(data), res))
        kept(ctx, before, g, 'archive cut after %d bytes' % n)
        ctx.state(n)


def do_damage(ctx, lay):
    data = archive(lay)
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        spans = [(i.header_offset + 30 + len(i.filename), i.file_size) for i in z.infolist()]
    for off, n in spans:
        for k in range(0, n, 7):
            bad = bytearray(data)
            bad[off + k] ^= 1
            shutil.rmtree('out', ignore_errors=True)
            before = prepare('other')
            res, err, g = fetch(ctx, Site(page(['rel']), bytes(bad)))
            ctx.check(err is not None, 'damaged byte %d of a member not reported, %r returned' % (k, res))
            kept(ctx, before, g, 'damaged byte %d' % k)
