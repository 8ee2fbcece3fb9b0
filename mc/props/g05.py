"""G05: Cities.fromGeoNames with the download, against a stand-in server."""
import io
import itertools
import os
import tempfile
import urllib.error
import urllib.request
import zipfile
from mc.swap import Swap
from mc.core import Violation
from mc.fsutil import CaseDir, snapshot
from impactutils.mapping.city import Cities
from impactutils.mapping.mapcity import MapCities

LEVEL = 'fault_enumeration'
RULE = ('all tables of 0..3 rows (and two of 1000 and 20000 rows) over 6 row kinds (usable, capital, without a plain name, broken in three ways) x both classes x stored / compressed archives with and without other members; '
        'every network fault (refused, lost while reading), the archive cut at every length, every third byte of the member damaged, archives without the table. The temporary directory is compared before and after every call.')
ASSUMPTIONS = ['the server is modelled by the archive it delivers (no network)']
KINDS = ['city', 'capital', 'noname', 'short', 'badlat', 'badpop']
GOOD = ('city', 'capital', 'noname')


def row(i, kind):
    lat, lon, pop = [(48.85341, 2.3488, 2138551), (-9.93, -84.08, 0), (0.0, 180.0, 1)][i % 3]
    p = [str(i), 'N\u00e4me', {'noname': '', 'capital': 'Cap %d' % i}.get(kind, 'Town %d' % i), 'alt', repr(lat), repr(lon), 'P', 'PPLC' if kind == 'capital' else 'PPL', 'CR', '', '', '', '', '', str(pop), '', '', 'UTC', '']
    if kind == 'short':
        p = p[:6]
    elif kind == 'badlat':
        p[4] = 'north'
    elif kind == 'badpop':
        p[14] = ''
    want = (p[2], 'CR', lat, lon, kind == 'capital', pop) if kind in ('city', 'capital') else None
    return '\t'.join(p) + '\n', want


def archive(text, comp=0, member='cities1000.txt', more=False):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED][comp]) as z:
        if more:
            z.writestr('readme.txt', 'not the table')
        if member:
            z.writestr(member, text.encode('utf-8'))
        if more:
            z.writestr('extra/cities1000.txt.bak', 'old')
    return b.getvalue()


def cases(tier):
    for n in range(4):
        for ks in itertools.product(KINDS, repeat=n):
            yield ['table', list(ks)]
    for n in (1000, 20000):
        yield ['large', n]
    for k in range(4):
        yield ['fault', k]
    n = len(archive(ok_table()[0]))
    for a in range(0, n, 60):
        yield ['cut', a, min(n, a + 60)]
    yield ['damage']


def ok_table():
    r = [row(i, k) for i, k in enumerate(('city', 'capital', 'noname'))]
    return ''.join(x for x, _ in r), [w for _, w in r if w]


class Resp(io.BytesIO):
    lost = False

    def read(self, *a):
        if self.lost:
            raise ConnectionResetError(104, 'Connection reset by peer')
        return super().read(*a)


def load(ctx, data, fault=None, kind=Cities):
    """one call; -> (rows or None, exception); checks that nothing stays behind"""
    def urlopen(url, *a, **k):
        url = url if isinstance(url, str) else url.full_url
        if 'geonames' not in url:
            raise Violation('data asked from %r' % url)
        if fault == 'refused':
            raise urllib.error.URLError('refused')
        r = Resp(data)
        r.lost = fault == 'lost'
        return r
    temp = tempfile.tempdir
    swap = Swap((urllib.request, 'urlopen', urlopen))
    swap.__enter__()
    os.makedirs('tmp', exist_ok=True)
    tempfile.tempdir = os.path.abspath('tmp')
    ctx.op()
    ctx.traces += 1
    try:
        c, err = kind.fromGeoNames(), None
    except Violation:
        raise
    except Exception as e:
        c, err = None, e
    finally:
        swap.__exit__()
        tempfile.tempdir = temp
    left = sorted(os.listdir('tmp')) + sorted(set(os.listdir('.')) - {'tmp'})
    ctx.check(not left, 'files left behind %s: %r' % ('after %r' % err if err else '', left))
    if c is None:
        return None, err
    ctx.check(type(c) is kind, '%r loaded' % type(c))
    df = c.getDataFrame()
    return [(r['name'], r['ccode'], float(r['lat']), float(r['lon']), bool(r['iscap']), int(r['pop'])) for _, r in df.iterrows()], None


def run(case, ctx):
    with CaseDir(ctx):
        globals()['do_' + case[0]](ctx, *case[1:])
    ctx.state(case)


def do_table(ctx, ks):
    r = [row(i, k) for i, k in enumerate(ks)]
    text, want = ''.join(x for x, _ in r), [w for _, w in r if w]
    bad = [k for k in ks if k not in GOOD]
    for comp, more, kind in itertools.product((0, 1), (False, True), (Cities, MapCities)):
        got, err = load(ctx, archive(text, comp, more=more), kind=kind)
        if bad:
            ctx.check(err is not None, 'broken rows %r read as %r' % (ks, got))
        else:
            ctx.check(err is None, 'rows %r: %r' % (ks, err))
            ctx.equal(got, want, 'cities of rows %r' % (ks,))
        ctx.outcome((tuple(ks), err is None))


def do_large(ctx, n):
    r = [row(i, GOOD[i % 7 % 3]) for i in range(n)]
    want = [w for _, w in r if w]
    for comp in (0, 1):
        got, err = load(ctx, archive(''.join(x for x, _ in r), comp))
        ctx.check(err is None, 'table of %d rows: %r' % (n, err))
        ctx.check(got == want, 'table of %d rows: %d cities instead of %d, or altered' % (n, len(got), len(want)))


def do_fault(ctx, k):
    text, want = ok_table()
    data, fault = [(archive(text), 'refused'), (archive(text), 'lost'), (archive(text, member=None, more=True), None), (archive(text, member='cities500.txt'), None)][k]
    for kind in (Cities, MapCities):
        got, err = load(ctx, data, fault, kind)
        ctx.check(err is not None, 'fault %d not reported: %r' % (k, got))
        # and the next attempt works
        ctx.equal(load(ctx, archive(text), None, kind), (want, None), 'cities after a fault')


def do_cut(ctx, a, b):
    text, want = ok_table()
    for n in range(a, b):
        got, err = load(ctx, archive(text)[:n])
        ctx.check(err is not None, 'archive cut after %d bytes not reported: %r' % (n, got))
        ctx.state(n)


def do_damage(ctx):
    text, want = ok_table()
    data = archive(text)
    off = data.index(text.encode('utf-8')[:20])
    for k in range(0, len(text.encode('utf-8')), 3):
        bad = bytearray(data)
        bad[off + k] ^= 1
        got, err = load(ctx, bytes(bad))
        ctx.check(err is not None, 'damaged byte %d not reported: %r' % (k, got))
        ctx.state(('d', k))
