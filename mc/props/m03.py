"""M03: TimeConversion on small rasters."""
import datetime
import itertools
import json
import math
import numpy as np
from PIL import Image
from mc.swap import Swap
from mc.core import Violation
from mc.fsutil import CaseDir
from mc.zones import NAMES, offset, sources, instants
from impactutils.time.timeutils import TimeConversion
from impactutils.exceptions import RequiredArgumentError, UnsupportedArgumentError

LEVEL = 'exploration'
RULE = ('rasters of 1..4 x 1..5 cells, 5 resolutions, placed in both hemispheres, globally, and across the antimeridian, pixel types 8/16/32 bit; every cell distinct from its neighbours; every '
        'coordinate on a quarter-cell lattice reaching one cell beyond every border (centres, edges, corners, outside), all three rounding methods; every '
        'instant around every clock change of 2015-2016 for every zone, to local time and back; every missing argument; invalid rounding names; '
        'the documented default world raster with the shipped zone codes (raster file supplied by a stand-in), every seventh row and column. '
        'Oracle: rational cell arithmetic and clock rules written here.')
ASSUMPTIONS = ['coordinates are exactly representable (cell edges are decided without floating-point ambiguity); fractional decimal resolutions are checked inside cells',
               'a coordinate outside the raster uses the nearest border cell, as documented']
PLACES = [(0, 0), (-180, 90), (10, -20), (-100, 5), (176, 10), (178, -10)]


def cases(tier):
    for r, c in itertools.product((1, 2, 3, 4), (1, 2, 3, 4, 5)):
        for res in ((1, 1), (0.5, 0.25), (2, 4), (0.02, 0.02), (0.1, 0.3)):
            for pl in range(len(PLACES)):
                for mode in ((0, 1, 2) if (r, c) == (2, 3) else (0,)):
                    yield ['cells', r, c, list(res), pl, mode]
    yield ['global', 10]
    yield ['global', 5]
    for z in NAMES:
        yield ['clock', z]
    for m in range(16):
        yield ['missing', m]
    yield ['rounding']
    for w, c, d in itertools.product((80, 100, 140, 170, 178), (2, 3, 5), (20, 40, 0.5)):
        if 180 < w + c * d < 360 + w:
            yield ['around', w, c, d]
    yield ['default', 'lon']
    yield ['default', 'lat']


def build(r, c, res, ul, mode=0, names=NAMES, wrap=True):
    """ul = (west, north). Returns conversion object and the code matrix."""
    codes = {n: (7 * i + 3) % 101 for i, n in enumerate(names)}
    m = np.zeros((r, c), dtype=[np.uint8, np.uint16, np.int32][mode])
    zone = [[names[(i * 3 + j) % len(names)] for j in range(c)] for i in range(r)]
    for i in range(r):
        for j in range(c):
            m[i, j] = codes[zone[i][j]]
    Image.fromarray(m).save('z.tif')
    with open('z.json', 'w') as f:
        json.dump(codes, f)
    w, n = ul
    e, s = w + c * res[0], n - r * res[1]
    if e > 180 and wrap:
        e -= 360
    ext = {'Upper Left': (w, n), 'Lower Left': (w, s), 'Upper Right': (e, n), 'Lower Right': (e, s)}
    return TimeConversion('z.tif', (r, c), ext, res, 'z.json'), zone


def index(x, n, how):
    """x in cells from the border; documented rounding, clamped to the raster."""
    x = min(max(x, 0), n)
    if how == 'floor':
        k = math.floor(x)
    elif how == 'ceil':
        k = math.ceil(x)
    else:
        f = math.floor(x)
        d = x - f
        k = f if d < 0.5 else f + 1 if d > 0.5 else f + (f % 2)
    return min(k, n - 1)


def run(case, ctx):
    with CaseDir(ctx):
        globals()['do_' + case[0]](ctx, *case[1:])


def do_cells(ctx, r, c, res, pl, mode):
    w, n = PLACES[pl]
    exact = all(math.log2(x) == int(math.log2(x)) for x in res)
    conv, zone = build(r, c, tuple(res), (w, n), mode)
    t = datetime.datetime(2016, 7, 1, 12)
    lattice = [k / 4 for k in range(-4, 4 * c + 5)] if exact else [k + f for k in range(-1, c + 1) for f in (0.25, 0.45, 0.75)]
    latt_r = [k / 4 for k in range(-4, 4 * r + 5)] if exact else [k + f for k in range(-1, r + 1) for f in (0.25, 0.45, 0.75)]
    for y, x in itertools.product(latt_r, lattice):
        lat, lon = n - y * res[1], w + x * res[0]
        if lon >= 180 and w + c * res[0] > 180:
            lon -= 360
        if lon < -180:
            continue
        for how in ('floor', 'ceil', 'round'):
            want = zone[index(y, r, how)][index(x, c, how)]
            ctx.transitions += 3
            got = conv.get_timezone_code(lat, lon, how)
            if got != want:
                raise Violation('zone at lat %r lon %r (%s), raster %dx%d res %r from %r: got %r, expected %r' % (lat, lon, how, r, c, res, PLACES[pl], got, want))
            loc = conv.to_localtime(t, lat, lon, how)
            if loc.replace(tzinfo=None) != t + offset(want, t):
                raise Violation('local time at lat %r lon %r (%s): %r in %s' % (lat, lon, how, loc, want))
            back = conv.to_utctime(loc.replace(tzinfo=None), lat, lon, how)
            if back.replace(tzinfo=None) != t or back.utcoffset().total_seconds():
                raise Violation('back to universal time at lat %r lon %r (%s): %r' % (lat, lon, how, back))
            ctx.traces += 1
            ctx.outcome(want)
        ctx.equal(conv.get_timezone_code(lat, lon), zone[index(y, r, 'floor')][index(x, c, 'floor')], 'default rounding')
    ctx.state((r, c, res, pl, mode))


def do_global(ctx, step):
    r, c = 160 // step, 360 // step
    conv, zone = build(r, c, (float(step), float(step)), (-180., 80.), 1, wrap=False)
    for lat in [x / 2 for x in range(-182, 183, 3)]:
        for lon in [x / 2 for x in range(-360, 361, 3)]:
            want = zone[index((80 - lat) / step, r, 'floor')][index((lon + 180) / step, c, 'floor')]
            ctx.transitions += 1
            ctx.traces += 1
            if conv.get_timezone_code(lat, lon) != want:
                raise Violation('global raster at %r %r' % (lat, lon))
    ctx.state(('global', step))


def do_clock(ctx, z):
    names = [z] + [n for n in NAMES if n != z]
    conv, zone = build(1, 2, (1, 1), (0, 0), 0, names)
    for t in instants(True):
        want = t + offset(z, t)
        ctx.op(2)
        ctx.traces += 1
        loc = conv.to_localtime(t, -0.5, 0.5)
        ctx.equal((loc.replace(tzinfo=None), loc.utcoffset()), (want, offset(z, t)), 'local time in %s of %s' % (z, t))
        back = conv.to_utctime(want, -0.5, 0.5)
        src = sources(z, want)
        assert t in src
        if len(src) == 1:
            ctx.equal(back.replace(tzinfo=None), t, 'universal time of local %s in %s' % (want, z))
        else:
            ctx.check(back.replace(tzinfo=None) in src, 'universal time of repeated local %s in %s: %s' % (want, z, back))
            ctx.count('ambiguous')
        ctx.equal(back.utcoffset(), datetime.timedelta(0), 'offset of the universal time')
        ctx.outcome(loc.utcoffset())
    ctx.state(z)


def do_missing(ctx, m):
    build(1, 1, (1, 1), (0, 0))
    full = dict(raster_shape=(1, 1), extents={'Upper Left': (0, 0), 'Lower Left': (0, -1), 'Upper Right': (1, 0), 'Lower Right': (1, -1)},
                resolution=(1, 1), timezone_coding='z.json')
    kw = {k: v for i, (k, v) in enumerate(sorted(full.items())) if not m >> i & 1}
    ctx.op()
    ctx.state(m)
    try:
        TimeConversion('z.tif', **kw)
    except RequiredArgumentError:
        ctx.check(m, 'complete arguments refused')
        return
    ctx.check(not m, 'missing arguments %r accepted' % sorted(set(full) - set(kw)))


def do_around(ctx, w, c, d):
    # a raster across the antimeridian: every coordinate of the world, outside ones use the border that is nearer
    conv, zone = build(2, c, [d, 10], (w, 10))
    t = datetime.datetime(2016, 7, 1, 12)
    for lat in (5.5, -5.5):
        for k in range(-720, 720):
            lon = k / 4 + 1 / 16
            x = lon % 360
            while x < w:
                x += 360
            east, west = x - (w + c * d), w + 360 - x
            if east > 0 and abs(east - west) < 1:
                continue
            j = min(int((x - w) // d), c - 1) if east <= 0 or east < west else 0
            z = zone[0 if lat > 0 else 1][j]
            ctx.transitions += 1
            got = conv.to_localtime(t, lat, lon)
            got = got.replace(tzinfo=None)
            want = t + offset(z, t)
            ctx.check(got == want, 'raster from %s, %d x %s degrees: (%s, %s) gives %s, zone %s has %s' % (w, c, d, lat, lon, got, z, want))
    ctx.outcome((w, c))


def do_rounding(ctx):
    conv, _ = build(2, 2, (1, 1), (0, 0))
    t = datetime.datetime(2016, 7, 1)
    for bad in ('', 'Floor', 'nearest', None, 'floor, ceil, round'):
        for fn in (lambda: conv.get_timezone_code(-0.5, 0.5, bad), lambda: conv.to_localtime(t, -0.5, 0.5, bad), lambda: conv.to_utctime(t, -0.5, 0.5, bad)):
            ctx.op()
            try:
                fn()
            except UnsupportedArgumentError:
                continue
            raise Violation('rounding method %r accepted' % (bad,))
    ctx.state('rounding')


def do_default(ctx, axis):
    """no arguments: the documented world raster (8150 x 18000 cells of 0.02 degrees, 83 north to 80 south) with the shipped zone codes"""
    import os
    import PIL.Image
    import impactutils
    with open(os.path.join(os.path.dirname(impactutils.__file__), 'data', 'country-time-codes.json')) as f:
        codes = json.load(f)
    names = sorted(codes)
    n = len(names)
    shape = (8150, 18000)
    line = np.array([codes[names[i % n]] for i in range(shape[0] if axis == 'lat' else shape[1])], dtype=np.int16)
    world = np.broadcast_to(line[:, None] if axis == 'lat' else line[None, :], shape)
    asked = []

    class Raster(object):
        size, mode = shape[::-1], 'I;16'

        def __array__(self, dtype=None):
            return world if dtype is None else world.astype(dtype)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def load(self):
            pass
        close = load

    def fake(fp, *a, **k):
        asked.append(str(fp))
        return Raster()
    with Swap((PIL.Image, 'open', fake)):
        conv = TimeConversion()
    ctx.check([os.path.basename(a) for a in asked] == ['combined-raster-with-oceans002.tif'], 'default raster read from %r' % asked)
    t = datetime.datetime(2016, 7, 1, 12)
    for k in range(0, len(line), 7):
        if axis == 'lat':
            lat, lon = 83 - (k + 0.5) / 50, 12.34
        else:
            lat, lon = 12.34, -180 + (k + 0.5) / 50
        ctx.op()
        ctx.traces += 1
        if conv.get_timezone_code(lat, lon) != names[k % n]:
            raise Violation('default raster at %r %r: %r, expected %r' % (lat, lon, conv.get_timezone_code(lat, lon), names[k % n]))
    for lat, lon in ((89, 0.01), (-89.5, 0.01), (10.01, 180), (10.01, -180)):
        want = names[(0 if lat > 83 else 8149) % n if axis == 'lat' and abs(lat) > 80 else 3649 % n if axis == 'lat' else (17999 if lon == 180 else 0 if lon == -180 else 9000) % n]
        ctx.op()
        ctx.equal(conv.get_timezone_code(lat, lon), want, 'default raster at %r %r' % (lat, lon))
    # every shipped code can be converted
    if axis == 'lon':
        for k in range(n):
            lon = -180 + (k + 0.5) / 50
            loc = conv.to_localtime(t, 12.34, lon)
            ctx.op(2)
            ctx.check(conv.to_utctime(loc.replace(tzinfo=None), 12.34, lon).replace(tzinfo=None) == t, 'round trip in %s' % names[k])
            ctx.outcome(names[k])
    ctx.state(('default', axis))
