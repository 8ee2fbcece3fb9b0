"""M04: LocalTime / LocalTimeNE."""
import datetime
import itertools
import warnings
import fiona
import pytz
from shapely.geometry import shape, Point, box, Polygon, MultiPolygon, mapping
from mc.core import Violation
from mc.fsutil import CaseDir
from mc.zones import offset, instants
from impactutils.time.timeutils import LocalTime, LocalTimeNE
import impactutils

LEVEL = 'model_checking'
RULE = ('10 synthetic zone maps (adjacent, enclave in a hole, multi-part, across the antimeridian, across Greenwich and the equator off centre, triangle, southern, overlapping order, polar, empty) x a lattice of '
        'places (inside every part, in holes, outside, high latitudes) x an instant, and one place per zone x every instant around every clock change '
        'of 2015-2016; all update histories of depth 1..3 over 5 places and 2 instants; nautical offsets for every half degree of longitude; '
        'the shipped Natural Earth zones on a lattice of places x summer/winter instants. Oracle: clock rules written here, even-odd containment in '
        'longitude/latitude; zone assignments within 0.2 degrees of a border are not judged.')
ASSUMPTIONS = ['zone polygons are densely digitised and at most 60 degrees wide per part (they are tested in a projected plane)',
               'exact midpoints between nautical meridians may go either way']
T0 = datetime.datetime(2016, 7, 1, 12)


def dense(p):
    return p.segmentize(0.5)


def maps():
    hole = Polygon([(0, 0), (20, 0), (20, 20), (0, 20)], [[(5, 5), (5, 10), (10, 10), (10, 5)]])
    am = MultiPolygon([box(170, -50, 180, -30), box(-180, -50, -170, -30)])
    return {
        'adjacent': [('Europe/London', box(-10, 40, 0, 60)), ('Asia/Kolkata', box(0, 40, 12, 60)), ('America/New_York', box(12, 40, 20, 60))],
        'enclave': [('Europe/London', hole), ('Asia/Kathmandu', box(5, 5, 10, 10))],
        'multi': [('America/St_Johns', MultiPolygon([box(-60, 45, -50, 55), box(-40, 45, -35, 50)])), ('Etc/UTC', box(-50, 45, -40, 50))],
        'dateline': [('Pacific/Auckland', am), ('Australia/Lord_Howe', box(150, -50, 160, -30))],
        'triangle': [('America/New_York', Polygon([(-80, 0), (-60, 0), (-70, 20)]))],
        'south': [('Australia/Lord_Howe', box(150, -35, 165, -25)), ('Pacific/Auckland', box(165, -48, 178, -34))],
        'order': [('Asia/Kolkata', box(70, 10, 80, 20)), ('Asia/Kathmandu', box(75, 10, 85, 20))],
        'polar': [('Europe/London', box(0, 70, 30, 80)), ('America/New_York', box(-60, -85, -30, -70))],
        'straddle': [('Europe/London', box(-3, 40, 12, 60)), ('Asia/Kolkata', box(40, -5, 60, 20)), ('America/New_York', MultiPolygon([box(-14, -20, 1, 10), box(8, 0.5, 15, 12)]))],
        'empty': [],
    }


MAPS = maps()
LATS = [-84, -75, -45.3, -40, -30.7, -12, -0.3, 2.2, 7.5, 9, 15, 18.5, 42, 46, 50, 52, 57.25, 75, 79, 88]
LONS = [-179.7, -175, -171, -160, -95, -75, -70.2, -65, -55, -50.5, -45, -38, -31, -7, -0.5, 0.5, 2, 7.5, 9, 14, 19, 25, 44, 72, 77, 83, 152.3, 158, 164, 168, 172, 179.7]


def cases(tier):
    q = tier == 'quick'
    for m in sorted(MAPS):
        for la in LATS:
            yield ['map', m, la]
        for i in range(len(MAPS[m])):
            yield ['clock', m, i]
    for lon in range(-180, 180, 10):
        yield ['naut', lon]
    for d in (1, 2, 3):
        for h in itertools.product(range(5), repeat=d):
            yield ['hist', list(h)]
    for lat in ([-81.3, -57.2, -33.2, -10.3, 15.3, 40.4, 62.5, 78.2] if q else [-89, -85.3, -75, -66.5, -57.2, -45, -33.2, -22, -10.3, -1, 6, 15.3, 24, 33, 40.4, 48, 55, 62.5, 70, 78.2, 84]):
        for lon in (range(-180, 180, 20) if q else range(-180, 180, 5)):
            yield ['ne', lat, lon + 0.37]


def write_map(name):
    feats = MAPS[name]
    fn = name + '.shp'
    with fiona.open(fn, 'w', driver='ESRI Shapefile', schema={'geometry': 'Polygon', 'properties': {'tzid': 'str'}}, crs='EPSG:4326') as c:
        for tz, g in feats:
            c.write({'geometry': mapping(dense(g)), 'properties': {'tzid': tz}})
    return fn


def inring(ring, x, y):
    c = False
    pts = list(ring.coords)
    for (x1, y1), (x2, y2) in zip(pts, pts[1:]):
        if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
            c = not c
    return c


def inside(g, x, y):
    for p in (g.geoms if hasattr(g, 'geoms') else [g]):
        if inring(p.exterior, x, y) != (sum(inring(r, x, y) for r in p.interiors) % 2 == 1):
            return True
    return False


def expect(feats, lat, lon):
    """zone name, or None; 'skip' when too close to a border to judge"""
    for tz, g in feats:
        if g.boundary.distance(Point(lon, lat)) < 0.2:
            return 'skip'
    for tz, g in feats:
        if inside(g, lon, lat):
            return tz
    return None


def judge(ctx, lt, zone, t, lat, lon):
    ctx.op(3)
    off = lt.getUTCOffset()
    ctx.check(isinstance(off, datetime.timedelta), 'offset at %r %r is %r, not a time span' % (lat, lon, off))
    if zone is None:
        if (lon / 7.5) % 2 == 1:
            ctx.check(off.total_seconds() / 3600 in (lon / 15 - 0.5, lon / 15 + 0.5), 'nautical offset at %r is %r' % (lon, off))
        else:
            k = min(range(-12, 13), key=lambda h: abs(h * 15 - lon))
            ctx.equal(off, datetime.timedelta(hours=k), 'nautical offset at longitude %r' % lon)
        names = [z for z in MAPS_NAMES]
        ctx.check(lt.getTimeZone() not in names, 'nautical time reported as zone %r at %r %r' % (lt.getTimeZone(), lat, lon))
    else:
        ctx.equal(off, offset(zone, t), 'offset at %r %r at %s (zone %s)' % (lat, lon, t, zone))
        ctx.equal(lt.getTimeZone(), zone, 'zone name at %r %r' % (lat, lon))
    ctx.equal(lt.getLocalTime(), t + off, 'local time at %r %r' % (lat, lon))
    ctx.outcome((zone, off))


MAPS_NAMES = sorted({tz for v in MAPS.values() for tz, _ in v})


def run(case, ctx):
    warnings.simplefilter('ignore')
    with CaseDir(ctx):
        globals()['do_' + case[0]](ctx, *case[1:])


def do_map(ctx, name, lat):
    fn = write_map(name)
    lt = None
    for lon in LONS:
        zone = expect(MAPS[name], lat, lon)
        if zone == 'skip':
            ctx.count('near_border_skipped')
            continue
        if lt is None:
            lt = LocalTime(fn, T0, lat, lon)
        else:
            lt.update(T0, lat, lon)
        judge(ctx, lt, zone, T0, lat, lon)
        ctx.traces += 1
        ctx.state((name, lat, lon))


def do_clock(ctx, name, i):
    fn = write_map(name)
    tz, g = MAPS[name][i]
    for p in (g.geoms if hasattr(g, 'geoms') else [g]):
        c = p.representative_point()
        if expect(MAPS[name], c.y, c.x) != tz:
            c = Point(p.bounds[0] + 1, p.bounds[1] + 1)
        if expect(MAPS[name], c.y, c.x) != tz:
            ctx.count('no_place')
            continue
        lt = LocalTime(fn, T0, c.y, c.x)
        for t in instants(ctx.tier != 'quick'):
            lt.update(t, c.y, c.x)
            judge(ctx, lt, tz, t, c.y, c.x)
            ctx.traces += 1
        ctx.state((name, i, c.x))


def do_naut(ctx, lon0):
    fn = write_map('triangle')
    lt = None
    for k in range(0, 41):
        lon = lon0 + k / 4
        lt = LocalTime(fn, T0, -20.5, lon) if lt is None or k % 8 == 0 else lt
        lt.update(T0, -20.5, lon)
        judge(ctx, lt, None, T0, -20.5, lon)
        ctx.traces += 1
        ctx.state(('n', lon))


STEPS = [('south', 30, -30, 157, T0), ('south', 30, -40, 170, T0), ('south', 0, -40, 170, datetime.datetime(2016, 1, 1)), ('south', 0, 10, 100, T0), ('south', 0, -30, 157, datetime.datetime(2016, 1, 1))]


def do_hist(ctx, h):
    fn = write_map('south')
    lt = None
    for i in h:
        _, _, lat, lon, t = STEPS[i]
        if lt is None:
            lt = LocalTime(fn, t, lat, lon)
        else:
            lt.update(t, lat, lon)
        judge(ctx, lt, expect(MAPS['south'], lat, lon), t, lat, lon)
    ctx.state(h)


NE = []


def do_ne(ctx, lat, lon):
    import os
    if not NE:
        with fiona.open(os.path.join(os.path.dirname(impactutils.__file__), 'data', 'ne_10m_time_zones.shp')) as c:
            for f in c:
                NE.append((shape(f['geometry']), f['properties']['tz_name1st'], f['properties']['zone']))
    pt = Point(lon, lat)
    hits = []
    for g, tz, z in NE:
        xmin, ymin, xmax, ymax = g.bounds
        if lat < ymin - 1 or lat > ymax + 1 or lon < xmin - 1 or lon > xmax + 1:
            continue
        if g.boundary.distance(pt) < 0.2:
            ctx.count('near_border_skipped')
            return
        if g.contains(pt):
            hits.append((tz, z))
    lt = None
    for t in (datetime.datetime(2016, 1, 15, 3), datetime.datetime(2016, 7, 15, 21), datetime.datetime(2016, 11, 6, 1, 30)):
        if lt is None:
            lt = LocalTimeNE(t, lat, lon)
        else:
            lt.update(t, lat, lon)
        ctx.op(3)
        off = lt.getUTCOffset()
        ctx.check(isinstance(off, datetime.timedelta), 'offset is %r' % (off,))
        ctx.equal(lt.getLocalTime(), t + off, 'local time')
        if not hits:
            want = [datetime.timedelta(hours=min(range(-12, 13), key=lambda h: abs(h * 15 - lon)))]
        else:
            want = []
            for tz, z in hits[:1]:
                try:
                    zone = pytz.timezone(tz)
                    want.append(pytz.utc.localize(t).astimezone(zone).utcoffset())
                    ctx.equal(lt.getTimeZone(), tz, 'zone name at %r %r' % (lat, lon))
                except (pytz.UnknownTimeZoneError, AttributeError):
                    want.append(datetime.timedelta(hours=z))
        ctx.check(off in want, 'Natural Earth offset at %r %r at %s: %r, expected %r (%r)' % (lat, lon, t, off, want, hits))
        ctx.traces += 1
        ctx.outcome((off, lt.getTimeZone()))
    ctx.state((lat, lon))
