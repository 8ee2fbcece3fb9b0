"""V03: great-circle distance, azimuth and geographic points (vendored helpers)."""
import copy
import itertools
import math
import numpy as np
from mc.core import Violation
from impactutils.extern.openquake import geodetic as G
from impactutils.extern.openquake.point import Point

LEVEL = 'exploration'
RULE = ('all ordered pairs of a lattice of places (latitudes by 15 degrees with both poles, longitudes by 15 degrees with both spellings of 180; thorough 7.5) plus close '
        'neighbours (1e-7 .. 1 degree) of every place: distance and azimuth as Python numbers, 0-d, 1-d and 2-d arrays, one place against many, other diameters; the same places with '
        'longitudes written 360 degrees off; all pairs of depths for the combined distance; mismatched shapes; point objects: every coordinate inside, on and just outside the limits, '
        'movement by every azimuth and distance of an alphabet, proximity and spacing against every other place. Oracle: vector geometry on the unit sphere.')
ASSUMPTIONS = ['sphere of 6371 km', 'the azimuth from a pole, between antipodes and between equal places is not judged',
               'distances within 0.1 millimetre (1 metre near the antipode, where the formula is ill-conditioned)']
R = 6371.0
NEAR = [(1e-7, 0), (0, 1e-7), (1e-4, -1e-4), (-1e-2, 2e-2), (0.5, 0.5), (-1, 0), (0, 1)]
DEP = [-8.0, 0.0, 0.001, 10.0, 700.0]


def lattice(tier):
    s = 15 if tier == 'quick' else 7.5
    la = list(np.arange(-90, 90.1, s))
    lo = list(np.arange(-180, 180.1, s))
    return [(float(a), float(b)) for a in la for b in lo]


def cases(tier):
    for p in lattice(tier):
        yield ['from', p[0], p[1]]
    yield ['shapes']
    for lo in (-180.0, -90.0, 0.0, 179.999):
        yield ['limits', lo]
    for la in (-80.0, -30.0, 0.0, 45.0, 75.0):
        for lo in (-180.0, -90.5, 0.0, 179.5, 180.0):
            yield ['point', la, lo]


def unit(la, lo):
    a, o = math.radians(la), math.radians(lo)
    return (math.cos(a) * math.cos(o), math.cos(a) * math.sin(o), math.sin(a))


def arc(p, q):
    u, v = unit(*p), unit(*q)
    c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    return math.atan2(math.sqrt(sum(x * x for x in c)), sum(x * y for x, y in zip(u, v)))


def bearing(p, q):
    a, o = math.radians(p[0]), math.radians(p[1])
    e = (-math.sin(o), math.cos(o), 0.0)
    n = (-math.sin(a) * math.cos(o), -math.sin(a) * math.sin(o), math.cos(a))
    v = unit(*q)
    return math.degrees(math.atan2(sum(x * y for x, y in zip(e, v)), sum(x * y for x, y in zip(n, v)))) % 360


def near_km(got, want_rad, diameter=2 * R):
    tol = 1e-7 if want_rad < 3.1 else 1e-3
    want = diameter / 2 * want_rad
    return math.isfinite(got) and abs(got - want) <= tol * diameter / 2 / R + 1e-11 * want


def near_az(got, want, tol, rounded=True):
    # 360.0 itself only as the rounding of a course a hair west of north
    d = abs(got - want) % 360
    return 0 <= got and (got < 360 or rounded and got == 360) and min(d, 360 - d) <= tol


def az_judged(p, q):
    a = arc(p, q)
    return abs(p[0]) < 89.999 and a > 1e-10 and math.pi - a > 1e-6


def aztol(p, q):
    a = math.sin(arc(p, q))
    return 1e-8 + 1e-13 / max(a, 1e-12)


def call(ctx, what, fn, *a, **k):
    ctx.op()
    return fn(*a, **k)


def run(case, ctx):
    globals()['do_' + case[0]](ctx, *case[1:])
    ctx.state(case)


def do_from(ctx, la, lo):
    p = (la, lo)
    others = lattice(ctx.tier) + [(la + a, lo + o) for a, o in NEAR if abs(la + a) <= 90 and abs(lo + o) <= 180]
    lons2 = np.array([q[1] for q in others])
    lats2 = np.array([q[0] for q in others])
    keep = lons2.copy(), lats2.copy()
    d = call(ctx, 'geodetic_distance', G.geodetic_distance, lo, la, lons2, lats2)
    z = call(ctx, 'azimuth', G.azimuth, lo, la, lons2, lats2)
    dr = call(ctx, 'reverse', G.geodetic_distance, lons2, lats2, lo, la)
    shift = call(ctx, '360', G.geodetic_distance, lo + 360, la, lons2 - 360, lats2)
    zs = call(ctx, '360', G.azimuth, lo - 360, la, lons2 + 360, lats2)
    dia = call(ctx, 'diameter', G.geodetic_distance, lo, la, lons2, lats2, 2.0)
    for a in (d, z, dr, shift, dia):
        if np.shape(a) != (len(others),):
            raise Violation('one place against %d gives shape %r' % (len(others), np.shape(a)))
    if not (np.array_equal(lons2, keep[0]) and np.array_equal(lats2, keep[1])):
        raise Violation('the coordinate arrays were altered')
    for i, q in enumerate(others):
        ctx.traces += 1
        w = arc(p, q)
        for name, g, di in (('distance', d[i], 2 * R), ('reverse distance', dr[i], 2 * R), ('distance with longitudes 360 off', shift[i], 2 * R), ('distance for diameter 2', dia[i], 2.0)):
            if not near_km(float(g), w, di):
                raise Violation('%s %r - %r: %r, expected %r' % (name, p, q, float(g), w * di / 2))
        if az_judged(p, q):
            for name, g in (('azimuth', z[i]), ('azimuth with longitudes 360 off', zs[i])):
                if not near_az(float(g), bearing(p, q), aztol(p, q) + (0 if name == 'azimuth' else 1e-6), p[1] != q[1] or name != 'azimuth'):
                    raise Violation('%s %r -> %r: %r, expected %r' % (name, p, q, float(g), bearing(p, q)))
    # scalars, and depths
    for q in others[::7]:
        g = float(call(ctx, 'scalar', G.geodetic_distance, p[1], p[0], q[1], q[0]))
        if not near_km(g, arc(p, q)):
            raise Violation('distance of numbers %r - %r: %r' % (p, q, g))
        if az_judged(p, q):
            g = float(call(ctx, 'scalar', G.azimuth, p[1], p[0], q[1], q[0]))
            if not near_az(g, bearing(p, q), aztol(p, q), p[1] != q[1]):
                raise Violation('azimuth of numbers %r - %r: %r' % (p, q, g))
    for da, db in itertools.product(DEP, DEP):
        g = call(ctx, 'distance', G.distance, lo, la, da, lons2, lats2, np.full(len(others), db))
        for i, q in enumerate(others):
            w = math.hypot(R * arc(p, q), da - db)
            if abs(float(g[i]) - w) > (1e-6 if arc(p, q) < 3.1 else 1e-3):
                raise Violation('distance with depths %r/%r %r - %r: %r, expected %r' % (da, db, p, q, float(g[i]), w))
    ctx.outcome(round(float(np.sum(d)), 0))


def do_shapes(ctx):
    rng = [(float(a), float(b)) for a in (-60, 0, 33) for b in (-170, 5, 120, 175)]
    lons = np.array([q[1] for q in rng])
    lats = np.array([q[0] for q in rng])
    forms = {'1d': (lons, lats), '2d': (lons.reshape(3, 4), lats.reshape(3, 4)), 'fortran': (np.asfortranarray(lons.reshape(3, 4)), np.asfortranarray(lats.reshape(3, 4))),
             'strided': (np.repeat(lons, 2)[::2], np.repeat(lats, 2)[::2]), 'int': (lons.astype(int), lats.astype(int)), 'list': (list(lons), list(lats)),
             '3d': (lons.reshape(3, 2, 2), lats.reshape(3, 2, 2)), 'empty': (np.zeros(0), np.zeros(0)), 'column': (lons[:, None], lats[:, None])}
    for name, (lo, la) in sorted(forms.items()):
        for fn in (G.geodetic_distance, G.azimuth):
            for order in (0, 1):
                g = call(ctx, name, fn, *((10, -20.5, lo, la) if not order else (lo, la, 10, -20.5)))
                if np.shape(g) != np.shape(lo):
                    raise Violation('%s: shape %r for places of shape %r' % (fn.__name__, np.shape(g), np.shape(lo)))
                for x, o, a in zip(np.ravel(g), np.ravel(lo), np.ravel(la)):
                    p, q = (-20.5, 10), (float(a), float(o))
                    if order:
                        p, q = q, p
                    ok = near_km(float(x), arc(p, q)) if fn is G.geodetic_distance else near_az(float(x), bearing(p, q), 1e-7)
                    if not ok:
                        raise Violation('%s of a %s array: %r - %r is %r' % (fn.__name__, name, p, q, float(x)))
    # every pair: column against row
    for fn in (G.geodetic_distance, G.azimuth):
        g = call(ctx, 'outer', fn, lons[:, None], lats[:, None], lons[None, :], lats[None, :])
        ctx.equal(np.shape(g), (len(rng), len(rng)), 'shape of the table of all pairs')
        for i, p in enumerate(rng):
            for j, q in enumerate(rng):
                if fn is G.geodetic_distance and not near_km(float(g[i, j]), arc(p, q)):
                    raise Violation('distance table %r - %r: %r' % (p, q, float(g[i, j])))
                if fn is G.azimuth and az_judged(p, q) and not near_az(float(g[i, j]), bearing(p, q), 1e-7):
                    raise Violation('azimuth table %r - %r: %r' % (p, q, float(g[i, j])))
    for fn in (G.geodetic_distance, G.azimuth):
        for bad in ((lons, lats[:3], 0.0, 0.0), (0.0, 0.0, lons, lats[:-1]), (lons.reshape(3, 4), lats, 1.0, 1.0), (lons, 1.0, 1.0, 1.0), (1.0, 1.0, 2.0, lats)):
            try:
                r = fn(*bad)
            except (AssertionError, ValueError):
                ctx.transitions += 1
            else:
                raise Violation('%s accepted places whose coordinates differ in shape: %r' % (fn.__name__, r))


def refused(ctx, *a):
    ctx.transitions += 1
    try:
        Point(*a)
    except ValueError:
        return True
    return False


def do_limits(ctx, lo):
    eps = 1e-9
    for la, bad in ((-90 - eps, 1), (-90.0, 0), (0, 0), (90.0, 0), (90 + eps, 1), (float('nan'), 1), (-1000, 1)):
        if refused(ctx, lo, la) != bool(bad):
            raise Violation('point %r,%r: refused should be %r' % (lo, la, bool(bad)))
    for l2, bad in ((-180 - eps, 1), (-180, 0), (180, 0), (180 + 1e-9, 1), (360, 1), (float('nan'), 1), (-181, 1)):
        if refused(ctx, l2, 5.0) != bool(bad):
            raise Violation('point %r,5: refused should be %r' % (l2, bool(bad)))
    for dep, bad in ((6371.0, 1), (6370.999, 0), (0, 0), (-8.847, 0), (-8.848, 1), (-9, 1), (7000, 1), (float('nan'), 1)):
        if refused(ctx, lo, 5.0, dep) != bool(bad):
            raise Violation('depth %r: refused should be %r' % (dep, bool(bad)))
    p = Point(lo, 12.25, 3.5)
    ctx.equal((p.longitude, p.latitude, p.depth, p.x, p.y, p.z), (lo, 12.25, 3.5, lo, 12.25, 3.5), 'coordinates')
    ctx.equal(Point(lo, 12.25).depth, 0.0, 'default depth')
    ctx.equal((Point(lo, 1).on_surface(), Point(lo, 1, 0.001).on_surface(), Point(lo, 1, -0.001).on_surface()), (True, False, False), 'on_surface')
    ctx.equal(str(p), repr(p), 'text forms')
    ctx.equal(str(Point(1.0 / 3.0, -39.999999999, 1.6666666666)), '<Latitude=-40.000000, Longitude=0.333333, Depth=1.6667>', 'text form')
    ctx.equal(Point(-1.5, 2.25).wkt2d, 'POINT(-1.5 2.25)', 'WKT')


class Mesh(object):
    def __init__(self, lons, lats, depths):
        self.lons, self.lats, self.depths = lons, lats, depths


def do_point(ctx, la, lo):
    p = Point(lo, la, 4.0)
    keep = copy.copy(p.__dict__)
    others = [(float(a), float(o)) for a in (-85, -40, 0, 30, 85) for o in (-180, -91, -1, 0, 89, 179, 180)] + [(la + a, lo + o) for a, o in NEAR if abs(la + a) <= 90 and abs(lo + o) <= 180]
    for q in others:
        for dep in DEP:
            o = Point(q[1], q[0], dep)
            w = math.hypot(R * arc((la, lo), q), dep - 4.0)
            g = float(call(ctx, 'distance', p.distance, o))
            if abs(g - w) > (1e-6 if arc((la, lo), q) < 3.1 else 1e-2):
                raise Violation('distance %r - %r: %r, expected %r' % (p, o, g, w))
            if abs(w - 1e-3) > 1e-6:
                ctx.equal((bool(p == o), bool(p != o)), (w <= 1e-3, w > 1e-3), 'equality of %r and %r (distance %r km)' % (p, o, w))
            if az_judged((la, lo), q) and arc((la, lo), q) > 1e-6:
                g = float(call(ctx, 'azimuth', p.azimuth, o))
                if not near_az(g, bearing((la, lo), q), aztol((la, lo), q) + 1e-7):
                    raise Violation('azimuth %r - %r: %r' % (p, o, g))
    # the same place written with the other sign of 180, and places a few metres apart, across and down
    m1 = 1e-3 / R * 180 / math.pi
    for dla, dlo, dz in itertools.product((0, .5, .8, 1.2, 5, -.8), (0, .5, .8, -1.2, 8), (0, .5, .8, -.8, 1.2, 7)):
        o = Point((lo + dlo * m1 / math.cos(math.radians(la)) + 180) % 360 - 180, la + dla * m1, 4.0 + dz / 1000)
        d = math.sqrt(dla**2 + dlo**2 + dz**2)
        if abs(d - 1) > 1e-3:
            ctx.equal((bool(p == o), bool(p != o), bool(o == p), bool(o != p)), (d < 1, d > 1, d < 1, d > 1), 'equality of %r and %r, %r metres apart' % (p, o, d))
            ctx.transitions += 4
    # a place next to meridian 0
    a0, b0 = Point(1e-9, la), Point(-1e-9, la)
    ctx.equal((a0 == b0, a0 != b0), (True, False), 'equality across meridian 0')
    top = Point(lo, la)
    ctx.equal([bool(x) for x in p.closer_than(Mesh(np.array([lo] * 4), np.array([la] * 4), np.array([4.0, 14.0, 14.5, -6.0])), 10.0)], [True, True, False, True], 'closer_than at the very radius')
    ctx.equal([float(x) for x in top.distance_to_mesh(Mesh(np.array([lo] * 4), np.array([la] * 4), np.array([4.0, 14.0, 0.0, -6.0])))], [4.0, 14.0, 0.0, 6.0], 'distance from a place on the surface')
    v = R * np.array(unit(la, lo))
    for scale in (1.0, 0.99, 1.001, 0.25):
        for form in (np.array(v * scale), tuple(v * scale), [float(x) for x in v * scale]):
            q = call(ctx, 'from_vector', Point.from_vector, form)
            if math.dist(unit(q.latitude, q.longitude), unit(la, lo)) * R > 1e-6 or abs(q.depth - R * (1 - scale)) > 1e-6:
                raise Violation('point from the vector %r: %r' % (form, q))
    ctx.equal((p == None, p != None), (False, True), 'comparison with nothing')   # noqa
    # close pairs around the equality distance
    for m, same in ((0.0, True), (0.0009, True), (0.0011, False), (0.5, False)):
        o = Point(lo, la, 4.0 + m)
        ctx.equal(bool(p == o), same, 'equality at %r km' % m)
    for az in (0, 30, 90, 135, 180, 225, 270, 359):
        for km in (0, 0.001, 1, 111.0, 1000.0):
            for dz in (-5, 0, 12.5):
                q = call(ctx, 'point_at', p.point_at, km, dz, az)
                # position along the great circle
                u = np.array(unit(la, lo))
                a, o = math.radians(la), math.radians(lo)
                e = np.array((-math.sin(o), math.cos(o), 0.0))
                n = np.array((-math.sin(a) * math.cos(o), -math.sin(a) * math.sin(o), math.cos(a)))
                t = math.cos(math.radians(az)) * n + math.sin(math.radians(az)) * e
                w = math.cos(km / R) * u + math.sin(km / R) * t
                if math.dist(w, unit(q.latitude, q.longitude)) * R > 1e-6 or abs(q.depth - (4.0 + dz)) > 1e-9:
                    raise Violation('%r moved %r km at %r and %r km down is %r' % (p, km, az, dz, q))
    # meshes: any shape, with and without depths
    lons = np.array([q[1] for q in others[:35]]).reshape(5, 7)
    lats = np.array([q[0] for q in others[:35]]).reshape(5, 7)
    deps = np.resize(np.array(DEP), (5, 7))
    for m in (Mesh(lons, lats, deps), Mesh(lons, lats, None), Mesh(lons[0], lats[0], deps[0])):
        for wd in (True, False, None):
            g = call(ctx, 'distance_to_mesh', p.distance_to_mesh, m, **({} if wd is None else {'with_depths': wd}))
            ctx.equal(np.shape(g), m.lons.shape, 'shape of distances to a mesh')
            for i in np.ndindex(*m.lons.shape):
                h = R * arc((la, lo), (float(m.lats[i]), float(m.lons[i])))
                v = 0 if wd is False else 4.0 - (0 if m.depths is None else float(m.depths[i]))
                if abs(float(g[i]) - math.hypot(h, v)) > (1e-6 if h < 3.1 * R else 1e-2):
                    raise Violation('distance to mesh point %r: %r, expected %r' % (i, float(g[i]), math.hypot(h, v)))
        for radius in (0.5, 50.0, 3000.0, 15000.0, 25000.0):
            g = call(ctx, 'closer_than', p.closer_than, m, radius)
            for i in np.ndindex(*m.lons.shape):
                h = R * arc((la, lo), (float(m.lats[i]), float(m.lons[i])))
                w = math.hypot(h, 4.0 - (0 if m.depths is None else float(m.depths[i])))
                if abs(w - radius) > 1e-2 and bool(g[i]) != (w <= radius):
                    raise Violation('closer_than(%r): mesh point %r at %r km says %r' % (radius, i, w, g[i]))
    # points strung along the way to another place, a fixed distance apart
    for q in others:
        h = R * arc((la, lo), q)
        if h > 3.1 * R:
            continue
        for dep in (4.0, 0.0, 50.0):
            o = Point(q[1], q[0], dep)
            total = math.hypot(h, dep - 4.0)
            for step in (7.0, 250.0, 2e4):
                if total / step > 120 or abs(total / step % 1 - 0.5) < 1e-6:
                    continue
                g = call(ctx, 'equally_spaced_points', p.equally_spaced_points, o, step)
                what = 'points from %r to %r every %r km' % (p, o, step)
                ctx.equal(len(g), int(round(total / step)) + 1, what + ': number')
                for i, x in enumerate(g):
                    f = i * step / total if total else 0.0
                    u, v = np.array(unit(la, lo)), np.array(unit(*q))
                    t = v - u * float(np.dot(u, v))
                    t = t / np.linalg.norm(t) if np.linalg.norm(t) > 1e-12 else t
                    w = math.cos(f * h / R) * u + math.sin(f * h / R) * t
                    if math.dist(w, unit(x.latitude, x.longitude)) * R > 1e-3 + 1e-6 * step or abs(x.depth - (4.0 + f * (dep - 4.0))) > 1e-6 * max(1, step):
                        raise Violation('%s: number %d is %r' % (what, i, x))
    # circles around the place
    for radius in (0.1, 10.0, 300.0):
        if abs(la) > 76 and radius > 10:
            continue
        g = call(ctx, 'to_polygon', p.to_polygon, radius)
        d = [R * arc((la, lo), (float(a), float(b))) for a, b in zip(g.lats, g.lons)]
        ctx.check(len(d) >= 16 and max(abs(x - radius) for x in d) < 1e-3 * radius + 1e-6, 'circle of %r km around %r: corners at %r .. %r km' % (radius, p, min(d), max(d)))
        az = sorted(bearing((la, lo), (float(a), float(b))) for a, b in zip(g.lats, g.lons))
        ctx.check(max((b - a) % 360 for a, b in zip(az, az[1:] + az[:1])) < 360.0 / 16, 'circle of %r km around %r has a gap: %r' % (radius, p, az))
    ctx.equal(p.__dict__, keep, 'the point after all queries')
