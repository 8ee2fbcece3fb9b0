"""V04: vendored spherical-geometry helpers (impactutils.extern.openquake.utils)."""
import itertools
import math
import numpy as np
import shapely.geometry
from mc.core import Violation
from mc.props.v03 import arc, unit, R
from impactutils.extern.openquake import utils as U
from impactutils.extern.openquake.point import Point

LEVEL = 'exploration'
RULE = ('every place of a global lattice with poles and antimeridian x depths for Cartesian conversion, as numbers, lists and arrays of any shape; projections around every centre of a lattice of boxes (across the antimeridian, '
        'at the poles) of every place of a lattice around them, both ways, and of places on and beyond the hemisphere; all sets of 2 and 3 longitudes of an alphabet for boxes; all lines of 4 points on a 3 x 3 lattice '
        '(thorough 5), as lines and as outlines, at several places of the globe; all lists of up to 5 places with repetitions; all triples of lattice vectors. Oracle: vector geometry and exact integer segment intersection, written here.')
ASSUMPTIONS = ['sphere of 6371 km', 'the middle of a line from a pole is not judged (the installed openquake computes it)', 'boxes of places spanning exactly half a circle of longitude or holding both spellings of the antimeridian are not judged', 'lines that end where they began are not judged', 'closest objects are judged within ten degrees and when the next one is clearly further away']


def cases(tier):
    for la in range(-90, 91, 15):
        yield ['cart', la]
    boxes = [(a, b, c, d) for a, b in ((-10, 10), (0, 0), (170, -170), (179, -179), (-180, -150), (100, 180), (-179.5, -178), (20, 60)) for c, d in ((5, -5), (60, 20), (-40, -42), (89, 80), (-85, -90), (0, 0))]
    for b in boxes:
        yield ['proj', list(b)]
    for a in LON:
        yield ['box', a]
    for first in range(9):
        for second in range(9):
            yield ['line', first, second]
    for k in range(3):
        yield ['clean', k]
    yield ['idl']
    yield ['vectors']
    for lo in (0, 100, 179, -180):
        for la in (-60, 0, 45):
            yield ['closest', lo, la]
    yield ['polygon']


LON = [-180.0, -179.0, -100.0, -90.5, -1.0, 0.0, 0.5, 45.0, 89.0, 91.0, 135.0, 179.5, 180.0]


def run(case, ctx):
    globals()['do_' + case[0]](ctx, *case[1:])
    ctx.state(case)
    ctx.outcome(case[0])


def close(a, b, tol):
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= tol))


def do_cart(ctx, la):
    lons = [-180.0, -90.0, -33.25, 0.0, 45.0, 90.0, 179.999, 180.0]
    deps = [-8.0, 0.0, 10.0, 700.0, 6000.0]
    for lo, d in itertools.product(lons, deps):
        want = (R - d) * np.array(unit(la, lo))
        g = U.spherical_to_cartesian(lo, la, d)
        ctx.op()
        ctx.check(close(g, want, 1e-8), 'vector of %r %r %r: %r, expected %r' % (lo, la, d, g, want))
        if d == 0:
            g = U.spherical_to_cartesian(lo, la, None)
            ctx.check(close(g, want, 1e-8), 'vector of %r %r without a depth: %r' % (lo, la, g))
        back = [float(x) for x in U.cartesian_to_spherical(np.array(want))]
        ctx.op()
        ok = math.dist(unit(back[1], back[0]), unit(la, lo)) * R < 1e-6 * R / (R - d) and abs(back[2] - d) < 1e-8 and -180 <= back[0] <= 180 and -90 <= back[1] <= 90
        ctx.check(ok, 'place of the vector of %r %r %r: %r' % (lo, la, d, back))
        ctx.traces += 1
    grid = np.array(list(itertools.product(lons, deps)))
    for shape in ((40,), (8, 5), (2, 4, 5), (40, 1), (1, 40)):
        lo, de = grid[:, 0].reshape(shape), grid[:, 1].reshape(shape)
        lat = np.full(shape, float(la))
        keep = lo.copy(), de.copy()
        for form in (lambda x: x, lambda x: x.tolist(), np.asfortranarray):
            g = U.spherical_to_cartesian(form(lo), form(lat), form(de))
            ctx.equal(np.shape(g), shape + (3,), 'shape of the vectors of places of shape %r' % (shape,))
            h = U.spherical_to_cartesian(form(lo), form(lat), None)
            for i in np.ndindex(*shape):
                ctx.check(close(g[i], (R - de[i]) * np.array(unit(la, lo[i])), 1e-8) and close(h[i], R * np.array(unit(la, lo[i])), 1e-8), 'vector %r of an array: %r' % (i, g[i]))
        b = U.cartesian_to_spherical(g)
        ctx.equal([np.shape(x) for x in b], [shape] * 3, 'shape of places of an array of vectors')
        for i in np.ndindex(*shape):
            ctx.check(math.dist(unit(b[1][i], b[0][i]), unit(la, lo[i])) < 1e-7 and abs(b[2][i] - de[i]) < 1e-8, 'place %r of an array of vectors' % (i,))
        ctx.check(np.array_equal(lo, keep[0]) and np.array_equal(de, keep[1]), 'arguments altered')
        ctx.op(7)
    for (lo1, lo2), la2 in itertools.product(itertools.product(lons, repeat=2), (-80.0, -15.0, 0.0, 60.0)):
        p, q = (float(la), lo1), (la2, lo2)
        if arc(p, q) > 3.1 or abs(la) == 90:
            continue
        m = U.get_middle_point(lo1, float(la), lo2, la2)
        ctx.op()
        w = np.array(unit(*p)) + np.array(unit(*q))
        w = w / np.linalg.norm(w)
        ctx.check(math.dist(w, unit(float(m[1]), float(m[0]))) < 1e-8 and -180 <= m[0] <= 180, 'middle of %r and %r: %r' % (p, q, m))


def do_proj(ctx, b):
    west, east, north, south = b
    proj = U.get_orthographic_projection(*map(float, b))
    c = np.array(unit(north, west)) + np.array(unit(south, east))
    c = c / np.linalg.norm(c)
    clat, clon = math.degrees(math.asin(c[2])), math.degrees(math.atan2(c[1], c[0]))
    la, lo = math.radians(clat), math.radians(clon)
    e = np.array((-math.sin(lo), math.cos(lo), 0.0))
    n = np.array((-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)))
    lats, lons, wx, wy = [], [], [], []
    far = []
    for a in np.arange(-90, 90.1, 7.5):
        for o in np.arange(-180, 180.1, 15):
            u = np.array(unit(a, o))
            d = float(u.dot(c))
            if d > 0.02:
                lats.append(a), lons.append(o), wx.append(R * u.dot(e)), wy.append(R * u.dot(n))
            elif d < -0.02:
                far.append((o, a))
    for k in (1e-4, .01, .3):
        for da, do in ((0, k), (k, 0), (-k, -k)):
            if abs(clat + da) < 90 and abs(clon + do) < 180:
                lats.append(clat + da), lons.append(clon + do)
                u = np.array(unit(clat + da, clon + do))
                wx.append(R * u.dot(e)), wy.append(R * u.dot(n))
    lats, lons, wx, wy = map(np.array, (lats, lons, wx, wy))
    keep = lats.copy(), lons.copy()
    x, y = proj(lons, lats)
    ctx.op(len(lats))
    bad = np.nonzero(~((np.abs(x - wx) < 1e-5) & (np.abs(y - wy) < 1e-5)))[0]
    if len(bad):
        i = bad[0]
        raise Violation('projection for the box %r of lon %r lat %r: %r, expected %r' % (b, lons[i], lats[i], (x[i], y[i]), (wx[i], wy[i])))
    kx, ky = x.copy(), y.copy()
    l2, a2 = proj(x, y, reverse=True)
    ctx.check(np.array_equal(keep[0], lats) and np.array_equal(keep[1], lons) and np.array_equal(kx, x) and np.array_equal(ky, y), 'projection altered its arguments')
    for i in range(len(lats)):
        # near the rim a small shift in the plane is a large one on the sphere
        tol = 5e-8 / max(float(np.array(unit(lats[i], lons[i])).dot(c)), 1e-3)
        ctx.check(math.dist(unit(a2[i], l2[i]), unit(lats[i], lons[i])) < tol and -180 <= l2[i] <= 180, 'projection for the box %r of lon %r lat %r and back: %r %r' % (b, lons[i], lats[i], l2[i], a2[i]))
    for shape in ((1,), (2, 3), (3, 2, 1)):
        k = int(np.prod(shape))
        xx, yy = proj(lons[:k].reshape(shape), lats[:k].reshape(shape))
        ctx.check(close(xx, wx[:k].reshape(shape), 1e-5) and close(yy, wy[:k].reshape(shape), 1e-5), 'projection of an array of shape %r' % (shape,))
    for o, a in far:
        for extra in (0, 1):
            ctx.op()
            try:
                r = proj(np.array([o, clon][:1 + extra]), np.array([a, clat][:1 + extra]))
            except ValueError:
                continue
            raise Violation('projection for the box %r of lon %r lat %r, beyond the hemisphere: %r' % (b, o, a, r))
    p2 = U.OrthographicProjection.from_lons_lats([west, east], [north, south])
    if (east - west) % 360 < 180:
        ctx.check(close(p2(lons[:9], lats[:9])[0], wx[:9], 1e-5), 'projection made from places')
    ctx.traces += 1


def do_box(ctx, a):
    for rest in itertools.chain(itertools.product(LON, repeat=1), itertools.product(LON, repeat=2)):
        lons = [a] + list(rest)
        lats = [(-3.5, 20.0, -80.0)[i] for i in range(len(lons))]
        # the shortest arc of longitude that holds all of them
        best = min(((max((x - w) % 360 for x in lons)), w) for w in lons)
        if abs(best[0] - 180) < 1e-9 or {180.0, -180.0} <= set(lons):
            continue
        for form in (list, np.array):
            ctx.op()
            try:
                g = U.get_spherical_bounding_box(form(lons), form(lats))
            except ValueError:
                ctx.check(best[0] > 180, 'box of longitudes %r was refused' % lons)
                continue
            ctx.traces += 1
            ctx.check(best[0] < 180, 'box of longitudes %r, wider than half the globe: %r' % (lons, g))
            ok = abs((g[1] - g[0]) % 360 % 360 - best[0]) < 1e-9 or abs(g[0]) == abs(g[1]) == 180 and best[0] == 0
            ctx.check(ok and (g[0] - best[1]) % 360 == 0 and (g.north, g.south) == (max(lats), min(lats)) and (g.west, g.east) == (g[0], g[1]), 'box of longitudes %r: %r, expected from %r over %r degrees' % (lons, g, best[1], best[0]))
    for b in LON:
        d = (b - a) % 360
        g = U.get_longitudinal_extent(a, b)
        ctx.check(abs(g) <= 180 and (g - d) % 360 == 0, 'angle from %r to %r: %r' % (a, b, g))
        want = a * b < 0 and abs(a - b) > 180
        ctx.equal(bool(U.cross_idl(a, b)), want, 'does a line from %r to %r cross the date line' % (a, b))


def crosses(pts):
    """does the polyline touch itself other than at consecutive vertices (exact, integer coordinates)"""
    def orient(p, q, r):
        v = (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
        return (v > 0) - (v < 0)

    def onseg(p, q, r):
        return orient(p, q, r) == 0 and min(p[0], q[0]) <= r[0] <= max(p[0], q[0]) and min(p[1], q[1]) <= r[1] <= max(p[1], q[1])
    s = list(zip(pts[:-1], pts[1:]))
    for i, (a, b) in enumerate(s):
        for j in range(i + 1, len(s)):
            c, d = s[j]
            if j == i + 1:
                # they share b = c: no other common point
                if onseg(a, b, d) or onseg(c, d, a):
                    return True
                continue
            if orient(a, b, c) * orient(a, b, d) < 0 and orient(c, d, a) * orient(c, d, b) < 0 or any((onseg(a, b, c), onseg(a, b, d), onseg(c, d, a), onseg(c, d, b))):
                return True
    return False


def touching(pts):
    """a vertex lies on a segment it does not belong to, or three in a row are collinear: the map projection bends straight
    lines of longitude and latitude a little, so such contacts are not judged"""
    def orient(p, q, r):
        return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    n = len(pts)
    return any(orient(pts[i], pts[i + 1], pts[k]) == 0 for i in range(n - 1) for k in range(n) if k not in (i, i + 1) and pts[k] not in (pts[i], pts[i + 1]))


def do_line(ctx, i, j):
    G = [(x, y) for x in range(3) for y in range(3)]
    n = 2 if ctx.quick else 3
    for rest in itertools.product(range(9), repeat=n):
        idx = (i, j) + rest
        pts = [G[k] for k in idx]
        if any(a == b for a, b in zip(pts, pts[1:])):
            continue
        if touching(pts) or pts[0] == pts[-1]:
            continue
        want = crosses(pts)
        closed = want or crosses(pts[-1:] + pts[:-1])
        for lon0, lat0, s in ((10.0, 20.0, .2), (179.8, -30.0, .2), (-180.0, 50.0, 1.0)):
            lons = [(lon0 + s * x + 180) % 360 - 180 for x, y in pts]
            lats = [lat0 + s * y for x, y in pts]
            for form in (list, np.array):
                ctx.op()
                g = U.line_intersects_itself(form(lons), form(lats))
                ctx.equal(bool(g), want, 'does the line %r at %r cross itself' % (pts, (lon0, lat0)))
                if not touching(pts[-1:] + pts[:-1]):
                    g = U.line_intersects_itself(form(lons), form(lats), closed_shape=True)
                    ctx.equal(bool(g), closed, 'does the outline %r at %r cross itself' % (pts, (lon0, lat0)))
            ctx.traces += 1
    if (i, j) == (0, 0):
        for k in range(4):
            ctx.equal(bool(U.line_intersects_itself([0.0, 1.0, 0.0][:k], [0.0, 0.0, 0.0][:k])), False, 'line of %d points' % min(k, 3))


def do_clean(ctx, k):
    ps = [Point(0.0, 0.0, 1.0), Point(0.000001, 0.0, 1.0), Point(1.0, 0.0, 1.0), Point(0.0, 0.0, 2.0)]
    same = lambda a, b: {a, b} <= {0, 1}
    for n in range(1, 6 if k == 0 else 4):
        for idx in itertools.product(range(len(ps)), repeat=n):
            pts = [ps[i] for i in idx]
            given = list(pts)
            g = U.clean_points(pts)
            ctx.op()
            want = []
            for i in idx:
                if not want or not same(want[-1], i):
                    want.append(i) if not want or want[-1] != i else None
            ctx.check(len(g) == len(want) and all(x is ps[i] for x, i in zip(g, want)), 'places %r without neighbouring repetitions: %d left, expected %r' % (idx, len(g), want))
            ctx.check(pts == given and len(pts) == n, 'the list was altered')
            ctx.traces += 1
    for n in (100, 1001):
        pts = [Point(0.01 * (i // 2), 0.0, 1.0) for i in range(n)]
        g = U.clean_points(pts)
        ctx.op()
        ctx.check(len(g) == (n + 1) // 2 and all(x is y for x, y in zip(g, pts[::2])), '%d places, each twice: %d left' % (n, len(g)))
    ctx.equal(list(U.clean_points([])), [], 'no places')


def do_idl(ctx):
    for n in (1, 2, 3):
        for lons in itertools.product(LON, repeat=n):
            a = np.array(lons)
            keep = a.copy()
            new, flag = U.fix_lons_idl(a)
            ctx.op()
            want = min(lons) < 0 < max(lons) and max(lons) - min(lons) > 180
            ctx.equal(bool(flag), want, 'do longitudes %r cross the date line' % (lons,))
            ctx.check(np.array_equal(a, keep), 'fix_lons_idl altered its argument')
            ctx.check(close(new, [x + 360 if want and x < 0 else x for x in lons], 0), 'longitudes %r become %r' % (lons, new))
            ctx.traces += 1
    for a, b in itertools.product(LON, repeat=2):
        g = U.fix_bounding_box_idl((a, -5.0, b, 7.0))
        ctx.op()
        if not (a * b < 0 and abs(a - b) > 180):
            ctx.equal(tuple(g), (a, -5.0, b, 7.0), 'box %r..%r' % (a, b))
        else:
            lo, hi = max(a, b), min(a, b) + 360
            ctx.equal(tuple(g), (lo, -5.0, hi, 7.0), 'box %r..%r across the date line' % (a, b))
    for a, b in ((-170.0, -160.0), (-10.0, -5.0)):
        ctx.equal(tuple(U.fix_bounding_box_idl((a, 1.0, b, 2.0), True)), (a + 360, 1.0, b + 360, 2.0), 'box in the west, to be written eastwards')
    for a, b in ((150.0, 160.0), (5.0, 10.0)):
        ctx.equal(tuple(U.fix_bounding_box_idl((a, 1.0, b, 2.0), True)), (a, 1.0, b, 2.0), 'box in the east, to be written eastwards')


def do_vectors(ctx):
    V = list(itertools.product((-2.0, 0.0, 1.0, 3.5), repeat=3))
    for a, b in itertools.product(V, repeat=2):
        a, b = np.array(a), np.array(b)
        want = np.linalg.norm(np.cross(a, b)) / 2
        s = (np.linalg.norm(a) + np.linalg.norm(b) + np.linalg.norm(a - b)) / 2
        ctx.op()
        with np.errstate(invalid='ignore'):
            g = float(U.triangle_area(a, b, b - a))
        if want > 1e-3:
            ctx.check(abs(g - want) < 1e-7 * s * s, 'area of the triangle %r %r: %r, expected %r' % (a, b, g, want))
        else:
            ctx.check(not g > 1e-5, 'area of the flat triangle %r %r: %r' % (a, b, g))
        ctx.traces += 1
    A = np.array([v for v in V if any(v)])
    for arr in (A, A[:62].reshape(2, 31, 3), A[:1], A.T.copy().T):
        g = U.normalized(arr)
        w = arr / np.linalg.norm(arr, axis=-1)[..., None]
        ctx.check(close(g, w, 1e-12), 'unit vectors of an array')
        ctx.op()
    for v in A:
        ctx.check(close(U.normalized(v), v / np.linalg.norm(v), 1e-12), 'unit vector of %r' % v)
    for nrm in A[::3]:
        nrm = nrm / np.linalg.norm(nrm)
        p = np.cross(nrm, (0.3, 0.2, 0.9))
        q = np.cross(nrm, p)
        o = np.array((5.0, -1.0, 2.0))
        pts = np.array([o + i * p + j * q for i in range(-1, 3) for j in (-2.0, 0.5, 3.0)])
        c, m = U.plane_fit(pts)
        ctx.op()
        ctx.check(close(c, pts.mean(axis=0), 1e-9) and abs(abs(float(m.dot(nrm))) - 1) < 1e-9 and abs(float(m.dot(m)) - 1) < 1e-9, 'plane through points with normal %r: %r %r' % (nrm, c, m))
        ctx.traces += 1


class Obj(object):
    def __init__(self, a, b):
        self.lon, self.lat, self.x, self.y = a, b, b, a


def do_closest(ctx, lo, la):
    pl = [((lo + 2 * x + 180) % 360 - 180, la + 2 * y) for x in range(-2, 3) for y in range(-2, 3)]
    objs = [Obj(float(a), float(b)) for a, b in pl]
    for form in (list, iter, lambda o: o[::-1], lambda o: o[:1] + o[7:9]):
        mine = list(form(objs))
        for kw in ({}, {'getlon': lambda o: o.y, 'getlat': lambda o: o.x}):
            g = U.GeographicObjects(form(objs), **kw)
            for dx, dy in itertools.product((-4.4, -1.3, 0.0, 0.7, 3.2, 4.9), repeat=2):
                q = (la + dy, (lo + dx + 180) % 360 - 180)
                d = sorted((R * arc((o.lat, o.lon), q), i) for i, o in enumerate(mine))
                ctx.op()
                o, dist = g.get_closest(q[1], q[0])
                true = R * arc((o.lat, o.lon), q)
                ctx.check(any(o is x for x in mine) and abs(float(dist) - true) < 1e-6, 'closest object to %r: %r at %r km' % (q, (o.lon, o.lat), dist))
                if d[1][0] > 1.1 * d[0][0] + 0.01:
                    ctx.check(o is mine[d[0][1]], 'closest object to %r: %r at %r km, but %r is at %r km' % (q, (o.lon, o.lat), true, pl[d[0][1]], d[0][0]))
                ctx.traces += 1


def do_polygon(ctx):
    sq = [(0, 0), (4, 0), (4, 2), (0, 2)]
    poly = shapely.geometry.Polygon(sq)
    xs = [-3.0, -0.5, 0.0, 1.0, 4.0, 5.5]
    ys = [-2.0, 0.0, 1.5, 2.0, 6.0]
    P = np.array(list(itertools.product(xs, ys)))
    want = np.array([math.hypot(max(-x, 0, x - 4), max(-y, 0, y - 2)) for x, y in P])
    for shape in ((30,), (5, 6), (1, 30), (3, 2, 5)):
        for form in (np.array, lambda a: np.array(a).tolist()):
            g = U.point_to_polygon_distance(poly, form(P[:, 0].reshape(shape)), form(P[:, 1].reshape(shape)))
            ctx.op()
            ctx.check(close(g, want.reshape(shape), 1e-12), 'distances to a rectangle: %r' % g)
            ctx.traces += 1
    big = np.tile(P, (100, 1))
    for shape in ((3000,), (60, 50)):
        g = U.point_to_polygon_distance(poly, big[:, 0].reshape(shape), big[:, 1].reshape(shape))
        ctx.op()
        ctx.check(close(g, np.tile(want, 100).reshape(shape), 1e-12), '3000 distances to a rectangle')
    for (x, y), w in zip(P, want):
        g = U.point_to_polygon_distance(poly, x, y)
        ctx.check(close(np.ravel(g), [w], 1e-12), 'distance of one point to a rectangle: %r' % g)
    for bad in (([1.0, 2.0], [1.0]), (1.0, [1.0, 2.0])):
        try:
            r = U.point_to_polygon_distance(poly, *bad)
        except (AssertionError, ValueError):
            continue
        raise Violation('coordinates of different length were accepted: %r' % r)
