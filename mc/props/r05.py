"""R05: GC2 strike coordinates."""
import logging
import math
import numpy as np
from mc.core import Violation
from mc import rupgeo as G
from impactutils.rupture.distance import get_distance
from impactutils.rupture.edge_rupture import EdgeRupture
from impactutils.rupture.origin import Origin
from impactutils.rupture.quad_rupture import QuadRupture
from impactutils.time.ancient_time import HistoricTime

logging.disable(logging.CRITICAL)
LEVEL = 'exploration'
RULE = ('straight, bent and multi-trace ruptures: every strike in 45 (thorough 15) degree steps x 12 layouts (and three of 6 and 8 traces and 142 segments; 1..3 segments; 1..3 traces, offset, overlapping, nested, listed in either order, discordant) x 4 places '
        '(equator, antimeridian, high latitude) x quadrilateral / edge rupture, each with a 13 x 13 lattice of sites (on every vertex, on the trace, off both ends, both sides, far away): U, T, rx, ry, ry0 compared '
        'with an independent implementation of Spudich and Chiou (2015) and, for straight ruptures, with position along and distance from the line; vertices listed along and against the strike; permuted and reshaped sites; splitting into segments; '
        'exact on-trace positions on the equator and a meridian.')
ASSUMPTIONS = ['distances on the sphere of radius 6371 km that the library uses, tolerance 0.2% of the distance from the trace plus 0.03 km (map projections differ) plus the difference between sphere and ellipsoid along the trace',
               'of ry for several traces only that it is U shifted by a constant is claimed']
R = 6371.0
PLACES = [(0.0, 0.0), (-118.2, 34.1), (179.95, -45.3), (10.0, 70.0)]
BASE = {'id': 'x', 'netid': 'us', 'network': '', 'lat': 0.0, 'lon': 0.0, 'depth': 8.0, 'locstring': '', 'mag': 7.0, 'time': HistoricTime(2008, 5, 12)}
# traces: (start along, start across, direction relative to strike, segment lengths, bends)
LAYOUTS = {
    'one': [(0, 0, 0, [30], [0])],
    'two': [(0, 0, 0, [12, 18], [0, 0])],
    'three': [(0, 0, 0, [7, 12, 11], [0, 0, 0])],
    'bent': [(0, 0, 0, [12, 18], [25, 0])],
    'zigzag': [(0, 0, 0, [7, 12, 11], [-30, 40, 0])],
    'gap': [(0, 0, 0, [10], [0]), (18, 0, 0, [7, 5], [0, 0])],
    'gap-late-first': [(18, 0, 0, [7, 5], [0, 0]), (0, 0, 0, [10], [0])],
    'step': [(0, 0, 0, [14], [0]), (12, 4, 5, [9, 7], [6, 0])],
    'discordant': [(0, 0, 0, [15, 8], [4, 0]), (42, 3, 180, [9], [0])],
    'discordant-first': [(15, -2, 178, [6, 5], [0, 0]), (20, 1, 0, [11, 9], [-5, 0])],
    'nested': [(0, 0, 0, [40], [0]), (17, 5, 3, [5], [0])],
    'nested-first': [(17, 5, 3, [5], [0]), (0, 0, 0, [40], [0])],
    'trio': [(0, 0, 0, [10], [0]), (30, 2, 0, [8, 4], [5, 0]), (14, -2, 183, [5], [0])],
}
# more traces and more segments than usual
LARGE = {
    'six': [(20, 0, 0, [5], [0]), (30, 2, 0, [6], [0]), (40, -2, 3, [4], [0]), (12, 1, -4, [5], [0]), (0, -1, 0, [8], [0]), (55, 0, 2, [5, 5], [0, 0])],
    'eight': [(9 * i, (i * i) % 5 - 2, 2 * i - 7, [4], [0]) for i in (3, 4, 2, 5, 1, 0, 6, 7)],
    'many': [(0, 0, 0, [0.25] * 140, [0] * 140), (38, 1, 0, [5, 4], [3, 0])],
}
STRAIGHT = ('one', 'two', 'three', 'gap', 'gap-late-first')


def cases(tier):
    step = 45 if tier == 'quick' else 15
    for st in range(0, 360, step):
        for ly in sorted(LAYOUTS):
            for pl in range(len(PLACES)):
                yield ['lattice', st, ly, pl]
    for ly in sorted(LARGE):
        for st in (0, 135):
            for pl in (0, 2):
                if ly != 'many' or st or not pl:
                    yield ['lattice', st, ly, pl]
    for i in range(6):
        yield ['exact', i]


def place(pl, st, along, across):
    lo, la = G.step(PLACES[pl][0], PLACES[pl][1], st, along)
    return G.step(lo, la, st + 90, across)


def polys(st, ly, pl, dip=60):
    out = []
    for a, c, d, lens, bends in (LAYOUTS.get(ly) or LARGE[ly]):
        lo, la = place(pl, st, a, c)
        out.append(G.group(lo, la, st + d, lens, bends, dip, 10.0, 2.0))
    return out


def gcd(p, q):
    a, b = math.radians(p[1]), math.radians(q[1])
    d = math.radians(q[0] - p[0])
    h = math.sin((b - a) / 2) ** 2 + math.cos(a) * math.cos(b) * math.sin(d / 2) ** 2
    return 2 * R * math.asin(math.sqrt(h))


class Plane(object):
    """azimuthal equidistant map of the sphere"""

    def __init__(self, lon, lat):
        self.o = (lon, lat)

    def __call__(self, lon, lat):
        d = gcd(self.o, (lon, lat)) / R
        a, b = math.radians(self.o[1]), math.radians(lat)
        dl = math.radians(lon - self.o[0])
        x, y = math.sin(dl) * math.cos(b), math.cos(a) * math.sin(b) - math.sin(a) * math.cos(b) * math.cos(dl)
        h = math.hypot(x, y)
        return np.array([0.0, 0.0]) if h == 0 else np.array([x, y]) / h * d * R


def gc2(traces, sites, chain=False):
    """reference: traces = lists of plane points; sites = plane points -> (T, U, end of the rupture in U)"""
    if chain:
        ls = [np.linalg.norm(t[1] - t[0]) for t in traces]
        starts = [sum(ls[:i]) for i in range(len(ls))]
    elif len(traces) > 1:
        ends = [(t[0], t[-1]) for t in traces]
        pts = [p for e in ends for p in e]
        A0, A1 = max(((p, q) for p in pts for q in pts), key=lambda pq: np.linalg.norm(pq[0] - pq[1]))
        a = (A1 - A0) / np.linalg.norm(A1 - A0)
        e = [a.dot(t[-1] - t[0]) for t in traces]
        if sum(e) < 0:
            A0, a, e = A1, -a, [-x for x in e]
        traces = [t if x >= 0 else t[::-1] for t, x in zip(traces, e)]
        starts = [(t[0] - A0).dot(a) for t in traces]
    else:
        starts = [0.0]
    T, U, end = [], [], 0.0
    segs = []
    for t, s in zip(traces, starts):
        for p, q in zip(t[:-1], t[1:]):
            l = np.linalg.norm(q - p)
            segs.append((p, (q - p) / l, l, s))
            s += l
            end = max(end, s)
    for x in sites:
        sw = st = su = 0.0
        on = None
        for p, d, l, s in segs:
            r = x - p
            u, t = r.dot(d), r[0] * d[1] - r[1] * d[0]
            if abs(t) < 1e-7:
                if -1e-7 <= u <= l + 1e-7:
                    on = u + s
                    break
                w = 1 / (u - l) - 1 / u
            else:
                w = (math.atan((l - u) / t) - math.atan(-u / t)) / t
            sw, st, su = sw + w, st + w * t, su + w * (u + s)
        if on is not None:
            T.append(0.0)
            U.append(on)
        else:
            T.append(st / sw)
            U.append(su / sw)
    return np.array(T), np.array(U), end


def top(p):
    v = p[:-1]
    return [(q[0], q[1]) for q in v[:len(v) // 2]]


ALONG = [-90.0, -30.0, -8.0, -0.5, 0.0, 5.0, 11.0, 16.0, 21.0, 29.5, 31.0, 45.0, 140.0]
ACROSS = [-100.0, -40.0, -12.0, -3.0, -0.6, 0.0, 0.4, 2.0, 4.0, 9.0, 25.0, 60.0, 120.0]


def compare(ctx, d, T, U, end, tol, what, where, single, length):
    for k, w in (('T', T), ('U', U), ('rx', T)):
        bad = np.nonzero(~(np.abs(d[k] - w) <= tol))[0]
        if len(bad):
            i = bad[0]
            raise Violation('%s: %s at site %r is %r, expected %r' % (what, k, where(i), d[k][i], w[i]))
    w = np.maximum(np.maximum(-U, U - end), 0.0)
    bad = np.nonzero(~((np.abs(d['ry0'] - w) <= tol) & (d['ry0'] >= 0)))[0]
    if len(bad):
        i = bad[0]
        raise Violation('%s: ry0 at site %r is %r, expected %r (U %r, end of the rupture %r)' % (what, where(i), d['ry0'][i], w[i], U[i], end))
    sh = d['U'] - d['ry']
    ctx.check(np.abs(sh - sh[0]).max() < 1e-6, '%s: ry is not U shifted by a constant: %r' % (what, sh))
    if single:
        ctx.check(abs(sh[0] - length / 2) < 0.03 + 0.007 * length, '%s: ry is measured from U = %r, expected half the length %r' % (what, sh[0], length))


def run(case, ctx):
    ctx.state(case)
    if case[0] == 'exact':
        return exact(case[1], ctx)
    _, st, ly, pl = case
    ps = polys(st, ly, pl)
    what = 'strike %d layout %s at %r' % (st, ly, PLACES[pl])
    lon, lat = [], []
    for p in ps:
        for v in p[:-1]:
            lon.append(v[0])
            lat.append(v[1])
    for a in ALONG:
        for c in ACROSS:
            lo, la = place(pl, st, a, c)
            lon.append(lo)
            lat.append(la)
    lon, lat = np.array(lon), np.array(lat)
    n = len(lon)
    mid = place(pl, st, 15, 0)
    P = Plane(*mid)
    tr = [[P(*v) for v in top(p)] for p in ps]
    S = [P(x, y) for x, y in zip(lon, lat)]
    T, U, end = gc2(tr, S)
    length = sum(np.linalg.norm(b - a) for t in tr for a, b in zip(t[:-1], t[1:]))
    dist = np.array([min(G.seg_dist(np.append(s, 0), np.append(a, 0), np.append(b, 0)) for t in tr for a, b in zip(t[:-1], t[1:])) for s in S])
    vs = [v for p in ps for v in top(p)]
    slack = max(abs(gcd(a, b) - float(np.linalg.norm(G.ecef(*a, 0) - G.ecef(*b, 0)))) for a in vs for b in vs)
    tol = 0.03 + 0.002 * dist + 1.5 * slack
    if pl == 3:
        tol = tol + 1e-5 * dist ** 2
    if ly in STRAIGHT and pl != 3:
        d = (tr[0][-1] - tr[0][0]) / np.linalg.norm(tr[0][-1] - tr[0][0])
        o = tr[0][0] if ly != 'gap-late-first' else tr[1][0]
        U1 = np.array([(s - o).dot(d) for s in S])
        T1 = np.array([(s - o)[0] * d[1] - (s - o)[1] * d[0] for s in S])
        if not (np.abs(U - U1) < tol).all() or not (np.abs(T - T1) < tol).all():
            raise AssertionError('reference disagrees with the straight case: %r' % what)
    where = lambda i: (lon[i], lat[i])
    origin = Origin(dict(BASE))
    z = np.zeros(n)
    for r in (QuadRupture(G.doc(ps), origin), EdgeRupture(G.doc(ps), origin)):
        w = '%s %s' % (type(r).__name__, what)
        keep = (lon.copy(), lat.copy())
        d = r.computeGC2(lon, lat, z)
        ctx.op()
        ctx.check(np.array_equal(keep[0], lon) and np.array_equal(keep[1], lat), w + ': site arrays were altered')
        ctx.equal(sorted(d), ['T', 'U', 'rx', 'ry', 'ry0'], w + ': measures')
        for k in d:
            ctx.check(d[k].shape == (n,) and np.isfinite(d[k]).all(), '%s: %s has shape %r or is not finite' % (w, k, d[k].shape))
        compare(ctx, d, T, U, end, tol, w, where, len(ps) == 1, length)
        # the sites of the trace itself
        for k in sorted(d):
            m = n - n % 7
            for nm, f, g in (('matrix', lambda a: a[:m].reshape(7, -1), lambda a: a.reshape(-1)), ('transposed matrix', lambda a: a[:m].reshape(7, -1).T, lambda a: a.T.reshape(-1)),
                             ('column', lambda a: a.reshape(-1, 1), lambda a: a.reshape(-1)), ('reversed', lambda a: a[::-1], lambda a: a[::-1])):
                if k == 'T':
                    dd = r.computeGC2(f(lon), f(lat), f(z))
                    ctx.op()
                    for kk in dd:
                        x = g(dd[kk])
                        ctx.check(dd[kk].shape == f(lon).shape, '%s: %s for sites as %s has shape %r' % (w, kk, nm, dd[kk].shape))
                        ctx.check((np.abs(x - d[kk][:len(x)]) <= tol[:len(x)]).all(), '%s: %s differs for sites as %s: %r' % (w, kk, nm, [(where(j), x[j], d[kk][j], tol[j]) for j in np.nonzero(np.abs(x - d[kk][:len(x)]) > tol[:len(x)])[0][:3]]))
        one = [0, n // 2, n - 1] + list(range(0, n, 17))
        for i in one:
            dd = r.computeGC2(lon[i:i + 1], lat[i:i + 1], z[:1])
            ctx.op()
            for k in dd:
                ctx.check(abs(dd[k][0] - d[k][i]) <= tol[i], '%s: %s of the single site %r is %r, among others %r' % (w, k, where(i), dd[k][0], d[k][i]))
        g2 = get_distance(['rx', 'ry', 'ry0', 'U', 'T'], lat, lon, z, r)
        for k in d:
            ctx.check(np.array_equal(g2[k], d[k]), '%s: get_distance gives another %s' % (w, k))
        # every site depth gives the same coordinates
        dd = r.computeGC2(lon, lat, z + 5.0)
        for k in d:
            ctx.check(np.abs(dd[k] - d[k]).max() < 1e-6, '%s: %s depends on the depth of the site' % (w, k))
        ctx.outcome((ly, int(d['U'].sum() / 100)))
        ctx.traces += 1
    # vertices listed against the strike (the rupture dips to the left of them): the coordinates follow the strike
    left = polys(st, ly, pl, 120)
    r = QuadRupture(G.doc(left), origin)
    w = 'QuadRupture listed against the strike, %s' % what
    def outline(order):
        out = []
        for p in left:
            v = p[:-1]
            h = len(v) // 2
            t, bot = v[:h], v[h:][::-1]
            # corners of the flipped quads in the given order along the group
            q = [(t[j + 1], t[j], bot[j], bot[j + 1]) for j in range(h - 1)][::order]
            out += [q[0][0]] + [x[1] for x in q] + [x[2] for x in q[::-1]] + [q[0][3]] + [q[0][0]] + [[np.nan] * 3]
        return np.array(out, dtype=float)

    got = np.array([r.lons, r.lats, r.depths]).T

    def same(want):
        if got.shape != want.shape or not np.array_equal(np.isnan(got), np.isnan(want)):
            return False
        diff = got - want
        diff[:, 0] = (diff[:, 0] + 180) % 360 - 180
        return np.nanmax(np.abs(diff)) < (0.02 if pl != 3 else 0.05)

    d = r.computeGC2(lon, lat, z)
    ctx.op()
    ctx.traces += 1
    several = any(len(p) > 5 for p in ps)
    if several and not same(outline(-1)) and same(outline(1)):
        # the known shape of this: the quads of a group keep the order in which they were listed
        known = '%s: outline %r, expected %r' % (w, got.tolist(), outline(-1).tolist())
        if len(ps) == 1:
            T, U, end = gc2([[a, b] for a, b in zip(tr[0][1:], tr[0][:-1])], S, chain=True)
            far = dist > 3       # next to a vertex the wrong order makes U jump
            df = {k: v[far] for k, v in d.items()}
            compare(ctx, df, T[far], U[far], end, 10 * tol[far], w + ', quads as listed', lambda i: where(np.nonzero(far)[0][i]), False, length)
        raise Violation(known, key='reversed-group-order')
    ctx.check(same(outline(-1)), '%s: outline %r, expected %r' % (w, got.tolist(), outline(-1).tolist()))
    T, U, end = gc2([t[::-1] for t in tr], S)
    compare(ctx, d, T, U, end, tol, w, where, len(ps) == 1, length)


def exact(i, ctx):
    """positions exactly on the trace: the equator and a meridian, with sites arranged symmetrically so that the map is centred on it"""
    eq = i % 2 == 0
    nseg = 1 + i // 2
    L = [0.3, 0.6][: 1] if nseg == 1 else [0.1, 0.3] if nseg == 2 else [0.1, 0.15, 0.3]
    xs = [0.0] + L
    pt = (lambda a, c: (a, -c)) if eq else (lambda a, c: (c, a))  # right of strike: south / east
    verts = [[*pt(x, 0.0), 1.0] for x in xs] + [[*pt(x, 0.1), 9.0] for x in xs[::-1]]
    ps = [verts + [verts[0]]]
    along = sorted(set([-0.6, -0.3, -0.1, 0.0, 0.05, 0.1, 0.15, 0.2, 0.3, 0.4, 0.6]))
    sites = [(a, c) for a in along for c in (-0.4, 0.0, 0.4)]
    lon = np.array([pt(a, c)[0] for a, c in sites])
    lat = np.array([pt(a, c)[1] for a, c in sites])
    k = math.radians(1) * R
    U = np.array([a * k for a, c in sites])
    T = np.array([c * k for a, c in sites])
    end = xs[-1] * k
    for r in (QuadRupture(G.doc(ps), Origin(dict(BASE))), EdgeRupture(G.doc(ps), Origin(dict(BASE)))):
        w = '%s along the %s, %d segments' % (type(r).__name__, 'equator' if eq else 'meridian', nseg)
        d = r.computeGC2(lon, lat, np.zeros(len(lon)))
        ctx.op()
        compare(ctx, d, T, U, end, np.full(len(lon), 0.05 if eq else 0.5), w, lambda i: (lon[i], lat[i]), True, end)
        ctx.outcome((i, int(d['U'].sum())))
        ctx.traces += 1
