"""R06: ruptures built from traces, orientations, vertices and edges; their summaries."""
import itertools
import logging
import math
import numpy as np
from mc.core import Violation
from mc import rupgeo as G
from impactutils.exceptions import ConsistentLengthError
from impactutils.rupture import utils
from impactutils.rupture.edge_rupture import EdgeRupture
from impactutils.rupture.origin import Origin
from impactutils.rupture.quad_rupture import QuadRupture
from impactutils.time.ancient_time import HistoricTime

logging.disable(logging.CRITICAL)
LEVEL = 'exploration'
RULE = ('fromTrace: strikes in 45 (thorough 15) degree steps x dips 10..90 x top depth x 4 layouts (1..3 segments, joined or apart, and 12 segments in 9 groups, one group or several, strike computed / common / individual) x 4 places; fromOrientation: '
        'the same strikes and dips x 5 positions of the known point x 3 sizes x 4 places, alone and in arrays; fromVertices and fromArrays (planar, sloping, twisted; up to 3 groups, any listing of the group index): every '
        'vertex, length, width, strike, dip, depth and side compared with the request, every summary and utility with independent geometry of the vertices; depths at a 9 x 9 lattice of points per quadrilateral '
        'and outside it; every argument of every constructor one shorter, one longer and empty.')
ASSUMPTIONS = ['requested lengths hold to 0.7% (the library mixes sphere and ellipsoid) and angles to 0.7 degrees plus the convergence of meridians over the rupture',
               'dip and strike of an edge rupture are those of its area-weighted mean normal; the depth at a point is judged for dips up to 80 degrees and must stay in the depth range of the quadrilateral for steeper ones']
PLACES = [(0.0, 0.0), (-118.2, 34.1), (179.95, -45.3), (10.0, 65.0)]
EV = {'id': 'x', 'netid': 'us', 'network': '', 'lat': 12.5, 'lon': -77.25, 'depth': 8.0, 'locstring': '', 'mag': 7.0, 'time': HistoricTime(2008, 5, 12), 'mech': 'RS', 'rake': 75.0}
TRACES = [('single', [20], [0], [[0]]), ('joined', [14, 9], [0, 0], [[0, 1]]), ('apart', [14, 9, 7], [10, -15, 0], [[0], [1], [2]]), ('mixed', [14, 9, 7], [0, 0, 0], [[0, 1], [2]]),
          ('many', [4, 5, 3] * 4, [0] * 12, [[0, 1, 2], [3], [4, 5], [6], [7], [8], [9], [10], [11]])]
KNOWN = [(0.0, 0.0), (10.0, 0.0), (0.0, 6.0), (7.5, 4.5), (19.0, 9.5)]
SIZES = [(20.0, 10.0), (60.0, 30.0), (3.0, 12.0)]


def cases(tier):
    step = 45 if tier == 'quick' else 15
    for st in range(0, 360, step):
        for dip in (10, 35, 60, 80, 90):
            for pl in range(4):
                for ly in range(len(TRACES)):
                    if ly < 4 or st in (90, 225) and dip in (35, 90):
                        yield ['trace', st, dip, ly, pl]
                yield ['orient', st, dip, pl]
    for st in range(0, 360, 45 if tier == 'quick' else 15):
        for shape in ('planar', 'steep', 'slope', 'rise', 'twist', 'left'):
            for pl in range(4):
                yield ['edge', st, shape, pl]
    for pl in range(4):
        for st in (0, 70, 200):
            yield ['vertices', st, pl]
    for k in ('trace', 'orient', 'vertices', 'arrays'):
        yield ['lengths', k]
    yield ['context']


def near(ctx, got, want, tol, what):
    if not abs(float(got) - want) <= tol:
        raise Violation('%s is %r, expected %r (within %r)' % (what, got, want, tol))


def angle(ctx, got, want, tol, what):
    d = (float(got) - want + 180) % 360 - 180
    if not abs(d) <= tol:
        raise Violation('%s is %r, expected %r (within %r)' % (what, got, want, tol))


def V(p):
    return G.ecef(p.longitude, p.latitude, p.depth)


def local(p0, p):
    """(east, north, down) of p as seen from the surface above p0, down = depth"""
    e, n, u = G.enu(p0.longitude, p0.latitude, G.ecef(p.longitude, p.latitude, 0.0))
    return np.array([e, n])


def measure(q):
    """length, width, strike, dip (signed: negative when the lower edge lies to the left)"""
    a, b, c, d = [V(p) for p in q]
    ab, ad = b - a, d - a
    L = np.linalg.norm(ab)
    w = np.linalg.norm(ad - ad.dot(ab) / L / L * ab)
    e, n = local(q[0], q[1])
    st = math.degrees(math.atan2(e, n))
    h = local(q[0], q[3])
    s = np.array([e, n]) / math.hypot(e, n)
    across = h[0] * s[1] - h[1] * s[0]
    dip = math.degrees(math.atan2(q[3].depth - q[0].depth, across))
    return L, w, st, dip


def summaries(ctx, r, what, groups):
    """summaries against the quadrilaterals"""
    qs = r.getQuadrilaterals()
    m = [measure(q) for q in qs]
    n = len(qs)
    L, W = [x[0] for x in m], [x[1] for x in m]
    near(ctx, r.getLength(), sum(L), 1e-3, what + ': length')
    near(ctx, r.getWidth(), sum(W) / n, 1e-2, what + ': width')
    near(ctx, r.getArea(), sum(a * b for a, b in zip(L, W)), 0.2, what + ': area')
    ctx.check(r.getIndividualTopLengths().shape == (n,) and r.getIndividualWidths().shape == (n,), what + ': number of lengths and widths')
    for i in range(n):
        near(ctx, r.getIndividualTopLengths()[i], L[i], 1e-3, what + ': length of quadrilateral %d' % i)
        near(ctx, r.getIndividualWidths()[i], W[i], 1e-2, what + ': width of quadrilateral %d' % i)
    near(ctx, r.getDip(), sum(x[3] for x in m) / n, 0.4, what + ': dip')
    sx, sy = sum(math.sin(math.radians(x[2])) * x[0] for x in m), sum(math.cos(math.radians(x[2])) * x[0] for x in m)
    angle(ctx, r.getStrike(), math.degrees(math.atan2(sx, sy)), 0.5, what + ': strike')
    near(ctx, r.getDepthToTop(), min(p.depth for q in qs for p in q), 1e-9, what + ': depth to top')
    ctx.equal(r.getNumQuads(), n, what + ': number of quadrilaterals')
    ctx.equal(r.getNumGroups(), len(groups), what + ': number of groups')
    # outline
    want = []
    for g in groups:
        ring = [qs[g[0]][0]] + [qs[i][1] for i in g] + [qs[i][2] for i in g[::-1]] + [qs[g[0]][3], qs[g[0]][0]]
        want += [(p.longitude, p.latitude, p.depth) for p in ring] + [(math.nan,) * 3]
    for k, col in (('lons', 0), ('lats', 1), ('depths', 2)):
        g = getattr(r, k)
        w = np.array([v[col] for v in want])
        ctx.check(g.shape == w.shape and np.allclose(g, w, rtol=0, atol=1e-9, equal_nan=True), '%s: %s is %r, expected %r' % (what, k, g, w))
    x, y, z = r.getRuptureAsArrays()
    ctx.check(len(x) == len(y) == len(z) == len(want) - len(groups), what + ': getRuptureAsArrays has %d points' % len(x))
    ok = True
    i = 0
    for g in groups:
        ring = [qs[g[0]][0]] + [qs[k][1] for k in g] + [qs[k][2] for k in g[::-1]] + [qs[g[0]][3]]
        for p in ring:
            ok = ok and abs(y[i] - p.latitude) < 2e-3 and abs((x[i] - p.longitude + 180) % 360 - 180) < 5e-3 and abs(z[i] - p.depth) < 0.3
            i += 1
        ok = ok and np.isnan(x[i]) and np.isnan(y[i]) and np.isnan(z[i])
        i += 1
    ctx.check(ok, '%s: getRuptureAsArrays %r does not follow the quadrilaterals' % (what, (x, y, z)))
    mesh = r.getRuptureAsMesh()
    ctx.check(np.array_equal(mesh.lons, x, equal_nan=True) and np.array_equal(mesh.lats, y, equal_nan=True) and np.array_equal(mesh.depths, z, equal_nan=True), what + ': mesh differs from the arrays')
    ctx.check(np.array_equal(r.getDeps(), z, equal_nan=True), what + ': getDeps differs from the arrays')
    c = r.getRuptureContext([])
    for k, v in (('mag', 7.0), ('strike', r.getStrike()), ('dip', r.getDip()), ('ztor', r.getDepthToTop()), ('width', r.getWidth()), ('rake', 75.0), ('hypo_lat', 12.5), ('hypo_lon', -77.25), ('hypo_depth', 8.0)):
        ctx.check(getattr(c, k) == v, '%s: rupture context has %s %r, expected %r' % (what, k, getattr(c, k), v))
    quad_utils(ctx, qs, what)
    ctx.op(14)


def quad_utils(ctx, qs, what):
    for i, q in enumerate(qs):
        w = '%s: quadrilateral %d' % (what, i)
        a, b, c, d = [V(p) for p in q]
        L, W, st, dip = measure(q)
        near(ctx, utils.get_quad_length(q), L, 1e-3, w + ': get_quad_length')
        near(ctx, utils.get_quad_width(q), W, 1e-2, w + ': get_quad_width')
        near(ctx, utils.get_quad_dip(q), dip, 0.4, w + ': get_quad_dip')
        s = utils.get_quad_strike_vector(q).getArray()
        n = utils.get_quad_normal(q).getArray()
        dd = utils.get_quad_down_dip_vector(q).getArray()
        v = utils.get_vertical_vector(q).getArray()
        up = a / np.linalg.norm(a)
        ctx.check(np.linalg.norm(s - (b - a) / L) < 1e-5, w + ': strike vector %r' % (s,))
        ctx.check(abs(np.linalg.norm(n) - 1) < 1e-9 and abs(n.dot(b - a)) < 1e-3 and abs(n.dot(d - a)) < 1e-3 and n.dot(up) > -5e-3, w + ': normal %r' % (n,))
        t = d - a
        t = t - t.dot(s) * s
        ctx.check(np.linalg.norm(dd - t / np.linalg.norm(t)) < 1e-3, w + ': down-dip vector %r, expected %r' % (dd, t / np.linalg.norm(t)))
        lo, la = math.radians(q[0].longitude), math.radians(q[0].latitude)
        ctx.check(np.linalg.norm(v - [math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)]) < 1e-5, w + ': vertical vector %r' % (v,))
        ctx.check([id(p) for p in utils.reverse_quad(q)] == [id(q[k]) for k in (1, 0, 3, 2)], w + ': reverse_quad')
        for dx in (1.0, 4.0, 100.0) + ((0.25,) if i == 0 and 19 < L < 30 and q[0].longitude < -100 else ()):
            m = utils.get_quad_mesh(q, dx)
            ny, nx = m['x'].shape
            ctx.check(ny >= 2 and abs(nx - 1 - max(1.0, L / dx)) <= 0.5 + 1e-6, w + ': mesh of %r columns for length %r, spacing %r' % (nx, L, dx))
            X = np.dstack([m['x'], m['y'], m['z']]) / 1000
            for fi, fj in itertools.product((0, ny // 2, ny - 1), (0, nx // 2, nx - 1)):
                u, vv = fj / (nx - 1), fi / (ny - 1)
                p = (1 - u) * (1 - vv) * a + u * (1 - vv) * b + u * vv * c + (1 - u) * vv * d
                ctx.check(np.linalg.norm(X[fi, fj] - p) < 1e-3, '%s: mesh point (%d, %d) is %r, expected %r' % (w, fi, fj, X[fi, fj], p))
            C = np.dstack([m['cpx'], m['cpy'], m['cpz']]) / 1000
            ctx.check(np.allclose(C, (X[:-1, :-1] + X[1:, :-1] + X[:-1, 1:] + X[1:, 1:]) / 4, rtol=0, atol=1e-6), w + ': mesh centres')
            for k, sl in (('ul', (slice(0, -1), slice(0, -1))), ('ur', (slice(0, -1), slice(1, None))), ('ll', (slice(1, None), slice(0, -1))), ('lr', (slice(1, None), slice(1, None)))):
                ctx.check(np.array_equal(np.dstack([m[k + ax] for ax in 'xyz']) / 1000, X[sl]), w + ': mesh corners ' + k)


def depth_lattice(ctx, r, what):
    qs = r.getQuadrilaterals()
    F = np.linspace(0.04, 0.96, 5)
    for k, q in enumerate(qs):
        steep = measure(q)[3] > 81
        for u in F:
            for v in F:
                c = [((1 - u) * (1 - v), q[0]), (u * (1 - v), q[1]), (u * v, q[2]), ((1 - u) * v, q[3])]
                x0 = q[0].longitude
                lon = x0 + sum(w * ((p.longitude - x0 + 180) % 360 - 180) for w, p in c)
                lat = sum(w * p.latitude for w, p in c)
                want = sum(w * p.depth for w, p in c)
                got = r.getDepthAtPoint(lat, G.wraplon(lon))
                ctx.op()
                tol = 0.02 * (q[3].depth - q[0].depth) + 0.05
                if steep:
                    ctx.check(np.isnan(got) or min(p.depth for p in q) - 0.05 <= got <= max(p.depth for p in q) + 0.05, '%s: depth at %r is %r, outside the range of its vertical quadrilateral' % (what, (lat, lon), got))
                    continue
                if abs(got - want) <= tol:
                    continue
                # another quadrilateral may cover the point as well
                alt = [x for j, x in enumerate(qs) if j != k and over(x, lon, lat)]
                if alt:
                    continue
                raise Violation('%s: depth at %r (quadrilateral %d, %g along, %g down) is %r, expected %r' % (what, (lat, lon), k, u, v, got, want))
    p = qs[0][0]
    lo, la = G.step(p.longitude, p.latitude, measure(qs[0])[2] + 180, 30.0)
    ctx.check(np.isnan(r.getDepthAtPoint(la, lo)), what + ': depth off the rupture')


def over(q, lon, lat):
    pts = [local2(lon, lat, p) for p in q]
    cr = [pts[i][0] * pts[(i + 1) % 4][1] - pts[i][1] * pts[(i + 1) % 4][0] for i in range(4)]
    return all(c > -0.5 for c in cr) or all(c < 0.5 for c in cr)


def local2(lon, lat, p):
    return np.array(G.enu(lon, lat, G.ecef(p.longitude, p.latitude, 0.0))[:2])


def run(case, ctx):
    ctx.state(case)
    if case[0] == 'trace':
        _, st, dip, ly, pl = case
        name, lens, bends, groups = TRACES[ly]
        lon, lat = PLACES[pl]
        x0, y0, x1, y1, az = [], [], [], [], []
        s = st
        for gi, g in enumerate(groups):
            for j in g:
                x0.append(lon)
                y0.append(lat)
                lon, lat = G.step(lon, lat, s, lens[j])
                x1.append(lon)
                y1.append(lat)
                az.append(s)
                s += bends[j]
            lon, lat = G.step(lon, lat, s + 20, 9.0)
        n = len(lens)
        gi = [k for k, g in enumerate(groups) for _ in g]
        apart = name in ('apart', 'single')
        for top in (0.0, 3.5):
            z = [top] * n
            wd = [12.0] * n if not apart else [12.0, 9.0, 15.0][:n]
            dp = [float(dip)] * n if not apart else [float(min(90, dip + 5 * k)) for k in range(n)]
            for mode, strike in ((0, None), (1, [float(st)]), (2, [float(a) for a in az])):
                if mode == 1 and name == 'apart':
                    continue
                for form in (list, np.array) if mode == 0 else (list,):
                    args = [form(a) for a in (x0, y0, x1, y1, z, wd, dp)]
                    keep = [np.array(a) for a in args]
                    what = 'fromTrace strike %d dip %d %s at %r (top %r, strike argument %r)' % (st, dip, name, PLACES[pl], top, strike)
                    kw = {} if name == 'apart' else {'group_index': form(gi)}
                    r = QuadRupture.fromTrace(*args, Origin(dict(EV)), strike=strike, reference='some ref', **kw)
                    ctx.op()
                    ctx.check(all(np.array_equal(a, b) for a, b in zip(args, keep)), what + ': arguments were altered')
                    ctx.equal(r.getReference(), 'some ref', what + ': reference')
                    qs = r.getQuadrilaterals()
                    ctx.equal(len(qs), n, what + ': number of quadrilaterals')
                    conv = 0.8 if pl < 3 else 2.5
                    for i, q in enumerate(qs):
                        w = '%s: quadrilateral %d' % (what, i)
                        for p, (lo, la) in ((q[0], (x0[i], y0[i])), (q[1], (x1[i], y1[i]))):
                            ctx.check(abs((p.longitude - lo + 180) % 360 - 180) < 1e-6 and abs(p.latitude - la) < 1e-6 and abs(p.depth - top) < 1e-4, '%s: upper vertex %r, expected %r' % (w, (p.longitude, p.latitude, p.depth), (lo, la, top)))
                        L, W, s1, d1 = measure(q)
                        near(ctx, W, wd[i], 0.01 * wd[i], w + ': width')
                        near(ctx, d1, dp[i], conv + 0.7, w + ': dip')
                        for p in q[2:]:
                            near(ctx, p.depth, top + wd[i] * math.sin(math.radians(dp[i])), 0.1, w + ': lower depth')
                        # lower edge right of the trace, parallel to it
                        near(ctx, np.linalg.norm(V(q[2]) - V(q[3])) - L, 0.0, 0.01 * L + 0.1, w + ': length of the lower edge')
                        h = local(q[0], q[3])
                        sh = math.radians(s1)
                        near(ctx, h[0] * math.sin(sh) + h[1] * math.cos(sh), 0.0, 0.03 * wd[i] * (conv + 0.7), w + ': shift of the lower edge along strike')
                    summaries(ctx, r, what, groups)
                    if mode == 0 and form is list:
                        depth_lattice(ctx, r, what)
            ctx.outcome((name, dip, int(r.getArea())))
        ctx.traces += 1
    elif case[0] == 'orient':
        _, st, dip, pl = case
        rows = []
        for (dx, dy) in KNOWN:
            for (L, W) in SIZES:
                fx, fy = dx / 20.0 * L, dy / 10.0 * W
                rows.append((PLACES[pl][0], PLACES[pl][1], 40.0, fx, fy, L, W, float(st), float(dip)))
        # upper edges at and above sea level
        for t in (0.0, -0.5, -2.0):
            rows.append((PLACES[pl][0], PLACES[pl][1], t + 3 * math.sin(math.radians(dip)), 4.0, 3.0, 16.0, 9.0, float(st), float(dip)))
        far = [(PLACES[pl][0] + 0.4 * k, PLACES[pl][1], 25.0, 5.0, 4.0, 20.0 + k, 10.0 + k, float((st + 20 * k) % 360), float(max(10, dip - 5 * k))) for k in range(3)]
        for batch in [[x] for x in rows] + [far]:
            cols = [list(c) for c in zip(*batch)]
            keep = [list(c) for c in cols]
            r = QuadRupture.fromOrientation(*cols, Origin(dict(EV)))
            ctx.op()
            ctx.check(cols == keep, 'fromOrientation altered its arguments')
            qs = r.getQuadrilaterals()
            ctx.equal(len(qs), len(batch), 'fromOrientation: number of quadrilaterals')
            conv = 0.8 if pl < 3 else 1.5
            if batch is far:
                conv += 1.0
            for q, row in zip(qs, batch):
                px, py, pz, dx, dy, L, W, s0, d0 = row
                what = 'fromOrientation%r' % (row,)
                l, w, s1, d1 = measure(q)
                near(ctx, l, L, 0.008 * L + L * abs(q[0].depth) / 6371, what + ': length')
                near(ctx, w, W, 0.012 * W, what + ': width')
                angle(ctx, s1, s0, conv, what + ': strike')
                near(ctx, d1, d0, conv + 0.3, what + ': dip')
                near(ctx, q[0].depth, pz - dy * math.sin(math.radians(d0)), 1e-3, what + ': depth of the upper edge')
                near(ctx, q[3].depth, pz + (W - dy) * math.sin(math.radians(d0)), 0.02 * W + 0.05, what + ': depth of the lower edge')
                e, n = G.enu(q[0].longitude, q[0].latitude, G.ecef(px, py, 0.0))[:2]
                a = math.radians(s0)
                tol = 0.008 * math.hypot(dx, dy) + 0.03 * conv * max(dx, dy) + 0.02
                near(ctx, e * math.sin(a) + n * math.cos(a), dx, tol, what + ': position of the known point along strike')
                near(ctx, e * math.cos(a) - n * math.sin(a), dy * math.cos(math.radians(d0)), tol, what + ': position of the known point down dip')
            if len(batch) > 1:
                summaries(ctx, r, 'fromOrientation of %d planes at %r, strike %d, dip %d' % (len(batch), PLACES[pl], st, dip), [[i] for i in range(len(batch))])
        ctx.outcome((dip, int(r.getArea())))
        ctx.traces += 1
    elif case[0] == 'vertices':
        _, st, pl = case
        lon, lat = PLACES[pl]
        P = [G.group(lon, lat, st, [14, 9], [0, 0], 50, 15, 2.0)]
        lo, la = G.step(lon, lat, st, 40)
        P.append(G.group(lo, la, st + 12, [11], [0], 65, 10, 4.0))
        quads = [q for p in P for q in G.quads_of(p)]
        cols = [[q[k][c] for q in quads] for k in range(4) for c in range(3)]
        for gi, groups in ((None, [[0], [1], [2]]), ([0, 0, 1], [[0, 1], [2]]), (np.array([3, 3, 7]), [[0, 1], [2]]), ([0, 1, 2], [[0], [1], [2]])):
            for form in (list, np.array):
                args = [form(c) for c in cols]
                r = QuadRupture.fromVertices(*args, Origin(dict(EV)), group_index=gi, reference='some ref')
                ctx.op()
                what = 'fromVertices strike %d at %r group_index %r' % (st, PLACES[pl], gi)
                ctx.check(all(list(a) == c for a, c in zip(args, cols)), what + ': arguments were altered')
                ctx.equal(r.getReference(), 'some ref', what + ': reference')
                for q, w in zip(r.getQuadrilaterals(), quads):
                    for p, v in zip(q, w):
                        ctx.check(np.linalg.norm(V(p) - G.ecef(*v)) < 0.25, '%s: vertex %r, expected %r' % (what, (p.longitude, p.latitude, p.depth), v))
                summaries(ctx, r, what, groups)
                depth_lattice(ctx, r, what)
        # the quadrilaterals of the groups listed in any order (those of one group in their own order)
        for perm, (ga, gb) in itertools.product(((0, 1, 2), (0, 2, 1), (2, 0, 1)), ((0, 1), (1, 0), (9, 4))):
            gi = [gb if k == 2 else ga for k in perm]
            cols = [[quads[i][k][c] for i in perm] for k in range(4) for c in range(3)]
            order = [0, 1, 2] if ga < gb else [2, 0, 1]
            for g in (gi, np.array(gi)):
                r = QuadRupture.fromVertices(*cols, Origin(dict(EV)), group_index=g, reference='some ref')
                ctx.op()
                what = 'fromVertices strike %d at %r, quadrilaterals %r, group_index %r' % (st, PLACES[pl], perm, g)
                ctx.equal([r.getNumQuads(), r.getNumGroups()], [3, 2], what + ': quadrilaterals and groups')
                for q, i in zip(r.getQuadrilaterals(), order):
                    for p, v in zip(q, quads[i]):
                        ctx.check(np.linalg.norm(V(p) - G.ecef(*v)) < 0.25, '%s: vertex %r, expected %r' % (what, (p.longitude, p.latitude, p.depth), v))
        ctx.outcome((st, int(r.getArea())))
        ctx.traces += 1
    elif case[0] == 'edge':
        _, st, shape, pl = case
        lon, lat = PLACES[pl]
        kw = {'slope': 0.8} if shape == 'slope' else {'slope': -0.6} if shape == 'rise' else {'twist': 2.0} if shape == 'twist' else {}
        dip = 80 if shape == 'steep' else 45
        P = [G.group(lon, lat, st, [9, 7], [10, 0], dip, 12, 1.5, **kw)]
        for k in (1, 2):
            lo, la = G.step(lon, lat, st, 25 * k)
            P.append(G.group(lo, la, st + 8 * k, [6, 5][:k], [0, 0][:k], dip, 10, 1.0 + k, **kw))
        top = [v for p in P for v in p[:-1][:len(p) // 2]]
        bot = [v for p in P for v in p[:-1][len(p) // 2:][::-1]]
        gi = [k for k, p in enumerate(P) for _ in range(len(p) // 2)]
        if shape == 'left':
            for k in range(len(P)):
                ii = [i for i in range(len(gi)) if gi[i] == k]
                top[ii[0]:ii[-1] + 1] = top[ii[0]:ii[-1] + 1][::-1]
                bot[ii[0]:ii[-1] + 1] = bot[ii[0]:ii[-1] + 1][::-1]
        n0 = gi.count(0)
        subsets = [(list(range(n0)), None, 'one group'), (list(range(len(gi))), gi, 'three groups'), (list(range(len(gi))), [5 * g + 2 for g in gi], 'three groups, other numbers'),
                   (sorted(range(len(gi)), key=lambda i: (i - gi.index(gi[i]), gi[i])), 'perm', 'interleaved groups')]
        for idx, g, nm in subsets:
            T, B = [top[i] for i in idx], [bot[i] for i in idx]
            gg = [gi[i] for i in idx] if g == 'perm' else g
            cols = [[v[c] for v in T] for c in range(3)] + [[v[c] for v in B] for c in range(3)]
            keep = [list(c) for c in cols]
            r = EdgeRupture.fromArrays(*cols, Origin(dict(EV)), group_index=gg, mesh_dx=2.0, reference='some ref')
            ctx.op()
            what = 'fromArrays strike %d %s at %r, %s' % (st, shape, PLACES[pl], nm)
            ctx.check(cols == keep, what + ': arguments were altered')
            ctx.equal(r.getReference(), 'some ref', what + ': reference')
            order = sorted(set(gg)) if gg is not None else [0]
            rows = [[i for i in range(len(T)) if (gg[i] if gg is not None else 0) == k] for k in order]
            want = [(T[a], T[b], B[b], B[a]) for ii in rows for a, b in zip(ii[:-1], ii[1:])]
            qs = r.getQuadrilaterals()
            ctx.equal(len(qs), len(want), what + ': number of quadrilaterals')
            for q, w in zip(qs, want):
                for p, v in zip(q, w):
                    ctx.check(abs(p.longitude - v[0]) < 1e-9 and abs(p.latitude - v[1]) < 1e-9 and abs(p.depth - v[2]) < 1e-9, '%s: vertex %r, expected %r' % (what, (p.longitude, p.latitude, p.depth), v))
            length = area = 0.0
            N, up, east, north = np.zeros(3), np.zeros(3), np.zeros(3), np.zeros(3)
            for w in want:
                a, b, c, d = [G.ecef(*v) for v in w]
                length += np.linalg.norm(G.ecef(w[0][0], w[0][1], 0) - G.ecef(w[1][0], w[1][1], 0))
                for tri in ((a, b, c), (a, c, d)):
                    cr = np.cross(tri[2] - tri[0], tri[1] - tri[0]) / 2
                    area += np.linalg.norm(cr)
                    N += cr
            lo, la = want[0][0][0], want[0][0][1]
            c0 = sum(G.ecef(*v) for w in want for v in w) / 4 / len(want)
            mlo = math.degrees(math.atan2(c0[1], c0[0]))
            mla = la + (sum(v[1] for w in want for v in w) / 4 / len(want) - la)
            lr, pr = math.radians(mlo), math.radians(mla)
            E, Nn, Uu = np.array([-math.sin(lr), math.cos(lr), 0]), np.array([-math.sin(pr) * math.cos(lr), -math.sin(pr) * math.sin(lr), math.cos(pr)]), np.array([math.cos(pr) * math.cos(lr), math.cos(pr) * math.sin(lr), math.sin(pr)])
            if N.dot(Uu) < 0:
                N = -N
            N = N / np.linalg.norm(N)
            dipw = math.degrees(math.acos(min(1.0, N.dot(Uu))))
            strw = math.degrees(math.atan2(N.dot(E), N.dot(Nn))) - 90
            near(ctx, r.getLength(), length, 0.008 * length, what + ': length')
            near(ctx, r.getArea(), area, 1e-3 * area, what + ': area')
            near(ctx, r.getWidth(), area / length, 0.01 * area / length, what + ': width')
            near(ctx, r.getDip(), dipw, 0.5, what + ': dip')
            angle(ctx, r.getStrike(), strw, 0.7 if pl < 3 else 1.5, what + ': strike')
            near(ctx, r.getDepthToTop(), min(v[2] for v in T), 1e-9, what + ': depth to top')
            for k, col in (('lons', 0), ('lats', 1), ('depths', 2)):
                w = np.array([x for ii in rows for x in [T[i][col] for i in ii] + [B[i][col] for i in ii[::-1]] + [T[ii[0]][col], math.nan]])
                g2 = getattr(r, k)
                ctx.check(g2.shape == w.shape and np.allclose(g2, w, rtol=0, atol=1e-9, equal_nan=True), '%s: %s is %r, expected %r' % (what, k, g2, w))
            c = r.getRuptureContext([])
            for k, v in (('mag', 7.0), ('strike', r.getStrike()), ('dip', r.getDip()), ('ztor', r.getDepthToTop()), ('width', r.getWidth()), ('rake', 75.0), ('hypo_lat', 12.5), ('hypo_lon', -77.25), ('hypo_depth', 8.0)):
                ctx.check(getattr(c, k) == v, '%s: rupture context has %s %r, expected %r' % (what, k, getattr(c, k), v))
            ctx.outcome((shape, nm, int(area)))
        ctx.traces += 1
    elif case[0] == 'lengths':
        k = case[1]
        lon, lat = PLACES[1]
        P = [G.group(lon, lat, 30, [14, 9], [0, 0], 50, 15, 2.0)]
        quads = [q for p in P for q in G.quads_of(p)]
        if k == 'trace':
            f = QuadRupture.fromTrace
            cols = [[q[0][0] for q in quads], [q[0][1] for q in quads], [q[1][0] for q in quads], [q[1][1] for q in quads], [2.0] * 2, [10.0] * 2, [50.0] * 2]
        elif k == 'orient':
            f = QuadRupture.fromOrientation
            cols = [[lon] * 2, [lat] * 2, [20.0] * 2, [3.0] * 2, [4.0] * 2, [20.0] * 2, [10.0] * 2, [30.0] * 2, [50.0] * 2]
        elif k == 'vertices':
            f = QuadRupture.fromVertices
            cols = [[q[i][c] for q in quads] for i in range(4) for c in range(3)]
        else:
            f = EdgeRupture.fromArrays
            cols = [[v[c] for v in P[0][:3]] for c in range(3)] + [[v[c] for v in P[0][3:6][::-1]] for c in range(3)]
        f(*cols, Origin(dict(EV)))
        n = len(cols[0])
        muts = [lambda c: c[:-1], lambda c: c + [c[-1]], lambda c: []]
        for idx in [c for m in (1, 2) for c in itertools.combinations(range(len(cols)), m)]:
            for mu in itertools.product(muts, repeat=len(idx)):
                bad = [list(c) for c in cols]
                for i, m in zip(idx, mu):
                    bad[i] = m(bad[i])
                if len({len(c) for c in bad}) == 1:
                    continue
                refuse(ctx, lambda: f(*bad, Origin(dict(EV))), '%s with arrays of length %r' % (f.__name__, [len(c) for c in bad]))
        if k != 'orient':
            for g in ([0] * (n - 1), [0] * (n + 1), [0], [], list(range(n + 3)), np.zeros(n - 1, int), [1] * (2 * n)):
                if len(g) != n:
                    refuse(ctx, lambda: f(*cols, Origin(dict(EV)), group_index=g), '%s with %d group indices for %d' % (f.__name__, len(g), n))
        if k == 'trace':
            for s in ([], [1.0] * 3, np.array([1.0, 2, 3, 4])):
                refuse(ctx, lambda: f(*cols, Origin(dict(EV)), strike=s), 'fromTrace with %d strikes' % len(s), (TypeError, ConsistentLengthError))
        ctx.traces += 1
    elif case[0] == 'context':
        P = [G.group(10.0, 20.0, 30, [14, 9], [0, 0], 50, 15, 2.0)]
        for mech, rake in itertools.product((None, 'SS', 'NM', 'RS', 'ALL'), (None, -150.0, 0.0, 33.5)):
            ev = {k: v for k, v in EV.items() if k not in ('mech', 'rake')}
            if mech:
                ev['mech'] = mech
            if rake is not None:
                ev['rake'] = rake
            for cls in (QuadRupture, EdgeRupture):
                c = cls(G.doc(P), Origin(ev)).getRuptureContext([])
                w = rake if rake is not None else {None: 0.0, 'SS': 0.0, 'NM': -90.0, 'RS': 90.0, 'ALL': 0.0}[mech]
                ctx.check(c.rake == w, 'rupture context for mechanism %r, rake %r has rake %r, expected %r' % (mech, rake, c.rake, w))
                ctx.op()
        ctx.traces += 1


def refuse(ctx, f, what, exc=ConsistentLengthError):
    ctx.op()
    try:
        f()
    except exc:
        return
    except Exception as e:
        raise Violation('%s raises %r instead of ConsistentLengthError' % (what, e))
    raise Violation('%s was accepted' % what)
