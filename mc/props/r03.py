"""R03: distances from sites to ruptures."""
import itertools
import logging
import math
import numpy as np
from mc.core import Violation
from mc import rupgeo as G
from impactutils.exceptions import ConsistentLengthError
from impactutils.rupture.origin import Origin
from impactutils.rupture.distance import get_distance, get_distance_measures, Distance
from impactutils.rupture.point_rupture import PointRupture
from impactutils.rupture.quad_rupture import QuadRupture
from impactutils.rupture.edge_rupture import EdgeRupture
from impactutils.time.ancient_time import HistoricTime

logging.disable(logging.CRITICAL)
LEVEL = 'exploration'
RULE = ('planar ruptures: 8 strikes (thorough 24) x 4 dips x 2 top depths x 8 layouts of 1..9 segments in 1..4 groups x 4 places (antimeridian, high latitude), each with a 11 x 11 lattice of sites (off the ends, across, '
        'above, on vertices and edges, far away) at 2 site depths, hypocentres below, at and above sea level: every distance compared with an independent point-to-surface computation; the same sites as row, column, matrix, transposed matrix, '
        'single sites, permuted, as thousands of sites, reversed groups and integer arrays; edge ruptures (planar, sloping, twisted) x 3 mesh spacings; point ruptures over 4 mechanisms x 4 regions x 3 magnitudes; '
        'get_distance for every single measure, every pair, unknown measures and every mismatch of array shapes; Distance contexts for 3 ground-motion models.')
ASSUMPTIONS = ['the rupture surface is made of plane quadrilaterals between its vertices; horizontal distances ignore the sag of a chord below the curved surface (L*L/8R)',
               'edge rupture distances are exact to the mesh spacing', 'epicentral and Joyner-Boore distance are judged for sites at the surface']
PLACES = [(0.0, 0.0), (-118.2, 34.1), (179.95, -45.3), (10.0, 75.0)]
LAYOUTS = [([20], [[0]]), ([14, 9], [[0, 1]]), ([14, 9, 11], [[0, 1, 2]]), ([14, 9], [[0], [1]]), ([14, 9, 11], [[0, 1], [2]]), ([8, 6, 9], [[0], [1], [2]]), ([8, 6, 9, 7, 5], [[0], [1, 2], [3, 4]]), ([5, 4, 3, 6, 5, 4, 3, 6, 5], [[0, 1, 2, 3, 4, 5], [6], [7], [8]])]
OFFS = [-120.0, -35.0, -9.0, -1.0, 0.0, 2.0, 7.0, 14.0, 21.0, 40.0, 180.0]
R = 6371.0
BASE = {'id': 'x', 'netid': 'us', 'network': '', 'lat': 0.0, 'lon': 0.0, 'depth': 8.0, 'locstring': '', 'mag': 7.0, 'time': HistoricTime(2008, 5, 12)}


def cases(tier):
    for st in range(0, 360, 45 if tier == 'quick' else 15):
        for dip in (20, 45, 70, 90):
            for top in (0.0, 4.0):
                for ly in range(len(LAYOUTS)):
                    for pl in range(len(PLACES)):
                        if tier == 'quick' and ((st // 45 + dip + ly + pl + int(top)) % 2 or ly > 4 and (st % 90 or dip == 70)):
                            continue
                        yield ['quad', st, dip, top, ly, pl]
    for st in (0, 130) if tier == 'quick' else range(0, 360, 30):
        for shape in ('planar', 'slope', 'twist'):
            for dx in (0.5, 1.0, 3.0):
                for pl in range(len(PLACES)):
                    yield ['edge', st, shape, dx, pl]
    for m in ('ALL', 'RS', 'NM', 'SS'):
        for rg in (None, 'Active Shallow Crust', 'Stable Shallow Crust', 'Volcanic'):
            yield ['point', m, rg]
    for i in range(4):
        yield ['api', i]
    yield ['ctx']


def polys(st, dip, top, ly, pl):
    lens, groups = LAYOUTS[ly]
    lon, lat = PLACES[pl]
    out = []
    for gi, g in enumerate(groups):
        if gi:
            lon, lat = G.step(lon, lat, st, sum(lens[j] for j in groups[gi - 1]) + 5)
        out.append(G.group(lon, lat, st + 8 * gi, [lens[j] for j in g], [12, -20, 0, 9, -7, 4][:len(g)], dip, 15.0, top + gi))
    return out


def sites(st, pl, extra=()):
    lon, lat = PLACES[pl]
    out = []
    for a in OFFS:
        lo, la = G.step(lon, lat, st, a)
        for b in OFFS:
            out.append(G.step(lo, la, st + 90, b))
    out += [(v[0], v[1]) for v in extra]
    return np.array([x for x, _ in out]), np.array([y for _, y in out])


def hav(lon1, lat1, lon2, lat2):
    a, b = math.radians(lat1), math.radians(lat2)
    d = math.radians(lon2 - lon1)
    h = math.sin((b - a) / 2) ** 2 + math.cos(a) * math.cos(b) * math.sin(d / 2) ** 2
    return 2 * R * math.asin(min(1.0, math.sqrt(h)))


def horiz(site, q):
    """(distance, inside margin) in the tangent plane at the site; q: 4 ECEF surface points"""
    pts = [np.array(G.enu(site[0], site[1], p)[:2]) for p in q]
    o = np.zeros(2)
    cr = []
    d = 1e9
    for i in range(4):
        a, b = pts[i], pts[(i + 1) % 4]
        if np.linalg.norm(b - a) < 1e-9:
            continue
        cr.append((a[0] * b[1] - a[1] * b[0]) / np.linalg.norm(b - a))
        d = min(d, G.seg_dist(o, a, b))
    area = abs(sum(pts[i][0] * pts[(i + 1) % 4][1] - pts[i][1] * pts[(i + 1) % 4][0] for i in range(4))) / 2
    inside = area > 0.05 and (all(c > 0 for c in cr) or all(c < 0 for c in cr))
    return (0.0 if inside else d), (d if inside else -d)


def close(ctx, got, lo, hi, what):
    if not (lo <= got <= hi):
        raise Violation('%s: %r, expected between %r and %r' % (what, got, lo, hi))


def run(case, ctx):
    ctx.state(case)
    if case[0] == 'quad':
        _, st, dip, top, ly, pl = case
        ps = polys(st, dip, top, ly, pl)
        hyp = G.step(PLACES[pl][0], PLACES[pl][1], st + 60, 9.0)
        ev = dict(BASE, lon=hyp[0], lat=hyp[1], depth=(8.0, 0.0, -2.5)[(st // 5 + dip // 10 + ly) % 3])
        r = QuadRupture(G.doc(ps), Origin(ev))
        given = [q for p in ps for q in G.quads_of(p)]
        lon, lat = sites(st, pl, [v for p in ps for v in p[:-1]])
        n = len(lon)
        quads = [[G.ecef(p.longitude, p.latitude, p.depth) for p in q] for q in r.getQuadrilaterals()]
        squads = [[G.ecef(p.longitude, p.latitude, 0.0) for p in q] for q in r.getQuadrilaterals()]
        gq = [[G.ecef(*v) for v in q] for q in given]
        L = max(float(np.linalg.norm(s[i] - s[(i + 1) % 4])) for s in squads for i in range(4))
        sag = L * L / 8 / R
        what = 'strike %d dip %d top %r layout %d at %r' % (st, dip, top, ly, PLACES[pl])
        for sd in (0.0, 2.5):
            dep = np.full(n, sd)
            keep = (lon.copy(), lat.copy(), dep.copy())
            d = get_distance(['repi', 'rhypo', 'rrup', 'rjb'], lat, lon, dep, r)
            ctx.op(4)
            for a, b in zip(keep, (lon, lat, dep)):
                ctx.check(np.array_equal(a, b), what + ': site arrays were altered')
            for k in ('repi', 'rhypo', 'rrup', 'rjb'):
                ctx.check(isinstance(d[k], np.ndarray) and d[k].shape == (n,), '%s: %s has shape %r' % (what, k, getattr(d[k], 'shape', None)))
            for i in range(n):
                p = G.ecef(lon[i], lat[i], sd)
                w = '%s: site %r at depth %r: ' % (what, (lon[i], lat[i]), sd)
                t = min(G.quad_dist(p, q) for q in quads)
                close(ctx, d['rrup'][i], t - 1e-4, t + 1e-4, w + 'rrup')
                t2 = min(G.quad_dist(p, q) for q in gq)
                close(ctx, d['rrup'][i], t2 - 0.3, t2 + 0.3, w + 'rrup from the given vertices')
                h = hav(lon[i], lat[i], hyp[0], hyp[1])
                t = math.hypot(h, ev['depth'] - sd)
                close(ctx, d['rhypo'][i], t * 0.999 - 1e-3, t * 1.001 + 1e-3, w + 'rhypo')
                if sd == 0:
                    close(ctx, d['repi'][i], h * 0.999 - 1e-3, h * 1.001 + 1e-3, w + 'repi')
                    hs = [horiz((lon[i], lat[i]), q) for q in squads]
                    t = min(x[0] for x in hs)
                    tol = 0.003 * t + sag + 0.01
                    close(ctx, d['rjb'][i], max(0.0, t - tol), t + tol, w + 'rjb')
                    if dip != 90 and max(x[1] for x in hs) > 0.02 + sag:
                        ctx.check(d['rjb'][i] == 0, w + 'rjb is %r above the rupture' % d['rjb'][i])
                    ctx.check(d['rrup'][i] >= d['rjb'][i] - 2 * sag - 0.01 - 1e-3 * t, w + 'rrup %r below rjb %r' % (d['rrup'][i], d['rjb'][i]))
            if sd == 0:
                base = d
                ctx.outcome((int(base['rjb'].sum()), int(base['rrup'].sum())))
        # shapes and orders
        dep = np.zeros(n)
        m = n - n % 11
        rr, rj = base['rrup'], base['rjb']
        variants = {
            'column': (lambda a: a.reshape(-1, 1), lambda a: a.reshape(-1)), 'row': (lambda a: a.reshape(1, -1), lambda a: a.reshape(-1)),
            'matrix': (lambda a: a[:m].reshape(11, -1), lambda a: a.reshape(-1)), 'transposed': (lambda a: a[:m].reshape(11, -1).T, lambda a: a.T.reshape(-1)),
            'fortran': (lambda a: np.asfortranarray(a[:m].reshape(11, -1)), lambda a: a.reshape(-1)), 'reversed': (lambda a: a[::-1], lambda a: a[::-1]),
            'strided': (lambda a: np.repeat(a, 2)[::2], lambda a: a), 'thousands': (lambda a: np.tile(a, 40), lambda a: a[-n:])}
        for nm, (f, g) in variants.items():
            lo, la, de = f(lon), f(lat), f(dep)
            for meth, ref in ((r.computeRrup, rr), (r.computeRjb, rj)):
                try:
                    o = meth(lo, la, de)[0]
                except Exception as e:
                    raise Violation('%s: %s fails for sites as %s: %r' % (what, meth.__name__, nm, e))
                ctx.op()
                ctx.check(o.shape == lo.shape, '%s: %s for sites as %s has shape %r' % (what, meth.__name__, nm, o.shape))
                x = g(o)
                ctx.check(np.allclose(x, ref[:len(x)], rtol=0, atol=1e-7), '%s: %s for sites as %s differs' % (what, meth.__name__, nm))
            for meth, k in ((r.computeRhyp, 'rhypo'), (r.computeRepi, 'repi')):
                o = meth(lo, la, de)
                x = g(o)
                ctx.check(o.shape == lo.shape and np.allclose(x, base[k][:len(x)], rtol=0, atol=1e-7), '%s: %s for sites as %s differs' % (what, k, nm))
        for i in (0, 60, n - 1):
            o = r.computeRrup(lon[i:i + 1], lat[i:i + 1], dep[i:i + 1])[0]
            ctx.check(abs(o[0] - rr[i]) < 1e-7, what + ': rrup of a single site differs')
        if len(ps) > 1:
            r2 = QuadRupture(G.doc(ps[::-1]), Origin(ev))
            for a, b in ((r2.computeRrup, rr), (r2.computeRjb, rj)):
                ctx.check(np.allclose(a(lon, lat, dep)[0], b, rtol=0, atol=1e-6), what + ': distances depend on the order of the groups')
        ctx.traces += 1
    elif case[0] == 'edge':
        _, st, shape, dx, pl = case
        lon0, lat0 = PLACES[pl]
        kw = {'slope': 0.8} if shape == 'slope' else {'twist': 4.0} if shape == 'twist' else {}
        ps = [G.group(lon0, lat0, st, [7, 5], [15, 0], 50, 9, 1.0, **kw)]
        lo1, la1 = G.step(lon0, lat0, st, 20)
        ps.append(G.group(lo1, la1, st, [6], [0], 50, 9, 2.0, **kw))
        lo2, la2 = G.step(lon0, lat0, st + 15, 32)
        ps.append(G.group(lo2, la2, st + 10, [6, 7, 8], [0, 10, 0], 50, 9, 2.0, **kw))
        r = EdgeRupture(G.doc(ps), Origin(dict(BASE, lon=lon0, lat=lat0)), mesh_dx=dx)
        lon, lat = sites(st, pl)
        sel = [i for i in range(len(lon)) if i % 2 == 0]
        lon, lat = lon[sel], lat[sel]
        dep = np.zeros(len(lon))
        d = get_distance(['rrup', 'rjb', 'repi'], lat, lon, dep, r, dx=dx)
        ctx.op(3)
        fine, fineh = [], []
        u = np.linspace(0, 1, 41)
        U, V = np.meshgrid(u, u)
        for p in ps:
            for q in G.quads_of(p):
                for acc, flat in ((fine, False), (fineh, True)):
                    e = [G.ecef(v[0], v[1], 0.0 if flat else v[2]) for v in q]
                    pts = ((1 - U) * (1 - V))[..., None] * e[0] + (U * (1 - V))[..., None] * e[1] + (U * V)[..., None] * e[2] + ((1 - U) * V)[..., None] * e[3]
                    acc.append(pts.reshape(-1, 3))
        fine, fineh = np.vstack(fine), np.vstack(fineh)
        res = 0.3
        for i in range(len(lon)):
            s = G.ecef(lon[i], lat[i], 0)
            for k, F in (('rrup', fine), ('rjb', fineh)):
                t = float(np.sqrt(((F - s) ** 2).sum(1)).min())
                close(ctx, d[k][i], max(0.0, t - res), t + 1.1 * dx + 0.01, '%r: site %r: %s' % (case, (lon[i], lat[i]), k))
            ctx.check(d['rrup'][i] >= d['rjb'][i] - 1.1 * dx - 0.02, '%r: rrup below rjb' % case)
        m = len(lon) - len(lon) % 5
        for nm, f, g in (('matrix', lambda a: a[:m].reshape(5, -1), lambda a: a.reshape(-1)), ('transposed', lambda a: a[:m].reshape(5, -1).T, lambda a: a.T.reshape(-1)), ('reversed', lambda a: a[::-1], lambda a: a[::-1])):
            for meth, k in ((r.computeRrup, 'rrup'), (r.computeRjb, 'rjb')):
                o = meth(f(lon), f(lat), f(dep))[0]
                x = g(o)
                ctx.check(o.shape == f(lon).shape and np.allclose(x, d[k][:len(x)], rtol=0, atol=1e-9), '%r: %s for sites as %s differs' % (case, k, nm))
                ctx.op()
        r2 = EdgeRupture(G.doc(ps[::-1]), Origin(dict(BASE, lon=lon0, lat=lat0)), mesh_dx=dx)
        ctx.check(np.allclose(r2.computeRrup(lon, lat, dep)[0], d['rrup'], rtol=0, atol=1e-6), '%r: rrup depends on the order of the groups' % case)
        ctx.traces += 1
    elif case[0] == 'point':
        _, m, rg = case
        for mag, hd in ((5.0, 10.0), (7.5, 12.0)) if ctx.quick else ((5.0, 10.0), (6.0, 3.0), (7.5, 12.0), (8.5, 30.0)):
            ev = dict(BASE, mag=mag, depth=hd, mech=m, lon=-118.0, lat=34.0)
            o = Origin(ev)
            if rg:
                o._tectonic_region = rg
            r = PointRupture(o)
            lon = np.array([-118.0, -117.99, -117.9, -117.5, -117.0, -116.0, -112.0, -118.4])
            lat = np.array([34.0] * 7 + [33.2])
            dep = np.zeros(8)
            d = get_distance(['repi', 'rhypo', 'rrup', 'rjb', 'rx', 'rvolc'], lat, lon, dep, r)
            ctx.op(6)
            for i in range(8):
                h = hav(lon[i], lat[i], -118.0, 34.0)
                w = 'point rupture %r mag %r: site %d ' % (case, mag, i)
                close(ctx, d['repi'][i], h * 0.999 - 1e-3, h * 1.001 + 1e-3, w + 'repi')
                t = math.hypot(h, hd)
                close(ctx, d['rhypo'][i], t * 0.999 - 1e-3, t * 1.001 + 1e-3, w + 'rhypo')
                close(ctx, d['rjb'][i], 0, d['repi'][i] + 0.01, w + 'rjb')
                close(ctx, d['rrup'][i], d['rjb'][i] - 0.02, d['rhypo'][i] + 0.02, w + 'rrup')
                ctx.check(d['rjb_var'][i] >= 0 and d['rrup_var'][i] >= 0, w + 'variance')
            od = np.argsort(d['repi'])
            for k in ('rjb', 'rrup'):
                ctx.check((np.diff(d[k][od]) >= -1e-6).all(), 'point rupture %r: %s does not grow with distance: %r' % (case, k, d[k][od]))
                ctx.check(d[k + '_var'].shape == (8,), 'shape of variance')
            for k in ('rx', 'ry', 'ry0', 'U', 'T', 'rvolc'):
                ctx.check(np.array_equal(d[k], np.zeros(8)), 'point rupture: %s is %r' % (k, d[k]))
            f = lambda a: a[::-1].reshape(4, 2)
            x = r.computeRjb(f(lon), f(lat), f(dep))[0]
            ctx.check(x.shape == (4, 2) and np.allclose(x.reshape(-1)[::-1], d['rjb'], rtol=0, atol=1e-9), 'point rupture: rjb depends on the arrangement of sites')
        ctx.traces += 1
    elif case[0] == 'api':
        i = case[1]
        o = Origin(dict(BASE))
        ps = polys(45, 45, 4.0, 4, 0)
        r = (QuadRupture(G.doc(ps), o), EdgeRupture(G.doc(ps), o, mesh_dx=2.0), QuadRupture(G.doc(ps[:1]), o), EdgeRupture(G.doc(ps[:1]), o, mesh_dx=2.0))[i]
        lon, lat = np.array([[0.3, 0.1, -0.2], [0.05, 1.0, 0.0]]), np.array([[0.1, 0.2, 0.3], [-0.1, 0.0, 0.4]])
        dep = np.zeros((2, 3))
        ms = get_distance_measures()
        ctx.equal(sorted(ms), sorted(['repi', 'rhypo', 'rjb', 'rrup', 'rx', 'ry', 'ry0', 'U', 'T', 'rvolc']), 'distance measures')
        gc2 = r.computeGC2(lon, lat, dep)
        want = {'repi': r.computeRepi(lon, lat, dep), 'rhypo': r.computeRhyp(lon, lat, dep), 'rjb': r.computeRjb(lon, lat, dep)[0], 'rrup': r.computeRrup(lon, lat, dep)[0], 'rvolc': np.zeros((2, 3))}
        want.update(gc2)
        subsets = [c for k in (1, 2, 3) for c in itertools.combinations(ms, k)] + [tuple(ms)]
        for c in subsets:
            for form in ([list(c)] + ([c[0]] if len(c) == 1 else [])):
                d = get_distance(form, lat, lon, dep, r, dx=2.0)
                ctx.op()
                for k in c:
                    ctx.check(k in d and d[k].shape == (2, 3) and np.array_equal(d[k], want[k]), 'get_distance(%r): %s is %r, expected %r' % (form, k, d.get(k), want[k]))
                    if k in ('rjb', 'rrup'):
                        ctx.check(k + '_var' in d and d[k + '_var'] is None, 'get_distance(%r): variance of %s' % (form, k))
        il, ia = np.array([[0, 1, -1], [2, 0, 3]]), np.array([[0, 0, 1], [1, -1, 2]])
        di, df = get_distance(list(ms), ia, il, np.zeros((2, 3), int), r, dx=2.0), get_distance(list(ms), ia * 1.0, il * 1.0, dep, r, dx=2.0)
        for k in ms:
            ctx.check(np.allclose(di[k], df[k], rtol=0, atol=1e-9), 'get_distance: %s for integer coordinates is %r, for the same floating point coordinates %r' % (k, di[k], df[k]))
        for bad in ('foo', ['rjb', 'foo'], ['RJB'], [''], ['rrup ', 'rjb']):
            try:
                get_distance(bad, lat, lon, dep, r)
            except NotImplementedError:
                pass
            else:
                raise Violation('get_distance(%r) was accepted' % (bad,))
        for sh in itertools.product([(6,), (2, 3), (3, 2), (5,)], repeat=3):
            if len(set(sh)) == 1:
                continue
            a = [np.zeros(s) for s in sh]
            try:
                get_distance('repi', a[0], a[1], a[2], r)
            except ConsistentLengthError:
                pass
            else:
                raise Violation('get_distance accepted arrays of shape %r' % (sh,))
            ctx.op()
        ctx.traces += 1
    elif case[0] == 'ctx':
        from openquake.hazardlib.gsim.abrahamson_2014 import AbrahamsonEtAl2014
        from openquake.hazardlib.gsim.campbell_bozorgnia_2003 import CampbellBozorgnia2003NSHMP2007 as CampbellBozorgnia2003
        from openquake.hazardlib.gsim.berge_thierry_2003 import BergeThierryEtAl2003SIGMA
        o = Origin(dict(BASE))
        ps = polys(45, 45, 4.0, 4, 0)
        lon, lat = np.array([0.3, 0.1, -0.2, 0.0]), np.array([0.1, 0.2, 0.3, 0.4])
        dep = np.zeros(4)
        for r in (QuadRupture(G.doc(ps), o), EdgeRupture(G.doc(ps), o, mesh_dx=2.0)):
            for gm in (AbrahamsonEtAl2014(), CampbellBozorgnia2003(), BergeThierryEtAl2003SIGMA(), [AbrahamsonEtAl2014(), CampbellBozorgnia2003()], []):
                D = Distance(gm, lon, lat, dep, r)
                c = D.getDistanceContext()
                req = {'repi', 'rhypo', 'rrup', 'rjb'}
                for g in (gm if isinstance(gm, list) else [gm]):
                    req |= set(g.REQUIRES_DISTANCES)
                want = {'repi': r.computeRepi(lon, lat, dep), 'rhypo': r.computeRhyp(lon, lat, dep), 'rjb': r.computeRjb(lon, lat, dep)[0], 'rrup': r.computeRrup(lon, lat, dep)[0], 'rvolc': np.zeros(4)}
                want.update(r.computeGC2(lon, lat, dep))
                for k in req:
                    ctx.check(np.array_equal(getattr(c, k), want[k]), 'distance context: %s is %r, expected %r' % (k, getattr(c, k), want[k]))
                c.rrup[:] = -1
                ctx.check(np.array_equal(D.getDistanceContext().rrup, want['rrup']), 'a context handed out shares its arrays')
                ctx.op()
            for bad in (None, 'x', [AbrahamsonEtAl2014(), 5], AbrahamsonEtAl2014):
                try:
                    Distance(bad, lon, lat, dep, r)
                except TypeError:
                    pass
                else:
                    raise Violation('Distance accepted %r as ground-motion model' % (bad,))
        ctx.traces += 1
