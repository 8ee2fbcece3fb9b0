"""R07: rupture plots."""
import itertools
import math
import numpy as np
from mc.core import Violation
from mc import rupgeo as g
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt            # noqa
import cartopy.crs as ccrs                 # noqa
from impactutils.rupture import plotrupture as P   # noqa
from impactutils.rupture.factory import rupture_from_dict_and_origin   # noqa
from impactutils.rupture.origin import Origin   # noqa
from impactutils.time.ancient_time import HistoricTime   # noqa

LEVEL = 'exploration'
RULE = ('all ruptures of 1..3 (thorough 4) groups of 1..3 segments (plus 12 segments in 3 and 11 in 11 groups) over 4 places x 4 strikes x 3 dips (tops above, at and below sea level) x quadrilateral / edge ruptures: drawn in 3-D on new axes and on axes given by the caller (empty, '
        'already holding a drawing), and on a map; every line on the axes is read back. Oracle: the vertices of the rupture the harness generated.')
ASSUMPTIONS = ['map extents are judged for ruptures that do not cross the antimeridian', 'drawn coordinates are compared to 1e-9 degrees with the quadrilaterals of the rupture, which R06 and R02 judge',
               'the map joins the outlines of several groups into one line, as it always did']
PLACES = [(-118.0, 34.0), (0.0, 0.0), (140.0, -45.0), (20.0, 60.0)]


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for kind in ('quad', 'edge'):
        for pl in range(len(PLACES)):
            for strike in (0, 75, 160, 290):
                for dip in (30, 60, 90):
                    for segs in ([[1], [2], [3], [1, 2], [2, 1], [1, 1, 1]] + ([[2, 1, 3], [1, 1, 1, 1]] if n > 3 else []) +
                                 ([[5, 4, 3], [1] * 11] if (strike, dip) in ((75, 60), (160, 30)) else [])):
                        yield [kind, pl, strike, dip, segs]


def origin(lon, lat):
    return Origin({'id': 'a', 'netid': 'us', 'network': 'x', 'lat': lat, 'lon': lon, 'depth': 10.0, 'mag': 6.5,
                   'time': HistoricTime(2000, 1, 1), 'locstring': 'x', 'mech': 'ALL'})


def build(kind, pl, strike, dip, segs):
    lon, lat = PLACES[pl]
    polys = []
    for i, n in enumerate(segs):
        lo, la = g.step(lon, lat, strike + 20, 40 * i)
        polys.append(g.group(lo, la, strike, [8.0] * n, [5] * n, dip, 10.0, [1.5, -2.0, 0.0][(strike // 5 + dip // 30) % 3], slope=0.3 if kind == 'edge' else 0.0))
    return polys, rupture_from_dict_and_origin(g.doc(polys, metadata={'mesh_dx': 2.0} if kind == 'edge' else None), origin(lon, lat))


def lines3d(ax):
    return [np.array(ln.get_data_3d(), dtype=float).T for ln in ax.get_lines()]


def run(case, ctx):
    kind, pl, strike, dip, segs = case
    polys, rup = build(*case)
    try:
        # expected: one closed outline per quadrilateral, depth downwards
        want = []
        top = [[q[:3] for q in poly[:-1]] for poly in polys]
        for poly in top:
            n = len(poly) // 2
            for i in range(n - 1):
                want.append((poly[i], poly[i + 1], poly[2 * n - 2 - i], poly[2 * n - 1 - i]))
        for given in (None, 'empty', 'used'):
            before = []
            figs = plt.get_fignums()
            if given is None:
                ax = P.plot_rupture_wire3d(rup)
                if len(plt.get_fignums()) != len(figs) + 1:
                    raise Violation('drawing without axes made %d figures' % (len(plt.get_fignums()) - len(figs)))
            else:
                a0 = plt.figure().add_subplot(111, projection='3d')
                if given == 'used':
                    a0.plot([1, 2], [3, 4], [5, 6], 'r')
                    before = lines3d(a0)
                ax = P.plot_rupture_wire3d(rup, a0) if given == 'empty' else P.plot_rupture_wire3d(rup, ax=a0)
                ctx.check(ax is a0, 'the rupture was not drawn on the axes given')
            ctx.op()
            got = lines3d(ax)
            for b, x in zip(before, got):
                ctx.check(np.array_equal(b, x), 'an existing line of the axes was changed')
            got = got[len(before):]
            ctx.equal(len(got), len(want), 'number of outlines drawn for segments %r' % segs)
            for w, x in zip(want, got):
                if x.shape != (5, 3) or not np.array_equal(x[0], x[4]):
                    raise Violation('outline is not a closed quadrilateral: %r' % x.tolist())
                for k in range(4):
                    # the lower edge may be moved into the plane of the segment (a documented adjustment of quadrilateral ruptures)
                    tol = 1e-9 if k in (0, 1) or kind == 'edge' else 2e-3
                    d = (abs(x[k, 0] - w[k][0]), abs(x[k, 1] - w[k][1]), abs(-x[k, 2] - w[k][2]))
                    if max(d) > tol * (1 if k in (0, 1) else 1) * (100 if tol > 1e-9 and d[2] == max(d) else 1):
                        raise Violation('outline vertex %d drawn at %r, expected %r' % (k, x[k].tolist(), w[k]))
            # and exactly the quadrilaterals the rupture reports
            for q, x in zip(rup.getQuadrilaterals(), got):
                w = np.array([[p.longitude, p.latitude, -p.depth] for p in q])
                if not np.allclose(x[:4], w, rtol=0, atol=1e-12):
                    raise Violation('outline %r differs from the quadrilateral %r' % (x.tolist(), w.tolist()))
            ctx.equal((ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()), ('Longitude', 'Latitude', 'Depth'), 'axis labels')
            plt.close('all')
        flat = plt.figure().add_subplot(111)
        try:
            P.plot_rupture_wire3d(rup, flat)
        except TypeError:
            ctx.op()
        else:
            raise Violation('plain axes were accepted for a 3-D drawing')
        ctx.equal(len(flat.get_lines()), 0, 'lines on refused axes')
        plt.close('all')
        # map (drawing the background takes a second)
        if dip != 60 or (kind == 'edge' and strike != 75) or (ctx.tier == 'quick' and strike in (0, 290) and segs != [1, 2]):
            ctx.state(case)
            return
        lats, lons = np.array(rup.lats), np.array(rup.lons)
        ax = P.map_rupture(rup)
        ctx.op()
        ls = ax.get_lines()
        ctx.equal(len(ls), 1, 'lines on the map')
        xy = np.asarray(ls[0].get_xydata(), dtype=float)
        w = np.column_stack([lons[~np.isnan(lons)], lats[~np.isnan(lats)]])
        if xy.shape != w.shape or not np.allclose(xy, w, rtol=0, atol=1e-9):
            raise Violation('the map shows %r, the outline of the rupture is %r' % (xy.tolist(), w.tolist()))
        # the line is in longitude / latitude, whatever the map projection
        pt = ls[0].get_transform().transform(xy[:1])[0]
        pr = ax.projection.transform_point(xy[0, 0], xy[0, 1], ccrs.PlateCarree())
        if not np.allclose(pt, ax.transData.transform(pr), atol=1e-3):
            raise Violation('the outline is not drawn at its place on the map')
        ext = ax.get_extent()
        for x, y in xy:
            for dx, dy in itertools.product((-4.5, 0, 4.5), repeat=2):
                if dx and dy:
                    continue
                px, py = ax.projection.transform_point(x + dx, y + dy, ccrs.PlateCarree())
                if not (ext[0] <= px <= ext[1] and ext[2] <= py <= ext[3]):
                    raise Violation('the map %r does not reach %r degrees around the rupture vertex %r' % (ext, (dx, dy), (x, y)))
        ctx.outcome(len(want))
        ctx.state(case)
    finally:
        plt.close('all')
