"""G04: city labels on a Mercator map."""
import itertools
import math
import numpy as np
import pandas as pd
from mc.core import Violation
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from impactutils.mapping.city import Cities
from impactutils.mapping.mercatormap import MercatorMap

LEVEL = 'exploration'
RULE = ('all placements of a second city on a lattice around a first one (same place to well clear, all directions) x which of the two is larger; all placements of one city on a lattice over and beyond the map and its edges; '
        'all gaps between two labels in steps of a pixel or two; three fonts; namesakes; all orders of populations of 3 and 4 mutually close cities; tables larger than the per-cell limit; over several map extents (both hemispheres), figure shapes, axes rectangles, paddings, font sizes, shadow and dots on / off. '
        'The labels actually on the axes are measured with the renderer after drawing. Oracle: Mercator projection and greedy selection by population written here.')
ASSUMPTIONS = ['the canvas is drawn before drawCities, as documented', 'gaps within one pixel of touching are not judged', 'no two cities have the same population',
               'bounds do not cross the antimeridian']
OFF = 4
R = 6378137.0


def merc(lon, lat, clon):
    e = math.sqrt(0.00669437999014)
    la = math.radians(lat)
    y = R * (math.atanh(math.sin(la)) - e * math.atanh(e * math.sin(la)))
    return R * math.radians(lon - clon), y


MAPS = [((-121.0, -116.0, 32.0, 36.0), (5, 5), [0, 0, 1, 1], .25, 10),
        ((-121.0, -116.0, 32.0, 36.0), (5, 5), [.1, .15, .8, .7], .5, 8),
        ((10.0, 30.0, -35.0, -20.0), (4, 6), [0, 0, 1, 1], .1, 9.5),
        ((100.0, 101.0, -0.5, 0.5), (6, 4), [.3, .3, .6, .4], .25, 7),
        ((150.0, 170.0, 50.0, 56.0), (6, 4), [.05, .05, .9, .9], 0, 12)]


def cases(tier):
    n = 4 if tier == 'quick' else 8
    for m in range(len(MAPS)):
        for i in range(-n, n + 1):
            yield ['pair', m, i, n]
        for i in range(7):
            yield ['edge', m, i]
        for perm in itertools.permutations(range(3)):
            yield ['cluster', m, list(perm)]
        if tier != 'quick':
            for perm in itertools.permutations(range(4)):
                yield ['cluster', m, list(perm)]
        yield ['many', m]
        yield ['fine', m]
        yield ['names', m]
        yield ['options', m]
    yield ['empty']


def overlap(a, b):
    """signed: > 0 overlap in pixels, < 0 gap"""
    return min(min(a[1], b[1]) - max(a[0], b[0]), min(a[3], b[3]) - max(a[2], b[2]))


def one(ctx, m, cities, **kw):
    bounds, figsize, dims, pad, fs = MAPS[m]
    df = pd.DataFrame({'name': [c[0] for c in cities], 'lat': [float(c[1]) for c in cities], 'lon': [float(c[2]) for c in cities], 'pop': [int(c[3]) for c in cities]})
    orig = df.copy(deep=True)
    what = 'map %r, cities %r, %r' % (MAPS[m], cities, kw)
    cs = Cities(df)
    try:
        mm = MercatorMap(bounds, figsize, cs, padding=pad, dimensions=dims)
        ax = mm.axes
        mm.figure.canvas.draw()
        before = set(ax.texts), set(ax.lines)
        ext = ax.get_extent()
        out = mm.drawCities(fontsize=fs, **kw)
        mm.figure.canvas.draw()
        if ax.get_extent() != ext:
            raise Violation('%s: drawing cities changed the extent of the map from %r to %r' % (what, ext, ax.get_extent()))
        ctx.transitions += 1
        rend = mm.figure.canvas.get_renderer()
        texts = [t for t in ax.texts if t not in before[0]]
        dots = [l for l in ax.lines if l not in before[1]]
        box = ax.get_window_extent(rend)
        mapbox = (box.x0, box.x1, box.y0, box.y1)
        clon = (bounds[0] + bounds[1]) / 2
        # where the map says the corners are
        (dx0, dy0), (dx1, dy1) = ax.transData.transform([merc(bounds[0], bounds[2], clon), merc(bounds[1], bounds[3], clon)])
        if max(abs(dx0 - mapbox[0]), abs(dx1 - mapbox[1]), abs(dy0 - mapbox[2]), abs(dy1 - mapbox[3])) > .5:
            raise Violation('%s: the map does not show its bounds' % what)
        lim = (figsize[0] * dims[0], figsize[0] * (dims[0] + dims[2]), figsize[1] * dims[1], figsize[1] * (dims[1] + dims[3]))
        if mapbox[0] < lim[0] * mm.figure.dpi - 1 or mapbox[1] > lim[1] * mm.figure.dpi + 1 or mapbox[2] < lim[2] * mm.figure.dpi - 1 or mapbox[3] > lim[3] * mm.figure.dpi + 1:
            raise Violation('%s: the map is not inside its rectangle' % what)
        got = {}
        byname = {c[0]: c for c in cities}
        for t in texts:
            e = t.get_window_extent(rend)
            if t.get_text() in got or t.get_text() not in byname:
                raise Violation('%s: label %r drawn twice or unknown' % (what, t.get_text()))
            got[t.get_text()] = (e.x0, e.x1, e.y0, e.y1)
            if t.get_fontname() != kw.get('fontname', 'DejaVu Sans'):
                raise Violation('%s: font %r' % (what, t.get_fontname()))
            if abs(t.get_fontsize() - fs) > 1e-9:
                raise Violation('%s: font size %r' % (what, t.get_fontsize()))
        odf = out.getDataFrame()
        if sorted(odf['name']) != sorted(got):
            raise Violation('%s: returned cities %r, labels on the map %r' % (what, sorted(odf['name']), sorted(got)))
        for _, r in odf.iterrows():
            if (r['name'], r['lat'], r['lon'], r['pop']) != tuple(byname[r['name']][:4]):
                raise Violation('%s: returned city %r' % (what, dict(r)))

        def padded(e):
            w, h = e[1] - e[0], e[3] - e[2]
            return (e[0] - w * pad, e[1] + w * pad, e[2] - h * pad, e[3] + h * pad)
        # place of each label
        pos = {}
        for nm, e in got.items():
            c = byname[nm]
            px, py = ax.transData.transform(merc(c[2], c[1], clon))
            pos[nm] = (px, py)
            if not -1.5 < e[0] - px - OFF < 3.5 or abs((e[2] + e[3]) / 2 - py) > 1.5:
                raise Violation('%s: label %r at %r, city at %r' % (what, nm, e, (px, py)))
        for nm, e in got.items():
            p = padded(e)
            if p[0] < mapbox[0] - 1 or p[1] > mapbox[1] + 1 or p[2] < mapbox[2] - 1 or p[3] > mapbox[3] + 1:
                raise Violation('%s: label %r at %r leaves the map %r' % (what, nm, p, mapbox))
        for a, b in itertools.combinations(sorted(got), 2):
            o = overlap(padded(got[a]), padded(got[b]))
            if o > 1:
                raise Violation('%s: labels %r and %r collide by %r pixels' % (what, a, b, o))
        # nothing is left out without a reason
        if len(cities) <= 15:
            fresh = {}
            for c in cities:
                inb = bounds[0] < c[2] <= bounds[1] and bounds[2] < c[1] <= bounds[3]
                if not inb:
                    if c[0] in got:
                        raise Violation('%s: %r is outside the bounds' % (what, c[0]))
                    continue
                px, py = ax.transData.transform(merc(c[2], c[1], clon))
                t = ax.text(0, 0, c[0], fontname=kw.get('fontname', 'DejaVu Sans'), fontsize=fs, ha='left', va='center')
                t.set_transform(matplotlib.transforms.IdentityTransform())
                t.set_position((px + OFF, py))
                e = t.get_window_extent(rend)
                t.remove()
                fresh[c[0]] = padded((e.x0, e.x1, e.y0, e.y1))
            onmap = [c for c in cities if c[0] in fresh and fresh[c[0]][0] > mapbox[0] - 1 and fresh[c[0]][1] < mapbox[1] + 1 and fresh[c[0]][2] > mapbox[2] - 1 and fresh[c[0]][3] < mapbox[3] + 1]
            for c in cities:
                if c[0] in got or c[0] not in fresh:
                    continue
                e = fresh[c[0]]
                if e[0] < mapbox[0] + 1 or e[1] > mapbox[1] - 1 or e[2] < mapbox[2] + 1 or e[3] > mapbox[3] - 1:
                    continue
                if not any(d[3] > c[3] and overlap(e, fresh[d[0]]) > -1 for d in onmap if d is not c):
                    raise Violation('%s: %r was left out although no larger city is in the way' % (what, c[0]))
        if kw.get('draw_dots'):
            pts = sorted(tuple(np.round(ax.transData.inverted().transform(l.get_transform().transform(np.column_stack([l.get_xdata(), l.get_ydata()])))[0], 0)) for l in dots)
            want = sorted(tuple(np.round(merc(byname[nm][2], byname[nm][1], clon), 0)) for nm in got)
            if len(pts) != len(want) or any(math.dist(a, b) > 3 for a, b in zip(pts, want)):
                raise Violation('%s: dots at %r, expected %r' % (what, pts, want))
        elif dots:
            raise Violation('%s: dots drawn without being asked for' % what)
        z = kw.get('zorder', 10)
        if any(t.get_zorder() != z for t in texts):
            raise Violation('%s: drawing order of the labels' % what)
        if 'shadow' in kw and any(bool(t.get_path_effects()) != kw['shadow'] for t in texts):
            raise Violation('%s: outline of the labels' % what)
        if not df.equals(orig) or not cs.getDataFrame().equals(orig):
            raise Violation('%s: the table was altered' % what)
        ctx.outcome(tuple(sorted(got)))
        ctx.state((m, cities, kw))
        ctx.traces += 1
        return set(got)
    finally:
        plt.close('all')


def at(m, fx, fy):
    b = MAPS[m][0]
    return b[2] + (b[3] - b[2]) * fy, b[0] + (b[1] - b[0]) * fx


def run(case, ctx):
    kind = case[0]
    if kind == 'empty':
        for m in range(len(MAPS)):
            ctx.equal(one(ctx, m, [('Far', -80.0, 0.0, 1)]), set(), 'labels without cities in the bounds')
        return
    m = case[1]
    if kind == 'pair':
        _, _, i, n = case
        for j in range(-n, n + 1):
            for big in (0, 1):
                la, lo = at(m, .4, .5)
                la2, lo2 = at(m, .4 + .06 * i * 4 / n, .5 + .03 * j * 4 / n)
                names = ('Alpha', 'Be')
                r = one(ctx, m, [(names[0], la, lo, 10 + big), (names[1], la2, lo2, 11 - big)])
                if not r:
                    raise Violation('no label at all for two cities in the middle of the map')
    elif kind == 'edge':
        i = case[2]
        f = [-.02, .002, .05, .5, .93, .995, 1.02]
        for j in range(7):
            la, lo = at(m, f[i], f[j])
            for more in ([], [('Mid', *at(m, .3, .4), 5)], [('Mid', *at(m, .3, .4), 500), ('Low', *at(m, .3, .8), 600)]):
                one(ctx, m, [('Gamma City', la, lo, 50)] + more)
    elif kind == 'cluster':
        perm = case[2]
        for step in (.02, .05, .12):
            cs = [('C%d' % k * 2, *at(m, .3 + step * k, .4 + .02 * (k % 2)), 10 * (p + 1)) for k, p in enumerate(perm)]
            r = one(ctx, m, cs)
            top = max(cs, key=lambda c: c[3])[0]
            if top not in r:
                raise Violation('the largest city has no label: %r' % (cs,))
    elif kind == 'fine':
        # every gap from full overlap to well clear, in steps of a pixel or two, across and along
        bounds, figsize, dims, pad, fs = MAPS[m]
        h = fs * 100 / 72 * (1.2 + 2 * pad)
        step = 2 if ctx.quick else 1
        for font in ('DejaVu Sans', 'DejaVu Sans Mono', 'DejaVu Serif'):
            for px in range(0, int(2 * h) + 3, step if font == 'DejaVu Sans' else 4):
                for sign in (1, -1) if font == 'DejaVu Sans' else (1,):
                    la, lo = at(m, .35, .5)
                    la2, lo2 = at(m, .35, .5 + sign * px / (100 * figsize[1] * dims[3]))
                    one(ctx, m, [('Alpha', la, lo, 10), ('Be', la2, lo2, 9)], fontname=font)
            w = 5 * fs * 100 / 72 * (1 + 2 * pad)
            for px in range(0, int(1.3 * w), 3 * step):
                la, lo = at(m, .15, .5)
                la2, lo2 = at(m, .15 + px / (100 * figsize[0] * dims[2]), .5)
                one(ctx, m, [('Alphaville', la, lo, 10), ('Be', la2, lo2, 9)], fontname=font)
    elif kind == 'names':
        # namesakes, and names that leave nothing to see
        bounds, figsize, dims, pad, fs = MAPS[m]
        for nm in ('Springfield', 'A', ''):
            df = pd.DataFrame({'name': [nm, 'Other', nm], 'lat': [at(m, .2, .2)[0], at(m, .2, .5)[0], at(m, .2, .8)[0]],
                               'lon': [at(m, .2, .2)[1]] * 3, 'pop': [5, 6, 7]})
            mm = MercatorMap(bounds, figsize, Cities(df), padding=pad, dimensions=dims)
            mm.figure.canvas.draw()
            out = mm.drawCities(fontsize=fs).getDataFrame()
            ctx.equal(sorted(out['pop']), [5, 6, 7], 'cities called %r that are far apart' % nm)
            ctx.equal(sorted(t.get_text() for t in mm.axes.texts if t.get_text() or nm == ''), sorted([nm, 'Other', nm]), 'labels for cities called %r' % nm)
            plt.close('all')
    elif kind == 'many':
        cs = [('t%d' % k, *at(m, .05 + .9 * (k % 8) / 8, .05 + .9 * (k // 8) / 8), 1000 + (37 * k) % 64) for k in range(64)]
        r = one(ctx, m, cs)
        if not r:
            raise Violation('no label at all for 64 cities')
        cs = [('city %d' % k, *at(m, .3, .4), 1000 + k) for k in range(5)]
        ctx.equal(one(ctx, m, cs), {'city 4'}, 'labels of cities at one place')
    elif kind == 'options':
        cs = [('Uno', *at(m, .2, .2), 5), ('Dos', *at(m, .22, .2), 7), ('Tres', *at(m, .5, .7), 1), ('Cuatro', *at(m, .97, .7), 10)]
        for sh, dd, z in itertools.product((False, True), (False, True), (3, 10)):
            one(ctx, m, cs, shadow=sh, draw_dots=dd, zorder=z)
        plt.close('all')
        mm = MercatorMap(MAPS[m][0], MAPS[m][1], Cities(pd.DataFrame({'name': ['x'], 'lat': [0.], 'lon': [0.], 'pop': [1]})))
        ctx.check(mm.getAxesClone() is not mm.axes and mm.getAxesClone().figure is mm.getFigureClone(), 'second axes and figure')
        ctx.check('DejaVu Sans' in mm.getFonts() and mm.getFonts() == sorted(mm.getFonts()), 'fonts')
        plt.close('all')
