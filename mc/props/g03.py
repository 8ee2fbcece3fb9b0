"""G03: scale bars."""
import itertools
import math
import numpy as np
from mc.core import Violation
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import matplotlib.colors as mcolors
import cartopy.crs as ccrs
from impactutils.mapping.scalebar import draw_scale
from impactutils.exceptions import RequiredArgumentError

LEVEL = 'exploration'
RULE = ('complete product of map projections (geographic with two central meridians, Mercator, UTM, Lambert conformal, Albers, a projection in kilometres, one in feet) x map extents '
        '(widths of fractions of a degree to a hemisphere, northern / southern / high latitudes) x 21 units x 4 corners for the automatic length; map widths for which each of the 28 lengths is the closest; x explicit lengths (whole, fractional, longer than the map) x 2..6 divisions; '
        'padding, font size, drawing order and figure shape variants; every invalid argument. The artists added to the axes are read back in data coordinates. '
        'Oracle: own unit table, own list of lengths and divisions, spherical degree length.')
ASSUMPTIONS = ['the map extent is fixed before the bar is drawn', 'geographic maps: one degree of longitude at the middle latitude is 111.19 km times the cosine, to 0.1 %']
LENGTHS = {4: 4, 10: 2, 12: 4, 15: 3, 20: 4, 30: 3, 40: 4, 75: 3, 100: 4, 120: 4, 150: 3, 200: 4, 240: 6, 300: 6, 400: 4, 600: 6, 750: 3, 1000: 4, 2000: 4,
           4000: 4, 6000: 6, 10000: 4, 20000: 4, 40000: 4, 60000: 6, 75000: 3, 100000: 4, 200000: 4}
UNITS = {'km': 1000., 'm': 1., 'dm': .1, 'cm': .01, 'mm': .001, 'kmi': 1852., 'in': .0254, 'ft': .3048, 'yd': .9144, 'mi': 1609.344, 'fath': 1.8288,
         'ch': 20.1168, 'link': .201168, 'us-in': 1 / 39.37, 'us-ft': 12 / 39.37, 'us-yd': 36 / 39.37, 'us-ch': 66 * 12 / 39.37, 'us-mi': 5280 * 12 / 39.37,
         'ind-yd': .91439523, 'ind-ft': .30479841, 'ind-ch': 20.11669506}
POS = ['ll', 'lr', 'ul', 'ur']


class Custom(ccrs.Projection):
    def __init__(self, units):
        f = UNITS[units]
        super().__init__([('proj', 'eqc'), ('lat_ts', 0), ('units', units)])
        self._b = (-2e7 / f, 2e7 / f, -1e7 / f, 1e7 / f)

    @property
    def boundary(self):
        import shapely.geometry as sg
        a, b, c, d = self._b
        return sg.LineString([(a, c), (a, d), (b, d), (b, c), (a, c)])

    @property
    def x_limits(self):
        return self._b[:2]

    @property
    def y_limits(self):
        return self._b[2:]

    @property
    def threshold(self):
        return 1e4


def proj(name):
    return {'pc': lambda: ccrs.PlateCarree(), 'pc180': lambda: ccrs.PlateCarree(central_longitude=180), 'merc': lambda: ccrs.Mercator(),
            'utm': lambda: ccrs.UTM(10), 'lcc': lambda: ccrs.LambertConformal(), 'aea': lambda: ccrs.AlbersEqualArea(central_longitude=-82.5, central_latitude=30),
            'eqc-km': lambda: Custom('km'), 'eqc-ft': lambda: Custom('ft')}[name]()


PROJ = {'pc': 0, 'pc180': 0, 'merc': 1., 'utm': 1., 'lcc': 1., 'aea': 1., 'eqc-km': 1000., 'eqc-ft': .3048}
# extents in metres for projected maps (x0, x1, y0, y1) / degrees for geographic ones
DEG = [(-90, -75, 25, 35), (10, 10.3, -5, -4.8), (-170, 170, -80, 80), (100, 104, 60, 64), (-60, -20, -75, -50), (5, 5.02, 45, 45.02)]
MET = [(-1e6, 1e6, -6e5, 4e5), (2e5, 2.13e5, 3e6, 3.01e6), (4e5, 7.7e5, 4e6, 4.5e6), (-3e6, 3.7e6, -1e6, 5e6), (5e5, 5.004e5, 1e6, 1.0005e6)]


def cases(tier):
    for p in PROJ:
        exts = DEG if PROJ[p] == 0 else MET
        if p in ('utm',):
            exts = [e for e in MET if e[0] > 0]
        if tier == 'quick':
            exts = exts[:4]
        for i in range(len(exts)):
            for fs in ([(4, 4)] if tier == 'quick' else [(4, 4), (7, 3)]):
                for d in ([[0, 0, 1, 1]] if tier == 'quick' else [[0, 0, 1, 1], [.2, .1, .6, .7]]):
                    yield ['auto', p, list(exts[i]), list(fs), d]
        for e in exts[:1] if tier == 'quick' else exts:
            yield ['explicit', p, list(e), [5, 4], [.1, .1, .8, .8]]
            yield ['options', p, list(e), [5, 4], [.05, .1, .9, .8]]
    for k in LENGTHS:
        for p, u in (('merc', 'm'), ('pc', 'yd'), ('eqc-km', 'ft'), ('aea', 'us-ft')):
            for frac in (1.0, 1.04, 0.97):
                yield ['lens', p, u, k, frac]
    yield ['bad']


def axes(p, ext, fs, dim):
    plt.close('all')
    fig = plt.figure(figsize=fs)
    ax = fig.add_axes(dim, projection=proj(p))
    f = PROJ[p] or 1.0
    ext = [e / f for e in ext]
    ax.set_extent(ext, crs=ax.projection)
    return fig, ax


def snapshot(ax):
    return set(ax.patches), set(ax.lines), set(ax.texts), set(ax.get_children())


def data(ax, artist, path):
    p = artist.get_transform().transform(path)
    return ax.transData.inverted().transform(p)


def draw_and_check(ctx, ax, p, kw, length, div):
    """length None: automatic"""
    fig = ax.figure
    lim = ax.get_xlim(), ax.get_ylim()
    (x0, x1), (y0, y1) = lim
    pre = snapshot(ax)
    draw_scale(ax, **kw)
    ctx.transitions += 1
    what = '%s %r %r' % (p, lim, kw)
    if (ax.get_xlim(), ax.get_ylim()) != lim:
        raise Violation(what + ': the map extent changed')
    patches = [a for a in ax.patches if a not in pre[0]]
    lines = [a for a in ax.lines if a not in pre[1]]
    texts = [a for a in ax.texts if a not in pre[2]]
    others = [a for a in ax.get_children() if a not in pre[3] and a not in patches + lines + texts]
    try:
        units = kw.get('units', 'km')
        u = UNITS[units]
        rel = 1e-9
        if PROJ[p]:
            mpd = PROJ[p]
        else:
            mpd = 111194.93 * math.cos(math.radians((y0 + y1) / 2))
            rel = 1e-3
        width = (x1 - x0) * mpd / u
        # ---- the bar itself
        boxes = []
        for a in patches:
            v = data(ax, a, a.get_path().vertices)
            boxes.append((v[:, 0].min(), v[:, 0].max(), v[:, 1].min(), v[:, 1].max(), mcolors.to_hex(a.get_facecolor())))
        boxes.sort()
        if not boxes:
            raise Violation(what + ': no bar was drawn')
        n = len(boxes)
        L, R = boxes[0][0], boxes[-1][1]
        B, T = boxes[0][2], boxes[0][3]
        eps = 1e-6 * (R - L)
        epy = 1e-6 * (T - B) + 1e-12 * max(abs(T), abs(B))
        eps += 1e-12 * max(abs(L), abs(R))
        if length is None:
            q = width / 4
            best = min(abs(k - q) for k in LENGTHS)
            ok = [k for k in LENGTHS if abs(k - q) <= best + rel * q]
            measured = (R - L) * mpd / u
            sel = [k for k in ok if abs(measured - k) <= max(rel * k, 1e-6 * k)]
            if not sel:
                raise Violation('%s: bar of %r %s, expected %r (map width %r)' % (what, measured, units, ok, width))
            length, div = sel[0], LENGTHS[sel[0]]
        measured = (R - L) * mpd / u
        if abs(measured - length) > max(rel, 1e-6) * length:
            raise Violation('%s: the bar measures %r %s, expected %r' % (what, measured, units, length))
        if n != div:
            raise Violation('%s: %d divisions, expected %d' % (what, n, div))
        for i, b in enumerate(boxes):
            if abs(b[0] - (L + (R - L) * i / n)) > eps or abs(b[1] - (L + (R - L) * (i + 1) / n)) > eps or abs(b[2] - B) > epy or abs(b[3] - T) > epy:
                raise Violation('%s: division %d is at %r of %r' % (what, i, b, (L, R, B, T)))
            if i and b[4] == boxes[i - 1][4] or i > 1 and b[4] != boxes[i - 2][4]:
                raise Violation('%s: division colours %r do not alternate' % (what, [x[4] for x in boxes]))
        # ---- corner
        px, py = kw.get('padx', .1), kw.get('pady', .1)
        fx0, fx1, fy0, fy1 = (L - x0) / (x1 - x0), (R - x0) / (x1 - x0), (B - y0) / (y1 - y0), (T - y0) / (y1 - y0)
        pos = kw.get('pos', 'll')
        gx = fx0 if pos[1] == 'l' else 1 - fx1
        gy = fy0 if pos[0] == 'l' else 1 - fy1
        if abs(gx - px) > 1e-6 or abs(gy - py) > 1e-6:
            raise Violation('%s: padding is %r %r, expected %r %r' % (what, gx, gy, px, py))
        # height relative to the font size
        fsz = kw.get('font_size') or matplotlib.rcParams['font.size']
        hin = (ax.transData.transform((L, T)) - ax.transData.transform((L, B)))[1] / fig.dpi
        if abs(hin - fsz / 72 * 0.75) > 1e-6:
            raise Violation('%s: bar height is %r inches, expected %r' % (what, hin, fsz / 72 * .75))
        # ---- labels
        unit_texts, labels = [], []
        for t in texts:
            x, y = t.get_transform().transform((t.get_position()))
            x, y = ax.transData.inverted().transform((x, y))
            if abs(t.get_fontsize() - fsz) > 1e-9:
                raise Violation('%s: text %r has size %r' % (what, t.get_text(), t.get_fontsize()))
            if y > (B + T) / 2:
                unit_texts.append((t.get_text(), x, y, t.get_ha()))
            else:
                labels.append((x, y, t.get_text(), t.get_ha()))
        if len(unit_texts) != 1 or unit_texts[0][0] != units or abs(unit_texts[0][1] - (L + R) / 2) > eps or unit_texts[0][2] < T - epy or unit_texts[0][3] != 'center':
            raise Violation('%s: unit text %r' % (what, unit_texts))
        ticks = [i for i in range(0, n, 2)] if n % 2 == 0 else [0]
        ticks.append(n)
        labels.sort()
        if len(labels) != len(ticks):
            raise Violation('%s: labels %r, expected %d' % (what, labels, len(ticks)))
        for (x, y, s, ha), i in zip(labels, ticks):
            val = length * i / n
            try:
                num = float(s)
            except ValueError:
                raise Violation('%s: label %r' % (what, s))
            if abs(x - (L + (R - L) * i / n)) > eps or y > B + epy or ha != 'center' or abs(num - val) > 1e-8 * max(abs(val), 1e-9):
                raise Violation('%s: label %r at %r, expected %r at %r' % (what, s, x, val, L + (R - L) * i / n))
            ctx.outcomes.add(s.encode())
        # ---- a tick mark under every label, an outline
        marks = []
        for ln in lines:
            v = data(ax, ln, np.column_stack([ln.get_xdata(), ln.get_ydata()]))
            if abs(v[:, 0].max() - v[:, 0].min()) <= eps:
                marks.append((v[:, 0].mean(), v[:, 1].max(), v[:, 1].min()))
            elif abs(v[:, 0].min() - L) > eps or abs(v[:, 0].max() - R) > eps or abs(v[:, 1].min() - B) > epy or abs(v[:, 1].max() - T) > epy:
                raise Violation('%s: stray line %r' % (what, v.tolist()))
        marks.sort()
        if len(marks) != len(ticks) or any(abs(m[0] - l[0]) > eps or abs(m[1] - B) > epy or m[2] >= B or m[2] < l[1] - epy for m, l in zip(marks, labels)):
            raise Violation('%s: tick marks %r for labels %r, bar bottom %r' % (what, marks, labels, B))
        z = kw.get('zorder', 20)
        for a in patches + lines + texts:
            if a.get_zorder() != z:
                raise Violation('%s: %r has drawing order %r' % (what, a, a.get_zorder()))
        ctx.traces += 1
        return length
    finally:
        for a in patches + lines + texts + others:
            a.remove()


def run(case, ctx):
    ctx.state(case)
    kind = case[0]
    if kind == 'bad':
        return do_bad(ctx)
    if kind == 'lens':
        # every length of the list is the closest one for some width of map
        _, p, u, k, frac = case
        w = 4 * k * frac * UNITS[u]
        y = (1e5, 1e5 + w) if PROJ[p] else (12.0, 12.0 + w / 111194.93)
        x = (2e5, 2e5 + w) if PROJ[p] else (30.0, 30.0 + w / 111194.93 / math.cos(math.radians(sum(y) / 2)))
        fig, ax = axes(p, list(x + y), (5, 5), [.1, .1, .8, .8])
        try:
            got = draw_and_check(ctx, ax, p, dict(units=u), None, None)
            if got != k:
                raise Violation('%s map %r %s wide: bar of %r, expected %r' % (p, 4 * k * frac, u, got, k))
        finally:
            plt.close('all')
        return
    _, p, ext, fs, dim = case
    fig, ax = axes(p, ext, fs, dim)
    try:
        if kind == 'auto':
            for u in UNITS:
                for pos in POS:
                    draw_and_check(ctx, ax, p, dict(units=u, pos=pos), None, None)
                ctx.state((case, u))
            draw_and_check(ctx, ax, p, {}, None, None)
        elif kind == 'explicit':
            for L in (1, 7, 10, 12.5, 0.5, 100, 1234.5, 3000, 1234567.5, np.float64(40.0), np.int64(30)):
                for d in (2, 3, 4, 5, 6):
                    for u, pos in (('km', 'll'), ('mi', 'ur'), ('us-ft', 'lr'), ('m', 'ul')):
                        draw_and_check(ctx, ax, p, dict(units=u, pos=pos, bar_length=L, divisions=d), float(L), d)
                ctx.state((case, float(L)))
        else:
            for px, py, f, z, pos in itertools.product((0, .03, .3), (0.05, .5), (None, 4, 13.5), (1, 99), POS):
                draw_and_check(ctx, ax, p, dict(padx=px, pady=py, font_size=f, zorder=z, pos=pos), None, None)
            draw_and_check(ctx, ax, p, dict(font_size=9, bar_length=55, divisions=4, pady=.2, pos='ur'), 55., 4)
            # several bars on one map do not disturb one another
            for _ in range(2):
                draw_scale(ax, pos='ul')
                draw_and_check(ctx, ax, p, dict(pos='ll'), None, None)
    finally:
        plt.close('all')


def refused(ctx, ax, types, **kw):
    pre = snapshot(ax) if hasattr(ax, 'patches') else None
    ctx.op()
    try:
        draw_scale(ax, **kw)
    except types as e:
        if pre is not None and snapshot(ax) != pre:
            raise Violation('refused call %r left something on the map' % (kw,))
        ctx.outcome(type(e).__name__)
        return
    raise Violation('%r was accepted' % (kw,))


def do_bad(ctx):
    fig, ax = axes('pc', DEG[0], (4, 4), [0, 0, 1, 1])
    for kw in ({'bar_length': 10}, {'divisions': 4}, {'bar_length': 0.5}, {'divisions': 0}, {'bar_length': 0}):
        refused(ctx, ax, RequiredArgumentError, **kw)
    for d in (0, 1, 7, -2, 2.5, 100):
        refused(ctx, ax, ValueError, bar_length=10, divisions=d)
    for u in ('', 'miles', 'KM', None, 'kilometers', 'dd', 'deg'):
        refused(ctx, ax, ValueError, units=u)
    for pos in ('', 'l', 'LL', 'center', None, 'rl', 'lu'):
        refused(ctx, ax, ValueError, pos=pos)
    plain = plt.figure().add_axes([0, 0, 1, 1])
    for a in (plain, None, 'ax', fig):
        refused(ctx, a, ValueError)
    plt.close('all')
