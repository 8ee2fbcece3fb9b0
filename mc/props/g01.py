"""G01: city tables and their filters."""
import itertools
import math
import os
from fractions import Fraction as F
import re
import numpy as np
import pandas as pd
from mc.core import Violation
from impactutils.mapping.city import Cities
from impactutils.mapping.mapcity import MapCities

LEVEL = 'model_checking'
RULE = ('all multisets of up to 2 (thorough 3) cities over a lattice of positions (corner, edge, interior, tie) x populations, every filter of an alphabet of bounds (touching every edge), '
        'radii around several centres, populations at / next to the thresholds, names and patterns, grids 1..4 x 1..3 with 0..3 cities per cell; a 14-city table with extra columns, duplicate index labels, missing values and '
        'antimeridian / polar positions under all sequences of two (thorough three) filters; sorting by every column combination and direction; GeoNames files of all combinations of row kinds; CSV save and load. '
        'Oracle: plain-Python row predicates with rational arithmetic and vector great-circle distance.')
ASSUMPTIONS = ['a bounding box has west <= east (boxes across the antimeridian are a documented gap)', 'distances within a millimetre of the radius are not judged',
               'cities of equal population in a grid cell are interchangeable']
XS = [-1.0, 0.0, 0.5, 1.0]
YS = [-2.0, 0.0, 0.25, 2.0]
POPS = [0, 999, 1000]


def frame(rows, extra=False, index=None):
    df = pd.DataFrame({'name': ['c%d' % i if len(r) < 4 else r[3] for i, r in enumerate(rows)], 'lat': np.array([r[1] for r in rows], float),
                       'lon': np.array([r[0] for r in rows], float), 'pop': np.array([r[2] for r in rows], np.int64)},
                      index=index)
    if extra:
        n = len(rows)
        df['dist'] = np.arange(n) * 1.5
        df['iscap'] = [i % 2 == 0 for i in range(n)]
        df['placement'] = ['NE' if i % 3 else None for i in range(n)]
        df['xoff'] = [np.nan if i % 4 == 0 else 0.1 * i for i in range(n)]
    return df


BIG = [(-118.24, 34.05, 3971883, 'Los Angeles'), (-117.16, 32.72, 1394928, 'San Diego'), (-121.89, 37.34, 1026908, 'San Jose'), (-117.16, 32.72, 10, 'San Diego'),
       (179.9, -17.0, 500, 'East Side (Old)'), (-179.9, -17.0, 500, 'West.Side'), (0.0, 90.0, 0, 'Pole'), (12.5, 41.9, 2318895, 'roma'), (0.0, 0.0, 1000, 'Null Island'),
       (0.0, 0.001, 999, 'Null Island North'), (-118.24, 34.05, 1000, 'Angeles+'), (180.0, 0.0, 1, 'Line'), (-180.0, 0.0, 2, 'Line 2'), (12.5, -41.9, 2318895, 'Antiroma')]


def gc(lo1, la1, lo2, la2):
    def v(lo, la):
        lo, la = math.radians(lo), math.radians(la)
        return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))
    a, b = v(lo1, la1), v(lo2, la2)
    c = math.dist(a, b)
    return 2 * 6371.0 * math.asin(min(1.0, c / 2))


# ---- filters: (description, call, predicate); predicate returns True/False/None (not judged)
def FB(b, seq=tuple):
    return ('bounds', list(b)), lambda c: c.limitByBounds(seq(b)), lambda r: b[0] < r['lon'] <= b[1] and b[2] < r['lat'] <= b[3]


def FR(la, lo, rad):
    def p(r):
        d = gc(lo, la, r['lon'], r['lat'])
        return None if abs(d - rad) < 1e-6 and (lo, la) != (r['lon'], r['lat']) else d <= rad
    return ('radius', la, lo, rad), lambda c: c.limitByRadius(la, lo, rad), p


def FP(n, m=None):
    return ('pop', n, m), (lambda c: c.limitByPopulation(n)) if m is None else (lambda c: c.limitByPopulation(n, minpop=m)), lambda r: r['pop'] >= n


def FN(s):
    return ('name', s), lambda c: c.limitByName(s), lambda r: re.search(s, r['name']) is not None


SMALLF = [FB((-1, 1, -2, 2)), FB((-1.5, 0.5, -2, 0.25), list), FB((0, 0.5, -2.5, 0)), FB((-2, 2, -3, 3), np.array), FB((0.5, 0.5, -9, 9)), FB((-1, -1, -2, -2)),
          FR(0, 0, 0), FR(0, 0.0, 60), FR(-2.0, -1.0, 250), FR(0.25, 0.5, 20000), FR(0, 0, 111.3),
          FP(1), FP(999), FP(999.5), FP(1000), FP(1001), FP(1000, 999), FN('c1'), FN('c[02]'), FN('^c'), FN('z')]
BIGF = [FB((-120, -115, 30, 40)), FB((-180, 180, -90, 90)), FB((0, 12.5, -41.9, 41.9)), FB((-118.24, -117.16, 32.72, 34.05)), FB((-360, 360, -91, 91)),
        FR(34.05, -118.24, 200), FR(0, 180, 2000), FR(0, -180, 0), FR(90, 55.5, 10), FR(-17, 179.9, 30), FR(0, 0, 0.05), FR(0, 0, 21000),
        FP(1000), FP(1), FP(2318895), FP(10**9), FN('San'), FN('Los Angeles'), FN('Null'), FN(r'\+$'), FN('a$'), FN(r'^[A-Z]\w+$'), FN('roma'), FN('Line|Pole'), FN('.')]


def rows(df):
    return [dict(r) for _, r in df.iterrows()]


def table(df):
    """comparable content: index, columns, dtypes, cell values"""
    return (list(df.index), list(df.columns), [str(t) for t in df.dtypes], [tuple('nan' if isinstance(x, float) and x != x else x for x in r) for r in df.itertuples(index=False, name=None)])


def expect(ctx, cities, df0, preds, what, kind=Cities):
    """cities must hold exactly the rows of df0 that satisfy all predicates, in order"""
    if type(cities) is not kind:
        raise Violation('%s returned %r' % (what, type(cities)))
    got = table(cities.getDataFrame())
    rs = rows(df0)
    flags = []
    for r in rs:
        v = [p(r) for p in preds]
        flags.append(False if False in v else (None if None in v else True))
    full = table(df0)
    if None not in flags:
        want = [i for i, f in enumerate(flags) if f]
        if got[3] != [full[3][i] for i in want] or got[0] != [full[0][i] for i in want]:
            raise Violation('%s keeps %r, expected %r' % (what, got[3], [full[3][i] for i in want]))
        if got[1] != full[1] or (want and got[2] != full[2]):
            raise Violation('%s changed the columns: %r %r, expected %r %r' % (what, got[1], got[2], full[1], full[2]))
        if len(cities) != len(want) or cities.len() != len(want):
            raise Violation('%s: length %d, expected %d' % (what, len(cities), len(want)))
    ctx.outcome(got)
    ctx.traces += 1


def cases(tier):
    pts = list(itertools.product(XS, YS, POPS))
    for p in pts:
        yield ['small', [list(p)], 2 if tier == 'quick' else 3]
    yield ['empty']
    for f in range(len(BIGF)):
        yield ['chain', f, 1 if tier == 'quick' else 2]
    for nx, ny in itertools.product((1, 2, 3, 4), (1, 2, 3)):
        yield ['grid', nx, ny]
    for nx, ny in ((12, 11), (25, 2), (1, 30), (9, 9)):
        yield ['grid', nx, ny]
    for i in range(len(GRIDSETS)):
        yield ['gridset', i]
    yield ['sort']
    yield ['make']
    yield ['bad']
    kinds = range(len(GN))
    for k in kinds:
        yield ['geonames', k]
    yield ['csv']


def run(case, ctx):
    globals()['do_' + case[0]](ctx, *case[1:])
    ctx.state(case)


def apply(ctx, c, f, what):
    ctx.transitions += 1
    try:
        return f(c)
    except Exception as e:
        raise Violation('%s raised %s: %s' % (what, type(e).__name__, e))


def do_small(ctx, first, n):
    pts = list(itertools.product(XS, YS, POPS))
    first = [tuple(r) for r in first]
    start = pts.index(first[0])
    for k in range(0, n):
        if n == 3 and k == 2:
            rest = itertools.combinations_with_replacement(pts[start::5] + pts[start + 1::7], 2)
        else:
            rest = itertools.combinations_with_replacement(pts[start:], k)
        for r in rest:
            df = frame(first + list(r))
            orig = df.copy(deep=True)
            c = Cities(df)
            for d, f, p in SMALLF:
                out = apply(ctx, c, f, 'filter %r of %r' % (d, first + list(r)))
                expect(ctx, out, orig, [p], 'filter %r of %r' % (d, first + list(r)))
            if table(df) != table(orig) or table(c.getDataFrame()) != table(orig):
                raise Violation('a filter altered the original table %r' % (first + list(r),))
            ctx.state(first + list(r))
            if k < 2:
                for nx, ny, m in ((2, 2, 1), (1, 1, 1), (2, 1, 3), (4, 2, 1)):
                    check_grid(ctx, df, nx, ny, m)


def do_empty(ctx):
    df = frame([(0., 0., 1)]).iloc[0:0]
    c = Cities(df)
    ctx.equal(len(c), 0, 'length of an empty table')
    for d, f, p in BIGF + SMALLF:
        out = apply(ctx, c, f, 'filter %r of no cities' % (d,))
        ctx.equal(len(out), 0, 'filter %r of no cities' % (d,))
    out = apply(ctx, c, lambda c: c.limitByGrid(nx=2, ny=3, cities_per_grid=2), 'grid of no cities')
    ctx.equal(len(out), 0, 'grid of no cities')


def do_chain(ctx, f0, depth):
    idx = [3, 3, 1, 'x', 0, 9, 8, 7, 6, 5, 4, 'y', -1, 2]
    for kind in (Cities, MapCities):
        for index in (None, idx):
            df = frame(BIG, extra=True, index=index)
            orig = df.copy(deep=True)
            d0, fn0, p0 = BIGF[f0]
            c = kind(df)
            one = apply(ctx, c, fn0, '%r' % (d0,))
            expect(ctx, one, orig, [p0], '%r' % (d0,), kind)
            t1 = table(one.getDataFrame())

            def deeper(cur, ps, ds, k):
                for d, f, p in BIGF:
                    w = ' then '.join(map(repr, ds + [d]))
                    nxt = apply(ctx, cur, f, w)
                    expect(ctx, nxt, orig, ps + [p], w, kind)
                    ctx.state(ds + [d])
                    if k > 1 and index is None and kind is Cities:
                        deeper(nxt, ps + [p], ds + [d], k - 1)
            deeper(one, [p0], [d0], depth)
            if table(one.getDataFrame()) != t1 or table(c.getDataFrame()) != table(orig) or table(df) != table(orig):
                raise Violation('filters after %r altered an earlier table' % (d0,))


GRIDSETS = [
    [(0, 0, 5), (4, 3, 6)],
    [(0, 0, 5), (0, 3, 6), (0, 1, 7), (0, 3, 8)],
    [(0, 0, 5), (4, 0, 6), (2, 0, 7), (1, 0, 7), (3, 0, 1)],
    [(1, 1, 5)], [(1, 1, 5), (1, 1, 9), (1, 1, 7)],
    [(x, y, (7 * x + 5 * y) % 11) for x in range(5) for y in range(4)],
    [(x / 10, y / 10, (3 * x + y) % 7) for x in range(7) for y in range(7)],
    [(-170 + 31.3 * i % 340, -60 + 17.9 * i % 120, i * i % 23) for i in range(25)],
    [(0.1 + 0.1 * i, 0.7 - 0.1 * i, i) for i in range(6)],
    [(0, 0, 1), (8, 12, 1), (4, 6, 1), (2, 3, 1), (6, 9, 1), (1, 11, 1), (8, 0, 1), (0, 12, 1)],
    # bounds whose cell width times the number of cells falls short of the upper bound in floating point
    [(-3.0, -3.0, 4), (-2.5, -1.0, 2), (-0.7, -0.7, 1), (-0.7, -3.0, 3), (-3.0, -0.7, 5)],
    [(-1.2, -0.6, 4), (-2.5, -1.5, 2), (-3.0, -3.0, 1), (-1.7, -0.6, 9)],
]


def check_grid(ctx, df, nx, ny, m, call=None):
    orig = df.copy(deep=True)
    c = Cities(df)
    what = 'grid %dx%d with %r per cell of %r' % (nx, ny, m, table(df)[3])
    out = apply(ctx, c, call or (lambda c: c.limitByGrid(nx=nx, ny=ny, cities_per_grid=m)), what)
    got = table(out.getDataFrame())
    rs = [(F(r['lon']), F(r['lat']), int(r['pop'])) for r in rows(df)]
    xm, xM = min(r[0] for r in rs), max(r[0] for r in rs)
    ym, yM = min(r[1] for r in rs), max(r[1] for r in rs)

    def cell(v, lo, hi, n):
        """possible cell numbers (two when the float border is not exactly representable)"""
        if hi == lo:
            return {0}
        q = (v - lo) * n / (hi - lo)
        k = math.ceil(q) - 1
        res = {min(max(k, 0), n - 1)}
        near = round(q)
        if 0 < near < n and abs(q - near) < F(1, 10**9) and (q != near or F(float(hi - lo) / n) * n != hi - lo):
            res |= {near - 1, near}
        return res
    cx = [cell(r[0], xm, xM, nx) for r in rs]
    cy = [cell(r[1], ym, yM, ny) for r in rs]
    full = table(df)
    pos = {}
    for i, t in enumerate(zip(full[0], full[3])):
        pos.setdefault(repr(t), []).append(i)
    kept = []
    for t in zip(got[0], got[3]):
        lst = pos.get(repr(t))
        if not lst:
            raise Violation('%s: row %r is not in the table, or kept twice' % (what, t))
        kept.append(lst.pop(0))
    if got[1] != full[1]:
        raise Violation('%s: columns %r' % (what, got[1]))
    ambiguous = any(len(a) > 1 or len(b) > 1 for a, b in zip(cx, cy))
    if not ambiguous:
        cells = [(min(b), min(a)) for a, b in zip(cx, cy)]
        for k in {t for t in cells}:
            members = sorted((rs[i][2] for i in range(len(rs)) if cells[i] == k), reverse=True)[:m]
            g = sorted((rs[i][2] for i in kept if cells[i] == k), reverse=True)
            if members != g:
                raise Violation('%s: cell %r keeps populations %r, expected %r' % (what, k, g, members))
        order = [(cells[i], -rs[i][2]) for i in kept]
        if order != sorted(order):
            raise Violation('%s: order %r' % (what, order))
    else:
        if m >= len(rs) and len(kept) != len(rs):
            raise Violation('%s: keeps %d of %d cities although no cell is full' % (what, len(kept), len(rs)))
    if table(df) != table(orig) or table(c.getDataFrame()) != table(orig):
        raise Violation('%s altered the original table' % what)
    ctx.outcome(got[3])
    ctx.traces += 1


def do_grid(ctx, nx, ny):
    for extra in (False, True):
        df = frame(BIG, extra=extra)
        for m in (0, 1, 2, 3, 20):
            check_grid(ctx, df, nx, ny, m)
    twice = frame(BIG, index=[i // 2 for i in range(len(BIG))])
    for m in (1, 2, 20):
        check_grid(ctx, twice, nx, ny, m)
    # after another filter, and the defaults
    sub = Cities(frame(BIG)).limitByBounds((-125, 20, -50, 50)).getDataFrame()
    for m in (1, 2):
        check_grid(ctx, sub, nx, ny, m)
    if (nx, ny) == (2, 2):
        check_grid(ctx, frame([(i % 7, i % 5, i) for i in range(120)]), 2, 2, 20, call=lambda c: c.limitByGrid())


def do_gridset(ctx, i):
    df = frame([(float(a), float(b), p) for a, b, p in GRIDSETS[i]])
    for nx, ny, m in itertools.product((1, 2, 3, 4, 8), (1, 2, 3, 4), (1, 2, 5, 100)):
        check_grid(ctx, df, nx, ny, m)
        ctx.state((i, nx, ny, m))


def do_sort(ctx):
    cols = ['name', 'lat', 'lon', 'pop', 'dist', 'iscap']
    combos = [c for c in cols] + [list(x) for k in (1, 2) for x in itertools.permutations(cols, k)] + [['lon', 'lat', 'pop'], ['iscap', 'pop', 'name']]
    for by in combos:
        for asc in (None, True, False):
            df = frame(BIG, extra=True)
            orig = df.copy(deep=True)
            c = Cities(df)
            w = 'sort by %r %r' % (by, asc)
            apply(ctx, c, (lambda c: c.sortByColumns(by)) if asc is None else (lambda c: c.sortByColumns(by, ascending=asc)), w)
            got = c.getDataFrame()
            key = [by] if isinstance(by, str) else by
            ks = [tuple(r[k] for k in key) for r in rows(got)]
            if ks != sorted(ks, reverse=asc is False):
                raise Violation('%s gives %r' % (w, ks))
            if sorted(map(repr, zip(*table(got)[::3]))) != sorted(map(repr, zip(*table(orig)[::3]))) or list(got.columns) != list(orig.columns):
                raise Violation('%s changed the rows' % w)
            if table(df) != table(orig):
                raise Violation('%s altered the caller\'s table' % w)
            ctx.state(w)
            ctx.traces += 1
            # a filter keeps the new order
            d, f, p = BIGF[12]
            expect(ctx, f(c), got, [p], w + ' then %r' % (d,))
    for bad in ('nope', ['lat', 'nope'], ['n'], 'LAT', 'lat,lon', 'lat lon'):
        c = Cities(frame(BIG))
        ctx.op()
        try:
            c.sortByColumns(bad)
        except KeyError:
            if table(c.getDataFrame()) != table(frame(BIG)):
                raise Violation('refused sort by %r changed the table' % (bad,))
            continue
        raise Violation('sort by %r was accepted' % (bad,))


def do_make(ctx):
    req = ['name', 'lat', 'lon']
    for kind in (Cities, MapCities):
        for k in range(0, 4):
            for sub in itertools.combinations(req, k):
                for more in ([], ['pop'], ['pop', 'iscap', 'Name', 'x']):
                    df = pd.DataFrame({c: [1.0, 2.0] for c in list(sub) + more})
                    ctx.op()
                    try:
                        c = kind(df)
                    except KeyError:
                        if k == 3:
                            raise Violation('columns %r refused' % (list(df.columns),))
                        continue
                    if k < 3:
                        raise Violation('columns %r accepted' % (list(df.columns),))
                    ctx.equal(c.getColumns(), list(df.columns), 'columns')
        df = frame(BIG, extra=True)
        orig = df.copy(deep=True)
        c = kind(df)
        df.loc[0, 'lat'] = 77.0
        df.drop(columns=['pop'], inplace=True)
        ctx.equal(table(c.getDataFrame()), table(orig), 'table after the caller changed his')
        d = c.getDataFrame()
        d['lat'] = 0.0
        d.drop(index=[1, 2], inplace=True)
        ctx.equal(table(c.getDataFrame()), table(orig), 'table after the handed-out copy was changed')
        sub = c.limitByPopulation(1000)
        sub.sortByColumns('lat')
        ctx.equal(table(c.getDataFrame()), table(orig), 'table after a filtered one was sorted')
        lat, lon, names = c.getCities()
        ctx.equal((list(lat), list(lon), list(names)), (list(orig.lat), list(orig.lon), list(orig.name)), 'getCities')
        ctx.equal(tuple(map(float, c.getBounds())), (-180.0, 180.0, -41.9, 90.0), 'getBounds')
        one = c.limitByName('Diego')
        ctx.equal(tuple(map(float, one.getBounds())), (-117.16, -117.16, 32.72, 32.72), 'getBounds')
        for la, lo in ((32.715335, -117.160278), (-0.000012345, 179.999987654), (89.987654321, -0.1234567)):
            df1 = pd.DataFrame({'name': ['Krung Thep Maha Nakhon Amon Rattanakosin ' + repr(la)], 'lat': [la], 'lon': [lo], 'pop': [5]})
            c1 = Cities(df1)
            ctx.equal(tuple(map(float, c1.getBounds())), (lo, lo, la, la), 'getBounds of one city')
            ctx.equal([x[0] for x in c1.getCities()], [la, lo, df1['name'][0]], 'getCities of one city')
        ctx.equal(len(repr(c)) > 0, True, 'repr')
        ctx.op(8)


def do_bad(ctx):
    c = Cities(frame(BIG))
    n = Cities(frame(BIG).drop(columns=['pop']))
    for f, t in ((lambda: c.limitByPopulation(0), ValueError), (lambda: c.limitByPopulation(5, minpop=5), ValueError), (lambda: c.limitByPopulation(5, minpop=6), ValueError),
                 (lambda: n.limitByPopulation(5), KeyError), (lambda: n.limitByPopulation(0), KeyError), (lambda: n.limitByGrid(), KeyError)):
        ctx.op()
        try:
            f()
        except t:
            continue
        raise Violation('an invalid filter was accepted')
    for d, f, p in BIGF:
        if d[0] != 'pop':
            expect(ctx, f(n), n.getDataFrame(), [p], '%r without populations' % (d,))


# kinds of GeoNames rows: (ascii name, kept)
GN = [('Paris', True, 'PPLC'), ('San Jose', True, 'PPL'), ('', False, 'PPL'), ('   ', False, 'PPLC'), ('Z\u00fcrich', False, 'PPLA'), ('  Spaced  ', True, 'PPLA'), ("O'Hara-2", True, 'PPLA2'), ('x', True, 'PPLCH'),
      ("'s-Gravenhage", True, 'PPLA'), ('6th of October', True, 'PPL'), ('(Old) Town; "B"', True, 'PPL')]


def do_geonames(ctx, k):
    path = os.path.join(ctx.scratch, 'cities.txt')
    for a, b in itertools.product(range(len(GN)), repeat=2):
        want = []
        with open(path, 'w', encoding='utf-8') as f:
            for i, j in enumerate((k, a, b)):
                name, keep, code = GN[j]
                lat, lon, pop = [(48.85341, 2.3488, 2138551), (-9.93, -84.08, 0), (0.0, 180.0, 1)][i]
                parts = [str(i), '\u00c5N\u00e4me\u00a0\u2028' + name, name, 'alt,\u00c5\u0160,names', repr(lat), repr(lon), 'P', code, 'CR', '', '08', '', '', '', str(pop), '', '1', 'UTC', '2020-01-01']
                f.write('\t'.join(parts) + '\n')
                if keep:
                    want.append((name.strip(), 'CR', lat, lon, code in ('PPLC', 'PPLA'), pop))
        for kind in (Cities, MapCities):
            ctx.op()
            c = kind.fromGeoNames(path)
            df = c.getDataFrame()
            if type(c) is not kind:
                raise Violation('%r from a GeoNames file' % type(c))
            got = [(r['name'], r['ccode'], float(r['lat']), float(r['lon']), bool(r['iscap']), int(r['pop'])) for r in rows(df)]
            if got != want:
                raise Violation('GeoNames rows %r read as %r, expected %r' % ((k, a, b), got, want))
            ctx.traces += 1
            ctx.state((k, a, b))
        if not os.path.exists(path):
            raise Violation('the GeoNames file was removed')


def do_csv(ctx):
    path = os.path.join(ctx.scratch, 'c.csv')
    for extra in (False, True):
        for sel in ([0], [0, 1, 2], list(range(14)), [4, 5], [13, 2, 7]):
            df = frame([BIG[i] for i in sel], extra=extra)
            c = Cities(df)
            c.save(path)
            d = Cities.fromCSV(path)
            ctx.op(2)
            g = d.getDataFrame()
            if len(d) != len(df):
                raise Violation('%d cities saved, %d loaded' % (len(df), len(d)))
            for col in df.columns:
                a = ['nan' if x is None or x != x else x for x in df[col]]
                b = ['nan' if x != x else x for x in g[col]]
                if len(a) != len(b) or any(not (x == y or isinstance(x, float) and isinstance(y, float) and abs(x - y) <= 1e-12 * abs(x)) for x, y in zip(a, b)):
                    raise Violation('column %s saved as %r, loaded as %r' % (col, a, b))
            ctx.equal(table(c.getDataFrame()), table(df), 'table after save')
            for dd, f, p in BIGF:
                expect(ctx, f(d), g, [p], 'loaded table, %r' % (dd,))
    fine = frame([(-118.243683901234, 34.052234567891, 3, 'A'), (1e-07, -1e-07, 4, 'B'), (179.999999999, -89.123456789, 5, 'C')])
    for _ in range(3):
        Cities(fine).save(path)
        d = Cities.fromCSV(path).getDataFrame()
        ctx.op(2)
        ctx.check(all(abs(a - b) <= 1e-12 * abs(a) for col in ('lat', 'lon') for a, b in zip(fine[col], d[col])), 'coordinates %r saved, %r loaded' % (fine.values.tolist(), d.values.tolist()))
        fine = d[['name', 'lat', 'lon', 'pop']]
    # files written by somebody else
    for head, txt, names in (('name,lat,lon', ['A,%s,%s', 'B b,%s,%s', '#3,%s,%s', 'D # d,%s,%s'], ['A', 'B b', '#3', 'D # d']),
                             ('lat,lon,name', ['%s,%s,"Washington, D.C."', '%s,%s,"say ""x"""', "%s,%s,O'Hara", '%s,%s,A'], ['Washington, D.C.', 'say "x"', "O'Hara", 'A'])):
        lat, lon = ['1.5', '-2', '0', '89.25'], ['-180', '0.125', '7', '180']
        with open(path, 'w') as f:
            f.write(head + '\n' + '\n'.join(t % (a, o) for t, a, o in zip(txt, lat, lon)) + '\n')
        d = Cities.fromCSV(path)
        ctx.op()
        ctx.equal(sorted(d.getColumns()), ['lat', 'lon', 'name'], 'columns of a CSV file')
        g = d.getDataFrame()
        ctx.equal([list(g.name), [float(x) for x in g.lat], [float(x) for x in g.lon]], [names, [float(x) for x in lat], [float(x) for x in lon]], 'CSV file')
    with open(path, 'w') as f:
        f.write('name,lat\nA,1\n')
    try:
        Cities.fromCSV(path)
    except KeyError:
        return
    raise Violation('a CSV file without longitudes was accepted')
