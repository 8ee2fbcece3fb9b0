"""K01: ColorPalette."""
import itertools
import math
import warnings
import numpy as np
import pandas as pd
import matplotlib
from mc.core import Violation
from mc.fsutil import CaseDir
from impactutils.colors.cpalette import ColorPalette
from impactutils.exceptions import ConsistentLengthError, UnsupportedArgumentError

LEVEL = 'exploration'
RULE = ('all tables of 1 and 2 segments (thorough: 3) over 6 sets of break points and all assignments of 4 colours to both ends of every segment (continuous and with jumps), with and without a resolution, linear and logarithmic, '
        'given as lists/tuples/arrays/series; every value of a fine grid including segment borders, their neighbourhoods, both outsides, NaN and masked; all output forms, scalar, 1-D and 2-D; '
        'read back from the file form in several layouts and with all missing-data colours over 4 channel values; all presets; all colour-map based palettes over 6 maps; all histories of depth 1..3 of range changes and look-ups; all tables with one '
        'column of another length. Oracle: piecewise linear interpolation written here; a look-up may be off by at most one colour step of the palette resolution.')
ASSUMPTIONS = ['segments are contiguous and increasing', 'a palette has at least 256 colour steps, or range/resolution if that is more']
COL = [(0, 0, 0), (255, 255, 255), (255, 0, 10), (30, 200, 128)]
BREAKS = [[0, 1], [-5, 7.5], [1000, 50000], [0, 1, 2], [-1.5, 0.25, 9], [0, 4, 9999], [0, 1, 2, 3], [-100, 0, 50, 9000], [5.0, 5.5, 6.25, 7],
          [0.0012, 0.0047], [-3.14159, -3.1249, -3.0101]]


def cases(tier):
    q = tier == 'quick'
    for bi, br in enumerate(BREAKS):
        n = len(br) - 1
        if n == 3:
            # continuous tables and tables with jumps
            combos = itertools.product(range(4), repeat=4) if q else itertools.product(range(4), repeat=6)
            for c in combos:
                c = list(c)
                if len(c) == 4:
                    c = [c[0], c[1], c[1], c[2], c[2], c[3]] if sum(c) % 2 else [c[0], c[1], c[2], c[3], c[0], c[2]]
                yield ['table', bi, c, 0]
        else:
            for c in itertools.product(range(4), repeat=2 * n):
                for res in (0, 1, 2) if n == 1 or sum(c) % 5 == 0 else (0,):
                    yield ['table', bi, list(c), res]
    for bi in range(len(BREAKS)):
        for mode in range(5):
            yield ['forms', bi, mode]
    for bi in range(len(BREAKS)):
        for lay in range(5):
            yield ['file', bi, lay]
    for nan in itertools.product((0, 7, 128, 255), repeat=4):
        yield ['filenan', list(nan)]
    for p in sorted(['mmi', 'pop', 'shaketopo']):
        yield ['preset', p]
    for cm in ('viridis', 'jet', 'gray', 'hot', 'RdBu', 'tab10'):
        for bi in range(len(BREAKS)):
            yield ['cmap', cm, bi]
    ops = [['vmin', -1.0], ['vmin', 0.5], ['vmax', 4.0], ['vmax', 2.0], ['look', 0], ['vmax', -2.5], ['vmin', -6.25]]
    for d in (1, 2, 3):
        for h in itertools.product(range(len(ops)), repeat=d):
            yield ['hist', [ops[i] for i in h]]
    for which in range(4):
        for delta in (-1, 1):
            for n in (1, 2, 3):
                yield ['bad', which, delta, n]
    for nan in range(6):
        yield ['nan', nan]
    yield ['misc']


class Ref(object):
    def __init__(self, z0, z1, c0, c1, N=256):
        self.z0, self.z1 = [float(v) for v in z0], [float(v) for v in z1]
        self.c0 = [[v / 255.0 for v in c] for c in c0]
        self.c1 = [[v / 255.0 for v in c] for c in c1]
        self.lo, self.hi = min(self.z0), max(self.z1)
        self.delta = (self.hi - self.lo) / (N - 1) * 1.0001

    def bounds(self, v):
        """per channel: min and max of the exact colour within one colour step of v"""
        a, b = min(max(v - self.delta, self.lo), self.hi), min(max(v + self.delta, self.lo), self.hi)
        mn, mx = [9.0] * 3, [-9.0] * 3
        for i in range(len(self.z0)):
            s, e = max(a, self.z0[i]), min(b, self.z1[i])
            if s > e:
                continue
            for t in (s, e):
                f = (t - self.z0[i]) / (self.z1[i] - self.z0[i])
                for k in range(3):
                    x = self.c0[i][k] + f * (self.c1[i][k] - self.c0[i][k])
                    mn[k], mx[k] = min(mn[k], x), max(mx[k], x)
        return mn, mx

    def ok(self, v, rgba):
        mn, mx = self.bounds(v)
        return len(rgba) == 4 and abs(rgba[3] - 1) < 1e-9 and all(mn[k] - 1e-6 <= rgba[k] <= mx[k] + 1e-6 for k in range(3))


def grid(ref, fine):
    r = ref.hi - ref.lo
    out = [ref.lo + r * k / fine for k in range(fine + 1)]
    for z in ref.z0 + [ref.hi]:
        out += [z, z + ref.delta / 3, z - ref.delta / 3, z + 2 * ref.delta, z - 2 * ref.delta]
    out += [ref.lo - r, ref.lo - 1e-9 * r, ref.hi + r, ref.hi + 1e-9 * r, ref.lo - 10 * r, ref.hi + 1000 * r]
    return out


def judge(ctx, cp, ref, fine=40, log=False):
    vals = grid(ref, fine)
    arr = np.array(vals)
    give = np.exp(arr) if log else arr
    keep = give.copy()
    rgba = cp.getDataColor(give)
    u8 = cp.getDataColor(give, 'array')
    ctx.check(np.array_equal(keep, give), 'look-up changed the data array')
    ctx.check(isinstance(u8, np.ndarray) and u8.shape == (len(vals), 4) and u8.dtype == np.uint8, 'array form has shape %r' % (np.shape(u8),))
    ctx.check(np.shape(rgba) == (len(vals), 4), 'mlab form of an array has shape %r' % (np.shape(rgba),))
    for i, v in enumerate(vals):
        if not ref.ok(v, rgba[i]):
            raise Violation('colour of %r is %r, outside %r of table %r' % (v, rgba[i], ref.bounds(v), (ref.z0, ref.z1, ref.c0, ref.c1)))
        if np.abs(rgba[i] * 255 - u8[i]).max() > 1:
            raise Violation('array form %r of %r differs from %r' % (u8[i], v, rgba[i] * 255))
    ctx.transitions += 2
    for i in range(0, len(vals), 5):
        v = give[i]
        one = cp.getDataColor(v)
        c255 = cp.getDataColor(v, '255')
        hx = cp.getDataColor(v, 'hex')
        ctx.transitions += 3
        if tuple(one) != tuple(rgba[i]):
            raise Violation('scalar look-up of %r: %r, array look-up: %r' % (v, one, rgba[i]))
        if not (isinstance(c255, tuple) and all(isinstance(x, int) for x in c255)) or tuple(c255) != tuple(int(x) for x in u8[i]):
            raise Violation('255 form of %r: %r, array form %r' % (v, c255, u8[i]))
        if hx != '#%02X%02X%02X' % c255[:3]:
            raise Violation('hex form of %r: %r, 255 form %r' % (v, hx, c255))
        ctx.outcome(hx)
    a2 = give[:6].reshape(2, 3)
    ctx.check(np.array_equal(np.asarray(cp.getDataColor(a2)).reshape(6, 4), rgba[:6]) and np.array_equal(cp.getDataColor(a2, 'array'), u8[:6].reshape(2, 3, 4)), '2-D look-up differs')


def table(bi, c):
    br = BREAKS[bi]
    n = len(br) - 1
    c0 = [COL[c[2 * i]] for i in range(n)]
    c1 = [COL[c[2 * i + 1]] for i in range(n)]
    return br[:-1], br[1:], c0, c1


def run(case, ctx):
    warnings.simplefilter('ignore')
    with CaseDir(ctx):
        globals()['do_' + case[0]](ctx, *case[1:])
    ctx.state(case)


def do_table(ctx, bi, c, res):
    z0, z1, c0, c1 = table(bi, c)
    r = max(z1) - min(z0)
    resolution = [None, r / 1000.0, r / 10.0][res]
    N = 256 if res != 1 else 1000
    keep = repr((z0, z1, c0, c1))
    cp = ColorPalette('t', z0, z1, c0, c1, resolution=resolution)
    ctx.equal(repr((z0, z1, c0, c1)), keep, 'caller table after construction')
    ctx.equal((float(cp.vmin), float(cp.vmax)), (float(z0[0]), float(z1[-1])), 'range')
    judge(ctx, cp, Ref(z0, z1, c0, c1, N))
    if res == 0 and sum(c) % 4 == 0 and max(z1) < 600:
        cl = ColorPalette('t', z0, z1, c0, c1, is_log=True)
        judge(ctx, cl, Ref(z0, z1, c0, c1), log=True) if max(z1) * 1 < 10 else None


def do_forms(ctx, bi, mode):
    n = len(BREAKS[bi]) - 1
    z0, z1, c0, c1 = table(bi, [0, 1, 1, 2, 3, 0][:2 * n])
    ref = Ref(z0, z1, c0, c1)
    f = [(tuple, tuple), (np.array, list), (pd.Series, list), (list, tuple), (np.array, lambda c: [list(x) for x in c])][mode]
    cp = ColorPalette('t', f[0](z0), f[0](z1), f[1](c0), f[1](c1))
    judge(ctx, cp, ref)


def do_file(ctx, bi, lay):
    n = len(BREAKS[bi]) - 1
    z0, z1, c0, c1 = table(bi, [0, 1, 1, 2, 3, 0][:2 * n])
    sep = [' ', '   ', '\t', ' \t ', '  '][lay]
    head = ['', '#a comment\n# another: one\n', '#$nan_color: 10,20,30,255\n', '#$name: Test_A\n#$resolution: %r\n' % ((z1[-1] - z0[0]) / 700.0), '\n#$nan_color:1, 2 ,3,4\n#$name:x Y\n'][lay]
    cols = ['Z0 R0 G0 B0 Z1 R1 G1 B1', 'Z0 Z1 R0 G0 B0 R1 G1 B1'][lay % 2].split()
    with open('p.cpt', 'w') as f:
        f.write(head + sep.join(cols) + '\n')
        for i in range(n):
            d = dict(Z0=z0[i], Z1=z1[i], R0=c0[i][0], G0=c0[i][1], B0=c0[i][2], R1=c1[i][0], G1=c1[i][1], B1=c1[i][2])
            f.write(sep.join(repr(d[k]) for k in cols) + '\n')
            if lay == 1:
                f.write('# between\n')
    cp = ColorPalette.fromFile('p.cpt')
    judge(ctx, cp, Ref(z0, z1, c0, c1, 700 if lay == 3 else 256))
    nan = {2: (10, 20, 30, 255), 4: (1, 2, 3, 4)}.get(lay, (0, 0, 0, 0))
    got = cp.getDataColor(float('nan'))
    ctx.check(max(abs(a - b / 255.0) for a, b in zip(got, nan)) < 1e-6, 'missing-value colour from file: %r, expected %r' % (got, nan))
    ctx.equal((float(cp.vmin), float(cp.vmax)), (float(z0[0]), float(z1[-1])), 'range')
    if lay in (3, 4):
        ctx.equal(cp.cmap.name, {3: 'Test_A', 4: 'x Y'}[lay], 'name')


def do_filenan(ctx, nan):
    with open('p.cpt', 'w') as f:
        f.write('#$nan_color: %s\nZ0 R0 G0 B0 Z1 R1 G1 B1\n0 0 0 0 1 85 85 85\n1 85 85 85 2 255 170 0\n' % ','.join(map(str, nan)))
    cp = ColorPalette.fromFile('p.cpt')
    for got in (cp.getDataColor(float('nan')), cp.getDataColor(np.array([0.5, np.nan]))[1]):
        ctx.op()
        ctx.check(len(got) == 4 and max(abs(a - b / 255.0) for a, b in zip(got, nan)) < 1e-6, 'missing-value colour from file: %r, expected %r' % (got, nan))


PRE = {'mmi': (list(range(0, 10)), list(range(1, 11)), 256),
       'pop': ([0, 4, 49, 99, 499, 999, 4999, 9999], [4, 49, 99, 499, 999, 4999, 9999, 50000], 50000),
       'shaketopo': ([-100, 0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100], [0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100, 9200], 9300)}
PREC = {'mmi': [(255, 255, 255), (255, 255, 255), (191, 204, 255), (160, 230, 255), (128, 255, 255), (122, 255, 147), (255, 255, 0), (255, 200, 0), (255, 145, 0), (255, 0, 0), (200, 0, 0)],
        'shaketopo': [(195, 255, 193), (110, 135, 80), (120, 160, 90), (230, 220, 110), (210, 170, 80), (195, 140, 100), (100, 80, 70), (60, 60, 60), (255, 255, 255), (255, 255, 255), (255, 128, 0), (255, 0, 0)],
        'pop': [255, 191, 159, 127, 95, 63, 31, 0]}


def do_preset(ctx, p):
    z0, z1, N = PRE[p]
    if p == 'pop':
        c0 = c1 = [(g, g, g) for g in PREC[p]]
    else:
        c0, c1 = PREC[p][:-1], PREC[p][1:]
    ref = Ref(z0, z1, c0, c1, N)
    for rnd in range(3):
        cp = ColorPalette.fromPreset(p)
        ctx.equal((float(cp.vmin), float(cp.vmax)), (float(z0[0]), float(z1[-1])), 'preset range')
        judge(ctx, cp, ref, 400)
        nan = {'mmi': (0, 0, 0, 0), 'pop': (0, 0, 0, 0), 'shaketopo': (128, 128, 128, 0)}[p]
        got = cp.getDataColor(float('nan'))
        ctx.check(max(abs(a - b / 255.0) for a, b in zip(got, nan)) < 1e-6, 'missing-value colour of preset: %r' % (got,))
        cp.vmin, cp.vmax = -77, 77          # must not leak into the next palette made from the preset
    ctx.equal(sorted(ColorPalette.getPresets()), ['mmi', 'pop', 'shaketopo'], 'presets')


def do_cmap(ctx, name, bi):
    br = BREAKS[bi]
    cm = matplotlib.colormaps[name]
    z0, z1 = br[:-1], br[1:]
    r = br[-1] - br[0]

    def at(z):
        return [round(x * 255) for x in cm((z - br[0]) / r)[:3]]
    c0, c1 = [at(float(z)) for z in z0], [at(float(z)) for z in z1]
    cp = ColorPalette.fromColorMap(name, z0, z1, cm)
    judge(ctx, cp, Ref(z0, z1, c0, c1))
    cl = ColorPalette.fromColorMap(name, np.array([-4.0, -1, 2]), np.array([-1.0, 2, 5]), cm, is_log=True, nan_color=(1, 2, 3, 4))
    r = 9.0
    c = [[round(x * 255) for x in cm((z + 4) / r)[:3]] for z in (-4.0, -1, 2, 5)]
    judge(ctx, cl, Ref([-4, -1, 2], [-1, 2, 5], c[:-1], c[1:]), log=True)
    cn = ColorPalette.fromColorMap(name, z0, z1, cm, nan_color=(9, 8, 7, 255), resolution=(br[-1] - br[0]) / 2000.0)
    judge(ctx, cn, Ref(z0, z1, c0, c1, 2000))
    for x in (cl, cn):
        want = (1, 2, 3, 4) if x is cl else (9, 8, 7, 255)
        got = x.getDataColor(float('nan'))
        ctx.check(max(abs(a - b / 255.0) for a, b in zip(got, want)) < 1e-6, 'missing-value colour of a colour-map palette: %r, expected %r' % (got, want))
    try:
        ColorPalette.fromColorMap(name, z0 + [br[-1]], z1, cm)
    except ConsistentLengthError:
        return
    raise Violation('colour-map palette with unequal lengths accepted')


def do_hist(ctx, h):
    z0, z1, c0, c1 = [0, 1, 2], [1, 2, 3], [COL[0], COL[1], COL[3]], [COL[1], COL[2], COL[0]]
    cp = ColorPalette('t', z0, z1, c0, c1)
    lo, hi = 0.0, 3.0
    for op, v in h:
        if op == 'vmin':
            cp.vmin = lo = v
        elif op == 'vmax':
            cp.vmax = hi = v
        else:
            if lo >= hi:
                continue
            cp.getDataColor(1.0), cp.getDataColor(1.0, 'hex'), cp.getDataColor(np.array([1., 2.]), 'array')
        ctx.equal((float(cp.vmin), float(cp.vmax)), (lo, hi), 'range')
        if lo >= hi:        # only on the way to another range
            continue
        s = [lo + (hi - lo) * z / 3.0 for z in z0 + [3]]
        judge(ctx, cp, Ref(s[:-1], s[1:], c0, c1), 12)


def do_bad(ctx, which, delta, n):
    a = [list(range(n)), list(range(1, n + 1)), [COL[i % 4] for i in range(n)], [COL[(i + 1) % 4] for i in range(n)]]
    a[which] = a[which][:-1] if delta < 0 else a[which] + [a[which][-1]]
    for others in range(4):
        b = [list(x) for x in a]
        if others != which:
            b[others] = b[others] + [b[others][-1]] * 2
        ctx.op()
        if len({len(x) for x in b}) == 1:
            continue
        try:
            ColorPalette('t', *b)
        except ConsistentLengthError:
            continue
        raise Violation('table with column lengths %r accepted' % [len(x) for x in b])


def do_nan(ctx, i):
    nan = [0, 255, (0, 0, 0, 0), (10, 20, 30, 40), [255, 0, 128, 255], 7][i]
    cp = ColorPalette('t', [0, 1], [1, 2], [COL[0], COL[1]], [COL[1], COL[2]], nan_color=nan)
    want = [nan] * 4 if isinstance(nan, int) else list(nan)
    for got in (cp.getDataColor(float('nan')), cp.getDataColor(np.array([0.5, np.nan]))[1], cp.getDataColor(np.ma.masked_array([0.5, 1.5], [False, True]))[1]):
        ctx.op()
        ctx.check(max(abs(a - b / 255.0) for a, b in zip(got, want)) < 1e-6, 'missing-value colour %r, expected %r' % (got, want))
    ctx.check(max(abs(a - b) for a, b in zip(cp.getDataColor(float('nan'), '255'), want)) <= 1, 'missing-value colour in 255 form: %r, expected %r' % (cp.getDataColor(float('nan'), '255'), want))
    h = cp.getDataColor(float('nan'), 'hex')
    ctx.check(len(h) == 7 and max(abs(int(h[1 + 2 * k:3 + 2 * k], 16) - want[k]) for k in range(3)) <= 1, 'missing-value colour in hex form: %r, expected %r' % (h, want))
    ctx.check(max(abs(int(a) - b) for a, b in zip(cp.getDataColor(np.array([np.nan, 1.0]), 'array')[0], want)) <= 1, 'missing-value colour in array form')


def do_misc(ctx):
    cp = ColorPalette('t', [0], [1], [COL[0]], [COL[1]])
    for bad in ('rgb', '', None, 'HEX', '256'):
        ctx.op()
        try:
            r = cp.getDataColor(0.5, bad)
        except AttributeError:
            continue
        raise Violation('colour form %r accepted: %r' % (bad, r))
    for bad in ('', 'MMI', 'nosuch'):
        ctx.op()
        try:
            ColorPalette.fromPreset(bad)
        except UnsupportedArgumentError:
            continue
        raise Violation('preset %r accepted' % bad)
