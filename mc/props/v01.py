"""V01: geographic <-> earth-centred coordinates."""
import math
import numpy as np
from mc.core import Violation
from impactutils.vectorutils.ecef import latlon2ecef, ecef2latlon

LEVEL = 'exploration'
RULE = ('complete lattice: latitudes -90..90 by 2.5 (thorough 0.5) plus the neighbourhoods of poles and equator (1e-3, 1e-6, 1e-9 degrees), longitudes '
        '-180..180 by 7.5 plus both sides of 0, +-90 and +-180, 14 depths -10..700 km; each as scalar (float, int, numpy scalar), 1-D, 2-D, 3-D, Fortran-ordered, '
        'sliced, single-element, empty and large (5600 points) arrays; all earth-centred points of a 20 x 20 lattice on and around the axis at every depth. Oracle: the point found geometrically (on the ellipsoid along the outward normal), computed here in scalar arithmetic.')
ASSUMPTIONS = ['WGS84', 'conversion back is accurate to 1 mm down to 50 km and 2 cm down to 700 km']
A = 6378137.0
INVF = 298.257223563
FL = 1 / INVF
B = A * (1 - FL)
DEPS = [-10.0, -1.0, -0.001, 0.0, 0.001, 1.0, 10.0, 35.0, 50.0, 100.0, 200.0, 300.0, 500.0, 700.0]
EPS = [1e-9, 1e-6, 1e-3]


def lats(tier):
    step = 25 if tier == 'quick' else 5
    out = [k / 10 for k in range(-900, 901, step)]
    for e in EPS:
        out += [90 - e, -90 + e, e, -e, 45 + e]
    return out


def lons():
    out = [k / 2 for k in range(-360, 361, 15)]
    for e in EPS:
        for c in (0, 90, -90):
            out += [c + e, c - e]
        out += [180 - e, -180 + e]
    return out


def cases(tier):
    for la in lats(tier):
        yield ['row', la]
    for sgn in (1, -1):
        for dep in DEPS:
            yield ['axis', sgn, dep]
    for shape in ([1], [3], [2, 2], [1, 5], [5, 1], [2, 3, 2], [0], [0, 3], [5000], [70, 80]):
        for mode in range(4):
            yield ['shape', shape, mode]


def ref(lat, lon, dep):
    """normal vector n=(cos,cos,sin); surface point = (a^2 n) / |diag(a,a,b) n|; then move along n"""
    la, lo = math.radians(lat), math.radians(lon)
    n = (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))
    w = math.sqrt(A * A * (n[0]**2 + n[1]**2) + B * B * n[2]**2)
    h = -dep * 1000.0
    return (A * A * n[0] / w + h * n[0], A * A * n[1] / w + h * n[1], B * B * n[2] / w + h * n[2])


def tol(dep):
    return 1e-3 if abs(dep) <= 50 else 0.02


def judge(ctx, lat, lon, dep, xyz, back, what):
    r = ref(lat, lon, dep)
    d = math.dist(r, xyz)
    if not d < 1e-3:
        raise Violation('%s (%r, %r, %r) -> %r, the ellipsoid gives %r (off by %g m)' % (what, lat, lon, dep, tuple(xyz), r, d))
    la, lo, de = back
    if not (-90 <= la <= 90 and -180 <= lo <= 180):
        raise Violation('%s (%r, %r, %r): back-converted position out of range: %r' % (what, lat, lon, dep, back))
    d = math.dist(r, ref(la, lo, de))
    if not d < tol(dep) or not abs(de - dep) * 1000 < tol(dep) or not abs(la - lat) * 111200 < tol(dep):
        raise Violation('%s (%r, %r, %r): back-converted %r, off by %g m' % (what, lat, lon, dep, back, d))
    if abs(lat) < 90 and abs((lo - lon + 180) % 360 - 180) * math.cos(math.radians(lat)) * 111320 > tol(dep):
        raise Violation('%s (%r, %r, %r): longitude comes back as %r' % (what, lat, lon, dep, lo))


def run(case, ctx):
    globals()['do_' + case[0]](ctx, *case[1:])
    ctx.state(case)


def do_row(ctx, lat):
    L = lons()
    for dep in DEPS:
        # vector form
        la, lo, de = np.full(len(L), lat), np.array(L), np.full(len(L), dep)
        keep = [v.copy() for v in (la, lo, de)]
        x, y, z = latlon2ecef(la, lo, de)
        xk = [v.copy() for v in (x, y, z)]
        b = ecef2latlon(x, y, z)
        for u, v in zip(keep + xk, (la, lo, de, x, y, z)):
            ctx.check(np.array_equal(u, v), 'conversion changed its argument')
        ctx.transitions += 2
        for i, lon in enumerate(L):
            judge(ctx, lat, lon, dep, (x[i], y[i], z[i]), (b[0][i], b[1][i], b[2][i]), 'array')
            sx = latlon2ecef(lat, lon, dep)
            sb = ecef2latlon(*sx)
            ctx.transitions += 2
            ctx.traces += 1
            judge(ctx, lat, lon, dep, sx, sb, 'scalar')
            if any(np.ndim(v) for v in tuple(sx) + tuple(sb)):
                raise Violation('scalar input gives %r, %r' % (sx, sb))
        ctx.outcome((lat, dep, round(float(x[0]), 1)))
    if lat == int(lat):
        for lon in (-180, -90, 0, 45, 180):
            for dep in (0, 10, -2, 650):
                for conv in (int, np.float64, np.int64):
                    sx = latlon2ecef(conv(lat), conv(lon), conv(dep))
                    judge(ctx, lat, lon, dep, sx, ecef2latlon(*[float(v) for v in sx]), conv.__name__)


def do_axis(ctx, sgn, dep):
    """earth-centred points exactly on and next to the rotation axis"""
    z = sgn * (B - dep * 1000.0)
    off = [0.0, 1e-12, 1e-9, 1e-6, 1e-3, 0.25, 0.999, 1.0, 1.001, 3.0]
    off = off + [-v for v in off]
    pts = [(x, y) for x in off for y in off]
    xs, ys = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
    la, lo, de = ecef2latlon(xs, ys, np.full(len(pts), z))
    ctx.op()
    many = ecef2latlon(np.tile(xs, 13), np.tile(ys, 13), np.full(13 * len(pts), z))
    for u, v in zip(many, (la, lo, de)):
        ctx.check(np.allclose(u, np.tile(v, 13), rtol=0, atol=1e-6), 'points around the axis convert differently in a larger array')
    for i, (x, y) in enumerate(pts):
        for what, b in (('array', (la[i], lo[i], de[i])), ('scalar', ecef2latlon(x, y, z))):
            ctx.transitions += 1
            if any(np.ndim(v) for v in b) or not (-90 <= b[0] <= 90 and -180 <= b[1] <= 180):
                raise Violation('%s earth-centred (%r, %r, %r) -> %r' % (what, x, y, z, b))
            d = math.dist(ref(*[float(v) for v in b]), (x, y, z))
            if not d < 0.02:
                raise Violation('%s earth-centred (%r, %r, %r) -> %r, off by %g m' % (what, x, y, z, b, d))
        ctx.traces += 1
    ctx.outcome((sgn, dep))


def do_shape(ctx, shape, mode):
    n = int(np.prod(shape))
    L, M = lats('quick'), lons()
    la = np.array([L[(7 * i + 3) % len(L)] for i in range(n)], dtype=float).reshape(shape)
    lo = np.array([M[(5 * i + 1) % len(M)] for i in range(n)], dtype=float).reshape(shape)
    de = np.array([DEPS[i % len(DEPS)] for i in range(n)], dtype=float).reshape(shape)
    if mode == 1:
        la, lo, de = [np.asfortranarray(v) for v in (la, lo, de)]
    elif mode == 2:
        la, lo, de = [np.repeat(v, 2, axis=0)[::2] for v in (la, lo, de)]
    elif mode == 3:
        la, lo, de = [v.T for v in (la, lo, de)]
    xyz = latlon2ecef(la, lo, de)
    if mode == 2:
        xyz = [np.repeat(v, 2, axis=0)[::2] for v in xyz]
    b = ecef2latlon(*xyz)
    ctx.op(2)
    for v in list(xyz) + list(b):
        ctx.check(isinstance(v, np.ndarray) and v.shape == la.shape, 'result shape %r for input shape %r' % (np.shape(v), la.shape))
    for idx in np.ndindex(*la.shape):
        judge(ctx, la[idx], lo[idx], de[idx], [v[idx] for v in xyz], [v[idx] for v in b], 'shape %r' % (shape,))
