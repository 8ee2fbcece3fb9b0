"""G02: compass directions."""
import math
import numpy as np
from mc.core import Violation
from impactutils.mapping import compass

LEVEL = 'exploration'
RULE = ('bearing form: every azimuth -360..360 in eighth-degree steps (thorough 1/64), all sector limits and their neighbours at 1e-3 degree, 3 resolutions x 2 formats plus the defaults; place form: all '
        'ordered pairs over a lattice of places including the antimeridian, both spellings of 180 degrees, polar latitudes and close neighbours, 3 resolutions x 2 formats; '
        'unsupported formats / resolutions. Oracle: exact sector arithmetic in sixty-fourths of a degree and the initial great-circle bearing from vector geometry.')
ASSUMPTIONS = ['bearings are given in -360..360 degrees', 'on the border of two sectors either name is right',
               'directions to the same or the opposite place and from a pole are not judged']
SHORT16 = 'N NNE NE ENE E ESE SE SSE S SSW SW WSW W WNW NW NNW'.split()
WORD = {'N': 'north', 'E': 'east', 'S': 'south', 'W': 'west'}
STEP = {'cardinal': 4, 'intercardinal': 2, 'meteorological': 1}


def longname(s):
    w = [WORD[c] for c in s]
    if len(w) == 3:
        t = w[0] + '-' + w[1] + w[2]
    else:
        t = ''.join(w)
    return t.capitalize()


def allowed(az, res):
    """names of the nearest sector(s), as indices into the 16 points; az exact multiple of 1/64 or any float"""
    k = STEP[res]
    w = 22.5 * k
    q = (az % 360.0) / w
    f = q - math.floor(q)
    lo, hi = int(math.floor(q)), int(math.floor(q)) + 1
    if abs(f - 0.5) * w < 1e-6:
        r = [lo, hi]
    else:
        r = [lo] if f < 0.5 else [hi]
    return [SHORT16[(i * k) % 16] for i in r]


def judge(ctx, got, az, res, fmt, what):
    ctx.transitions += 1
    want = allowed(az, res)
    if fmt == 'long':
        want = [longname(x) for x in want]
    if got not in want:
        raise Violation('%s: %r, expected %s (bearing %r)' % (what, got, ' or '.join(want), az))
    ctx.outcomes.add(str(got).encode())


LATS = [-90, -89.5, -75, -45, -30, -0.001, 0, 0.5, 30, 45, 60, 80, 89.9, 90]
LONS = [-180, -179.9, -135, -120, -90, -45, -0.5, 0, 0.01, 30, 60, 90, 120, 150, 179.5, 180]


def cases(tier):
    n = 8 if tier == 'quick' else 64
    for a in range(-360, 360, 30):
        yield ['az', a, n]
    lats = LATS if tier == 'quick' else sorted(set(LATS + list(range(-80, 81, 10))))
    for la in lats:
        for lo in (LONS if tier == 'quick' else sorted(set(LONS + list(range(-170, 180, 10))))):
            yield ['pl', la, lo]
    yield ['bad']


def run(case, ctx):
    ctx.state(case)
    if case[0] == 'az':
        _, a, n = case
        azs = [a + i / n for i in range(30 * n + 1)]
        azs += [b + d for b in np.arange(a, a + 30.1, 11.25) for d in (-1e-3, 1e-3) if abs(b + d) <= 360]
        for az in azs:
            for v in (az, np.float64(az)) + ((int(az),) if az == int(az) else ()):
                for res in STEP:
                    for fmt in ('short', 'long'):
                        judge(ctx, compass.get_compass_dir_azimuth(v, resolution=res, format=fmt), az, res, fmt, 'bearing %r, %s, %s' % (v, res, fmt))
                judge(ctx, compass.get_compass_dir_azimuth(v), az, 'intercardinal', 'short', 'bearing %r by default' % v)
                ctx.traces += 1
    elif case[0] == 'pl':
        _, la, lo = case
        for la2 in LATS:
            for lo2 in LONS:
                a1, a2, d = math.radians(la), math.radians(la2), math.radians(lo2 - lo)
                y, x = math.sin(d) * math.cos(a2), math.cos(a1) * math.sin(a2) - math.sin(a1) * math.cos(a2) * math.cos(d)
                if math.hypot(x, y) < 1e-9 or abs(la) == 90:
                    continue
                az = math.degrees(math.atan2(y, x)) % 360
                for res in STEP:
                    for fmt in ('short', 'long'):
                        judge(ctx, compass.get_compass_dir(la, lo, la2, lo2, resolution=res, format=fmt), az, res, fmt, 'from %r,%r to %r,%r, %s, %s' % (la, lo, la2, lo2, res, fmt))
                judge(ctx, compass.get_compass_dir(la, lo, la2, lo2), az, 'intercardinal', 'short', 'from %r,%r to %r,%r by default' % (la, lo, la2, lo2))
                ctx.traces += 1
    else:
        for f in (lambda **k: compass.get_compass_dir_azimuth(10, **k), lambda **k: compass.get_compass_dir(1, 2, 3, 4, **k)):
            for k in ({'format': 'medium'}, {'format': ''}, {'format': None}, {'format': 'LONG'}, {'resolution': 'fine'}, {'resolution': ''}, {'resolution': None}, {'resolution': 'Cardinal'},
                      {'resolution': 'x', 'format': 'long'}, {'resolution': 'cardinal', 'format': 'x'}):
                ctx.op()
                try:
                    r = f(**k)
                except KeyError:
                    continue
                raise Violation('%r gave %r instead of a key error' % (k, r))
