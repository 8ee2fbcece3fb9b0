"""X01: rounding helpers, against exact rational arithmetic."""
import math
from fractions import Fraction as F
from mc.core import Violation
from impactutils.textformat.text import round_to_nearest, floor_to_nearest, ceil_to_nearest, set_num_precision

LEVEL = 'exploration'
RULE = ('every integer -1200..1200 (thorough -12000..12000) and values around multiples up to 1e12 and beyond 2^53 x whole steps {1..12, 25, 50, 100, 250, 1000, 10000, 10^6}; '
        'every k/10, k/100, k/1000 with |k| <= 1200 (thorough 6000) x fractional steps {0.1 .. 0.001, 0.25, 0.125, 0.3, 0.7, 1e-05, 1e-07, 2.5e-09, 1.5, 2.5, 12.5}, given as int, float, numpy scalars; '
        'significant-digit rounding of the same integers and decimals to 1..6 digits. Oracle: exact rational arithmetic on the decimal value.')
ASSUMPTIONS = ['a value denotes the decimal number its shortest text form shows', 'ties may round either way']
WHOLE = list(range(1, 13)) + [25, 50, 100, 250, 1000, 10000, 10**6]
FRAC = ['0.1', '0.2', '0.5', '0.25', '0.125', '0.05', '0.02', '0.01', '0.03', '0.3', '0.7', '0.001', '0.004', '1e-05', '1e-07', '2.5e-09', '1.5', '2.5', '12.5', '0.75']


def cases(tier):
    n = 1200 if tier == 'quick' else 12000
    for a in range(-n, n, 100):
        yield ['int', a, a + 101]
    for s in WHOLE:
        yield ['big', s]
    m = 1200 if tier == 'quick' else 6000
    for den in (10, 100, 1000):
        for a in range(-m, m, 60):
            yield ['frac', den, a, a + 61]
    for d in range(1, 7):
        for a in range(0, n, 200):
            yield ['sig', d, a, a + 201]
        yield ['sigbig', d]


def one(ctx, v, s):
    fv, fs = F(str(v)), F(str(s))
    for name, fn in (('round', round_to_nearest), ('floor', floor_to_nearest), ('ceil', ceil_to_nearest)):
        ctx.transitions += 1
        got = fn(v, s)
        g = F(str(got))
        k = g / fs
        n = F(round(k))
        ok = abs(k - n) <= F(1, 10**9)
        q = fv / fs
        if name == 'round':
            ok = ok and abs(q - n) <= F(1, 2)
        elif name == 'floor':
            ok = ok and n == math.floor(q)
        else:
            ok = ok and n == math.ceil(q)
        if ok and q.denominator == 1:
            ok = n == q
        if ok and fs.denominator == 1:
            ok = got == int(got) and k == n
        if not ok:
            raise Violation('%s of %r to a multiple of %r gave %r' % (name, v, s, got))
    ctx.traces += 1


def sig(ctx, v, d, mode, fv=None):
    fv = F(str(v)) if fv is None else fv
    ctx.transitions += 1
    ctx.traces += 1
    got = set_num_precision(v, d, mode=mode) if mode != 'default' else set_num_precision(v, d)
    g = F(str(got))
    if fv == 0:
        ok = g == 0
    else:
        e = 0
        a = abs(fv)
        while a >= 10:
            a /= 10
            e += 1
        while a < 1:
            a *= 10
            e -= 1
        unit = F(10) ** (e - d + 1)
        n = round(g / unit)
        ok = abs(g - n * unit) <= unit / 10**6 and abs(n * unit - fv) <= unit / 2 + unit / 10**6
        if fv % unit == 0:
            ok = ok and g == fv
    if mode != 'float':
        ok = ok and isinstance(got, int)
    if not ok:
        raise Violation('%r to %d significant digits (%s): %r' % (v, d, mode, got))


def run(case, ctx):
    import numpy as np
    if case[0] == 'int':
        for v in range(case[1], case[2]):
            for s in WHOLE:
                one(ctx, v, s)
                if v % 7 == 0:
                    one(ctx, float(v), s)
                    one(ctx, v, float(s))
                    one(ctx, np.int64(v), s)
            for s in FRAC:
                one(ctx, v, float(s))
            # defaults
            for fn, r in ((round_to_nearest, None), (floor_to_nearest, v // 1000 * 1000), (ceil_to_nearest, -(-v // 1000) * 1000)):
                got = fn(v)
                if r is not None and got != r or got % 1000 or abs(got - v) >= 1000:
                    raise Violation('default step: %s(%r) = %r' % (fn.__name__, v, got))
    elif case[0] == 'big':
        s = case[1]
        for k in (0, 1, 2, 3, 7, 999, 1000, 123456, 10**6, 999999):
            for off in (0, 1, -1, s // 2, s // 2 + 1, -(s // 2), 0.25, -0.25):
                one(ctx, k * s + off, s)
                one(ctx, -(k * s + off), s)
        for v in (2**53 + 1, 10**16 + 1, 10**17 - 1, 3 * 10**18 + 7, 10**21 + 123456789, 9007199254740993):
            for off in (-1, 0, 1):
                one(ctx, v + off, s)
                one(ctx, -v - off, s)
    elif case[0] == 'frac':
        _, den, a, b = case
        for k in range(a, b):
            v = k / den
            for s in FRAC:
                one(ctx, v, float(s))
            one(ctx, np.float64(v), 0.1)
            for s in (1, 2, 5, 10, 1000):
                one(ctx, v, s)
    elif case[0] == 'sig':
        _, d, a, b = case
        for k in range(a, b):
            for mode in ('int', 'float', 'default'):
                sig(ctx, k, d, mode)
                sig(ctx, -k, d, mode)
            for den in (10, 1000, 10**7):
                sig(ctx, k / den, d, 'float')
    else:
        d = case[1]
        for e in range(0, 15):
            for m in (1, 2, 5, 9):
                for off in (-1, 0, 1):
                    v = m * 10**e + off
                    if v > 0:
                        sig(ctx, v, d, 'int')
                        sig(ctx, v, d, 'float')
        for v in (123456789, 99999999, 999949999, 123454321, 7642, 321):
            sig(ctx, v, d, 'int')
    ctx.state(case)
    ctx.outcome(case[0])
