"""V02: Vector algebra and Point."""
import copy
import itertools
import math
import numpy as np
from mc.core import Violation
from impactutils.vectorutils.vector import Vector
from impactutils.vectorutils.point import Point

LEVEL = 'exploration'
RULE = ('all ordered pairs of lattice vectors {-2..2}^3 and fractional/large ones, all operators, all scalar factors of an alphabet on both sides, non-vector and '
        'non-number operands; all ordered triples of {-1,0,1}^3 for the algebraic laws (associativity, distributivity, triple product, Lagrange identity, triangle inequality); near neighbours of every vector for exact equality; all operation chains of length 2 and changed results for operand preservation; '
        'points on a lattice of positions for conversion both ways; azimuths between all pairs of a lattice of places. '
        'Oracle: integer / exact arithmetic written here and spherical trigonometry.')
ASSUMPTIONS = ['the direction of a zero vector is undefined and not judged']
G = list(itertools.product(range(-2, 3), repeat=3))
EXTRA = [(0.5, -0.25, 3), (1e6, -2e6, 3.5e6), (6378137.0, 0, -1), (1e-3, 1e-3, -1e-3),
         (6378137.0, 0.001, -1), (1234567.25, -2345678.5, 0.125), (-1e-7, 2e-7, 3e-7), (4510023.9437, 4510024.1, 1e-4)]
S3 = list(itertools.product((-1, 0, 1), repeat=3))


def cases(tier):
    for a in G + EXTRA:
        yield ['pair', list(a)]
    for a in S3:
        yield ['triple', list(a)]
    for la in range(-90, 91, 10):
        yield ['point', la]
    for la in range(-80, 81, 20):
        for lo in (range(-180, 181, 30) if tier == 'quick' else range(-180, 181, 10)):
            yield ['azimuth', la, lo]
    yield ['types']


def near(a, b, scale=1.0):
    return abs(a - b) <= 1e-12 * max(1.0, abs(scale), abs(b))


def vec(ctx, v, want, what):
    ctx.transitions += 1
    if not isinstance(v, Vector):
        raise Violation('%s is %r, not a vector' % (what, v))
    t = v.getTuple()
    m = max(map(abs, want)) if want else 1
    if not all(near(x, y, m) for x, y in zip(t, want)) or (v.x, v.y, v.z) != t or len(t) != 3:
        raise Violation('%s: got %r, expected %r' % (what, t, want))


def num(ctx, got, want, what, scale=1.0):
    ctx.transitions += 1
    if not near(float(got), want, scale):
        raise Violation('%s: got %r, expected %r' % (what, got, want))


FACT = [0, 1, -1, 2, 2.5, -0.125, 1000, np.float64(3), np.int64(-2), True]


def run(case, ctx):
    globals()['do_' + case[0]](ctx, *case[1:])
    ctx.state(case)


def do_pair(ctx, a):
    a = tuple(a)
    for b in G + EXTRA:
        A, B = Vector(*a), Vector(*b)
        big = max(map(abs, a + b))
        w = '%r, %r' % (a, b)
        vec(ctx, A + B, tuple(x + y for x, y in zip(a, b)), 'sum of ' + w)
        vec(ctx, A - B, tuple(x - y for x, y in zip(a, b)), 'difference of ' + w)
        num(ctx, A.dot(B), sum(x * y for x, y in zip(a, b)), 'dot product of ' + w, big * big)
        c = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
        C = A.cross(B)
        ctx.transitions += 1
        if not all(abs(x - y) <= 1e-12 * math.hypot(*a) * math.hypot(*b) for x, y in zip(C.getTuple(), c)):
            raise Violation('cross product of %s: %r' % (w, C))
        num(ctx, A.distance(B), math.sqrt(sum((x - y)**2 for x, y in zip(a, b))), 'distance of ' + w, big)
        ctx.equal(bool(A == B), all(x == y for x, y in zip(a, b)), 'equality of ' + w)
        ctx.equal(bool(A != B), any(x != y for x, y in zip(a, b)), 'inequality of ' + w)
        if A.getTuple() != tuple(map(float, a)) or B.getTuple() != tuple(map(float, b)):
            raise Violation('operands %s changed to %r, %r' % (w, A, B))
        ctx.traces += 1
    A = Vector(*a)
    # equality is exact: a neighbour differing by little in one component is another vector
    for k in range(3):
        for d in (1e-9, 1e-6, 1e-3, 0.5):
            for sign in (1, -1):
                b = list(map(float, a))
                b[k] += sign * d
                same = b[k] == float(a[k])
                ctx.equal(bool(A == Vector(*b)), same, 'equality of %r, %r' % (a, b))
                ctx.equal(bool(A != Vector(*b)), not same, 'inequality of %r, %r' % (a, b))
    # results are vectors of their own: changing one changes neither operand
    for name, f in (('A+0', lambda p, q: p + q), ('0+A', lambda p, q: q + p), ('A-0', lambda p, q: p - q), ('A*1', lambda p, q: p * 1), ('1*A', lambda p, q: 1 * p),
                    ('direction', lambda p, q: p.norm()), ('cross', lambda p, q: p.cross(q))):
        if name == 'direction' and not any(a):
            continue
        P, Q = Vector(*a), Vector(0, 0, 0)
        R = f(P, Q)
        ctx.transitions += 1
        R.x, R.y, R.z = 71.0, 72.0, 73.0
        if P.getTuple() != tuple(map(float, a)) or Q.getTuple() != (0., 0., 0.):
            raise Violation('changing the result of %s for %r changes an operand' % (name, a))
    for s in FACT:
        vec(ctx, A * s, tuple(x * float(s) for x in a), '%r * %r' % (a, s))
        if not isinstance(s, np.generic):
            vec(ctx, s * A, tuple(x * float(s) for x in a), '%r * %r' % (s, a))
    m = math.sqrt(sum(x * x for x in a))
    num(ctx, A.mag(), m, 'length of %r' % (a,), m)
    if m:
        vec(ctx, A.norm(), tuple(x / m for x in a), 'direction of %r' % (a,))
    arr = A.getArray()
    ctx.check(isinstance(arr, np.ndarray) and arr.shape == (3,) and tuple(arr) == tuple(map(float, a)), 'array of %r' % (a,))
    arr[:] = 99
    ctx.equal(A.getTuple(), tuple(map(float, a)), 'vector after its array was modified')
    ctx.equal(tuple(A.getArray()), tuple(map(float, a)), 'array after another one was modified')
    # a name bound to the same vector keeps its value when the other name is assigned a result
    P = alias = Vector(*a)
    P += Vector(1, 2, 3)
    Q = alias
    Q -= Vector(1, 2, 3)
    W = alias
    W *= 3
    ctx.equal([alias.getTuple(), P.getTuple(), Q.getTuple(), W.getTuple()],
              [tuple(map(float, a)), tuple(x + y for x, y in zip(map(float, a), (1, 2, 3))), tuple(x - y for x, y in zip(map(float, a), (1, 2, 3))), tuple(x * 3.0 for x in map(float, a))], 'assignment with an operator')
    # a vector whose components were set afterwards behaves as a new one
    P = Vector(7, 8, 9)
    P.getArray(), P.mag(), P.getTuple()
    P.x, P.y, P.z = map(float, a)
    ctx.equal([P.getTuple(), tuple(P.getArray()), float(P.mag()), P == A], [A.getTuple(), A.getTuple(), float(A.mag()), True], 'vector after its components were set')
    vec(ctx, Vector.fromTuple(a), a, 'from tuple')
    vec(ctx, Vector.fromTuple(list(a)), a, 'from list')
    ctx.outcome(A.mag())
    # chains of two operations leave every intermediate operand alone
    ops = [lambda p, q: p + q, lambda p, q: p - q, lambda p, q: p.cross(q), lambda p, q: p * 2.0, lambda p, q: 3 * p, lambda p, q: (p + Vector(9, 9, 9)).norm(),
           lambda p, q: (p.dot(q), p.mag(), p.distance(q), p == q, p)[-1]]
    for f, g in itertools.product(ops, repeat=2):
        P, Q = Vector(*a), Vector(1, -2, 3)
        R = f(P, Q)
        r0 = R.getTuple()
        T = g(R, P)
        g(Q, R)
        ctx.transitions += 3
        if P.getTuple() != tuple(map(float, a)) or Q.getTuple() != (1., -2., 3.) or R.getTuple() != r0:
            raise Violation('chained operations changed an operand')


def do_triple(ctx, a):
    A = Vector(*a)
    for b, c in itertools.product(S3, repeat=2):
        B, C = Vector(*b), Vector(*c)
        ctx.traces += 1
        ok = ((A + B) + C == A + (B + C) and A + B == B + A and A - B == A + (-1) * B and A.cross(B) == -1 * B.cross(A) and
              A.cross(B + C) == A.cross(B) + A.cross(C) and A.dot(B + C) == A.dot(B) + A.dot(C) and
              A.dot(B.cross(C)) == B.dot(C.cross(A)) and A.cross(B).dot(A) == 0 and
              A.cross(B.cross(C)) == B * A.dot(C) - C * A.dot(B) and
              A.distance(C) <= A.distance(B) + B.distance(C) + 1e-12 and A.distance(B) == (A - B).mag() and
              near(A.cross(B).mag()**2 + A.dot(B)**2, A.dot(A) * B.dot(B)))
        ctx.transitions += 30
        if not ok:
            raise Violation('an algebraic law fails for %r, %r, %r' % (a, b, c))


def do_point(ctx, la):
    for lo in range(-180, 181, 15):
        for dep in (-2.0, 0.0, 0.5, 10.0, 33.3, 600.0):
            p = Point(lo, la, dep)
            ctx.equal((p.x, p.y, p.z), (lo, la, dep), 'point coordinates')
            ctx.equal((p.longitude, p.latitude, p.depth), (lo, la, dep), 'point coordinates')
            v = Vector.fromPoint(p)
            t = v.getTuple()
            # ellipsoid
            n = (math.cos(math.radians(la)) * math.cos(math.radians(lo)), math.cos(math.radians(la)) * math.sin(math.radians(lo)), math.sin(math.radians(la)))
            a, b = 6378137.0, 6356752.314245179
            w = math.sqrt(a * a * (n[0]**2 + n[1]**2) + b * b * n[2]**2)
            want = (a * a * n[0] / w - 1000 * dep * n[0], a * a * n[1] / w - 1000 * dep * n[1], b * b * n[2] / w - 1000 * dep * n[2])
            if math.dist(t, want) > 1e-3:
                raise Violation('vector of the point %r %r %r: %r, expected %r' % (la, lo, dep, t, want))
            q = v.toPoint()
            ctx.transitions += 2
            ctx.traces += 1
            if math.dist(Vector.fromPoint(q).getTuple(), want) > 0.02 or abs(q.depth - dep) > 2e-5:
                raise Violation('point %r %r %r comes back as %r %r %r' % (la, lo, dep, q.latitude, q.longitude, q.depth))
            if v.getTuple() != t or (p.x, p.y, p.z) != (lo, la, dep):
                raise Violation('conversion changed its operand')
    ctx.equal(Point(1, 2).depth, 0, 'default depth')


def do_azimuth(ctx, la, lo):
    p = Point(lo, la)
    for la2 in range(-85, 86, 17):
        for lo2 in range(-175, 180, 25):
            got = p.azimuth(Point(lo2, la2, 5))
            ctx.transitions += 1
            ctx.traces += 1
            a1, a2, d = math.radians(la), math.radians(la2), math.radians(lo2 - lo)
            y, x = math.sin(d) * math.cos(a2), math.cos(a1) * math.sin(a2) - math.sin(a1) * math.cos(a2) * math.cos(d)
            if math.hypot(x, y) < 1e-6:
                continue
            want = math.degrees(math.atan2(y, x)) % 360
            if not 0 <= got <= 360 or got == 360 and lo == lo2 or abs((got - want + 180) % 360 - 180) > 1e-6:
                raise Violation('azimuth from %r,%r to %r,%r: %r, expected %r' % (la, lo, la2, lo2, got, want))


def do_types(ctx):
    A = Vector(1, 2, 3)
    for bad in (None, 1, 2.5, 'x', (1, 2, 3), [1, 2, 3], np.array([1., 2, 3]), Point(1, 2)):
        for name, f in (('+', lambda: A + bad), ('-', lambda: A - bad), ('cross', lambda: A.cross(bad)), ('dot', lambda: A.dot(bad)), ('distance', lambda: A.distance(bad)), ('==', lambda: A == bad)):
            ctx.op()
            try:
                r = f()
            except TypeError:
                continue
            raise Violation('vector %s %r gave %r instead of a type error' % (name, bad, r))
    for bad in ((1, 2), (1, 2, 3, 4), ()):
        ctx.op()
        try:
            r = Vector.fromTuple(bad)
        except (ValueError, TypeError):
            continue
        raise Violation('vector from %r: %r' % (bad, r))
    for bad in (None, 'x', (1, 2, 3), [1], Vector(1, 1, 1)):
        for name, f in (('*', lambda: A * bad), ('r*', lambda: bad * A)):
            ctx.op()
            try:
                r = f()
            except TypeError:
                continue
            raise Violation('vector %s %r gave %r instead of a type error' % (name, bad, r))
    ctx.equal(A.getTuple(), (1., 2., 3.), 'vector after refused operations')
    ctx.check(copy.deepcopy(A) == A, 'copy')
