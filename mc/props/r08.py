"""R08: slip vectors, distance to a plane, mechanism of a rake."""
import itertools
import math
import numpy as np
from mc.core import Violation
from mc import rupgeo as G
from impactutils.rupture import utils
from impactutils.vectorutils.vector import Vector
from impactutils.extern.openquake.point import Point

LEVEL = 'exploration'
RULE = ('all strikes 0..360 by 15 x dips 0..90 by 10 x rakes -180..180 by 10 (thorough: 5, 5, 5) for the local slip vector and its two parts; quadrilaterals of 3 places x 8 strikes x 3 dips x all rakes for the slip in space; '
        'all planes through three points of a small lattice x all fourth points. Oracle: unit vectors along strike and up dip built here.')
ASSUMPTIONS = ['the slip of a quadrilateral is judged to one degree (it is taken on a projection)']


def cases(tier):
    st = 15 if tier == 'quick' else 5
    for s in range(0, 361, st):
        yield ['strike', s]
    for s in range(0, 361, st):
        yield ['dip', s]
    for p in range(3):
        for s in range(0, 360, 45 if tier == 'quick' else 15):
            yield ['quadstrike', p, s]
            yield ['quaddip', p, s]
    for k in range(12):
        yield ['plane', k]


def dips(ctx):
    return range(0, 91, 10 if ctx.quick else 5)


def rakes(ctx):
    return range(-180, 181, 10 if ctx.quick else 5)


def parts(s, d, r):
    """(east, north, up): strike part, dip part"""
    s, d, r = [math.radians(x) for x in (s, d, r)]
    along = np.array([math.sin(s), math.cos(s), 0.0])
    updip = np.array([-math.cos(s) * math.cos(d), math.sin(s) * math.cos(d), math.sin(d)])
    return math.cos(r) * along, math.sin(r) * updip


def off(a, b):
    return float(np.linalg.norm(np.asarray(a, dtype=float) - b))


def run(case, ctx):
    globals()['do_' + case[0]](ctx, *case[1:])
    ctx.state(case)


def do_strike(ctx, s):
    """strike slip, and the sum of the parts"""
    for d, r in itertools.product(dips(ctx), rakes(ctx)):
        w = 'strike %r dip %r rake %r' % (s, d, r)
        ss = utils.get_local_unit_slip_vector_SS(s, d, r)
        ds = utils.get_local_unit_slip_vector_DS(s, d, r)
        al = utils.get_local_unit_slip_vector(s, d, r)
        ctx.op(3)
        ctx.traces += 1
        ctx.check(all(isinstance(v, Vector) for v in (ss, ds, al)), w + ': results are not vectors')
        ss, ds, al = ss.getArray(), ds.getArray(), al.getArray()
        S, D = parts(s, d, r)
        ctx.check(off(ss, S) < 1e-12, '%s: strike-slip part %r, expected %r' % (w, ss, S))
        ctx.check(off(al, ss + ds) < 1e-12, '%s: slip %r is not the sum of its parts %r and %r' % (w, al, ss, ds))
        ctx.check(abs(np.linalg.norm(ds) - abs(math.sin(math.radians(r)))) < 1e-12, '%s: dip-slip part %r has the wrong length' % (w, ds))
        ctx.check(abs(ds[2] - D[2]) < 1e-12 and abs(ds[1] - D[1]) < 1e-12, '%s: dip-slip part %r, expected %r' % (w, ds, D))
        ctx.outcome(tuple(np.round(ss, 3)))


def do_dip(ctx, s):
    """the dip-slip part points up the dip"""
    known = None
    for d, r in itertools.product(dips(ctx), rakes(ctx)):
        w = 'strike %r dip %r rake %r' % (s, d, r)
        ctx.op(2)
        ctx.traces += 1
        S, D = parts(s, d, r)
        M = D * [-1, 1, 1]
        for nm, got, want, wrong in (('dip-slip part', utils.get_local_unit_slip_vector_DS(s, d, r).getArray(), D, M), ('slip', utils.get_local_unit_slip_vector(s, d, r).getArray(), S + D, S + M)):
            if off(got, want) < 1e-9:
                continue
            msg = '%s: %s %r, expected %r' % (w, nm, got, want)
            if off(got, wrong) > 1e-9:
                raise Violation(msg)
            known = known or msg
    if known:
        raise Violation(known, key='dip-slip-east-mirrored')


PLACE = [(-118.0, 34.0), (30.0, -45.0), (179.5, 1.0)]


def quads(p, s):
    lon, lat = PLACE[p]
    for dip in (30, 60, 85):
        a = math.radians(s)
        k = 111.19

        def at(along, down):
            h = down * math.cos(math.radians(dip))
            e = along * math.sin(a) + h * math.cos(a)
            n = along * math.cos(a) - h * math.sin(a)
            la = lat + n / k
            lo = lon + e / k / math.cos(math.radians(lat))
            return Point((lo + 180) % 360 - 180, la, 5 + down * math.sin(math.radians(dip)))
        yield dip, [at(0, 0), at(20, 0), at(20, 10), at(0, 10)]


def space(q, enu):
    lo, la = math.radians(q[0].longitude), math.radians(q[0].latitude)
    e = np.array([-math.sin(lo), math.cos(lo), 0])
    n = np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)])
    u = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    v = enu[0] * e + enu[1] * n + enu[2] * u
    return v / np.linalg.norm(v)


def do_quadstrike(ctx, p, s):
    for dip, q in quads(p, s):
        for r in (-180, 0, 180):
            got = utils.get_quad_slip(q, r).getArray()
            ctx.op()
            S, D = parts(s, dip, r)
            ctx.check(abs(np.linalg.norm(got) - 1) < 1e-9, 'slip of a quadrilateral is not a unit vector: %r' % (got,))
            ctx.check(off(got, space(q, S + D)) < 0.02, 'strike %r dip %r rake %r at %r: slip %r, expected %r' % (s, dip, r, PLACE[p], got, space(q, S + D)))


def do_quaddip(ctx, p, s):
    known = None
    for dip, q in quads(p, s):
        for r in rakes(ctx):
            got = utils.get_quad_slip(q, r).getArray()
            ctx.op()
            S, D = parts(s, dip, r)
            ctx.check(abs(np.linalg.norm(got) - 1) < 1e-9, 'slip of a quadrilateral is not a unit vector: %r' % (got,))
            if off(got, space(q, S + D)) < 0.02:
                continue
            msg = 'quadrilateral of strike %r dip %r at %r, rake %r: slip %r, expected %r' % (s, dip, PLACE[p], r, got, space(q, S + D))
            if off(got, space(q, S + D * [-1, 1, -1])) > 0.02:
                raise Violation(msg)
            known = known or msg
    if known:
        raise Violation(known, key='quad-dip-slip-mirrored')


PTS = [(0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, 3), (1, 1, 1), (-2, 1, 0.5), (1e5, -3e5, 2e5), (100.0, 200.0, -50.0), (2, 0, 0), (-1, 0, 0), (0.1, 0.2, 0.3), (5, 5, 5)]


def do_plane(ctx, k):
    for j, i in itertools.product(range(len(PTS)), repeat=2):
        a, b, c = [np.array(PTS[x], dtype=float) for x in (k, j, i)]
        n = np.cross(b - a, c - a)
        m = np.linalg.norm(n)
        for o in PTS:
            got = utils.get_distance_to_plane([Vector(*a), Vector(*b), Vector(*c)], Vector(*o))
            ctx.op()
            ctx.traces += 1
            if m == 0:
                ctx.equal(float(got), 0.0, 'distance to three points on a line')
                continue
            if m < 1e-6 * max(1, np.linalg.norm(b - a) * np.linalg.norm(c - a)):
                continue
            want = abs(np.dot(n / m, np.array(o) - a))
            if not abs(float(got) - want) < 1e-9 * max(1.0, np.abs(PTS[6]).max() if 6 in (k, j, i) or o is PTS[6] else 1.0):
                raise Violation('distance of %r from the plane %r: %r, expected %r' % (o, (a, b, c), got, want))
    ctx.outcome(k)
