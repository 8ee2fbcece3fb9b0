"""R04: histories of queries on ruptures."""
import copy
import itertools
import json
import logging
import os
import numpy as np
from mc.core import Violation
from mc import rupgeo as G
from impactutils.rupture import utils
from impactutils.rupture.distance import get_distance, Distance
from impactutils.rupture.edge_rupture import EdgeRupture
from impactutils.rupture.origin import Origin
from impactutils.rupture.point_rupture import PointRupture
from impactutils.rupture.quad_rupture import QuadRupture
from impactutils.time.ancient_time import HistoricTime
from openquake.hazardlib.geo.mesh import Mesh

logging.disable(logging.CRITICAL)
LEVEL = 'model_checking'
RULE = ('every sequence of 3 queries on a quadrilateral rupture of two groups (thorough 4) and of 2 (thorough 3; point ruptures 2) on the others, queries out of all public ones (21 common, 8 more for quadrilateral ruptures, plus building a twin from the same input, '
        'changing the input document, module functions on handed-out quadrilaterals) on 5 ruptures: each answer is compared with that of a freshly built rupture, then everything handed out is '
        'overwritten by the caller before the next query; arguments and origin are compared with copies after every query.')
ASSUMPTIONS = ['the model is the stateless one: an answer depends on the input of the rupture and the arguments only; model traces are executed step by step on the implementation',
               'the origin object is the one supplied by the caller and is shared with it by design, so the harness does not overwrite it']
BASE = {'id': 'x', 'netid': 'us', 'network': 'n', 'lat': 34.2, 'lon': -118.1, 'depth': 8.0, 'locstring': 'L', 'mag': 6.8, 'time': HistoricTime(2008, 5, 12, 1, 2, 3)}
LON = np.array([[-118.3, -118.2, -117.5], [-118.15, -118.0, -119.5]])
LAT = np.array([[34.1, 34.25, 34.6], [33.2, 34.3, 35.0]])
DEP = np.array([[0.0, 0.0, 1.0], [0.0, 2.0, 0.0]])
LON1, LAT1, DEP1 = np.array([-116.0]), np.array([33.0]), np.array([0.0])
KINDS = ['quad', 'quads', 'edge', 'edges', 'point']


def polys(kind):
    a = G.group(-118.2, 34.1, 40, [14, 9], [12, 0], 60, 15, 1.0)
    b = G.group(-118.05, 34.32, 55, [11], [0], 50, 12, 2.0)
    if kind == 'quad':
        return [G.group(-118.2, 34.1, 40, [20], [0], 60, 15, 1.0)]
    if kind == 'quads':
        return [a, b]
    if kind == 'edge':
        return [G.group(-118.2, 34.1, 40, [14, 9], [12, 0], 60, 15, 1.0, twist=1.0)]
    return [a, G.group(-118.05, 34.32, 55, [11], [0], 50, 12, 2.0, slope=0.5)]


def build(kind):
    o = Origin(dict(BASE))
    if kind == 'point':
        return PointRupture(o, reference='ref'), o, None
    d = G.doc(polys(kind))
    return (QuadRupture(d, o) if kind.startswith('quad') else EdgeRupture(d, o, mesh_dx=5.5)), o, d


def sites():
    return [LON.copy(), LAT.copy(), DEP.copy()]


def _json(r, s):
    p = os.path.join(s['dir'], 'r.json')
    r.writeGeoJson(p)
    with open(p) as f:
        return json.load(f)


def _text(r, s):
    p = os.path.join(s['dir'], 'r.txt')
    r.writeTextFile(p)
    with open(p) as f:
        return f.read()


def _ctx(r, s):
    d = dict(vars(r.getRuptureContext([])))
    return {k: v for k, v in d.items() if not k.startswith('_')}


def _dist(dx):
    def f(r, s):
        lo, la, de = s['args']
        return get_distance(['rjb', 'rrup', 'rx', 'ry', 'ry0', 'U', 'T', 'repi', 'rhypo', 'rvolc'], la, lo, de, r, dx=dx)
    return f


def _context(r, s):
    lo, la, de = s['args']
    D = Distance([], lo, la, de, r)
    c = D.getDistanceContext()
    for v in vars(c).values():
        if isinstance(v, np.ndarray):
            v[...] = -77
    return {k: v for k, v in vars(D.getDistanceContext()).items()}


def _utils(r, s):
    qs = r.getQuadrilaterals()
    if qs is None:
        return None
    out = []
    for q in qs:
        keep = canon(q)
        out.append([utils.get_quad_length(q), utils.get_quad_width(q), utils.get_quad_dip(q), utils.is_quad(q), utils.get_quad_slip(q, 30.0).getArray(), utils.get_quad_normal(q).getArray(),
                    utils.get_quad_strike_vector(q).getArray(), utils.get_quad_down_dip_vector(q).getArray(), utils.get_vertical_vector(q).getArray(), utils.get_quad_mesh(q, 5.0),
                    canon(utils.reverse_quad(q)), getattr(utils, '_quad_distance', lambda *a: None)(q, np.array([[-2e6, -4e6, 3e6]]))])
        if canon(q) != keep:
            raise Violation('a quadrilateral passed to the rupture utilities was altered: %r -> %r' % (keep, canon(q)))
    return out


def _twin(r, s):
    """another rupture from the same input: used and defaced"""
    o, d = s['origin'], s['doc']
    r2 = PointRupture(o, reference='ref') if d is None else type(r)(d, o, mesh_dx=5.5) if isinstance(r, EdgeRupture) else type(r)(d, o)
    for n in ('lats', 'lons', 'quads', 'json', 'gc2') if d is not None else ('lats', 'json'):
        deface(Q[n](r2, dict(s, args=sites())))
    return None


def _doc(r, s):
    """the caller reuses the document for something else"""
    d = s['doc']
    if d is None:
        return None
    d['metadata']['reference'] = 'other'
    d['metadata']['lat'] = 1.0
    deface(d['features'][0]['geometry']['coordinates'])
    s['doc'] = G.doc(polys(s['kind']))
    return None


def meth(n, n_args=3):
    def f(r, s):
        return getattr(r, n)(*s['args'])
    return f


def getter(n):
    return lambda r, s: getattr(r, n)()


def far(n):
    return lambda r, s: getattr(r, n)(LON1.copy(), LAT1.copy(), DEP1.copy())


Q = {'length': getter('getLength'), 'width': getter('getWidth'), 'area': getter('getArea'), 'strike': getter('getStrike'), 'dip': getter('getDip'), 'ztor': getter('getDepthToTop'),
     'quads': getter('getQuadrilaterals'), 'reference': getter('getReference'), 'origin': lambda r, s: dict(vars(r.getOrigin())), 'lats': lambda r, s: r.lats, 'lons': lambda r, s: r.lons,
     'depths': lambda r, s: r.depths, 'context': _ctx, 'json': _json, 'rhyp': meth('computeRhyp'), 'repi': meth('computeRepi'), 'rjb': meth('computeRjb'), 'rrup': meth('computeRrup'),
     'gc2': meth('computeGC2'), 'gc2far': far('computeGC2'), 'dist': _dist(4.0), 'dist2': _dist(8.0), 'distctx': _context, 'utils': _utils, 'twin': _twin, 'doc': _doc}
QQ = {'text': _text, 'depthat': lambda r, s: r.getDepthAtPoint(34.15, -118.1), 'widths': getter('getIndividualWidths'), 'lengths': getter('getIndividualTopLengths'), 'deps': getter('getDeps'),
      'ngroups': getter('getNumGroups'), 'nquads': getter('getNumQuads'), 'arrays': getter('getRuptureAsArrays'), 'mesh': getter('getRuptureAsMesh')}


def table(kind):
    d = dict(Q)
    if kind == 'point':
        for n in ('doc', 'dist2', 'gc2far', 'utils'):
            d.pop(n)
    if kind.startswith('quad'):
        d.update(QQ)
    return d


def canon(x):
    if isinstance(x, np.ndarray):
        return ('array', x.shape, [repr(float(v)) if x.dtype.kind in 'fiu' else repr(v) for v in x.reshape(-1)])
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (float, np.floating, int, np.integer)):
        return repr(float(x))
    if x is None or isinstance(x, str):
        return x
    if all(hasattr(x, k) for k in ('longitude', 'latitude', 'depth')):
        return ('point', repr(float(x.longitude)), repr(float(x.latitude)), repr(float(x.depth)))
    if isinstance(x, Mesh):
        return ('mesh', canon(np.array(x.lons)), canon(np.array(x.lats)), canon(np.array(x.depths)))
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in sorted(x.items(), key=lambda t: str(t[0]))}
    if isinstance(x, HistoricTime):
        return x.strftime('%Y-%m-%dT%H:%M:%S.%f')
    return repr(x)


def deface(x):
    """the caller overwrites everything it was handed"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in 'fiu':
            x[...] = -999
    elif all(hasattr(x, k) for k in ('longitude', 'latitude', 'depth')):
        x.longitude, x.latitude, x.depth = 1.0, 2.0, 3.0
    elif isinstance(x, Mesh):
        for a in (x.lons, x.lats, x.depths):
            deface(a)
    elif isinstance(x, list):
        for v in x:
            deface(v)
        if x and isinstance(x[0], (int, float)):
            x[:] = [5.5] * len(x)
        else:
            del x[:]
    elif isinstance(x, tuple):
        for v in x:
            deface(v)
    elif isinstance(x, dict):
        for v in x.values():
            if not isinstance(v, HistoricTime):
                deface(v)
        x.clear()


FRESH = {}


def fresh(kind, tmp):
    if kind not in FRESH:
        d = {}
        for n, f in table(kind).items():
            r, o, dc = build(kind)
            d[n] = canon(f(r, {'args': sites(), 'origin': o, 'doc': dc, 'kind': kind, 'dir': tmp}))
        FRESH[kind] = d
    return FRESH[kind]


def depth(kind, tier):
    if tier == 'quick':
        return 3 if kind == 'quads' else 2
    return 2 if kind == 'point' else 4 if kind == 'quads' else 3


def cases(tier):
    for kind in KINDS:
        names = sorted(table(kind))
        for first in names:
            if depth(kind, tier) >= 3:
                for second in names:
                    yield [kind, first, second, depth(kind, tier)]
            else:
                yield [kind, first, None, depth(kind, tier)]


def run(case, ctx):
    kind, first, second, dep = case
    tmp = ctx.scratch
    want = fresh(kind, tmp)
    t = table(kind)
    names = sorted(t)
    prefix = [first] + ([second] if second else [])
    arg0 = [canon(a) for a in sites()]
    for rest in itertools.product(names, repeat=dep - len(prefix)):
        seq = prefix + list(rest)
        r, o, d = build(kind)
        ctx.state((kind, tuple(seq[:2])))
        o0 = canon(vars(o))
        s = {'args': None, 'origin': o, 'doc': d, 'kind': kind, 'dir': tmp}
        for i, n in enumerate(seq):
            s['args'] = a = sites()
            d0 = canon(s['doc'])
            try:
                x = t[n](r, s)
            except Violation:
                raise
            except Exception as e:
                raise Violation('%s rupture: %s after %r fails: %r' % (kind, n, seq[:i], e))
            ctx.op()
            got = canon(x)
            if not same(got, want[n]):
                raise Violation('%s rupture: %s after %r is %r, a fresh rupture answers %r' % (kind, n, seq[:i], got, want[n]))
            ctx.check([canon(v) for v in a] == arg0, '%s rupture: %s altered the site arrays' % (kind, n))
            ctx.check(canon(vars(o)) == o0, '%s rupture: %s after %r altered the origin: %r -> %r' % (kind, n, seq[:i], o0, canon(vars(o))))
            if n != 'doc':
                ctx.check(canon(s['doc']) == d0, '%s rupture: %s altered the document the rupture was built from' % (kind, n))
            deface(x)
        ctx.traces += 1
    ctx.outcome((kind, first, str(want[first])[:80]))


def same(a, b):
    if a == b:
        return True
    if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    try:
        x, y = float(a), float(b)
    except (TypeError, ValueError):
        return False
    return abs(x - y) <= 1e-9 * max(1.0, abs(x)) or (x != x and y != y)
