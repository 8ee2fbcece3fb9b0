"""R02: JSON and text forms of ruptures."""
import copy
import io
import itertools
import json
import logging
import os
import numpy as np
from mc.core import Violation
from mc import rupgeo as G
from impactutils.rupture.origin import Origin
from impactutils.rupture.factory import get_rupture, rupture_from_dict, rupture_from_dict_and_origin, text_to_json
from impactutils.rupture.point_rupture import PointRupture
from impactutils.rupture.quad_rupture import QuadRupture
from impactutils.rupture.edge_rupture import EdgeRupture
from impactutils.time.ancient_time import HistoricTime

logging.disable(logging.CRITICAL)
LEVEL = 'exploration'
RULE = ('all ruptures of 1..2 (thorough 1..3) groups of 1..3 segments (and 15 groups of 1, 5 groups of 3, one of 9) over 4 places x 4 strikes x 5 shapes (planar dip 30 / 60 / 90, sloping edges, twisted surface): write - read - write chains through '
        'JSON (file, dictionary, with and without origin) and through the text file (path and stream); text files in both column orders x 5 separators x 6 layouts; all rotations of every polygon and '
        'all reversals; 8 origins x 8 references; every single malformation of a catalogue of 40 applied to JSON and text. Oracle: the vertex lists the harness generated.')
ASSUMPTIONS = ['a polygon whose vertices admit more than one top-first reading is not rotated', 'the text file keeps four decimals and one polygon per quadrilateral, as documented',
               'the planarity class of a quadrilateral within a factor two of the tolerance is not judged']
T0 = HistoricTime(2008, 5, 12, 6, 28, 1)
BASE = {'id': 'us2008abcd', 'netid': 'us', 'network': 'USGS', 'lat': 30.9858, 'lon': 103.3639, 'depth': 19.0, 'locstring': 'X', 'mag': 7.9, 'time': T0}
ORIGINS = [{}, {'time': HistoricTime(1700, 2, 28, 23, 59, 59, 5)}, {'time': HistoricTime(2024, 2, 29, 0, 0, 0, 999999)}, {'mech': 'RS'}, {'mech': 'NM', 'rake': -75.5},
           {'reference': 'origin ref'}, {'locstring': 'é "q" <&>', 'productcode': 'p', 'extra': [1, 2]}, {'lat': -0.0, 'lon': 180, 'depth': 0}]
REFS = ['Smith (2016)', '', 'Müller, J.', 'Report #5', ' a  b ', '"q" <x> & y', "it's", 'x > y']
SHAPES = ['d30', 'd60', 'd90', 'slope', 'twist']
PLACES = [(0.0, 0.0), (-118.2, 34.1), (179.9, -45.3), (10.0, 75.0)]
STRIKES = [0, 40, 130, 250]
SEPS = [' ', '\t', ',', ', ', '   ']


def poly(shape, place, strike, nseg, gi):
    lon, lat = PLACES[place]
    lon, lat = G.step(lon, lat, strike, 40 * gi)
    kw = {'dip': 60}
    if shape[0] == 'd':
        kw['dip'] = int(shape[1:])
    elif shape == 'slope':
        kw['slope'] = 0.4
    elif shape == 'twist':
        kw['twist'] = 4.0
    return G.group(lon, lat, strike + 10 * gi, ([8, 6, 9] * 3)[:nseg], ([10, -15, 0] * 3)[:nseg], width=12, top=1 + gi, **kw)


def geoms(tier):
    segs = [1, 2, 3]
    combos = [(a,) for a in segs] + [(a, b) for a in segs for b in segs]
    if tier == 'thorough':
        combos += list(itertools.product(segs, repeat=3))
    for i, shape in enumerate(SHAPES):
        for c in ((1,) * 15, (3,) * 5, (9,)):
            yield (shape, c, i % 4, STRIKES[i % 3])
    for shape in SHAPES:
        for c in combos:
            for pl in range(len(PLACES)):
                for st in STRIKES:
                    yield (shape, c, pl, st)


def build(g):
    shape, c, pl, st = g
    return [poly(shape, pl, st, n, i) for i, n in enumerate(c)]


def kind(polys):
    """expected class, None when too close to call"""
    edge = False
    for p in polys:
        for q in G.quads_of(p):
            for a, b in ((0, 1), (2, 3)):
                d = abs(q[a][2] - q[b][2])
                if 0.04 < d < 0.06:
                    return None
                edge |= d > 0.05
            o = G.off_plane(q)
            if 0.025 < o < 0.1:
                return None
            edge |= o > 0.05
    return EdgeRupture if edge else QuadRupture


def cases(tier):
    for g in geoms(tier):
        yield ['geo'] + list(g)
    for o in range(len(ORIGINS)):
        for r in range(len(REFS)):
            yield ['info', o, r]
    yield ['point']
    yield ['mixed']
    for n in range(1, 7):
        yield ['where', n]
    for i in range(len(TEXTBAD)):
        yield ['tbad', i]
    for i in range(len(JSONBAD)):
        yield ['jbad', i]
    yield ['args']


def feats(r):
    """everything geometric a user sees, as comparable values"""
    f = {'class': type(r).__name__}
    for k in ('lons', 'lats', 'depths'):
        f[k] = np.array(getattr(r, k), dtype=float)
    if not isinstance(r, PointRupture):
        f['quads'] = np.array([[(p.longitude, p.latitude, p.depth) for p in q] for q in r.getQuadrilaterals()])
        if hasattr(r, '_getGroupIndex'):
            f['groups'] = np.array(r._getGroupIndex(), dtype=float)
    for k in ('getLength', 'getWidth', 'getArea', 'getStrike', 'getDip', 'getDepthToTop'):
        f[k] = getattr(r, k)()
    if isinstance(r, QuadRupture):
        f['arrays'] = np.array(r.getRuptureAsArrays())
        f['n'] = (r.getNumQuads(), r.getNumGroups())
    if isinstance(r, EdgeRupture):
        lo, la = np.array([np.nanmean(np.array(r.lons))]), np.array([np.nanmean(np.array(r.lats))])
        f['rrup'] = np.array(r.computeRrup(lo, la, np.zeros(1))[0])
    return f


def same_feats(a, b, what, tol=0.0):
    for k in a:
        x, y = a[k], b.get(k)
        if isinstance(x, np.ndarray):
            ok = isinstance(y, np.ndarray) and x.shape == y.shape and (np.array_equal(x, y, equal_nan=True) if not tol else np.allclose(x, y, atol=tol, rtol=0, equal_nan=True))
        elif isinstance(x, float):
            ok = isinstance(y, float) and (abs(x - y) <= (tol or 0) or x != x and y != y)
        else:
            ok = x == y
        if not ok:
            raise Violation('%s: %s is %r, expected %r' % (what, k, y, x))


def outline(polys):
    """closed outline as the harness generated it (only where no vertex is moved): groups separated by nan"""
    lo = []
    for p in polys:
        lo += list(p) + [[np.nan] * 3]
    return np.array(lo, dtype=float)


def same_origin(o, ev, what, skip=()):
    for k, v in ev.items():
        if k in skip:
            continue
        if getattr(o, k, '<absent>') != v:
            raise Violation('%s: event %s is %r, expected %r' % (what, k, getattr(o, k, '<absent>'), v))


def refused(fn, what):
    try:
        r = fn()
    except Exception as e:
        return e
    raise Violation('%s was accepted: %s' % (what, type(r).__name__))


def layout(polys, sep, old, lay, ref):
    """text file; lay: 0 separators between, 1 leading '>', 2 trailing '>', 3 blank lines, 4 indentation and CRLF, 5 '>' with text, doubled, comments inside"""
    out = ['#' + ref]
    for i, p in enumerate(polys):
        if lay == 1 or (i and lay != 5) or lay == 2 and i:
            out.append('>')
        if lay == 5:
            out += ['> segment %d' % i, '>']
        for k, v in enumerate(p):
            a, b = (v[1], v[0]) if old else (v[0], v[1])
            out.append(('    ' if lay == 4 else '') + sep.join(repr(x) for x in (a, b, v[2])))
            if lay == 3:
                out.append('' if k % 2 else '   ')
    if lay == 2:
        out.append('>')
    nl = '\r\n' if lay == 4 else '\n'
    return nl.join(out) + ('' if lay == 3 else nl)


def readings(p):
    """all rotations of the vertex cycle (in this direction) that are top-first"""
    v = p[:-1]
    res = []
    n = len(v)
    for k in range(n):
        w = v[k:] + v[:k]
        if all(w[j][2] < w[n - 1 - j][2] for j in range(n // 2)):
            res.append(w + [w[0]])
    return res


def surface(r):
    """order-free description of the quadrilaterals of a rupture"""
    return [[G.ecef(p.longitude, p.latitude, p.depth) for p in q] for q in r.getQuadrilaterals()]


def text_of(ctx, txt, quads, what):
    """the text file lists the vertices of every quadrilateral, closed, to four decimals"""
    rows = [[float(x) for x in ln.replace(',', ' ').split()] for ln in txt.splitlines() if ln.strip() and ln.strip()[0] not in '#>']
    want = [[v[1], v[0], v[2]] for q in quads for v in list(q) + [q[0]]]
    if len(rows) != len(want) or any(abs(a - b) > 5.001e-5 for x, y in zip(rows, want) for a, b in zip(x, y)):
        raise Violation('%s: text file has the vertices %r, expected %r' % (what, rows, want))
    ctx.op()


def again(d, tmp):
    p = os.path.join(tmp, 'again.json')
    rupture_from_dict(d).writeGeoJson(p)
    return rupture_from_dict(json.load(open(p)))


def run(case, ctx):
    ctx.state(case)
    tmp = ctx.scratch
    if case[0] == 'geo':
        g = (case[1], tuple(case[2]), case[3], case[4])
        polys = build(g)
        want = kind(polys)
        origin = Origin(dict(BASE))
        d = G.doc(polys, 'Smith')
        keep = copy.deepcopy(d)
        r = rupture_from_dict_and_origin(d, origin, mesh_dx=1.5)
        ctx.equal(d, keep, 'dictionary given to rupture_from_dict_and_origin')
        what = '%r' % (g,)
        if want is not None:
            ctx.check(type(r) is want, '%s: read as %s, expected %s' % (what, type(r).__name__, want.__name__))
        f = feats(r)
        # the vertices are those given (a planar quadrilateral may have its fourth vertex moved into the plane by a little)
        ol = outline(polys)
        got = np.array([f['lons'], f['lats'], f['depths']]).T
        if isinstance(r, EdgeRupture):
            ctx.check(got.shape == ol.shape and np.array_equal(got, ol, equal_nan=True), '%s: outline %r, expected %r' % (what, got, ol))
        else:
            arr = f['arrays'].T
            exp = np.array([v for p in polys for v in p[:-1] + [[np.nan] * 3]], dtype=float)
            ctx.check(np.array_equal(arr, exp, equal_nan=True), '%s: vertex arrays %r, expected %r' % (what, arr, exp))
            k = 0
            for p in polys:
                for q in G.quads_of(p):
                    gq = [G.ecef(*v) for v in f['quads'][k]]
                    wq = [G.ecef(*v) for v in q]
                    alt = [wq[1], wq[0], wq[3], wq[2]]
                    dev = min(max(float(np.linalg.norm(a - b)) for a, b in zip(gq, w)) for w in (wq, alt))
                    ctx.check(dev < 0.6, '%s: quadrilateral %d moved by %.3f km' % (what, k, dev))
                    k += 1
            ctx.equal(k, len(f['quads']), what + ': number of quadrilaterals')
            ctx.equal(f['n'], (sum(case[2]), len(case[2])), what + ': number of quadrilaterals and groups')
        ctx.equal(r.getReference(), 'Smith', what + ': reference')
        # JSON chain
        p1, p2 = os.path.join(tmp, 'a.json'), os.path.join(tmp, 'b.json')
        r.writeGeoJson(p1)
        with open(p1) as fh:
            jd = json.load(fh)
        ctx.equal(jd['features'][0]['geometry']['coordinates'][0], polys, what + ': coordinates in the JSON file')
        keep = copy.deepcopy(jd)
        r2 = rupture_from_dict(jd)
        ctx.equal(jd, keep, 'dictionary given to rupture_from_dict')
        r3 = get_rupture(origin, p1, mesh_dx=1.5)
        r2.writeGeoJson(p2)
        r4 = rupture_from_dict(json.load(open(p2)))
        for nm, x in (('from its dictionary', r2), ('from its file', r3), ('after two round trips', r4)):
            same_feats(f, feats(x), '%s %s' % (what, nm))
            ctx.equal(x.getReference(), 'Smith', '%s %s: reference' % (what, nm))
            same_origin(x.getOrigin(), BASE, '%s %s' % (what, nm))
            ctx.op()
        ctx.equal(json.load(open(p2)), jd, what + ': JSON file after two round trips')
        # the file of an edge rupture read as a planar one and vice versa
        if type(r) is QuadRupture:
            e = EdgeRupture(G.doc(polys, 'Smith'), origin, mesh_dx=1.5)
            fe = feats(e)
            e.writeGeoJson(p2)
            same_feats(fe, feats(rupture_from_dict(json.load(open(p2)))), what + ' as EdgeRupture')
            q = get_rupture(origin, p2)
            same_feats(f, feats(q), what + ' from the file of the EdgeRupture')
            q.writeGeoJson(p2)
            same_feats(f, feats(rupture_from_dict(json.load(open(p2)))), what + ' from the file of the EdgeRupture, written again')
            # text file of the library
            s = io.StringIO()
            r.writeTextFile(s)
            pt = os.path.join(tmp, 'a.txt')
            r.writeTextFile(pt)
            ctx.equal(open(pt).read(), s.getvalue(), what + ': text file and stream')
            text_of(ctx, s.getvalue(), f['quads'], what)
            for src in (pt, io.StringIO(s.getvalue())):
                t = get_rupture(origin, src, new_format=False)
                ctx.check(isinstance(t, QuadRupture), what + ' from its text file: %s' % type(t).__name__)
                ctx.equal(t.getReference(), 'Smith', what + ' from its text file: reference')
                ctx.equal((t.getNumQuads(), t.getNumGroups()), (len(f['quads']),) * 2, what + ' from its text file: quadrilaterals and groups')
                tq = np.array([[(p.longitude, p.latitude, p.depth) for p in q] for q in t.getQuadrilaterals()])
                df = np.abs(tq - f['quads'])
                df[..., 0] = np.minimum(df[..., 0], 360 - df[..., 0])
                # four decimals of a degree are 11 m; the fourth vertex follows the direction of the top edge (rounded, too)
                sc = np.array([1.0 / np.cos(np.radians(PLACES[case[3]][1])), 1, 1])
                if case[1] != 'd90':
                    ctx.check((df <= np.array([5e-4, 5e-4, 0.06]) * sc).all(), '%s from its text file: quadrilaterals\n%r\nexpected\n%r' % (what, tq, f['quads']))
                else:
                    a = sorted(map(tuple, np.round(tq[:, :2].reshape(-1, 3), 2)))
                    b = sorted(map(tuple, np.round(f['quads'][:, :2].reshape(-1, 3), 2)))
                    ctx.check(np.allclose(a, b, atol=0.011), '%s from its text file: top vertices %r, expected %r' % (what, a, b))
                ctx.op()
        # text in all notations
        i = 0
        for old in (False, True):
            for sep in SEPS:
                for lay in range(6):
                    txt = layout(polys, sep, old, lay, 'Smith')
                    j = text_to_json(io.StringIO(txt), new_format=not old)
                    ctx.op()
                    if j['features'][0]['geometry']['coordinates'] != [polys] or j['metadata']['reference'] != 'Smith' or j['features'][0]['geometry']['type'] != 'MultiPolygon':
                        raise Violation('%s: text %r read as %r' % (what, txt, j))
                    if i % 7 == 0:
                        if i % 2:
                            src = os.path.join(tmp, 'n.txt')
                            with open(src, 'w', newline='') as fh:
                                fh.write(txt)
                        else:
                            src = io.StringIO(txt)
                        same_feats(f, feats(get_rupture(origin, src, mesh_dx=1.5, new_format=not old)), '%s from text (%r)' % (what, txt))
                    i += 1
        # rotations / reversals
        rots = []
        for p in polys:
            v = p[:-1]
            opts = [v[k:] + v[:k] for k in range(len(v))] if len(readings(p)) == 1 else [v]
            rots.append([w + [w[0]] for w in opts])
        allrot = list(itertools.product(*rots)) if len(polys) < 3 else [tuple(x) for x in zip(*[(q * 6)[:6] for q in rots])]
        for combo in allrot:
            j = text_to_json(io.StringIO(layout(combo, ' ', False, 0, 'S')))
            ctx.op()
            if j['features'][0]['geometry']['coordinates'] != [polys]:
                raise Violation('%s: polygons starting elsewhere %r read as %r' % (what, combo, j['features'][0]['geometry']['coordinates']))
        rev = [[list(x) for x in p[::-1]] for p in polys]
        if all(len(readings(p)) == 1 for p in rev) and isinstance(r, QuadRupture):
            base = surface(r)
            for k in range(len(rev[0]) - 1):
                combo = [(p[:-1][k % (len(p) - 1):] + p[:-1][:k % (len(p) - 1)]) for p in rev]
                combo = [p + [p[0]] for p in combo]
                t = get_rupture(origin, io.StringIO(layout(combo, ' ', False, 0, 'S')))
                ctx.op()
                ctx.check(isinstance(t, QuadRupture) and abs(t.getArea() - f['getArea']) < 0.02 * f['getArea'], '%s reversed: %s with area %r, expected %r' % (what, type(t).__name__, t.getArea(), f['getArea']))
                new = surface(t)
                for b in base:
                    dev = min(max(min(np.linalg.norm(x - y) for x in a) for y in b) for a in new)
                    ctx.check(dev < 0.6, '%s reversed: no quadrilateral like %r' % (what, b))
        ctx.traces += 1
        ctx.outcome((type(r).__name__, len(f['quads'])))
    elif case[0] == 'info':
        ev = dict(BASE, **ORIGINS[case[1]])
        ref = REFS[case[2]]
        o = Origin(copy.deepcopy(ev))
        before = copy.deepcopy(o.__dict__)
        polys = build(('d60', (2, 1), 1, 40))
        for cls in (QuadRupture, EdgeRupture):
            r = cls(G.doc(polys, ref), o)
            what = '%s, origin %r, reference %r' % (cls.__name__, ORIGINS[case[1]], ref)
            p1 = os.path.join(tmp, 'i.json')
            r.writeGeoJson(p1)
            for x in (r, rupture_from_dict(json.load(open(p1))), again(json.load(open(p1)), tmp), cls(json.load(open(p1)), o)):
                ctx.equal(x.getReference(), ref, what + ': reference')
                same_origin(x.getOrigin(), ev, what, skip=() if x is r else ('reference',))
                ctx.equal(x.getOrigin().mech, ev.get('mech', 'ALL'), what + ': mechanism')
                ctx.op()
            # both notations of the time
            d = json.load(open(p1))
            for txt, want in ((ev['time'].strftime('%Y-%m-%dT%H:%M:%SZ'), ev['time'].replace(microsecond=0)), (ev['time'].strftime('%Y-%m-%dT%H:%M:%S.%fZ'), ev['time'])):
                d['metadata']['time'] = txt
                keep = copy.deepcopy(d)
                for src in (d, p1):
                    if src is p1:
                        with open(p1, 'w') as f:
                            json.dump(d, f)
                    x = rupture_from_dict(d) if src is d else rupture_from_dict(json.load(open(p1)))
                    same_origin(x.getOrigin(), dict(ev, time=want), what + ' with time ' + txt, skip=('reference',))
                    ctx.op()
                ctx.equal(d, keep, what + ': the dictionary given')
            ctx.equal(o.__dict__, before, what + ': the origin')
        q = QuadRupture.fromTrace([0], [0], [0.1], [0.1], [1], [10], [45], o, reference=ref)
        v = [[p.longitude, p.latitude, p.depth] for p in q.getQuadrilaterals()[0]]
        qv = QuadRupture.fromVertices(*[[c] for p in v for c in p], o, reference=ref)
        ea = EdgeRupture.fromArrays([0, 1], [0, 1], [0, 1], [0, 1], [0, 1], [10, 12], o, reference=ref)
        pr = PointRupture(o, reference=ref)
        for x in (q, qv, ea, pr):
            what = '%s built directly, origin %r' % (type(x).__name__, ORIGINS[case[1]])
            ctx.equal(x.getReference(), ref, what + ': reference')
            p1 = os.path.join(tmp, 'k.json')
            x.writeGeoJson(p1)
            y = rupture_from_dict(json.load(open(p1)))
            ctx.equal(y.getReference(), ref, what + ' read back: reference')
            same_origin(y.getOrigin(), ev, what + ' read back', skip=('reference',))
            same_feats(feats(x), feats(y), what + ' read back')
            ctx.op()
        ctx.equal(o.__dict__, before, 'the origin')
        # text file keeps the reference
        pt = os.path.join(tmp, 'r.txt')
        q.writeTextFile(pt)
        t = get_rupture(o, pt, new_format=False)
        ctx.equal(t.getReference(), ref.rstrip() if ref.strip() else '', 'reference %r from the text file' % ref)
        # a reference over several comment lines: none is lost, the order is kept
        body = open(pt, encoding='latin-1').read().split('\n', 1)[1]
        for lines in itertools.permutations(['Smith', 'Jones (2001)', 'fig. 3']):
            for n in (1, 2, 3):
                with open(pt, 'w') as f:
                    f.write(''.join('#%s\n' % x for x in lines[:n]) + body)
                got, at = get_rupture(o, pt, new_format=False).getReference(), 0
                for x in lines[:n]:
                    at = got.find(x, at)
                    ctx.check(at >= 0, 'reference lines %r read as %r' % (lines[:n], got))
                    at += len(x)
                ctx.op()
        # independence of ruptures built from one dictionary
        d = G.doc(polys, ref)
        o2 = Origin(dict(BASE, id='other', mag=5.0))
        a = rupture_from_dict_and_origin(d, o)
        b = rupture_from_dict_and_origin(d, o2)
        d['features'][0]['geometry']['coordinates'][0][0][0][0] = 77.0
        d['metadata']['reference'] = 'changed'
        for x, e in ((a, ev), (b, dict(BASE, id='other', mag=5.0))):
            x.writeGeoJson(p1)
            y = rupture_from_dict(json.load(open(p1)))
            same_origin(y.getOrigin(), e, 'rupture sharing its dictionary', skip=('reference',))
            ctx.equal(y.getReference(), ref, 'rupture sharing its dictionary: reference')
            same_feats(feats(x), feats(y), 'rupture sharing its dictionary')
        ctx.traces += 1
    elif case[0] == 'point':
        for ex in ORIGINS:
            ev = dict(BASE, **ex)
            o = Origin(copy.deepcopy(ev))
            r = get_rupture(o)
            ctx.check(type(r) is PointRupture, 'no file: %s' % type(r).__name__)
            p1 = os.path.join(tmp, 'p.json')
            r.writeGeoJson(p1)
            for x in (r, rupture_from_dict(json.load(open(p1))), get_rupture(o, p1), again(json.load(open(p1)), tmp)):
                ctx.check(type(x) is PointRupture, 'point rupture read back as %s' % type(x).__name__)
                ctx.equal((x.lons, x.lats, x.depths), (ev['lon'], ev['lat'], ev['depth']), 'point rupture: place')
                same_origin(x.getOrigin(), ev, 'point rupture', skip=('reference',))
                ctx.equal(x.getReference(), r.getReference(), 'point rupture: reference')
                ctx.op()
        ctx.traces += 1
    elif case[0] == 'mixed':
        # one polygon that is not planar makes the whole rupture an edge rupture
        o = Origin(dict(BASE))
        for ks in itertools.product(SHAPES, repeat=3):
            polys = [poly(s, 1, 40, 1 + i % 2, i) for i, s in enumerate(ks)]
            w = kind(polys)
            r = rupture_from_dict_and_origin(G.doc(polys), o)
            ctx.op()
            if w is not None:
                ctx.check(type(r) is w, 'shapes %r read as %s, expected %s' % (ks, type(r).__name__, w.__name__))
        # limits of the horizontality tolerance, each of the four vertices
        for i, top in itertools.product(range(4), (1, 15, 60)):
            for dz, w in ((0.0, QuadRupture), (0.03, QuadRupture), (-0.03, QuadRupture), (0.08, EdgeRupture), (-0.08, EdgeRupture), (1.0, EdgeRupture)):
                p = G.group(-118.2, 34.1, 40, [8], [10], 60, 12, top)
                p[i] = [p[i][0], p[i][1], p[i][2] + dz]
                p[-1] = list(p[0])
                r = rupture_from_dict_and_origin(G.doc([p]), o)
                if w is QuadRupture:
                    s = io.StringIO()
                    r.writeTextFile(s)
                    text_of(ctx, s.getvalue(), feats(r)['quads'], 'top %r, vertex %d moved %r km' % (top, i, dz))
                ctx.check(type(r) is w, 'top %r, vertex %d moved %r km: %s, expected %s' % (top, i, dz, type(r).__name__, w.__name__))
        # planarity, also on the prime meridian / equator where the plane goes through the centre
        for lon, lat, st in ((0.0, 0.0, 0), (0.0, 10.0, 0), (0.0, 0.0, 90), (-118.2, 34.1, 40), (90.0, 0.0, 0), (20.0, 60.0, 130)):
            for dip in (30, 60, 90):
                for off, w in ((0.0, QuadRupture), (5.0, EdgeRupture), (-5.0, EdgeRupture)):
                    p = G.group(lon, lat, st, [12], [0], dip, 12, 1)
                    lo, la = G.step(p[2][0], p[2][1], st + 90, off)
                    p[2] = [lo, la, p[2][2]]
                    k = kind([p])
                    r = rupture_from_dict_and_origin(G.doc([p]), o)
                    ctx.op()
                    if k is not None:
                        ctx.check(type(r) is k, 'at %r strike %r dip %r, third vertex moved %r km: %s, expected %s' % ((lon, lat), st, dip, off, type(r).__name__, k.__name__))
                        ctx.outcome(k.__name__)
        ctx.traces += 1
    elif case[0] == 'where':
        # one polygon (or two) of n quadrilaterals: what matters is found wherever it is
        n = case[1]
        o = Origin(dict(BASE))

        def fresh(i=0, m=n):
            lo, la = G.step(-118.2, 34.1, 40, 80 * i)
            return G.group(lo, la, 40, [8] * m, [10, -15, 5, 0, -5, 5][:m], 60, 12, 2)

        for first in (0, 1):
            def polys(p):
                return ([fresh(0, 1)] if first else []) + [p]
            good = rupture_from_dict_and_origin(G.doc(polys(fresh(first))), o)
            ctx.check(type(good) is QuadRupture and good.getNumQuads() == n + first, 'planar rupture of %d quadrilaterals: %s of %r' % (n + first, type(good).__name__, good.getNumQuads()))
            for k in range(n + 1):
                for dz, low in itertools.product((0.3, -0.3), (False, True)):
                    # the edge is not horizontal at vertex k
                    p = fresh(first)
                    i = len(p) - 2 - k if low else k
                    p[i] = [p[i][0], p[i][1], p[i][2] + dz]
                    p[-1] = list(p[0])
                    r = rupture_from_dict_and_origin(G.doc(polys(p)), o)
                    ctx.check(type(r) is EdgeRupture, '%d quadrilaterals, pair %d, %s vertex moved %r km vertically: %s' % (n, k, 'bottom' if low else 'top', dz, type(r).__name__))
                    ctx.op()
                p = fresh(first)
                i = len(p) - 2 - k
                lo, la = G.step(p[i][0], p[i][1], 130, 5)
                p[i] = [lo, la, p[i][2]]
                r = rupture_from_dict_and_origin(G.doc(polys(p)), o)
                w = kind(polys(p))
                if w is not None:
                    ctx.check(type(r) is w, '%d quadrilaterals, bottom vertex %d moved 5 km sideways: %s, expected %s' % (n, k, type(r).__name__, w.__name__))
                    ctx.outcome(w.__name__)
                # pair k upside down or of equal depth
                for equal in (False, True):
                    p = fresh(first)
                    i = len(p) - 2 - k
                    if equal:
                        p[i] = [p[i][0], p[i][1], p[k][2]]
                    else:
                        p[i], p[k] = [p[i][0], p[i][1], p[k][2]], [p[k][0], p[k][1], p[i][2]]
                    p[-1] = list(p[0])
                    what = '%d quadrilaterals, pair %d %s' % (n, k, 'of equal depth' if equal else 'upside down')
                    refused(lambda: rupture_from_dict_and_origin(G.doc(polys(p)), o), what)
                    if not readings(p):
                        refused(lambda: get_rupture(o, io.StringIO(layout(polys(p), ' ', False, 0, 'S'))), what + ' (text)')
                    ctx.op(2)
        ctx.traces += 1
    elif case[0] == 'tbad':
        o = Origin(dict(BASE))
        name, fn = TEXTBAD[case[1]]
        for g in (('d60', (1,), 1, 40), ('d60', (2, 1), 1, 40), ('slope', (1, 2), 0, 0)):
            polys = build(g)
            txt = fn(layout(polys, ' ', False, 0, 'S'), polys)
            pt = os.path.join(tmp, 'bad.txt')
            with open(pt, 'w') as fh:
                fh.write(txt)
            for nm, src in (('file', pt), ('stream', io.StringIO(txt))):
                e = refused(lambda: get_rupture(o, src), 'text %s with %s (%r)' % (nm, name, txt))
                ctx.check(isinstance(e, (ValueError, OSError)), 'text %s with %s: %r, expected a ValueError or IOError' % (nm, name, e))
            ctx.op(2)
        ctx.traces += 1
    elif case[0] == 'jbad':
        o = Origin(dict(BASE))
        name, fn = JSONBAD[case[1]]
        for g in (('d60', (1,), 1, 40), ('d60', (2, 1), 1, 40), ('slope', (1, 2), 0, 0)):
            good = rupture_from_dict_and_origin(G.doc(build(g), 'S'), o)
            good.writeGeoJson(os.path.join(tmp, 'good.json'))
            d = json.load(open(os.path.join(tmp, 'good.json')))
            rupture_from_dict(d)
            fn(d)
            pj = os.path.join(tmp, 'bad.json')
            with open(pj, 'w') as fh:
                json.dump(d, fh)
            refused(lambda: rupture_from_dict_and_origin(copy.deepcopy(d), o), 'dictionary with %s' % name)
            e = refused(lambda: get_rupture(o, pj), 'JSON file with %s' % name)
            ctx.check(isinstance(e, (ValueError, OSError)), 'JSON file with %s: %r, expected a ValueError or IOError' % (name, e))
            refused(lambda: rupture_from_dict(copy.deepcopy(d)), 'dictionary with event and %s' % name)
            ctx.op(3)
        ctx.traces += 1
    elif case[0] == 'args':
        pj = os.path.join(tmp, 'x.json')
        with open(pj, 'w') as fh:
            json.dump(G.doc(build(('d60', (1,), 1, 40))), fh)
        for bad in (None, {}, dict(BASE), 7.3, 'x'):
            for f in (None, pj):
                e = refused(lambda: get_rupture(bad, f), 'origin %r' % (bad,))
                ctx.check(isinstance(e, TypeError), 'origin %r: %r' % (bad, e))
        refused(lambda: get_rupture(Origin(dict(BASE)), os.path.join(tmp, 'nosuch.json')), 'a missing file')
        # events missing from the dictionary
        d = G.doc(build(('d60', (1,), 1, 40)))
        refused(lambda: rupture_from_dict(copy.deepcopy(d)), 'a dictionary without event information')
        # mesh spacing kept
        o = Origin(dict(BASE))
        for dx in (0.25, 0.5, 1.0, 3.0):
            r = EdgeRupture(G.doc(build(('slope', (2,), 1, 40))), o, mesh_dx=dx)
            r.writeGeoJson(os.path.join(tmp, 'm.json'))
            with open(os.path.join(tmp, 'm.json')) as fh:
                y = rupture_from_dict(json.load(fh))
            lo, la = np.linspace(-119, -117, 7), np.linspace(33.5, 34.6, 7)
            ctx.check(np.array_equal(r.computeRrup(lo, la, lo * 0)[0], y.computeRrup(lo, la, lo * 0)[0]), 'mesh spacing %r is lost' % dx)
            ctx.check(np.array_equal(r.computeRjb(lo, la, lo * 0)[0], y.computeRjb(lo, la, lo * 0)[0]), 'mesh spacing %r is lost' % dx)
            # from a file and from a dictionary with an origin the spacing is the one asked for
            jd = json.load(open(os.path.join(tmp, 'm.json')))
            tx = io.StringIO(layout(build(('slope', (2,), 1, 40)), ' ', False, 0, 'S'))
            for ask in (0.25, 1.0, 3.0):
                tx.seek(0)
                w = EdgeRupture(G.doc(build(('slope', (2,), 1, 40))), o, mesh_dx=ask)
                for nm, z in (('JSON file', get_rupture(o, os.path.join(tmp, 'm.json'), mesh_dx=ask)), ('text', get_rupture(o, tx, mesh_dx=ask)), ('dictionary', rupture_from_dict_and_origin(jd, o, mesh_dx=ask))):
                    ctx.check(np.array_equal(w.computeRrup(lo, la, lo * 0)[0], z.computeRrup(lo, la, lo * 0)[0]), 'mesh spacing %r asked for from %s is not used' % (ask, nm))
                    z.writeGeoJson(os.path.join(tmp, 'm2.json'))
                    ctx.equal(json.load(open(os.path.join(tmp, 'm2.json')))['metadata'].get('mesh_dx'), ask, 'mesh spacing written to the file')
                    ctx.op()
        ctx.traces += 1


def _lines(t):
    return t.splitlines()


def _edit(i, f):
    """apply f to the i-th vertex line"""
    def g(txt, polys):
        ls = txt.splitlines()
        idx = [k for k, l in enumerate(ls) if l and l[0] not in '#>']
        ls[idx[i]] = f(ls[idx[i]])
        return '\n'.join(ls) + '\n'
    return g


def _drop(i):
    def g(txt, polys):
        ls = txt.splitlines()
        idx = [k for k, l in enumerate(ls) if l and l[0] not in '#>']
        del ls[idx[i]]
        return '\n'.join(ls) + '\n'
    return g


TEXTBAD = [('no vertices', lambda t, p: '#x\n'), ('nothing', lambda t, p: ''), ('only separators', lambda t, p: '>\n>\n'),
           ('the closing vertex missing', _drop(-1)), ('the first vertex missing', _drop(0)), ('an inner vertex missing', _drop(1)),
           ('a single vertex', lambda t, p: '\n'.join(t.splitlines()[:2])), ('one vertex twice', lambda t, p: '\n'.join(t.splitlines()[:2] + t.splitlines()[1:2])),
           ('three lines', lambda t, p: '0 0 1\n0 0 5\n0 0 1\n'), ('four lines', lambda t, p: '0 0 1\n0 1 1\n0 1 5\n0 0 1\n'),
           ('two columns', _edit(1, lambda l: ' '.join(l.split()[:2]))), ('four columns', _edit(1, lambda l: l + ' 5')), ('one column', _edit(2, lambda l: l.split()[0])),
           ('a word', _edit(1, lambda l: 'abc ' + ' '.join(l.split()[1:]))), ('a depth that is a word', _edit(2, lambda l: ' '.join(l.split()[:2]) + ' deep')),
           ('semicolons', lambda t, p: t.replace(' ', ';')), ('an empty column', _edit(1, lambda l: l.replace(' ', ',,', 1))),
           ('latitude 95', _edit(1, lambda l: l.split()[0] + ' 95 ' + l.split()[2])), ('longitude 185', _edit(1, lambda l: '185 ' + ' '.join(l.split()[1:]))), ('latitude -90.01', _edit(2, lambda l: l.split()[0] + ' -90.01 ' + l.split()[2])),
           ('nan', _edit(1, lambda l: 'nan ' + ' '.join(l.split()[1:]))), ('inf', _edit(2, lambda l: l.split()[0] + ' inf ' + l.split()[2])),
           ('a flat polygon', lambda t, p: '\n'.join('%r %r 3' % (v[0], v[1]) for v in p[0])),
           ('a closing vertex 1e-7 degrees off', _edit(-1, lambda l: '%r ' % (float(l.split()[0]) + 1e-7) + ' '.join(l.split()[1:]))),
           ('a closing vertex a centimetre lower', _edit(-1, lambda l: ' '.join(l.split()[:2]) + ' %r' % (float(l.split()[2]) + 1e-5))),
           ('another last vertex', _edit(-1, lambda l: '1 ' + ' '.join(l.split()[1:])))]


def _geo(d):
    return d['features'][0]['geometry']


def _poly(d):
    return _geo(d)['coordinates'][0]


def _set(path, val):
    def f(d):
        x = d
        for k in path[:-1]:
            x = x[k]
        if val is None:
            del x[path[-1]]
        else:
            x[path[-1]] = val
    return f


GEO = ['features', 0, 'geometry']
JSONBAD = [('type Feature', _set(['type'], 'Feature')), ('no type', _set(['type'], None)), ('no features', _set(['features'], None)), ('an empty feature list', _set(['features'], [])),
           ('two features', lambda d: d['features'].append(copy.deepcopy(d['features'][0]))), ('no metadata', _set(['metadata'], None)), ('no reference', _set(['metadata', 'reference'], None)),
           ('feature type', _set(['features', 0, 'type'], 'fred')), ('no geometry', _set(GEO, None)), ('geometry type Polygon', _set(GEO + ['type'], 'Polygon')), ('geometry type LineString', _set(GEO + ['type'], 'LineString')),
           ('no coordinates', _set(GEO + ['coordinates'], None)), ('empty coordinates', _set(GEO + ['coordinates'], [])), ('no polygons', _set(GEO + ['coordinates'], [[]])), ('an empty polygon', lambda d: _poly(d).append([])),
           ('an unclosed polygon', lambda d: _poly(d)[0].pop()), ('an unclosed polygon of odd length', lambda d: (_poly(d)[-1].pop(), _poly(d)[-1].append([1.0, 2.0, 3.0]))),
           ('a closing vertex 1e-7 degrees off', lambda d: _poly(d)[-1][-1].__setitem__(0, _poly(d)[-1][-1][0] + 1e-7)),
           ('a vertex missing', lambda d: _poly(d)[0].pop(1)), ('a polygon of one pair', lambda d: _poly(d).append([[0, 0, 1], [0, 0, 5], [0, 0, 1]])), ('a polygon of one vertex', lambda d: _poly(d).append([[0, 0, 1]])),
           ('bottom first', lambda d: _poly(d).__setitem__(0, [[v[0], v[1], -v[2]] for v in _poly(d)[0]])), ('equal depths', lambda d: _poly(d).__setitem__(-1, [[v[0], v[1], 4.0] for v in _poly(d)[-1]])),
           ('a vertex without depth', lambda d: _poly(d)[0][1].pop()), ('a vertex of text', lambda d: _poly(d)[0].__setitem__(1, 'abc')), ('a null depth', lambda d: _poly(d)[0][1].__setitem__(2, None)),
           ('a longitude of text', lambda d: _poly(d)[0][1].__setitem__(0, 'abc')), ('latitude 91', lambda d: _poly(d)[0][1].__setitem__(1, 91.0)), ('longitude 200', lambda d: _poly(d)[0][1].__setitem__(0, 200.0)),
           ('polygons null', _set(GEO + ['coordinates'], [None])), ('polygons number', _set(GEO + ['coordinates'], [5]))]
