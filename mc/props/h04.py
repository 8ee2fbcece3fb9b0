"""H04: intensity layers of ShakeMapOutputContainer."""
import itertools
import copy
import numpy as np
from mc.core import Violation, short, same
from mc.fsutil import CaseDir
from mc.hdfcheck import metaeq, scramble, BIG
from impactutils.io.smcontainers import ShakeMapOutputContainer

LEVEL = 'model_checking'
RULE = ('all histories of depth 1..3 (thorough 4) over {store grid layer, store point layer} x 2 names x 2 components, mismatched shapes, '
        'refused metadata/identifiers, drop name, re-open; all layers, listings, file type and an unrelated item compared with the '
        'reference model at the end of every history; every single mismatched argument (other length, other dimensions); names and components that are prefixes of one another; every subset of five components holding a name, dropped and stored again; absent metadata; boundary layer values x compression.')
ASSUMPTIONS = ['identifiers are byte strings (HDF5)', 'metadata values are numbers or text']
SETS = [(['MMI', 'SA(0.3)'], ['Larger', 'rotd50']), (['SA(0.3)', 'SA(3.0)'], ['rotd50', 'rotd']), (['SA', 'SA(1.0)'], ['Larger', 'Larger2']),
        (['PGA', 'PGA2'], ['mean', 'std']), (['SA(1.0)', 'PGV'], ['rotd50', 'Larger', 'H1', 'H2', 'Z'])]
NAMES, COMPS = SETS[0]
M1, M2 = {'units': 'cm', 'nx': 3, 'x': 1.5}, {'digits': 4, 'é': 'ж'}


def grid(i, variant=0):
    a = np.arange(6.).reshape(2, 3) + 10 * i
    if variant == 1:
        a = np.zeros((0, 3))
    elif variant == 2:
        a = np.array([[np.nan, 1e-300], [np.inf, -1.]])
    elif variant == 3:
        a = np.arange(4, dtype=np.float32).reshape(4, 1)
    elif variant == 9:
        a = BIG * (i + 1)
    s = a * 0.5 + 1
    if variant == 4:
        s = s.T.copy()
    return metas(dict(mean=a, mean_metadata=dict(M1, i=i), std=s, std_metadata=dict(M2, i=-i)), variant)


def metas(L, variant):
    if variant in (5, 7):
        L['std_metadata'] = {} if variant == 5 else None
    if variant in (6, 8):
        L['mean_metadata'] = {} if variant == 6 else None
    return L


def points(i, variant=0):
    n = (3, 0, 1)[variant % 3]
    a = np.arange(float(n))
    if variant == 4:
        a = np.arange(6.).reshape(2, 3)
        L = points(i, 0)
        return dict(lons=a, lats=a + 1, ids=np.array([[b'a', b'b', b'c'], [b'd', b'', b'f']]), mean=a * 3, mean_metadata=L['mean_metadata'], std=a + 9, std_metadata=L['std_metadata'])
    if variant == 9:
        a = BIG.ravel()
        n = len(a)
    return metas(dict(lons=a - 118 - i, lats=a + 34, ids=np.array([('st%d_%d' % (i, k)).encode() for k in range(n)], dtype='S8'),
                mean=a * 2 + i, mean_metadata=dict(M1, i=i), std=a + 0.25, std_metadata=dict(M2)), variant)


BAD = ['col:lons', 'col:lats', 'col:ids', 'col:mean', 'col:std', 'shape:lons', 'shape:lats', 'shape:ids', 'shape:mean', 'shape:std', 'ids', 'pmeta', 'gmeta', 'gstdmeta', 'gobj']


def cases(tier):
    q = tier == 'quick'
    ops = [['g', n, c] for n in (0, 1) for c in (0, 1)] + [['p', n, c] for n in (0, 1) for c in (0, 1)] + \
          [['d', 0], ['d', 1], ['open'], ['b', 'shape:std', 0, 0], ['b', 'gstdmeta', 0, 1], ['b', 'pmeta', 0, 0]]
    for d in range(1, (3 if q else 4) + 1):
        for h in itertools.product(range(len(ops)), repeat=d):
            yield ['h', [ops[i] for i in h], 0, True]
    for b in BAD:
        for pre in ([], [['g', 0, 1]], [['p', 0, 1]], [['g', 0, 0]], [['p', 0, 0]], [['p', 1, 0], ['d', 1]]):
            for post in ([], [['g', 0, 0]], [['p', 0, 0]], [['open']], [['d', 0]]):
                yield ['h', pre + [['b', b, 0, 0]] + post, 0, True]
    for h in itertools.product([['t', 'grid'], ['t', 'points'], ['t', 'grids'], ['t', None], ['g', 0, 0], ['p', 0, 0], ['d', 0], ['open']], repeat=3 if q else 4):
        if any(o[0] == 't' for o in h):
            yield ['h', list(h), 0, True]
    ops = [['g', n, c] for n in (0, 1) for c in (0, 1)] + [['p', 0, 0], ['p', 1, 0], ['d', 0], ['d', 1]]
    for s in range(1, 4):
        for d in range(1, (3 if q else 4) + 1):
            for h in itertools.product(range(len(ops)), repeat=d):
                yield ['h', [ops[i] for i in h], 0, True, s]
    # a name in any of five components
    for o in 'gp':
        for have in itertools.product((0, 1), repeat=5):
            pre = [[o, 0, k] for k in range(5) if have[k]]
            for other in ([], [[o, 1, 2]], [[o, 1, k] for k in range(5)]):
                for post in ([], [['d', 0]], [['d', 0], ['open'], [o, 0, 3]], [['d', 1], ['d', 0]]):
                    yield ['h', other + pre + post, 0, True, 4]
    for v in range(10):
        for comp in (True, False):
            for o in 'gp':
                for h in ([[o, 0, 0]], [[o, 0, 0], ['open']], [[o, 0, 0], [o, 0, 0]], [[o, 0, 0], [o, 0, 1], ['d', 0]], [[o, 0, 0], ['d', 0], [o, 0, 0]]):
                    yield ['h', h, v, comp]


def run(case, ctx):
    global NAMES, COMPS
    NAMES, COMPS = SETS[case[4] if len(case) > 4 else 0]
    with CaseDir(ctx):
        c = ShakeMapOutputContainer.create('c.hdf')
        try:
            c = go(case, ctx, c)
        finally:
            try:
                c.close()
            except Exception:
                pass


def go(case, ctx, c):
    hist, variant, compression = case[1:4]
    model, dtype = {}, None
    c.setConfig({'keep': 1})
    if len(hist) < 3:
        # a second file of the other type, opened meanwhile
        o = ShakeMapOutputContainer.create('o.hdf')
        G, P = grid(9), points(9)
        if hist and hist[0][0] == 'p':
            o.setIMTGrids(NAMES[0], G['mean'], {}, G['std'], {}, COMPS[0])
        else:
            o.setIMTArrays(NAMES[0], P['lons'], P['lats'], P['ids'], P['mean'], {}, P['std'], {}, COMPS[0])
        o.close()
    c.setArray(['other'], 'x', np.arange(3))
    for k, op in enumerate(hist):
        ctx.op()
        what = 'history %r, step %d' % (hist, k + 1)
        if op[0] == 'open':
            c.close()
            c = ShakeMapOutputContainer.load('c.hdf')
        elif op[0] == 'd':
            try:
                c.dropIMT(NAMES[op[1]])
            except LookupError:
                ctx.check(not any(n == op[1] for n, _ in model), '%s: drop of a stored layer failed' % what)
            for key in [x for x in model if x[0] == op[1]]:
                del model[key]
        elif op[0] == 't':
            try:
                c.setDataType(op[1])
            except TypeError:
                ctx.check(op[1] not in ('grid', 'points') or dtype not in (None, op[1]), '%s: type %r refused in a %r file' % (what, op[1], dtype))
            else:
                ctx.check(op[1] in ('grid', 'points') and dtype in (None, op[1]), '%s: type %r accepted in a %r file' % (what, op[1], dtype))
                dtype = op[1]
        elif op[0] in 'gp':
            kind = {'g': 'grid', 'p': 'points'}[op[0]]
            L = (grid if op[0] == 'g' else points)(k + 1, variant)
            inp = copy.deepcopy(L)
            ok = dtype in (None, kind) and (op[1], op[2]) not in model
            try:
                if op[0] == 'g':
                    c.setIMTGrids(NAMES[op[1]], L['mean'], L['mean_metadata'], L['std'], L['std_metadata'], COMPS[op[2]], compression=compression)
                else:
                    c.setIMTArrays(NAMES[op[1]], L['lons'], L['lats'], L['ids'], L['mean'], L['mean_metadata'], L['std'],
                                   L['std_metadata'], COMPS[op[2]], compression=compression)
            except Exception as e:
                if ok:
                    raise Violation('%s: store refused: %s: %s' % (what, type(e).__name__, e))
                if dtype not in (None, kind):
                    ctx.check(isinstance(e, TypeError), '%s: wrong layer type raised %s' % (what, type(e).__name__))
            else:
                ctx.check(ok, '%s: store of a %s layer accepted in a %s file%s' % (what, kind, dtype, ' over an existing layer' if (op[1], op[2]) in model else ''))
                model[(op[1], op[2])] = inp
                scramble(list(L.values()))
                dtype = kind
        else:
            bad(c, op, ctx, what)
    observe(c, ctx, model, dtype, 'history %r' % hist)
    ctx.state(sorted((k, repr(v)[:80]) for k, v in model.items()) + [dtype])
    ctx.outcome((len(model), dtype))
    return c


def bad(c, op, ctx, what):
    b = op[1]
    n, comp = NAMES[op[2]], COMPS[op[3]]
    P, G = points(1), grid(1)
    try:
        if b[0] == 'g':
            if b == 'gmeta':
                G['mean_metadata'] = {'a': 1, 'x': object()}
            elif b == 'gstdmeta':
                G['std_metadata'] = {'a': 1, 'x': None}
            else:
                G['std'] = np.array([object(), None])
            c.setIMTGrids(n, G['mean'], G['mean_metadata'], G['std'], G['std_metadata'], comp)
        else:
            if b.startswith('col:'):
                P[b[4:]] = P[b[4:]].reshape(-1, 1)
            elif b.startswith('shape:'):
                P[b[6:]] = P[b[6:]][:-1]
            elif b == 'ids':
                P['ids'] = np.array([object()] * 3)
            else:
                P['std_metadata'] = {'a': 1, 'x': object()}
            c.setIMTArrays(n, P['lons'], P['lats'], P['ids'], P['mean'], P['mean_metadata'], P['std'], P['std_metadata'], comp)
    except Exception:
        return
    raise Violation('%s: inconsistent layer (%s) accepted' % (what, b))


def observe(c, ctx, model, dtype, what):
    def eq(got, want, label):
        if got != want:
            raise Violation('after %s: %s is %r, expected %r' % (what, label, got, want))
    ctx.op()
    eq(c.getDataType(), dtype, 'file type')
    eq(sorted(c.getIMTs()), sorted('%s/%s' % (COMPS[k], NAMES[n]) for n, k in model), 'layer list')
    eq(sorted(c.getComponents()), sorted({COMPS[k] for n, k in model}), 'component list')
    eq(c.getConfig(), {'keep': 1}, 'configuration')
    eq(c.getArray(['other'], 'x')[0].tolist(), [0, 1, 2], 'unrelated array')
    for n in (0, 1):
        eq(sorted(c.getComponents(NAMES[n])), sorted(COMPS[k] for m, k in model if m == n), 'components of %s' % NAMES[n])
        for k in range(len(COMPS)):
            try:
                got = sorted(c.getIMTs(COMPS[k]))
            except LookupError:
                got = []
            eq(got, sorted(NAMES[m] for m, kk in model if kk == k), 'layers of %s' % COMPS[k])
            w = model.get((n, k))
            for kind, f in (('grid', c.getIMTGrids), ('points', c.getIMTArrays)):
                try:
                    g = f(NAMES[n], COMPS[k])
                except (LookupError, TypeError) as e:
                    if w is not None and kind == dtype:
                        raise Violation('after %s: stored layer (%s, %s) cannot be read: %s' % (what, NAMES[n], COMPS[k], e))
                    if dtype is not None and kind != dtype and not isinstance(e, TypeError):
                        raise Violation('after %s: reading as %s in a %s file raised %s' % (what, kind, dtype, type(e).__name__))
                    continue
                if w is None or kind != dtype:
                    raise Violation('after %s: reading (%s, %s) as %s returned something' % (what, NAMES[n], COMPS[k], kind))
                eq(sorted(g), sorted(w), 'keys of the layer')
                for key in w:
                    if key.endswith('metadata'):
                        good = metaeq(g[key], w[key])
                    else:
                        good = same(np.asarray(g[key]), w[key]) and g[key].dtype == w[key].dtype
                    if not good:
                        raise Violation('after %s: %s of (%s, %s) reads %s, stored was %s' % (
                            what, key, NAMES[n], COMPS[k], short(g[key], 150), short(w[key], 150)))
                scramble(g)
