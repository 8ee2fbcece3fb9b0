"""H01: HDFContainer as a durable map."""
import itertools
import numpy as np
from mc.fsutil import CaseDir
from mc.hdfcheck import Driver, values, METAS, SCALARS, KINDS
from impactutils.io.container import HDFContainer

LEVEL = 'model_checking'
RULE = ('all histories: one kind x 2 names, {store v1, store v2, drop} per name + re-open + read, depth 1..4 (thorough 5); '
        'two kinds x 2 names {store, drop} + re-open, depth 1..3 (thorough 4), all pairs of kinds; every boundary value of every kind stored, read, '
        're-opened, overwritten (refused), dropped, replaced; refused stores; 23 items of a kind; two files at a time and a new file '
        'over an old one, all pairs of kinds; every object given or handed out is changed by the caller afterwards. The full content is compared with a dict model at the end of '
        'every history (every prefix is a history).')
ASSUMPTIONS = ['text without NUL (HDF5 strings)', 'arrays of numbers, booleans or bytes', 'table numbers to 10 decimals, times to the millisecond',
               'names without "/"', 'JSON-representable dictionaries and lists with text keys']
NAMES = ['n1', 'n1 2é']
MANY = ['k%d' % i for i in range(23)]
KL = sorted(KINDS)


def cases(tier):
    q = tier == 'quick'
    for i in range(len(SCALARS)):
        for m in range(len(METAS)):
            yield ['scalar', i, m]
    for k in KL:
        for i in range(len(values(k))):
            for m in (range(len(METAS)) if k == 'array' else [0]):
                for comp in ((None, True, False) if k == 'array' else [None]):
                    yield ['value', k, i, m, comp]
        ops = [['set', k, n, v] for n in (0, 1) for v in (0, 1)] + [['drop', k, n] for n in (0, 1)] + [['open']]
        for d in range(1, (4 if q else 5) + 1):
            for h in itertools.product(range(len(ops)), repeat=d):
                if q and d == 4 and h[-1] == 6 and h[-2] == 6:
                    continue
                yield ['hist', [k], [ops[i] for i in h]]
    for a, b in itertools.combinations(KL, 2):
        ops = [['set', k, n, 0] for k in (a, b) for n in (0, 1)] + [['drop', k, n] for k in (a, b) for n in (0, 1)] + [['open'], ['read']]
        for d in range(1, (3 if q else 4) + 1):
            for h in itertools.product(range(len(ops)), repeat=d):
                used = {ops[i][1] for i in h if len(ops[i]) > 1}
                if len(used) == 2:
                    yield ['hist', KL, [ops[i] for i in h]]
    for k in KL:
        yield ['many', k]
        for other in KL:
            yield ['two', k, other]
            yield ['fresh', k, other]
    for k in KL:
        for pre in (0, 1):
            for bad in range(len(bads(k))):
                yield ['bad', k, pre, bad]


def bads(k):
    if k in ('dict', 'list'):
        w = (lambda x: {'a': x}) if k == 'dict' else (lambda x: ['a', x])
        return [w(object()), w({1, 2}), w(b'x'), w(np.arange(3)), w({('a', 1): 2}), {('a', 1): 2, 'b': 1} if k == 'dict' else [{b'x': 1}]]
    if k == 'string':
        return [5, None, ['a'], b'x']
    if k == 'array':
        return [np.array([object()]), np.array(['2020-01-01'], dtype='M8[s]'), ('meta', {'x': object()}), ('meta', {'a': 1, 'b': None})]
    return ['text', 5, None, [1]]


def run(case, ctx):
    with CaseDir(ctx):
        kinds = case[1] if case[0] == 'hist' else KL
        d = Driver(HDFContainer, 'flat', ctx, kinds, NAMES if case[0] != 'many' else MANY)
        try:
            go(case, ctx, d)
        finally:
            d.close()


def special(case, ctx, d, cls, style, paths):
    """many items in one place, two files at a time, a new file over an old one"""
    k = case[1]
    vs = values(k)
    if case[0] == 'many':
        for i, p in enumerate(d.paths):
            d.set(k, p, values(k)[i % len(vs)])
        d.observe()
        for p in d.paths[::3]:
            d.drop(k, p)
        d.reopen()
        d.observe()
        return
    other = case[2]
    d.set(k, paths[0], values(k)[0])
    if case[0] == 'two':
        e = Driver(cls, style, ctx, d.kinds, paths, 'second.hdf')
        try:
            e.observe()
            e.set(other, paths[0], values(other)[1])
            d.observe()
            e.observe()
            d.set(other, paths[1], values(other)[0])
            e.set(k, paths[1], values(k)[1])
            e.observe()
            d.observe()
            d.drop(k, paths[0])
            e.observe()
            d.reopen()
            e.reopen()
            d.observe()
            e.observe()
        finally:
            e.close()
    else:
        d.set(other, paths[1], values(other)[1])
        d.observe()
        d.close()
        e = Driver(cls, style, ctx, d.kinds, paths, d.fname)
        try:
            e.observe()
            e.set(other, paths[0], values(other)[1])
            e.reopen()
            e.observe()
        finally:
            e.close()


def go(case, ctx, d):
    if case[0] in ('many', 'two', 'fresh'):
        return special(case, ctx, d, HDFContainer, 'flat', NAMES)
    if case[0] == 'scalar':
        _, i, m = case
        a, b = SCALARS[i], SCALARS[(i + 1) % len(SCALARS)]
        d.set('array', NAMES[0], a, METAS[m], False)
        d.observe()
        d.reopen()
        d.set('array', NAMES[0], b, None, False)
        d.observe()
        d.set('array', NAMES[1], b, None, False)
        d.drop('array', NAMES[0])
        d.observe()
    elif case[0] == 'value':
        _, k, i, m, comp = case
        d.set(k, NAMES[0], values(k)[i], METAS[m], comp)
        d.observe()
        d.observe()
        d.reopen()
        d.observe()
        d.set(k, NAMES[0], values(k)[(i + 1) % len(values(k))])
        d.observe()
        d.drop(k, NAMES[0])
        d.observe()
        d.set(k, NAMES[0], values(k)[(i + 1) % len(values(k))])
        d.set(k, NAMES[1], values(k)[i])
        d.reopen()
        d.observe()
    elif case[0] == 'bad':
        _, k, pre, bad = case
        if pre:
            d.set(k, NAMES[1], values(k)[0])
        v = bads(k)[bad]
        if isinstance(v, tuple):
            d.refuse(k, NAMES[0], np.arange(3), metadata=v[1])
        else:
            d.refuse(k, NAMES[0], v)
        d.observe()
        d.set(k, NAMES[0], values(k)[0])
        d.observe()
        d.reopen()
        d.observe()
    else:
        for op in case[2]:
            if op[0] == 'set':
                d.set(op[1], NAMES[op[2]], values(op[1])[op[3]])
            elif op[0] == 'drop':
                d.drop(op[1], NAMES[op[2]])
            elif op[0] == 'open':
                d.reopen()
            else:
                d.observe()
        d.observe()
