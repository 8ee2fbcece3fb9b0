"""H02: HDFContainerBase as a durable tree of named items."""
import itertools
import numpy as np
from mc.fsutil import CaseDir
from mc.hdfcheck import Driver, values, METAS, SCALARS
from mc.props.h01 import bads, special
from impactutils.io.smcontainers import HDFContainerBase

LEVEL = 'model_checking'
RULE = ('all histories of depth 1..3 (thorough 4) over {store, drop} for one kind x 7 group paths (shared prefixes, nested, same names, swapped order) '
        '+ re-open; two kinds x 2 paths, depth 1..4; every boundary value of every kind below a nested path; refused stores below new and '
        'existing groups; 31 items up to 6 groups deep; two files at a time and a new file over an old one. Every object given or handed out is changed by the caller afterwards. Full content (all kinds, all paths) is compared with a dict model at the end of every history.')
ASSUMPTIONS = ['item names and group names are disjoint (HDF5 keeps them in one name space), without "/"', 'text without NUL',
               'arrays of numbers, booleans or bytes']
PATHS = [((), 'n1'), (('g',), 'n1'), (('g', 'h'), 'n1'), (('g', 'h'), 'n 2'), (('g2', 'h'), 'n1'), (('g', 'g'), 'n1'), (('h', 'g'), 'n1')]
MANY = [(('g',) * (i % 6) + (('x%d' % (i // 6),) if i % 2 else ()), 'k%d' % i) for i in range(31)]
KL = ['array', 'dict', 'string']


def cases(tier):
    q = tier == 'quick'
    for i in range(len(SCALARS)):
        for m in range(len(METAS)):
            yield ['scalar', i, m]
    for k in KL:
        yield ['many', k]
        for other in KL:
            yield ['two', k, other]
            yield ['fresh', k, other]
    for k in KL:
        for i in range(len(values(k))):
            for m in (range(len(METAS)) if k == 'array' else [0]):
                for comp in ((None, True, False) if k == 'array' else [None]):
                    yield ['value', k, i, m, comp]
        for pre in (0, 1, 2):
            for bad in range(len(bads(k))):
                for p in (0, 2, 4):
                    yield ['bad', k, pre, bad, p]
        ops = [['set', k, p, 0] for p in range(len(PATHS))] + [['drop', k, p] for p in range(len(PATHS))] + [['open']]
        for d in range(1, (3 if q else 4) + 1):
            for h in itertools.product(range(len(ops)), repeat=d):
                yield ['hist', [ops[i] for i in h]]
    for a, b in itertools.combinations(KL, 2):
        ops = [['set', k, p, v] for k, v in ((a, 0), (b, 1)) for p in (1, 2)] + [['drop', k, p] for k in (a, b) for p in (1, 2)] + [['open']]
        for d in range(1, (3 if q else 4) + 1):
            for h in itertools.product(range(len(ops)), repeat=d):
                yield ['hist', [ops[i] for i in h]]


def run(case, ctx):
    with CaseDir(ctx):
        d = Driver(HDFContainerBase, 'tree', ctx, KL, PATHS if case[0] != 'many' else MANY)
        try:
            go(case, ctx, d)
        finally:
            d.close()


def go(case, ctx, d):
    if case[0] in ('many', 'two', 'fresh'):
        return special(case, ctx, d, HDFContainerBase, 'tree', PATHS)
    if case[0] == 'scalar':
        _, i, m = case
        a, b = SCALARS[i], SCALARS[(i + 1) % len(SCALARS)]
        d.set('array', PATHS[2], a, METAS[m], False)
        d.observe()
        d.reopen()
        d.set('array', PATHS[2], b, None, False)
        d.observe()
        d.set('array', PATHS[0], b, None, False)
        d.drop('array', PATHS[2])
        d.observe()
    elif case[0] == 'value':
        _, k, i, m, comp = case
        vs = values(k)
        p = PATHS[2]
        d.set(k, p, vs[i], METAS[m], comp)
        d.observe()
        d.reopen()
        d.observe()
        d.set(k, p, vs[(i + 1) % len(vs)])
        d.observe()
        d.set(k, PATHS[3], vs[(i + 1) % len(vs)])
        d.drop(k, p)
        d.observe()
        d.set(k, p, vs[(i + 1) % len(vs)])
        d.set(k, PATHS[1], vs[i])
        d.reopen()
        d.observe()
    elif case[0] == 'bad':
        _, k, pre, bad, pi = case
        if pre:
            d.set(k, PATHS[1 if pre == 1 else 3], values(k)[0])
        v = bads(k)[bad]
        if isinstance(v, tuple):
            d.refuse(k, PATHS[pi], np.arange(3), metadata=v[1])
        else:
            d.refuse(k, PATHS[pi], v)
        d.observe()
        d.set(k, PATHS[pi], values(k)[0])
        d.observe()
        d.reopen()
        d.observe()
    else:
        for op in case[1]:
            if op[0] == 'set':
                d.set(op[1], PATHS[op[2]], values(op[1])[op[3]])
            elif op[0] == 'drop':
                d.drop(op[1], PATHS[op[2]])
            elif op[0] == 'open':
                d.reopen()
        d.observe()
