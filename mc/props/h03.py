"""H03: replace-whole-item semantics of the ShakeMap containers."""
import itertools
import json
import copy
from collections import OrderedDict
import numpy as np
from mc.core import Violation, short
from mc.fsutil import CaseDir
from mc.hdfcheck import scramble
from impactutils.io.smcontainers import ShakeMapContainerBase, ShakeMapOutputContainer

LEVEL = 'model_checking'
RULE = ('all histories over one item {store v1, v2, v3, wrong type, 2 kinds of unserialisable value} + re-open, depth 1..4 (thorough 5), for '
        'each of the 5 items and both container classes; all histories over two items {v1, v2, bad} + re-open, depth 1..3 (thorough 4), all '
        'pairs; replacements by a value that compares equal; a second file in between. All items are read at the end of every history (every prefix is a history) and compared with a dict model.')
ASSUMPTIONS = ['values are JSON-representable dictionaries with text keys']
ITEMS = {'config': ('setConfig', 'getConfig', AttributeError), 'rupture': ('setRuptureDict', 'getRuptureDict', AttributeError),
         'station': ('setStationDict', 'getStationDict', AttributeError), 'history': ('setVersionHistory', 'getVersionHistory', None),
         'metadata': ('setMetadata', 'getMetadata', LookupError)}
VALS = [{'a': 1, 'b': {'c': [1, 2.5, None, 'é']}}, {}, {'type': 'FeatureCollection', 'x': 'y' * 3000, 'n': float('nan')},
        {'a': 1, 'b': 0}, {'a': True, 'b': 0.0}, {'b': 0, 'a': 1}, {'a': 1.0, 'b': False}, {'a': '1', 'b': None},
        dict(('key %d' % (i * 7919 % 10007), [i / 7.0, 'v%d' % i, {'n': i}]) for i in range(4000))]
BADSER = [{'x': object()}, {'ok': 1, 'arr': [np.arange(2)]}]
BADTYPE = [['a'], 'text', None, 5]


def alpha(item, small=False):
    out = [['v', item, 0], ['v', item, 1]]
    if not small:
        out.append(['v', item, 2])
        out.append(['s', item, 1])
    out.append(['s', item, 0])
    if item in ('rupture', 'station'):
        out.append(['t', item, 0])
    return out


def cases(tier):
    q = tier == 'quick'
    names = list(ITEMS)
    for cls in (0, 1):
        for it in names[:4 + cls]:
            ops = alpha(it) + [['open']]
            for d in range(1, (4 if q else 5) + 1):
                for h in itertools.product(range(len(ops)), repeat=d):
                    yield [cls, [ops[i] for i in h]]
            if it in ('rupture', 'station'):
                for b in range(len(BADTYPE)):
                    for pre in (0, 1):
                        yield [cls, [['v', it, 0]] * pre + [['t', it, b]]]
        for it in names[:4 + cls]:
            # values that are equal for the language but not the same
            for a, b in itertools.permutations(range(3, 8), 2):
                yield [cls, [['v', it, a], ['v', it, b]]]
                yield [cls, [['v', it, a], ['open'], ['v', it, b], ['s', it, 0]]]
            for a in (0, 2):
                yield [cls, [['v', it, 8], ['v', it, a], ['open'], ['v', it, 8], ['s', it, 0], ['open']]]
            for it2 in names[:4 + cls]:
                yield [cls, [['v', it, 0], ['other', it2], ['v', it2, 1], ['open'], ['other', it]]]
        for a, b in itertools.combinations(names[:4 + cls], 2):
            ops = alpha(a, True) + alpha(b, True) + [['open']]
            for d in range(1, (3 if q else 4) + 1):
                for h in itertools.product(range(len(ops)), repeat=d):
                    yield [cls, [ops[i] for i in h]]


def run(case, ctx):
    cls = (ShakeMapContainerBase, ShakeMapOutputContainer)[case[0]]
    with CaseDir(ctx):
        c = cls.create('c.hdf')
        model = {}
        try:
            for op in case[1]:
                ctx.op()
                if op[0] == 'open':
                    c.close()
                    c = cls.load('c.hdf')
                    continue
                if op[0] == 'other':
                    # the same item of another file, meanwhile
                    o = cls.create('o.hdf')
                    getattr(o, ITEMS[op[1]][0])({'of': 'another file'})
                    got = getattr(o, ITEMS[op[1]][1])()
                    o.close()
                    ctx.equal(got, {'of': 'another file'}, 'item of a second file')
                    continue
                f = getattr(c, ITEMS[op[1]][0])
                v = {'v': VALS, 's': BADSER, 't': BADTYPE}[op[0]][op[2]]
                if op[0] == 'v':
                    v = copy.deepcopy(v)
                    f(v)
                    ctx.check(repr(v) == repr(VALS[op[2]]), 'after %r: the caller\'s value was changed' % case[1])
                    model[op[1]] = VALS[op[2]]
                    scramble(v)
                else:
                    try:
                        f(v)
                    except TypeError:
                        pass
                    except Exception as e:
                        if op[0] == 't':
                            raise Violation('wrong type for %s raised %s' % (op[1], type(e).__name__))
                    else:
                        raise Violation('%s accepted %s' % (op[1], short(v, 80)))
            for it, (_, g, missing) in ITEMS.items():
                if not hasattr(c, g):
                    ctx.check(it == 'metadata' and not case[0], 'no %s' % g)
                    continue
                ctx.op()
                try:
                    got = getattr(c, g)()
                except Exception as e:
                    if it in model:
                        raise Violation('after %r: stored %s cannot be read: %s: %s' % (case[1], it, type(e).__name__, e))
                    ctx.check(missing is not None and isinstance(e, missing), 'unset %s raised %s' % (it, type(e).__name__))
                else:
                    want = model.get(it, {} if missing is None else 'an error')
                    if repr(got) != repr(want):
                        raise Violation('after %r: %s reads %s, stored was %s' % (case[1], it, short(got, 200), short(want, 200)))
                    scramble(got)
                    if repr(getattr(c, g)()) != repr(want):
                        raise Violation('after %r: changing what was read of %s changed what is read next' % (case[1], it))
            ctx.state(sorted((k, repr(v)[:50]) for k, v in model.items()))
            ctx.outcome(tuple(sorted(model)))
        finally:
            try:
                c.close()
            except Exception:
                pass
