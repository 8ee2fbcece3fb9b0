"""Reference model (a dict) and history driver for the two HDF containers."""
import copy
import os
import numpy as np
import pandas as pd
from mc.core import Violation, same, short

KINDS = {'dict': ('Dictionary', 'Dictionaries'), 'list': ('List', 'Lists'), 'array': ('Array', 'Arrays'),
         'string': ('String', 'Strings'), 'frame': ('DataFrame', 'DataFrames')}


def frames():
    t = pd.to_datetime(['2010-01-01T00:00:00', '2011-02-03T04:05:06.789012'], format='ISO8601')
    return [
        pd.DataFrame({'a': [1, 2], 'b': ['x', 'y']}),
        pd.DataFrame({'time': t, 'mag': [5.5, 6.25]}),
        pd.DataFrame({'a': list(range(12))}),
        pd.DataFrame({'net': ['007', '12'], 'v': [1.0, 2.0]}),
        pd.DataFrame({'z': [1.5, np.nan], 'a': [True, False], 'é b': ['ж', '']}),
        pd.DataFrame({'x': [1, 2, 3]}, index=[5, 3, 9]),
        pd.DataFrame({'x': [0.123456789012, 1e6 + 0.25]}, index=['q', 'p']),
        pd.DataFrame({'time': ['noon', 'later'], 'date': ['2010-01-01', 'x'], 'modified': [1, 2]}),
        pd.DataFrame({'t1': t, 't2': t[::-1], 'n': [-1, 10**12]}),
        pd.DataFrame({'x': BIG.ravel()[:1500] % 1000, 'k': range(1500), 's': ['s%d' % (i * i) for i in range(1500)]}),
    ]


def values(kind):
    if kind == 'dict':
        return [{'a': 1, 'b': 'x'}, {}, {'n': None, 'l': [1, 2.5, 'é', [], {}], 'd': {'e': {'f': True}}},
                {'nan': float('nan'), 'inf': float('inf'), 'big': 10**20, 'small': 1e-300, 'neg': -0.1},
                {'': '', ' ': 'ж', 'a/b': 1, 'q"\\': '\n\t\x00', 'z': False, 'y': 0},
                dict(('key %d' % (i * 7919 % 10007), [i / 7.0, 'v%d' % i]) for i in range(4000))]
    if kind == 'list':
        return [[1, 2, 3], [], ['a', '', 'é', '\x00'], [1.5, None, True], [[1], [], [[2, {'a': 1}]]], [float('nan')],
                [i * 0.37 if i % 3 else 'e%d' % i for i in range(5000)]]
    if kind == 'string':
        return ['hello', '', 'é ж \U0001f30d', 'a\nb\r\n\t', 'x' * 70000, '"', '{"a": 1}', ' ', '\n lead and trail \n\n', '\ufeffbom\r']
    if kind == 'array':
        return [np.arange(6).reshape(2, 3), np.array([1.5, np.nan, np.inf, -0.0]), np.zeros((0,)), np.zeros((0, 3)),
                np.array([True, False]), np.array([b'ab', b'c', b'']), np.arange(4, dtype='>i2'), np.array([[[1]]], dtype=np.uint8),
                np.asfortranarray(np.arange(6.).reshape(2, 3)), np.arange(20)[::3], np.array([1 + 2j]), np.float32([1.1]),
                BIG, BIG.astype(np.float32).T, (BIG.ravel()[:3600] * 1e6).astype(np.int64).reshape(12, 300),
                np.array([5e-324, 1.7976931348623157e308, -np.inf, 1e-7, 2 ** 53 + 2.0, -np.nan])]
    return frames()


# 3721 numbers of very different size, none of them repeated
BIG = np.array([(-1) ** (i + j) * (i + 1 / (j + 3.0)) ** (j % 9 - 4) for i in range(1, 62) for j in range(61)]).reshape(61, 61)

SCALARS = [np.array(2.5), np.array(-7, dtype=np.int16), np.array(True), np.array(b'abc'), np.array(1 + 2j)]      # stored without compression only

METAS = [None, {}, {'a': 1, 'b': 'x', 'c': 1.5}, {'é': 'ж', 'e': ''}, {'flag': True, 'list': [1, 2, 3], 'arr': np.arange(3.)},
         dict(('m%02d' % i, [i, i / 3.0, 'text %d' % i][i % 3]) for i in range(40))]


def metaeq(got, want):
    want = want or {}
    if set(got) != set(want):
        return False
    return all(np.array_equal(np.asarray(got[k]), np.asarray(want[k])) for k in want)


def equal(kind, got, want):
    if kind == 'array':
        data, meta = got
        w, wm = want
        return (isinstance(data, np.ndarray if w.ndim else (np.ndarray, np.generic)) and data.dtype == w.dtype and same(np.asarray(data), w) and metaeq(meta, wm))
    if kind == 'frame':
        if not isinstance(got, pd.DataFrame) or list(got.columns) != list(want.columns) or list(got.index) != list(want.index):
            return False
        for c in want.columns:
            for g, w in zip(got[c].tolist(), want[c].tolist()):
                if isinstance(w, float):
                    if not isinstance(g, (int, float)) or isinstance(g, bool):
                        return False
                    if w != w:
                        if g == g:
                            return False
                    elif abs(g - w) > 1e-10 * max(1.0, abs(w)):
                        return False
                elif isinstance(w, pd.Timestamp):
                    if not isinstance(g, pd.Timestamp) or abs((g - w).total_seconds()) > 0.001:
                        return False
                elif g != w or (isinstance(w, str) != isinstance(g, str)):
                    return False
        return True
    if kind == 'dict' or kind == 'list':
        return type(got) is type(want) and repr(got) == repr(want)
    return got == want


def scramble(v):
    """change an object of the caller in place as much as its type allows"""
    if isinstance(v, tuple):
        for x in v:
            scramble(x)
    elif isinstance(v, dict):
        for x in list(v.values()):
            scramble(x)
        v['scrambled'] = 'by the caller'
    elif isinstance(v, list):
        for x in v:
            scramble(x)
        v.append('scrambled')
    elif isinstance(v, np.ndarray):
        if v.flags.writeable and v.size and v.dtype.kind != 'O':
            v[...] = v.flat[-1] if v.dtype.kind == 'S' else 77
    elif isinstance(v, pd.DataFrame):
        v['scrambled'] = 1
        v.drop(columns=list(v.columns)[:1], inplace=True)


class Driver(object):
    """style 'flat' (HDFContainer) or 'tree' (HDFContainerBase)."""

    def __init__(self, cls, style, ctx, kinds, paths, fname='c.hdf'):
        self.cls, self.style, self.ctx, self.kinds, self.paths = cls, style, ctx, kinds, paths
        self.fname = fname
        self.c = cls.create(fname)
        self.model = {}
        self.hist = []
        ctx.check(os.path.basename(self.c.getFileName()) == fname, 'file name is %r' % self.c.getFileName())

    def call(self, verb, kind, path, *a, **k):
        one, many = KINDS[kind]
        f = getattr(self.c, verb + one)
        self.ctx.op()
        if self.style == 'flat':
            return f(path, *a, **k)
        groups, name = path
        return f(list(groups), name, *a, **k)

    def listing(self, kind):
        self.ctx.op()
        r = getattr(self.c, 'get' + KINDS[kind][1])()
        return list(r)

    def set(self, kind, path, value, meta=None, compression=None):
        key = (kind, path)
        self.hist.append(('set', key, short(value, 60)))
        inp = copy.deepcopy(value)
        im = meta
        meta = copy.deepcopy(meta)
        kw = {}
        if kind == 'array':
            if meta is not None:
                kw['metadata'] = meta
            if compression is not None:
                kw['compression'] = compression
        try:
            ret = self.call('set', kind, path, value, **kw)
        except Exception as e:
            if key not in self.model:
                raise Violation('after %r storing was refused: %s: %s' % (self.hist, type(e).__name__, e))
        else:
            self.ctx.check(key not in self.model, 'after %r: stored over an existing item without an error' % self.hist)
            if kind == 'array':
                self.ctx.equal(ret.compression, None if compression is False else 'gzip', 'after %r: compression of the array' % self.hist)
            self.model[key] = (inp, im) if kind == 'array' else inp
        if kind == 'array':
            ok = value.dtype == inp.dtype and same(value, inp)
        elif kind == 'frame':
            ok = value.equals(inp)
        else:
            ok = repr(value) == repr(inp)
        self.ctx.check(ok, 'after %r: the caller\'s value was changed' % self.hist)
        # what the caller does with its objects afterwards is no business of the container
        scramble(value)
        scramble(meta)

    def refuse(self, kind, path, value, **kw):
        """a store that must fail and leave nothing"""
        self.hist.append(('refused', kind, path))
        try:
            ret = self.call('set', kind, path, value, **kw)
        except Exception:
            return
        raise Violation('after %r: storing %r succeeded' % (self.hist, value))

    def drop(self, kind, path):
        key = (kind, path)
        self.hist.append(('drop', key))
        try:
            self.call('drop', kind, path)
        except LookupError:
            self.ctx.check(key not in self.model, 'after %r: dropping a stored item failed' % self.hist)
        else:
            self.ctx.check(key in self.model, 'after %r: dropping an item that is not stored did not fail' % self.hist)
            del self.model[key]

    def reopen(self):
        self.hist.append('reopen')
        self.c.close()
        self.ctx.op()
        self.c = self.cls.load(self.fname)

    def observe(self):
        h = self.hist
        for kind in self.kinds:
            want = sorted(p if self.style == 'flat' else '/'.join(list(p[0]) + [p[1]]) for k, p in self.model if k == kind)
            got = sorted(self.listing(kind))
            if got != want:
                raise Violation('after %r: %s lists %r, stored are %r' % (h, kind, got, want))
            for p in self.paths:
                try:
                    v = self.call('get', kind, p)
                except LookupError as e:
                    if (kind, p) in self.model:
                        raise Violation('after %r: stored %s %r is reported missing: %s' % (h, kind, p, e))
                    continue
                except Exception as e:
                    raise Violation('after %r: reading %s %r raised %s: %s' % (h, kind, p, type(e).__name__, e))
                if (kind, p) not in self.model:
                    raise Violation('after %r: reading %s %r, which is not stored, returned %s' % (h, kind, p, short(v, 100)))
                w = self.model[(kind, p)]
                if not equal(kind, v, w):
                    raise Violation('after %r: %s %r reads %s, stored was %s' % (h, kind, p, short(v, 200), short(w, 200)))
                scramble(v)
        self.ctx.state(sorted((k, p, repr(v)[:200]) for (k, p), v in self.model.items()))
        self.ctx.outcome((len(self.model), tuple(sorted({k for k, _ in self.model}))))

    def close(self):
        try:
            self.c.close()
        except Exception:
            pass
