"""Temporarily replace library functions, under whatever name the code under test imported them."""
import sys


class Swap(object):
    def __init__(self, *pairs):
        """pairs: (module, name, stand-in)"""
        self.pairs = [(m, n, getattr(m, n), new) for m, n, new in pairs]

    def __enter__(self):
        self.undo = []
        places = [vars(m) for k, m in list(sys.modules.items()) if k.split('.')[0] == 'impactutils' and m is not None]
        for m, n, real, new in self.pairs:
            for d in places:
                for k, v in list(d.items()):
                    if v is real:
                        d[k] = new
                        self.undo.append((d, k, real))
            setattr(m, n, new)
        return self

    def __exit__(self, *a):
        for m, n, real, new in self.pairs:
            setattr(m, n, real)
        for d, k, real in self.undo:
            d[k] = real
