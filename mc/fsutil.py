"""Small helpers to build and observe directory trees inside a scratch directory."""
import os
import shutil
import itertools


def write(path, data, mode=None):
    d = os.path.dirname(path)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)
    if mode is not None:
        os.chmod(path, mode)


def snapshot(root):
    """{relative path: bytes} of every regular file below root (symlinks: target text)."""
    out = {}
    for base, dirs, files in os.walk(root):
        for f in files:
            p = os.path.join(base, f)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = b'-> ' + os.readlink(p).encode()
            else:
                with open(p, 'rb') as fh:
                    out[rel] = fh.read()
    return out


_n = itertools.count()


class CaseDir(object):
    """Fresh directory, cwd inside it, removed at the end."""

    def __init__(self, ctx):
        self.base = ctx.scratch

    def __enter__(self):
        self.path = os.path.join(self.base, 'c%d' % next(_n))
        os.mkdir(self.path)
        os.chdir(self.path)
        return self.path

    def __exit__(self, *a):
        os.chdir(self.base)
        shutil.rmtree(self.path, ignore_errors=True)


def diff(got, want):
    """Human-readable difference of two snapshots, or ''."""
    out = []
    for k in sorted(set(got) | set(want)):
        if k not in got:
            out.append('missing %r' % k)
        elif k not in want:
            out.append('unexpected %r (%d bytes)' % (k, len(got[k])))
        elif got[k] != want[k]:
            out.append('content of %r differs (%d bytes, expected %d)' % (k, len(got[k]), len(want[k])))
    return '; '.join(out)


CONTENT = {
    'text': b'line one\nline two\n',
    'crlf': b'a\r\nb\r\n\r\n',
    'empty': b'',
    'bin': bytes(range(256)) * 3 + b'\x00\x1a\xff\n',
    'big': bytes((i * 7 + 3) % 251 for i in range(70001)),
    'nonl': b'no newline at end',
    'huge': b''.join(b'%08d' % i for i in range(400000)),
}


def large_tree(files=60, dirs=30, depth=25, huge=True):
    """Relative names -> content names: many files, many directories, deep nesting, long names, a large file."""
    out = {}
    for i in range(files):
        out['many/m%02d' % i] = 'nonl'
    for i in range(dirs):
        out['dirs/x%02d/f' % i] = 'text'
    for i in range(1, depth):
        out['/'.join('n%d' % j for j in range(i)) + '/leaf%d' % i] = 'crlf'
    out['long/' + 'n' * 170 + '.one'] = 'bin'
    out['long/' + 'n' * 170 + '.two'] = 'text'
    out['l' * 170 + '/x'] = 'big'
    if huge:
        out['huge.bin'] = 'huge'
    return out
