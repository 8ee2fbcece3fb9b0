"""T10: command runner."""
import contextlib
import itertools
import os
import subprocess
import time
from mc.core import Violation
from mc.fsutil import CaseDir, write
from impactutils.io.cmd import get_command_output

LEVEL = 'exploration'
RULE = ('all exit statuses 0..255 x output on no/one/both streams; all catchable terminating signals; all pairs of output sizes around '
        'the pipe buffer (0..200000 bytes, also 5 MB) on stdout and stderr in every order/interleaving pattern x success/failure; every '
        'byte value; missing, unexecutable and malformed commands; delayed completion, also for hours by the '
        'clock of the runner; texts that look like errors on either stream with every exit status. Distinct = distinct (result, sizes).')
ASSUMPTIONS = ['commands are run through the POSIX shell of the sandbox']
SIZES = [0, 1, 4095, 4096, 65535, 65536, 65537, 200000]
SIGS = [1, 2, 3, 4, 6, 8, 9, 11, 13, 14, 15]
BAD = ['/nonexistent/prog', 'no_such_command_xyz arg', './noexec', './adir', "echo 'unterminated", 'false', 'if', ')', 'exec 2>&1; nosuch',
       'cat nofile', 'true && false', 'false | false']
WORDS = ['Error: no', 'error', 'ERROR', 'Traceback (most recent call last):', 'Exception in thread "main"', 'FAILED', 'fatal: x',
         'success', 'OK', 'warning: x', 'usage: x', 'command not found', 'No such file or directory', 'Killed', '0', '1', ' ', 'BUILD FAILURE']
GOOD = ['true', ':', '', 'false || true', 'false; true', '(exit 0)', 'echo "a b" | tr a-z A-Z', "printf '%s' \"$0\" >/dev/null", 'exit']


def cases(tier):
    for rc in range(256):
        for st in range(4):
            yield ['rc', rc, st]
    for s in SIGS:
        for st in range(4):
            yield ['sig', s, st]
    for a, b in itertools.product(SIZES, SIZES):
        for order in ('oe', 'eo', 'mix', 'par'):
            for rc in (0, 3):
                yield ['out', a, b, order, rc]
    for a, b in ((5000000, 0), (0, 5000000), (5000000, 3000000)):
        for order in ('oe', 'eo', 'mix', 'par'):
            yield ['out', a, b, order, 0]
    for n in (1000, 4096, 10000, 60000, 120000):
        for rc in (0, 3):
            yield ['longcmd', n, rc]
    yield ['bytes', 0]
    yield ['bytes', 1]
    for i in range(len(BAD)):
        yield ['bad', i]
    for i in range(len(GOOD)):
        yield ['good', i]
    for rc in (0, 1):
        for mode in ('sleep', 'closeout', 'stdin'):
            yield ['late', rc, mode]
    # what is written says nothing about success
    for i in range(len(WORDS)):
        for st in range(4):
            for rc in (0, 1, 2, 127):
                yield ['word', i, st, rc]
    # patience: the clock of the runner says that hours pass while the command goes on writing
    for rc in (0, 1):
        for st in (1, 2, 3):
            yield ['hours', rc, st]
    if tier == 'thorough':
        for a in list(range(65500, 65600, 7)) + list(range(131060, 131090, 3)):
            for b in (0, 65536, a):
                for order in ('oe', 'eo', 'mix', 'par'):
                    for rc in (0, 1, 255):
                        yield ['out', a, b, order, rc]


@contextlib.contextmanager
def fast_clock():
    # one second counts as ten hours for whoever sets a deadline
    real, t0 = time.monotonic, time.monotonic()
    fast = lambda: t0 + (real() - t0) * 36000.0  # noqa
    saved = [(m, n, getattr(m, n)) for m, n in ((subprocess, '_time'), (time, 'monotonic')) if hasattr(m, n)]
    try:
        for m, n, _ in saved:
            setattr(m, n, fast)
        yield
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


def run(case, ctx):
    with CaseDir(ctx) as cwd:
        one(case, ctx, cwd)


def call(ctx, cmd):
    ctx.op()
    try:
        r = get_command_output(cmd)
    except Exception as e:
        raise Violation('running %r raised %s: %s' % (cmd, type(e).__name__, e))
    ctx.check(isinstance(r, tuple) and len(r) == 3, 'result is %r' % (r,))
    ctx.check(r[0] is True or r[0] is False, 'success flag is %r' % (r[0],))
    ctx.check(isinstance(r[1], bytes) and isinstance(r[2], bytes), 'outputs are not bytes')
    ctx.outcome((r[0], len(r[1]), len(r[2])))
    ctx.state((r[0], len(r[1]), len(r[2]), r[1][:20], r[2][:20]))
    return r


def one(case, ctx, cwd):
    k = case[0]
    pre = {0: '', 1: 'echo out;', 2: 'echo err >&2;', 3: 'echo err >&2; echo out;'}
    ex = {0: (b'', b''), 1: (b'out\n', b''), 2: (b'', b'err\n'), 3: (b'out\n', b'err\n')}
    if k == 'rc':
        ctx.equal(call(ctx, pre[case[2]] + 'exit %d' % case[1]), (case[1] == 0,) + ex[case[2]], 'exit %d' % case[1])
    elif k == 'sig':
        r = call(ctx, pre[case[2]] + 'kill -%d $$' % case[1])
        ctx.equal(r[:2] + (r[2][:4],), (False,) + (ex[case[2]][0], ex[case[2]][1][:4]), 'signal %d' % case[1])
    elif k == 'out':
        _, a, b, order, rc = case
        # two different non-constant patterns
        pa = bytes((i * 31 + 7) % 253 for i in range(a))
        pb = bytes((i * 17 + 3) % 251 for i in range(b))
        write('oa', pa)
        write('ob', pb)
        if order == 'oe':
            cmd = 'cat oa; cat ob >&2; exit %d' % rc
        elif order == 'eo':
            cmd = 'cat ob >&2; cat oa; exit %d' % rc
        elif order == 'par':
            cmd = 'cat oa & cat ob >&2; wait; exit %d' % rc
        else:
            ha, hb = a // 2, b // 2
            cmd = ('head -c %d oa; head -c %d ob >&2; tail -c +%d oa; tail -c +%d ob >&2; exit %d' %
                   (ha, hb, ha + 1, hb + 1, rc))
        r = call(ctx, cmd)
        ctx.check(r[0] is (rc == 0), 'exit %d reported as %r' % (rc, r[0]))
        ctx.check(r[1] == pa, 'stdout: %d bytes instead of %d (or altered)' % (len(r[1]), a))
        ctx.check(r[2] == pb, 'stderr: %d bytes instead of %d (or altered)' % (len(r[2]), b))
    elif k == 'bytes':
        allb = bytes(range(256)) + b'\r\n\r\n' + bytes(range(255, -1, -1))
        write('b', allb)
        r = call(ctx, 'cat b' if case[1] == 0 else 'cat b >&2; false')
        ctx.equal(r, (True, allb, b'') if case[1] == 0 else (False, b'', allb), 'all byte values')
    elif k == 'bad':
        write('noexec', b'#!/bin/sh\necho ran\n', 0o644)
        os.mkdir('adir')
        r = call(ctx, BAD[case[1]])
        ctx.check(r[0] is False, '%r reported as success' % BAD[case[1]])
        if 'false' not in BAD[case[1]]:
            ctx.check(r[2] or r[1], '%r: error text lost' % BAD[case[1]])
    elif k == 'good':
        r = call(ctx, GOOD[case[1]])
        ctx.check(r[0] is True, '%r reported as failure' % GOOD[case[1]])
    elif k == 'longcmd':
        w = 'w' * case[1]
        ctx.equal(call(ctx, 'printf %%s %s; exit %d' % (w, case[2])), (case[2] == 0, w.encode(), b''), 'command of %d characters' % case[1])
    elif k == 'word':
        _, i, st, rc = case
        write('w', (WORDS[i] + '\n').encode())
        r = call(ctx, ('cat w;' if st & 1 else '') + ('cat w >&2;' if st & 2 else '') + 'exit %d' % rc)
        w = (WORDS[i] + '\n').encode()
        ctx.equal(r, (rc == 0, w if st & 1 else b'', w if st & 2 else b''), 'output %r, exit %d' % (WORDS[i], rc))
    elif k == 'hours':
        _, rc, st = case
        w = ('echo tick;' if st & 1 else '') + ('echo tick >&2;' if st & 2 else '')
        with fast_clock():
            r = call(ctx, 'for i in 1 2 3 4; do %s sleep 0.25; done; echo x > done; exit %d' % (w, rc))
        ctx.check(os.path.exists('done'), 'returned before the command ended')
        t = b'tick\n' * 4
        ctx.equal(r, (rc == 0, t if st & 1 else b'', t if st & 2 else b''), 'command of several hours')
    else:
        _, rc, mode = case
        cmd = {'sleep': 'sleep 0.3; echo late; echo x > done; exit %d', 'closeout': 'exec >&- 2>&-; sleep 0.3; echo x > done; exit %d',
               'stdin': 'head -c 0 >/dev/null; sleep 0.2; echo late; echo x > done; exit %d'}[mode] % rc
        r = call(ctx, cmd)
        ctx.check(os.path.exists('done'), 'returned before the command ended (%s)' % mode)
        ctx.equal(r, (rc == 0, b'' if mode == 'closeout' else b'late\n', b''), 'late command')
