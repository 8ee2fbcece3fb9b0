"""T09: the PDL command line, observed as the argument vector of the program really executed."""
import collections
import copy
import datetime
import itertools
import os
from mc.core import Violation
from mc.fsutil import CaseDir, write, snapshot, CONTENT
from impactutils.exceptions import PDLError
from impactutils.transfer.factory import get_sender_class

LEVEL = 'model_checking'
RULE = ('(a) all 32 subsets of optional values x product property sets x file/directory choice x send/cancel; (b) every '
        'configured position x every special string (quotes, metacharacters, placeholder-like text, newline, Unicode), '
        'pairs of positions with placeholder texts; (c) every product property type/value, a value of 22 kB, 300 product properties; (d) histories of send/cancel '
        'of depth 3 with command outcomes (success, 7 failure kinds, binary output) at every step. The argument vector is '
        'recorded by the executed program and compared as a multiset of options with the reference.')
ASSUMPTIONS = ['the command is run through the POSIX shell of the sandbox', 'event times from year 1000 on']
REQ = ['jarfile', 'privatekey', 'configfile', 'source', 'type', 'code', 'eventsource', 'eventsourcecode']
OPT = ['latitude', 'longitude', 'depth', 'magnitude', 'eventtime']
T1 = datetime.datetime(2016, 2, 29, 23, 59, 59, 999999)
OVALS = [{'latitude': 34.05004, 'longitude': -118.25006, 'depth': 10.04, 'magnitude': 7.15, 'eventtime': T1},
         {'latitude': -90, 'longitude': 180.0, 'depth': 0, 'magnitude': -0.5, 'eventtime': datetime.datetime(1999, 12, 31)},
         {'latitude': 0.00005, 'longitude': -0.00004, 'depth': 699.96, 'magnitude': 9, 'eventtime': datetime.datetime(2020, 1, 1, 0, 0, 0, 1000)}]
SPECIAL = ['plain', '', 'a b', ' lead', "it's", 'q"q', '$HOME', '`id`', '$(id)', 'a;b', 'a|b', 'a&b', 'a>b', 'a*b?', '[abc]', '[FILE]',
           '[DIRECTORY]', '[PRODUCT_PROPERTIES]', '[OPTIONAL_PROPERTIES]', '[TYPE]', '[STATUS]', '[SOURCE]', '[CODE]', '[EVENTSOURCECODE]',
           'back\\slash', '\\n', 'new\nline', 'tab\t', '#x', '~', '!x', '{a,b}', '%s%d', "''", '[', ']', "['", 'é ж', '-x', '--file=x', 'a=b']
PPV = [('i', 5), ('ineg', -7), ('big', 10**12), ('bool', True), ('f', 1.23456), ('f0', 0.0), ('fneg', -1e-5), ('finf', float('inf')),
       ('dt', T1), ('dt0', datetime.datetime(2001, 2, 3, 4, 5, 6, 789)), ('none', None), ('list', [1, 'a b']), ('s', 'x y'),
       ('long', 'word "x" ' * 2500)]
PSETS = [None, {}, {'one': 'x'}, {'one': 'x y', 'two': 3, 'three': 2.5, 'four': T1}]
MANY = {'key%03d' % i: 'value %d' % i if i % 3 else i for i in range(300)}
FILES = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (2, 1)]
OUT = ['ok', 'rc1', 'rc255', 'kill', 'missing', 'noexec', 'binary', 'stderr', 'big', 'rc1big']


def cases(tier):
    q = tier == 'quick'
    for k in range(6):
        for sub in itertools.combinations(range(5), k):
            for ps in range(len(PSETS)):
                for fi in range(len(FILES)):
                    if q and (ps + fi + k) % 2 and fi > 1:
                        continue
                    for op in 'sc':
                        for ov in (range(3) if not q else [(k + ps) % 3]):
                            yield {'opt': list(sub), 'ov': ov, 'ps': ps, 'files': fi, 'h': [[op, 'ok']]}
    for pos in REQ + ['pkey', 'pval', 'fname', 'dname', 'java']:
        for sp in range(len(SPECIAL)):
            for op in 'sc':
                yield {'special': [[pos, sp]], 'h': [[op, 'ok']]}
    ph = [i for i, s in enumerate(SPECIAL) if s.startswith('[')]
    poss = ['source', 'type', 'code', 'pval', 'fname', 'eventsourcecode'] if q else REQ + ['pkey', 'pval', 'fname', 'dname']
    for p1, p2 in itertools.permutations(poss, 2):
        for a, b in itertools.product(ph, ph[:6]):
            if q and (a + b) % 2:
                continue
            yield {'special': [[p1, a], [p2, b]], 'h': [['s', 'ok']]}
    for op in 'sc':
        yield {'many': 1, 'files': 3, 'h': [[op, 'ok']]}
    for i in range(len(PPV)):
        for op in 'sc':
            yield {'ppv': [i], 'h': [[op, 'ok']]}
    for i, j in itertools.combinations(range(len(PPV)), 2):
        yield {'ppv': [i, j], 'h': [['s', 'ok']]}
    steps = [[o, r] for o in 'sc' for r in OUT]
    for n in (1, 2):
        for h in itertools.product(steps, repeat=n):
            yield {'opt': [0, 4], 'ps': 3, 'files': 3, 'h': list(h)}
    small = [[o, r] for o in 'sc' for r in ('ok', 'rc1', 'binary')]
    for n in ((3,) if q else (3, 4)):
        for h in itertools.product(small, repeat=n):
            yield {'opt': [1, 2], 'ps': 3, 'files': 3, 'h': list(h)}


def fmt_time(t):
    return '%04d-%02d-%02dT%02d:%02d:%02d.%03d' % (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond // 1000)


def run(case, ctx):
    with CaseDir(ctx) as cwd:
        one(case, ctx, cwd)


def one(case, ctx, cwd):
    props = {'jarfile': cwd + '/p.jar', 'privatekey': 'priv.key', 'configfile': 'cfg.ini', 'source': 'us', 'type': 'shakemap',
             'code': 'us2008abcd', 'eventsource': 'us', 'eventsourcecode': '2008abcd'}
    pp = copy.deepcopy(PSETS[case.get('ps', 0)])
    nf, nd = FILES[case.get('files', 1)]
    fname, dname, java = 'in/file 1.xml', 'dir', 'prog'
    pkey, pval = None, 'v'
    for pos, sp in case.get('special', []):
        v = SPECIAL[sp]
        if pos in REQ:
            props[pos] = v
        elif pos == 'pkey':
            pkey = v
        elif pos == 'pval':
            pkey, pval = pkey or 'key', v
        elif pos == 'fname':
            fname = 'in/f' + v
        elif pos == 'dname':
            nd, dname = 1, 'dd' + v
        else:
            java = 'pr' + v
    if case.get('many'):
        pp = dict(MANY)
    if pkey is not None:
        pp = {pkey: pval}
    for i in case.get('ppv', []):
        pp = pp or {}
        pp[PPV[i][0]] = PPV[i][1]
    for i in case.get('opt', []):
        props[OPT[i]] = OVALS[case.get('ov', 0)][OPT[i]]
    props['java'] = cwd + '/' + java
    kw = {}
    if nf:
        write(fname, CONTENT['text'])
        kw['local_files'] = [fname]
        if nf == 2:
            write('in/second', CONTENT['text'])
            kw['local_files'].append(fname if nd else 'in/second')
    nfiles = 1 if nf else 0
    if nd:
        write(dname + '/a', b'a')
        write(dname + '/sub/b', b'b')
        nfiles += 2
        kw['local_directory'] = dname
    if pp is not None:
        kw['product_properties'] = pp
    orig = copy.deepcopy((props, pp, kw.get('local_files')))
    s = get_sender_class('pdl')(properties=props, **kw)
    want = collections.Counter(['--send', '-jar', props['jarfile']])
    for k, o in (('source', 'source'), ('type', 'type'), ('code', 'code'), ('eventsource', 'eventsource'),
                 ('eventsourcecode', 'eventsourcecode'), ('privatekey', 'privateKey'), ('configfile', 'configFile')):
        want['--%s=%s' % (o, props[k])] += 1
    for k in OPT:
        if k in props:
            want['--%s=' % k + (fmt_time(props[k]) + 'Z' if k == 'eventtime' else
                                '%.*f' % (4 if k in ('latitude', 'longitude') else 1, props[k]))] += 1
    for k, v in (pp or {}).items():
        t = fmt_time(v) if isinstance(v, datetime.datetime) else '%.4f' % v if isinstance(v, float) else \
            '%d' % v if isinstance(v, int) else str(v)
        want['--property-%s=%s' % (k, t)] += 1
    if nf:
        want['--file=' + fname] += 1
    if nd:
        want['--directory=' + dname] += 1
    body = {'ok': 'printf "sent %s" ok', 'rc1': 'echo out; echo err >&2; exit 1', 'rc255': 'exit 255', 'kill': 'kill -9 $$',
            'binary': "printf '\\377\\376 \\303'; exit 0", 'stderr': 'echo warn >&2; exit 0',
            'big': 'head -c 200000 /dev/zero | tr "\\0" x; exit 0', 'rc1big': 'head -c 200000 /dev/zero | tr "\\0" x >&2; exit 3'}
    for step, (op, out) in enumerate(case['h']):
        rec = cwd + '/rec'
        if os.path.exists(rec):
            os.unlink(rec)
        if os.path.exists(props['java']):
            os.unlink(props['java'])
        if out in body:
            write(props['java'], ("#!/bin/sh\nprintf '%%s\\0' \"$@\" '' >> '%s'\nprintf '\\n' >> '%s'\n%s\n" % (rec, rec, body[out])).encode(), 0o755)
        elif out == 'noexec':
            write(props['java'], b'#!/bin/sh\n', 0o644)
        ctx.op()
        what = 'step %d (%s, command %s)' % (step + 1, {'s': 'send', 'c': 'cancel'}[op], out)
        err = ret = None
        try:
            ret = s.send() if op == 's' else (s.cancel() if step % 2 else s.cancel(cancel_content='x'))
        except PDLError as e:
            err = e
        fail = out in ('rc1', 'rc255', 'kill', 'missing', 'noexec', 'rc1big')
        ctx.check((props, pp, kw.get('local_files')) == orig, '%s changed the configuration objects' % what)
        if nf == 2 and op == 's':
            ctx.check(err is not None, '%s accepted a second file' % what)
            ctx.check(not os.path.exists(rec), '%s ran the command although it refused' % what)
            continue
        ctx.check((err is not None) == fail, '%s %s' % (what, 'failed: %s' % err if err else 'reported success'))
        if out in body:
            runs = open(rec, 'rb').read().split(b'\0\0\n') if os.path.exists(rec) else ['']
            ctx.check(len(runs) == 2, '%s executed the program %d times' % (what, len(runs) - 1))
            argv = [a.decode() for a in runs[0].split(b'\0')]
            w = dict(want)
            w['--status=' + ('UPDATE' if op == 's' else 'DELETE')] = 1
            got = dict(collections.Counter(argv))
            if got != w:
                raise Violation('%s: arguments %r missing, %r unexpected' % (
                    what, sorted(k for k in w if got.get(k) != w[k]), sorted(k for k in got if got[k] != w.get(k))))
            ctx.check(argv[argv.index('-jar') + 1] == props['jarfile'], '%s: -jar is not followed by the archive' % what)
            ctx.state(sorted(w))
        else:
            ctx.check(not os.path.exists(rec), '%s ran something' % what)
        if err is None:
            exp = {'ok': 'sent ok', 'stderr': '', 'binary': ' ', 'big': 'x' * 1000}.get(out, '')
            if op == 's':
                ctx.check(ret[0] == nfiles, '%s reported %r files, %d were sent' % (what, ret[0], nfiles))
                ctx.check(exp in ret[1], '%s: output of the command not reported: %r' % (what, ret[1][:200]))
            else:
                t = ret.decode('utf-8', 'replace') if isinstance(ret, bytes) else ret
                ctx.check(exp in t, '%s: output of the command not reported: %r' % (what, t[:200]))
        ctx.outcome((op, out, err is None))
