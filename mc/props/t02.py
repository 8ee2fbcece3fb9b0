"""T02: crash and fault atomicity of a copy send (all crash points, all single/double I/O faults)."""
import json
import os
import subprocess
import sys
from mc.core import Violation, explore
from mc.fsutil import CaseDir, write, snapshot, diff, CONTENT

LEVEL = 'fault_enumeration'
RULE = ('for every scenario (sources x prior destination content) every file-system call made by the send is '
        'a numbered point; at each point every answer is taken: success, error, kill before the call, and '
        'for data calls kill or disk-full after half of the data (bound: 1 deviation quick, 2 for a single file and thorough). '
        'Distinct = distinct destination trees observed after the fault.')
ASSUMPTIONS = ['process crash, not power loss: data written before the kill is durable',
               'libc file calls are the only way the send touches the file system (LD_PRELOAD interposition)']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OLD = b'previous version of this file, of another length'
TREES = [{}, {'a.txt': 'text'}, {'a.txt': 'text', 'sub/b': 'big'}, {'sub/x/c.bin': 'bin', 'sub/d': 'empty'}]
LISTED = [[], ['f1.txt'], ['f1.txt', 'f2']]
FC = {'f1.txt': 'bin', 'f2': 'big'}


def cases(tier):
    for t in range(len(TREES)):
        for l in range(len(LISTED)):
            if not TREES[t] and not LISTED[l]:
                continue
            for prior in ('none', 'old', 'oldcancel'):
                yield [t, l, prior]


_proc = None


def setup(tier):
    global _proc
    so = os.path.join(os.getcwd(), 'fi.so')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', so, os.path.join(HERE, 'fi', 'fi.c'), '-ldl'],
                   check=True)
    env = dict(os.environ, LD_PRELOAD=so)
    _proc = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(HERE, 'fi', 'child.py')], env=env,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE)


def ask(**req):
    _proc.stdin.write((json.dumps(req) + '\n').encode())
    _proc.stdin.flush()
    line = _proc.stdout.readline()
    if not line:
        raise Violation('sending process died')
    res = json.loads(line)
    if 'HARNESS' in res.get('err', ''):
        raise Violation('send could not be set up: ' + res['err'])
    return res


NANS = {'M': 3, 'R': 3, 'D': 5}


def run(case, ctx):
    t, l, prior = case
    # two deviations also in the quick tier where only one file is sent
    bound = 1 if ctx.quick and len(TREES[t]) + len(LISTED[l]) > 1 else 2

    def body(ch):
        with CaseDir(ctx) as cwd:
            sent, kw = {}, {}
            if TREES[t]:
                for rel, c in TREES[t].items():
                    write('src/' + rel, CONTENT[c])
                    sent[rel] = CONTENT[c]
                kw['local_directory'] = cwd + '/src'
            for f in LISTED[l]:
                write('in/' + f, CONTENT[FC[f]])
                sent[f] = CONTENT[FC[f]]
                kw.setdefault('local_files', []).append(cwd + '/in/' + f)
            before = {}
            if prior != 'none':
                os.mkdir('out')
                before = {k: OLD + k.encode() for k in sent}
                before['keep'] = b'unrelated'
                if prior == 'oldcancel':
                    before['.cancel'] = b'cancelled'
                for k, v in before.items():
                    write('out/' + k, v)
            src = {k: v for k, v in snapshot('.').items() if not k.startswith('out/')}
            res = ask(op='send', cwd=cwd, remote=cwd + '/out', kw=kw, plan=ch.prefix)
            for i, kind in enumerate(res['log']):
                ch.choose(NANS[kind], '%d%s' % (i, kind))
            ctx.op(len(res['log']))
            ctx.traces += 1
            ctx.check(len(res['log']) > 0, 'no file-system call was observed during the send')

            def inspect(stage, complete):
                snap = snapshot('.')
                now = {k[4:]: v for k, v in snap.items() if k.startswith('out/')}
                for k, v in src.items():
                    ctx.check(snap.get(k) == v, '%s: source %r changed' % (stage, k))
                for k, v in sent.items():
                    g = now.get(k)
                    if g == v:
                        continue
                    if not complete and (g is None and k not in before or g is not None and g == before.get(k)):
                        continue
                    raise Violation('%s: %r at the destination is neither the previous nor the complete new '
                                    'file (%s)' % (stage, k, 'absent' if g is None else '%d bytes' % len(g)))
                ctx.check(now.get('keep') == before.get('keep'), '%s: unrelated file changed' % stage)
                return now
            if res.get('ok'):
                now = inspect('send returned success', True)
                ctx.check(res['n'] == len(sent), 'send returned success with count %r for %d files' % (res['n'], len(sent)))
                if not ch.deviations:
                    extra = set(now) - set(sent) - {'keep'}
                    ctx.check(not extra, 'left over at destination: %r' % sorted(extra))
            else:
                if not ch.deviations:
                    raise Violation('send failed without any fault: %r' % res.get('err'))
                ctx.count('killed' if 'killed' in res else 'raised')
                now = inspect('send %s' % ('killed' if 'killed' in res else 'raised ' + res['err']), False)
            ctx.state((prior, sorted((k, len(v)) for k, v in now.items() if '.tmp' not in k), len(now)))
            ctx.outcome((res.get('ok'), 'killed' in res, (res.get('err') or '')[:20]))
            if not res.get('ok'):
                # recovery: the same send, no faults
                r2 = ask(op='send', cwd=cwd, remote=cwd + '/out', kw=kw, plan=[])
                ctx.op(len(r2['log']))
                ctx.check(r2.get('ok'), 're-send after the fault failed: %r' % (r2,))
                inspect('re-send after the fault', True)
                ctx.check(r2['n'] == len(sent), 're-send count %r' % r2['n'])
    explore(body, bound)
