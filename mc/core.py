"""Core of the bounded model checker.

A property module (mc/props/<id>.py) provides

    LEVEL, RULE, ASSUMPTIONS      text for the evidence file
    cases(tier)                   generator of JSON-able cases, simplest first; the
                                  enumeration is a complete product / tree, never sampled
    run(case, ctx)                executes ONE case on the real code under /repo and
                                  compares every observation with the reference model;
                                  raises Violation.  May itself walk a tree of environment
                                  answers (ctx.choices) for that case.
    setup(tier) [optional]        once per process

The driver runs every case (in fork()ed workers), counts states / transitions / traces,
writes the evidence file and, for a violation, a replay file.
"""
import collections
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, key=None, case=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key
        self.case = case


class Stop(Exception):
    """Raised to end a run early (time cap)."""


class CaseTimeout(BaseException):
    """Raised by the watchdog inside code that does not come back."""


def digest(obj):
    return hashlib.blake2b(repr(obj).encode('utf-8', 'surrogateescape'), digest_size=8).digest()


class Ctx(object):
    """Per-process counters. states: distinct canonical states seen; transitions: operations
    executed on the real code; traces: complete executions compared with the model."""

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = set()
        self.extra = collections.Counter()
        self.case = None
        self.scratch = None

    @property
    def quick(self):
        return self.tier == 'quick'

    def op(self, n=1):
        self.transitions += n

    def state(self, obj):
        self.states.add(digest(obj))

    def outcome(self, obj):
        self.outcomes.add(digest(obj))

    def count(self, name, n=1):
        self.extra[name] += n

    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg, key=key)

    def equal(self, got, want, what, key=None):
        if not same(got, want):
            raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)), key=key)


def same(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape:
            return False
        try:
            return bool(np.array_equal(a, b, equal_nan=True))
        except TypeError:
            return bool(np.array_equal(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


LIMIT = 0


START = (0.0, 0.0)
_mono, _times = time.monotonic, os.times


def _cpu():
    t = _times()
    return t.user + t.system + t.children_user + t.children_system


def arm(limit):
    """start the clock of one execution"""
    global START
    START = (_mono(), _cpu())
    signal.setitimer(signal.ITIMER_REAL, limit, 1.0)


def _alarm(signum, frame):
    # on a busy machine the wall clock says little: an execution has used up its limit when it had that much processor time, or
    # three times as much wall time (it sleeps, or waits for something that does not come)
    if _cpu() - START[1] < 0.9 * LIMIT and _mono() - START[0] < 3 * LIMIT:
        return
    raise CaseTimeout()


def guarded(mod, case, ctx, limit):
    """Run one case; anything that is not a clean return is a Violation."""
    global LIMIT
    LIMIT = limit
    ctx.case = case
    arm(limit)
    try:
        mod.run(case, ctx)
    except Violation as v:
        if v.case is None:
            v.case = case
        raise
    except CaseTimeout:
        raise Violation('no termination within %d s' % limit, key='timeout', case=case)
    except (KeyboardInterrupt, Stop):
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        raise Violation('unexpected %s: %s\n%s' % (type(e).__name__, e, tb[-3000:]),
                        key='exc:' + type(e).__name__, case=case)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


# --------------------------------------------------------------------------------------
# Choice tree: deterministic replay of environment answers (faults), default answer 0.
class Choices(object):
    """choose(n) returns 0 (the default environment answer) unless the prefix says otherwise;
    explore() walks every leaf with at most `bound` non-default answers."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []          # (n, chosen, label)

    def choose(self, n, label=''):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise Violation('replay diverged: choice %d of %d at point %d (%s)' % (c, n, i, label),
                            key='diverged')
        self.trace.append((n, c, label))
        return c

    @property
    def taken(self):
        return [c for _, c, _ in self.trace]

    @property
    def deviations(self):
        return sum(1 for _, c, _ in self.trace if c)


def explore(body, bound=1, maxlen=10000):
    """body(choices) executes once. Yields nothing; body raises on violation.
    Depth-first over all choice sequences with <= bound deviations from the default."""
    n = 0
    stack = [[]]
    while stack:
        prefix = stack.pop()
        ch = Choices(prefix)
        if LIMIT:
            arm(LIMIT)   # the limit is per execution
        try:
            body(ch)
        except Violation as v:
            v.msg = 'environment answers %s: %s' % (
                [(l, c) for _, c, l in ch.trace if c] or 'all default', v.msg)
            v.args = (v.msg,)
            raise
        n += 1
        if len(ch.trace) < len(prefix):
            raise Violation('replay diverged: shorter trace than its prefix %r' % (prefix,),
                            key='diverged')
        taken = ch.taken
        for i in range(len(ch.trace) - 1, len(prefix) - 1, -1):
            dev = sum(1 for c in taken[:i] if c) + 1
            if dev > bound:
                continue
            for alt in range(1, ch.trace[i][0]):
                stack.append(taken[:i] + [alt])
    return n


# --------------------------------------------------------------------------------------
def load_known():
    """known_findings.txt: 'known: property=<id> key=<key> <text>' suppresses that key only;
    'fixed: ...' lines are documentation."""
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: '):
                parts = line[len('known: '):].split(None, 2)
                pid = parts[0].split('=', 1)[1]
                key = parts[1].split('=', 1)[1]
                known[(pid, key)] = parts[2] if len(parts) > 2 else ''
    return known


def enter_scratch(idx, unpriv):
    """Own scratch directory per worker; drop root so that an escaped call of changed code
    can reach nothing real."""
    import tempfile
    base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
    d = os.path.join(base, 'w%d' % idx)
    os.makedirs(d, exist_ok=True)
    if unpriv and os.geteuid() == 0:
        try:
            os.chown(d, 65534, 65534)
            os.setgroups([])
            os.setresgid(65534, 65534, 65534)
            os.setresuid(65534, 65534, 65534)
        except OSError:
            pass
    os.chdir(d)
    os.environ['TMPDIR'] = os.environ['HOME'] = d
    tempfile.tempdir = d
    return d


def worker(mod, caselist, idx, n, ctx, deadline, limit, known, pid, wfd, found):
    """Runs cases idx, idx+n, ...; writes one JSON summary to wfd. 'found' (shared memory) holds the lowest
    case number that failed so far: later cases need not be run any more."""
    res = {'viol': None, 'known': {}, 'done': 0, 'capped': False}
    signal.signal(signal.SIGALRM, _alarm)
    try:
        # changed code may allocate without end: fail here, in this worker, not in the whole sandbox
        cap = 3 << 30
        resource.setrlimit(resource.RLIMIT_AS, (cap, cap))
        ctx.scratch = enter_scratch(idx, getattr(mod, 'UNPRIV', True))
        if hasattr(mod, 'setup'):
            mod.setup(ctx.tier)
        for i in range(idx, len(caselist), n):
            if time.time() > deadline:
                res['capped'] = True
                break
            if i > int.from_bytes(found[:8], 'little'):
                break
            before = ctx.traces
            try:
                guarded(mod, caselist[i], ctx, limit)
            except Violation as v:
                k = (pid, v.key)
                if v.key and k in known:
                    res['known'][v.key] = v.msg[:500]
                else:
                    res['viol'] = [i, v.msg, v.key, v.case]
                    if i < int.from_bytes(found[:8], 'little'):
                        found[:8] = i.to_bytes(8, 'little')
                    break
            if ctx.traces == before:     # a case that is a whole tree counts its own executions
                ctx.traces += 1
            res['done'] += 1
    except BaseException as e:
        res['viol'] = [idx, 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:]),
                       'harness', None]
    res.update(transitions=ctx.transitions, traces=ctx.traces,
               states=[s.hex() for s in ctx.states], outcomes=[s.hex() for s in ctx.outcomes],
               extra=dict(ctx.extra))
    data = json.dumps(res, default=repr).encode()
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)


def main(argv):
    for sig in (signal.SIGINT, signal.SIGQUIT, signal.SIGHUP, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGCHLD):
        signal.signal(sig, signal.SIG_DFL)     # whatever the caller (nohup, background job) set
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    os.umask(0o022)
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    for a in argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--replay='):
            replay = a.split('=', 1)[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET', 600 if tier == 'quick' else 5400))
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)

    viol = None
    mod = None
    ctx = Ctx(tier, seed)
    known = load_known()
    knownhit = {}
    capped = False
    caselist = []
    merged = dict(transitions=0, traces=0, states=set(), outcomes=set(), extra=collections.Counter())
    real_stdout = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    try:
        import importlib
        os.dup2(devnull, 1)      # the code under test prints; keep our stdout clean
        if not os.environ.get('VERIF_DEBUG'):
            os.dup2(devnull, 2)
        import warnings
        warnings.simplefilter('ignore')
        import logging
        logging.disable(logging.CRITICAL)
        mod = importlib.import_module('mc.props.' + pid.lower())
        limit = getattr(mod, 'CASE_LIMIT', 120)
        if replay:
            caselist = [json.load(open(replay))['case']]
            tier = ctx.tier = json.load(open(replay)).get('tier', tier)
        else:
            caselist = list(mod.cases(tier))
        nproc = 1 if replay else min(getattr(mod, 'NPROC', 8), max(1, len(caselist)), os.cpu_count() or 1)
        kids = []
        import mmap
        found = mmap.mmap(-1, 8)
        found[:8] = b'\xff' * 7 + b'\x7f'
        for w in range(nproc):
            r, wfd = os.pipe()
            p = os.fork()
            if p == 0:
                os.close(r)
                try:
                    worker(mod, caselist, w, nproc, ctx, t0 + budget, limit, known, pid, wfd, found)
                finally:
                    os._exit(0)
            os.close(wfd)
            kids.append((p, r))
        import selectors
        bufs = {r: b'' for _, r in kids}
        sel = selectors.DefaultSelector()
        for _, r in kids:
            sel.register(r, selectors.EVENT_READ)
        hard = t0 + budget + 2 * limit
        live = len(kids)
        while live:
            ev = sel.select(timeout=5)
            for key, _ in ev:
                b = os.read(key.fd, 1 << 20)
                if b:
                    bufs[key.fd] += b
                else:
                    sel.unregister(key.fd)
                    live -= 1
            if time.time() > hard:
                break
        for p, r in kids:
            data = bufs[r]
            if live:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            _, status = os.waitpid(p, 0)
            if not data:
                viol = viol or [0, 'worker died or hung (wait status %d) while running the code under test' % status, 'died', None]
                continue
            res = json.loads(data)
            merged['transitions'] += res['transitions']
            merged['traces'] += res['traces']
            merged['states'].update(res['states'])
            merged['outcomes'].update(res['outcomes'])
            merged['extra'].update(res['extra'])
            knownhit.update(res['known'])
            capped = capped or res['capped']
            if res['viol'] and (viol is None or res['viol'][0] < viol[0]):
                viol = res['viol']
        if hasattr(mod, 'finish') and viol is None and not replay and not capped:
            try:
                mod.finish(merged, ctx)
            except Violation as v:
                viol = [0, v.msg, v.key, None]
    except BaseException as e:
        viol = [0, 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:]), 'import', None]
    sys.stdout.flush()
    os.dup2(real_stdout, 1)

    level = getattr(mod, 'LEVEL', 'model_checking')
    samples = []
    if caselist:
        for i in sorted({0, len(caselist) // 3, 2 * len(caselist) // 3, len(caselist) - 1}):
            samples.append(json.loads(json.dumps(caselist[i], default=repr)))
    cov = {'exhaustive': (not capped) and viol is None,
           'rule': getattr(mod, 'RULE', ''), 'samples': samples,
           'distinct_outcomes': len(merged['outcomes']),
           'cases_enumerated': len(caselist)}
    if level == 'model_checking':
        cov.update(states=len(merged['states']), transitions=merged['transitions'],
                   traces_validated_against_impl=merged['traces'])
    else:
        cov.update(evaluations=merged['traces'], distinct_nontrivial=len(merged['states']),
                   calls_into_code=merged['transitions'])
    for k, v in merged['extra'].items():
        cov[k] = v
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0}
    if not replay:
        with open(os.path.join(evdir, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
    for (kp, kk), text in sorted(known.items()):
        if kp == pid and kk in knownhit:
            print('KNOWN-FINDING: property=%s %s' % (pid, text))
    print('%s %s: cases=%d traces=%d transitions=%d states=%d outcomes=%d capped=%s wall=%.1fs %s' % (
        pid, tier, len(caselist), merged['traces'], merged['transitions'], len(merged['states']),
        len(merged['outcomes']), capped, time.time() - t0, dict(merged['extra'])))
    if viol:
        path = os.path.join(evdir, 'replay', pid + '.json')
        case = viol[3]
        if case is None and caselist and viol[0] < len(caselist):
            case = caselist[viol[0]]
        if not replay:
            with open(path, 'w') as f:
                json.dump({'property': pid, 'tier': tier, 'case': case, 'message': viol[1],
                           'key': viol[2],
                           'replay_cmd': 'bash /verif/run.sh %s --replay=%s' % (pid, path)},
                          f, indent=1, default=repr)
        print('case: %s' % short(case, 1500))
        print(viol[1])
        print('VIOLATION property=%s replay=%s' % (pid, path if not replay else replay))
        sys.stdout.flush()
        return 1
    sys.stdout.flush()
    return 0
