"""T07: e-mail recipients, fail-over, privacy against in-memory SMTP servers."""
import collections
import itertools
from mc import net
from mc.core import Violation, Choices, explore
from mc.fsutil import CaseDir, write
from mc.smtpmodel import Servers
net.install()
from impactutils.transfer.factory import get_sender_class  # noqa

LEVEL = 'fault_enumeration'
RULE = ('send and cancel for all recipient counts 0..6 (and 24..27, 49..52 with the default limit, 24..130 with limits 0..500) x limits '
        '{default,0..4,7} x primary recipient x attachments x 1..3 servers without faults; up to 12 servers of which the first k refuse; and for 1..4 recipients '
        'every combination of at most 2 (quick) / 3 (thorough) server deviations (refused, timeout, banner, '
        '5xx, 4xx, disconnect) at every connection and command. Distinct = distinct (accepted envelopes, result).')
ASSUMPTIONS = ['the servers follow RFC 5321; a message is accepted exactly when the end of data is answered 250',
               'a connection lost at the end of data means the message was not accepted']
HOSTS = ['smtp2.model', 'smtp1.model', 'smtp3.model'] + ['smtp%d.model' % i for i in range(12, 3, -1)]
LIMITS = ['default', 0, 1, 2, 3, 4, 7]
SENDER = 'mrslate@quarry.model'
PRIMARY = 'list@quarry.model'


def cases(tier):
    q = tier == 'quick'
    for n in range(0, 7):
        for lim in LIMITS:
            for prim in (0, 1):
                for op in ('send', 'cancel'):
                    for att in ((0, 1, 2) if op == 'send' else (0,)):
                        yield [n, lim, prim, op, att, 1 + n % 3, 0]
    for n in (24, 25, 26, 27, 49, 50, 51, 52):
        for op in ('send', 'cancel'):
            yield [n, 'default', n % 2, op, 0, 2, 0]
    for n in (24, 26, 51, 100, 101, 130):
        for lim in (0, 10, 24, 25, 26, 30, 50, 60, 99, 100, 101, 500):
            for op in ('send', 'cancel'):
                yield [n, lim, (n + lim) % 2, op, 0, 2, 0]
    # many servers of which only the last ones work
    for op in ('send', 'cancel'):
        for ns in (4, 5, 8, 12):
            for k in range(ns):
                for n, lim in ((1, 'default'), (3, 0)):
                    yield [n, lim, 0, op, 0, ns, [1] * k]
    b = 2 if q else 3
    for op in ('send', 'cancel'):
        for ns in (1, 2, 3):
            for n, lim, prim in ((1, 'default', 0), (1, 0, 0), (2, 2, 0), (2, 1, 1), (3, 2, 0), (2, 0, 0), (4, 2, 1)):
                if q and ns == 3 and n > 2:
                    continue
                yield [n, lim, prim, op, 1 if op == 'send' and prim else 0, ns, b]
    if not q:
        # unbounded: every combination of answers
        for op in ('send', 'cancel'):
            for n, lim in ((1, 'default'), (2, 2)):
                yield [n, lim, 0, op, 0, 2 if n == 1 else 1, 99]


def run(case, ctx):
    n, lim, prim, op, att, ns, bound = case
    rec = ['user%02d@host%d.model' % (i, i % 3) for i in range(n)]
    limit = 25 if lim == 'default' else lim
    S = get_sender_class('email')

    def body(ch):
        srv = Servers(ch, HOSTS[:ns])
        props = {'recipients': list(rec), 'smtp_servers': HOSTS[:ns], 'sender': SENDER,
                 'subject': 'Subject line', 'message': 'message text'}
        if lim != 'default':
            props['max_bcc'] = lim
        if prim:
            props['primary_recipient'] = PRIMARY
        kw = {}
        if att:
            write('f1.txt', b'file one\n')
            kw['local_files'] = ['f1.txt']
            if att == 2:
                props['zip_file'] = 'z.zip'
        s = S(properties=props, **kw)
        err = None
        try:
            ret = s.send() if op == 'send' else s.cancel('never mind')
        except Exception as e:
            err = e
        ctx.op(srv.commands + len(srv.sessions))
        ctx.traces += 1
        got = collections.Counter()
        for idx, frm, rcpts, text in srv.accepted:
            ctx.check(frm == SENDER, 'envelope sender is %r' % frm)
            users = [r for r in rcpts if r in rec]
            others = [r for r in rcpts if r not in rec]
            ctx.check(all(o in (PRIMARY, SENDER) and prim for o in others),
                      'message accepted for an address that is not a recipient: %r' % others)
            got.update(users)
            if prim and limit and not ch.deviations:
                ctx.check(others.count(PRIMARY) == 1, 'a message went to the primary recipient %d times' % others.count(PRIMARY))
            ctx.check(len(users) <= max(limit, 1),
                      'one message for %d recipients, limit %d' % (len(users), limit))
            low = text.lower()
            for r in rec:
                if r.encode() in low and not (limit == 0 and users == [r]):
                    raise Violation('address %r of a recipient is disclosed in the transmitted text' % r)
        for r in rec:
            ctx.check(got[r] <= 1, '%r got the message %d times' % (r, got[r]))
        missing = [r for r in rec if not got[r]]
        if err is None:
            ctx.check(not missing, '%s returned %r but %r never got the message' % (op, ret, missing))
        else:
            ctx.check(ch.deviations, '%s failed although every server accepts everything: %s' % (op, err))
            last = srv.sessions[-1] if srv.sessions else None
            ctx.check(missing or (prim and last is not None and not last.complete),
                      '%s failed although every recipient has been accepted: %s' % (op, err))
        # order in which servers are tried
        prev = None
        for k, ses in enumerate(srv.sessions):
            want = 0 if prev is None or prev.complete else prev.idx + 1
            ctx.check(ses.idx == want, 'connection %d went to server %d instead of %d: servers tried %r' % (
                k + 1, ses.idx, want, [x.idx for x in srv.sessions]))
            prev = ses
        if err is not None:
            ctx.check(prev is not None and prev.idx == ns - 1,
                      '%s gave up before trying every server: tried %r of %d' % (op, [x.idx for x in srv.sessions], ns))
        ctx.state((op, err is None, [(i, r) for i, f, r, t in srv.accepted]))
        ctx.outcome((err is None, len(srv.sessions), bool(missing)))
    with CaseDir(ctx):
        if isinstance(bound, list):
            body(Choices(bound))
        else:
            explore(body, bound)
