"""M02: elapsed time."""
import datetime
import itertools
from mc.core import Violation
from impactutils.time import timeutils
from impactutils.time.timeutils import ElapsedTime

LEVEL = 'exploration'
RULE = ('every whole number of seconds 0..200000 (thorough 0..2,000,000: past three weeks), every value within 2 s of every multiple of an hour up to '
        '120 weeks and of a day up to 60 years, from several starting instants and with fractions of a second; intervals of up to 9998 years; every ordered pair of calendar instants over '
        'month ends, leap days, year ends (both orders, equal, one microsecond apart); the text helper over all units and 0..61; default "now". '
        'Oracle: integer division of the interval.')
ASSUMPTIONS = ['fractions of a second are dropped']
U = ['week', 'day', 'hour', 'minute', 'second']
STARTS = [datetime.datetime(2016, 1, 1, 1, 1, 1), datetime.datetime(1999, 12, 31, 23, 59, 59, 999999), datetime.datetime(2016, 2, 28, 12), datetime.datetime(1, 1, 1)]


def split(sec):
    w, r = divmod(sec, 604800)
    d, r = divmod(r, 86400)
    h, r = divmod(r, 3600)
    m, s = divmod(r, 60)
    return [w, d, h, m, s]


def text(sec):
    v = split(sec)
    i = next((i for i in range(5) if v[i]), 4)
    return ', '.join('%d %s%s' % (v[j], U[j], '' if v[j] == 1 else 's') for j in range(i, min(i + 2, 5)))


def cases(tier):
    top = 200000 if tier == 'quick' else 2000000
    for a in range(0, top, 5000):
        yield ['run', a, a + 5000, a // 5000 % len(STARTS)]
    for w in range(0, 120):
        yield ['near', w, 604800, 3600]
    for y in range(0, 60):
        yield ['near', y, 365 * 86400, 86400]
    for i in range(len(inst())):
        yield ['pair', i]
    yield ['far']
    yield ['helper']
    yield ['now']


def inst():
    D = datetime.datetime
    out = []
    for y in (1896, 1900, 1970, 1999, 2000, 2015, 2016, 2017):
        for mo, d in ((1, 1), (1, 31), (2, 28), (3, 1), (12, 31)):
            for t in ((0, 0, 0), (23, 59, 59), (12, 30, 0, 500000)):
                out.append(D(y, mo, d, *t))
        if y % 4 == 0 and y != 1900:
            out.append(D(y, 2, 29, 0, 0, 0))
            out.append(D(y, 2, 29, 23, 59, 59, 999999))
    return out


def one(ctx, e, a, b):
    td = b - a
    sec = td.days * 86400 + td.seconds
    ctx.transitions += 2
    got = e.getTimeElapsed(a, b)
    v = split(sec)
    want = dict(zip(['weeks', 'days', 'hours', 'minutes', 'seconds'], v))
    if got != want:
        raise Violation('elapsed %s -> %s (%d s): got %r, expected %r' % (a, b, sec, got, want))
    s = e.getElapsedString(a, b)
    if s != text(sec):
        raise Violation('text for %d s: got %r, expected %r' % (sec, s, text(sec)))
    return s


def run(case, ctx):
    e = ElapsedTime()
    if case[0] == 'run':
        a = STARTS[case[3]]
        for sec in range(case[1], case[2]):
            ctx.outcome(one(ctx, e, a, a + datetime.timedelta(seconds=sec, microseconds=sec % 3 * 499999)))
            ctx.traces += 1
        ctx.state(case)
    elif case[0] == 'near':
        _, k, big, small = case
        for i in range(big // small):
            for off in (-2, -1, 0, 1, 2):
                sec = k * big + i * small + off
                if sec >= 0:
                    a = STARTS[(i + off) % 3]
                    one(ctx, e, a, a + datetime.timedelta(seconds=sec))
                    ctx.traces += 1
        ctx.state(case)
    elif case[0] == 'pair':
        L = inst()
        a = L[case[1]]
        for b in L + [a + datetime.timedelta(microseconds=1), a - datetime.timedelta(microseconds=1)]:
            ctx.traces += 1
            if b >= a:
                one(ctx, e, a, b)
                continue
            for fn in (e.getTimeElapsed, e.getElapsedString):
                try:
                    r = fn(a, b)
                except Exception:
                    ctx.outcome('refused')
                    continue
                raise Violation('interval backwards in time %s -> %s gave %r' % (a, b, r))
        ctx.state(case)
    elif case[0] == 'far':
        # the whole range of calendar times
        for y1, y2 in itertools.combinations_with_replacement((1, 2, 100, 999, 1000, 1600, 1904, 2016, 2400, 5000, 9999), 2):
            for end in ((1, 1, 0, 0, 0), (3, 1, 12, 0, 1), (12, 31, 23, 59, 59)):
                ctx.outcome(one(ctx, e, datetime.datetime(y1, 1, 1), datetime.datetime(y2, *end)))
                ctx.traces += 1
        ctx.state(case)
    elif case[0] == 'helper':
        big = ['second', 'minute', 'hour', 'day', 'week', 'month', 'year']
        for i in range(1, 7):
            for x, y in itertools.product(range(0, 62), repeat=2):
                ctx.op()
                ctx.equal(e.getTimeStr(x, y, big[i]), '%d %s%s, %d %s%s' % (x, big[i], '' if x == 1 else 's', y, big[i - 1], '' if y == 1 else 's'), 'text')
        for bad in ('', 'fortnight', 'days', 'Week'):
            try:
                r = e.getTimeStr(1, 1, bad)
            except Exception:
                continue
            raise Violation('unknown unit %r accepted: %r' % (bad, r))
        ctx.state(case)
    else:
        # default "now" is the current universal time, whatever the local zone
        import os
        import time
        for tz in ('UTC', 'Asia/Tokyo', 'America/New_York'):
            os.environ['TZ'] = tz
            time.tzset()
            for sec in (300, 4000, 100000, 9000000):
                base = datetime.datetime.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)
                t = base - datetime.timedelta(seconds=sec)
                got = e.getElapsedString(t)
                ctx.op()
                ctx.check(got in [text(sec + k) for k in range(0, 130)], 'elapsed since %d s ago: %r' % (sec, got))
        os.environ['TZ'] = 'UTC'
        time.tzset()
        ctx.state(case)
