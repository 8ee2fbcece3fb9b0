"""M01: HistoricTime formatting over the whole calendar, against arithmetic of our own."""
import datetime
import warnings
import itertools
import pickle
from mc.core import Violation
from impactutils.time.ancient_time import HistoricTime

LEVEL = 'exploration'
RULE = ('every year 1..9999 x {1 Jan, 4 Jan, 28 Feb, 29 Feb where it exists, 1 Mar, 29 Dec, 31 Dec + one month-varying day} with times of day that vary '
        'with the year, x every directive alone, between literal text and behind escaped percent signs, plus the documented formats; every day of '
        'selected years; refused directives in every position; comparison, arithmetic, parsing and pickling against datetime. Oracle: day-number '
        'arithmetic written here (weekday, day of year, week numbers), never strftime.')
ASSUMPTIONS = ['C locale', 'directives documented for Python datetime, except %c and %x before 1900 which must be refused']
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days_before_year(y):
    y -= 1
    return y * 365 + y // 4 - y // 100 + y // 400


def fields(y, mo, d, h, mi, s, us):
    yday = sum(ML[:mo - 1]) + (1 if mo > 2 and leap(y) else 0) + d        # 1..366
    n = days_before_year(y) + yday                                        # 1 Jan of year 1 is day 1, a Monday
    wd = (n - 1) % 7                                                      # Monday 0
    sun = (wd + 1) % 7
    # ISO: the week belongs to the year of its Thursday
    thursday = n - wd + 3
    iy = y
    if thursday <= days_before_year(y):
        iy = y - 1
    elif thursday > days_before_year(y + 1):
        iy = y + 1
    iw = (thursday - days_before_year(iy) - 1) // 7 + 1
    f = {'a': DAYS[wd][:3], 'A': DAYS[wd], 'w': str(sun), 'd': '%02d' % d, 'b': MONTHS[mo - 1][:3], 'B': MONTHS[mo - 1],
         'm': '%02d' % mo, 'y': '%02d' % (y % 100), 'Y': '%04d' % y, 'H': '%02d' % h, 'I': '%02d' % ((h - 1) % 12 + 1),
         'p': 'AM' if h < 12 else 'PM', 'M': '%02d' % mi, 'S': '%02d' % s, 'f': '%06d' % us, 'z': '', 'Z': '',
         'j': '%03d' % yday, 'U': '%02d' % ((yday + 6 - sun) // 7), 'W': '%02d' % ((yday + 6 - wd) // 7),
         'u': str(wd + 1), 'V': '%02d' % iw, 'G': '%04d' % iy, 'X': '%02d:%02d:%02d' % (h, mi, s), '%': '%'}
    return f


DIRS = 'aAwdbBmyYHIpMSfzZjUWuVGX%'
FORMATS = ['%Y-%m-%dT%H:%M:%S', '%Y-%m-%d %H:%M:%S.%f', '%b %d, %Y', '%d%m%Y', '%Y%Y', '%Y', '', 'plain text 1899 2299', '%%Y', '%%%Y', '%%%%Y', '%Y%%',
           '%Y %%Y %Y', '%%%%%Y', '%%c', '%%x %Y', '%G-W%V-%u', '%%G%G', '100%% %B', '%d%%%Y', '%j/%Y', '%A, %d %B %Y %I:%M:%S %p', '%Y\u6771%m', '%H%M%S%f']


def render(fmt, f):
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] == '%':
            out.append(f[fmt[i + 1]])
            i += 2
        else:
            out.append(fmt[i])
            i += 1
    return ''.join(out)


def cases(tier):
    step = 50
    for y in range(1, 10000, step):
        yield ['years', y, min(10000, y + step)]
    for y in [1, 4, 100, 400, 900, 999, 1000, 1582, 1600, 1700, 1752, 1896, 1899, 1900, 1901, 1904, 1968, 1969, 1970, 2000, 2024, 2100, 9999]:
        yield ['alldays', y]
    for y in range(1, 9999, 37 if tier == 'quick' else 3):
        yield ['refuse', y]
    for y in range(1, 9999, 23 if tier == 'quick' else 1):
        yield ['algebra', y]


def run(case, ctx):
    globals()['do_' + case[0]](ctx, *case[1:])


def one(ctx, y, mo, d, h, mi, s, us, fmts):
    t = HistoricTime(y, mo, d, h, mi, s, us)
    f = fields(y, mo, d, h, mi, s, us)
    before = (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond)
    for fmt in fmts:
        ctx.transitions += 1
        got = t.strftime(fmt)
        want = render(fmt, f)
        # years before 1000 are padded by the early-date code
        if got != want:
            raise Violation('%r.strftime(%r) = %r, the calendar gives %r' % (t, fmt, got, want))
    if before != (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond):
        raise Violation('formatting changed the date')


def dates(y):
    ds = [(1, 1), (1, 4), (2, 28), (3, 1), (12, 29), (12, 31), (y % 12 + 1, y % 28 + 1)]
    if leap(y):
        ds.append((2, 29))
    return ds


SINGLE = ['%' + c for c in DIRS] + ['x%%%s' % c + 'y' for c in DIRS]
ALL = ' '.join('%' + c for c in DIRS)


def do_years(ctx, a, b):
    times = [(0, 0, 0, 0), (12, 0, 1, 1), (23, 59, 59, 999999), (11, 7, 30, 120000), (1, 1, 1, 0), (13, 30, 9, 50)]
    for y in range(a, b):
        for i, (mo, d) in enumerate(dates(y)):
            one(ctx, y, mo, d, *times[(y + i) % len(times)],
                fmts=SINGLE + FORMATS + [ALL] if (i + y) % 3 == 0 else [ALL] + FORMATS[:6])
            ctx.traces += 1
        ctx.state(y)


def do_alldays(ctx, y):
    for mo in range(1, 13):
        for d in range(1, ML[mo - 1] + (1 if mo == 2 and leap(y) else 0) + 1):
            one(ctx, y, mo, d, 5, 6, 7, 8, [ALL])
            ctx.traces += 1
    ctx.state(('all', y))


def do_refuse(ctx, y):
    t = HistoricTime(y, 3, 4, 5, 6, 7)
    f = fields(y, 3, 4, 5, 6, 7, 0)
    g = dict(f, x='%02d/%02d/%02d' % (3, 4, y % 100), c='%s %s %2d %s %s' % (f['a'], f['b'], 4, f['X'], f['Y']))
    if y >= 1000:
        for fmt in ['%c', '%x', 'a %c b', '%Y: %x', '%%x %c', '%x %%c', '%d.%x']:
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter('always')
                got = t.strftime(fmt, force=True)
            ctx.op()
            ctx.equal(got, render(fmt, g), '%r.strftime(%r, force=True)' % (t, fmt))
            ctx.check(bool(seen) == (y < 1900), '%r.strftime(%r, force=True): warnings %r' % (t, fmt, [str(w.message) for w in seen]))
    for c in 'cx':
        for fmt in ['%' + c, 'a %' + c, '%Y %' + c, '%%%' + c, '%%' + c + ' %' + c, '%' + c + '%%' + c, '%d%' + c + '%d']:
            ctx.op()
            if y < 1900:
                try:
                    got = t.strftime(fmt)
                except ValueError:
                    ctx.outcome('refused')
                    continue
                raise Violation('%r.strftime(%r) returned %r instead of refusing' % (t, fmt, got))
            ctx.equal(t.strftime(fmt), render(fmt, g), '%r.strftime(%r)' % (t, fmt))
    ctx.state(('r', y))


def do_algebra(ctx, y):
    D = datetime.datetime
    for mo, d in dates(y)[:6]:
        a, p = HistoricTime(y, mo, d, 1, 2, 3), D(y, mo, d, 1, 2, 3)
        ctx.op(8)
        ctx.check(a == p and hash(a) == hash(p) and not a < p and not a > p, 'comparison with the same datetime')
        ctx.equal(a.isoformat(), p.isoformat(), 'isoformat')
        for days in (1, 28, 366, 1461):
            for sgn in (1, -1):
                td = datetime.timedelta(days=days * sgn, seconds=3599)
                try:
                    want = p + td
                except OverflowError:
                    continue
                got = a + td
                ctx.equal((got.timetuple()[:6], got - a, got > a), (want.timetuple()[:6], td, sgn > 0), 'arithmetic')
                if isinstance(got, HistoricTime):
                    ctx.equal(got.strftime('%Y-%m-%d %A'), render('%Y-%m-%d %A', fields(want.year, want.month, want.day, 0, 0, 0, 0)), 'format of a sum')
        txt = a.strftime('%Y-%m-%dT%H:%M:%S')
        back = HistoricTime.strptime(txt, '%Y-%m-%dT%H:%M:%S')
        ctx.equal((type(back).__name__, back), ('HistoricTime', a), 'parse of the formatted date')
        ctx.equal(pickle.loads(pickle.dumps(a)), a, 'pickle')
    ctx.state(('alg', y))
