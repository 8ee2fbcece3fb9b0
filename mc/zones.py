"""Clock rules written down here (not read from pytz), valid for 2015-2016."""
import datetime
D = datetime.datetime
H = 3600
# zone: (standard seconds, summer seconds, [(summer begins UTC, summer ends UTC), ...])
RULES = {
    'Etc/UTC': (0, 0, []),
    'Asia/Kolkata': (19800, 19800, []),
    'Asia/Kathmandu': (20700, 20700, []),
    'America/New_York': (-5 * H, -4 * H, [(D(2015, 3, 8, 7), D(2015, 11, 1, 6)), (D(2016, 3, 13, 7), D(2016, 11, 6, 6))]),
    'America/St_Johns': (-12600, -9000, [(D(2015, 3, 8, 5, 30), D(2015, 11, 1, 4, 30)), (D(2016, 3, 13, 5, 30), D(2016, 11, 6, 4, 30))]),
    'Europe/London': (0, H, [(D(2015, 3, 29, 1), D(2015, 10, 25, 1)), (D(2016, 3, 27, 1), D(2016, 10, 30, 1))]),
    'Pacific/Auckland': (12 * H, 13 * H, [(D(2014, 9, 27, 14), D(2015, 4, 4, 14)), (D(2015, 9, 26, 14), D(2016, 4, 2, 14)), (D(2016, 9, 24, 14), D(2017, 4, 1, 14))]),
    'Australia/Lord_Howe': (37800, 11 * H, [(D(2014, 10, 4, 15, 30), D(2015, 4, 4, 15)), (D(2015, 10, 3, 15, 30), D(2016, 4, 2, 15)), (D(2016, 10, 1, 15, 30), D(2017, 4, 1, 15))]),
}
NAMES = sorted(RULES)


def offset(zone, utc):
    std, dst, spans = RULES[zone]
    return datetime.timedelta(seconds=dst if any(a <= utc < b for a, b in spans) else std)


def sources(zone, local):
    """All UTC instants whose local time in the zone is `local` (0, 1 or 2)."""
    std, dst, _ = RULES[zone]
    return sorted({local - datetime.timedelta(seconds=s) for s in (std, dst)
                   if offset(zone, local - datetime.timedelta(seconds=s)) == datetime.timedelta(seconds=s)})


def instants(full):
    out = {D(2015, 1, 1), D(2015, 6, 30, 23, 59, 59), D(2016, 2, 29, 12, 30), D(2016, 12, 31, 23, 59, 59, 999999), D(2016, 7, 1)}
    for std, dst, spans in RULES.values():
        for a, b in spans:
            for t in (a, b):
                if D(2015, 1, 2) < t < D(2016, 12, 30):
                    for s in ((-14400, -3601, -1800, -1, 0, 1, 1800, 3599, 3600, 7200, 18001) if full else (-18000, -1, 0, 1800, 3600, 39600)):
                        out.add(t + datetime.timedelta(seconds=s))
    return sorted(out)
