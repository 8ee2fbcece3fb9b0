"""R01: event information (Origin, event.xml, source.txt)."""
import copy
import io
import itertools
import math
import os
import numpy as np
from mc.core import Violation
from impactutils.rupture.origin import Origin, write_event_file, read_event_file, read_source
from impactutils.rupture.utils import rake_to_mech
from impactutils.time.ancient_time import HistoricTime

LEVEL = 'exploration'
RULE = ('all 512 subsets of the required keys; all latitudes / longitudes of a boundary lattice in four number types; all mech x type x rake combinations over the accepted names and '
        'look-alikes; all sequences of up to 2 (thorough 3) setMechanism calls over mech x rake x dip, refused ones included; rake_to_mech on every half degree; event files: every text of '
        'an alphabet (XML-special, quotes, spaces, non-ASCII, empty) in every text field, all coordinate / depth / magnitude lattice points, times from year 1 to 9999, all subsets of the optional '
        'fields, written to a path and to a stream and read back both ways; all documented time notations; source.txt: all files of up to 3 (thorough 4) lines over 18 line forms.')
ASSUMPTIONS = ['the event file keeps coordinates to 1/10000 degree, depth and magnitude to one decimal and the time to whole seconds (its documented notation)',
               'moment.xml is not covered: its reader is not part of the repository']
REQ = ['id', 'netid', 'network', 'lat', 'lon', 'depth', 'locstring', 'mag', 'time']
T0 = HistoricTime(2008, 5, 12, 6, 28, 1)
BASE = {'id': 'us2008abcd', 'netid': 'us', 'network': 'USGS', 'lat': 30.9858, 'lon': 103.3639, 'depth': 19.0, 'locstring': 'EASTERN SICHUAN', 'mag': 7.9, 'time': T0}
RAKE = {'SS': 0.0, 'NM': -90.0, 'RS': 90.0, 'ALL': 0.0}
MECH = {'RS': (90.0, 40.0), 'NM': (-90.0, 50.0), 'SS': (0.0, 90.0), 'ALL': (45.0, 90.0)}
NO = '<absent>'
NAMES = [NO, '', 'SS', 'NM', 'RS', 'ALL', 'ss', 'Strike slip', 'all', 'RS ', 'UN']
RAKES = [NO] + list(range(-180, 181, 10)) + [-0.5, 44.9, '30', np.float64(-135.5)]
LATS = [-90, 90, -90.0001, 90.0001, 0, 45.5, -91, 180, -180, math.nextafter(90, 91), math.nextafter(90, 89), math.nextafter(-90, -91), float('inf'), float('-inf')]
LONS = [-180, 180, -180.0001, 180.0001, 0, 90.5, -91, 181, 360, math.nextafter(180, 181), math.nextafter(-180, -181), float('inf'), float('-inf')]
TEXTS = ['plain', '', 'a & b', '<x>', '"quoted"', "it's", 'a=b', 'é ü ñ', '東京', ' lead', 'trail ', 'two  spaces', '100%', '{x}', '#5', ';', '&amp;', 'a\\b', 'a\tb', 'a\nb']


def attempt(fn, *a, **k):
    try:
        return fn(*a, **k), None
    except Exception as e:
        return None, e


def cases(tier):
    for bits in range(512):
        yield ['miss', bits]
    yield ['range']
    yield ['ident']
    for m in range(len(NAMES)):
        for t in range(len(NAMES)):
            yield ['mech', m, t]
    yield ['rtm']
    for a in range(len(setops(tier))):
        yield ['set', a]
    for t in range(len(TEXTS)):
        yield ['text', t]
    for la in (-90, -45.12345, -0.00001, 0, 0.0001, 12.3456, 89.9999, 90):
        yield ['coord', la]
    for y in (1, 4, 99, 100, 400, 999, 1000, 1582, 1755, 1899, 1900, 1901, 1969, 1970, 2000, 2024, 9999):
        yield ['time', y]
    for o in range(32):
        yield ['opt', o]
    yield ['badfile']
    n = 3 if tier == 'quick' else 4
    for i in range(len(LINES)):
        yield ['src', i, n]
    yield ['over']


def same_event(ctx, got, want, what):
    for k, v in want.items():
        g = got.get(k, NO) if isinstance(got, dict) else getattr(got, k, NO)
        if isinstance(g, str) != isinstance(v, str) or g != v:
            raise Violation('%s: %s is %r, expected %r' % (what, k, g, v))


def build(ctx, ev, what):
    keep = copy.deepcopy(ev)
    o, e = attempt(Origin, ev)
    ctx.op()
    if repr(sorted(ev.items(), key=lambda x: x[0])) != repr(sorted(keep.items(), key=lambda x: x[0])):
        raise Violation('%s: the dictionary given was altered: %r became %r' % (what, keep, ev))
    return o, e


def setops(tier):
    rakes = [None, 0, 10, 180, -180, 181, -181, 350, -350, 360, -360, 540, -540, 541, -541, 720, -900] + ([] if tier == 'quick' else [90, -90, 45.5, 270, -270, 359.5])
    dips = [None, 0, 90, 45.5, -0.1, 90.1]
    return [(m, r, d) for m in ('RS', 'NM', 'SS', 'ALL', 'rs', None, '') for r in rakes for d in dips]


def setmodel(st, op):
    m, r, d = op
    if m not in MECH or (d is not None and not 0 <= d <= 90):
        return None
    rr, dd = MECH[m]
    if r is not None:
        rr = r + 360 if r < -180 else r - 360 if r > 180 else r
        if not -180 <= rr <= 180:
            return None
    return (m, rr, dd if d is None else d)


LINES = ['', '   ', '# comment', '#mech=SS', 'mech=RS', 'mech = NM', 'mag=7', 'mag=7.25', 'depth=1e1', 'locstring=a=b', 'reference=Smith, et al. (2016)', 'lat = -12.5', 'mech=', 'id=123',
         'x=-5', 'url=http://h/?a=1&b=2', 'network= two words ', 'locstring=# 5', 'id=0010', 'URL=0x10']


def srcmodel(lines):
    out = {}
    for ln in lines:
        if not ln.strip() or ln.startswith('#'):
            continue
        k, v = ln.split('=', 1)
        v = v.strip()
        try:
            v = int(v)
        except ValueError:
            try:
                v = float(v)
            except ValueError:
                pass
        out[k.strip()] = v
    return out


def expected_file(ev):
    w = dict(ev)
    w['lat'], w['lon'] = round(ev['lat'], 4), round(ev['lon'], 4)
    w['depth'], w['mag'] = round(ev['depth'], 1), round(ev['mag'], 1)
    w['time'] = ev['time'].replace(microsecond=0)
    w.pop('event_type', None)
    return w


def roundtrip(ctx, ev, what):
    keep = copy.deepcopy(ev)
    path = os.path.join(ctx.scratch, 'event.xml')
    if os.path.exists(path):
        os.remove(path)
    r = write_event_file(ev, path)
    ctx.op()
    ctx.equal(r, None, '%s: result of writing' % what)
    ctx.equal(ev, keep, '%s: event given to write_event_file' % what)
    want = expected_file(ev)
    got = read_event_file(path)
    wantp = dict(want)
    wantp.setdefault('productcode', ev['id'])
    same_event(ctx, got, wantp, what + ' read from the path')
    extra = set(got) - set(wantp)
    ctx.check(not (extra & {'mech', 'reference', 'productcode', 'type'}), '%s: read back values that were not written: %r' % (what, extra))
    with open(path, 'rb') as f:
        raw = f.read()
    for s in (io.BytesIO(raw), io.StringIO(raw.decode('ascii', 'strict') if raw.isascii() else raw.decode('utf-8'))):
        got = read_event_file(s)
        for k in ('productcode', 'mech', 'type', 'reference'):
            ctx.check(k in ev or k not in got, '%s read from a stream: %s is %r although none was written' % (what, k, got.get(k)))
        same_event(ctx, got, want, what + ' read from a stream')
        ctx.op()
    o = Origin.fromFile(path)
    same_event(ctx, o, {k: v for k, v in wantp.items() if k != 'mech'}, what + ' as Origin')
    b = io.BytesIO()
    ctx.equal(write_event_file(ev, b), None, '%s: result of writing to a stream' % what)
    same_event(ctx, read_event_file(io.BytesIO(b.getvalue())), want, what + ' written to a stream')
    ctx.traces += 1


def run(case, ctx):
    ctx.state(case)
    kind = case[0]
    if kind == 'miss':
        bits = case[1]
        ev = {k: BASE[k] for i, k in enumerate(REQ) if not bits >> i & 1}
        o, e = build(ctx, ev, 'event without %r' % [k for k in REQ if k not in ev])
        if bits:
            ctx.check(isinstance(e, KeyError), 'event without %r: %r, expected KeyError' % ([k for k in REQ if k not in ev], e or 'accepted'))
            for k in REQ:
                if k not in ev:
                    ctx.check('"' + k in str(e) or k in str(e), 'message %r does not name the missing %r' % (str(e), k))
        else:
            ctx.check(e is None, 'complete event refused: %r' % e)
            same_event(ctx, o, BASE, 'complete event')
        ctx.outcome(bool(bits))
    elif kind == 'range':
        for key, vals, lim in (('lat', LATS, 90), ('lon', LONS, 180)):
            for v in vals:
                for t in (float, np.float64, str, int):
                    if t is int and (v in (float('inf'), float('-inf')) or v != int(v)):
                        continue
                    x = repr(float(v)) if t is str else t(v)
                    ev = dict(BASE, **{key: x})
                    o, e = build(ctx, ev, '%s=%r' % (key, x))
                    if abs(v) > lim:
                        ctx.check(isinstance(e, ValueError), '%s=%r: %r, expected ValueError' % (key, x, e or 'accepted'))
                    else:
                        ctx.check(e is None, '%s=%r refused: %r' % (key, x, e))
                        same_event(ctx, o, ev, '%s=%r' % (key, x))
                        if t is not str:
                            h = o.getHypo()
                            ctx.check((h.longitude, h.latitude, h.depth) == (ev['lon'], ev['lat'], ev['depth']), 'hypocentre of %r is %r' % (ev, (h.longitude, h.latitude, h.depth)))
        for dep in (0, -2.5, 700, 3.25):
            h = Origin(dict(BASE, depth=dep)).getHypo()
            ctx.equal((h.longitude, h.latitude, h.depth), (BASE['lon'], BASE['lat'], dep), 'hypocentre at depth %r' % dep)
    elif kind == 'ident':
        for v in ('', 'x', 'é', None):
            o, e = build(ctx, dict(BASE, id=v), 'id=%r' % (v,))
            ctx.check(e is None and o.id == v, 'id %r: %r' % (v, e))
        for v in (1, 1.5, b'x', ['x'], True):
            o, e = build(ctx, dict(BASE, id=v), 'id=%r' % (v,))
            ctx.check(isinstance(e, TypeError), 'id %r: %r, expected TypeError' % (v, e or 'accepted'))
        for k, v in (('foo', 1), ('reference', 'Smith'), ('productcode', 'p'), ('event_type', 'SCENARIO'), ('_tectonic_region', 'Volcanic'), ('dip', 12)):
            ev = dict(BASE, **{k: v})
            o, e = build(ctx, ev, 'extra %r' % k)
            ctx.check(e is None, 'extra %r refused: %r' % (k, e))
            same_event(ctx, o, ev, 'extra %r' % k)
    elif kind == 'mech':
        m, t = NAMES[case[1]], NAMES[case[2]]
        for r in RAKES:
            ev = dict(BASE)
            if m != NO:
                ev['mech'] = m
            if t != NO:
                ev['type'] = t
            if r != NO:
                ev['rake'] = r
            what = 'mech %r, type %r, rake %r' % (m, t, r)
            o, e = build(ctx, ev, what)
            if m == '' and t not in (NO, '') and t != 'ALL':
                continue
            eff = m if m != NO else t
            eff = 'ALL' if eff in (NO, '') else eff
            if eff in RAKE:
                ctx.check(e is None, '%s refused: %r' % (what, e))
                ctx.equal(o.mech, eff, '%s: mechanism' % what)
                ctx.equal(o.rake, RAKE[eff] if r == NO else float(r), '%s: rake' % what)
                same_event(ctx, o, BASE, what)
            else:
                ctx.check(isinstance(e, ValueError), '%s: %r, expected ValueError' % (what, e or 'accepted'))
        ctx.traces += 1
    elif kind == 'rtm':
        for i in range(-720, 721):
            r = i / 4
            w = 'SS' if abs(r) <= 30 or abs(r) >= 150 else 'NM' if -120 <= r <= -60 else 'RS' if 60 <= r <= 120 else 'ALL'
            ctx.equal(rake_to_mech(r), w, 'mechanism for rake %r' % r)
            ctx.op()
        ctx.equal(rake_to_mech(None), 'ALL', 'mechanism for no rake')
    elif kind == 'set':
        ops = setops(ctx.tier)
        first = ops[case[1]]
        o = Origin(dict(BASE, mech='SS'))
        st0 = (o.mech, o.rake, getattr(o, 'dip', NO))
        _, e = attempt(o.setMechanism, first[0], rake=first[1], dip=first[2])
        m = setmodel(None, first)
        ctx.op()
        if m is None:
            ctx.check(isinstance(e, ValueError), 'setMechanism%r: %r, expected ValueError' % (first, e or 'accepted'))
            ctx.equal((o.mech, o.rake, getattr(o, 'dip', NO)), st0, 'origin after refused setMechanism%r' % (first,))
        else:
            ctx.check(e is None, 'setMechanism%r refused: %r' % (first, e))
            ctx.equal((o.mech, o.rake, o.dip), m, 'setMechanism%r' % (first,))
        same_event(ctx, o, BASE, 'other values after setMechanism%r' % (first,))
        ctx.state((o.mech, o.rake, getattr(o, 'dip', NO)))
        saved = copy.deepcopy(o.__dict__)
        seconds = ops
        for op in seconds:
            p = copy.copy(o)
            _, e = attempt(p.setMechanism, op[0], op[1], op[2])
            m2 = setmodel(None, op)
            ctx.op()
            want = m2 if m2 is not None else (m or st0)
            ctx.check((e is None) == (m2 is not None), 'setMechanism%r then %r: %r' % (first, op, e or 'accepted'))
            ctx.equal((p.mech, p.rake, getattr(p, 'dip', NO)), want, 'setMechanism%r then %r' % (first, op))
            ctx.traces += 1
        ctx.equal(o.__dict__, saved, 'original of a copied origin')
        ctx.outcome(m)
    elif kind == 'text':
        t = TEXTS[case[1]]
        for k in ('id', 'netid', 'network', 'locstring', 'reference', 'productcode'):
            roundtrip(ctx, dict(BASE, **{k: t}), '%s=%r' % (k, t))
        roundtrip(ctx, dict(BASE, id=t, netid=t, network=t, locstring=t, reference=t, productcode=t), 'all texts %r' % t)
    elif kind == 'coord':
        for lo in (-180, -179.99994, -103.36394, -0.00004, 0, 0.5, 103.3639, 180):
            for dep in (-2.5, 0, 0.04, 9.96, 19.0, 699.9):
                roundtrip(ctx, dict(BASE, lat=case[1], lon=lo, depth=dep), 'lat %r lon %r depth %r' % (case[1], lo, dep))
        for mag in (0, -0.3, 4.96, 5, 9.5, 10.04):
            roundtrip(ctx, dict(BASE, lat=case[1], mag=mag), 'mag %r' % mag)
    elif kind == 'time':
        y = case[1]
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        for mo, d in [(1, 1), (2, 28), (3, 1), (12, 31), (10, 9)] + ([(2, 29)] if leap else []):
            for h, mi, s, us in ((0, 0, 0, 0), (23, 59, 59, 0), (23, 59, 59, 999999), (12, 5, 9, 250000)):
                t = HistoricTime(y, mo, d, h, mi, s, us)
                roundtrip(ctx, dict(BASE, time=t), 'time %s' % t.isoformat())
                # every documented notation
                base = '<earthquake id="a" netid="us" network="" lat="1" lon="2" mag="3" depth="4" locstring="l" %s/>'
                for frac, want in (('', t.replace(microsecond=0)), ('.%06d' % us, t), ('.%d' % (us // 100000), t.replace(microsecond=us // 100000 * 100000))):
                    txt = 'time="%04d-%02d-%02dT%02d:%02d:%02d%sZ"' % (y, mo, d, h, mi, s, frac)
                    g = read_event_file(io.StringIO(base % txt))
                    ctx.equal(g['time'], want, 'time of %s' % txt)
                    ctx.check(isinstance(g['time'], HistoricTime), 'time of %s is a %s' % (txt, type(g['time'])))
                    ctx.op()
                if us == 0:
                    for pad in ('%d', '%02d'):
                        txt = ' '.join('%s="%s"' % (k, pad % v) for k, v in (('year', y), ('month', mo), ('day', d), ('hour', h), ('minute', mi), ('second', s)))
                        g, e = attempt(read_event_file, io.StringIO(base % txt))
                        ctx.check(e is None, '%s refused: %r' % (txt, e))
                        ctx.equal(g['time'], t, 'time of %s' % txt)
                        ctx.op()
                    for k, v in (('second', 60), ('second', 61), ('minute', 60), ('hour', 24), ('month', 13), ('day', 32), ('day', 0), ('second', -1)):
                        parts = dict(year=y, month=mo, day=d, hour=h, minute=mi, second=s)
                        parts[k] = v
                        txt = ' '.join('%s="%d"' % i for i in parts.items())
                        g, e = attempt(read_event_file, io.StringIO(base % txt))
                        ctx.check(isinstance(e, ValueError), '%s: %r, expected ValueError' % (txt, e or g))
    elif kind == 'opt':
        b = case[1]
        ev = dict(BASE)
        for i, (k, v) in enumerate((('mech', 'RS'), ('reference', 'Smith (2016)'), ('productcode', 'us_zoom'))):
            if b >> i & 1:
                ev[k] = v
        et = (None, 'ACTUAL', 'SCENARIO', 'OTHER')[b >> 3]
        if et:
            ev['event_type'] = et
        if et == 'OTHER':
            path = os.path.join(ctx.scratch, 'bad.xml')
            with open(path, 'w') as f:
                f.write('old')
            r, e = attempt(write_event_file, ev, path)
            ctx.check(e is not None or r is not None, 'event_type OTHER was written')
            ctx.equal(open(path).read(), 'old', 'file after a refused event')
        else:
            for m in ('RS', 'SS', 'NM', 'ALL'):
                if 'mech' in ev:
                    ev['mech'] = m
                roundtrip(ctx, ev, 'optional fields %r' % sorted(ev))
                path = os.path.join(ctx.scratch, 'event.xml')
                o = Origin.fromFile(path)
                ctx.equal(o.mech, ev.get('mech', 'ALL'), 'mechanism of the origin read back')
                txt = open(path).read()
                ctx.check('event_type="%s"' % (et or 'ACTUAL') in txt, 'event type in the file: %s' % txt)
    elif kind == 'badfile':
        for k in REQ:
            ev = {a: v for a, v in BASE.items() if a != k}
            path = os.path.join(ctx.scratch, 'none.xml')
            r, e = attempt(write_event_file, ev, path)
            ctx.check((e is not None or r is not None) and not os.path.exists(path), 'event without %r was written' % k)
        at = {'id': 'a', 'netid': 'us', 'network': 'n', 'lat': '1', 'lon': '2', 'mag': '3', 'depth': '4', 'locstring': 'l', 'time': '2008-05-12T06:28:01Z'}
        def doc(a, wrap=False):
            x = '<earthquake ' + ' '.join('%s="%s"' % i for i in a.items()) + '/>'
            return '<root><other a="1"/>%s</root>' % x if wrap else x
        for wrap in (False, True):
            g = read_event_file(io.StringIO(doc(at, wrap)))
            same_event(ctx, g, {'id': 'a', 'netid': 'us', 'network': 'n', 'lat': 1.0, 'lon': 2.0, 'mag': 3.0, 'depth': 4.0, 'locstring': 'l', 'time': T0}, 'wrapped=%r' % wrap)
            for m in (None, '', 'RS'):
                for t in (None, '', 'NM'):
                    a2 = dict(at, **{k: v for k, v in (('mech', m), ('type', t)) if v is not None})
                    g = read_event_file(io.StringIO(doc(a2, wrap)))
                    ctx.equal({k: g[k] for k in ('mech', 'type') if k in g}, {k: v for k, v in (('mech', m), ('type', t)) if v is not None}, 'mechanism keys of an event file with mech %r and type %r' % (m, t))
            for k in at:
                a2 = {x: v for x, v in at.items() if x != k}
                g, e = attempt(read_event_file, io.StringIO(doc(a2, wrap)))
                ctx.op()
                if k == 'network':
                    ctx.check(e is None and g['network'] == '', 'event file without network: %r' % (e or g))
                else:
                    ctx.check(isinstance(e, (KeyError, ValueError)), 'event file without %r: %r' % (k, e or g))
            for k in ('lat', 'lon', 'mag', 'depth', 'time'):
                for v in ('', 'abc', '1,2', '2008-05-12', '2008-13-12T06:28:01Z', '2008-05-12T06:28:61Z', '1 2'):
                    g, e = attempt(read_event_file, io.StringIO(doc(dict(at, **{k: v}), wrap)))
                    ctx.check(isinstance(e, ValueError), 'event file with %s=%r: %r' % (k, v, e or g))
            for parts in itertools.combinations(('year', 'month', 'day', 'hour', 'minute', 'second'), 5):
                a2 = {x: v for x, v in at.items() if x != 'time'}
                a2.update({p: '5' for p in parts})
                g, e = attempt(read_event_file, io.StringIO(doc(a2, wrap)))
                ctx.check(isinstance(e, ValueError), 'event file with only %r: %r' % (parts, e or g))
        ctx.traces += 1
    elif kind == 'src':
        i, n = case[1], case[2]
        rest = [()] + [c for m in range(1, n) for c in itertools.product(range(len(LINES)), repeat=m)]
        for r in rest:
            lines = [LINES[j] for j in (i,) + r]
            want = srcmodel(lines)
            for txt in ('\n'.join(lines), '\n'.join(lines) + '\n'):
                g, e = attempt(read_source, io.StringIO(txt))
                ctx.op()
                ctx.check(e is None, 'source file %r refused: %r' % (txt, e))
                if g != want or repr(g) != repr(want) and {k: repr(v) for k, v in g.items()} != {k: repr(v) for k, v in want.items()}:
                    raise Violation('source file %r: %r, expected %r' % (txt, g, want))
            ctx.traces += 1
            if not r:
                path = os.path.join(ctx.scratch, 'source.txt')
                with open(path, 'w') as f:
                    f.write('\n'.join(lines) + '\n')
                ctx.equal(read_source(path), want, 'source file %r from a path' % lines)
                f = io.StringIO('\n'.join(lines))
                read_source(f)
                ctx.check(not f.closed, 'the stream given was closed')
        ctx.outcome(i)
    elif kind == 'over':
        xml = '<earthquake id="a" netid="us" network="" lat="1" lon="2" mag="3" depth="4" locstring="l" time="2008-05-12T06:28:01Z" %s/>'
        for mech in ('', 'mech="SS"', 'mech=""', 'type="NM"'):
            for src, want in (('mech=RS', {'mech': 'RS', 'rake': 90.0}), ('mech=RS\nrake=45', {'mech': 'RS', 'rake': 45.0}), ('mag=6.5\ndepth=7', {'mag': 6.5, 'depth': 7}), ('lat=-10\nlocstring=x=y\n\n', {'lat': -10, 'locstring': 'x=y'}),
                              ('foo=1\ndip=12.5\nreference=Me\nFoo=b', {'foo': 1, 'dip': 12.5, 'reference': 'Me', 'Foo': 'b'})):
                if mech.startswith('type') and 'mech' in src:
                    pass
                o = Origin.fromFile(io.StringIO(xml % mech), sourcefile=io.StringIO(src))
                same_event(ctx, o, want, 'event file %s with source file %r' % (mech, src))
                if 'mech' not in want:
                    m = {'': 'ALL', 'mech=""': 'ALL'}.get(mech, mech[-3:-1])
                    same_event(ctx, o, {'mech': m, 'rake': RAKE[m]}, 'event file %s with source file %r' % (mech, src))
                ctx.op()
        for src in ('mech=XX', 'lat=91', 'lon=-181'):
            _, e = attempt(Origin.fromFile, io.StringIO(xml % ''), sourcefile=io.StringIO(src))
            ctx.check(isinstance(e, ValueError), 'source file %r: %r' % (src, e or 'accepted'))
        ctx.traces += 1
