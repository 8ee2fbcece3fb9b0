"""W01: event / region web queries against an in-process service below urllib's opener."""
import datetime
import email.message
import http.client
import io
import itertools
import json
import os
import socket
import time
import urllib.error
import urllib.parse
import urllib.request
import urllib.response
from mc.core import Violation, explore
from mc.fsutil import CaseDir

SLEPT = []
time.sleep = SLEPT.append            # virtual clock: waiting is recorded, not done
from impactutils.comcat import query  # noqa: E402

LEVEL = 'fault_enumeration'
RULE = ('(a) for the event query, the region query and the grid download: every sequence of service answers over {good, 503, 400, 404, '
        '429, 500, 502, refused, time-out on connect, time-out on read, cut-off body, invalid JSON, empty body, invalid UTF-8} for every '
        'request that is made (the whole tree, no bound on the number of failures); (b) every identifier set of size 1..4 over an '
        'alphabet of overlapping network prefixes x every network list order x every choice of the authoritative one; '
        '(c) every event value over boundary alphabets of coordinates, magnitudes, times and texts.')
ASSUMPTIONS = ['the service is reached through urllib.request', 'every identifier starts with at least one of the listed networks',
               'times are compared to the second']


class Fake(urllib.request.HTTPHandler, urllib.request.HTTPSHandler):
    """Answers every request from a script; urllib's own error processing runs above it."""
    def __init__(self):
        urllib.request.BaseHandler.__init__(self)
        self.log = []
        self.serve = None
        self.hang = []

    def https_request(self, req):
        return req
    http_request = https_request

    def http_open(self, req):
        self.log.append(req.full_url)
        if not isinstance(getattr(req, 'timeout', None), (int, float)):
            self.hang.append(req.full_url)
        return self.serve(req)
    https_open = http_open


FAKE = Fake()


def setup(tier):
    urllib.request.install_opener(urllib.request.build_opener(FAKE))


def resp(url, code, body, cut=False, slow=False):
    class B(io.BytesIO):
        def read(self, *a):
            if slow:
                raise socket.timeout('timed out')
            data = io.BytesIO.read(self, *a)
            if cut:
                raise http.client.IncompleteRead(data[:len(data) // 2])
            return data
    r = urllib.response.addinfourl(B(body), email.message.Message(), url, code)
    r.msg = 'status %d' % code
    return r


ANSWERS = ['good', 503, 404, 500, 400, 429, 502, 'refused', 'timeout', 'slow', 'cut', 'badjson', 'empty', 'badutf']


def answer(name, req, body):
    u = req.full_url
    if name == 'good':
        return resp(u, 200, body)
    if isinstance(name, int):
        return resp(u, name, b'<html>sorry</html>')
    if name == 'refused':
        raise urllib.error.URLError(ConnectionRefusedError(111, 'refused'))
    if name == 'timeout':
        raise socket.timeout('timed out')
    if name == 'slow':
        return resp(u, 200, body, slow=True)
    if name == 'cut':
        return resp(u, 200, body, cut=True)
    if name == 'badjson':
        return resp(u, 200, b'{"id": ')
    if name == 'empty':
        return resp(u, 200, b'')
    if name == 'badutf':
        return resp(u, 200, b'{"id": "\xff\xfe"}')
    raise AssertionError(name)


def event(**kw):
    d = {'type': 'Feature', 'id': 'us1000',
         'geometry': {'type': 'Point', 'coordinates': [-122.5, 47.25, 10.5]},
         'properties': {'ids': ',us1000,ci77,', 'sources': ',us,ci,', 'time': 1500000000000, 'mag': 6.5,
                        'place': '24km NE of Dharchula, India', 'tsunami': 1, 'url': 'https://x.test/us1000',
                        'products': {'shakemap': [{'contents': {'download/grid.xml': {'url': 'http://x.test/grid.xml'}}},
                                                  {'contents': {'download/grid.xml': {'url': 'http://x.test/old.xml'}}}]}}}
    for k, v in kw.items():
        if k in ('id', 'geometry'):
            d[k] = v
        else:
            d['properties'][k] = v
    return d


REG = {'metadata': {'request': 'r'}, 'authoritative': {'features': [{'properties': {'network': 'CI', 'type': 'anss'}},
                                                                    {'properties': {'network': 'ZZ', 'type': 'x'}}]},
       'tectonic': {'features': []}}
PLACES = {'geonames': {'features': [{'id': 1, 'properties': {'name': 'Málaga', 'population': 5}}, {'id': 2}]}}
NETS = ['at', 'atlas', 'us', 'usp', 'ci', 'u']
IDS = ['at1234', 'atlas4567', 'us2008', 'usp000', 'ci1', 'u5', 'usauto6', 'at']
GRID = '<?xml version="1.0"?>\n<g>\u00e9\u6771 x</g>\n'


def cases(tier):
    q = tier == 'quick'
    for what in ('event', 'geoserve', 'grid'):
        yield ['answers', what]
    for n in range(1, (3 if q else 4) + 1):
        for ids in itertools.permutations(IDS, n):
            yield ['ids', list(ids)]
    for k in range(3):
        yield ['ids', IDS[k:] + IDS[:k], 1]
        yield ['ids', ['%s%d' % (('us', 'ci', 'at', 'u')[i % (4 - k)], 1000 + i) for i in range(40)], 1]
    yield ['large']
    for lat, lon, dep in itertools.product([-90, -0.5, 0, 33.123456789, 90], [-180, -0.25, 0, 179.99, 180], [-3.5, 0, 0.01, 700]):
        yield ['params', [lon, lat, dep], 1500000000123, 5.5]
    for t in [0, 1, 999, 1000, 1500000000000, 1500000000999, 951782400000, 4102444799000, -1000, -86400000, -1500, -2208988800000]:
        for m in [None, -1.2, 0, 4, 9.5]:
            yield ['params', [1.5, 2.5, 3.5], t, m]
    for place in ['', 'x', '24km NE of Dharchula, India', 'Ōtautahi "quoted" \\ <&>', None]:
        for ts in (0, 1):
            yield ['misc', place, ts]
    for lat in ('1.5', -3, 45.25, 0, -90.0):
        for lon in (0, -179.5, 120.125):
            for rad, pop in ((500, 1000), (1, 0), (20.5, 999999)):
                yield ['geoquery', lat, lon, rad, pop]
    for f in (0, 1, 2):
        yield ['auth', f]
    for kind in ('ok', 'noproducts', 'noshake', 'nogrid', 'noproperties'):
        yield ['grids', kind]


def run(case, ctx):
    with CaseDir(ctx):
        globals()['do_' + case[0]](ctx, *case[1:])
    if FAKE.hang:
        raise Violation('request for %s without a time limit: a silent service hangs it' % FAKE.hang[0])


def fetched(path, want):
    with open(path, encoding='utf-8', newline='') as f:
        return f.read() == want


def begin():
    del FAKE.log[:]
    del SLEPT[:]


def outcome(fn):
    try:
        return 'ok', fn()
    except Violation:
        raise
    except Exception as e:
        return 'exc', e


def info(d):
    FAKE.serve = lambda req: answer('good', req, json.dumps(d).encode())
    return query.ComCatInfo(d['id'])


def do_answers(ctx, what):
    ev = event()

    def body(ch):
        begin()
        got = []

        def pick(req, data, names=ANSWERS):
            n = names[ch.choose(len(names), req.full_url)]
            got.append((req.full_url, n))
            ctx.op()
            return answer(n, req, data)

        if what == 'event':
            FAKE.serve = lambda req: pick(req, json.dumps(ev, ensure_ascii=False).encode())
            kind, val = outcome(lambda: query.ComCatInfo('us1000'))
            per = ['']
            bad = ('badjson', 'empty', 'badutf')
        elif what == 'geoserve':
            FAKE.serve = lambda req: pick(req, json.dumps(REG if 'regions' in req.full_url else PLACES, ensure_ascii=False).encode())
            kind, val = outcome(lambda: query.GeoServe(1.5, 2.5))
            per = ['regions', 'places']
            bad = ('badjson', 'empty', 'badutf')
        else:
            c = info(ev)
            begin()
            with open('grid.xml', 'w') as f:
                f.write('previous')
            FAKE.serve = lambda req: pick(req, GRID.encode('utf-8'), [a for a in ANSWERS if a not in ('badjson', 'empty')])
            kind, val = outcome(lambda: c.getShakeGrid('grid.xml'))
            per = ['']
            bad = ('badutf',)
        ctx.traces += 1
        ctx.state((what, got))
        ctx.outcome((what, kind, got))
        again = sum(1 for p in per if len([n for u, n in got if p in u]) > 1)
        ctx.check(len(SLEPT) == again and all(0 < t <= 60 for t in SLEPT), '%s: pauses %r for answers %r' % (what, SLEPT, got))
        failed = False
        for p in per:
            mine = [n for u, n in got if p in u]
            # urls: only the given one(s), requested again only after a 503
            ctx.check(len(set(u for u, n in got if p in u)) <= 1, '%s: different addresses requested %r' % (what, got))
            if not mine:
                ctx.check(failed or kind == 'exc', '%s: service not asked' % what)
                continue
            ctx.equal(len(mine), 2 if mine[0] == 503 else 1, '%s: number of requests for answers %r' % (what, mine))
            if mine[-1] != 'good':
                failed = True
        if what == 'geoserve' and not failed:
            ctx.equal(len(set(u for u, n in got)), 2, 'both services asked')
        if what == 'grid':
            ctx.equal(kind, 'ok', 'grid download raised %r' % (val,))
            if failed:
                ctx.equal(val, None, 'result of a failed grid download %r' % (got,))
                ctx.equal(open('grid.xml').read(), 'previous', 'local file after failed download %r' % (got,))
            else:
                ctx.equal(val, 'grid.xml', 'grid download')
                ctx.check(fetched('grid.xml', GRID), 'downloaded grid differs from the served text')
            return
        if failed:
            ctx.equal(kind, 'exc', '%s: answers %r must raise, result %r' % (what, got, val))
            return
        ctx.equal(kind, 'ok', '%s: good answer %r but raised %r' % (what, got, val))
        if what == 'event':
            ctx.equal(val.getAssociatedIds()[0], 'us1000', 'identifier')
            ctx.equal(val.getLocation(), ev['properties']['place'], 'place')
        else:
            check_geo(ctx, val, REG, PLACES)
    explore(body, bound=10)


def check_geo(ctx, g, reg, places):
    ctx.op(3)
    a1 = g.getAuthoritative()
    ctx.equal(g.getPlaces(), places['geonames']['features'], 'places')
    want = {k: v for k, v in reg.items() if k != 'metadata'}
    for _ in range(2):
        ctx.equal(g.getRegions(), want, 'regions')
    fs = reg['authoritative']['features']
    ctx.equal(a1, (fs[0]['properties']['network'], fs[0]['properties']['type']) if fs else ('US', 'NA'), 'authoritative region')
    ctx.equal(g.getAuthoritative(), a1, 'authoritative region, second time')
    ctx.equal(g.getPlaces(), places['geonames']['features'], 'places, second time')


def do_large(ctx):
    place = ''.join('%07d,' % i for i in range(400000))
    d = event(place=place)
    c = info(d)
    ctx.equal(c.getAssociatedIds(), ('us1000', ['ci77']), 'identifiers of a large answer')
    ctx.check(c.getLocation() == place, 'place of a large answer')
    grid = GRID + place
    places = {'geonames': {'features': [{'id': i, 'properties': {'name': 'M\u00e1laga %d' % i}} for i in range(20000)]}}
    for first in (['good'], [503, 'good']):
        left = list(first)
        FAKE.serve = lambda req: answer(left.pop(0), req, grid.encode('utf-8'))
        ctx.op(3)
        ctx.equal(c.getShakeGrid('grid.xml'), 'grid.xml', 'large grid')
        ctx.check(fetched('grid.xml', grid), 'downloaded large grid differs from the served text')
        left = first * 2
        FAKE.serve = lambda req: answer(left.pop(0), req, json.dumps(REG if 'regions' in req.full_url else places, ensure_ascii=False).encode())
        g = query.GeoServe(1, 2)
        ctx.check(g.getPlaces() == places['geonames']['features'], 'places of a large answer')
        left = list(first)
        FAKE.serve = lambda req: answer(left.pop(0), req, json.dumps(d, ensure_ascii=False).encode())
        ctx.check(query.ComCatInfo('us1000').getLocation() == place, 'place of a large answer')


def do_ids(ctx, ids, few=0):
    nets = [n for n in NETS]
    for k in range(1, len(nets) + 1):
        for ns in itertools.permutations(nets, k) if k <= 2 else [tuple(sorted(c, reverse=r)) for c in itertools.combinations(nets, k) for r in (0, 1)]:
            if not all(any(i.startswith(n) for n in ns) for i in ids):
                continue
            for auth in (ids[::len(ids) // 3] if few else ids):
                for fmt in (',%s,', '%s'):
                    c = query.ComCatInfo.__new__(query.ComCatInfo)
                    FAKE.serve = None
                    d = event(id=auth, ids=fmt % ','.join(ids), sources=fmt % ','.join(ns))
                    FAKE.serve = lambda req: answer('good', req, json.dumps(d).encode())
                    c = query.ComCatInfo(auth)
                    ctx.op(2)
                    ctx.traces += 1
                    others = [i for i in ids if i != auth]

                    def net(i):
                        return max((n for n in ns if i.startswith(n)), key=len)
                    for _ in range(2):
                        ctx.equal(c.getAssociatedIds(), (auth, others), 'identifiers of %r' % (d['properties'],))
                        ctx.equal(c.getAssociatedSources(), (net(auth), [net(i) for i in others]), 'networks of %r, id %s' % (d['properties'], auth))
    ctx.state(ids)


def do_params(ctx, coords, t, mag):
    d = event(geometry={'coordinates': coords}, time=t, mag=mag)
    c = info(d)
    ctx.op()
    ctx.state((coords, t, mag))
    p = c.getEventParams()
    ctx.equal(sorted(p), ['depth', 'lat', 'lon', 'magnitude', 'time'], 'parameter names')
    ctx.equal([p['lon'], p['lat'], p['depth'], p['magnitude']], coords + [mag], 'event parameters')
    want = datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=t)
    ctx.check(abs((p['time'] - want).total_seconds()) < 1 and (t % 1000 or p['time'] == want), 'time %r for %r' % (p['time'], t))
    ctx.outcome(p['time'])


def do_misc(ctx, place, ts):
    d = event(place=place, tsunami=ts, url='https://x.test/%s' % ts)
    c = info(d)
    ctx.op(4)
    ctx.state((place, ts))
    ctx.check('us1000' in FAKE.log[-1], 'request %r does not carry the event id' % FAKE.log[-1])
    ctx.equal((c.getLocation(), c.getTsunami(), c.getURL()), (place, ts, 'https://x.test/%s' % ts), 'place, tsunami, link')


def do_geoquery(ctx, lat, lon, rad, pop):
    begin()
    FAKE.serve = lambda req: answer('good', req, json.dumps(REG if 'regions' in req.full_url else PLACES).encode())
    g = query.GeoServe(lat, lon) if (rad, pop) == (500, 1000) else query.GeoServe(lat, lon, maxradius=rad, minpop=pop)
    ctx.op()
    ctx.state((lat, lon, rad, pop))
    for u in FAKE.log:
        p = urllib.parse.urlsplit(u)
        kv = dict(urllib.parse.parse_qsl(p.query))
        ctx.equal((float(kv['latitude']), float(kv['longitude'])), (float(lat), float(lon)), 'coordinates requested')
        if 'places' in p.path:
            ctx.equal((float(kv['maxradiuskm']), float(kv['minpopulation'])), (float(rad), float(pop)), 'limits requested')
    check_geo(ctx, g, REG, PLACES)


def do_auth(ctx, n):
    reg = dict(REG, authoritative={'features': REG['authoritative']['features'][:n]})
    FAKE.serve = lambda req: answer('good', req, json.dumps(reg if 'regions' in req.full_url else PLACES).encode())
    check_geo(ctx, query.GeoServe(1, 2), reg, PLACES)


def do_grids(ctx, kind):
    d = event()
    pr = d['properties']
    if kind == 'noproducts':
        del pr['products']
    elif kind == 'noshake':
        del pr['products']['shakemap']
    elif kind == 'nogrid':
        pr['products']['shakemap'][0]['contents'] = {}
    elif kind == 'noproperties':
        pr['products']['shakemap'] = []
    c = info(d)
    want = 'http://x.test/grid.xml' if kind == 'ok' else None
    ctx.op(2)
    ctx.equal(c.getShakeGrid(), want, 'grid link')
    begin()
    FAKE.serve = lambda req: answer('good', req, GRID.encode('utf-8'))
    r = c.getShakeGrid('out.xml')
    ctx.equal(r, 'out.xml' if kind == 'ok' else None, 'grid download')
    ctx.equal(os.path.exists('out.xml'), kind == 'ok', 'local file exists')
    ctx.equal(FAKE.log, [want] if want else [], 'requests')
    ctx.state(kind)
