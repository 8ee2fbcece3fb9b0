"""Rupture geometry for the checks: builders of vertex lists and independent reference geometry
(WGS84 ECEF, point-to-quadrilateral distance, local tangent plane)."""
import math
import numpy as np

A = 6378137.0
F = 1 / 298.257223563
E2 = F * (2 - F)


def ecef(lon, lat, dep):
    """lon/lat degrees, depth km (positive down) -> ECEF km, WGS84."""
    lo, la = math.radians(lon), math.radians(lat)
    n = A / math.sqrt(1 - E2 * math.sin(la) ** 2)
    h = -dep * 1000.0
    return np.array([(n + h) * math.cos(la) * math.cos(lo), (n + h) * math.cos(la) * math.sin(lo), (n * (1 - E2) + h) * math.sin(la)]) / 1000.0


def wraplon(lo):
    while lo > 180:
        lo -= 360
    while lo < -180:
        lo += 360
    return lo


def step(lon, lat, az, km):
    """Small step on the ellipsoid in the local tangent frame (good to ~1e-3 of the step for steps up to ~50 km)."""
    la = math.radians(lat)
    w = math.sqrt(1 - E2 * math.sin(la) ** 2)
    rm = A * (1 - E2) / w ** 3 / 1000
    rn = A / w / 1000
    a = math.radians(az)
    # second order: use latitude midway
    dn, de = km * math.cos(a), km * math.sin(a)
    la2 = la + dn / rm
    lm = (la + la2) / 2
    wm = math.sqrt(1 - E2 * math.sin(lm) ** 2)
    lo2 = math.radians(lon) + de / (A / wm / 1000 * math.cos(lm))
    return wraplon(math.degrees(lo2)), math.degrees(la2)


def group(lon, lat, strike, lengths, bends, dip, width, top, slope=0.0, twist=0.0):
    """Closed vertex list of one polygon. Top edge vertices follow the strike (bend added after each segment); the lower edge is
    the top edge shifted by the same lon/lat offset; slope: top (and bottom) deepen by `slope` km per vertex; twist: bottom
    vertex i is displaced a further twist*i km down-dip."""
    pts = [(lon, lat)]
    s = strike
    for L, b in zip(lengths, bends):
        pts.append(step(pts[-1][0], pts[-1][1], s, L))
        s += b
    h, v = width * math.cos(math.radians(dip)), width * math.sin(math.radians(dip))
    lo3, la3 = step(lon, lat, strike + 90, h)
    dlo, dla = lo3 - lon, la3 - lat
    if dlo > 180:
        dlo -= 360
    if dlo < -180:
        dlo += 360
    top_v = [[p[0], p[1], top + slope * i] for i, p in enumerate(pts)]
    bot_v = []
    for i, p in enumerate(pts):
        lo, la = wraplon(p[0] + dlo), p[1] + dla
        if twist and i:
            lo, la = step(lo, la, strike + 90, twist * i)
        bot_v.append([lo, la, top + v + slope * i])
    r = [[round(c, 5) for c in q] for q in top_v + bot_v[::-1]]
    return r + [list(r[0])]


def doc(polys, reference='ref', metadata=None):
    m = {'reference': reference}
    m.update(metadata or {})
    return {'type': 'FeatureCollection', 'metadata': m, 'features': [{'type': 'Feature', 'properties': {'rupture type': 'rupture extent'},
                                                                        'geometry': {'type': 'MultiPolygon', 'coordinates': [polys]}}]}


def quads_of(poly):
    """[(P0, P1, P2, P3)] of a closed polygon, vertices as given."""
    v = poly[:-1]
    n = len(v) // 2
    top, bot = v[:n], v[n:][::-1]
    return [(top[i], top[i + 1], bot[i + 1], bot[i]) for i in range(n - 1)]


def off_plane(q):
    """distance of P2 from the plane P0 P1 P3, relative to the lower edge"""
    p = [ecef(*x) for x in q]
    n = np.cross(p[1] - p[0], p[3] - p[0])
    n = n / np.linalg.norm(n)
    return abs(np.dot(n, p[2] - p[0])) / np.linalg.norm(p[3] - p[2])


def seg_dist(p, a, b):
    d = b - a
    t = np.dot(p - a, d) / np.dot(d, d)
    t = min(1.0, max(0.0, t))
    return float(np.linalg.norm(p - a - t * d))


def tri_dist(p, a, b, c):
    """distance from p to triangle a b c (Ericson, closest point)."""
    ab, ac, ap = b - a, c - a, p - a
    n = np.cross(ab, ac)
    nn = np.dot(n, n)
    if nn > 0:
        # barycentric coordinates of the foot point
        w = np.dot(np.cross(ab, ap), n) / nn
        v = np.dot(np.cross(ap, ac), n) / nn
        if v >= 0 and w >= 0 and v + w <= 1:
            return float(abs(np.dot(ap, n)) / math.sqrt(nn))
    return min(seg_dist(p, a, b), seg_dist(p, b, c), seg_dist(p, c, a))


def quad_dist(p, q):
    """distance (km) from ECEF point p to the planar convex quadrilateral q of ECEF points."""
    return min(tri_dist(p, q[0], q[1], q[2]), tri_dist(p, q[0], q[2], q[3]))


def enu(lon0, lat0, p):
    """local east, north, up (km) of ECEF km point p about lon0, lat0, 0"""
    o = ecef(lon0, lat0, 0)
    lo, la = math.radians(lon0), math.radians(lat0)
    e = np.array([-math.sin(lo), math.cos(lo), 0])
    n = np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)])
    u = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    d = p - o
    return float(d @ e), float(d @ n), float(d @ u)
