"""Solid-earth tide prediction."""
import math
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

import numpy as np
import pandas as pd

from ..core import Group
from ..gen import UTC

RULE = ('One case = one set of places and times (1900-2100, all latitudes and longitudes, several time zones). Non-trivial: always; signature: '
        'group, era, latitude band, longitude quadrant, container of times, altitude, components.')
ASSUMPTIONS = ["Tight oracle: Longman's (1959) formulas re-implemented scalar by scalar, 1e-7 mGal for times on whole seconds, 6e-5 mGal otherwise "
               '(the tide changes by less than that in one second).',
               'Independent oracle: low-precision ephemerides of sun and moon (Meeus, Astronomical Algorithms, main terms) and the vector form of the '
               'tidal acceleration; agreement with Longman within 0.012 mGal is what the formulas allow.']
TARGETS = ['grav.longman_tide_prediction']
T0 = datetime(1899, 12, 31, 12, tzinfo=UTC)


def longman(lon, lat, t, alt=0.0):
    """(total, moon, sun) in mGal; one place, one aware time."""
    u = t.astimezone(UTC)
    d = (u - T0)
    T = (d.days + (d.seconds + d.microseconds / 1e6) / 86400) / 36525
    hour = u.hour + u.minute / 60 + (u.second + u.microsecond / 1e6) / 3600
    sin, cos = math.sin, math.cos
    ecc, mm, inc, om = 0.05490, 0.074804, 0.08979719, math.radians(23.452)
    s = 4.720023434 + T * (8399.709299 + T * 4.40696e-5)
    p = 5.835124713 + T * (71.01800936 + T * (-1.80545e-4 - T * 2.1817e-7))
    h = 4.88162792 + T * (628.3319509 + T * 5.27962e-6)
    N = 4.523588564 + T * (-33.75715303 + T * 3.6749e-5)
    p1 = 4.908229461 + T * (0.03000526416 + T * 7.902463e-6)
    e1 = 0.01675104 - T * (0.0000418 + T * 0.000000126)
    I = math.acos(cos(om) * cos(inc) - sin(om) * sin(inc) * cos(N))
    nu = math.asin(sin(inc) * sin(N) / sin(I))
    ha = math.radians(15 * (hour - 12) + lon)
    ca = cos(N) * cos(nu) + sin(N) * sin(nu) * cos(om)
    sa = sin(om) * sin(N) / sin(I)
    xi = N - 2 * math.atan(sa / (1 + ca))
    l = s - xi + 2 * ecc * sin(s - p) + 1.25 * ecc ** 2 * sin(2 * (s - p)) + 3.75 * mm * ecc * sin(s - 2 * h + p) + 1.375 * mm ** 2 * sin(2 * (s - h))
    l1 = h + 2 * e1 * sin(h - p1)
    phi = math.radians(lat)

    def zen(incl, lng, ra):
        return sin(phi) * sin(incl) * sin(lng) + cos(phi) * (cos(incl / 2) ** 2 * cos(lng - ra) + sin(incl / 2) ** 2 * cos(lng + ra))
    ct, cp = zen(I, l, ha + h - nu), zen(om, l1, ha + h)
    r = 6.378270e8 / math.sqrt(1 + 0.006738 * sin(phi) ** 2) + alt * 100
    c, c1 = 3.84402e10, 1.495e13
    ap, ap1 = 1 / (c * (1 - ecc ** 2)), 1 / (c1 * (1 - e1 ** 2))
    dm = 1 / c + ap * (ecc * cos(s - p) + ecc ** 2 * cos(2 * (s - p)) + 1.875 * mm * ecc * cos(s - 2 * h + p) + mm ** 2 * cos(2 * (s - h)))
    ds = 1 / c1 + ap1 * e1 * cos(h - p1)
    muM, muS = 6.673e-8 * 7.3537e25, 6.673e-8 * 1.993e33
    gm = muM * r * dm ** 3 * (3 * ct ** 2 - 1) + 1.5 * muM * r ** 2 * dm ** 4 * (5 * ct ** 3 - 3 * ct)
    gs = muS * r * ds ** 3 * (3 * cp ** 2 - 1)
    k = 1e3 * (1 + 0.612 - 1.5 * 0.303)
    return (gm + gs) * k, gm * k, gs * k


def meeus(lon, lat, t):
    """Tide from the geometry of sun and moon; upward attraction positive, as for Longman."""
    u = t.astimezone(UTC)
    jd = 2451545.0 + (u - datetime(2000, 1, 1, 12, tzinfo=UTC)).total_seconds() / 86400
    T = (jd - 2451545) / 36525
    R = math.radians
    L0, M = 280.46646 + 36000.76983 * T, R(357.52911 + 35999.05029 * T)
    e = 0.016708634 - 4.2037e-5 * T
    C = (1.914602 - .004817 * T) * math.sin(M) + .019993 * math.sin(2 * M) + .000289 * math.sin(3 * M)
    sun = R(L0 + C)
    Rs = 1.000001018 * (1 - e * e) / (1 + e * math.cos(M + R(C))) * 149597870.7e3
    Lp = R(218.3164477 + 481267.88123421 * T)
    D, F = R(297.8501921 + 445267.1114034 * T), R(93.2720950 + 483202.0175233 * T)
    Mp = R(134.9633964 + 477198.8675055 * T)
    dl = (6.288774 * math.sin(Mp) + 1.274027 * math.sin(2 * D - Mp) + .658314 * math.sin(2 * D) + .213618 * math.sin(2 * Mp)
          - .185116 * math.sin(M) - .114332 * math.sin(2 * F) + .058793 * math.sin(2 * D - 2 * Mp) + .057066 * math.sin(2 * D - M - Mp)
          + .053322 * math.sin(2 * D + Mp) + .045758 * math.sin(2 * D - M) - .040923 * math.sin(M - Mp) - .034720 * math.sin(D) - .030383 * math.sin(M + Mp))
    be = (5.128122 * math.sin(F) + .280602 * math.sin(Mp + F) + .277693 * math.sin(Mp - F) + .173237 * math.sin(2 * D - F)
          + .055413 * math.sin(2 * D - Mp + F) + .046271 * math.sin(2 * D - Mp - F) + .032573 * math.sin(2 * D + F))
    Rm = (385000.56 - 20905.355 * math.cos(Mp) - 3699.111 * math.cos(2 * D - Mp) - 2955.968 * math.cos(2 * D) - 569.925 * math.cos(2 * Mp)
          + 48.888 * math.cos(M) + 246.158 * math.cos(2 * D - 2 * Mp) - 152.138 * math.cos(2 * D - M - Mp) - 170.733 * math.cos(2 * D + Mp)
          - 204.586 * math.cos(2 * D - M) - 129.620 * math.cos(M - Mp) + 108.743 * math.cos(D) + 104.755 * math.cos(M + Mp)) * 1e3
    eps = R(23.4392911 - .0130042 * T)
    gmst = R((280.46061837 + 360.98564736629 * (jd - 2451545)) % 360)
    phi, th = R(lat), gmst + R(lon)
    rr = 6378137 * (1 - math.sin(phi) ** 2 / 298.257)
    gc = phi - R(.1924) * math.sin(2 * phi)
    up = np.array([math.cos(gc) * math.cos(th), math.cos(gc) * math.sin(th), math.sin(gc)])
    tot = 0.
    for lam, beta, dist, gm in ((Lp + R(dl), R(be), Rm, 4.9028e12), (sun, 0., Rs, 1.32712e20)):
        x = np.array([math.cos(beta) * math.cos(lam), math.cos(beta) * math.sin(lam) * math.cos(eps) - math.sin(beta) * math.sin(eps),
                      math.cos(beta) * math.sin(lam) * math.sin(eps) + math.sin(beta) * math.cos(eps)]) * dist
        y = x - up * rr
        tot += gm * float(up @ (y / np.linalg.norm(y) ** 3 - x / dist ** 3))
    return tot * 1e5 * (1 + 0.612 - 1.5 * 0.303)


def era(ctx):
    k = ctx.pick('modern', 'modern', 'modern', 'old', 'future', 'edge', 'before')
    if k == 'modern':
        t = datetime(1985, 1, 1, tzinfo=UTC) + timedelta(seconds=ctx.randint(0, 45 * 365 * 86400))
    elif k == 'old':
        t = datetime(1900, 1, 1, tzinfo=UTC) + timedelta(seconds=ctx.randint(0, 85 * 365 * 86400))
    elif k == 'before':         # the origin of the theory and before
        t = T0 - timedelta(seconds=ctx.pick(0, 1, 43200, 43201, -1, -43200, ctx.randint(0, 80 * 365 * 86400), ctx.randint(0, 10 ** 7)))
    elif k == 'future':
        t = datetime(2030, 1, 1, tzinfo=UTC) + timedelta(seconds=ctx.randint(0, 70 * 365 * 86400))
    else:
        t = datetime(ctx.randint(1980, 2040), ctx.pick(1, 2, 3, 12), ctx.pick(1, 28), ctx.pick(0, 12, 23, 11), ctx.pick(0, 59), ctx.pick(0, 59), tzinfo=UTC)
    return k, t


ZONES = [timezone.utc, timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(hours=-9, minutes=-30)), timezone(timedelta(hours=14)),
         timezone(timedelta(hours=-11)), ZoneInfo('UTC')]


def wrap_times(ctx, ts):
    """The same instants in some container / time zone."""
    k = ctx.pick('list', 'list', 'series', 'index', 'object', 'zone', 'mixed')
    if k == 'series':      # row labels need not count up from 0
        n = len(ts)
        lab = ctx.pick(range(n), range(n), range(5, 5 + n), range(n)[::-1], ctx.rng.permutation(n), [0] * n)
        return k, pd.Series(pd.to_datetime(ts), index=list(lab))
    if k == 'index':
        return k, pd.DatetimeIndex(ts)
    if k == 'object':
        return k, np.array(ts, dtype=object)
    if k == 'zone':
        z = ctx.pick(*ZONES)
        return k, [t.astimezone(z) for t in ts]
    if k == 'mixed':
        return k, [t.astimezone(ctx.pick(*ZONES)) for t in ts]
    return k, list(ts)


def places(ctx, n):
    lat = ctx.pick(ctx.rng.uniform(-90, 90, n), np.full(n, ctx.pick(0., 90., -90., 45.)), ctx.uni(-80, 80) + np.arange(n) * .01)
    lon = ctx.pick(ctx.rng.uniform(-180, 180, n), ctx.rng.uniform(0, 360, n), np.full(n, ctx.pick(0., 180., -180., 90.)), ctx.uni(-170, 170) + np.arange(n) * .01)
    return lon, lat


def predict(ctx):
    n = ctx.pick(1, 3, 12)
    k, t = era(ctx)
    step = ctx.pick(1, 60, 3600, 86400, 977)
    sub = ctx.chance(.2)
    ts = [t + timedelta(seconds=i * step, microseconds=ctx.randint(0, 999999) if sub else 0) for i in range(n)]
    lon, lat = places(ctx, n)
    alt = ctx.pick(None, 0, 0.0, 30.0, 4000, -2500., -5000, 'array')
    altv = ctx.rng.uniform(-6000, 9000, n) if alt == 'array' else np.full(n, float(alt or 0))
    hole = n > 1 and ctx.chance(.15)
    if hole:        # a place unknown: its own prediction is lost, no other
        lon, lat = np.array(lon), np.array(lat)
        ctx.pick(lon, lat)[ctx.randint(0, n - 1)] = math.nan
    elif ctx.chance(.1):
        lon, lat = np.round(lon), np.round(lat)
    ck, tt = wrap_times(ctx, ts)
    ctx.inputs = {'lon': lon, 'lat': lat, 'times': [str(x) for x in tt], 'alt': altv, 'container': ck}
    kw = {} if alt is None else {'alt': altv.copy() if alt == 'array' else alt}
    if not hole and np.all(lon == np.round(lon)) and np.all(lat == np.round(lat)) and ctx.chance(.6):
        pos = ctx.pick(lambda v: np.array(v, 'int64'), lambda v: np.array(v, 'int32'), lambda v: [int(q) for q in v], lambda v: pd.Series(np.array(v, 'int32')))
        altv = np.round(altv)
        if alt == 'array':
            kw['alt'] = altv.astype('int16')
    else:
        pos = ctx.pick(np.array, np.array, pd.Series, list, lambda v, o=ctx.rng.permutation(n): pd.Series(v, index=o))
    if ctx.chance(.5):
        g = ctx.call('grav.longman_tide_prediction', pos(lon), pos(lat), tt, return_components=True, **kw)
        ctx.check(isinstance(g, tuple) and len(g) == 3, 'total, lunar and solar series expected', got=g)
    else:
        g = (ctx.call('grav.longman_tide_prediction', pos(lon), pos(lat), tt, **kw),)
    want = np.array([longman(*a) for a in zip(lon, lat, ts, altv)])
    for j, x in enumerate(g):
        ctx.close(x, want[:, j], ('total', 'lunar', 'solar')[j] + ' tide (mGal)', rtol=1e-9, atol=6e-5 if sub else 1e-7)
    if len(g) == 3:
        ctx.close(g[1] + g[2], g[0], 'lunar and solar parts sum to the total', rtol=1e-12, atol=1e-12)
    ctx.count('predictions', n)
    ctx.cover('predict', k, int(np.nan_to_num(lat[0]) // 30), int(np.nan_to_num(lon[0]) // 90), ck, alt == 'array', len(g), sub, hole)


def nature(ctx):
    """Against the actual positions of sun and moon."""
    _, t = era(ctx)
    t = max(min(t, datetime(2060, 1, 1, tzinfo=UTC)), datetime(1900, 1, 1, tzinfo=UTC))
    n = 24
    ts = [t + timedelta(minutes=97 * i) for i in range(n)]
    lon, lat = np.full(n, ctx.uni(-180, 180)), np.full(n, ctx.uni(-80, 80))
    ctx.inputs = {'lon': lon[0], 'lat': lat[0], 'start': str(t)}
    g = np.asarray(ctx.call('grav.longman_tide_prediction', lon, lat, ts), float)
    w = np.array([meeus(lon[0], lat[0], x) for x in ts])
    ctx.close(g, w, 'tide from the positions of sun and moon (mGal)', atol=0.012)
    ctx.run.stats['largest_difference_to_ephemeris_umGal'] = max(ctx.run.stats.get('largest_difference_to_ephemeris_umGal', 0), int(1e6 * np.max(np.abs(g - w))))
    ctx.check(np.max(np.abs(g)) < 0.35, 'tides are below 0.35 mGal', got=float(np.max(np.abs(g))))
    ctx.cover('nature', t.year // 10, int(lat[0] // 15))


def instants(ctx):
    """The result depends on the instant only: time zone, order and company of the samples do not matter."""
    n = ctx.randint(2, 12)
    _, t = era(ctx)
    ts = [t + timedelta(seconds=int(s)) for s in ctx.rng.integers(0, 10 ** 7, n)]
    lon, lat = ctx.rng.uniform(-180, 180, n), ctx.rng.uniform(-90, 90, n)
    base = np.asarray(ctx.call('grav.longman_tide_prediction', lon, lat, ts), float)
    k, tt = wrap_times(ctx, ts)
    ctx.close(ctx.call('grav.longman_tide_prediction', lon, lat, tt), base, 'same instants, other representation', atol=1e-9)
    z = ZoneInfo(ctx.pick('America/New_York', 'Europe/London', 'Pacific/Auckland', 'Asia/Kolkata')) if ctx.chance(.7) else ZONES[ctx.randint(1, 4)]
    ctx.close(ctx.call('grav.longman_tide_prediction', lon, lat, [x.astimezone(z) for x in ts]), base, 'same instants in a local time zone', atol=1e-9)
    o = ctx.rng.permutation(n)
    ctx.close(ctx.call('grav.longman_tide_prediction', lon[o], lat[o], [ts[i] for i in o]), base[o], 'samples in another order', atol=1e-9)
    i = ctx.randint(0, n - 1)
    ctx.close(ctx.call('grav.longman_tide_prediction', lon[i:i + 1], lat[i:i + 1], ts[i:i + 1]), base[i:i + 1], 'a sample alone', atol=1e-9)
    ctx.close(ctx.call('grav.longman_tide_prediction', lon + 360, lat, ts), base, 'longitudes a full turn apart', atol=1e-8)
    ctx.cover('instants', k, str(z), n)


def refuse(ctx):
    n, m, q = ((2, 3, 3), (3, 2, 3), (3, 3, 2), (1, 1, 2))[ctx.idx % 4]
    t = datetime(2020, 1, 1, tzinfo=UTC)
    ok, res = ctx.call_raw('grav.longman_tide_prediction', np.zeros(n), np.zeros(m), [t] * q)
    ctx.check(not ok, 'series of different lengths are accepted', lengths=[n, m, q], got=res)
    ctx.cover('refuse', n, m, q)


def voyage(ctx):
    """A day and more of predictions; some of them are recomputed."""
    n = ctx.pick(1500, 12001, 90001)
    _, t = era(ctx)
    step = ctx.pick(1, 1, 60, .1)
    ts = [t + timedelta(seconds=i * step) for i in range(n)]
    lon, lat = ctx.uni(-170, 170) + np.arange(n) * 1e-5, ctx.uni(-80, 80) + np.arange(n) * 1e-5
    ctx.inputs = {'start': str(t), 'step': step, 'n': n, 'lon': lon[0], 'lat': lat[0]}
    g = np.asarray(ctx.call('grav.longman_tide_prediction', lon.copy(), lat.copy(), ctx.pick(list, pd.DatetimeIndex, pd.Series)(ts)), float)
    ctx.check(g.shape == (n,), 'one prediction per sample', got=g.shape)
    at = sorted({0, 1, n // 2, n - 2, n - 1} | {int(i) for i in ctx.rng.integers(0, n, 300)} | {b + d for b in (1000, 1024, 4096, 8192, 10000, 32768, 65536, 86400) for d in (-1, 0, 1) if b + 1 < n})
    ctx.close(g[at], [longman(lon[i], lat[i], ts[i])[0] for i in at], 'tide of a long voyage (mGal)', rtol=1e-9, atol=6e-5 if step == .1 else 1e-7)
    ctx.check(np.all(np.isfinite(g)) and np.max(np.abs(np.diff(g, 2))) < 1e-6 * step ** 2 + 2e-4, 'tide of a long voyage is smooth')
    ctx.cover('voyage', n, step)


GROUPS = [Group('voyage', voyage, 4, 24), Group('predict', predict, 250, 5000), Group('nature', nature, 40, 800), Group('instants', instants, 60, 1200), Group('refuse', refuse, 8, 16)]
