"""Velocities from a position series."""
import math
from fractions import Fraction

import numpy as np
import pandas as pd

from ..core import Group

RULE = ('One case = one position series (polynomial, oscillating, random-walk or great-circle-like) at one sampling rate. Non-trivial: at '
        'least one interior sample with a non-zero derivative; signature: kind, length bucket, latitude band, container, rate bucket.')
ASSUMPTIONS = ['WGS84 semi-axes as in the public constants (6378137.0 m, 6356752.314245 m); 1e-9 relative plus rounding of the differences.']
TARGETS = ['nav.latlon_to_EN']
A, B = 6378137.0, 6356752.314245


def stencil(n=5):
    """Central first-derivative weights of order 2n, derived exactly."""
    # sum_k c_k * 2*k^(2j+1) = [j == 0], j = 0..n-1
    M = [[Fraction(2 * k ** (2 * j + 1)) for k in range(1, n + 1)] + [Fraction(1 if j == 0 else 0)] for j in range(n)]
    for i in range(n):
        p = next(r for r in range(i, n) if M[r][i] != 0)
        M[i], M[p] = M[p], M[i]
        M[i] = [v / M[i][i] for v in M[i]]
        for r in range(n):
            if r != i:
                M[r] = [a - M[r][i] * b for a, b in zip(M[r], M[i])]
    return [float(M[i][n]) for i in range(n)]


W = stencil()


def reference(lon, lat, freq):
    n = len(lon)
    vn, ve = [math.nan] * n, [math.nan] * n
    e2 = 1 - (B / A) ** 2
    if n > 4000:        # the same sums, all samples at once
        lon, lat = np.asarray(lon, float), np.asarray(lat, float)
        vn, ve = np.full(n, math.nan), np.full(n, math.nan)
        D = lambda y: sum(W[k - 1] * (y[5 + k:n - 5 + k] - y[5 - k:n - 5 - k]) for k in range(1, 6))
        phi = np.radians(lat[5:-5])
        w2 = 1 - e2 * np.sin(phi) ** 2
        vn[5:-5] = np.radians(D(lat)) * freq * A * (1 - e2) / w2 ** 1.5
        ve[5:-5] = np.radians(D(lon)) * freq * A / np.sqrt(w2) * np.cos(phi)
        return vn, ve
    for i in range(5, n - 5):
        dlat = math.fsum(W[k - 1] * (lat[i + k] - lat[i - k]) for k in range(1, 6))
        dlon = math.fsum(W[k - 1] * (lon[i + k] - lon[i - k]) for k in range(1, 6))
        phi = math.radians(lat[i])
        w2 = 1 - e2 * math.sin(phi) ** 2
        vn[i] = math.radians(dlat) * freq * A * (1 - e2) / w2 ** 1.5
        ve[i] = math.radians(dlon) * freq * A / math.sqrt(w2) * math.cos(phi)
    return np.array(vn), np.array(ve)


def wrap(ctx, a, kind):
    if kind == 'list':
        return [float(v) for v in a]
    if kind == 'series':
        return pd.Series(a)
    if kind == 'readonly':
        a = np.array(a)
        a.flags.writeable = False
        return a
    return np.array(a)


def judge(ctx, lon, lat, freq, kind, default=False):
    ctx.inputs = {'lon': lon, 'lat': lat, 'freq': freq, 'container': kind}
    x, y = wrap(ctx, lon, kind), wrap(ctx, lat, kind)
    out = ctx.call('nav.latlon_to_EN', x, y) if default else ctx.call('nav.latlon_to_EN', x, y, freq=freq)
    ctx.check(isinstance(out, tuple) and len(out) == 2, 'two velocity series expected', got=out)
    vn, ve = np.asarray(out[0], float), np.asarray(out[1], float)
    rn, re = reference(lon, lat, 1 if default else freq)
    f = 1 if default else freq
    atol = 1e-13 * f * A * math.pi / 180 * max(1e-300, np.max(np.abs(np.r_[lon, lat])))
    ctx.close(vn, rn, 'north velocity (first series)', rtol=1e-9, atol=atol * 3)
    ctx.close(ve, re, 'east velocity (second series)', rtol=1e-9, atol=atol * 3)
    ctx.count('velocity_samples_checked', 2 * (len(lon) - 10))
    return vn, ve


def series(ctx):
    n = ctx.pick(11, 12, 13, 21, 60, ctx.randint(11, 400)) if ctx.idx % 75 else ctx.pick(5003, 20001, 90001)
    t = np.arange(n)
    kind = ctx.pick('poly', 'wave', 'walk', 'straight', 'still')
    lat0 = ctx.pick(0., 45., -60., 89., ctx.uni(-89, 89))
    lon0 = ctx.pick(0., 179., -179., 180., -180., 360., ctx.uni(180, 360), ctx.uni(-180, 180))       # continuous past +/-180 and 360 (unwrapped)
    if kind == 'poly':
        d = ctx.randint(1, 10)
        u = (t - n / 2) / n
        lat = lat0 + .5 * np.polyval(ctx.rng.normal(size=d + 1) / (d + 1), u)
        lon = lon0 + .5 * np.polyval(ctx.rng.normal(size=d + 1) / (d + 1), u)
    elif kind == 'wave':
        lat = lat0 + .01 * np.sin(t / ctx.uni(1, 50))
        lon = lon0 + .01 * np.cos(t / ctx.uni(1, 50) + ctx.uni(0, 6))
    elif kind == 'walk':
        lat = lat0 + np.cumsum(ctx.rng.normal(size=n)) * 1e-5
        lon = lon0 + np.cumsum(ctx.rng.normal(size=n)) * 1e-5
    elif kind == 'straight':
        lat = lat0 + t * ctx.uni(-1e-4, 1e-4)
        lon = lon0 + t * ctx.uni(-1e-4, 1e-4)
    else:
        lat, lon = np.full(n, lat0), np.full(n, lon0)
    lat = np.clip(lat, -90, 90)
    freq = ctx.pick(1, 1.0, 2, 10, .1, .5, 4, ctx.loguni(.01, 100))
    c = ctx.pick('array', 'array', 'list', 'series', 'readonly')
    judge(ctx, lon, lat, freq, c, default=ctx.chance(.15))
    ctx.cover(kind, n // 40, int(lat0 // 15), c, int(math.log10(freq) * 2))


def exact(ctx):
    """Polynomial tracks of degree up to ten are differentiated exactly: compare with the derivative itself."""
    n = ctx.randint(15, 60)
    d = ctx.randint(1, 10)
    u = (np.arange(n) - n // 2) / n
    p, q = ctx.rng.normal(size=d + 1) / (d + 1), ctx.rng.normal(size=d + 1) / (d + 1)
    lat0 = ctx.uni(-80, 80)
    lat, lon = lat0 + np.polyval(p, u), ctx.uni(-170, 170) + np.polyval(q, u)
    freq = ctx.loguni(.1, 20)
    vn, ve = (np.asarray(v) for v in ctx.call('nav.latlon_to_EN', lon.copy(), lat.copy(), freq))
    s = slice(5, n - 5)
    e2 = 1 - (B / A) ** 2
    phi = np.radians(lat[s])
    w2 = 1 - e2 * np.sin(phi) ** 2
    ctx.close(vn[s], np.radians(np.polyval(np.polyder(p), u[s]) / n) * freq * A * (1 - e2) / w2 ** 1.5, 'north velocity of a polynomial track', rtol=1e-7, atol=1e-5 * freq)
    ctx.close(ve[s], np.radians(np.polyval(np.polyder(q), u[s]) / n) * freq * A * np.cos(phi) / np.sqrt(w2), 'east velocity of a polynomial track', rtol=1e-7, atol=1e-5 * freq)
    ctx.cover('exact', d, n // 10)


def sphere(ctx):
    """Distance travelled: integrating the speed gives the length of the track on the ellipsoid (chord sums)."""
    n = ctx.randint(100, 300)
    t = np.arange(n)
    lat = ctx.uni(-75, 75) + 2e-3 * np.sin(t / ctx.uni(60, 200)) + t * ctx.uni(-4e-5, 4e-5)
    lon = ctx.uni(-170, 170) + 3e-3 * np.cos(t / ctx.uni(60, 200)) + t * ctx.uni(-4e-5, 4e-5)
    freq = ctx.pick(1, 2, 10)
    vn, ve = (np.asarray(v) for v in ctx.call('nav.latlon_to_EN', lon, lat, freq))
    e2 = 1 - (B / A) ** 2
    ph, la = np.radians(lat), np.radians(lon)
    N = A / np.sqrt(1 - e2 * np.sin(ph) ** 2)
    P = np.c_[N * np.cos(ph) * np.cos(la), N * np.cos(ph) * np.sin(la), N * (1 - e2) * np.sin(ph)]
    v = (P[2:] - P[:-2]) * freq / 2
    s = slice(5, n - 5)
    ctx.close(np.hypot(vn, ve)[s], np.linalg.norm(v, axis=1)[4:-4], 'speed over the ellipsoid', rtol=2e-4, atol=2e-3 * freq)
    ph, la = ph[1:-1], la[1:-1]
    east = np.c_[-np.sin(la), np.cos(la), 0 * la]
    north = np.c_[-np.sin(ph) * np.cos(la), -np.sin(ph) * np.sin(la), np.cos(ph)]
    ctx.close(ve[s], (v * east).sum(1)[4:-4], 'east component', rtol=2e-3, atol=4e-3 * freq)
    ctx.close(vn[s], (v * north).sum(1)[4:-4], 'north component', rtol=2e-3, atol=4e-3 * freq)
    ctx.cover('sphere', int(lat[0] // 10), freq)


def refuse(ctx):
    n, m = ((10, 10), (0, 0), (1, 1), (5, 5), (11, 12), (30, 29), (20, 11))[ctx.idx % 7]
    ok, res = ctx.call_raw('nav.latlon_to_EN', np.zeros(n), np.zeros(m))
    ctx.check(not ok, 'series of %d and %d points give velocities instead of an error' % (n, m), got=res)
    ctx.cover('refuse', n, m)


def unknown(ctx):
    """Unknown positions (dropouts at the ends, single samples, one of the two series) make only their neighbours unknown."""
    n = ctx.randint(11, 80)
    t = np.arange(n)
    lat = ctx.uni(-85, 85) + np.cumsum(ctx.rng.normal(size=n)) * 1e-5
    lon = ctx.uni(-179, 179) + t * ctx.uni(-1e-4, 1e-4)
    at = set()
    for _ in range(ctx.pick(1, 1, 2, 4)):
        k = ctx.pick('first', 'last', 'run', 'one', 'one')
        i = {'first': 0, 'last': n - 1}.get(k, ctx.randint(0, n - 1))
        m = ctx.pick(1, 1, 2, 5) if k != 'run' else ctx.randint(2, 15)
        at |= set(range(i, min(n, i + m))) if k != 'last' else set(range(n - m, n))
    at = sorted(at)
    which = ctx.pick('both', 'both', 'lat', 'lon')
    if which != 'lon':
        lat[at] = math.nan
    if which != 'lat':
        lon[at] = math.nan
    freq = ctx.pick(1, 1, 2, 10, .1)
    kind = ctx.pick('array', 'list', 'series', 'readonly')
    ctx.inputs = {'lon': lon, 'lat': lat, 'freq': freq, 'container': kind}
    vn, ve = (np.asarray(v, float) for v in ctx.call('nav.latlon_to_EN', wrap(ctx, lon, kind), wrap(ctx, lat, kind), freq=freq))
    rn, re = reference(lon, lat, freq)
    atol = 3e-13 * freq * A * math.pi / 180 * 180
    for got, want, series, name in ((vn, rn, lat, 'north'), (ve, re, lon, 'east')):
        ctx.check(len(got) == n, '%s velocity of %d positions' % (name, n), got=len(got))
        near = np.array([np.isnan(series[max(0, i - 5):i + 6]).any() or (name == 'east' and np.isnan(lat[i])) for i in range(n)])
        inner = (t >= 5) & (t < n - 5)
        ctx.close(got[~near & inner], want[~near & inner], '%s velocity away from unknown positions' % name, rtol=1e-9, atol=atol)
        centre = np.array([np.isnan(series[[i for i in range(max(0, j - 5), min(n, j + 6)) if i != j]]).any() for j in t])
        if name == 'north' or which != 'lat':
            bad = centre & inner & np.isfinite(got)
            ctx.check(not bad.any(), '%s velocity known although a position it needs is not' % name, at=np.flatnonzero(bad))
    ctx.cover('unknown', which, len(at), at[0] == 0, at[-1] == n - 1, kind)


GROUPS = [Group('unknown', unknown, 120, 2500), Group('series', series, 300, 6000), Group('exact', exact, 80, 1500), Group('sphere', sphere, 60, 1000), Group('refuse', refuse, 14, 30)]
