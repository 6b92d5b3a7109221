"""Normal gravity on the ellipsoid and the free-air correction."""
import math

import numpy as np
import pandas as pd

from ..core import Group

RULE = ('One case = one set of latitudes (and heights). Non-trivial: always; signature: function, container, latitude band, height magnitude, medium.')
ASSUMPTIONS = ['Normal gravity is compared with Somigliana\'s formula computed from the WGS84 defining constants (1e-9 relative, i.e. 0.001 mGal).',
               'Free air is compared with the published second-order coefficients (0.3087691, 0.0004398, 7.2125e-8; 0.22242 in water) at 1e-12, and '
               'loosely with the field of the ellipsoid.']
TARGETS = ['grav.wgs_grav', 'grav.free_air_second_order']

a, f, GM, om = 6378137.0, 1 / 298.257223563, 3.986004418e14, 7.292115e-5
b = a * (1 - f)
m = om ** 2 * a ** 2 * b / GM
ep = math.sqrt((a / b) ** 2 - 1)
q0 = .5 * ((1 + 3 / ep ** 2) * math.atan(ep) - 3 / ep)
q0p = 3 * (1 + 1 / ep ** 2) * (1 - math.atan(ep) / ep) - 1
GE = GM / (a * b) * (1 - m - m * ep * q0p / (6 * q0)) * 1e5
GP = GM / a ** 2 * (1 + m * ep * q0p / (3 * q0)) * 1e5


def somigliana(lat):
    c2, s2 = math.cos(math.radians(lat)) ** 2, math.sin(math.radians(lat)) ** 2
    return (a * GE * c2 + b * GP * s2) / math.sqrt(a * a * c2 + b * b * s2)


def lats(ctx, n):
    k = ctx.pick('band', 'globe', 'special')
    if k == 'band':
        c = ctx.uni(-85, 85)
        return k, ctx.rng.uniform(c - 2, c + 2, n)
    if k == 'globe':
        return k, ctx.rng.uniform(-90, 90, n)
    return k, np.array([ctx.pick(0., 90., -90., 45., -45., 30., 60., 1e-9) for _ in range(n)])


def wrap(ctx, *arrs):
    k = ctx.pick('array', 'array', 'series', 'scalar', 'readonly', 'column')
    if k == 'series':
        return k, [pd.Series(x) for x in arrs]
    if k == 'scalar':
        t = ctx.pick(float, float, np.float64)
        return k, [t(x[0]) for x in arrs]
    if k == 'list':
        return k, [[float(v) for v in x] for x in arrs]
    if k == 'column':
        return k, [np.array(x)[:, None] for x in arrs]
    out = [np.array(x) for x in arrs]
    if k == 'readonly':
        for x in out:
            x.flags.writeable = False
    return k, out


def normal(ctx):
    n = ctx.pick(1, 2, 3, 5, 40) if ctx.idx % 50 else ctx.pick(1500, 20001, 90001, 150001)
    band, lat = lats(ctx, n)
    if ctx.chance(.2):      # no position: no gravity there, and nowhere else
        lat[ctx.rng.integers(0, n, ctx.randint(1, max(1, n // 3)))] = math.nan
    k, (x,) = wrap(ctx, lat)
    if ctx.chance(.15):
        lat = np.round(lat)
        x, k = ctx.pick(lambda: (np.nan_to_num(lat).astype(ctx.pick('int64', 'int32')), 'int'), lambda: (int(np.nan_to_num(lat[0])), 'scalar'))()
        lat = np.nan_to_num(lat)
    if k == 'scalar':
        lat = lat[:1]
    ctx.inputs = {'lat': lat, 'container': k}
    g = np.ravel(np.asarray(ctx.call('grav.wgs_grav', x), float))
    ctx.close(g, [somigliana(v) for v in lat], 'normal gravity on the ellipsoid (mGal)', rtol=1e-9)
    g2 = np.ravel(np.asarray(ctx.call('grav.wgs_grav', -x), float))
    ctx.close(g2, g, 'normal gravity is the same north and south', rtol=1e-12)
    ctx.cover('normal', k, band, int(np.nan_to_num(lat[0]) // 15), bool(np.isnan(lat).any()))


def freeair(ctx):
    n = ctx.pick(1, 2, 3, 5, 40) if ctx.idx % 60 else ctx.pick(1500, 20001, 90001, 150001)
    band, lat = lats(ctx, n)
    ht = ctx.pick(ctx.rng.normal(size=n) * ctx.loguni(1e-6, 1e-1), ctx.rng.normal(size=n) * 3, ctx.rng.uniform(0, 9000, n), ctx.rng.uniform(-11000, 0, n), np.zeros(n), ctx.rng.uniform(0, 3e5, n))
    water = ctx.pick(False, False, True, None)
    k, (x, h) = wrap(ctx, lat, ht)
    if k in ('array', 'series') and ctx.chance(.4):
        # grids of heights often come as small integers
        t = ctx.pick('int16', 'int32', 'int64', 'uint16')
        ht = np.clip(np.round(ht), 0 if t == 'uint16' else -32000, 32000)
        h, k = (np.array(ht).astype(t) if k == 'array' else pd.Series(ht.astype(t))), k + ' ' + t
    elif ctx.chance(.2):    # unknown places or heights
        lat, ht = np.array(lat), np.array(ht)
        for y in ctx.pick((lat,), (ht,), (lat, ht)):
            y[ctx.rng.integers(0, n, ctx.randint(1, max(1, n // 3)))] = math.nan
        k, (x, h) = wrap(ctx, lat, ht)
    if k == 'scalar':
        lat, ht = lat[:1], ht[:1]
        if ctx.chance(.3):
            lat, ht = np.round(np.nan_to_num(lat)), np.round(np.nan_to_num(ht))
            x, h = ctx.pick(int, np.int64, np.int32)(lat[0]), ctx.pick(int, np.int64, np.int32)(ht[0])
    ctx.inputs = {'lat': lat, 'ht': ht, 'free_water': water, 'container': k}
    kw = {} if water is None else {'free_water': water}
    fa = np.ravel(np.asarray(ctx.call('grav.free_air_second_order', x, h, **kw), float))
    top = 0.22242 if water else 0.3087691
    want = [-(top - 0.0004398 * math.sin(math.radians(p)) ** 2) * z + 7.2125e-8 * z * z for p, z in zip(lat, ht)]
    ctx.close(fa, want, 'free-air correction (mGal)', rtol=1e-12, atol=1e-9)
    if not water:
        # the ellipsoid's own field: -2 g/a (1+f+m-2f sin^2) h + 3 g/a^2 h^2
        own = [somigliana(p) * (-2 / a * (1 + f + m - 2 * f * math.sin(math.radians(p)) ** 2) * z + 3 / a ** 2 * z * z) for p, z in zip(lat, ht)]
        ctx.close(fa, own, 'change of normal gravity with height', rtol=2e-3, atol=1e-6)
    ctx.cover('freeair', k, band, water, int(math.log10(abs(np.nan_to_num(ht[0])) + 1)), bool(np.isnan(lat + ht).any()))


def shapes(ctx):
    """A scalar height serves a series of latitudes and the other way round."""
    n = ctx.randint(2, 20)
    _, lat = lats(ctx, n)
    h = ctx.uni(-100, 5000)
    full = ctx.call('grav.free_air_second_order', lat.copy(), np.full(n, h))
    ctx.close(ctx.call('grav.free_air_second_order', lat.copy(), h), full, 'one height for all', rtol=1e-12)
    hh = ctx.rng.uniform(-100, 5000, n)
    ctx.close(ctx.call('grav.free_air_second_order', float(lat[0]), hh.copy()), ctx.call('grav.free_air_second_order', np.full(n, lat[0]), hh.copy()), 'one latitude for all', rtol=1e-12)
    ctx.cover('shapes', n)


def slopes(ctx):
    """Small steps in latitude and height make small, proportional steps in gravity."""
    lat, ht = ctx.uni(-80, 80) if ctx.chance(.7) else ctx.pick(-1, 1) * ctx.uni(.5, 89), ctx.uni(-3000, 9000)
    w = ctx.chance(.5)
    c2 = math.sin(math.radians(lat)) ** 2
    for d in (1e-6, 1e-5, 3e-5, 1e-4):
        x = lat + d * np.arange(-4., 5.)
        h = 1e-6 * d
        g = np.asarray(ctx.call('grav.wgs_grav', x.copy()), float)
        mid = x[:-1] + d / 2
        slope = np.array([(somigliana(m + 1e-3) - somigliana(m - 1e-3)) / 2e-3 for m in mid])
        ctx.close(np.diff(g), slope * d, 'small steps of latitude (mGal)', rtol=1e-3, atol=5e-9)
        fa = np.asarray(ctx.call('grav.free_air_second_order', x.copy(), np.full(9, ht), free_water=w), float)
        ctx.close(np.diff(fa), .0004398 * np.sin(2 * np.radians(mid)) * math.radians(d) * ht, 'small steps of latitude, free air (mGal)', rtol=1e-3, atol=1e-11)
        z = ht + d * np.arange(-4., 5.)
        fa = np.asarray(ctx.call('grav.free_air_second_order', np.full(9, lat), z.copy(), free_water=w), float)
        top = .22242 if w else .3087691
        ctx.close(np.diff(fa), (-(top - .0004398 * c2) + 2 * 7.2125e-8 * (z[:-1] + d / 2)) * d, 'small steps of height, free air (mGal)', rtol=1e-3, atol=1e-11)
    ctx.cover('slopes', int(lat // 10), int(ht // 1000), w)


GROUPS = [Group('slopes', slopes, 60, 800), Group('normal', normal, 150, 3000), Group('freeair', freeair, 250, 5000), Group('shapes', shapes, 30, 300)]
