"""Full Eotvos correction."""
import math

import numpy as np
import pandas as pd

from ..core import Group

RULE = ('One case = one track (straight, curved, accelerating, heaving) at one sampling rate. Non-trivial: non-zero velocity; signature: kind, '
        'latitude band, rate, height kind, axes given or not, length bucket.')
ASSUMPTIONS = ["Tight oracle: Harlan's (1968) formulation in scalar form, 1e-6 mGal plus rounding of the second differences.",
               'Independent oracle: second time derivative of the position on the ellipsoid in an inertial frame, projected on the vertical, '
               'minus that of a point at rest; agreement within the first-order flattening error of the formulation.']
TARGETS = ['grav.eotvos_full']
WE = 0.00007292115


def harlan(lon, lat, ht, samp, a=6378137.0, b=6356752.3142):
    n = len(lon)
    e = (a - b) / a
    P, L = [math.radians(v) for v in lat], [math.radians(v) for v in lon]
    out = [0.0] * n
    for i in range(1, n - 1):
        d = lambda y: (y[i + 1] - y[i - 1]) * samp / 2
        dd = lambda y: (y[i + 1] - 2 * y[i] + y[i - 1]) * samp ** 2
        p = P[i]
        p1, p2, l1, h, h1, h2 = d(P), dd(P), d(L), ht[i], d(ht), dd(ht)
        s, c, s2, c2 = math.sin(p), math.cos(p), math.sin(2 * p), math.cos(2 * p)
        rp = a * (1 - e * s * s)
        rp1 = -a * e * s2 * p1
        rp2 = -a * e * s2 * p2 - 2 * a * e * c2 * p1 ** 2
        D = math.atan(e * s2)
        D1 = 2 * e * c2 * p1
        D2 = 2 * e * c2 * p2 - 4 * e * s2 * p1 ** 2
        sD, cD = math.sin(D), math.cos(D)
        # frame: x north, y east, z down
        rx, rz = -rp * sD, -rp * cD - h
        vx, vz = -rp1 * sD - rp * D1 * cD, -rp1 * cD + rp * D1 * sD - h1
        az = -rp2 * cD + 2 * rp1 * D1 * sD + rp * (D2 * sD + D1 ** 2 * cD) - h2
        wx, wy, wz = (l1 + WE) * c, -p1, -(l1 + WE) * s
        cor = 2 * (wx * 0.0 - wy * vx)
        ang = -(-p2) * rx
        # (w x (w x r))_z
        wr = (wy * rz, wz * rx - wx * rz, -wy * rx)
        cen = wx * wr[1] - wy * wr[0]
        # earth-rate only
        ex, ez = WE * c, -WE * s
        cen0 = ex * (ez * rx - ex * rz)
        out[i] = (az + cor + ang + cen - cen0) * 1e5
    out[0], out[-1] = out[1], out[-2]
    return np.array(out)


def inertial(lon, lat, ht, samp, a=6378137.0, b=6356752.3142):
    """Vertical (ellipsoid normal, down) acceleration in an inertial frame minus that at rest; interior samples."""
    e2 = 1 - (b / a) ** 2
    n = len(lon)
    t = np.arange(n) / samp

    def ecef(dlon):
        p, l = np.radians(lat), np.radians(lon) + dlon
        N = a / np.sqrt(1 - e2 * np.sin(p) ** 2)
        return np.array([(N + ht) * np.cos(p) * np.cos(l), (N + ht) * np.cos(p) * np.sin(l), (N * (1 - e2) + ht) * np.sin(p)])
    X = ecef(WE * (t - t[n // 2]))
    acc = (X[:, 2:] - 2 * X[:, 1:-1] + X[:, :-2]) * samp ** 2
    p, l = np.radians(lat)[1:-1], (np.radians(lon) + WE * (t - t[n // 2]))[1:-1]
    down = -np.array([np.cos(p) * np.cos(l), np.cos(p) * np.sin(l), np.sin(p)])
    rest = WE ** 2 * np.cos(p) ** 2 * (a / np.sqrt(1 - e2 * np.sin(p) ** 2) + ht[1:-1])
    return ((acc * down).sum(0) - rest) * 1e5


def track(ctx, n, samp, smooth=False):
    kind = ctx.pick('straight', 'curve', 'accelerate', 'zigzag' if not smooth else 'curve', 'still')
    t = np.arange(n) / samp
    lat0, lon0 = ctx.pick(ctx.uni(-80, 80), ctx.uni(-80, 80), 0.0, 45.0), ctx.pick(ctx.uni(-170, 170), ctx.uni(-170, 170), 0.0, ctx.uni(-.01, .01), 360.0, 180.0)
    k = 180 / math.pi / 6.37e6
    sp, az = ctx.pick(5., 10., 3., 80., 300. if not smooth else 20.), ctx.pick(ctx.uni(0, 2 * math.pi), math.pi / 2, 0., -math.pi / 2)
    T = t[-1] + 1 / samp
    if kind == 'still':
        N, E = 0 * t, 0 * t
    elif kind == 'straight':
        N, E = sp * math.cos(az) * t, sp * math.sin(az) * t
    elif kind == 'curve':
        w = min(ctx.uni(.5, 3) / T, .01 * samp if smooth else 9.)
        N, E = sp / w * np.sin(w * t + az), sp / w * np.cos(w * t + az)
    elif kind == 'accelerate':
        N, E = math.cos(az) * (sp * t + sp * t ** 2 / T / 4), math.sin(az) * (sp * t + sp * t ** 2 / T / 4)
    else:
        az = np.where((np.arange(n) // 20) % 2 == 0, az, az + 1.)
        N, E = np.cumsum(sp * np.cos(az)) / samp, np.cumsum(sp * np.sin(az)) / samp
    lat = lat0 + N * k
    lon = lon0 + E * k / np.cos(np.radians(lat0))
    hk = ctx.pick('zero', 'zero', 'const', 'heave', 'climb')
    ht = {'zero': 0 * t, 'const': 0 * t + ctx.uni(-20, 3000), 'heave': ctx.uni(.1, 3) * np.sin(2 * np.pi * t / ctx.uni(8, 20) / max(1, 1 / samp)),
          'climb': ctx.uni(-3, 3) * t + 50}[hk]
    return kind, hk, lon, lat, ht


def frozen(x):
    x = np.array(x)
    x.flags.writeable = False
    return x


def full(ctx):
    samp = ctx.pick(1, 1.0, 2, .1, 10, 1 / 60, 20, 50., 100)
    n = ctx.pick(3, 4, 10, 60, ctx.randint(3, 200)) if ctx.idx % 80 else ctx.pick(1500, 5001, 20001, 110001)
    kind, hk, lon, lat, ht = track(ctx, n, samp)
    kw = {}
    if ctx.chance(.25):
        kw = ctx.pick({'a': 6378388.0, 'b': 6356911.946}, {'a': 6371000.0, 'b': 6371000.0}, {'a': 6378137.0}, {'b': 6356752.3142}, {'b': 6378137.0}, {'b': 6356911.946}, {'a': 6378388.0}, {'a': 6378137.3, 'b': 6356000.})
    hole = n > 4 and ctx.chance(.2)
    if hole:        # dropped fixes spoil themselves and their neighbours only
        lon, lat, ht = lon.copy(), lat.copy(), np.array(ht, float)
        for y in ctx.pick((lon, lat), (ht,), (lon, lat, ht), (lat,), (lon,)):
            y[ctx.rng.integers(0, n, ctx.randint(1, max(1, n // 12)))] = math.nan
    ctx.inputs = {'lon': lon, 'lat': lat, 'ht': ht, 'samp': samp, 'kw': kw}
    box = ctx.pick('array', 'array', 'list', 'series', 'cut series', 'shuffled series', 'readonly')
    whole = not hole and ctx.chance(.1)
    if whole:       # heights in whole metres, kept as integers
        ht = np.round(ht)
    put = {'array': np.array, 'list': list, 'series': pd.Series, 'cut series': lambda x: pd.Series(x, index=range(7, 7 + n)),
           'shuffled series': lambda x, o=ctx.rng.permutation(n): pd.Series(x, index=o), 'readonly': frozen}[box]
    E = ctx.call('grav.eotvos_full', put(lon), put(lat), put(ht.astype(ctx.pick('int64', 'int32', 'int16' if np.max(np.abs(ht)) < 32000 else 'int64')) if whole else ht), samp, **kw)
    want = harlan(lon, lat, ht, samp, **kw)
    noise = 1e-16 * (200 * math.pi / 180 * 6.4e6 * .01 + np.max(np.abs(np.nan_to_num(ht)))) * samp ** 2 * 1e5 * 40
    if hole:
        E = np.array(E, float)
        own = np.isnan(lon + lat + ht)       # at a dropped fix itself no value is promised
        own[[0, -1]] = own[[1, -2]]
        E = np.where(np.isnan(want), math.nan, np.where(own & np.isnan(E), want, E)) if E.shape == want.shape else E
    ctx.close(E, want, 'Eotvos correction (mGal)', rtol=1e-9, atol=1e-6 + noise)
    ctx.cover('full', kind, hk, int(np.nan_to_num(lat[0]) // 20), samp, len(kw), n // 50, box, hole, whole)


def physics(ctx):
    n = ctx.randint(20, 120)
    samp = ctx.pick(1, .1, .5, 1 / 30)
    kind, hk, lon, lat, ht = track(ctx, n, samp, smooth=True)
    if hk == 'heave':
        ht = ht * 0
    ctx.inputs = {'lon': lon, 'lat': lat, 'ht': ht, 'samp': samp}
    E = np.asarray(ctx.call('grav.eotvos_full', lon.copy(), lat.copy(), ht.copy(), samp), float)
    want = inertial(lon, lat, ht, samp)
    sp = 6.37e6 * np.radians(np.max(np.hypot(np.diff(lat), np.diff(lon)))) * samp
    # position rounding in ECEF: 1e-9 m * samp^2; first-order flattening: (2 w v + v^2/R) * 5e-5 ... finite steps
    tol = 2e-9 * samp ** 2 * 1e5 * 4 + 4e-3 * (2 * WE * sp + sp ** 2 / 6.37e6) * 1e5 + 1e-2
    ctx.close(E[1:-1], want, 'vertical acceleration from motion over the rotating earth (mGal)', rtol=2e-4, atol=tol)
    ctx.cover('physics', kind, hk, int(lat[0] // 20), samp)


def textbook(ctx):
    """Constant course and speed at sea level: 2 w v cos(lat) sin(course) + v^2/R; still platform: nothing; east against west."""
    lat0, v, az = ctx.uni(-70, 70), ctx.uni(0, 12), ctx.uni(0, 2 * math.pi)
    n, samp = 60, ctx.pick(1, 2)
    t = np.arange(n) / samp
    s2 = math.sin(math.radians(lat0)) ** 2
    e2 = 0.00669437999
    Nr = 6378137 / math.sqrt(1 - e2 * s2)
    Mr = Nr * (1 - e2) / (1 - e2 * s2)

    def go(ve, vn):
        lat = lat0 + np.degrees(vn * t / Mr)
        lon = 20 + np.degrees(ve * t / Nr / math.cos(math.radians(lat0)))
        return float(np.median(np.asarray(ctx.call('grav.eotvos_full', lon, lat, np.zeros(n), samp), float)[5:-5]))
    ve, vn = v * math.sin(az), v * math.cos(az)
    ctx.inputs = {'lat': lat0, 've': ve, 'vn': vn}
    want = (2 * WE * ve * math.cos(math.radians(lat0)) + ve ** 2 / Nr + vn ** 2 / Mr) * 1e5
    ctx.close(go(ve, vn), want, 'Eotvos effect at constant speed (mGal)', rtol=3e-3, atol=.15)
    ctx.close(go(0., 0.), 0., 'a platform at rest', atol=1e-6)
    ctx.check(go(v + .5, 0.) > 0 > go(-v - .5, 0.), 'sailing east makes the correction positive, west negative', lat=lat0, v=v)
    ctx.cover('textbook', int(lat0 // 10), int(v), int(az))


GROUPS = [Group('full', full, 250, 5000), Group('physics', physics, 80, 1600), Group('textbook', textbook, 60, 1000)]
