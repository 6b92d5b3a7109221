"""Gravity of a density contrast across topography along a line (Parker)."""
import math

import numpy as np

from ..core import Group

RULE = ('One case = one profile (odd and even length, any spacing, random or smooth relief) with level and contrast. Non-trivial: non-flat relief; '
        'signature: kind, length, level above relief in units of the spacing, sign of the contrast.')
ASSUMPTIONS = ['Tight oracle: Parker\'s series to fifth order about the mean of the profile, edges extended by the end values over two profile lengths on '
               'each side, evaluated as explicit cosine/sine sums (1e-9 of the largest value; profiles of more than 80 points by numpy\'s transform).',
               'Independent oracle: direct integration of the attraction of the strip between relief and mean, periodic images included, up to a constant.']
TARGETS = ['grav.grav1d_padded']
G = 6.673e-8


def parker(x, topo, zlev, rho, npower=5):
    nx = len(x)
    dx = abs(x[-1] - x[0]) / (nx - 1)
    base = math.fsum(topo) / nx
    p = np.r_[np.full(2 * nx, topo[0]), topo, np.full(2 * nx, topo[-1])] - base
    n = len(p)
    j = np.arange(n)
    out = np.zeros(nx)
    at = np.arange(2 * nx, 3 * nx)
    if nx > 80:         # the same sums by numpy's transform
        k = 2 * math.pi * np.minimum(j, n - j) / (n * dx)
        S, f = np.zeros(n, complex), 1.
        for q in range(1, npower + 1):
            f *= q
            S += k ** (q - 1) / f * np.fft.fft(p ** q)
        S[0] = 0
        return 2 * math.pi * G * rho * np.fft.ifft(S * np.exp(-(zlev - base) * k)).real[at] * 100
    # real cosine/sine series, wave by wave
    for w in range(1, n // 2 + 1):
        k = 2 * math.pi * w / (n * dx)
        ph = 2 * math.pi * ((w * j) % n) / n
        c, s = np.cos(ph), np.sin(ph)
        a = b = 0.
        f, pw = 1., np.ones(n)
        for q in range(1, npower + 1):
            pw = pw * p
            f *= q
            a += k ** (q - 1) / f * (pw @ c)
            b += k ** (q - 1) / f * (pw @ s)
        m = (1 if 2 * w == n else 2) / n
        out += m * math.exp(-(zlev - base) * k) * (a * c[at] + b * s[at])
    return 2 * math.pi * G * rho * out * 100


def direct(x, topo, zlev, rho, wings):
    """Attraction (mGal) at the level of the strips between the mean and the relief (fine sampling, periodic images)."""
    nx = len(x)
    dx = x[1] - x[0]
    base = np.mean(topo)
    fine = 8
    xp = np.arange(5 * nx)
    p = np.r_[np.full(2 * nx, topo[0]), topo, np.full(2 * nx, topo[-1])]
    xf = np.arange(5 * nx * fine) / fine
    pf = np.interp(xf, xp, p, period=5 * nx)
    L = 5 * nx * dx
    out = np.empty(nx)
    for i in range(nx):
        d = np.abs(xf * dx - (2 * nx + i) * dx)
        a = b = 0.
        for im in range(-wings, wings + 1):
            dd = d + im * L
            a = a + np.log(dd ** 2 + (zlev - base) ** 2)
            b = b + np.log(dd ** 2 + (zlev - pf) ** 2)
        out[i] = 6.673e-11 * rho * np.sum(a - b) * dx / fine * 1e5
    return out


def profile(ctx, n, dx, smooth=False):
    k = ctx.pick('bump', 'waves') if smooth else ctx.pick('bump', 'waves', 'random', 'step', 'ramp', 'flat')
    t = np.arange(n)
    amp = ctx.pick(-1, 1) * ctx.uni(.02, .3) * dx * (1 if smooth else ctx.pick(1, 1, 3))
    if k == 'bump':
        z = amp * np.exp(-((t - n * ctx.uni(.35, .65)) / (n * ctx.uni(.06, .12))) ** 2)
    elif k == 'waves':
        z = amp * sum(ctx.uni(-1, 1) * np.sin(math.pi * q * t / (n - 1)) ** (1 if not smooth else 2) for q in range(1, 4))
    elif k == 'random':
        z = amp * ctx.rng.normal(size=n)
    elif k == 'step':
        z = amp * (t > ctx.randint(0, max(0, n - 2)))
    elif k == 'ramp':
        z = amp * t / n
    else:
        z = np.zeros(n)
    if not smooth and ctx.chance(.15):      # sea level cut off, plateaus
        z = np.clip(z, *ctx.pick((0., None), (None, 0.), (-.5 * abs(amp), .5 * abs(amp))))
        k += ' cut'
    return k, z + ctx.pick(0., 0., -4000., 1500., ctx.uni(-5000, 5000))


def series(ctx):
    n = ctx.pick(2, 3, 4, 5, 6, 7, 8, 25, 26, ctx.randint(5, 60), ctx.randint(5, 60))
    if ctx.idx % 12 == 5:
        n = ctx.pick(ctx.randint(81, 700), ctx.randint(600, 2500), ctx.randint(2500, 12000))
    dx = ctx.pick(100., 500., 1300., ctx.loguni(10, 5000))
    k, z = profile(ctx, n, dx)
    zlev = ctx.pick(np.max(z) + dx * ctx.uni(.3, 4), np.max(z) + dx * ctx.uni(1, 10), max(0., np.max(z)) + dx)
    rho = ctx.pick(1.7, 600., 1640., -500., ctx.uni(-2, 3))
    x0 = ctx.pick(0., -1e4, 5e5)
    x = x0 + dx * np.arange(n)
    if ctx.chance(.15):
        x = x[::-1].copy() * -1
    elif ctx.chance(.2):        # run from east to west
        x = x[::-1].copy()
    put = np.array
    if ctx.chance(.15):
        z = np.round(z)
        zlev = float(math.ceil(max(zlev, np.max(z) + .3 * dx)))
        put, zlev = ctx.pick((lambda v: np.array(v, 'int64'), int(zlev)), (lambda v: np.array(v, 'int32'), np.int64(zlev)), (list, int(zlev)), (lambda v: [int(q) for q in v], zlev))
    ctx.inputs = {'x': x, 'topo': z, 'zlev': zlev, 'rho': rho}
    g = ctx.call('grav.grav1d_padded', ctx.pick(np.array, np.array, list)(x), put(z), zlev, rho)
    want = parker(x, z, zlev, rho)
    ctx.close(g, want, 'gravity along the profile (mGal)', rtol=1e-9, atol=1e-9 * np.max(np.abs(want)) + 1e-13)
    if k == 'flat':
        ctx.close(g, np.zeros(n), 'flat relief has no anomaly', atol=1e-10)
    ctx.cover(k, n, int((zlev - np.max(z)) / dx), rho > 0, x[0] < x[-1], put is np.array)


def physics(ctx):
    n = ctx.randint(24, 41)
    dx = ctx.pick(200., 1000., 2500.)
    k, z = profile(ctx, n, dx, smooth=True)
    zlev = np.max(z) + dx * ctx.uni(2.5, 6)
    rho = ctx.uni(300, 2500) * ctx.pick(-1, 1)
    x = dx * np.arange(n)
    ctx.inputs = {'x': x, 'topo': z, 'zlev': zlev, 'rho': rho}
    g = np.asarray(ctx.call('grav.grav1d_padded', x, z.copy(), zlev, rho), float)
    d = direct(x, z, zlev, rho, 12)
    r = np.ptp(d)
    ctx.close(g - g.mean(), d - d.mean(), 'attraction of the relief by direct integration, up to a constant (mGal)', atol=.03 * r)
    ctx.count('direct_integrations', n)
    ctx.cover('physics', k, n, rho > 0, int(zlev // dx))


def relations(ctx):
    """Level, height datum, contrast and direction of the profile."""
    n = ctx.randint(8, 60)
    dx = ctx.loguni(50, 3000)
    k, z = profile(ctx, n, dx)
    zlev, rho = np.max(z) + dx * ctx.uni(1, 5), ctx.uni(.5, 3)
    x = dx * np.arange(n)
    ctx.inputs = {'x': x, 'topo': z, 'zlev': zlev, 'rho': rho}
    g = np.asarray(ctx.call('grav.grav1d_padded', x, z.copy(), zlev, rho), float)
    s = 1e-8 * np.max(np.abs(g)) + 1e-12
    ctx.close(ctx.call('grav.grav1d_padded', x, z.copy(), zlev, -2 * rho), -2 * g, 'anomaly is proportional to the contrast', atol=s)
    h = ctx.uni(-3000, 3000)
    ctx.close(ctx.call('grav.grav1d_padded', x, z + h, zlev + h, rho), g, 'anomaly depends on heights relative to the level only', atol=s * 100)
    ctx.close(ctx.call('grav.grav1d_padded', x + 1e5, z.copy(), zlev, rho), g, 'position of the origin', atol=s * 100)
    ctx.close(np.asarray(ctx.call('grav.grav1d_padded', x, z[::-1].copy(), zlev, rho))[::-1], g, 'reversed profile', atol=s)
    ctx.cover('relations', k, n)


GROUPS = [Group('series', series, 200, 3000), Group('physics', physics, 24, 300), Group('relations', relations, 40, 600)]
