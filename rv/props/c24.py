"""Gravity of a layer of laterally varying density."""
import math

import numpy as np

from ..core import Group
from .c23 import dft

RULE = ('One case = one density grid with spacings and layer depths. Non-trivial: density that varies; signature: kind, sizes, spacing ratio, '
        'layer thickness bucket, whether the grid has a wavenumber beyond Nyquist in the known finding.')
ASSUMPTIONS = ['Density in kg/m3, spacings and depths in km; 1e-9 of the largest value. The mean density has no effect.',
               'A result is reported as the known finding only where it equals the defect\'s exact value (1e-9); grids without energy at the wavenumber '
               'concerned must be right.']
TARGETS = ['grav.grav2d_layer_variable_density']


def waves(n, d, bad=False):
    if bad:
        return np.array([i if i <= n / 2 + 1 else i - n for i in range(n)]) * 2 * math.pi / (n * d)
    return np.array([min(i, n - i) for i in range(n)]) * 2 * math.pi / (n * d)


def layer(rho, dx, dy, z1, z2, bad=False):
    ny, nx = rho.shape
    k = np.hypot(waves(ny, dy, bad)[:, None], waves(nx, dx, bad)[None, :])
    Fy, Fx = dft(ny), dft(nx)
    S = Fy @ rho @ Fx.T
    with np.errstate(all='ignore'):
        T = np.where(k > 0, (np.exp(-k * z1) - np.exp(-k * z2)) / np.where(k > 0, k, 1), 0.)
    g = (np.conj(Fy) @ (S * T) @ np.conj(Fx).T).real / (nx * ny)
    return 2 * math.pi * 6.673e-11 * 1e5 * 1e3 * g


def bandlimited(ctx, n, d, m, e):
    """Random densities without energy at the highest wavenumbers."""
    c = np.zeros((m, n))
    Y, X = np.mgrid[0:m, 0:n]
    for _ in range(6):
        a = ctx.randint(-(max(0, (n - 1) // 2 - 2)), max(0, (n - 1) // 2 - 2))
        b = ctx.randint(-(max(0, (m - 1) // 2 - 2)), max(0, (m - 1) // 2 - 2))
        c += ctx.uni(-200, 200) * np.cos(2 * math.pi * (a * X / n + b * Y / m) + ctx.uni(0, 6))
    return c + ctx.pick(0., 2700.)


def judge(ctx, rho, dx, dy, z1, z2, strict):
    ctx.inputs = {'rho': rho, 'dx': dx, 'dy': dy, 'z1': z1, 'z2': z2}
    g = ctx.call('grav.grav2d_layer_variable_density', rho.copy(), dx, dy, z1, z2)
    want = layer(rho, dx, dy, z1, z2)
    tol = dict(rtol=1e-9, atol=1e-9 * np.max(np.abs(want)) + 4e-14 * np.max(np.abs(rho)) * (z2 - z1) + 1e-12)
    if not strict and not ctx.is_close(g, want, **tol) and ctx.is_close(g, layer(rho, dx, dy, z1, z2, bad=True), **tol):
        ctx.finding('nyquist-wavenumber-sign', 'layer gravity has the wrong wavenumber next to Nyquist', shape=list(rho.shape))
        return g
    ctx.close(g, want, 'gravity of the layer (mGal)', **tol)
    return g


def smooth(ctx):
    nx, ny = [ctx.pick(8, 9, 12, 15, ctx.randint(7, 28)) for _ in 'xy']
    if ctx.idx % 50 == 1:       # a whole survey
        nx, ny = ctx.pick((130, 110), (75, 71), (9, 1500), (1201, 8))
    dx, dy = ctx.uni(.3, 4), ctx.uni(.3, 4)
    z1 = ctx.uni(0, 10)
    z2 = z1 + ctx.loguni(.1, 20)
    if ctx.chance(.25):         # wavelengths much longer than the depth
        dx, dy, z1 = ctx.uni(20, 300), ctx.uni(20, 300), ctx.pick(0., ctx.uni(0, 2))
        z2 = z1 + ctx.loguni(.01, 1)
    if ctx.idx % 10 == 3:       # a whole ocean
        dx, dy = ctx.uni(300, 2000), ctx.uni(300, 2000)
    rho = bandlimited(ctx, nx, dx, ny, dy)
    if ctx.chance(.08):         # nothing, or the same everywhere
        rho = np.full((ny, nx), ctx.pick(0., 2700., -400.))
    judge(ctx, rho, dx, dy, z1, z2, strict=True)
    ctx.cover('smooth', nx, ny, int(dx / dy * 2), int(z2 - z1))


def rough(ctx):
    nx, ny = [ctx.pick(1, 2, 3, 4, 5, 6, 8, 9, ctx.randint(2, 24)) for _ in 'xy']
    dx, dy = ctx.uni(.3, 4), ctx.uni(.3, 4)
    z1 = ctx.pick(0., ctx.uni(0, 3))
    rho = ctx.rng.normal(size=(ny, nx)) * 100 + ctx.pick(0, 3300.)
    k = ctx.pick('', '', 'body', 'holes', 'blocks', 'whole')
    if k == 'body':             # one body in nothing
        a, b = ctx.randint(0, ny - 1), ctx.randint(0, nx - 1)
        w = np.zeros((ny, nx))
        w[a:a + ctx.randint(1, 6), b:b + ctx.randint(1, 6)] = 1
        rho = w * rho
    elif k == 'holes':
        rho = np.where(ctx.rng.random(rho.shape) < .3, 0., rho)
    elif k == 'blocks':
        rho = np.where(rho > np.median(rho), 2900., ctx.pick(0., 2600.))
    elif k == 'whole':
        rho = np.round(rho).astype(ctx.pick('int64', 'int32', 'int16'))
    judge(ctx, rho, dx, dy, z1, z1 + ctx.loguni(.1, 20), strict=False)
    ctx.cover(k, 'rough', nx, ny, z1 > 0)


def probe(ctx):
    """The wavenumber of the finding, excited on its own."""
    n = ctx.pick(8, 9, 12, 13)
    w = n // 2 + 1
    rho = 100 * np.tile(np.cos(2 * math.pi * w * np.arange(n) / n + .3), (6, 1))
    judge(ctx, rho if ctx.chance(.5) else rho.T.copy(), 1., 1., .5, 2., strict=False)
    ctx.cover('probe', n)


def physics(ctx):
    """A compact body in a wide grid: summed attraction of its columns; additivity of stacked layers."""
    nx, ny = ctx.randint(28, 36), ctx.randint(28, 36)
    dx, dy = ctx.uni(.8, 1.4), ctx.uni(.8, 1.4)
    Y, X = np.mgrid[0:ny, 0:nx]
    rho = ctx.pick(-1, 1) * ctx.uni(50, 400) * np.exp(-((X - nx * .5) / (nx * .1)) ** 2 - ((Y - ny * .45) / (ny * .1)) ** 2)
    z1, z2 = ctx.uni(3, 5), ctx.uni(6, 9)
    g = np.asarray(judge(ctx, rho, dx, dy, z1, z2, strict=True), float)
    zc, wt = np.polynomial.legendre.leggauss(4)
    zc, wt = (z1 + z2) / 2 + zc * (z2 - z1) / 2, wt * (z2 - z1) / 2
    r = rho - rho.mean()
    d = []
    for a in range(0, ny, 3):
        for b in range(0, nx, 3):
            s = 0.
            for p in (-2, -1, 0, 1, 2):
                for q in (-2, -1, 0, 1, 2):
                    h2 = ((X - b + q * nx) * dx) ** 2 + ((Y - a + p * ny) * dy) ** 2
                    for z, u in zip(zc, wt):
                        s += u * np.sum(r * z / (h2 + z * z) ** 1.5)
            d.append(6.673e-11 * s * dx * dy * 1e3 * 1e5)
    d = np.array(d).reshape(len(range(0, ny, 3)), -1)
    G = g[::3, ::3]
    ctx.close(G - G.mean(), d - d.mean(), 'summed attraction of the layer, up to a constant (mGal)', atol=.05 * np.ptp(d))
    zm = (z1 + z2) / 2
    parts = [np.asarray(ctx.call('grav.grav2d_layer_variable_density', rho.copy(), dx, dy, a, b), float) for a, b in ((z1, zm), (zm, z2))]
    ctx.close(parts[0] + parts[1], g, 'two half layers make the layer', atol=1e-9 * np.max(np.abs(g)))
    ctx.cover('physics', nx, ny)


GROUPS = [Group('probe', probe, 8, 8), Group('smooth', smooth, 150, 3000), Group('rough', rough, 120, 3000), Group('physics', physics, 12, 150)]
