"""Gravity of a density contrast across a surface (Parker, two dimensions)."""
import math

import numpy as np

from ..core import Group

RULE = ('One case = one grid (even/odd, square/oblong, different spacings) with and without folding and number of terms. Non-trivial: non-flat surface; '
        'signature: sizes, folding, terms, offset depth, surface kind.')
ASSUMPTIONS = ['Z is depth in metres, rows are y; spacings in km, contrast in g/cm3; anomalies are positive over surface that is shallower than its mean.',
               'Tight oracle: Parker\'s series with explicit transform matrices (1e-8 of the largest value).',
               'Independent oracle: summed point-mass attraction of the relief (with periodic images), up to a constant.']
TARGETS = ['grav.grav2d_folding']


def waves(n, d):
    """Wavenumbers (rad per unit of d) of an n-point transform."""
    return np.array([min(i, n - i) for i in range(n)]) * 2 * math.pi / (n * d)


def dft(n):
    i = np.arange(n)
    return np.exp(-2j * math.pi * (np.outer(i, i) % n) / n)


def parker(Z, dx, dy, drho, dz, fold, npower):
    ny, nx = Z.shape
    m = Z.mean()
    h = m - Z
    if fold:
        h = np.concatenate([h, h[::-1]], axis=0)
        h = np.concatenate([h, h[:, ::-1]], axis=1)
    my, mx = h.shape
    k = np.hypot(waves(my, dy * 1e3)[:, None], waves(mx, dx * 1e3)[None, :])
    Fy, Fx = dft(my), dft(mx)
    S = np.zeros((my, mx), complex)
    f = 1.
    for q in range(1, npower + 1):
        f *= q
        S += k ** (q - 1) / f * (Fy @ h ** q @ Fx.T)
    S[0, 0] = 0
    S *= np.exp(-k * (m + dz))
    g = (np.conj(Fy) @ S @ np.conj(Fx).T).real / (mx * my)
    return (2 * math.pi * 6.673e-11 * drho * 1e3 * 1e5 * g)[:ny, :nx]


def surface(ctx, ny, nx, dx, dy, smooth=False):
    k = ctx.pick('bump') if smooth else ctx.pick('bump', 'random', 'wave', 'tilt', 'flat')
    Y, X = np.meshgrid(np.arange(ny), np.arange(nx), indexing='ij')
    depth = ctx.uni(1500, 5000)
    if not smooth and ctx.chance(.3):
        depth = ctx.uni(5000, 45000)       # to the base of the crust
    amp = ctx.pick(-1, 1) * min(ctx.uni(10, 400), 60 * min(dx, dy) * 5)
    if k == 'bump':
        Z = amp * np.exp(-((X - nx * ctx.uni(.4, .6)) / (nx * .12)) ** 2 - ((Y - ny * ctx.uni(.4, .6)) / (ny * .12)) ** 2)
    elif k == 'random':
        Z = amp * ctx.rng.normal(size=(ny, nx)) * .3
    elif k == 'wave':
        Z = amp * np.cos(2 * math.pi * ctx.randint(0, 2) * X / nx) * np.sin(2 * math.pi * ctx.randint(0, 2) * Y / ny + .3)
    elif k == 'tilt':
        Z = amp * (X / nx - Y / ny)
    else:
        Z = np.zeros((ny, nx))
    return k, Z + depth


def grid(ctx):
    nx, ny = [ctx.pick(2, 3, 4, 5, 8, 9, 12, 13, ctx.randint(4, 20)) for _ in 'xy']
    dx, dy = ctx.pick(.5, 1., 2., ctx.uni(.3, 5)), ctx.pick(.5, 1., 3., ctx.uni(.3, 5))
    if ctx.idx % 60 == 1:       # a whole survey
        nx, ny = ctx.pick((130, 110), (75, 71), (3, 900), (701, 2))
    if ctx.chance(.3):
        dy = dx
    k, Z = surface(ctx, ny, nx, dx, dy)
    kw, full = {}, dict(drho=.6, dz=6000, ifold=True, npower=5)
    for key, val in (('drho', ctx.pick(1.7, .4, -.5, 1.)), ('dz', ctx.pick(0, 0., 3000, 6000, ctx.uni(0, 9000))), ('ifold', ctx.pick(True, False, False, 1, 0, np.True_, np.False_)),
                     ('npower', ctx.pick(1, 2, 3, 5, 7, 4, 6, ctx.randint(8, 13)))):
        if ctx.chance(.7):
            kw[key] = val
    full.update(kw)
    X, Y = np.arange(nx) * dx, np.arange(ny) * dy
    form = ctx.pick('', '', '', 'islands', 'sea level', 'heights', 'mixed', 'whole') if k != 'flat' else ''
    if form == 'islands':       # depth cut off at the coast: many exact zeros
        Z = np.clip(Z - np.quantile(Z, ctx.uni(.2, .8)), 0., None)
    elif form == 'sea level':   # one sample at zero
        Z = Z - Z[ctx.randint(0, ny - 1), ctx.randint(0, nx - 1)]
    elif form == 'heights':
        Z = -(Z - Z.mean()) * .1
    elif form == 'mixed':
        Z = np.where(ctx.rng.random(Z.shape) < .3, 0., Z - Z.mean())
    elif form == 'whole':
        Z = np.round(Z)
    if form in ('sea level', 'heights', 'mixed', 'islands'):
        kw['dz'] = full['dz'] = max(full['dz'], 3000.)
        # no more relief than the plane is away
        s = np.ptp(Z) / (.5 * full['dz'])
        Z = Z / s if s > 1 else Z
    x, y = ctx.pick((X, Y), (X, Y), (list(X), list(Y)), (X + 400., Y - 1e3), (X[::-1], Y[::-1]), (-X, Y), (range(nx), range(ny)))
    ctx.inputs = {'Z': Z, 'dx': dx, 'dy': dy, 'kw': kw, 'form': form}
    g = ctx.call('grav.grav2d_folding', x, y, Z.astype(ctx.pick('int64', 'int32')) if form == 'whole' and ctx.chance(.7) else Z.copy(), dx, dy, **kw)
    want = parker(Z, dx, dy, full['drho'], full['dz'], full['ifold'], full['npower'])
    ctx.close(g, want, 'gravity of the surface (mGal)', rtol=1e-8, atol=1e-8 * np.max(np.abs(want)) + 1e-10)
    if k == 'flat':
        ctx.close(g, np.zeros((ny, nx)), 'a flat surface has no anomaly', atol=1e-9)
    ctx.cover(k, form, nx, ny, tuple(sorted(kw)), bool(full['ifold']), full['npower'])


def rough(ctx):
    """High relief just above the plane: every term of the series counts."""
    nx, ny = ctx.randint(5, 16), ctx.randint(5, 16)
    dx, dy = ctx.uni(.3, 2), ctx.uni(.3, 2)
    top = ctx.uni(1.5, 4) / (math.pi / (min(dx, dy) * 1e3))       # largest wavenumber times relief
    Z = top * ctx.rng.uniform(-1, 1, size=(ny, nx))
    Z += 1.1 * top
    kw = dict(drho=ctx.uni(.2, 2), dz=0., ifold=ctx.chance(.5), npower=ctx.randint(5, 20))
    ctx.inputs = {'Z': Z, 'dx': dx, 'dy': dy, 'kw': kw}
    g = ctx.call('grav.grav2d_folding', np.arange(nx) * dx, np.arange(ny) * dy, Z.copy(), dx, dy, **kw)
    want = parker(Z, dx, dy, **{'drho': kw['drho'], 'dz': 0., 'fold': kw['ifold'], 'npower': kw['npower']})
    ctx.close(g, want, 'gravity of high relief (mGal)', rtol=1e-8, atol=1e-8 * np.max(np.abs(want)) + 1e-10)
    ctx.cover('rough', nx, ny, kw['ifold'], kw['npower'])


def physics(ctx):
    """Compact seamount in the middle of a wide grid: summed attraction of its mass."""
    nx, ny = ctx.randint(28, 37), ctx.randint(28, 37)
    dx, dy = ctx.uni(.6, 1.5), ctx.uni(.6, 1.5)
    k, Z = surface(ctx, ny, nx, dx, dy, smooth=True)
    drho, dz, fold = ctx.pick(1.7, .6), ctx.pick(0., 2000.), ctx.chance(.5)
    ctx.inputs = {'Z': Z, 'dx': dx, 'dy': dy, 'drho': drho, 'dz': dz, 'ifold': fold}
    g = np.asarray(ctx.call('grav.grav2d_folding', np.arange(nx) * dx, np.arange(ny) * dy, Z.copy(), dx, dy, drho=drho, dz=dz, ifold=fold), float)
    h, m = Z.mean() - Z, Z.mean()
    d = np.zeros((ny, nx))
    yy, xx = np.mgrid[0:ny, 0:nx]
    if fold:
        h = np.block([[h, h[:, ::-1]], [h[::-1], h[::-1, ::-1]]])
    my, mx = h.shape
    R = 1 if fold else 2
    js = [(j, i) for j in range(my) for i in range(mx) if abs(h[j, i]) > 1e-12]
    J, I = np.array([a for a, _ in js]), np.array([b for _, b in js])
    w = h[J, I]
    zc = m + dz - w / 2                           # middle of the column, below the level
    for a in range(0, ny, 3):
        for b in range(0, nx, 3):
            s = 0.
            for p in range(-R, R + 1):
                for q in range(-R, R + 1):
                    r2 = ((I - b + q * mx) * dx * 1e3) ** 2 + ((J - a + p * my) * dy * 1e3) ** 2 + zc ** 2
                    s += np.sum(w * zc / r2 ** 1.5)
            d[a, b] = s
    d = 6.673e-11 * drho * 1e3 * dx * dy * 1e6 * 1e5 * d
    G, Dd = g[::3, ::3], d[::3, ::3]
    ctx.close(G - G.mean(), Dd - Dd.mean(), 'summed attraction of the relief, up to a constant (mGal)', atol=.06 * np.ptp(Dd))
    ctx.count('attractions_summed', Dd.size)
    ctx.cover('physics', nx, ny, fold, dz)


def relations(ctx):
    nx, ny = ctx.randint(4, 20), ctx.randint(4, 20)
    dx, dy = ctx.uni(.5, 4), ctx.uni(.5, 4)
    k, Z = surface(ctx, ny, nx, dx, dy)
    kw = dict(drho=ctx.uni(.2, 2), dz=ctx.uni(0, 7000), ifold=ctx.chance(.5))
    X, Y = np.arange(nx) * dx, np.arange(ny) * dy
    g = np.asarray(ctx.call('grav.grav2d_folding', X, Y, Z.copy(), dx, dy, **kw), float)
    s = 1e-8 * np.max(np.abs(g)) + 1e-10
    ctx.close(ctx.call('grav.grav2d_folding', X, Y, Z.copy(), dx, dy, **dict(kw, drho=-3 * kw['drho'])), -3 * g, 'proportional to the contrast', atol=3 * s)
    ctx.close(np.asarray(ctx.call('grav.grav2d_folding', Y, X, Z.T.copy(), dy, dx, **kw)).T, g, 'exchanging x and y', atol=s)
    ctx.close(np.asarray(ctx.call('grav.grav2d_folding', X, Y, Z[::-1].copy(), dx, dy, **kw))[::-1], g, 'reversing y', atol=s)
    ctx.close(np.asarray(ctx.call('grav.grav2d_folding', X, Y, Z[:, ::-1].copy(), dx, dy, **kw))[:, ::-1], g, 'reversing x', atol=s)
    h = ctx.uni(-1000, 2000)
    ctx.close(ctx.call('grav.grav2d_folding', X, Y, Z + h, dx, dy, **dict(kw, dz=kw['dz'] - h)), g, 'depth of the surface and offset add up', atol=s * 10)
    h = -Z.mean() - ctx.uni(0, 3000)       # heights counted upwards from a plane below, same distance
    ctx.close(ctx.call('grav.grav2d_folding', X, Y, Z + h, dx, dy, **dict(kw, dz=kw['dz'] - h)), g, 'depth of the surface (negative) and offset add up', atol=s * 10)
    ctx.cover('relations', k, nx, ny)


GROUPS = [Group('grid', grid, 250, 4000), Group('rough', rough, 60, 1000), Group('physics', physics, 16, 200), Group('relations', relations, 40, 600)]
