"""Forward and inverse crustal models are consistent."""
import math

import numpy as np

from ..core import Group

RULE = ('One case = relief on a deep interface made of one to three waves (or a bump), its gravity by a forward model and its thickness back from that. '
        'Non-trivial: relief with at least one wave; signature: forward model, waves kept/tapered/removed, sizes parity, folding, spacing ratio.')
ASSUMPTIONS = ['Relief is small against its wavelength and depth where the forward model is not linear; tolerances grow with wavenumber times amplitude.',
               'The grid carries whole numbers of waves (half numbers where the model folds), except for the padded profile, whose ends are left out.']
TARGETS = ['grav.grav1d_padded', 'grav.grav2d_folding', 'grav.grav2d_layer_variable_density', 'grav.crustal_thickness_2D']


def thick(ctx, g, dx, dy, depth, rho, wl, ws):
    """Thickness (km) on the grid (ny, nx) of gravity g."""
    ny, nx = g.shape
    c = np.asarray(ctx.call('grav.crustal_thickness_2D', np.ascontiguousarray(g.T).ravel(), nx=nx, ny=ny, dx=dx, dy=dy if ny > 1 else 0,
                            zdown=depth, rho=rho, wlarge=wl, wsmall=ws))
    ctx.check(c.size == nx * ny, 'one thickness per point', got=list(c.shape))
    return np.real(c).reshape(nx, ny).T


def weight(k, wl, ws):
    a, b = 2 * math.pi / wl, 2 * math.pi / ws
    return 1. if k <= a else 0. if k > b else .5 * (1 + math.cos(math.pi * (k - a) / (b - a)))


def waves(ctx, nx, ny, dx, dy, half, wl, ws):
    """[(wave, wavenumber per km)] of random amplitude within the band where continuation is stable."""
    i, j = np.meshgrid(np.arange(nx), np.arange(ny))
    out = []
    for _ in range(60):
        if len(out) == ctx.randint(1, 3):
            break
        m, n = ctx.randint(0, max(1, nx // 3)), ctx.randint(0, ny // 3) if ny > 1 else 0
        if half:
            k = math.pi * math.hypot(m / (nx * dx), n / (ny * dy))
            w = np.cos(math.pi * m * (i + .5) / nx) * np.cos(math.pi * n * (j + .5) / ny)
        else:
            k = 2 * math.pi * math.hypot(m / (nx * dx), n / (ny * dy))
            w = np.cos(2 * math.pi * (m * i / nx + ctx.pick(-1, 1) * n * j / ny) + ctx.uni(0, 6.28))
        if (m or n) and k < 2.2 * 2 * math.pi / ws:
            out.append((w, k))
    return out


def setting(ctx):
    ws = ctx.uni(8, 40)
    wl = ws * ctx.uni(1.1, 2.5)
    return ws, wl, ctx.uni(.3, 1.) * ws / 2, ctx.uni(.2, .8)


def grid(ctx):
    """Parker's series on a grid and back."""
    ws, wl, depth, rho = setting(ctx)
    nx, ny = (ctx.randint(8, 32), ctx.randint(8, 32)) if ctx.idx % 40 else (ctx.randint(70, 110), ctx.randint(75, 100))
    dx, dy = [ctx.uni(2., 6.) * wl / n for n in (nx, ny)]
    lin = ctx.chance(.5)
    ws_ = waves(ctx, nx, ny, dx, dy, False, wl, ws)
    if not ws_:
        return
    A = .1 if not lin else ctx.pick(.1, 2., .01)
    amps = [ctx.uni(.3, 1) * A for _ in ws_]                    # km
    h = sum(a * w for a, (w, _) in zip(amps, ws_))
    base = ctx.uni(0, depth * .7)
    Z = (base - h) * 1e3                                        # depth of the interface, m
    ctx.inputs = {'nx': nx, 'ny': ny, 'dx': dx, 'dy': dy, 'depth': depth, 'k': [k for _, k in ws_], 'amps': amps, 'linear': lin}
    g = ctx.call('grav.grav2d_folding', np.arange(nx) * dx, np.arange(ny) * dy, Z, dx, dy, drho=rho, dz=(depth - base) * 1e3, ifold=False, npower=1 if lin else 5)
    t = thick(ctx, np.asarray(g), dx, dy, depth, rho, wl, ws)
    # the mean of h (rounding aside zero) shifts the level
    want = -sum(a * weight(k, wl, ws) * w for a, (w, k) in zip(amps, ws_))
    top = sum(amps)
    kc = 2 * math.pi / ws
    tol = 1e-7 * top if lin else top * (kc * top * math.exp(0) * 3)
    ctx.close(t, want, 'relief from the gravity of that relief on a grid (km)', atol=tol)
    ctx.cover('grid', lin, tuple(round(weight(k, wl, ws) * 3) for _, k in ws_), nx % 2, ny % 2, int(dx / dy * 2))


def folded(ctx):
    """Relief that is mirrored at the edges: the folded model sees waves of half numbers; both halves of the mirror image go back."""
    ws, wl, depth, rho = setting(ctx)
    nx, ny = ctx.randint(6, 18), ctx.randint(6, 18)
    dx, dy = [ctx.uni(1.5, 4.) * wl / n for n in (nx, ny)]
    ws_ = waves(ctx, nx, ny, dx, dy, True, wl, ws)
    if not ws_:
        return
    amps = [ctx.uni(.3, 1) for _ in ws_]
    h = sum(a * w for a, (w, _) in zip(amps, ws_))
    g = np.asarray(ctx.call('grav.grav2d_folding', np.arange(nx) * dx, np.arange(ny) * dy, -h * 1e3, dx, dy, drho=rho, dz=depth * 1e3, ifold=True, npower=1))
    full = np.block([[g, g[:, ::-1]], [g[::-1], g[::-1, ::-1]]])
    t = thick(ctx, full, dx, dy, depth, rho, wl, ws)[:ny, :nx]
    want = -sum(a * weight(k, wl, ws) * w for a, (w, k) in zip(amps, ws_))
    ctx.inputs = {'nx': nx, 'ny': ny, 'dx': dx, 'dy': dy, 'depth': depth, 'k': [k for _, k in ws_], 'amps': amps}
    ctx.close(t, want, 'relief from the gravity of mirrored relief (km)', atol=1e-7 * sum(amps))
    ctx.cover('folded', tuple(round(weight(k, wl, ws) * 3) for _, k in ws_), nx, ny)


def layer(ctx):
    """A thin layer of excess density stands for relief of the same mass."""
    ws, wl, depth, rho = setting(ctx)
    nx, ny = ctx.randint(9, 30), ctx.randint(9, 30)
    dx, dy = [ctx.uni(2., 6.) * wl / n for n in (nx, ny)]
    ws_ = waves(ctx, nx, ny, dx, dy, False, wl, ws)
    if not ws_:
        return
    amps = [ctx.uni(.3, 1) for _ in ws_]
    h = sum(a * w for a, (w, _) in zip(amps, ws_))               # km
    thin = ctx.uni(.05, .5) * depth
    z1, z2 = depth - thin / 2, depth + thin / 2
    g = ctx.call('grav.grav2d_layer_variable_density', rho * 1e3 * h / thin + ctx.pick(0., 3300.), dx, dy, z1, z2)
    t = thick(ctx, np.asarray(g), dx, dy, depth, rho, wl, ws)
    want = -sum(a * weight(k, wl, ws) * math.sinh(k * thin / 2) / (k * thin / 2) * w for a, (w, k) in zip(amps, ws_))
    ctx.inputs = {'nx': nx, 'ny': ny, 'dx': dx, 'dy': dy, 'depth': depth, 'thin': thin, 'k': [k for _, k in ws_], 'amps': amps}
    ctx.close(t, want, 'relief from the gravity of a layer (km)', atol=1e-6 * sum(amps))
    ctx.cover('layer', tuple(round(weight(k, wl, ws) * 3) for _, k in ws_), nx % 2, ny % 2)


def profile(ctx):
    """A bump on a padded profile: wide ones come back, narrow ones leave no trace."""
    ws, wl, depth, rho = setting(ctx)
    wide = ctx.chance(.6)
    n = ctx.randint(120, 200) if ctx.idx % 20 else ctx.randint(2500, 7000)
    L = ctx.uni(10, 14) * wl if wide else ctx.uni(14, 20) * ws
    dx = L / n
    s = wl * ctx.uni(.65, .9) if wide else None
    x = np.arange(n) * dx
    A = .05 * depth * ctx.pick(1, -1)
    if wide:
        h = A * np.exp(-.5 * ((x - L * ctx.uni(.45, .55)) / s) ** 2)
    else:
        lam = ws * ctx.uni(.5, .7)
        c = L * ctx.uni(.45, .55)
        h = A * np.cos(2 * math.pi * (x - c) / lam) * np.exp(-.5 * ((x - c) / (2.2 * lam)) ** 2)
    g = np.asarray(ctx.call('grav.grav1d_padded', x * 1e3, h * 1e3, depth * 1e3, rho * 1e3))
    t = thick(ctx, g[None, :], dx, 0, depth, rho, wl, ws)[0]
    ctx.inputs = {'n': n, 'dx': dx, 'depth': depth, 'ws': ws, 'wl': wl, 'A': A}
    want = -(h - h.mean()) if wide else 0 * h
    m = n // 5
    ctx.close(t[m:-m], want[m:-m], 'relief of a profile from its gravity (km), wide=%s' % wide, atol=abs(A) * (.12 if wide else .08))
    ctx.cover('profile', wide, n % 2, int(depth / ws * 6), A > 0)


GROUPS = [Group('grid', grid, 150, 2500), Group('folded', folded, 60, 1000), Group('layer', layer, 100, 2000), Group('profile', profile, 60, 1000)]
