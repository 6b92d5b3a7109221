"""Crustal thickness: tapered downward continuation of a gravity residual."""
import math

import numpy as np

from ..core import Group
from .c23 import dft

RULE = ('One case = one residual on a line or grid with spacings, depth, contrast and cutoffs, with or without recovered gravity. '
        'Non-trivial: a residual that varies at a wavelength that passes; signature: group, sizes, spacing ratio, cutoffs, recovered gravity asked for.')
ASSUMPTIONS = ['Lengths in km, contrast in g/cm3, residual in mGal as a flat array, x slowest; spacing along y is zero only on a line.',
               'Real parts are compared (the functions return complex columns), at 1e-8 of the largest value.',
               'A result is reported as the known finding only where both fields equal the rotated ones exactly (same tolerance).']
TARGETS = ['grav.crustal_thickness_2D']
G = 6.673e-8


def waves(n, d):
    return np.array([min(i, n - i) for i in range(n)]) * (2 * math.pi / (n * d)) if d else np.zeros(n)


def spectra(nx, ny, dx, dy, wlarge, wsmall):
    k = np.sqrt(waves(nx, dx)[:, None] ** 2 + waves(ny, dy)[None, :] ** 2)     # per km
    lo, hi = 2 * math.pi / wlarge, 2 * math.pi / wsmall
    w = np.where(k <= lo, 1., np.where(k > hi, 0., .5 * (1 + np.cos(math.pi * (np.clip(k, lo, hi) - lo) / (hi - lo)))))
    return k, w


def apply(u, T):
    nx, ny = u.shape
    if ny == 1 and nx > 2000:       # the same by numpy's transform
        return np.fft.ifft(np.fft.fft(u[:, 0]) * T[:, 0]).real[:, None]
    Fx, Fy = dft(nx), dft(ny)
    return (np.conj(Fx) @ ((Fx @ u @ Fy.T) * T) @ np.conj(Fy).T).real / (nx * ny)


def reference(ur, nx, ny, dx, dy, zdown, rho, wlarge, wsmall):
    """(thickness km, tapered residual mGal, amplification)"""
    u = np.asarray(ur, float).reshape(nx, ny)
    k, w = spectra(nx, ny, dx, dy, wlarge, wsmall)
    amp = np.where(w > 0, np.exp(np.where(w > 0, k, 0) * zdown) * w, 0.)
    c = apply(u - u.mean(), amp)
    # mGal -> Gal, 2 pi G rho in cgs, cm -> km
    return -c * 1e-3 / (2 * math.pi * G * rho) / 1e5, apply(u - u.mean(), w) + u.mean(), float(amp.max())


def rotated(a):
    return np.roll(a, (-1, -1), axis=(0, 1))


def column(ctx, x, n, what, scale=0.):
    x = np.asarray(x)
    ctx.check(x.size == n, what + ': one value per point', got=list(x.shape), expected=n)
    x = x.ravel()
    ctx.check(np.all(np.abs(np.imag(x)) <= 1e-8 * max(np.max(np.abs(x)), scale) + 1e-12), what + ' is not real')
    return np.real(x).astype(float)


def judge(ctx, ur, nx, ny, dx, dy, p, back):
    kw = dict(nx=nx, ny=ny, dx=dx, dy=dy, **p)
    if back is not None:
        kw['back'] = back
    if ctx.chance(.7):          # what is the default need not be said
        kw = {a: v for a, v in kw.items() if (a, v) not in (('nx', 1000), ('ny', 1), ('dx', 1.3), ('dy', 0))}
    ctx.inputs = {'ur': ur, 'kw': kw}
    form = ctx.pick('array', 'array', 'list', 'whole') if np.ndim(ur) == 1 else 'array'
    if form == 'whole':
        ur = np.round(ur)
    res = ctx.call('grav.crustal_thickness_2D', {'array': lambda: np.array(ur, float), 'list': lambda: [float(v) for v in ur], 'whole': lambda: ur.astype('int64')}[form](), **kw)
    q = dict(zdown=10, rho=.4, wlarge=45, wsmall=25)
    q.update(p)
    c, r, amp = reference(ur, nx, ny, dx, dy, **q)
    n = nx * ny
    ur = np.ravel(ur)
    top = np.max(np.abs(np.asarray(ur) - np.mean(ur))) * amp * 1e-3 / (2 * math.pi * G * q['rho']) / 1e5
    tc = dict(rtol=1e-8, atol=1e-8 * np.max(np.abs(c)) + 1e-11 * top + 1e-13)
    tr = dict(rtol=1e-8, atol=1e-8 * np.max(np.abs(ur)) + 1e-11)
    if not back:
        got = column(ctx, res, n, 'crustal thickness', 1e-3 * top)
        ctx.close(got, c.ravel(), 'crustal thickness (km)', **tc)
        return got
    ctx.check(isinstance(res, tuple) and len(res) == 2, 'thickness and recovered gravity expected', got=res)
    gc, gr = column(ctx, res[0], n, 'crustal thickness', 1e-3 * top), column(ctx, res[1], n, 'recovered gravity')
    if ctx.is_close(gc, rotated(c).ravel(), **tc) and ctx.is_close(gr, rotated(r).ravel(), **tr) and not (
            ctx.is_close(gc, c.ravel(), **tc) and ctx.is_close(gr, r.ravel(), **tr)):
        ctx.finding('back-rotated-by-one', 'thickness and recovered gravity are rotated by one sample', nx=nx, ny=ny)
        return gc
    ctx.close(gc, c.ravel(), 'crustal thickness (km), with recovered gravity', **tc)
    ctx.close(gr, r.ravel(), 'recovered gravity (mGal)', **tr)
    return gc


def params(ctx):
    p = {}
    if ctx.chance(.8):
        p['wsmall'] = ctx.loguni(3, 60)
        p['wlarge'] = p['wsmall'] * ctx.uni(1.05, 3)
    if ctx.chance(.8):
        p['zdown'] = min(ctx.uni(1, 15), 12 * p.get('wsmall', 25) / 6.28)
    if ctx.chance(.8):
        p['rho'] = ctx.uni(.1, 1.)
    return p


def grid(ctx):
    p = params(ctx)
    short = p.get('wsmall', 25)
    line = ctx.chance(.4)
    nx = ctx.pick(2, 3, 4, 5, 16, 31, ctx.randint(6, 140)) if line else ctx.pick(3, 4, 5, 12, ctx.randint(6, 30))
    ny = 1 if line else ctx.pick(2, 3, 4, 7, 12, ctx.randint(2, 28))
    if ctx.idx % 45 == 1:       # a whole survey
        line, nx, ny = ctx.pick((True, 6001, 1), (True, 1500, 1), (False, 90, 71), (False, 130, 110))
    dx = short * ctx.loguni(.01, 2)
    dy = ctx.pick(0, 0, 1.) if line else short * ctx.loguni(.03, 2)
    if ctx.idx % 9 == 2:        # the defaults
        line, nx, ny, dx, dy = True, 1000, 1, ctx.pick(1.3, 1.3, dx), 0
    elif ctx.idx % 9 == 6:
        dx, p = ctx.pick(1.3, 1.3, 150., 400.), ctx.pick({}, {'zdown': 6}, {'rho': 0.5}, {'wlarge': 135, 'wsmall': 25})
    if ctx.chance(.3):
        ur = np.cumsum(ctx.rng.normal(0, 3, nx * ny))
    else:
        ur = ctx.rng.normal(0, ctx.loguni(.1, 3000), nx * ny)
    ur = ur + ctx.pick(0., ctx.uni(-300, 300))
    if ctx.chance(.2):          # about zero, but not quite
        ur = ur - ur.mean() + ctx.pick(-1, 1) * ctx.loguni(1e-6, 1e-1)
    if ctx.chance(.2):
        ur = ur.reshape(nx, ny)
    back = ctx.pick(None, None, False, True)
    judge(ctx, ur, nx, ny, dx, dy, p, back)
    ctx.cover('grid', nx, ny, round(math.log2(dx / (dy or dx))), len(p), int(math.log2(short)), back)


def waves_only(ctx):
    """Single waves: kept, tapered or removed; downward continued; residual up, crust thin."""
    p = {'wsmall': ctx.uni(10, 30), 'rho': ctx.uni(.2, .8), 'zdown': ctx.uni(2, 8)}
    p['wlarge'] = p['wsmall'] * ctx.uni(1.2, 2.5)
    two = ctx.chance(.5)
    nx, ny = ctx.randint(24, 60), ctx.randint(16, 40) if two else 1
    kind = ('long', 'short', 'between')[ctx.idx % 3]
    lam = {'long': p['wlarge'] * ctx.uni(1.01, 2), 'short': p['wsmall'] * ctx.uni(.5, .99), 'between': ctx.uni(p['wsmall'], p['wlarge'])}[kind]
    m1, m2 = ctx.randint(1, 5), ctx.randint(0, 3) if two else 0
    # spacings that give the wave (m1, m2) that wavelength
    ang = ctx.uni(.2, 1.3) if m2 else 0.
    dx = lam * m1 / math.cos(ang) / nx
    dy = (lam * m2 / math.sin(ang) / ny if m2 else ctx.uni(.2, 2)) if two else 0
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    ph = ctx.uni(0, 6.28)
    wave = np.cos(2 * math.pi * (m1 * i / nx + m2 * j / ny) + ph)
    A, off = ctx.uni(.5, 30), ctx.uni(-50, 50)
    kw = dict(nx=nx, ny=ny, dx=dx, dy=dy, **p)
    ctx.inputs = {'m': [m1, m2], 'lam': lam, 'A': A, 'kw': kw}
    k = 2 * math.pi / lam
    w = {'long': 1., 'short': 0.}.get(kind)
    if w is None:
        a, b = 2 * math.pi / p['wlarge'], 2 * math.pi / p['wsmall']
        w = .5 * (1 + math.cos(math.pi * (k - a) / (b - a)))
    full = A * 1e-5 * math.exp(k * p['zdown']) / (2 * math.pi * 6.673e-11 * p['rho'] * 1e3) / 1e3     # km, in SI
    got = column(ctx, ctx.call('grav.crustal_thickness_2D', (A * wave + off).ravel(), **kw), nx * ny, 'crustal thickness', full)
    ctx.close(got, (-full * w * wave).ravel(), 'thickness of a single wave (%s)' % kind, atol=1e-7 * full)
    ctx.cover('wave', kind, m1, m2, two, nx % 2, ny % 2)


def relations(ctx):
    nx, ny = ctx.randint(5, 40), ctx.pick(1, ctx.randint(2, 20))
    p = params(ctx)
    short = p.get('wsmall', 25)
    dx, dy = short * ctx.loguni(.05, .7), 0 if ny == 1 else short * ctx.loguni(.05, .7)
    a, b = ctx.rng.normal(0, 10, nx * ny), ctx.rng.normal(0, 10, nx * ny)

    def go(u, nx=nx, ny=ny, dx=dx, dy=dy, **k):
        return column(ctx, ctx.call('grav.crustal_thickness_2D', u.copy(), nx=nx, ny=ny, dx=dx, dy=dy, **dict(p, **k)), nx * ny, 'thickness')
    A = go(a)
    s = 1e-7 * (np.max(np.abs(A)) + np.max(np.abs(go(b)))) + 1e-9
    ctx.close(go(2 * a - b), 2 * A - go(b), 'linear in the residual', atol=3 * s)
    ctx.close(go(a + 500), A, 'a constant added to the residual', atol=s)
    ctx.close(go(a, rho=2 * p.get('rho', .4)), A / 2, 'inversely proportional to the contrast', atol=s)
    g = A.reshape(nx, ny)
    ctx.close(go(np.roll(a.reshape(nx, ny), 2, 0).ravel()), np.roll(g, 2, 0).ravel(), 'shifting the residual shifts the thickness', atol=s)
    ctx.close(go(a.reshape(nx, ny)[::-1].ravel()), g[::-1].ravel(), 'reversing x', atol=s)
    if ny > 1:
        ctx.close(go(a.reshape(nx, ny).T.ravel(), nx=ny, ny=nx, dx=dy, dy=dx), g.T.ravel(), 'exchanging x and y', atol=s)
    ctx.close(A.mean(), 0., 'mean thickness variation', atol=s)
    ctx.cover('relations', nx, ny, len(p))


def refused(ctx):
    w = ctx.uni(5, 50)
    ok, res = ctx.call_raw('grav.crustal_thickness_2D', np.zeros(20), nx=20, wlarge=w, wsmall=w * (1., 1.5)[ctx.idx % 2])
    ctx.check(not ok, 'cutoffs in the wrong order are accepted', got=res)
    ctx.cover('refused', ctx.idx)


def probe(ctx):
    nx, ny = ((30, 1), (31, 1), (12, 9), (9, 14))[ctx.idx % 4]
    judge(ctx, np.cumsum(ctx.rng.normal(0, 3, nx * ny)), nx, ny, 5., 6. if ny > 1 else 0, {}, True)
    ctx.cover('probe', nx, ny)


GROUPS = [Group('grid', grid, 220, 3500), Group('waves', waves_only, 90, 1500), Group('relations', relations, 40, 600), Group('refused', refused, 4, 4),
          Group('probe', probe, 8, 8)]
