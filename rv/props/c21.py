"""Platform up-vectors."""
import cmath
import math

import numpy as np
import pandas as pd

from ..core import Group

RULE = ('One case = one pair of acceleration series with platform period and damping. Non-trivial: at least one non-zero acceleration; signature: '
        'kind, length bucket, period and damping buckets, masked samples, NaN present.')
ASSUMPTIONS = ['The tilt filter is the bilinear image of H(s) = (wS^2 - w0^2 - 2 z w0 s) / (s^2 + 2 z w0 s + w0^2) (platform period, damping, Schuler '
               'frequency of 6371.1 km and 9.8 m/s2) with both frequencies prewarped.',
               'The order of the two rotations alternates with the sample, cross first on even samples, as published code of the meter does; '
               'a falsy damping means sqrt(2)/2.',
               'Accelerations given as arrays may be cleaned in place.']
TARGETS = ['grav.up_vecs']


def tilt_filter(per, dt, damp):
    """(num, den) from the poles and zeros of the analogue platform."""
    w0 = 2 / dt * math.tan(math.pi / per * dt)
    wS = 2 / dt * math.tan(math.sqrt(9.8 / 6371100) * dt / 2)
    # numerator -2 z w0 s + (wS^2 - w0^2); denominator s^2 + 2 z w0 s + w0^2; s = 2/dt (1 - q)/(1 + q)
    K = 2 / dt
    up, dn = np.array([1., 1.]), np.array([1., -1.])                              # 1 + q, 1 - q in rising powers of q
    cv = np.convolve
    num = -2 * damp * w0 * K * cv(dn, up) + (wS ** 2 - w0 ** 2) * cv(up, up)
    den = K * K * cv(dn, dn) + 2 * damp * w0 * K * cv(dn, up) + w0 ** 2 * cv(up, up)
    return num / den[0], den / den[0]


def run_filter(num, den, x):
    y = np.zeros(len(x))
    for i in range(len(x)):
        v = 0.
        for k in range(3):
            if i >= k:
                v += num[k] * x[i - k]
            if k and i >= k:
                v -= den[k] * y[i - k]
        y[i] = v
    return y


def reference(dt, g, cacc, lacc, on, cper, cdamp, lper, ldamp):
    def tilt(acc, per, damp):
        a = np.where(np.isnan(acc) | (np.asarray(on) > 0), 0., acc) / np.asarray(g)
        return np.arctan(run_filter(*tilt_filter(per, dt, damp or math.sqrt(.5)), np.where(np.isnan(a), 0., a)))
    c, l = tilt(cacc, cper, cdamp), tilt(lacc, lper, ldamp)
    out = np.empty((3, len(c)))
    for i in range(len(c)):
        if i % 2 == 0:      # long tilt first, then cross
            out[:, i] = -math.sin(c[i]) * math.cos(l[i]), -math.sin(l[i]), math.cos(c[i]) * math.cos(l[i])
        else:
            out[:, i] = -math.sin(c[i]), -math.sin(l[i]) * math.cos(c[i]), math.cos(c[i]) * math.cos(l[i])
    return out, c, l


def make(ctx, n, hostile=True):
    amp = ctx.loguni(1e2, 2e5)     # mGal
    t = np.arange(n)
    k = ctx.pick('noise', 'swell', 'step', 'impulse', 'zero')
    f = {'noise': lambda: ctx.rng.normal(size=n) * amp, 'swell': lambda: amp * np.sin(2 * math.pi * t / ctx.uni(5, 30) + ctx.uni(0, 6)),
         'step': lambda: amp * (t > ctx.randint(0, n)), 'impulse': lambda: amp * (t == ctx.randint(0, n - 1)), 'zero': lambda: np.zeros(n)}[k]
    c, l = f().astype(float), f().astype(float)
    g = ctx.pick(lambda: np.full(n, 9.8e5), lambda: 9.8e5 + ctx.rng.normal(size=n) * 1000, lambda: 980665.0)()
    on = np.zeros(n)
    nan = False
    if hostile:
        if ctx.chance(.4):
            nan = True
            for a in (c, l):
                a[ctx.rng.integers(0, n, max(1, n // 10))] = np.nan
        if ctx.chance(.4):
            a = ctx.randint(0, n - 1)
            on[a:a + ctx.randint(1, n)] = ctx.pick(1, 2, 1)
        if ctx.chance(.2):
            on[ctx.randint(0, n - 1)] = -1
        if ctx.chance(.15) and hasattr(g, '__len__'):
            g = g.copy()
            g[ctx.randint(0, n - 1)] = np.nan
    q = ctx.pick('float', 'float', 'int', 'scalar', 'series')
    if q == 'int':
        on = on.astype(int)
    elif q == 'scalar':
        on = ctx.pick(0, 0, 0, 1)
    if q == 'series' and np.ndim(g):
        g = pd.Series(g)
    return k, nan, c, l, g, on


def vectors(ctx):
    n = 90000 if ctx.idx in (9, 89) else ctx.randint(1000, 6000) if ctx.idx % 40 == 9 else ctx.pick(1, 2, 3, 20, 100, ctx.randint(2, 300))
    dt = ctx.pick(1, 1.0, .1, .5, 2)
    k, nan, c, l, g, on = make(ctx, n)
    if n == 90000:      # a day and more, with some readings lost
        nan = True
        for a in (c, l):
            a[ctx.rng.integers(0, n, 5)] = np.nan
    cper, lper = [ctx.pick(240., 60., 300., max(10 * dt, ctx.loguni(8, 1000))) for _ in 'xx']
    cd, ld = [ctx.pick(.707, math.sqrt(.5), .2, 1.2, False, 0, ctx.uni(.05, 2)) for _ in 'xx']
    ctx.inputs = {'dt': dt, 'g': g, 'cacc': c.copy(), 'lacc': l.copy(), 'on_off': on, 'cper': cper, 'cdamp': cd, 'lper': lper, 'ldamp': ld}
    want, ct, lt = reference(dt, g, c, l, on, cper, cd, lper, ld)
    got = ctx.call('grav.up_vecs', dt, g, c.copy(), l.copy(), on, cper, cd, lper, ld)
    ctx.close(got, want, 'up-vectors (cross, long, up)', rtol=1e-9, atol=1e-11)
    ctx.close(np.sum(np.asarray(got) ** 2, axis=0), np.ones(n), 'up-vectors are unit vectors', rtol=1e-12)
    if k == 'zero':
        ctx.close(got, np.array([[0.] * n, [0.] * n, [1.] * n]), 'no acceleration: the platform is level', atol=1e-13)
    ctx.count('vectors', n)
    ctx.cover(k, n // 40, dt, int(math.log(cper)), bool(cd), nan, bool(np.any(on > 0)), np.ndim(g))


def axes(ctx):
    """Each axis answers to its own acceleration, period and damping only; steady acceleration tilts by its ratio to g."""
    n = ctx.randint(10, 150)
    dt, cper, lper, cd, ld = 1.0, ctx.uni(60, 400), ctx.uni(60, 400), ctx.uni(.3, 1), ctx.uni(.3, 1)
    a = ctx.rng.normal(size=n) * 2e4
    z, g, on = np.zeros(n), np.full(n, 9.8e5), np.zeros(n)
    u = np.asarray(ctx.call('grav.up_vecs', dt, g, a.copy(), z.copy(), on, cper, cd, lper, ld))
    ctx.close(u[1], z, 'long component without long acceleration', atol=1e-13)
    v = np.asarray(ctx.call('grav.up_vecs', dt, g, z.copy(), a.copy(), on, lper, ld, cper, cd))
    ctx.close(v[0], z, 'cross component without cross acceleration', atol=1e-13)
    ctx.close(v[1], u[0], 'both axes have the same response', atol=1e-12)
    ctx.close(v[2], u[2], 'both axes have the same response (up)', atol=1e-12)
    # causality
    b = a.copy()
    cut = ctx.randint(1, n - 1)
    b[cut:] = ctx.rng.normal(size=n - cut) * 2e4
    w = np.asarray(ctx.call('grav.up_vecs', dt, g, b, z.copy(), on, cper, cd, lper, ld))
    ctx.close(w[:, :cut], u[:, :cut], 'later accelerations change earlier vectors', atol=1e-13)
    ctx.cover('axes', n // 20, int(cper // 50))


def steady(ctx):
    """A long steady acceleration tilts the platform against it (towards the apparent vertical)."""
    per, d, s = ctx.uni(30, 80), ctx.uni(.6, .9), ctx.pick(-1, 1) * ctx.uni(1e3, 5e4)
    n = int(30 * per)
    u = np.asarray(ctx.call('grav.up_vecs', 1.0, np.full(n, 9.8e5), np.full(n, s), np.zeros(n), np.zeros(n), per, d, per, d))
    r = (math.tan(math.sqrt(9.8 / 6371100) / 2) / math.tan(math.pi / per)) ** 2
    ctx.close(u[0, -1], math.sin(math.atan(s / 9.8e5 * (1 - r))), 'tilt under a steady acceleration', rtol=1e-4)
    ctx.cover('steady', int(per // 10), s > 0)


GROUPS = [Group('vectors', vectors, 250, 4000), Group('axes', axes, 40, 600), Group('steady', steady, 20, 300)]
