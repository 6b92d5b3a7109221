"""Half-space cooling: temperatures, subsidence, isotherm depths."""
import math

import numpy as np

from ..core import Group

RULE = ('One case = one set of distances or ages with depths and parameters. Non-trivial: positive age; signature: ages or distances, parameters given, '
        'age bucket, grid size.')
ASSUMPTIONS = ['Ages in Myr of 365.25 days; surface temperature 0. The surface at age zero is not judged (0/0).',
               'Compared at 1e-10 relative with the error function of the C library; isotherm depths through the temperature at that depth.']
TARGETS = ['grav.therm_halfspace', 'grav.therm_Z_halfspace']
YR = 365.25 * 86400
DEF = dict(u=.01, Tm=1350, rhom=3300, rhow=1000, a=3e-5, k=1e-6)


def params(ctx):
    kw = {}
    for key, val in (('u', ctx.loguni(.002, .2)), ('Tm', ctx.uni(1000, 1600)), ('rhom', ctx.uni(3000, 3500)), ('rhow', ctx.pick(1030., 1000, 0)),
                     ('a', ctx.uni(2e-5, 6e-5)), ('k', ctx.uni(5e-7, 2e-6))):
        if ctx.chance(.35):
            kw[key] = val
            if key in ('Tm', 'rhom', 'rhow') and ctx.chance(.3):
                kw[key] = ctx.pick(int, np.int64)(round(val))
    return kw


def ages(ctx, kw, n):
    """(x, time switch, ages in seconds)"""
    x, time, t = somewhere(ctx, kw, n)
    k = ctx.pick('', '', '', '', 'old first', 'same', 'twice', 'unknown')
    o = {'old first': np.argsort(t)[::-1], 'same': np.zeros(n, int), 'twice': np.sort(ctx.rng.integers(0, n, n))}.get(k)
    if o is not None:
        x, t = x[o], [t[i] for i in o]
    if k == 'unknown' and n > 1:    # NaN is nobody else's business
        i = ctx.randint(0, n - 1)
        x = np.array(x, float)
        x[i] = t[i] = math.nan
    return x, time, t


def somewhere(ctx, kw, n):
    if ctx.chance(.5):
        x = np.sort(ctx.rng.uniform(0, 200, n)) if ctx.chance(.8) else ctx.rng.uniform(.001, 5, n)
        if ctx.chance(.3):
            x[0] = 0.
        return x, True, [v * 1e6 * YR for v in x]
    x = ctx.rng.uniform(-3e6, 3e6, n) if ctx.chance(.6) else np.linspace(-1e5, 1e5, n)
    if ctx.chance(.2):
        x = np.round(x).astype(int)
    u = kw.get('u', .01)
    return x, ctx.pick(False, None), [abs(v) / (u / YR) for v in x]


def sink(p, t):
    return 2 * p['rhom'] * p['a'] * p['Tm'] / (p['rhom'] - p['rhow']) * math.sqrt(p['k'] * t / math.pi)


def field(ctx):
    kw = params(ctx)
    n, m = ctx.pick(1, 2, 7, 30), ctx.pick(1, 3, 20)
    if ctx.idx % 50 == 1:       # fine sections
        n, m = ctx.pick((1200, 80), (60, 2000), (20001, 3), (2, 20001))
    x, time, t = ages(ctx, kw, n)
    z = ctx.pick(np.linspace(0, 1e5, m), np.sort(ctx.rng.uniform(0, 2e5, m)), ctx.rng.uniform(0, 100, m), np.linspace(1e5, 0, m), np.full(m, ctx.uni(0, 9e4)),
                 ctx.rng.integers(0, 90000, m), ctx.rng.integers(0, 9, m) * 1e4)
    p = dict(DEF, **kw)
    ctx.inputs = {'x': x, 'time': time, 'z': z, 'kw': kw}
    if time is not None:
        kw = dict(kw, time=time)
    T, W = ctx.call('grav.therm_halfspace', x.copy(), z.copy(), **kw)
    want = np.empty((m, n))
    for i in range(m):
        for j in range(n):
            want[i, j] = p['Tm'] * (1. if t[j] == 0 else math.erf(z[i] / 2 / math.sqrt(p['k'] * t[j])))
    got = np.array(T, float)
    ctx.check(got.shape == (m, n), 'temperatures are gridded over (depth, distance)', got=got.shape, expected=(m, n))
    for i in range(m):
        for j in range(n):
            if t[j] == 0 and z[i] == 0:
                got[i, j] = want[i, j]
    ctx.close(got, want, 'temperature of the half space', rtol=1e-10, atol=1e-9)
    ctx.close(W, [sink(p, v) for v in t], 'seafloor subsidence', rtol=1e-10, atol=1e-9)
    ctx.cover('field', time, tuple(sorted(kw)), n, m, int(math.log10(np.nan_to_num(t[-1]) / YR + 1)))


def isotherm(ctx):
    kw = params(ctx)
    n = ctx.pick(1, 5, 30) if ctx.idx % 40 else ctx.pick(1500, 20001)
    x, time, t = ages(ctx, kw, n)
    p = dict(DEF, **kw)
    T = ctx.pick(p['Tm'] * ctx.uni(.01, .99), int(p['Tm'] * ctx.uni(.01, .99)), np.int64(p['Tm'] * ctx.uni(.01, .99)), p['Tm'] / 2, 0., p['Tm'] * 1., p['Tm'] * (1 - ctx.loguni(1e-6, 1e-2)), p['Tm'] * ctx.loguni(1e-6, 1e-2))
    if time is not None:
        kw = dict(kw, time=time)
    ctx.inputs = {'x': x, 'time': time, 'T': T, 'kw': kw}
    Z, W = ctx.call('grav.therm_Z_halfspace', x.copy(), T, **kw)
    Z = np.asarray(Z, float)
    ctx.check(Z.shape == (n,), 'one depth per distance', got=Z.shape)
    for j in range(n):
        if math.isnan(t[j]):
            ctx.check(math.isnan(Z[j]), 'isotherm depth of an unknown age', got=Z[j])
            continue
        ctx.check(Z[j] >= 0 or not t[j] and T >= p['Tm'], 'isotherm depth is not negative', got=Z[j])
        if t[j] > 0 and T >= p['Tm']:
            ctx.check(math.isinf(Z[j]), 'the mantle temperature is reached at no depth', got=Z[j])
        elif t[j] > 0:
            ctx.close(p['Tm'] * math.erf(Z[j] / 2 / math.sqrt(p['k'] * t[j])), T, 'temperature at the depth of the isotherm', atol=1e-8 * p['Tm'])
        else:
            ctx.close(0. if T >= p['Tm'] else Z[j], 0., 'isotherm depth at age zero', atol=1e-9)
    ctx.close(W, [sink(p, v) for v in t], 'seafloor subsidence', rtol=1e-10, atol=1e-9)
    ctx.cover('isotherm', time, tuple(sorted(kw)), n, int(10 * T / p['Tm']))


def laws(ctx):
    """Sides of the axis agree, distance and age agree, older is colder, deeper is hotter, twice sqrt(age) is twice as deep."""
    u = ctx.loguni(.005, .1)
    n, m = 12, 9
    x = np.sort(ctx.rng.uniform(1e3, 2e6, n))
    z = np.linspace(0, 1.2e5, m)
    T, W = (np.asarray(v) for v in ctx.call('grav.therm_halfspace', x, z, u=u))
    T2, W2 = (np.asarray(v) for v in ctx.call('grav.therm_halfspace', -x, z, u=u))
    ctx.close(T2, T, 'both sides of the axis', rtol=1e-11)
    ctx.close(W2, W, 'both sides of the axis', rtol=1e-11)
    T3, W3 = (np.asarray(v) for v in ctx.call('grav.therm_halfspace', x / u / 1e6, z, time=True, u=ctx.uni(.001, 1)))
    ctx.close(T3, T, 'age instead of distance', rtol=1e-10, atol=1e-9)
    ctx.close(W3, W, 'age instead of distance', rtol=1e-10)
    ctx.check(np.all(np.diff(T, axis=0) >= -1e-9) and np.all(np.diff(T, axis=1) <= 1e-9), 'temperature rises with depth and falls with age')
    ctx.check(np.all(T >= 0) and np.all(T <= 1350 + 1e-9) and np.all(T[0] == 0), 'temperature between surface and mantle')
    iso = ctx.uni(200, 1300)
    Z1, _ = ctx.call('grav.therm_Z_halfspace', x, iso, u=u)
    Z4, _ = ctx.call('grav.therm_Z_halfspace', 4 * x, iso, u=u)
    ctx.close(Z4, 2 * np.asarray(Z1), 'isotherms deepen with the root of age', rtol=1e-12)
    j = ctx.randint(0, n - 1)
    Tz, _ = ctx.call('grav.therm_halfspace', x[j:j + 1], np.asarray(Z1)[j:j + 1], u=u)
    ctx.close(np.ravel(Tz), [iso], 'field and isotherm agree', rtol=1e-9)
    ctx.cover('laws', int(iso // 100))


GROUPS = [Group('field', field, 200, 4000), Group('isotherm', isotherm, 120, 2500), Group('laws', laws, 30, 500)]
