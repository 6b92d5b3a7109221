"""Plate cooling: temperatures, subsidence, isotherm depths."""
import math

import numpy as np

from ..core import Group
from .c25 import YR, ages, params

RULE = ('One case = one set of distances or ages with depths, plate thickness and parameters. Non-trivial: positive age; signature: ages or distances, '
        'parameters given, thickness bucket, depths below the plate.')
ASSUMPTIONS = ['The series is accepted with ten terms (temperature) and three terms (subsidence), as published with the code, or wherever the result is at '
               'least as close to the full series.', 'Isotherm depths are judged against the temperatures of a grid: no other grid depth is closer.']
TARGETS = ['grav.therm_plate', 'grav.therm_Z_plate']
DEF = dict(u=.01, Tm=1350, rhom=3300, rhow=1000, a=3e-5, k=1e-6, zL0=100e3)


def temp(p, t, z, terms):
    if z > p['zL0']:
        return p['Tm']
    s = z / p['zL0']
    for n in range(1, terms + 1):
        e = p['k'] * (n * math.pi / p['zL0']) ** 2 * t
        if e > 60:
            break
        s += 2 / (n * math.pi) * math.exp(-e) * math.sin(n * math.pi * z / p['zL0'])
    return p['Tm'] * s


def sink(p, t, terms):
    s = .5
    for q in range(terms):
        n = 2 * q + 1
        s -= 4 / (n * math.pi) ** 2 * math.exp(-p['k'] * (n * math.pi / p['zL0']) ** 2 * t)
    return p['rhom'] * p['a'] * p['Tm'] * p['zL0'] / (p['rhom'] - p['rhow']) * s


def exact_temp(p, t, z):
    """Image sum for young plates (the sine series converges slowly), sine series for the others."""
    if t > 0 and p['k'] * t / p['zL0'] ** 2 < .01 and z <= p['zL0']:
        s, q, L = 0., 2 * math.sqrt(p['k'] * t), p['zL0']
        for n in range(-3, 4):
            s += math.erf((2 * n * L + z) / q)
        return p['Tm'] * s + p['Tm'] * 0
    return temp(p, t, z, 400)


def extra(ctx):
    kw = params(ctx)
    if ctx.chance(.4):
        kw['zL0'] = ctx.pick(95e3, 125e3, ctx.uni(5e4, 2e5), 100000, 95000, np.int64(125000))
    return kw


def near(got, want, better, scale):
    if abs(got - want) <= 1e-9 * scale:
        return True
    better = better()
    return abs(got - better) <= abs(want - better) + 1e-9 * scale


def field(ctx):
    kw = extra(ctx)
    p = dict(DEF, **kw)
    n, m = ctx.pick(1, 2, 7, 20), ctx.pick(1, 3, 15)
    if ctx.idx % 40 == 3:       # fine sections
        n, m = ctx.pick((1500, 3), (40, 80), (2, 1500))
    x, time, t = ages(ctx, kw, n)
    z = ctx.pick(np.linspace(0, p['zL0'], m), np.sort(ctx.rng.uniform(0, 1.5 * p['zL0'], m)), np.linspace(0, 1e5, m),
                 np.linspace(1.2e5, 0, m), np.full(m, ctx.uni(0, 9e4)), ctx.rng.integers(0, 130000, m), ctx.rng.integers(0, 15, m) * 1e4,
                 p['zL0'] + np.sort(ctx.rng.choice([-30., -1., -.1, 0., 1e-3, .1, .4, .9, 3., 40., 900.], m)))
    ctx.inputs = {'x': x, 'time': time, 'z': z, 'kw': kw}
    if time is not None:
        kw = dict(kw, time=time)
    T, W = (np.asarray(v, float) for v in ctx.call('grav.therm_plate', x.copy(), z.copy(), **kw))
    ctx.check(T.shape == (m, n) and W.shape == (n,), 'temperatures over (depth, distance), one subsidence per distance', got=[T.shape, W.shape])
    for j in range(n):
        if math.isnan(t[j]):
            ctx.check(np.isnan(W[j]) and np.all(np.isnan(T[:, j]) | (z > p['zL0']) & (T[:, j] == p['Tm'])), 'temperature at an unknown age', got=T[:, j])
            continue
        for i in range(m):
            ctx.check(near(T[i, j], temp(p, t[j], z[i], 10), lambda: exact_temp(p, t[j], z[i]), p['Tm']), 'temperature of the plate', depth=z[i], age=t[j] / YR,
                      got=T[i, j], expected=temp(p, t[j], z[i], 10))
        w = p['rhom'] * p['a'] * p['Tm'] * p['zL0'] / (p['rhom'] - p['rhow'])
        ctx.check(near(W[j], sink(p, t[j], 3), lambda: sink(p, t[j], 400), w), 'seafloor subsidence of the plate', age=t[j] / YR, got=W[j], expected=sink(p, t[j], 3))
    ctx.count('temperatures', n * m)
    ctx.cover('field', time, tuple(sorted(kw)), int(p['zL0'] // 3e4), bool(np.any(z > p['zL0'])), n)


def isotherm(ctx):
    kw = extra(ctx)
    p = dict(DEF, **kw)
    n = ctx.pick(1, 2, 8)
    x, time, t = ages(ctx, kw, n)
    x = np.asarray(x, float)
    if time is not None:
        kw = dict(kw, time=time)
    g = {}
    if ctx.chance(.6):
        g = dict(minz=ctx.pick(0, 0., 2000., 1000), maxz=ctx.pick(1e5, 5e4, 1.3e5, 50000), zsp=ctx.pick(100., 500., 1000., 333., 250))
    Ts = [p['Tm'] * ctx.pick(ctx.uni(.02, .98), ctx.uni(.02, .98), ctx.uni(.02, .98), ctx.pick(0., 1., 1.02)) for _ in range(ctx.pick(1, 2, 4))]
    ctx.inputs = {'x': x, 'time': time, 'T': Ts, 'kw': dict(kw, **g)}
    if ctx.chance(.2):
        Ts = [int(v) for v in Ts]
        ctx.inputs['T'] = Ts
    z = np.asarray(ctx.call('grav.therm_Z_plate', x.copy(), np.array(Ts) if ctx.chance(.5) else Ts, **dict(kw, **g)), float)
    ctx.check(z.shape == (len(Ts), n), 'one depth per isotherm and distance', got=z.shape)
    gz = np.arange(g.get('minz', 0), g.get('maxz', 100e3), g.get('zsp', 1e2))
    for j in range(n):
        if math.isnan(t[j]):
            continue
        col10 = np.array([temp(p, t[j], v, 10) for v in gz])
        colx = np.array([exact_temp(p, t[j], v) for v in gz])
        for i, T in enumerate(Ts):
            k = int(np.argmin(np.abs(gz - z[i, j])))
            ctx.check(abs(gz[k] - z[i, j]) < 1e-6, 'isotherm depth is not a depth of the grid', got=z[i, j])
            ok = any(abs(c[k] - T) <= np.min(np.abs(c - T)) + 1e-7 for c in (col10, colx))
            ctx.check(ok, 'another depth of the grid is closer to the isotherm', T=T, age=t[j] / YR, got=z[i, j], expected=gz[int(np.argmin(np.abs(col10 - T)))])
    ctx.cover('isotherm', time, tuple(sorted(kw)), len(Ts), tuple(sorted(g)), n)


def laws(ctx):
    """Agreement with the half space while young, steady state when old, both sides of the axis, distance and age."""
    u = ctx.loguni(.005, .1)
    age = np.sort(ctx.rng.uniform(5, 30, 6))
    z = np.linspace(0, 125e3, 26)
    L = 125e3
    T, W = (np.asarray(v) for v in ctx.call('grav.therm_plate', age, z, zL0=L, time=True))
    H, V = (np.asarray(v) for v in ctx.call('grav.therm_halfspace', age, z, time=True))
    ctx.close(T, H, 'young plate cools like a half space', atol=6.)
    ctx.close(W[age > 10], V[age > 10], 'young plate subsides like a half space', rtol=.25)
    ctx.close(W - W[-1], V - V[-1], 'young plate subsides like a half space (difference)', atol=350.)
    x = age * 1e6 * u
    Tx, Wx = (np.asarray(v) for v in ctx.call('grav.therm_plate', x, z, u=u, zL0=L))
    ctx.close(Tx, T, 'distance instead of age', rtol=1e-9, atol=1e-7)
    ctx.close(Wx, W, 'distance instead of age', rtol=1e-9)
    Tm, Wm = (np.asarray(v) for v in ctx.call('grav.therm_plate', -x, z, u=u, zL0=L))
    ctx.close(Tm, Tx, 'both sides of the axis', rtol=1e-11)
    ctx.close(Wm, Wx, 'both sides of the axis', rtol=1e-11)
    To, Wo = (np.asarray(v) for v in ctx.call('grav.therm_plate', np.array([3000.]), z, zL0=L, time=True))
    ctx.close(To[:, 0], 1350 * np.minimum(z / L, 1), 'old plate conducts steadily', rtol=1e-8, atol=1e-6)
    ctx.close(Wo, [3300 * 3e-5 * 1350 * L / 2300 / 2], 'old plate has subsided fully', rtol=1e-8)
    ctx.cover('laws', int(age[0]))


GROUPS = [Group('field', field, 150, 3000), Group('isotherm', isotherm, 60, 800), Group('laws', laws, 20, 300)]
