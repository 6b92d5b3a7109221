"""Course, speed and rotation into the ship's frame."""
import cmath
import math

import numpy as np
import pandas as pd

from ..core import Group

RULE = ('One case = one set of velocities or accelerations with headings (all quadrants, axes, zeros, NaN). Non-trivial: a non-zero vector; '
        'signature: kind, size, quadrants present, container.')
ASSUMPTIONS = ['Cross is positive to starboard and long is positive forward; comparison at 1e-12 of the vector length.']
TARGETS = ['nav.ENvel_to_course_heading', 'nav.rotate_acceleration_EN_to_cl']


def vectors(ctx, n):
    mag = ctx.loguni(1e-6, 1e6)
    x, y = ctx.rng.normal(size=n) * mag, ctx.rng.normal(size=n) * mag
    for i in range(n):
        if ctx.chance(.15):     # next to an axis
            d = ctx.pick(-1, 1) * ctx.loguni(1e-9, 1e-2)
            x[i], y[i] = ctx.pick((d * mag, mag), (d * mag, -mag), (mag, d * mag), (-mag, d * mag))
        elif ctx.chance(.25):
            x[i], y[i] = ctx.pick((0., mag), (0., -mag), (mag, 0.), (-mag, 0.), (mag, mag), (-mag, -mag), (mag, -mag), (-mag, mag), (0., 0.))
    if ctx.chance(.12):     # whole counts
        x, y = np.round(np.clip(x, -3e4, 3e4)), np.round(np.clip(y, -3e4, 3e4))
    return x, y, mag


def ints(ctx, k, *arrs):
    """The same numbers as integers, where they are whole."""
    if k in ('array', 'series') and all(np.all(a == np.round(a)) for a in arrs) and ctx.chance(.7):
        t = ctx.pick('int64', 'int32')
        return [(pd.Series if k == 'series' else np.array)(np.array(a, t)) for a in arrs]


def wrap(ctx, *arrs):
    k = ctx.pick('array', 'array', 'series', 'scalar', 'readonly')
    if k == 'series':
        return k, [pd.Series(a) for a in arrs]
    if k == 'scalar':
        return k, [float(a[0]) for a in arrs]
    out = [np.array(a) for a in arrs]
    if k == 'readonly':
        for a in out:
            a.flags.writeable = False
    return k, out


def course(ctx):
    n = ctx.pick(1, 2, 10, 50) if ctx.idx % 60 else ctx.pick(1500, 5001, 20001, 70001)
    ve, vn, mag = vectors(ctx, n)
    if ctx.chance(.2):
        ve[ctx.pick(0, n - 1, ctx.randint(0, n - 1))] = math.nan
    k, (e, v) = wrap(ctx, ve, vn)
    if k == 'scalar':
        ve, vn = ve[:1], vn[:1]
    e, v = ints(ctx, k, ve, vn) or (e, v)
    ctx.inputs = {'ve': ve, 'vn': vn, 'container': k}
    h, s = (np.atleast_1d(np.asarray(r, float)) for r in ctx.call('nav.ENvel_to_course_heading', e, v))
    ctx.close(s, [abs(complex(a, b)) if not math.isnan(a) else math.nan for a, b in zip(ve, vn)], 'speed', rtol=1e-12)
    for i in range(len(ve)):
        if math.isnan(ve[i]):
            ctx.check(math.isnan(h[i]), 'course of an unknown velocity', got=h[i])
            continue
        if s[i] == 0:
            continue
        # the course is the compass direction of the vector: clockwise from north
        want = (90 - math.degrees(cmath.phase(complex(ve[i], vn[i])))) % 360
        d = (h[i] - want + 180) % 360 - 180
        ctx.check(abs(d) < 1e-9, 'course is not the direction of motion, clockwise from north', ve=ve[i], vn=vn[i], got=h[i], expected=want)
        ctx.check(-360 <= h[i] <= 360, 'course out of range', got=h[i])
    ctx.cover('course', n, k, len({(a > 0, b > 0) for a, b in zip(ve, vn)}))


def rotate(ctx):
    n = ctx.pick(1, 2, 10, 50) if ctx.idx % 60 else ctx.pick(1500, 5001, 20001, 70001)
    aE, aN, mag = vectors(ctx, n)
    h = np.array([ctx.pick(0., 90., 180., 270., -90., 360., 45., 720., ctx.uni(-180, 180), ctx.uni(0, 360),
                           ctx.pick(0., 90., 180., -90., 270., 360., -180.) + ctx.pick(-1, 1) * ctx.loguni(1e-9, 1e-2)) for _ in range(n)])
    if ctx.chance(.2):
        h[-1] = math.nan
    if ctx.chance(.2):      # unknown accelerations stay their own business
        aE[ctx.randint(0, n - 1)] = math.nan
        if ctx.chance(.5):
            aN[ctx.randint(0, n - 1)] = math.nan
    k, (hh, e, v) = wrap(ctx, h, aE, aN)
    if k == 'scalar':
        h, aE, aN = h[:1], aE[:1], aN[:1]
    e, v = ints(ctx, k, aE, aN) or (e, v)
    ctx.inputs = {'heading': h, 'east': aE, 'north': aN, 'container': k}
    ac, al = (np.atleast_1d(np.asarray(r, float)) for r in ctx.call('nav.rotate_acceleration_EN_to_cl', hh, e, v))
    for i in range(len(h)):
        if math.isnan(h[i]):
            ctx.check(math.isnan(ac[i]) and math.isnan(al[i]), 'accelerations for an unknown heading', got=[ac[i], al[i]])
            continue
        if math.isnan(aE[i] + aN[i]):
            quarter = h[i] % 90 == 0      # multiplied by (nearly) nothing, so either answer will do
            ctx.check(quarter or (math.isnan(ac[i]) and math.isnan(al[i])), 'components of an unknown acceleration', got=[ac[i], al[i]])
            continue
        z = complex(aN[i], aE[i]) * cmath.exp(-1j * math.radians(h[i]))   # north + i east, turned back by the heading
        tol = 1e-12 * max(abs(z), 1e-300) * 4
        ctx.check(abs(al[i] - z.real) <= tol, 'long (forward) acceleration', heading=h[i], got=al[i], expected=z.real)
        ctx.check(abs(ac[i] - z.imag) <= tol, 'cross (starboard) acceleration', heading=h[i], got=ac[i], expected=z.imag)
        ctx.check(abs(math.hypot(ac[i], al[i]) - math.hypot(aE[i], aN[i])) <= tol, 'rotation changes the size of the acceleration')
    ctx.cover('rotate', n, k, tuple(sorted({int(a // 90) for a in h if a == a}))[:4])


def joint(ctx):
    """Rotating a velocity by its own course leaves it all forward; one scalar heading serves a whole series."""
    n = ctx.randint(1, 40)
    ve, vn, mag = vectors(ctx, n)
    h, s = ctx.call('nav.ENvel_to_course_heading', ve.copy(), vn.copy())
    ac, al = ctx.call('nav.rotate_acceleration_EN_to_cl', h, ve.copy(), vn.copy())
    ctx.close(ac, np.zeros(n), 'cross component of the own velocity', atol=1e-11 * mag * 5)
    ctx.close(al, s, 'long component of the own velocity', rtol=1e-11, atol=1e-11 * mag)
    b = ctx.uni(0, 360)
    ac, al = ctx.call('nav.rotate_acceleration_EN_to_cl', b, ve.copy(), vn.copy())
    z = (vn + 1j * ve) * cmath.exp(-1j * math.radians(b))
    ctx.close(al, z.real, 'long, one heading for all', atol=1e-11 * mag * 5)
    ctx.close(ac, z.imag, 'cross, one heading for all', atol=1e-11 * mag * 5)
    ctx.cover('joint', n // 5)


GROUPS = [Group('course', course, 200, 4000), Group('rotate', rotate, 200, 4000), Group('joint', joint, 60, 1000)]
