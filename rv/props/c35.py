"""Central differences of a series."""
import math
from fractions import Fraction

import numpy as np
import pandas as pd

from ..core import Group

RULE = ('One case = one series (polynomial, oscillating, noise, constant, with NaN) at one sampling rate, differenced once or twice. '
        'Non-trivial: at least three samples, not constant; signature: kind, order, rate bucket, container, length bucket.')
ASSUMPTIONS = ['Sampling rates are positive.']
TARGETS = ['grav.center_diff']


def put(ctx, y):
    k = ctx.pick('array', 'array', 'list', 'series', 'cut series', 'strided', 'readonly')
    if k == 'list':
        return k, [float(v) for v in y]
    if k == 'series':
        return k, pd.Series(y)
    if k == 'cut series':
        return k, pd.Series(np.r_[0., 1., y])[2:]
    if k == 'strided':
        z = np.zeros(2 * len(y))
        z[::2] = y
        return k, z[::2]
    a = np.array(y, dtype=float)
    if k == 'readonly':
        a.flags.writeable = False
    return k, a


def rate(ctx):
    return ctx.pick(1, 1.0, 2, 10, .1, 1 / 60, ctx.loguni(1e-3, 1e3))


def series(ctx):
    n = ctx.pick(1, 2, 3, 4, 5, ctx.randint(3, 400), ctx.randint(3, 400)) if ctx.idx % 80 else ctx.pick(1500, 5001, 20001, 70001)
    kind = ctx.pick('noise', 'wave', 'walk', 'spike', 'constant', 'nan', 'int')
    y = {'noise': ctx.rng.normal(0, ctx.loguni(1e-3, 1e5), n), 'wave': np.sin(np.arange(n) * ctx.uni(.01, 2)),
         'walk': np.cumsum(ctx.rng.normal(0, 1, n)), 'spike': np.eye(1, n, ctx.randint(0, n - 1))[0], 'constant': np.full(n, ctx.uni(-1e5, 1e5)),
         'nan': ctx.rng.normal(0, 1, n), 'int': ctx.rng.integers(-1000, 1000, n).astype(float)}[kind]
    if kind == 'nan':
        y[ctx.rng.integers(0, n, ctx.randint(1, max(1, n // 8)))] = math.nan
    samp = rate(ctx)
    box, arg = put(ctx, y)
    if kind == 'int' and box == 'array' and ctx.chance(.5):
        box, arg = 'int', y.astype(int)
    if kind == 'int' and ctx.chance(.5):
        box = ctx.pick('int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'uint64')
        lim = np.iinfo(box)
        y = ctx.rng.integers(lim.min, min(lim.max, 2 ** 40), n, dtype='int64' if box != 'uint64' else 'uint64').astype(box)
        arg, y = ctx.pick(np.array, pd.Series)(y), y.astype(float)
    for order in (1, 2):
        got = ctx.call('grav.center_diff', arg, order, samp)
        sp = Fraction(samp)
        want = []
        for i in range(1, n - 1):
            v = [y[i - 1], y[i], y[i + 1]] if order == 2 else [y[i - 1], y[i + 1]]
            if any(math.isnan(x) for x in v):
                want.append(math.nan)
            elif order == 1:
                want.append(float((Fraction(v[1]) - Fraction(v[0])) * sp / 2))
            else:
                want.append(float((Fraction(v[0]) - 2 * Fraction(v[1]) + Fraction(v[2])) * sp * sp))
        sc = float(np.nanmax(np.abs(y))) if np.any(~np.isnan(y)) else 0.
        ctx.close(np.asarray(got), want, 'derivative of order %d' % order, rtol=1e-9, atol=1e-14 * sc * samp ** order, order=order, samp=samp)
        ctx.cover(kind, order, round(math.log10(samp)), box, n // 50)


def exact(ctx):
    """Quadratics and cubics are differentiated exactly."""
    n = ctx.randint(3, 100)
    samp = ctx.pick(1, 2, 10, .5, .1)
    t = np.arange(n) / samp
    p = ctx.rng.uniform(-3, 3, 3)
    q = ctx.rng.uniform(-3, 3, 4)
    tol = 1e-12 * 3 * (1 + t[-1]) ** 3 * samp ** 2
    ctx.close(ctx.call('grav.center_diff', np.polyval(p, t), 1, samp), np.polyval(np.polyder(p), t[1:-1]), 'derivative of a quadratic', atol=tol)
    ctx.close(ctx.call('grav.center_diff', np.polyval(q, t), 2, samp), np.polyval(np.polyder(q, 2), t[1:-1]), 'second derivative of a cubic', atol=tol)
    ctx.cover(samp, n // 10)


def refused(ctx):
    order = (0, 3, -1, 4, 1.5, None, '1')[ctx.idx % 7]
    res = ctx.call('grav.center_diff', ctx.rng.normal(0, 1, 9), order, 1.)
    ctx.check(isinstance(res, int) and res == -999, 'another order is not refused', order=order, got=res)
    ctx.cover(repr(order))


GROUPS = [Group('series', series, 250, 8000), Group('exact', exact, 60, 1500), Group('refused', refused, 14, 14)]
