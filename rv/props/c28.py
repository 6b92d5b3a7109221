"""Gaussian smoothing of a series."""
import math

import numpy as np
import pandas as pd

from ..core import Group

RULE = ('One case = one series and filter length. Non-trivial: a series longer than the filter that is not constant; signature: filter length, kind, container.')
ASSUMPTIONS = ['The filter is causal over 2*floor(length/2)+1 samples, spans +-3 standard deviations, and has unit gain.',
               'The known finding is reported only where the impulse response equals the defect\'s exact weights (1e-12).']
TARGETS = ['utils.gaussian_filter']


def kernel(fl, bad=False):
    half = fl // 2
    w = [math.exp(-.5 * (k * 6 / fl) ** 2) for k in range(half + 1)]
    if bad:      # the gaussian evaluated one sample off, then mirrored
        w = [math.exp(-.5 * ((half - i) * 6 / fl) ** 2) for i in range(half + 1, 0, -1)]
    k = np.array(w[:0:-1] + w)
    return k / math.fsum(k)


def respond(x, k):
    n, m = len(x), len(k)
    out = np.zeros(n)
    for j in range(m):
        out[j:] += k[m - 1 - j] * x[:n - j]
    return out


def wrap(ctx, x):
    k = ctx.pick('array', 'array', 'list', 'series', 'readonly', 'int')
    if k == 'list':
        return k, [float(v) for v in x]
    if k == 'series':
        return k, pd.Series(x)
    if k == 'int':
        return k, np.round(x * 10).astype(int)
    a = np.array(x)
    if k == 'readonly':
        a.flags.writeable = False
    return k, a


def smooth(ctx):
    fl = ctx.pick(1, 2, 3, 4, 5, 8, 15, 60, 61, ctx.randint(1, 240))
    n = fl + (ctx.pick(1, 2, 10, fl, ctx.randint(1, 400)) if ctx.idx % 50 else ctx.pick(5003, 20001, 90001))
    kind = ctx.pick('impulse', 'noise', 'step', 'const', 'ramp', 'large', 'about zero')
    x = {'impulse': np.eye(1, n, ctx.randint(0, n - 1))[0], 'noise': ctx.rng.normal(size=n) * 100, 'step': (np.arange(n) > n // 3) * 50.,
         'const': np.full(n, 7.5), 'ramp': np.arange(n) * .5, 'large': 9.7e5 + ctx.rng.normal(size=n), 'about zero': (lambda v: v - v.mean())(ctx.rng.normal(size=n) * ctx.loguni(1e-9, 1e6))}[kind]
    c, a = wrap(ctx, x)
    x = np.asarray(a, float)
    ctx.inputs = {'x': x, 'fl': fl, 'container': c}
    y = ctx.call('utils.gaussian_filter', a, fl)
    t = dict(rtol=1e-10, atol=1e-12 * (np.max(np.abs(x)) + 1e-300))
    good, bad = respond(x, kernel(fl)), respond(x, kernel(fl, True))
    if not ctx.is_close(y, good, **t) and ctx.is_close(y, bad, **t):
        ctx.finding('kernel-dips-at-centre', 'the weights of the filter dip at its centre', fl=fl)
        good = bad
    ctx.close(y, good, 'smoothed series', **t)
    ctx.cover('smooth', fl, kind, c)


def long_filter(ctx):
    """Filters of minutes over data of ten or more samples a second."""
    fl = ctx.randint(1500, 5000)
    n = fl + ctx.randint(1, 900)
    x = ctx.rng.normal(size=n) + 100
    y = ctx.call('utils.gaussian_filter', x, fl)
    t = dict(rtol=1e-10, atol=1e-12)
    ctx.check(ctx.is_close(y, respond(x, kernel(fl)), **t) or ctx.is_close(y, respond(x, kernel(fl, True)), **t), 'series smoothed by a long filter', fl=fl)
    ctx.cover('long', fl)


def shape(ctx):
    """Unit gain, symmetric response, no response before the input, linear, shift-invariant, exact on lines (with its delay)."""
    fl = ctx.randint(2, 120)
    n = 3 * fl + ctx.randint(5, 60)
    m = 2 * (fl // 2) + 1
    at = ctx.randint(0, n - m - 1)
    x = np.zeros(n)
    x[at] = 1.
    h = np.asarray(ctx.call('utils.gaussian_filter', x, fl), float)
    ctx.check(np.all(np.abs(h[:at]) < 1e-13) and np.all(np.abs(h[at + m:]) < 1e-13), 'impulse response outside its window', fl=fl)
    w = h[at:at + m]
    ctx.close(w.sum(), 1., 'gain of the filter', rtol=1e-12)
    ctx.close(w, w[::-1], 'impulse response is symmetric', atol=1e-13)
    ctx.check(np.all(w > 0), 'weights are positive')
    d = np.diff(w[:m // 2 + 1])
    if np.any(d < -1e-13):
        ctx.check(np.all(d[:-1] >= -1e-13), 'weights rise towards the centre', fl=fl)
        if ctx.is_close(w, kernel(fl, True), rtol=1e-10):
            ctx.finding('kernel-dips-at-centre', 'the weights of the filter dip at its centre', fl=fl)
        else:
            ctx.check(False, 'weights rise towards the centre', fl=fl)
    line = ctx.uni(-5, 5) + ctx.uni(-1, 1) * np.arange(n)
    y = np.asarray(ctx.call('utils.gaussian_filter', line, fl), float)
    ctx.close(y[m:], line[m - fl // 2:n - fl // 2], 'a line comes out delayed by half the length', rtol=1e-9, atol=1e-9)
    a, b = ctx.rng.normal(size=n), ctx.rng.normal(size=n)
    A, B = (np.asarray(ctx.call('utils.gaussian_filter', v, fl), float) for v in (a, b))
    ctx.close(ctx.call('utils.gaussian_filter', 2 * a - 3 * b, fl), 2 * A - 3 * B, 'linearity', atol=1e-11)
    ctx.cover('shape', fl)


def gaps(ctx):
    """A sample that is not a number spoils the samples whose window holds it and no other."""
    fl = ctx.pick(1, 2, 3, 8, 15, 60, ctx.randint(1, 120))
    n = 3 * fl + ctx.randint(2, 300)
    m = 2 * (fl // 2) + 1
    x = ctx.rng.normal(size=n) * ctx.pick(1, 100)
    bad = sorted(set(int(i) for i in ctx.rng.integers(0, n, ctx.randint(1, 3))))
    if ctx.chance(.3):
        bad = sorted(set(bad + [ctx.pick(0, n - 1)]))
    y = x.copy()
    y[bad] = ctx.pick(np.nan, np.nan, np.inf)
    a = np.asarray(ctx.call('utils.gaussian_filter', x, fl), float)
    b = np.asarray(ctx.call('utils.gaussian_filter', y, fl), float)
    hit = np.zeros(n, bool)
    for i in bad:
        hit[i:i + m] = True
    ctx.inputs = {'x': y, 'fl': fl, 'bad': bad}
    ctx.close(b[~hit], a[~hit], 'samples away from a gap', rtol=1e-10, atol=1e-10)
    ctx.check(not np.any(np.isfinite(b[hit])), 'a gap is filled in by the filter', fl=fl, bad=bad)
    ctx.cover('gaps', fl, len(bad))


def refuse(ctx):
    fl = ctx.randint(1, 50)
    n = ctx.randint(0, fl)
    ok, res = ctx.call_raw('utils.gaussian_filter', np.zeros(n), fl)
    ctx.check(not ok, 'series of %d samples smoothed over %d' % (n, fl), got=res)
    ctx.cover('refuse', fl - n)


GROUPS = [Group('long_filter', long_filter, 2, 12), Group('smooth', smooth, 200, 3000), Group('gaps', gaps, 60, 600), Group('shape', shape, 40, 500), Group('refuse', refuse, 16, 60)]
