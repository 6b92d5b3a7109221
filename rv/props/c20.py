"""Cross-coupling coefficients."""
import math

import numpy as np
import pandas as pd
from scipy.signal import firwin

from ..core import Group
from .c15 import W

RULE = ('One case = one gravity series with monitors, with or without time gaps. Non-trivial: at least one section of 1000 samples; signature: '
        'kind, sections used/skipped, gap position bucket, containers, levelling on or off.')
ASSUMPTIONS = ['The sample just before a gap may or may not be used (both are accepted).',
               'Sections of 1000 samples and fewer than 1002 are not generated (whether the last sample counts decides there).',
               'The low-pass kernel is scipy.signal.firwin\'s (trusted).']
TARGETS = ['grav.calc_cross_coupling_coefficients']
NAMES = ('ve', 'vcc', 'al', 'ax', 'lev')
D = np.array(W[::-1] + [0.] + [-w for w in W])[::-1]      # weights of x[i-5..i+5] for the derivative at i
D = -D if np.dot(D, np.arange(-5, 6)) < 0 else D


def curvature(x):
    """Low-passed second derivative of one section, without the parts touched by its ends."""
    x = np.asarray(x, float)
    d1 = np.correlate(x, D, 'valid')
    d2 = np.correlate(d1, D, 'valid')          # sample j belongs to x[j + 10]
    taps = firwin(200, 1 / 200, window='blackman')
    f = np.convolve(d2, taps)[:len(d2)]        # causal
    return f[200:-200]


def sections(times, n, samplerate):
    """[(first, last+1)] of the evenly sampled sections."""
    if times is None:
        return [(0, n)]
    cut = [i + 1 for i in range(n - 1) if times[i + 1] - times[i] > 5 * samplerate]
    e = [0] + cut + [n]
    return list(zip(e[:-1], e[1:]))


def monitors(ctx, n):
    out = {}
    for k in NAMES:
        w = np.cumsum(ctx.rng.normal(size=n))
        w = w - np.linspace(w[0], w[-1], n)
        t = np.arange(n)
        w = w / (np.std(w) + 1e-9) + sum(ctx.uni(.2, 1) * np.sin(2 * math.pi * t / ctx.uni(250, 900) + ctx.uni(0, 6)) for _ in range(4))
        out[k] = w * ctx.loguni(.1, 10)
    return out


def layout(ctx, dt, n=None):
    """Times with gaps; section lengths stay away from the 1000-sample limit."""
    k = ctx.pick(1, 1, 2, 2, 3, 4) if n is None else n
    L = [ctx.randint(1005, 2500 if n is None else 1300) for _ in range(k)]
    if k > 1 and ctx.chance(.6):
        L[ctx.randint(0, k - 1)] = ctx.randint(2, 990)
    if max(L) < 1005:
        L[0] = 1500
    t, now = [], ctx.pick(0., 1.7e9, 1e5, -4000., -3e8)
    gaps = []
    for i, l in enumerate(L):
        t += [now + j * dt for j in range(l)]
        g = ctx.pick(5.6, 6, 20, 3600, 86400) * dt
        gaps.append(g)
        now = t[-1] + g
    return np.array(t), L


def wrap(ctx, kind, x):
    if kind == 'series':
        return pd.Series(x)
    a = np.array(x)
    if kind == 'readonly':
        a.flags.writeable = False
    return a


def run(ctx, m, faa, times, dt, kind, kw):
    args = [wrap(ctx, kind, faa)] + [wrap(ctx, kind, m[k]) for k in ('vcc', 've', 'al', 'ax', 'lev')]
    if times is not None:
        kw = dict(kw, times=wrap(ctx, 'array', times))
    return ctx.call('grav.calc_cross_coupling_coefficients', *args, **kw)


def recover(ctx):
    """Gravity = quadratic drift - sum of coefficient times monitor: the fit returns those coefficients."""
    dt = ctx.pick(1, 1, 1.0, 2, .5, 10, 60, .1, .01, .005, .002)
    times, L = layout(ctx, dt)
    gapped = ctx.chance(.75) or len(L) > 1
    n = len(times)
    m = monitors(ctx, n)
    lev = ctx.chance(.6)
    if not lev:
        m['lev'] = np.zeros(n)
    c = {k: ctx.uni(-3, 3) for k in NAMES}
    j = np.arange(n)
    q = ctx.uni(-2e-5, 2e-5)
    faa = ctx.uni(-50, 50) + ctx.uni(-.01, .01) * j - sum(c[k] * m[k] for k in NAMES)
    e = np.cumsum([0] + L)
    for a, b in zip(e[:-1], e[1:]):
        faa[a:b] += q / 2 * np.arange(b - a) ** 2 + ctx.uni(-20, 20) * (a > 0)   # each section with its own level
    short = [(a, b) for a, b in zip(e[:-1], e[1:]) if b - a < 1000]
    for a, b in short:
        faa[a:b] += ctx.rng.normal(size=b - a) * 1e3                              # must have no influence
    kind = ctx.pick('array', 'array', 'readonly', 'series')
    kw = {} if dt == 1 and ctx.chance(.5) else {'samplerate': dt}
    if ctx.chance(.25):       # a storm, or a turn of the ship: far more signal in it than in the rest
        at, wide = ctx.uni(0, n), ctx.uni(40, 200)
        for k in NAMES:
            if k != 'lev' or lev:
                w = ctx.uni(5, 60) * np.std(m[k]) * np.exp(-.5 * ((j - at) / wide) ** 2)
                m[k] = m[k] + w
                faa = faa - c[k] * w
    ctx.inputs = {'sections': L, 'coefficients': c, 'samplerate': dt, 'container': kind, 'lev': lev}
    df, model = run(ctx, m, faa, times if gapped else None, dt, kind, kw)
    p = model.params
    for k in NAMES:
        if k == 'lev' and not lev:
            continue
        ctx.close(p[k], c[k], 'recovered coefficient of ' + k, rtol=1e-5, atol=1e-6 * max(1., 1 / np.std(m[k]) * 20))
    ctx.close(p['const'], -q, 'recovered drift curvature', rtol=1e-4, atol=1e-8)
    ctx.cover('recover', len(L), len(short), kind, lev, dt)


def table(ctx):
    """The table of filtered curvatures, row by row."""
    dt = ctx.pick(1, 1, 2, .5, 10, 30., 60, .1, .01, .005, .002)
    times, L = layout(ctx, dt, ctx.randint(8, 30) if ctx.idx % 10 == 7 else None)
    gapped = len(L) > 1 or ctx.chance(.5)
    n = len(times)
    if gapped and ctx.chance(.4):      # small gaps do not split
        at = ctx.randint(1, n - 1)
        times[at:] += dt * ctx.pick(1., 2., 3.9)
    m = monitors(ctx, n)
    if ctx.chance(.3):
        m['lev'] = np.zeros(n)
    faa = np.cumsum(ctx.rng.normal(size=n)) * .1 + ctx.uni(-30, 30)
    kind = ctx.pick('array', 'array', 'readonly', 'series')
    ctx.inputs = {'sections': L, 'samplerate': dt, 'container': kind}
    df, model = run(ctx, m, faa, times if gapped else None, dt, kind, {'samplerate': dt})
    secs = sections(times if gapped else None, n, dt)
    ctx.check(set(NAMES) | {'g'} <= set(df.columns), 'columns of the table of curvatures', got=list(df.columns))

    def want(x, drop):
        out = []
        for i, (a, b) in enumerate(secs):
            b -= drop and i < len(secs) - 1
            if b - a >= 1000:
                out.append(curvature(x[a:b]))
        return np.concatenate(out)
    ok = False
    for drop in (True, False):
        if len(df) != len(want(faa, drop)):
            continue
        scale = {k: 1e-11 * (np.max(np.abs(x)) + 1e-300) for k, x in list(m.items()) + [('g', faa)]}
        if all(ctx.is_close(df[k], want(m[k], drop), rtol=1e-9, atol=scale[k]) for k in NAMES) and ctx.is_close(df['g'], -want(faa, drop), rtol=1e-9, atol=scale['g']):
            ok = True
    ctx.check(ok, 'table of double-differenced, filtered monitors and (negated) gravity', rows=len(df), expected_rows=len(want(faa, False)), sections=[b - a for a, b in secs])
    # the model is the least-squares fit of that table, with a constant
    X = np.c_[np.ones(len(df)), df[list(NAMES)].to_numpy()]
    y = df['g'].to_numpy()
    s = np.where(np.std(X, axis=0) > 0, np.std(X, axis=0), 1.)
    s[0] = 1.
    b, *_ = np.linalg.lstsq(X / s, y, rcond=None)
    b = b / s
    got = [model.params[k] for k in ('const',) + NAMES]
    r0, r1 = np.sum((y - X @ b) ** 2), np.sum((y - X @ np.array(got)) ** 2)
    ctx.check(r1 <= r0 * (1 + 1e-9) + 1e-24 * np.sum(y ** 2), 'coefficients are not the least-squares fit', residual=r1, best=r0)
    ctx.cover('table', len(secs), tuple(b - a >= 1000 for a, b in secs), kind, dt)


def alone(ctx):
    """Each section counts for itself: a long section fitted alone gives the rows it gives in company."""
    dt = 1
    L = [ctx.randint(1010, 1800), ctx.randint(1010, 1800)]
    n = sum(L)
    times = np.r_[np.arange(L[0]), L[0] + ctx.pick(10, 5000) + np.arange(L[1])].astype(float)
    m = monitors(ctx, n)
    faa = np.cumsum(ctx.rng.normal(size=n)) * .1
    both, _ = run(ctx, m, faa, times, dt, 'array', {})
    s = slice(L[0], n)
    last, _ = run(ctx, {k: v[s] for k, v in m.items()}, faa[s], times[s], dt, 'array', {})
    k = len(last)
    ctx.check(k == L[1] - 420, 'rows of a section of %d samples' % L[1], got=k)
    for c in NAMES + ('g',):
        ctx.close(both[c].to_numpy()[-k:], last[c].to_numpy(), 'curvature of a section in company, ' + c, rtol=1e-9, atol=1e-12)
    ctx.cover('alone', L[0] // 200, L[1] // 200)


def spaced(ctx):
    """Sampling five times slower than the nominal rate leaves no gap."""
    n = ctx.randint(1010, 1700)
    rate = ctx.pick(None, 1, 2, .5)
    step = 5 * (rate or 1) if ctx.chance(.5) else ctx.pick(.01, .1, .5, 1, 2, 4) * (rate or 1)
    times = np.arange(n) * step
    times = times.astype(ctx.pick(int, float)) if step == int(step) else times
    hole = ctx.chance(.4) and step < 2 * (rate or 1)
    if hole:      # what counts as a gap is told by the rate, not by the spacing
        times = times.astype(float)
        times[ctx.randint(1, n - 1):] += (4.9 * (rate or 1) - step) * ctx.uni(.5, 1)
    m = monitors(ctx, n)
    faa = np.cumsum(ctx.rng.normal(size=n)) * .1
    ctx.inputs = {'n': n, 'spacing': step, 'samplerate': rate, 'dtype': str(times.dtype)}
    kw = {} if rate is None else {'samplerate': rate}
    one, _ = run(ctx, m, faa, times, 1, 'array', kw)
    ctx.check(len(one) == n - 420, 'rows of %d samples at a spacing of %s' % (n, step), got=len(one))
    for k in NAMES:
        ctx.close(one[k], curvature(m[k]), 'curvature of evenly spaced data, ' + k, rtol=1e-9, atol=1e-11 * np.max(np.abs(m[k])))
    ctx.close(one['g'], -curvature(faa), 'curvature of evenly spaced gravity', rtol=1e-9, atol=1e-11 * np.max(np.abs(faa)))
    ctx.cover('spaced', step, rate, str(times.dtype), hole)


def voyage(ctx):
    """More than a day of data at one per second."""
    n = ctx.randint(87000, 100000)
    gap = ctx.idx % 2
    times = np.arange(n, dtype=float) + 1.7e9
    cut = ctx.randint(2000, n - 2000)
    if gap:
        times[cut:] += ctx.pick(6, 3600)
    m = monitors(ctx, n)
    faa = np.cumsum(ctx.rng.normal(size=n)) * .1
    if ctx.chance(.5):      # one storm in all that time
        w = np.exp(-.5 * ((np.arange(n) - ctx.uni(0, n)) / ctx.uni(60, 300)) ** 2)
        for k in NAMES:
            m[k] = m[k] + ctx.uni(10, 60) * np.std(m[k]) * w
        faa = faa + ctx.uni(500, 2000) * w
    ctx.inputs = {'n': n, 'gap at': cut if gap else None}
    df, model = run(ctx, m, faa, times if gap or ctx.chance(.5) else None, 1, 'array', {})
    want = n - 420 * (1 + gap)
    ctx.check(want - gap <= len(df) <= want, 'rows of %d samples' % n, got=len(df))
    k = 80000 if not gap else n - cut - 420
    for c, x, s in [(c, m[c], 1) for c in NAMES] + [('g', faa, -1)]:
        part = x[cut:] if gap else x
        ctx.close(s * df[c].to_numpy()[-k:], curvature(part)[-k:], 'curvature in a long series, ' + c, rtol=1e-9, atol=1e-10 * np.max(np.abs(x)))
    ctx.close(df['g'].to_numpy()[:1000], -curvature(faa[:1500])[:1000], 'curvature at the start of a long series', rtol=1e-9, atol=1e-10 * np.max(np.abs(faa))) if not gap else None
    ctx.cover('voyage', gap, n // 2000)


GROUPS = [Group('spaced', spaced, 40, 600), Group('voyage', voyage, 4, 30), Group('recover', recover, 80, 1500), Group('table', table, 80, 1500), Group('alone', alone, 24, 400)]
