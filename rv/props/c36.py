"""Arguments mean their values, whatever holds them."""
import math
from datetime import datetime, timedelta, timezone

import numpy as np
import pandas as pd

from .. import jobs
from ..core import Group

RULE = ('One case = one calculation with its series held in containers drawn anew for each argument, against the same values in plain float arrays. '
        'Non-trivial: every call; signature: function, container of each series.')
ASSUMPTIONS = ['Lists and tuples are accepted where the documentation says array_like, not where it says ndarray; platform accelerations are arrays or series (cleaned in place).',
               'Series given together carry the same labels (differently labelled series are joined by label, as pandas does).',
               'Integers of 32 bits or more hold whole values; single precision is not generated.']
TARGETS = ['grav.longman_tide_prediction', 'grav.eotvos_full', 'grav.therm_Z_plate', 'nav.latlon_to_EN', 'utils.gaussian_filter']
ARRAYS = ('plain', 'strided', 'reversed', 'big endian', 'column', 'readonly', 'int32', 'int64', 'uint32')
LABELS = ('range', 'offset', 'backwards', 'shuffled', 'times', 'fractions', 'same', 'names')


def labels(ctx, n):
    k = ctx.pick(*LABELS)
    return k, {'range': lambda: pd.RangeIndex(n), 'offset': lambda: pd.RangeIndex(50, 50 + n), 'backwards': lambda: pd.RangeIndex(n - 1, -1, -1),
               'shuffled': lambda: pd.Index(ctx.rng.permutation(n)), 'times': lambda: pd.date_range('2020-02-28T23:59', periods=n, freq='s', tz='UTC'),
               'fractions': lambda: pd.Index(np.arange(n) * .5), 'same': lambda: pd.Index(np.zeros(n, int)), 'names': lambda: pd.Index(['r%d' % i for i in range(n)])}[k]()


def hold(ctx, a, k, index):
    """The values of a in container k."""
    a = np.array(a, float)
    if k in ('int32', 'int64', 'uint32'):
        t = {'int32': np.int32, 'int64': np.int64, 'uint32': np.uint32}[k]
        return a.astype(t) if np.all(a == a.astype(t)) and (k != 'uint32' or a.min() >= 0) else a
    if k == 'strided':
        b = np.full(3 * len(a) + 1, 1e9)
        b[1::3] = a
        return b[1::3]
    if k == 'reversed':
        return a[::-1].copy()[::-1]
    if k == 'big endian':
        return a.astype('>f8')
    if k == 'column':
        b = np.full((len(a), 3), 1e9)
        b[:, 1] = a
        return b[:, 1]
    if k == 'readonly':
        a.flags.writeable = False
        return a
    if k == 'list':
        return [int(v) if v == int(v) and abs(v) < 1e6 else float(v) for v in a]
    if k == 'tuple':
        return tuple(float(v) for v in a)
    if k == 'series':
        return pd.Series(a, index=index)
    if k == 'table column':
        return pd.DataFrame({'x': np.zeros(len(a)), 'y': a, 'z': 'text'}, index=index)['y']
    return a


def stamps(ctx, t, k, index):
    if k == 'list':
        return list(t)
    if k == 'tuple':
        return tuple(t)
    if k == 'object array':
        return np.array(t, dtype=object)
    if k == 'index':
        return pd.DatetimeIndex(t)
    return pd.Series(t, index=index)


def grids(ctx, a, k):
    if k == 'fortran':
        return np.asfortranarray(a)
    if k == 'transposed':
        return a.T.copy().T
    if k == 'turned window':
        b = np.full((2 * a.shape[1] + 3, a.shape[0] + 5), 1e9)
        b[1:1 + 2 * a.shape[1]:2, 2:2 + a.shape[0]] = a.T
        return b.T[2:2 + a.shape[0], 1:1 + 2 * a.shape[1]:2]
    if k == 'window':
        b = np.full((a.shape[0] + 5, 2 * a.shape[1] + 3), 1e9)
        b[2:2 + a.shape[0], 1:1 + 2 * a.shape[1]:2] = a
        return b[2:2 + a.shape[0], 1:1 + 2 * a.shape[1]:2]
    if k == 'reversed':
        return a[::-1, ::-1].copy()[::-1, ::-1]
    if k == 'big endian':
        return a.astype('>f8')
    if k == 'readonly':
        a = a.copy()
        a.flags.writeable = False
    if k in ('int32', 'int64'):
        return a.astype(k) if np.all(a == np.round(a)) else a
    return a


def whole(ctx, a):
    """Whole values half of the time, so that integers can hold them."""
    return np.round(a) + 0. if ctx.chance(.5) else a


class S:
    """A series among the arguments: the containers it may be held in (l lists too, n ndarrays and series only, w writable ndarrays and series)."""

    def __init__(self, a, how='l'):
        self.a, self.how = np.asarray(a, float), how


class T:
    def __init__(self, t):
        self.t = t


class G:
    def __init__(self, a):
        self.a = np.asarray(a, float)


def table(ctx):
    """(label, function, arguments, keywords)"""
    r = ctx.rng
    n = ctx.randint(12, 60)
    step = ctx.uni(.2, 1.5)
    lat = whole(ctx, ctx.uni(-60, 60) + np.cumsum(r.uniform(-.1, .2, n)))
    lon = whole(ctx, ctx.uni(-100, 100) + np.arange(n) * step)
    ht = whole(ctx, np.cumsum(r.normal(0, 3, n)))
    ve, vn = whole(ctx, r.normal(0, 9, n)), whole(ctx, r.normal(0, 9, n))
    z0 = datetime(ctx.randint(1960, 2060), ctx.randint(1, 12), ctx.randint(1, 28), ctx.randint(0, 23), tzinfo=jobs.zone(ctx))
    t = [z0 + timedelta(seconds=int(i) * 613) for i in range(n)]
    acc = [whole(ctx, r.normal(0, 2e4, n)) for _ in 'cl']
    m = ctx.randint(1010, 1100)
    two = ctx.chance(.5)
    mon = [whole(ctx, 50 * np.cumsum(r.normal(0, 1, 2 * m if two else m))) for _ in range(6)]
    mt = np.arange(len(mon[0]), dtype=float)
    mt[m:] += 1000
    nx, ny = ctx.randint(4, 12), ctx.randint(4, 12)
    x = np.arange(n) * float(ctx.randint(50, 3000))
    z = whole(ctx, -3000 + r.normal(0, 200, n))
    d, dep = whole(ctx, r.uniform(1e3, 1e6, 6)), whole(ctx, np.linspace(0, 9e4, 7))
    age = whole(ctx, r.uniform(1, 100, 6))
    o = ctx.chance(.5)
    return [('tide', 'grav.longman_tide_prediction', (S(lon), S(lat), T(t)), dict(alt=S(ht), return_components=o)),
            ('tide sea level', 'grav.longman_tide_prediction', (S(lon), S(lat), T(t)), {}),
            ('eotvos', 'grav.eotvos_full', (S(lon * .01), S(lat), S(ht), ctx.pick(1, 2, .5)), {}),
            ('free air', 'grav.free_air_second_order', (S(lat), S(ht), o), {}),
            ('wgs', 'grav.wgs_grav', (S(lat),), {}),
            ('center', 'grav.center_diff', (S(ht), ctx.pick(1, 2), ctx.pick(1, 4)), {}),
            ('EN', 'nav.latlon_to_EN', (S(lon, 'n'), S(lat, 'n'), ctx.pick(1, 2)), {}),
            ('course', 'nav.ENvel_to_course_heading', (S(ve, 'n'), S(vn, 'n')), {}),
            ('rotate', 'nav.rotate_acceleration_EN_to_cl', (S(np.abs(lon), 'n'), S(ve, 'n'), S(vn, 'n')), {}),
            ('gauss', 'utils.gaussian_filter', (S(ht), ctx.randint(2, 10)), {}),
            ('coupling', 'grav.calc_cross_coupling_coefficients', tuple(S(v) for v in mon), {'times': S(mt)} if two else {}),
            ('up', 'grav.up_vecs', (1., S(9.8e5 + np.round(ht)), S(acc[0], 'w'), S(acc[1], 'w'), S((ht > 0) * 1., 'n'), 240., .7, 200., .6), {}),
            ('profile', 'grav.grav1d_padded', (S(x), S(z), 0., 1.7), {}),
            ('fold', 'grav.grav2d_folding', (S(np.arange(nx) * 2., 'n'), S(np.arange(ny) * 3., 'n'), G(whole(ctx, r.uniform(-4000, -2000, (ny, nx)))), 2., 3.), dict(ifold=o)),
            ('layer', 'grav.grav2d_layer_variable_density', (G(whole(ctx, 100 * r.normal(size=(ny, nx)))), 2., 3., 3., 9.), {}),
            ('crust', 'grav.crustal_thickness_2D', (S(whole(ctx, r.normal(0, 20, nx * ny))),), dict(nx=nx, ny=ny, dx=5., dy=6., back=o)),
            ('crust grid', 'grav.crustal_thickness_2D', (G(whole(ctx, r.normal(0, 20, (nx, ny)))),), dict(nx=nx, ny=ny, dx=5., dy=6., back=o)),
            ('half', 'grav.therm_halfspace', (S(age if o else d), S(dep)), dict(time=o)),
            ('half z', 'grav.therm_Z_halfspace', (S(age if o else d), 600.), dict(time=o)),
            ('plate', 'grav.therm_plate', (S(age if o else d), S(dep)), dict(time=o)),
            ('plate z', 'grav.therm_Z_plate', (S(age if o else d), S(np.array([300., 900., 600.]))), dict(time=o))]


def plain(v):
    return v.a.copy() if isinstance(v, (S, G)) else list(v.t) if isinstance(v, T) else v


def parts(o):
    if isinstance(o, tuple) and len(o) == 2 and hasattr(o[1], 'params'):
        return [o[0].to_numpy(), o[1].params.to_numpy()]
    return list(o) if isinstance(o, tuple) else [o]


def compare(ctx, label, fn, got, want, held, index):
    g, w = parts(got), parts(want)
    ctx.check(len(g) == len(w), '%s: number of results' % fn, got=len(g), containers=held)
    for i, (a, b) in enumerate(zip(g, w)):
        if isinstance(a, pd.Series) and index is not None and len(a) == len(index):
            ctx.check(a.index.equals(index) or a.index.equals(pd.RangeIndex(len(a))), '%s: result %d carries other labels than its arguments' % (fn, i), containers=held)
        b = np.asarray(np.real(b) if label.startswith('crust') else b, float)
        s = np.max(np.abs(b[np.isfinite(b)])) if np.isfinite(b).any() else 0.
        rtol = 1e-6 if label == 'coupling' else 1e-9
        a = np.real(a) if label.startswith('crust') else a
        ctx.close(a, b, '%s: result %d for the same values in other containers (%s)' % (fn, i, ', '.join(held)), rtol=rtol, atol=max(s, label == 'up', 1e-2 * label.startswith('crust')) * rtol * .1)


def containers(ctx):
    for label, fn, args, kw in table(ctx):
        want = ctx.call(fn, *[plain(v) for v in args], **{k: plain(v) for k, v in kw.items()})
        ns = {len(v.a) for v in list(args) + list(kw.values()) if isinstance(v, S)} or {1}
        held, names = [], {}
        for n in sorted(ns):
            names[n] = labels(ctx, n)

        same = ctx.pick(None, None, 'series', 'table column', 'list', 'int64', 'strided')

        def give(v):
            if isinstance(v, S):
                choice = list(ARRAYS) + ['series', 'series', 'table column'] + (['list', 'tuple'] if v.how == 'l' else [])
                if v.how == 'w':
                    choice = [c for c in choice if c != 'readonly']
                k = same if same in choice else choice[ctx.randint(0, len(choice) - 1)]
                held.append(k if k not in ('series', 'table column') else k + ' by ' + names[len(v.a)][0])
                return hold(ctx, v.a, k, names[len(v.a)][1])
            if isinstance(v, T):
                k = ctx.pick('list', 'tuple', 'object array', 'index', 'series')
                held.append('times ' + k)
                return stamps(ctx, v.t, k, names[len(v.t)][1])
            if isinstance(v, G):
                k = ctx.pick('fortran', 'transposed', 'window', 'turned window', 'reversed', 'big endian', 'readonly', 'int32', 'int64')
                held.append(k)
                return grids(ctx, v.a, k)
            if isinstance(v, int) and not isinstance(v, bool) and ctx.chance(.4):
                return np.int64(v)
            if isinstance(v, float) and v == int(v) and ctx.chance(.4):
                held.append('whole number')
                return ctx.pick(int, np.int64, np.int32)(v)
            if isinstance(v, float) and ctx.chance(.4):
                return np.float64(v)
            return v
        a, k = [give(v) for v in args], {n: give(v) for n, v in kw.items()}
        ctx.inputs = {'function': fn, 'containers': held, 'args': args, 'kw': kw}
        ok, got = ctx.call_raw(fn, *a, **k)
        ctx.check(ok, '%s fails for the same values in other containers (%s)' % (fn, ', '.join(held)), error=repr(got))
        compare(ctx, label, fn, got, want, held, names[max(ns)][1] if len(ns) == 1 else None)
        for h in held:
            ctx.cover(label, h)


GROUPS = [Group('containers', containers, 160, 2500)]
