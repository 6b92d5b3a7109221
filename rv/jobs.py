"""Calls covering every public function, as data: (label, function, args, kwargs).

Arguments are plain picklable values (paths of generated files included), so that the same
call can be repeated, reordered, run in a thread or in another process.
"""
import copy
import math
from datetime import datetime, timedelta, timezone

import numpy as np
import pandas as pd
import yaml

from . import gen, navtools, tabletools
from .core import REPO
from .props import c06, c08, c10

READERS = ('nav', 'bgm', 'rgs', 'laptop', 'raw')
NAV_SHIPS = navtools.VARIANTS
LAPTOP = c08.SHIPS
RAW = c10.LAYOUTS


class Job:
    """label; fn 'mod.name'; args; kw.  paths(): names of files it reads.  out: what it may write."""
    __slots__ = ('label', 'fn', 'args', 'kw')

    def __init__(self, label, fn, *args, **kw):
        self.label, self.fn, self.args, self.kw = label, fn, args, kw

    def fresh(self):
        return copy.deepcopy(self.args), copy.deepcopy(self.kw)


# ------------------------------------------------------------ readers

def grav_file(ctx, kind, ship, name, n=None, ts=None, layout=None):
    """Write one gravity file; returns its path."""
    n = ctx.pick(1, 2, ctx.randint(3, 20)) if n is None else n
    ts = tabletools.starts(ctx, n) if ts is None else ts
    if kind == 'bgm':
        return ctx.write(name, '\n'.join(c06.records(ctx, ship, n, ts)[0]) + '\n')
    if kind == 'rgs':
        lines = [gen.rgs(ctx.rng, t, '%.3f' % ctx.uni(975000, 985000), '%.6f' % ctx.uni(-90, 90), '%.6f' % ctx.uni(-180, 180))[0] for t in ts]
        return ctx.write(name, '\n'.join(lines) + '\n')
    if kind == 'laptop':
        return ctx.write(name, c08.build(ctx, ship, ts)[0])
    if kind == 'raw':
        return ctx.write(name, c10.build(ctx, layout, ts)[0])
    raise KeyError(kind)


def grav_ships(kind):
    return {'bgm': c06.SHIPS, 'rgs': ('Atlantis', 'NBP'), 'laptop': c08.SHIPS, 'raw': c10.LAYOUTS}[kind]


def grav_reader(kind):
    return {'bgm': 'io.read_bgm_raw', 'rgs': 'io.read_bgm_rgs', 'laptop': 'io.read_dgs_laptop', 'raw': 'io.read_dgs_raw'}[kind]


def raw_ship(ctx, layout):
    return layout if layout in ('Thompson', 'Sikuliaq') else ctx.pick('Ride', 'Atlantis', 'Revelle', 'NBP', 'Langseth')


def nav_file(ctx, ship, talker, name, n=None):
    fixes = navtools.make_fixes(ctx, ship, ctx.randint(2, 15) if n is None else n, dropouts=ctx.pick(0, .2))
    return ctx.write(name, gen.nav_text(ctx.rng, ship, talker or gen.NAV[ship], fixes))


def feed_files(ctx, name, degree='deg', about='roll'):
    y = yaml.safe_dump({'Dev': {'category': 'x', 'format': {'PASHR': '$PASHR,{Time:f},{Roll:of},T,{Heave:of}', 'HEHDT': '$HEHDT,{Heading:f},T'},
                                'fields': {'Roll': {'units': degree, 'description': about}, 'Heave': {'units': 'm'}, 'Heading': {'units': degree}}}}, allow_unicode=True)
    lines = []
    for i, t in enumerate(gen.times(ctx.rng, ctx.randint(2, 20))):
        lines.append(t.strftime('%Y-%m-%dT%H:%M:%S.%fZ ') + '$PASHR,%s.00,%.3f,T,%.3f*5A' % (t.strftime('%H%M%S'), ctx.uni(-5, 5), ctx.uni(-2, 2)))
        lines.append(t.strftime('%Y-%m-%dT%H:%M:%S.%fZ ') + '$HEHDT,%.2f,T*12' % ctx.uni(0, 360))
    return ctx.write(name + '.yaml', y.encode()), ctx.write(name + '.txt', '\n'.join(lines) + '\n')


def ini_file(ctx, name, unit='mGal', word='meter'):
    lines = ['[Sensor]', 'GravCal = %.6f // %s' % (ctx.uni(8000, 12000), unit), 'g0 = %.3f' % ctx.uni(9e5, 1e6), 'Name = "%s %d"' % (word, ctx.randint(1, 200)), 'Place = %s' % word,
             'Enabled = %s' % ctx.pick('True', 'False'), '', '# serial', '[Ports]', 'GPS = COM%d' % ctx.randint(1, 9)]
    return ctx.write(name + '.ini', ('\n'.join(lines) + '\n').encode())


def reader_jobs(ctx):
    """One job of each kind of reader, ships and layouts drawn at random."""
    js = []
    ship, talker = navtools.VARIANTS[ctx.randint(0, len(navtools.VARIANTS) - 1)]
    kw = {'progressbar': False}
    how = ctx.pick({}, {}, {'decimate': ctx.pick(1, 2, 3)}, {'sampling': ctx.pick(.1, 10.)})
    js.append(Job('nav ' + ship, 'io.read_nav', ship, [nav_file(ctx, ship, talker, 'nav%d' % i) for i in range(ctx.pick(1, 2))],
                  **dict(kw, **how, **({'talker': talker} if talker else {}))))
    for kind in READERS[1:]:
        ship = layout = ctx.pick(*grav_ships(kind))
        if kind == 'raw':
            ship = raw_ship(ctx, layout)
        paths = [grav_file(ctx, kind, ship, '%s%d' % (kind, i), layout=layout) for i in range(ctx.pick(1, 2, 3))]
        how = {}
        if kind == 'bgm' and ctx.chance(.3):
            how = {'scale': ctx.uni(4.9, 5.1)}
        if kind == 'raw' and ctx.chance(.3):
            how = {'scale_ccp': False}
        js.append(Job('%s %s' % (kind, layout), grav_reader(kind), paths if len(paths) > 1 or ctx.chance(.5) else paths[0], ship, **kw, **how))
    y, d = feed_files(ctx, 'feed')
    js.append(Job('feed', 'io.read_other_stuff', y, d, ctx.pick('PASHR', '$HEHDT')))
    return js


# ------------------------------------------------------------ calculations

def zone(ctx):
    return ctx.pick(timezone.utc, timezone(timedelta(hours=-9)), timezone(timedelta(hours=5, minutes=30)))


def calc_jobs(ctx):
    r = ctx.rng
    n = ctx.randint(30, 80)
    t = np.arange(n, dtype=float)
    lon = ctx.uni(-170, 170) + np.cumsum(r.uniform(-1e-4, 2e-4, n))
    lat = ctx.uni(-80, 80) + np.cumsum(r.uniform(-1e-4, 2e-4, n))
    ht = np.cumsum(r.uniform(-.1, .1, n))
    ve, vn = r.normal(0, 5, n), r.normal(0, 5, n)
    z0 = datetime(ctx.randint(1990, 2040), ctx.randint(1, 12), ctx.randint(1, 28), ctx.randint(0, 23), tzinfo=zone(ctx))
    when = [z0 + timedelta(seconds=int(i) * 60) for i in range(n)]
    ser = ctx.chance(.3)

    def S(a):
        return pd.Series(a) if ser else a
    js = [Job('EN', 'nav.latlon_to_EN', lon, lat, ctx.pick(1, 2, .1)),
          Job('course', 'nav.ENvel_to_course_heading', ve, vn),
          Job('rotate', 'nav.rotate_acceleration_EN_to_cl', r.uniform(0, 360, n), ve, vn),
          Job('wgs', 'grav.wgs_grav', S(lat)),
          Job('free air', 'grav.free_air_second_order', S(lat), S(ht), ctx.chance(.5)),
          Job('tide', 'grav.longman_tide_prediction', lon, lat, when, return_components=ctx.chance(.5)),
          Job('eotvos', 'grav.eotvos_full', lon, lat, ht, ctx.pick(1, 2, .5)),
          Job('center', 'grav.center_diff', ht, ctx.pick(1, 2), ctx.pick(1, 4)),
          Job('gauss', 'utils.gaussian_filter', ht, ctx.randint(2, 20)),
          Job('gauss long', 'utils.gaussian_filter', np.cumsum(r.normal(0, 1, 400)), ctx.randint(20, 350)),
          Job('status', 'utils.decode_dgs_status_bits', ctx.randint(0, 65535))]
    # cross coupling
    m = 1100
    mon = [np.cumsum(r.normal(0, 1, m)) for _ in range(6)]
    js.append(Job('ccp', 'grav.calc_cross_coupling_coefficients', *mon, **ctx.pick({}, {'times': np.arange(m, dtype=float)})))
    nx, ny = ctx.randint(4, 12), ctx.randint(4, 12)
    dx, dy = ctx.uni(500, 4000), ctx.uni(500, 4000)
    X, Y = np.arange(nx) * dx, np.arange(ny) * dy
    js += [Job('p1', 'grav.grav1d_padded', t * dx, r.uniform(-5000, -2000, n), 0., ctx.pick(1.7, -.6)),
           Job('p2', 'grav.grav2d_folding', X, Y, r.uniform(-4000, -2000, (ny, nx)), dx, dy, drho=.6, dz=6000, ifold=ctx.chance(.5), npower=ctx.randint(1, 5)),
           Job('layer', 'grav.grav2d_layer_variable_density', r.uniform(-.1, .1, (ny, nx)), dx, dy, 3000., 9000.),
           Job('crust', 'grav.crustal_thickness_2D', r.normal(0, 10, nx * ny), nx=nx, ny=ny, dx=5., dy=6., back=ctx.chance(.3))]
    x, dep = r.uniform(1e3, 1e6, 5), np.linspace(0, 9e4, 6)
    age = ctx.chance(.5)
    ages = x / 1e6 * 100 * 1e6 * 31557600 if age else x
    js += [Job('half', 'grav.therm_halfspace', ages, dep, time=age), Job('half z', 'grav.therm_Z_halfspace', ages, 600., time=age),
           Job('plate', 'grav.therm_plate', ages, dep, time=age), Job('plate z', 'grav.therm_Z_plate', ages, [300., 900.], time=age)]
    acc = r.normal(0, 2e4, n)
    acc[ctx.randint(0, n - 1)] = math.nan
    js += [Job('up', 'grav.up_vecs', 1., 9.8e5 + r.normal(0, 10, n), acc, r.normal(0, 2e4, n), (r.random(n) < .1).astype(float), *ctx.pick((240., .7, 240., .7), (240., .7, 200., .9), (300., .5, 240., .707))),
           Job('status table', 'utils.decode_dgs_status_bits', pd.DataFrame({'a': np.arange(9.), 'status': r.integers(0, 65536, 9)}))]
    return js


#: jobs that change an argument by design (cleaning in place)
IN_PLACE = ('up', 'status table')


def variant(job, rng):
    """The same call on data of the same shape with other values."""
    a, k = job.fresh()

    def other(x):
        if isinstance(x, (np.ndarray, pd.Series)) and x.dtype.kind == 'f' and np.ndim(x) and len(x):
            return x * float(rng.uniform(.85, .97))
        if isinstance(x, pd.DataFrame):
            y = x.copy()
            for c in y.columns:
                y[c] = y[c].to_numpy()[::-1].copy()
            return y
        if isinstance(x, int) and not isinstance(x, bool) and job.label == 'status':
            return (x + int(rng.integers(1, 65536))) % 65536
        if isinstance(x, list) and x and isinstance(x[0], datetime):
            return [v + timedelta(hours=7) for v in x]
        return x
    return Job(job.label, job.fn, *[other(x) for x in a], **k)


# ------------------------------------------------------------ results

def normalise(o):
    """Plain nested structure of floats, strings, lists: comparable and picklable."""
    if isinstance(o, pd.DataFrame):
        return ('table', [str(c) for c in o.columns], [normalise(i) for i in o.index], [normalise(o.iloc[:, j].tolist()) for j in range(o.shape[1])])
    if isinstance(o, pd.Series):
        return ('series', normalise(list(o.index)), normalise(o.tolist()))
    if isinstance(o, np.ndarray):
        if o.dtype.kind in 'fiub':
            return ('array', list(o.shape), [float(v) for v in o.ravel()])
        return ('array', list(o.shape), [normalise(v) for v in o.ravel()])
    if hasattr(o, 'params') and hasattr(o, 'resid'):
        return ('model', normalise(o.params))
    if isinstance(o, datetime):
        return ('time', gen.posix(o if not isinstance(o, pd.Timestamp) else o.to_pydatetime(warn=False)) if o.tzinfo else o.isoformat(),
                str(o.utcoffset()))
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, (int, float, np.number)):
        return float(o)
    if isinstance(o, dict):
        return ('dict', [[str(k), normalise(v)] for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return [normalise(v) for v in o]
    if o is None or isinstance(o, str):
        return o
    return repr(type(o))


def differ(a, b, rtol, path='result', scale=None):
    """First difference of two normalised results, or None."""
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (math.isnan(a) and math.isnan(b)):
            return None
        if abs(a - b) <= rtol * max(abs(a), abs(b), scale or 0):
            return None
        return '%s: %r against %r' % (path, a, b)
    if type(a) is not type(b):
        return '%s: %s against %s' % (path, type(a).__name__, type(b).__name__)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d against %d items' % (path, len(a), len(b))
        fl = [abs(v) for v in a if isinstance(v, float) and math.isfinite(v)]
        sc = max(fl) if len(fl) == len(a) and fl else None
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, rtol, '%s[%d]' % (path, i), sc)
            if d:
                return d
        return None
    return None if a == b else '%s: %r against %r' % (path, a, b)


def tolerance(label):
    return 1e-6 if label == 'ccp' else 1e-11


def first_call(ctx, js):
    """The state of a fresh process is the same before and after importing, and before and after its first call."""
    import os
    import pickle
    import subprocess
    import sys
    from .core import REPO, ROOT
    src, dst = ctx.path('first.pkl'), ctx.path('first_out.pkl')
    with open(src, 'wb') as f:
        pickle.dump([(j.fn, j.args, j.kw) for j in js], f)
    env = {k: v for k, v in os.environ.items() if not k.startswith('LC_')}
    p = subprocess.run([sys.executable, '-B', '-W', 'ignore', os.path.join(ROOT, 'rv', 'firstchild.py'), src, dst, REPO], capture_output=True,
                       env=dict(env, LANG='C.UTF-8', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1'))
    if p.returncode:
        raise RuntimeError('first-call process failed: ' + p.stderr.decode(errors='replace')[-1500:])
    with open(dst, 'rb') as f:
        out = pickle.load(f)
    assert len(out) == len(js) + 1
    ctx.check(not out[0], 'importing shipgrav changes the state of the process: %s' % ', '.join(out[0]), changes=out[0])
    for j, ch in zip(js, out[1:]):
        ctx.check(not ch, 'the first call of %s changes the state of the process: %s' % (j.fn, ', '.join(ch)), changes=ch, job=j.label)
        ctx.cover('first', j.label)
    ctx.count('first_calls_watched', len(js))
