"""BGM3 serial records."""
import numpy as np
import pandas as pd
import tomli

from .. import gen
from ..core import REPO, Group
from ..tabletools import check_times, many, starts

RULE = ('One case = one or more synthetic BGM3 serial files of one ship with chosen counts, times and scale. '
        'Non-trivial: at least one record; signature: ship, number of records bucket, files, scale source, count range, date kind.')
ASSUMPTIONS = ['Counts are written with six digits as in the example files.', 'rgrav is compared at 1e-12 relative, times at 1 microsecond.']
TARGETS = ['io.read_bgm_raw']
SHIPS = ('Atlantis', 'Thompson', 'Revelle', 'Langseth')


def scales():
    with open(REPO + '/shipgrav/database.toml', 'rb') as f:
        return tomli.load(f)['BGM-scale']


def records(ctx, ship, n, ts=None):
    kind = ctx.pick('usual', 'usual', 'small', 'full', 'edges')
    lo, hi = {'usual': (20000, 30000), 'small': (0, 99), 'full': (0, 999999), 'edges': (0, 2)}[kind]
    counts = [int(c) for c in ctx.rng.integers(lo, hi + 1, n)]
    if kind == 'edges':
        counts = [ctx.pick(0, 1, 9, 10, 99999, 100000, 999999, 7, 8, 77, 80) for _ in range(n)]
    ts = ts or starts(ctx, n)
    lines, when = [], []
    tag = ctx.pick('04', '04', '05', '10', '00')
    rep, out = ctx.pick(0, 0, .2), []
    digits = ctx.pick(None, None, None, 1, 2, 4, 6)
    for t, c in zip(ts, counts):
        ln, w = gen.bgm_serial(ship, ctx.rng, t, c, tag=tag, end=ctx.pick('00', '01', '10'), digits=digits)
        for _ in range(ctx.randint(2, 4) if ctx.chance(rep) else 1):      # a line written twice is two records
            lines.append(ln)
            when.append(w)
            out.append(c)
    return lines, when, out, kind


def serial(ctx):
    ship = SHIPS[ctx.idx % 4]
    k = ctx.pick(1, 1, 2, 3)
    n = ctx.pick(1, 2, 5, ctx.randint(3, 60), 130 if ctx.idx % 5 == 0 else 9)
    ts = starts(ctx, n * k, odd=True)
    if ctx.chance(.3):
        ts = ts[::-1]          # files and lines in any order: order is kept
    paths, when, counts = [], [], []
    for i in range(k):
        l, w, c, kind = records(ctx, ship, n, ts[i * n:(i + 1) * n])
        paths.append(ctx.write('bgm%d' % i, '\n'.join(l) + '\n', newline=ctx.pick('\n', '\n', '\r\n')))
        when += w
        counts += c
    scale = ctx.pick(None, None, 1.0, 1, 5, 5.0, 4.9, ctx.uni(.1, 10), 0.5, 0.0, -1.5, np.float64(4.96), np.int64(5), 1234.5, 25)
    ctx.inputs = {'ship': ship, 'scale': scale, 'head': open(paths[0]).read()[:2000]}
    kw = {} if scale is None else {'scale': scale}
    df = ctx.call('io.read_bgm_raw', paths if (k > 1 or ctx.chance(.5)) else paths[0], ship, progressbar=False, **kw)
    ctx.check(hasattr(df, 'columns'), 'no table returned', got=df)
    ctx.same([int(x) for x in df['counts']], counts, 'counts of the records')
    s = scales()[ship] if scale is None else scale
    ctx.close(df['rgrav'], s * np.array(counts, float), 'raw gravity is not counts times the scale factor', rtol=1e-12)
    check_times(ctx, df, when)
    ctx.same(list(df.index), list(range(len(counts))), 'row labels')
    ctx.cover(ship, n // 8, k, scale is None, kind, when[0].month <= 12 and when[0].day <= 12)


def days(ctx):
    """Every calendar position: day/month order, leap days, year ends, midnight."""
    ship = SHIPS[ctx.idx % 4]
    from datetime import datetime, timedelta
    y = ctx.randint(2004, 2030)
    n = 24
    base = datetime(y, 1, 1, tzinfo=gen.UTC)
    ts = [base + timedelta(days=int(d), seconds=int(s), milliseconds=int(m)) for d, s, m in
          zip(ctx.rng.integers(0, 366, n), ctx.pick(ctx.rng.integers(0, 86400, n), ctx.rng.choice([0, 1, 43199, 43200, 86399], n)), ctx.rng.integers(0, 1000, n))]
    l, when, counts, kind = records(ctx, ship, n, ts)
    p = ctx.write('b', '\n'.join(l) + ctx.pick('\n', ''))
    df = ctx.call('io.read_bgm_raw', p, ship, progressbar=False)
    check_times(ctx, df, when)
    ctx.same([int(x) for x in df['counts']], counts, 'counts of the records')
    ctx.cover(ship, y)


def user(ctx):
    """A user-supplied parser's table is kept and calibrated with the given (or the ship's) scale."""
    k = ctx.randint(1, 3)
    tabs, k0 = {}, ctx.chance(.6)       # a parser may average counts
    for i in range(k):
        n = ctx.randint(1, 20)
        tabs[ctx.path('u%d' % i)] = pd.DataFrame({'date_time': pd.to_datetime(starts(ctx, n)), 'counts': ctx.rng.integers(0, 99999, n) if k0 else ctx.rng.uniform(20000, 30000, n), 'extra': ctx.rng.random(n)})
    seen = []

    def parser(path):
        seen.append(path)
        return tabs[path].copy()
    ship = ctx.pick('Atlantis', 'Titanic', 'NBP', 'Revelle')
    scale = ctx.uni(.5, 6)
    paths = list(tabs)
    use_db = ship in SHIPS and ctx.chance(.5)
    kw = {} if use_db else {'scale': scale}
    df = ctx.call('io.read_bgm_raw', paths, ship, ship_function=parser, progressbar=False, **kw)
    ctx.same(seen, paths, 'files handed to the user parser, in order')
    want = pd.concat([tabs[p] for p in paths], ignore_index=True)
    ctx.close(df['counts'], want['counts'], 'counts from the user parser')
    ctx.close(df['extra'], want['extra'], 'additional columns from the user parser')
    ctx.close(df['rgrav'], (scales()[ship] if use_db else scale) * want['counts'].to_numpy(float), 'raw gravity from the user parser', rtol=1e-12)
    ctx.cover(ship, k, use_db)


def long_log(ctx):
    ship = SHIPS[ctx.idx % 4]
    l, w, c, kind = records(ctx, ship, 1499)
    p, counts, when = many(ctx, 'big', '\n'.join(l) + '\n', c, w)
    df = ctx.call('io.read_bgm_raw', p, ship, progressbar=False)
    ctx.check(hasattr(df, 'columns'), 'no table returned', got=df)
    ctx.close(df['counts'], counts, 'counts of a long log', rtol=0)
    ctx.close(df['rgrav'], scales()[ship] * np.array(counts, float), 'raw gravity of a long log', rtol=1e-12)
    check_times(ctx, df, when)
    ctx.cover(ship, len(c) // 100)


GROUPS = [Group('serial', serial, 200, 3000), Group('long_log', long_log, 4, 16), Group('days', days, 80, 1200), Group('user', user, 24, 200)]
