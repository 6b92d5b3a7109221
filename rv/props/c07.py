"""BGM3 RGS records."""
import numpy as np

from .. import gen
from ..core import Group
from ..tabletools import check_cols, check_times, many, starts

RULE = ('One case = one or more synthetic RGS files. Non-trivial: at least one record; signature: ship, records bucket, files, '
        'blank lines, hemisphere, day/month order ambiguous or not.')
ASSUMPTIONS = ['Records follow the layout of the example RGS file.', 'Values are compared at 1e-12 relative, times at 1 microsecond.']
TARGETS = ['io.read_bgm_rgs']


def rgs(ctx):
    ship = ctx.pick('Atlantis', 'NBP')
    k = ctx.pick(1, 1, 2, 3)
    n = ctx.pick(1, 2, 7, ctx.randint(3, 60))
    paths, rows, when = [], [], []
    ts = starts(ctx, n * k, odd=True)
    rep = ctx.pick(0, 0, .2)
    digits = ctx.pick(3, 3, 3, 1, 2, 4, 6)
    turn = ctx.pick(0, 0, 180)      # longitudes may count from 0 to 360
    sep = ctx.pick('\n', '\r\n\n', '\r\n', '\n\n')
    for i in range(k):
        lines = []
        for t in ts[i * n:(i + 1) * n]:
            g, la, lo = '%.3f' % ctx.uni(975000, 985000), '%.6f' % ctx.uni(-90, 90), '%.6f' % (ctx.uni(-180, 180) + turn)
            if ctx.chance(.1):
                g, la, lo = ctx.pick((g, '0.000000', lo), (g, la, '0.000000'), (g, '0', '0'), ('0.000', la, lo), (g, '-90.000000', '180.000000'))
            ln, w = gen.rgs(ctx.rng, t, g, la, lo, digits=digits)
            for _ in range(2 if ctx.chance(rep) else 1):
                lines.append(ln)
                when.append(w)
                rows.append({'grav': float(g), 'lat': float(la), 'lon': float(lo)})
        paths.append(ctx.write('r%d' % i, (sep.join(lines) + sep).encode('ascii')))
    ctx.inputs = {'ship': ship, 'head': open(paths[0]).read()[:1500]}
    df = ctx.call('io.read_bgm_rgs', paths if (k > 1 or ctx.chance(.5)) else paths[0], ship, progressbar=False)
    ctx.check(hasattr(df, 'columns'), 'no table returned', got=df)
    ctx.same(len(df), len(rows), 'number of records')
    check_cols(ctx, df, rows, 'RGS')
    check_times(ctx, df, when)
    ctx.same(list(df.index), list(range(len(rows))), 'row labels')
    ctx.cover(ship, k, n // 8, sep, rows[0]['lat'] > 0, rows[0]['lon'] > 0, when[0].day <= 12)


def days(ctx):
    from datetime import datetime, timedelta
    y, n = ctx.randint(2004, 2030), 24
    ts = [datetime(y, 1, 1, tzinfo=gen.UTC) + timedelta(days=int(d), milliseconds=int(s)) for d, s in
          zip(ctx.rng.integers(0, 366, n), ctx.rng.integers(0, 86400000, n))]
    out = [gen.rgs(ctx.rng, t, '980000.000', '10.000000', '20.000000') for t in ts]
    df = ctx.call('io.read_bgm_rgs', ctx.write('r', '\n'.join(o[0] for o in out) + '\n'), ctx.pick('Atlantis', 'NBP'), progressbar=False)
    check_times(ctx, df, [o[1] for o in out])
    ctx.cover(y)


def long_log(ctx):
    ts = starts(ctx, 1499)
    lines, rows, when = [], [], []
    for t in ts:
        g, la, lo = '%.3f' % ctx.uni(975000, 985000), '%.6f' % ctx.uni(-90, 90), '%.6f' % ctx.uni(-180, 180)
        ln, w = gen.rgs(ctx.rng, t, g, la, lo)
        lines.append(ln)
        when.append(w)
        rows.append({'grav': float(g), 'lat': float(la), 'lon': float(lo)})
    p, rows, when = many(ctx, 'big', '\n'.join(lines) + '\n', rows, when)
    df = ctx.call('io.read_bgm_rgs', p, ctx.pick('Atlantis', 'NBP'), progressbar=False)
    ctx.check(hasattr(df, 'columns'), 'no table returned', got=df)
    ctx.same(len(df), len(rows), 'number of records of a long log')
    check_cols(ctx, df, rows, 'long RGS log')
    check_times(ctx, df, when)
    ctx.cover(when[0].year)


GROUPS = [Group('long_log', long_log, 2, 10), Group('rgs', rgs, 220, 3000), Group('days', days, 60, 800)]
