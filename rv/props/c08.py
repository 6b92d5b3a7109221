"""Processed DGS records."""
from datetime import datetime, timedelta

import numpy as np

from .. import gen
from ..core import Group
from ..tabletools import check_cols, check_times, many, starts

RULE = ('One case = one or more synthetic processed-DGS files in one ship\'s layout, every field of every record random and distinct. '
        'Non-trivial: at least one record; signature: ship, records bucket, files, padding, date kind.')
ASSUMPTIONS = ['Records have the 26-field layout DGS documents and the example files show.', 'Values are compared at 1e-12 relative, times at 1 microsecond.']
TARGETS = ['io.read_dgs_laptop']
SHIPS = ('Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest', 'Thompson', 'Sikuliaq', 'Langseth')


#: column of a record -> what is read from it
FIELDS = {1: 'rgrav', 2: 'long_a', 3: 'crss_a', 6: 'status', 10: 've', 11: 'vcc', 12: 'al', 13: 'ax', 14: 'lat', 15: 'lon'}


def build(ctx, ship, ts, pad=True, lon=None, lat=None, rgrav=None, jitter=True, rep=0, empty=0, extra=0, frac=0):
    """(text, rows, times)"""
    lines, rows, when = [], [], []
    for i, t in enumerate(ts):
        t0 = t.replace(microsecond=0)
        f, v = gen.dgs_fields(ctx.rng, t0, pad=pad, lon=None if lon is None else lon[i], lat=None if lat is None else lat[i],
                              rgrav=None if rgrav is None else rgrav[i])
        us = 0
        if frac and ship != 'Thompson':       # the second to tenths, hundredths, thousandths
            us = t.microsecond // 10 ** (6 - frac) * 10 ** (6 - frac)
            f[24] = '%d.%0*d' % (t0.second, frac, us // 10 ** (6 - frac))
            v['second'] = float(f[24])
        while empty and ctx.chance(empty):      # a value that is not there
            j = ctx.pick(*FIELDS)
            f[j], v[FIELDS[j]] = '', float('nan')
        if empty and ctx.chance(empty):
            f[ctx.pick(0, 4, 5, 7, 8, 9, 16, 17, 18, 25)] = ''
        if extra and ctx.chance(extra):         # more columns than are read
            f = f + ['%.2f' % ctx.uni(0, 9) for _ in range(ctx.randint(1, 3))]
        body = ','.join(f)
        if ship == 'Thompson':
            ms = t.microsecond // 1000
            w = t.replace(microsecond=ms * 1000)
            lines.append('%s.%03d,%s' % (t.strftime('%m/%d/%Y,%H:%M:%S'), ms, body))
            rows.append({k: v[k] for k in ('rgrav', 've', 'vcc', 'al', 'ax', 'lat', 'lon')})
        elif ship == 'Sikuliaq':
            if not frac:
                us = ctx.pick(0, 0, 50000) if jitter else 0
                f[24] = '%d.%02d' % (t0.second, us // 10000)
                v['second'] = t0.second + us / 1e6
            w = t0.replace(microsecond=us)
            late = t0 + timedelta(seconds=5)
            lines.append('grav_dgs_33_proc\t%s.%04dZ\t%s' % (late.strftime('%Y-%m-%dT%H:%M:%S'), ctx.randint(0, 9999), ','.join(f)))
            rows.append(v)
        elif ship == 'Langseth':
            w = t0.replace(microsecond=us)
            late = t0 + timedelta(seconds=ctx.randint(0, 3))
            sep = '\t' if ctx.chance(.8) else ' '
            lines.append('dgsdata%s%s.%04d%s%s' % (sep, late.strftime('%Y:%j:%H:%M:%S'), ctx.randint(0, 9999), sep, body))
            rows.append(v)
        else:
            w = t0.replace(microsecond=us)
            lines.append(body)
            rows.append(v)
        when.append(w)
        while rep and ctx.chance(rep):      # a line written twice is two records
            lines.append(lines[-1])
            rows.append(rows[-1])
            when.append(w)
    text = '\n'.join(lines) + '\n'
    if ship == 'Sikuliaq':
        text = gen.SKQ_HEADER + text
    return text, rows, when


def judge(ctx, df, rows, when):
    ctx.check(hasattr(df, 'columns'), 'no table returned', got=df)
    ctx.same(len(df), len(rows), 'number of records')
    check_cols(ctx, df, rows, 'processed DGS')
    check_times(ctx, df, when)
    ctx.same(list(df.index), list(range(len(rows))), 'row labels')


def laptop(ctx):
    ship = SHIPS[ctx.idx % len(SHIPS)]
    k = ctx.pick(1, 1, 2, 3)
    n = ctx.pick(1, 2, ctx.randint(3, 40), 9)
    ts = starts(ctx, n * k, odd=True)
    rep = ctx.pick(0, 0, .2)
    if ctx.chance(.2):
        ts = ts[::-1]
    paths, rows, when = [], [], []
    pad = ctx.chance(.7)
    empty = ctx.pick(0, 0, 0, .05, .4)
    frac = ctx.pick(0, 0, 0, 1, 2, 3)
    extra = 0 if ship == 'Langseth' else ctx.pick(0, 0, 0, .2, 1)
    for i in range(k):
        text, r, w = build(ctx, ship, ts[i * n:(i + 1) * n], pad=pad, rep=rep, empty=empty, extra=extra, frac=frac)
        paths.append(ctx.write('d%d' % i, text, newline=ctx.pick('\n', '\n', '\r\n')))
        rows += r
        when += w
    ctx.inputs = {'ship': ship, 'head': open(paths[0]).read()[:1500]}
    ok, df = ctx.call_raw('io.read_dgs_laptop', paths if (k > 1 or ctx.chance(.5)) else paths[0], ship, progressbar=False)
    if not ok and extra:        # refused aloud, not thinned out
        ctx.count('refused_extra_columns')
        return
    ctx.check(ok, 'well-formed records cannot be read', raised=repr(df))
    judge(ctx, df, rows, when)
    ctx.cover(ship, k, n // 8, pad, empty, extra, frac, when[0].month, when[0].day <= 12)


def days(ctx):
    ship = SHIPS[ctx.idx % len(SHIPS)]
    y, n = ctx.randint(2012, 2030), 20
    ts = [datetime(y, 1, 1, tzinfo=gen.UTC) + timedelta(days=int(d), milliseconds=int(s)) for d, s in
          zip(ctx.rng.integers(0, 366, n), ctx.pick(ctx.rng.integers(0, 86400000, n), ctx.rng.choice([0, 86399999, 43200000], n)))]
    text, rows, when = build(ctx, ship, ts)
    df = ctx.call('io.read_dgs_laptop', ctx.write('d', text), ship, progressbar=False)
    judge(ctx, df, rows, when)
    ctx.cover(ship, y)


def example_file(ctx):
    """The shipped example files, field by field."""
    import os
    from ..core import REPO
    d = REPO + '/shipgrav/tests/ex_files/'
    name, ship, off = [('DGStest_laptop.dat', 'DGStest', 0), ('MGL_dgsdata.y2025d254', 'Langseth', 0)][ctx.idx % 2]
    if not os.path.exists(d + name):
        return
    rows = []
    for ln in open(d + name):
        f = ln.split('\t')[-1].strip().split(',')
        if len(f) == 26:
            rows.append({'rgrav': float(f[1]), 'long_a': float(f[2]), 'crss_a': float(f[3]), 'status': float(f[6]), 've': float(f[10]),
                         'vcc': float(f[11]), 'al': float(f[12]), 'ax': float(f[13]), 'lat': float(f[14]), 'lon': float(f[15]),
                         'year': float(f[19]), 'month': float(f[20]), 'day': float(f[21]), 'hour': float(f[22]), 'minute': float(f[23])})
    df = ctx.call('io.read_dgs_laptop', d + name, ship, progressbar=False)
    ctx.same(len(df), len(rows), 'number of records in ' + name)
    check_cols(ctx, df, rows, name)
    ctx.cover(name)


def long_log(ctx):
    ship = SHIPS[ctx.idx % len(SHIPS)]
    text, rows, when = build(ctx, ship, starts(ctx, 1499), pad=ctx.chance(.5))
    p, rows, when = many(ctx, 'big', text, rows, when, gen.SKQ_HEADER if ship == 'Sikuliaq' else '')
    judge(ctx, ctx.call('io.read_dgs_laptop', p, ship, progressbar=False), rows, when)
    ctx.cover(ship, 'long')


GROUPS = [Group('long_log', long_log, 8, 24), Group('laptop', laptop, 240, 3200), Group('days', days, 80, 1000), Group('example_file', example_file, 2, 2)]
