"""Raw DGS ($AT1M) records."""
import numpy as np

from .. import gen
from ..core import Group
from ..tabletools import check_cols, check_times, many, starts

RULE = ('One case = one or more synthetic $AT1M files in one layout (clock synchronised or not, logger stamp or not, Thompson, Sikuliaq), '
        'with and without rescaling of the monitors. Non-trivial: at least one record; signature: layout, ship, records bucket, files, rescaled.')
ASSUMPTIONS = ['Records follow the layouts of the example files.', 'A meter clock may become synchronised within a file (times are then judged only where the logger stamped every line), but is not lost within one.',
               'Values are compared at 1e-12 relative, times at 1 microsecond.']
TARGETS = ['io.read_dgs_raw']
MON = ('ve', 'vcc', 'al', 'ax')
LAYOUTS = ('synced', 'synced_stamp', 'unsynced_stamp', 'unsynced', 'Thompson', 'Sikuliaq')


FIELDS = (None, 'Gravity', 'Long', 'Cross', 'Beam', 'Temp', 'Pressure', 'ElecTemp', 'vcc', 've', 'al', 'ax', 'status', 'checksum')


def build(ctx, layout, ts, gravity=None, rep=0, quiet=(), empty=0, extra=0, header=True):
    lines, rows, when = [], [], []
    serial = ctx.randint(100, 999999)
    for i, t in enumerate(ts):
        t0 = t.replace(microsecond=0)
        if layout.startswith('synced'):
            stamp = t0.strftime('%Y%m%d%H%M%S')
        elif layout.startswith('unsynced'):
            stamp = '%d' % (1686873601 + i + ctx.idx)
        elif layout == 'Thompson':
            stamp = '%014d' % (131034752 + i)
        else:
            stamp = '%d' % (serial + i)
        f, v = gen.dgs_raw_fields(ctx.rng, serial + i, stamp)
        for m in quiet:      # a file in which a monitor hardly moves
            v[m] = ctx.pick(*quiet[m])
            f[1 + ('Gravity', 'Long', 'Cross', 'Beam', 'Temp', 'Pressure', 'ElecTemp', 'vcc', 've', 'al', 'ax').index(m)] = '%d' % v[m]
        if gravity is not None:
            v['Gravity'] = int(gravity[i])
            f[1] = '%d' % gravity[i]
        while empty and ctx.chance(empty):      # a value that is not there
            j = ctx.randint(1, 13)
            f[j], v[FIELDS[j]] = '', float('nan')
        while empty and layout == 'Sikuliaq' and ctx.chance(empty / 2):
            j = ctx.randint(14, 15)
            f[j], v[('latitude', 'longitude')[j - 14]] = '', float('nan')
        if extra and ctx.chance(extra):         # more columns than are read
            f = f + ['%d' % ctx.randint(0, 9) for _ in range(ctx.randint(1, 3))]
        body = ','.join(f)
        if layout in ('synced', 'unsynced'):
            lines.append(body)
            when.append(t0)
        elif layout in ('synced_stamp', 'unsynced_stamp'):
            lines.append('%s.%06dZ %s' % (t.strftime('%Y-%m-%dT%H:%M:%S'), t.microsecond, body))
            when.append(t0 if layout == 'synced_stamp' else t)
            v['string'] = None
        elif layout == 'Thompson':
            ms = t.microsecond // 1000
            lines.append('%s.%03d,%s\0' % (t.strftime('%m/%d/%Y,%H:%M:%S'), ms, body))
            when.append(t.replace(microsecond=ms * 1000))
        else:
            q = t.microsecond // 100
            lines.append('grav_dgs_33_raw\t%s.%04dZ\t%s' % (t.strftime('%Y-%m-%dT%H:%M:%S'), q, body))
            when.append(t.replace(microsecond=q * 100))
            v = {'rgrav': v['Gravity'], 'long_a': v['Long'], 'crss_a': v['Cross'], 'vcc': v['vcc'], 've': v['ve'], 'al': v['al'],
                 'ax': v['ax'], 'lat': v['latitude'], 'lon': v['longitude']}
        v.pop('string', None)
        rows.append(v)
        while rep and ctx.chance(rep):      # a line written twice is two records
            lines.append(lines[-1])
            rows.append(v)
            when.append(when[-1])
    text = '\n'.join(lines) + '\n'
    if layout == 'Sikuliaq':
        text = (gen.SKQ_HEADER if header else '') + text
    return text, rows, when


def raw(ctx):
    layout = LAYOUTS[ctx.idx % len(LAYOUTS)]
    ship = layout if layout in ('Thompson', 'Sikuliaq') else ctx.pick('Ride', 'Atlantis', 'Revelle', 'NBP', 'Langseth', 'Anything')
    k = ctx.pick(1, 1, 2, 3)
    n = ctx.pick(1, 2, ctx.randint(3, 40), 9)
    ts = starts(ctx, n * k, odd=True)
    rep = ctx.pick(0, 0, .2)
    quiet = {m: ctx.pick((0,), (0, 1, -1), (7,), tuple(range(-40, 40)), (-900,)) for m in MON if ctx.chance(.5)} if ctx.chance(.3) else {}
    paths, rows, when = [], [], []
    empty = ctx.pick(0, 0, 0, .05, .4)
    extra = ctx.pick(0, 0, 0, .2, 1) if layout in ('synced', 'synced_stamp', 'unsynced', 'unsynced_stamp') else 0
    for i in range(k):
        text, r, w = build(ctx, layout, ts[i * n:(i + 1) * n], rep=rep, quiet=quiet, empty=empty, extra=extra, header=ctx.chance(.8))
        paths.append(ctx.write('r%d' % i, text, newline=ctx.pick('\n', '\n', '\r\n')))
        rows += r
        when += w
    scale = ctx.pick(None, True, False, np.True_, np.False_)
    if scale is None or scale:
        rows = [dict(r, **{m: r[m] * 0.00001 for m in MON}) for r in rows]
    ctx.inputs = {'ship': ship, 'layout': layout, 'scale': scale, 'head': open(paths[0]).read()[:1500]}
    kw = {} if scale is None else {'scale_ccp': scale}
    ok, df = ctx.call_raw('io.read_dgs_raw', paths if (k > 1 or ctx.chance(.5)) else paths[0], ship, progressbar=False, **kw)
    if not ok and extra:        # refused aloud, not thinned out
        ctx.count('refused_extra_columns')
        return
    ctx.check(ok, 'well-formed records cannot be read', raised=repr(df))
    ctx.check(hasattr(df, 'columns'), 'no table returned', got=df)
    ctx.same(len(df), len(rows), 'number of records')
    check_cols(ctx, df, rows, 'raw DGS')
    if layout == 'unsynced':
        ctx.check('date_time' not in df.columns, 'times invented for records that carry none')
    else:
        check_times(ctx, df, when)
    ctx.same(list(df.index), list(range(len(rows))), 'row labels')
    ctx.cover(layout, ship, k, n // 8, scale, empty, extra, rows[0]['ve'] > 0, rows[0]['vcc'] > 0)


def days(ctx):
    from datetime import datetime, timedelta
    layout = LAYOUTS[ctx.idx % len(LAYOUTS)]
    if layout == 'unsynced':
        return
    ship = layout if layout in ('Thompson', 'Sikuliaq') else 'Ride'
    y, n = ctx.randint(2012, 2030), 20
    ts = [datetime(y, 1, 1, tzinfo=gen.UTC) + timedelta(days=int(d), milliseconds=int(s)) for d, s in
          zip(ctx.rng.integers(0, 366, n), ctx.pick(ctx.rng.integers(0, 86400000, n), ctx.rng.choice([0, 86399999, 43200000], n)))]
    text, rows, when = build(ctx, layout, ts)
    df = ctx.call('io.read_dgs_raw', ctx.write('d', text), ship, scale_ccp=False, progressbar=False)
    check_cols(ctx, df, rows, 'raw DGS')
    check_times(ctx, df, when)
    ctx.cover(layout, y)


def long_log(ctx):
    layout = LAYOUTS[ctx.idx % len(LAYOUTS)]
    ship = layout if layout in ('Thompson', 'Sikuliaq') else 'Ride'
    text, rows, when = build(ctx, layout, starts(ctx, 1499))
    p, rows, when = many(ctx, 'big', text, rows, when, gen.SKQ_HEADER if layout == 'Sikuliaq' else '')
    df = ctx.call('io.read_dgs_raw', p, ship, scale_ccp=False, progressbar=False)
    ctx.check(hasattr(df, 'columns'), 'no table returned', got=df)
    ctx.same(len(df), len(rows), 'number of records of a long log')
    check_cols(ctx, df, rows, 'long raw log')
    if layout != 'unsynced':
        check_times(ctx, df, when)
    ctx.cover(layout, 'long')


def becomes_synced(ctx):
    """The meter finds its clock while the file is being written: fields and logger stamps are as before."""
    st = ctx.pick('', '_stamp')
    n, m = ctx.pick(1, 5, ctx.randint(1, 30)), ctx.pick(1, 1, 8, ctx.randint(1, 30))
    ts = starts(ctx, n + m, odd=True)
    text, rows, when = build(ctx, 'unsynced' + st, ts[:n])
    t2, r2, w2 = build(ctx, 'synced' + st, ts[n:])
    rows, when = rows + r2, [t.replace(microsecond=0) for t in when + w2]
    ctx.inputs = {'stamp': st, 'text': (text + t2)[:3000]}
    df = ctx.call('io.read_dgs_raw', ctx.write('s', text + t2), 'Ride', scale_ccp=False, progressbar=False)
    ctx.same(len(df), len(rows), 'number of records')
    check_cols(ctx, df, rows, 'raw DGS')
    if st:
        got = [t.to_pydatetime().replace(microsecond=0) for t in df['date_time']]
        ctx.check(got == when, 'times of the logger')
    ctx.cover(st, n // 8, m // 8)


GROUPS = [Group('becomes_synced', becomes_synced, 24, 200), Group('long_log', long_log, 6, 18), Group('raw', raw, 240, 3000), Group('days', days, 72, 900)]
