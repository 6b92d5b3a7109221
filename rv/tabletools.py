"""Shared pieces of the gravimeter-file monitors."""
from datetime import timedelta

import numpy as np

from . import gen


def check_times(ctx, df, want, msg='record time', tol=1e-6, key='date_time'):
    ctx.check(key in df.columns, 'no %s column' % key, columns=list(df.columns))
    got = list(df[key])
    ctx.same(len(got), len(want), 'number of records')
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check(g.tzinfo is not None and g.utcoffset() == timedelta(0), msg + ' is not UTC', index=i, got=str(g))
        d = (g.to_pydatetime(warn=False) if hasattr(g, 'to_pydatetime') else g) - w
        ctx.check(abs(d.total_seconds()) <= tol, msg + ' decoded wrongly', index=i, got=str(g), expected=str(w))
    ctx.count('record_times', len(got))


def check_cols(ctx, df, rows, msg, rtol=1e-12, names=None):
    """rows: list of dicts of expected values."""
    names = names or list(rows[0])
    for c in names:
        ctx.check(c in df.columns, '%s: column %s missing' % (msg, c), columns=list(df.columns))
        ctx.close(df[c], [r[c] for r in rows], '%s: column %s does not carry the field of its record' % (msg, c), rtol=rtol, atol=0)
    ctx.count('values', len(names) * len(rows))


def many(ctx, name, text, rows, when, header='', n=90000):
    """A long log: the same lines over and over until there are more than `n` records."""
    k = n // len(rows) + 1
    body = text[len(header):]
    assert text.startswith(header) and body.endswith('\n')
    ctx.count('records_of_long_logs', k * len(rows))
    return ctx.write(name, header + body * k), rows * k, when * k


def starts(ctx, n, lo=0.9, hi=1.2, q=1000, odd=False):
    """n times; with `odd` also repeated, unordered, equally clocked and very close ones."""
    if odd and n:
        k = ctx.pick(None, None, None, 'clock', 'fast', 'repeat', 'sparse', 'same')
        t0 = gen.times(ctx.rng, 1, tdec=ctx.pick(0, 3))[0]
        if k == 'clock':       # the same time of day on successive days
            return [t0 + timedelta(days=i) for i in range(n)]
        if k == 'fast':
            return [t0 + timedelta(milliseconds=ctx.pick(1, 10, 100) * i) for i in range(n)]
        if k == 'repeat':
            ts = gen.times(ctx.rng, n, lo=lo, hi=hi, tdec=3)
            return [ts[i] for i in sorted(int(j) for j in ctx.rng.integers(0, n, n))]
        if k == 'sparse':
            return [t0 + timedelta(seconds=int(s)) for s in np.cumsum(ctx.rng.integers(1, 200000, n))]
        if k == 'same':
            return [t0] * n
    return gen.times(ctx.rng, n, lo=lo, hi=hi, tdec=ctx.pick(3, 6) if q == 1000 else 0)


def same_table(ctx, a, b, msg, rtol=0.0):
    ctx.same(list(a.columns), list(b.columns), msg + ': columns')
    ctx.same(len(a), len(b), msg + ': number of rows')
    for c in a.columns:
        x, y = a[c], b[c]
        if x.dtype.kind in 'fiu' and y.dtype.kind in 'fiu':
            ctx.close(x, np.asarray(y, float), msg + ': column %s' % c, rtol=rtol, atol=0)
        else:
            for i, (p, q) in enumerate(zip(list(x), list(y))):
                ctx.check(p == q or (p != p and q != q), msg + ': column %s' % c, index=i, got=str(p), expected=str(q))
