"""Noisy Langseth DGS logs."""
import numpy as np

from .. import gen
from ..core import Group
from ..tabletools import check_cols, check_times, many, starts
from .c08 import build

RULE = ('One case = one Langseth log with corrupted lines (truncated, joined, extra commas, bare prefix, binary junk, blank) inserted '
        'among good ones. Non-trivial: at least one corrupted line; signature: kinds of corruption, numbers of good and bad lines, prefix style.')
ASSUMPTIONS = ['A record is good exactly when it has 26 comma-separated fields after the optional logger prefix.']
TARGETS = ['io.read_dgs_laptop']


def corrupt(ctx, line):
    """A line that does not have 26 fields."""
    head, _, tail = line.rpartition('\t') if '\t' in line else ('', '', line)
    f = tail.split(',')
    k = ctx.pick('cut', 'cut', 'extra', 'joined', 'prefix', 'prefix1', 'blank', 'junk', 'one', 'less1', 'space', 'flip', 'flip')
    if k == 'cut':
        f = f[:ctx.randint(1, 24)]
    elif k == 'less1':
        del f[ctx.randint(0, 25)]
    elif k == 'flip':       # a comma that came through as something else
        j = ctx.randint(0, 24)
        f[j:j + 2] = [f[j] + ctx.pick(';', '.', '-', ' ', '\t', '|', ':', ',,', '', '\xac'.encode('latin-1').decode('latin-1')) + f[j + 1]]
    elif k == 'extra':
        f.insert(ctx.randint(0, 26), ctx.pick('', '1.0', 'x'))
    elif k == 'joined':
        f = f + [f[0]] + f[1:ctx.randint(2, 25)]
    elif k == 'prefix':
        return k, b'dgsdata 2025:254:00:00:01.0000'
    elif k == 'prefix1':
        return k, b'dgsdata'
    elif k == 'blank':
        return k, b''
    elif k == 'space':
        return k, b'   \t '
    elif k == 'junk':
        return k, bytes(int(c) for c in ctx.rng.integers(128, 255, 20)) + b',' + ','.join(f[:10]).encode()
    elif k == 'one':
        f = ['$GPGGA 123']
    return k, ((head + '\t' if head else '') + ','.join(f)).encode()


def noisy(ctx):
    n = ctx.pick(0, 1, 3, ctx.randint(2, 30))
    text, rows, when = build(ctx, 'Langseth', starts(ctx, n, odd=True), pad=ctx.chance(.6), rep=ctx.pick(0, .2, .5), empty=ctx.pick(0, 0, .2)) if n else ('', [], [])
    n = len(rows)
    good = [x for x in text.split('\n') if x]
    style = ctx.pick('prefix', 'bare', 'mixed', 'leading')
    model = good[0] if good else build(ctx, 'Langseth', starts(ctx, 1))[0].strip('\n')
    out, kinds = [], []
    bad_left = ctx.pick(ctx.randint(1, 12), ctx.randint(1, 12), ctx.randint(1, 12), ctx.randint(30, 400))
    pos = sorted(int(p) for p in ctx.rng.integers(0, n + 1, bad_left))
    if ctx.chance(.3):
        pos = [ctx.randint(0, n)] * bad_left        # all in one place
    gi = 0
    for i in range(n + 1):
        while pos and pos[0] == i:
            pos.pop(0)
            k, b = corrupt(ctx, model)
            kinds.append(k)
            out.append(b)
        if i < n:
            g = good[i]
            if style == 'bare' or (style == 'mixed' and ctx.chance(.5)):
                g = g.split(None, 2)[2]
            elif style == 'leading':
                g = '  ' + g
            g = g.encode()
            if ctx.chance(.15):  # undecodable bytes in a field nobody reads do not cost the record
                g = g.rsplit(b',', 1)[0] + b',12\xff\xfe3'
            elif ctx.chance(.15):       # neither do control characters
                f = g.split(b',')
                f[ctx.pick(4, 9, 16, 17, 18, 25)] = b'12' + ctx.pick(b'\x0c', b'\x0b', b'\x1c', b'\x1e', b'\x85', b'\x07', b'\x00', b'\xc2\x85', b'\xe2\x80\xa8') + b'3'
                g = b','.join(f)
            out.append(g)
    p = ctx.write('noisy', b'\n'.join(out) + b'\n')
    ctx.inputs = {'bytes': repr(b'\n'.join(out))[:4000]}
    df = ctx.call('io.read_dgs_laptop', ctx.pick(p, [p]), 'Langseth', progressbar=False)
    ctx.check(hasattr(df, 'columns'), 'no table returned', got=df)
    ctx.same(len(df), n, 'exactly the records with 26 fields must be kept', kinds=kinds)
    for c in ('rgrav', 'long_a', 'crss_a', 'status', 've', 'vcc', 'al', 'ax', 'lat', 'lon', 'date_time'):
        ctx.check(c in df.columns, 'column %s missing' % c)
    if n:
        check_cols(ctx, df, rows, 'good record next to a corrupted one')
        check_times(ctx, df, when)
    ctx.count('bad_lines', len(kinds))
    ctx.count('good_lines', n)
    ctx.cover(sorted(set(kinds)), n, len(kinds), style)


def mixed_files(ctx):
    """A file without any good record among good files costs nothing else."""
    t1, r1, w1 = build(ctx, 'Langseth', starts(ctx, ctx.randint(1, 8)))
    t2, r2, w2 = build(ctx, 'Langseth', starts(ctx, ctx.randint(1, 8)))
    a, b = ctx.write('a', t1), ctx.write('b', t2)
    j = ctx.write('j', b'\n'.join(corrupt(ctx, t1.split('\n')[0])[1] for _ in range(ctx.randint(1, 5))) + b'\n')
    order = ctx.pick([a, j, b], [j, a, b], [a, b, j])
    df = ctx.call('io.read_dgs_laptop', order, 'Langseth', progressbar=False)
    ctx.same(len(df), len(r1) + len(r2), 'number of good records over the files')
    rows = r1 + r2
    for c in rows[0]:
        ctx.close([float(x) for x in df[c]], [float(r[c]) for r in rows], 'column %s over the files' % c, rtol=1e-12)
    check_times(ctx, df, w1 + w2)
    ctx.cover(len(r1), len(r2), order.index(j))


def long_log(ctx):
    text, rows, when = build(ctx, 'Langseth', starts(ctx, 1499), pad=ctx.chance(.5))
    lines = text.split('\n')
    at = sorted(int(i) for i in ctx.rng.integers(0, len(lines), 60))[::-1]
    for i in at:
        k, b = corrupt(ctx, lines[0])
        lines.insert(i, b.decode('ascii', 'ignore') if k != 'junk' else 'junk')
    if lines[-1]:
        lines.append('')
    p, rows, when = many(ctx, 'big', '\n'.join(lines), rows, when)
    df = ctx.call('io.read_dgs_laptop', p, 'Langseth', progressbar=False)
    ctx.same(len(df), len(rows), 'number of good records of a long log')
    check_cols(ctx, df, rows, 'long noisy log')
    check_times(ctx, df, when)
    ctx.cover('long', len(at))


GROUPS = [Group('long_log', long_log, 2, 10), Group('noisy', noisy, 240, 4000), Group('mixed_files', mixed_files, 30, 300)]
