"""Shape of the navigation series: unique, ordered, first fix wins, order/split insensitive, decimation."""
from datetime import timedelta

import numpy as np

from .. import gen
from ..core import Group
from ..navtools import FULL, cols, expect_rows, make_fixes, read, track

RULE = ('One case = one set of fixes written to one or more logs (shuffled, repeated, overlapping, listed in any order, decimated). '
        'Non-trivial: at least two fixes; signature: ship, number of fixes bucket, files, repeats, order, decimation.')
ASSUMPTIONS = ['When logs overlap, "first" means first in the order of the list and of the lines.',
               'Decimation keeps every k-th fix of each log, in the order logged.']
TARGETS = ['io.read_nav']


def tables_equal(ctx, a, b, msg):
    for c in ('time_sec', 'lon', 'lat'):
        ctx.close(np.asarray(a[c], float), np.asarray(b[c], float), msg + ' (%s)' % c, rtol=0, atol=1e-9)


def base(ctx, ship, n, **kw):
    fast = 0 if ship == 'Thompson' else ctx.pick(0, 0, 0, .001, .002, .005, .02, .1, *([2e-5, 2e-4] if ship in ('Atlantis', 'NBP', 'Revelle') else []))      # seconds between fixes of a fast receiver
    tdec = 0 if ship == 'Thompson' else 5 if 0 < fast < .001 else 3 if fast else 2
    ts = gen.times(ctx.rng, n, lo=fast, hi=fast * ctx.pick(1, 2), tdec=tdec) if fast else gen.times(ctx.rng, n, tdec=tdec)
    return make_fixes(ctx, ship, n, *track(ctx.rng, n), times=ts, tdec=tdec,
                      lag=ctx.uni(0, .4) // .001 * .001, **kw)


def expected(ship, tk, files, decimate=0):
    """First fix for each time, over the files in order; times ascending."""
    seen = {}
    for fixes in files:
        first = {}
        rows = []
        for f in fixes:
            t = gen.posix(gen.fixtime(ship, tk, f))
            first.setdefault(t, (f.lon, f.lat))
            rows.append(t)
        for t in (rows[::decimate] if decimate else rows):
            seen.setdefault(t, first[t])
    ts = sorted(seen)
    return np.array(ts), np.array([seen[t][0] for t in ts]), np.array([seen[t][1] for t in ts])


def check_series(ctx, df, ship, want):
    t, lon, lat = cols(ctx, df)
    ctx.check(bool(np.all(np.diff(t) > 0)), 'times of the navigation series are not strictly increasing', ship=ship)
    ctx.same(len(t), len(want[0]), 'number of rows in the navigation series', ship=ship)
    ctx.close(t, want[0], 'times of the series', rtol=0, atol=2e-6)
    ctx.close(lon, want[1], 'longitude: the first fix logged for a time must be kept', rtol=0, atol=1e-10)
    ctx.close(lat, want[2], 'latitude: the first fix logged for a time must be kept', rtol=0, atol=1e-10)
    ctx.same(list(df.index), list(range(len(t))), 'row labels of the series')
    ctx.count('rows', len(t))


def messy(ctx):
    """Repeated times with different positions, lines out of order, several overlapping files, decimation."""
    ship = FULL[ctx.idx % len(FULL)]
    tk = gen.NAV[ship]
    n = ctx.pick(1, 2, ctx.randint(3, 60))
    fixes = base(ctx, ship, n, dropouts=ctx.pick(0, 0, .1))
    nfiles = ctx.pick(1, 2, 3, 4, ctx.randint(5, 16))
    mode = ctx.pick('split', 'overlap', 'shuffle', 'repeat', 'repeat', 'deal', 'deal')
    if mode == 'shuffle':
        files = [[fixes[i] for i in ctx.rng.permutation(n)]]
    elif mode == 'repeat':
        rep = []
        for f in fixes:
            rep.append(f)
            for _ in range(ctx.pick(0, 0, 1, 2)):
                rep.append(gen.Fix(f.t, f.log, (f.lon if f.lon == f.lon else 10.) * .999 + .01, (f.lat if f.lat == f.lat else 10.) * .999 + .01, tdec=f.tdec))
        if ctx.chance(.5):
            rep = [rep[i] for i in ctx.rng.permutation(len(rep))]
        files = [rep]
    elif mode == 'deal':        # fixes of one stretch of time spread over several logs
        who = ctx.rng.integers(0, nfiles, n)
        files = [f for f in ([x for x, w in zip(fixes, who) if w == i] for i in range(nfiles)) if f]
    else:
        cuts = sorted(int(c) for c in ctx.rng.integers(0, n + 1, nfiles - 1))
        files = [fixes[a:b] for a, b in zip([0] + cuts, cuts + [n])]
        files = [f for f in files if f]
        if mode == 'overlap' and len(files) > 1:
            k = max(1, min(len(files[0]) // 2, 5))
            tail = [gen.Fix(f.t, f.log, (f.lon if f.lon == f.lon else 10.) * .999, (f.lat if f.lat == f.lat else 10.) * .999, tdec=f.tdec) for f in files[0][-k:]]
            files[1] = tail + files[1]
    dec = ctx.pick(0, 0, 0, 1, 2, 3, 7, 1000)
    order = ctx.rng.permutation(len(files)) if ctx.chance(.4) else range(len(files))
    files = [files[i] for i in order]
    paths = [ctx.write('n%d' % i, gen.nav_text(ctx.rng, ship, tk, f)) for i, f in enumerate(files)]
    ctx.inputs = {'ship': ship, 'mode': mode, 'decimate': dec, 'files': [open(p).read() for p in paths]}
    want = expected(ship, tk, files, dec)
    if np.any(np.abs(np.diff(want[1][~np.isnan(want[1])])) > .9):
        return   # dateline/outlier handling is another property
    kw = {'decimate': ctx.pick(int, int, np.int64)(dec)}
    who = ctx.pick('', '', '', 'talker', 'parser')
    if who == 'talker':
        kw['talker'] = tk
    elif who == 'parser':       # the user's own parser, handed the same logs one by one
        todo = list(files)

        def parse(lines, talker):
            f = todo.pop(0)
            return np.array([x.lon for x in f]), np.array([x.lat for x in f]), [gen.fixtime(ship, tk, x) for x in f]
        kw['ship_function'] = parse
    df = read(ctx, ship, paths, **kw)
    check_series(ctx, df, ship, want)
    ctx.cover(ship, mode, len(files), dec, n // 6, who)


def order_split(ctx):
    """How a cruise is cut into logs, and the order they are listed in, does not change the series."""
    ship = FULL[ctx.idx % len(FULL)]
    tk = gen.NAV[ship]
    n = ctx.randint(8, 80)
    fixes = base(ctx, ship, n)
    whole = read(ctx, ship, ctx.write('whole', gen.nav_text(ctx.rng, ship, tk, fixes)))
    k = ctx.pick(ctx.randint(2, 6), ctx.randint(7, 15))
    cuts = sorted(set(int(c) for c in ctx.rng.integers(1, n, k)))
    parts = [fixes[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    paths = [ctx.write('part%d' % i, gen.nav_text(ctx.rng, ship, tk, f)) for i, f in enumerate(parts)]
    perm = [paths[i] for i in ctx.rng.permutation(len(paths))]
    tables_equal(ctx, read(ctx, ship, paths), whole, 'reading a log cut in pieces differs from reading it whole')
    tables_equal(ctx, read(ctx, ship, perm), whole, 'the order logs are listed in changes the series')
    tables_equal(ctx, read(ctx, ship, paths + [paths[0]]), whole, 'listing a log twice changes the series')
    ctx.same(len(read(ctx, ship, paths, decimate=1)), len(whole), 'decimating by one')
    ctx.cover(ship, n, len(paths))


def sampling(ctx):
    """`sampling` promises an evenly sampled series; the recorded defect returns the fixes as they are."""
    ship = FULL[ctx.idx % len(FULL)]
    if ship == 'Thompson':
        ship = 'Atlantis'
    tk = gen.NAV[ship]
    fixes = base(ctx, ship, ctx.randint(10, 40))
    want = expected(ship, tk, [fixes])
    s = ctx.pick(1, .5, 2.0, 15, 60.)
    df = read(ctx, ship, ctx.write('s', gen.nav_text(ctx.rng, ship, tk, fixes)), sampling=s)
    t, lon, lat = cols(ctx, df)
    ctx.cover(ship, s)
    if len(t) == len(want[0]) and ctx.is_close(t, want[0], rtol=0, atol=2e-6):
        ctx.finding('sampling-ignored', 'the series is not resampled to the requested rate', sampling=s)
        ctx.close(lon, want[1], 'longitude of the unresampled series', rtol=0, atol=1e-10)
    else:  # resampled: every row must lie on the track, evenly spaced
        ctx.close(np.diff(t), np.full(len(t) - 1, s), 'spacing of the resampled series', rtol=0, atol=2e-6)
        ctx.close(lon, np.interp(t, want[0], want[1]), 'resampled longitude', rtol=0, atol=1e-7)
        ctx.close(lat, np.interp(t, want[0], want[2]), 'resampled latitude', rtol=0, atol=1e-7)


def long_log(ctx):
    """A log of several thousand fixes keeps them all."""
    ship = FULL[ctx.idx % len(FULL)]
    tk = gen.NAV[ship]
    n = 30001 if ctx.idx == 0 else ctx.pick(4097, 5000, 10001)
    lo, la = track(ctx.rng, n, maxstep=1e-4)
    ts = gen.times(ctx.rng, n, tdec=0 if ship == 'Thompson' else 2)
    fixes = make_fixes(ctx, ship, n, lo, la, times=ts, tdec=0 if ship == 'Thompson' else 2, lag=.1, dropouts=ctx.pick(.01, .2, .5))
    dec = ctx.pick(0, 2, 5)
    if ctx.idx % 3 == 1:        # written out of order
        at = list(range(n))
        for a in range(0, n, 50):
            at[a:a + 50] = [at[a:a + 50][i] for i in ctx.rng.permutation(len(at[a:a + 50]))]
        fixes, dec = [fixes[i] for i in at], ctx.pick(2, 3, 10)
    df = read(ctx, ship, ctx.write('long', gen.nav_text(ctx.rng, ship, tk, fixes, chatter=0)), **({'decimate': dec} if dec else {}))
    check_series(ctx, df, ship, expected(ship, tk, [fixes], dec))
    ctx.cover(ship, n, dec)


def wide_log(ctx):
    """A very large file, read by a user's own parser: every line of it arrives."""
    from datetime import datetime, timedelta
    n = 105000
    t0 = datetime(2022, 3, 4, tzinfo=gen.UTC)
    lon0 = ctx.uni(-100, 100)
    with open(ctx.path('wide'), 'w') as f:
        f.write(''.join('%d %s\n' % (i, 'x' * 190) for i in range(n)))

    def parser(lines, talker):
        i = np.array([int(s.split(' ', 1)[0]) for s in lines])
        return lon0 + i * 1e-5, i * 1e-5, [t0 + timedelta(seconds=int(j), milliseconds=250) for j in i]
    df = ctx.call('io.read_nav', 'Titanic', ctx.path('wide'), talker='X', ship_function=parser, progressbar=False)
    i = np.arange(n)
    check_series(ctx, df, 'Titanic', (gen.posix(t0) + .25 + i, lon0 + i * 1e-5, i * 1e-5))
    ctx.check(all(a == t0 + timedelta(seconds=j, milliseconds=250) for j, a in enumerate(df['stamps'])), 'timestamps of a very large file')
    ctx.cover('wide', n)


GROUPS = [Group('wide_log', wide_log, 1, 3), Group('messy', messy, 280, 4000), Group('order_split', order_split, 49, 600),
          Group('sampling', sampling, 14, 100), Group('long_log', long_log, 3, 28)]
