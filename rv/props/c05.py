"""Longitude continuity across the antimeridian, and no alteration anywhere else."""
import numpy as np

from .. import gen
from ..core import Group
from ..navtools import FULL, cols, expect_rows, make_fixes, read

RULE = ('One case = one track across (or nowhere near) the antimeridian, with gaps, dropouts and re-crossings, in one or more logs. '
        'Non-trivial: the track crosses 180 degrees, or has a gap or Greenwich crossing of more than a degree; '
        'signature: ship, kind, side with most fixes, number of crossings, gaps, dropouts.')
ASSUMPTIONS = ['Away from gaps the ship moves less than one degree of longitude between fixes.',
               'Isolated outliers (one fix away and back) are outside the property: the reader repairs them heuristically.']
TARGETS = ['io.read_nav']


def run(ctx, ship, lon, crossing, sig, dropouts=0.0):
    """lon: continuous (unwrapped) longitudes."""
    n = len(lon)
    tk = gen.NAV[ship]
    wrapped = [((x + 180.0) % 360.0) - 180.0 for x in lon]
    if ctx.chance(.3):
        wrapped = [180.0 if w == -180.0 else w for w in wrapped]
    lat = ctx.uni(-80, 80) + np.cumsum(ctx.rng.uniform(-1e-3, 1e-3, n))
    ts = gen.times(ctx.rng, n, tdec=0 if ship == 'Thompson' else 2)
    fixes = make_fixes(ctx, ship, n, wrapped, list(lat), times=ts, tdec=0 if ship == 'Thompson' else 2, dropouts=dropouts,
                       dec=ctx.pick(4, 6, 8))
    k = ctx.randint(1, 3)
    cuts = sorted(set(int(c) for c in ctx.rng.integers(1, max(2, n), k - 1))) if n > 3 else []
    parts = [fixes[a:b] for a, b in zip([0] + cuts, cuts + [n]) if b > a]
    paths = [ctx.write('d%d' % i, gen.nav_text(ctx.rng, ship, tk, p, chatter=.2)) for i, p in enumerate(parts)]
    ctx.inputs = {'ship': ship, 'kind': sig, 'lon': wrapped}
    df = read(ctx, ship, paths)
    rows = expect_rows(ship, tk, fixes)
    t, got, glat = cols(ctx, df)
    want = np.array([r[1] for r in rows])
    ctx.same(len(got), len(rows), 'number of fixes')
    ctx.close(glat, [r[2] for r in rows], 'latitude', rtol=0, atol=1e-10)
    ctx.same(np.isnan(got).tolist(), np.isnan(want).tolist(), 'dropouts of the series')
    good = ~np.isnan(want)
    off = (got - want)[good] / 360.0
    ctx.close(off, np.round(off), 'longitude is not congruent with the fix modulo 360', rtol=0, atol=1e-10)
    if crossing:
        true = np.array(lon)[good]
        ctx.close(np.diff(got[good]), np.diff(true), 'longitudes across the antimeridian are not continuous', rtol=0, atol=1e-4)
        ctx.count('crossings', int(np.sum(np.abs(np.diff(want[good])) > 180)))
    else:
        ctx.close(got, want, 'longitudes of a track that does not cross the antimeridian were altered', rtol=0, atol=1e-10)
        ctx.count('gaps_untouched', int(np.sum(np.abs(np.diff(want[good])) > 1)))
    ctx.cover(ship, sig, n // 8, len(parts), dropouts, int(np.sum(want[good] > 0) > np.sum(want[good] < 0)))


def cross(ctx):
    ship = FULL[ctx.idx % len(FULL)]
    n = ctx.randint(2, 60)
    step = ctx.pick(1e-4, 1e-3, 0.01, 0.1, 0.5, 0.9)
    where = ctx.rng.uniform(0.02, 0.98)      # share of the track before the line
    d = ctx.pick(1, -1)
    lon = 180 + d * step * (np.arange(n) - where * n + .137)
    if ctx.chance(.2):
        lon = 180 + d * step * (np.arange(n) - int(where * n))     # one fix exactly on the line
    run(ctx, ship, lon, True, 'cross', dropouts=ctx.pick(0, 0, .1, .3))


def back_and_forth(ctx):
    ship = FULL[ctx.idx % len(FULL)]
    n = ctx.randint(20, 150)
    amp = ctx.pick(.002, .2, 2.0)
    k = ctx.randint(1, 8)
    lon = 180 + ctx.uni(-.5, .5) * amp + amp * np.sin(np.arange(n) * k * np.pi / n + ctx.uni(0, 6))
    if np.max(np.abs(np.diff(lon))) > .9:
        return
    run(ctx, ship, lon, bool(lon.min() < 180 <= lon.max()), 'back_and_forth', dropouts=ctx.pick(0, .05))


def cross_with_gap(ctx):
    """A crossing, and elsewhere (or at the line itself) the log has a gap."""
    ship = FULL[ctx.idx % len(FULL)]
    n = ctx.randint(16, 60)
    step = ctx.pick(.001, .01, .1)
    d = ctx.pick(1, -1)
    steps = np.full(n, step)
    ng = ctx.randint(1, 3)
    for g in ctx.rng.choice([1, 4, 8, n - 5, n - 1] if ctx.chance(.3) else np.arange(3, n - 3, 3), ng, replace=False):
        steps[g] = ctx.uni(1.2, 25)
    lon = np.cumsum(steps)
    at = lon[ctx.randint(2, n - 3)] + ctx.uni(0, 1) * step
    lon = 180 + d * (lon - at)
    run(ctx, ship, lon, True, 'gap%d' % ng)


def far(ctx):
    """Half the globe, one way: 20E to 180 to 20W."""
    ship = FULL[ctx.idx % len(FULL)]
    lon = np.arange(ctx.uni(5, 150), ctx.uni(200, 355), ctx.uni(.3, .9))
    if ctx.chance(.5):
        lon = lon[::-1]
    run(ctx, ship, lon, True, 'far')


def around(ctx):
    """Both meridians in one series: round the world, or there and back, crossing 180 degrees at least once."""
    ship = FULL[ctx.idx % len(FULL)]
    step = ctx.uni(.3, .95)
    kind = ctx.pick('round', 'there_and_back', 'wander')
    if kind == 'round':
        lon = np.arange(0, ctx.uni(200, 800), step)
    elif kind == 'there_and_back':
        lon = np.arange(0, ctx.uni(190, 420), step)
        lon = np.append(lon, lon[-2::-1])
    else:
        s = np.concatenate([np.full(ctx.randint(100, 500), d * step) for d in (1, -1, 1)])
        lon = np.cumsum(s)
    if ctx.chance(.4):          # hours without a log
        k = ctx.randint(1, 4)
        keep = np.ones(len(lon), bool)
        for _ in range(k):
            a = ctx.randint(5, len(lon) - 5)
            keep[a:a + int(ctx.uni(2, 150) / step)] = False
        keep[:5] = keep[-5:] = True
        lon = lon[keep]
    lon = ctx.uni(-179, 179) + ctx.pick(1, -1) * lon
    if step < .6 and ctx.chance(.8):          # fixes on the prime meridian itself
        zero = 360 * np.round(lon / 360)
        lon = np.where(np.abs(lon - zero) < .6 * step, zero, lon)
    turns = np.floor((lon + 180) / 360)
    jumps = np.abs(np.diff(lon))
    if turns.min() == turns.max() or jumps.max() > 170:
        return
    run(ctx, ship, lon, True, 'around_' + kind, dropouts=ctx.pick(0, 0, .05))


def no_cross(ctx):
    """Gaps, Greenwich, near misses: nothing may change."""
    ship = FULL[ctx.idx % len(FULL)]
    n = ctx.randint(16, 60)
    kind = ['gap', 'greenwich', 'near', 'greenwich_gap', 'gaps', 'wide_gap', 'zigzag'][(ctx.idx // len(FULL)) % 7]
    step = ctx.pick(1e-4, .01, .2)
    d = ctx.pick(1, -1)
    steps = np.full(n, step)
    ends = ctx.chance(.4)       # a gap next to the first or last fix
    if kind in ('gap', 'greenwich_gap'):
        steps[ctx.pick(1, 1, 2, n - 2, n - 1, n - 1) if ends else ctx.randint(3, n - 4)] = ctx.uni(1.01, 40)
    if kind == 'zigzag':        # sparse fixes on a zigzag course: away, and back to somewhere else
        n0 = ctx.pick(1, 1, 2, 3)
        for g in ctx.rng.choice(np.arange(3, n - 4, 4), min(n0, 3), replace=False):
            steps[g] = ctx.uni(4, 30)
            steps[g + 1] = -steps[g] + ctx.pick(-1, 1) * ctx.uni(1.2, 2.9)
            if ctx.chance(.4):      # a little way out, some of it back, then on
                steps[g] = ctx.uni(1.01, 1.9)
                steps[g + 1] = -ctx.uni(max(.05, steps[g] - .95), .98)
                steps[g + 2] = ctx.pick(-1, 1) * ctx.uni(1.01, 20)
    if kind in ('gap', 'gaps') and ctx.chance(.3):      # fixes far apart on a course that turns back and forth
        steps = np.where(np.arange(n) % 2, 1., -1.) * ctx.rng.uniform(.05, .97, n)
        if kind == 'gap':
            steps[ctx.randint(3, n - 4)] = ctx.uni(5, 40)
    if kind == 'wide_gap':
        steps[ctx.randint(3, n - 4)] = ctx.uni(100, 165)
    if kind == 'gaps':
        for g in ctx.rng.choice([1, 4, 8, n - 5, n - 1] if ends else np.arange(3, n - 3, 3), 2, replace=False):
            steps[g] = ctx.uni(1.5, 20)
    lon = np.cumsum(steps)
    lon = lon - (lon.min() + lon.max()) / 2
    half = (lon.max() - lon.min()) / 2
    if kind.startswith('greenwich'):
        lon = lon + ctx.uni(-.9, .9) * half
    elif kind == 'near':
        lon = lon + (179.999 - half) * ctx.pick(1, -1)
    else:
        room = max(0, 179.9 - half)
        lon = lon + ctx.uni(-room, room)
    if np.abs(lon).max() >= 179.9999:
        return
    run(ctx, ship, d * lon, False, kind, dropouts=ctx.pick(0, 0, .1))


GROUPS = [Group('cross', cross, 140, 2500), Group('back_and_forth', back_and_forth, 70, 1000),
          Group('cross_with_gap', cross_with_gap, 70, 1000), Group('far', far, 14, 150), Group('around', around, 42, 500),
          Group('no_cross', no_cross, 196, 2900)]
