"""Nav fix times."""
import os
import time as _time
from datetime import datetime, timedelta

import numpy as np

from .. import gen
from ..core import Group
from ..gen import UTC
from ..navtools import VARIANTS, cols, dup_free, expect_rows, make_fixes, read, track

RULE = ('One case = one synthetic log whose fixes have chosen times (fraction digits, midnight/month/year/leap-day straddles, '
        'logger lag, process time zone). Non-trivial: at least one fix; signature: ship, talker, kind of straddle, fraction digits, lag bucket, zone.')
ASSUMPTIONS = ['Times are compared at 2 microseconds.',
               'The logger writes a sentence at most 30 minutes after (or before) the fix it carries.']
TARGETS = ['io.read_nav']
ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Kiritimati', 'EST5EDT4,M3.2.0,M11.1.0', 'XXX-13:45']


def judge(ctx, ship, talker, fixes, df):
    tk = talker or gen.NAV[ship]
    rows = expect_rows(ship, tk, fixes)
    t, _, _ = cols(ctx, df)
    ctx.same(len(t), len(rows), 'number of fixes returned', ship=ship)
    want = np.array([r[0] for r in rows])
    if ship == 'Thompson' and np.any(want % 1 > 0):
        if ctx.is_close(t, np.floor(want), rtol=0, atol=2e-6):
            ctx.finding('thompson-fraction-dropped', 'Thompson fix times lose their fraction of a second', got=t[0], expected=want[0])
            want = np.floor(want)
    ctx.close(t, want, 'time of a fix decoded wrongly', rtol=0, atol=2e-6, ship=ship)
    st = list(df['stamps'])
    for a, b in list(zip(st, t))[:200]:
        ctx.check(a.utcoffset() is not None and a.utcoffset() == timedelta(0), 'timestamp is not UTC', stamp=a)
        ctx.check(abs(gen.posix(a.to_pydatetime() if hasattr(a, 'to_pydatetime') else a) - b) <= 2e-6,
                  'timestamp and epoch seconds of a fix differ', stamp=str(a), time_sec=b)
    ctx.count('fix_times', len(rows))


def go(ctx, ship, talker, fixes, *sig):
    tk = talker or gen.NAV[ship]
    if not dup_free(expect_rows(ship, tk, fixes)):
        return
    zone = ZONES[ctx.randint(0, len(ZONES) - 1)]
    text = gen.nav_text(ctx.rng, ship, tk, fixes, chatter=ctx.pick(0, .4))
    ctx.inputs = {'ship': ship, 'talker': talker, 'zone': zone, 'text': text}
    p = ctx.write('nav.dat', text)
    old = os.environ.get('TZ')
    try:
        os.environ['TZ'] = zone
        _time.tzset()
        df = read(ctx, ship, [p], talker)
        judge(ctx, ship, talker, fixes, df)
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        _time.tzset()
    ctx.cover(ship, talker, zone, *sig)


def fractions(ctx):
    ship, talker = VARIANTS[ctx.idx % len(VARIANTS)]
    tdec = [0, 1, 2, 3, 4, 5, 6][(ctx.idx // len(VARIANTS)) % 7]
    n = ctx.randint(1, 30)
    lo, la = track(ctx.rng, n)
    ts = gen.times(ctx.rng, n, tdec=tdec)
    if tdec and ctx.chance(.4):  # small fractions: leading zeros matter
        ts = [t.replace(microsecond=t.microsecond % (10 ** (6 - tdec) * ctx.pick(2, 10))) for t in ts]
        ts = [t for i, t in enumerate(ts) if i == 0 or (t - ts[i - 1]).total_seconds() > .9]
        ts = sorted({t.replace(microsecond=0): t for t in ts}.values())
        lo, la = lo[:len(ts)], la[:len(ts)]
    fixes = make_fixes(ctx, ship, len(ts), lo, la, tdec=tdec, times=ts)
    mixed = ctx.chance(.25)
    if mixed:       # receivers that leave out zeros at the end of a number
        for f in fixes:
            f.tdec = ctx.randint(0, tdec)
    ldec = ctx.pick(None, 1, 2, 3, 4, 5, 6) if ship not in gen.CLOCK else None        # loggers of other resolutions
    for f in fixes:
        f.ldec = ldec
    go(ctx, ship, talker, fixes, 'frac', tdec, len(ts) // 5, mixed, ldec)


def rollover(ctx):
    """A run of fixes across a midnight, with the logger a little behind (or ahead)."""
    ship, talker = VARIANTS[ctx.idx % len(VARIANTS)]
    y = ctx.randint(2003, 2031)
    kind = (ctx.idx // len(VARIANTS)) % 6
    mid = [datetime(y, 1, 1, tzinfo=UTC), datetime(2000 + 4 * ctx.randint(1, 7), 3, 1, tzinfo=UTC),
           datetime(2000 + 4 * ctx.randint(1, 7), 2, 29, tzinfo=UTC), datetime(y, ctx.randint(1, 12), 1, tzinfo=UTC),
           datetime(y, ctx.randint(1, 12), ctx.randint(1, 28), tzinfo=UTC),
           datetime(2000 + 4 * ctx.randint(1, 7), 12, 31, tzinfo=UTC)][kind]
    n = ctx.randint(6, 24)
    lag = ctx.pick(0.0, 0.05, 0.5, 0.99, 2.3, 7.7, 60.0, 1500.0, -0.4, -3.2, 7300.0, -5000.0)
    if ship not in gen.CLOCK:
        lag = abs(lag)
    late = timedelta(seconds=int(-lag * ctx.uni(0, 1))) if abs(lag) > 2000 and ctx.chance(.6) else timedelta(0)     # anywhere between the fix's midnight and the logger's
    ts = gen.times(ctx.rng, n, start=mid + late - timedelta(seconds=ctx.randint(1, n), milliseconds=ctx.pick(0, 10, 500, 990)))
    if ctx.chance(.5):
        ts = [t for t in ts]
        ts[len(ts) // 2] = mid if ts[len(ts) // 2 - 1] < mid - timedelta(seconds=1) and ts[min(len(ts) // 2 + 1, n - 1)] > mid + timedelta(seconds=1) else ts[len(ts) // 2]
    fixes = make_fixes(ctx, ship, n, *track(ctx.rng, n), tdec=ctx.pick(0, 2, 2, 3), times=ts, lag=lag)
    go(ctx, ship, talker, fixes, 'roll', kind, lag)


def days(ctx):
    """Single fixes spread over many years, every day of year and hour of day."""
    ship, talker = VARIANTS[ctx.idx % len(VARIANTS)]
    n = 40
    base = datetime(ctx.randint(2001, 2030), 1, 1, tzinfo=UTC)
    ts = sorted(base + timedelta(days=int(d), seconds=int(s), milliseconds=int(ms)) for d, s, ms in
                zip(ctx.rng.integers(0, 366, n), ctx.rng.integers(0, 86400, n), ctx.rng.integers(0, 100, n) * 10))
    ts = sorted({t.replace(microsecond=0): t for t in ts}.values())
    lo, la = track(ctx.rng, len(ts))
    fixes = make_fixes(ctx, ship, len(ts), lo, la, times=ts, tdec=2, lag=ctx.pick(0.0, .3))
    go(ctx, ship, talker, fixes, 'days', base.year)


def quiet_talker(ctx):
    """The positions drop out for minutes to days while other (dated) sentences go on: a fix takes the date next to it."""
    ship, talker = VARIANTS[ctx.idx % len(VARIANTS)] if ctx.idx % 2 else [('Revelle', None), ('Revelle', 'INGGA')][ctx.idx // 2 % 2]
    tk = talker or gen.NAV[ship]
    n = ctx.randint(2, 12)
    t = gen.times(ctx.rng, 1, tdec=2)[0].replace(microsecond=0)
    if ctx.chance(.5):
        t = t.replace(hour=23, minute=ctx.randint(40, 59))
    ts = []
    for _ in range(n):
        ts.append(t)
        t = t + timedelta(seconds=ctx.pick(1, 1, 60, 3600, 7200, 86400, ctx.randint(2, 400000)), milliseconds=10 * ctx.randint(0, 99))
    fixes = make_fixes(ctx, ship, n, *track(ctx.rng, n), tdec=2, times=ts, lag=0.)
    if not dup_free(expect_rows(ship, tk, fixes)):
        return
    out, last = [], ts[0] - timedelta(seconds=ctx.pick(5, 4000, 90000))
    for f in fixes:
        for k in sorted(ctx.rng.random(ctx.randint(0, 6))):        # sentences of others since the last fix
            w = last + (f.t - last) * float(k)
            out.append(gen.prefix(ship, tk, w) + gen.other(ctx.rng, w))
            if ship == 'Revelle':
                out += [gen.other(ctx.rng, w)] * ctx.randint(0, 2)
        if ship == 'Revelle':
            out.append(gen.prefix(ship, tk, f.log) + gen.other(ctx.rng, f.t))
            out += [gen.other(ctx.rng, f.t) for _ in range(ctx.pick(0, 1, 2, 3, 9, 30, ctx.randint(4, 120)))]
            out.append(f.sentence(tk, ctx.rng))
        else:
            out.append(gen.prefix(ship, tk, f.log) + f.sentence(tk, ctx.rng))
        last = f.t
    text = '\n'.join(out) + '\n'
    ctx.inputs = {'ship': ship, 'talker': talker, 'text': text}
    judge(ctx, ship, talker, fixes, read(ctx, ship, ctx.write('nav.dat', text), talker))
    ctx.cover(ship, talker, n, (ts[-1] - ts[0]).days)


def calendar(ctx):
    """Every midnight of a year, logged late on one side and (by loggers with their own clock) early on the other."""
    ship, talker = VARIANTS[ctx.idx % len(VARIANTS)]
    y = ctx.pick(2004, 2023, 2024, ctx.randint(2001, 2031))
    first = datetime(y, 1, 1, tzinfo=UTC)
    fixes, where = [], [ctx.uni(-170, 170), ctx.uni(-80, 80)]
    for d in range((datetime(y + 1, 1, 2, tzinfo=UTC) - first).days):
        mid = first + timedelta(days=d)
        for t, lag in ((mid - timedelta(milliseconds=ctx.randint(1, 60) * 10), .7), (mid + timedelta(milliseconds=ctx.randint(0, 60) * 10), -.7)):
            if ship == 'Thompson':
                t = (t + timedelta(milliseconds=0)).replace(microsecond=0)
            where = [where[0] + ctx.uni(-.01, .01), where[1] + ctx.uni(-.01, .01)]
            fixes += make_fixes(ctx, ship, 1, [where[0]], [where[1]], tdec=2, times=[t], lag=lag if ship in gen.CLOCK else .05)
    go(ctx, ship, talker, fixes, 'calendar', y)


GROUPS = [Group('calendar', calendar, 13, 130), Group('quiet_talker', quiet_talker, 104, 1500), Group('fractions', fractions, 182, 2500), Group('rollover', rollover, 234, 3000), Group('days', days, 65, 600)]
