"""Nav position decoding."""
import math

import numpy as np

from .. import gen
from ..core import Group
from ..navtools import VARIANTS, cols, dup_free, expect_rows, make_fixes, read, track

RULE = ('One case = one synthetic log (ship x talker x number of fixes x minute decimals x dropouts x chatter). '
        'Non-trivial: at least one fix; the signature is ship, talker, hemispheres, size bucket, dropout pattern bucket, decimals.')
ASSUMPTIONS = ['Logs follow the line formats of the example files; tracks move less than one degree between fixes.',
               'Coordinates are compared at 1e-11 degrees.', 'Noise is whole lines of bytes that are not text; it falls between the lines of the log, never inside one.']
TARGETS = ['io.read_nav']


def judge(ctx, ship, talker, fixes, df):
    rows = expect_rows(ship, talker or gen.NAV[ship], fixes)
    t, lon, lat = cols(ctx, df)
    ctx.same(len(t), len(rows), 'number of position fixes returned', ship=ship)
    ctx.close(lat, [r[2] for r in rows], 'latitude of a fix decoded wrongly', rtol=0, atol=1e-11, ship=ship)
    ctx.close(lon, [r[1] for r in rows], 'longitude of a fix decoded wrongly', rtol=0, atol=1e-11, ship=ship)
    ctx.count('fixes', len(rows))
    ctx.count('dropouts', sum(math.isnan(r[1]) for r in rows))


def plain(ctx, fixes, ship, talker, noise=0):
    tk = talker or gen.NAV[ship]
    rows = expect_rows(ship, tk, fixes)
    if not dup_free(rows):
        return
    text = gen.nav_text(ctx.rng, ship, tk, fixes, chatter=ctx.pick(0, .3, .6))
    nl = ctx.pick('\n', '\r\n')
    raw = gen.with_noise(ctx.rng, text.replace('\n', nl).encode('ascii'), noise)
    p = ctx.write('nav.dat', raw)
    ctx.inputs = {'ship': ship, 'talker': talker, 'text': text}
    judge(ctx, ship, talker, fixes, read(ctx, ship, ctx.pick(p, [p]), talker))
    r0 = fixes[0]
    ctx.cover(ship, talker, r0.ns, r0.ew, min(len(fixes), 40) // 4, sum(math.isnan(f.lon) for f in fixes), len(r0.lattxt))


def quadrants(ctx):
    ship, talker = VARIANTS[ctx.idx % len(VARIANTS)]
    n = ctx.pick(1, 2, 3, 5, 12, 30, ctx.randint(2, 60))
    sx, sy = [(1, 1), (1, -1), (-1, 1), (-1, -1)][(ctx.idx // len(VARIANTS)) % 4]
    lon0 = sx * ctx.pick(ctx.uni(0, 9.9), ctx.uni(10, 99.9), ctx.uni(100, 174))
    lat0 = sy * ctx.pick(ctx.uni(0, 9.9), ctx.uni(10, 88))
    lo, la = track(ctx.rng, n, lon0, lat0, maxstep=0.05)
    plain(ctx, make_fixes(ctx, ship, n, lo, la), ship, talker)


def dropouts(ctx):
    ship, talker = VARIANTS[ctx.idx % len(VARIANTS)]
    n = ctx.randint(1, 40)
    fixes = make_fixes(ctx, ship, n, dropouts=ctx.pick(0.05, 0.3, 0.8, 1.0))
    if ctx.chance(.3):  # only one of the two coordinates missing
        for f in fixes:
            if math.isnan(f.lon) and ctx.chance(.5):
                if ctx.chance(.5):
                    f.lattxt, f.ns = '4131.403226', 'N'
                else:
                    f.lontxt, f.ew = '07040.311159', 'W'
    plain(ctx, fixes, ship, talker)


def special(ctx):
    """Exact degrees, last representable minute, equator, Greenwich."""
    ship, talker = VARIANTS[ctx.idx % len(VARIANTS)]
    lon0 = ctx.pick(0.0, -0.0, 10.0, -10.0, 179.9999, -179.9999, 179.995, -179.995, ctx.pick(-1, 1) * (180 - ctx.loguni(1e-6, .02)), 99.999, 100.0, -100.0, -99.99999, 59.9999, 179.0, -179.0, 0.5, -0.5, 9.99999)
    lat0 = ctx.pick(0.0, 10.0, -10.0, 9.99999, -9.99999, 89.99, -89.99, 0.5, -0.5, 45.0, -0.00001)
    n = ctx.randint(1, 25)
    step = ctx.pick(0, 1e-6, 1e-4, 1 / 60., 1 / 600.)
    lo = [min(max(lon0 + step * (i - n // 2), -179.9999999), 179.9999999) for i in range(n)]
    la = [max(-90, min(90, lat0 + step * (i - n // 2))) for i in range(n)]
    plain(ctx, make_fixes(ctx, ship, n, lo, la, dec=ctx.pick(3, 6, 9) if abs(lon0) > 179.9 else ctx.pick(0, 3, 6, 9)), ship, talker)


def noisy(ctx):
    """Lines of noise between the sentences: the positions are those of the log without them."""
    ship, talker = VARIANTS[ctx.idx % len(VARIANTS)]
    n = ctx.randint(1, 40)
    plain(ctx, make_fixes(ctx, ship, n, dropouts=ctx.pick(0, 0, .1)), ship, talker, noise=ctx.pick(.02, .1, .5))


def wide(ctx):
    """Every whole degree of the globe is visited over the run (long slow tracks)."""
    ship, talker = VARIANTS[ctx.idx % len(VARIANTS)]
    lo = list(np.arange(-178.5, 178.6, 0.7) + ctx.uni(-.3, .3))
    la = [88 * math.sin(i / 60. + ctx.idx) for i in range(len(lo))]
    if ctx.chance(.5):
        lo = lo[::-1]
    fixes = make_fixes(ctx, ship, len(lo), lo, la, dropouts=ctx.pick(0, .02))
    plain(ctx, fixes, ship, talker)


def user_function(ctx):
    """Positions returned by a user-supplied parser arrive unchanged; it gets the file's lines and the talker."""
    n = ctx.randint(1, 30)
    lo, la = track(ctx.rng, n)
    if ctx.idx % 2 and max(lo) - min(lo) < 15:      # a parser may count longitudes from 0 to 360
        d = ctx.uni(181, 340) - min(lo)
        lo = [x + d for x in lo]
    ts = gen.times(ctx.rng, n)
    got = {}

    def parser(lines, talker):
        got['lines'], got['talker'] = [str(x) for x in lines], talker
        return np.array(lo), np.array(la), np.array(ts)
    rows = ['line %d $XX' % i for i in range(n)]
    if ctx.chance(.5):
        odd = ['', '   ', '\t$XYGGA,,', 'a' * 700 + '$XYGGA,1', 'form\x0cfeed', 'record\x1eend\x1c', 'tab\x0bdown', ' lead and trail \t ', '$XYGGA,' * 60, '"quoted, line"', '#1']
        rows += [ctx.pick(*odd) for _ in range(ctx.randint(1, 12))]
        rows = [rows[i] for i in ctx.rng.permutation(len(rows))]
    text = '\n'.join(rows) + ('\n' if ctx.chance(.8) or not rows[-1] else '')
    p = ctx.write('x.txt', text)
    ship = ctx.pick('Titanic', 'Atlantis', 'Ride')
    df = read(ctx, ship, p, talker='XYGGA', ship_function=parser)
    t, lon, lat = cols(ctx, df)
    ctx.same(''.join(got['lines']), text, 'lines handed to the user parser')
    ctx.same(len(got['lines']), len(rows), 'number of lines handed to the user parser')
    ctx.same(got['talker'], 'XYGGA', 'talker handed to the user parser')
    ctx.close(lon, lo, 'longitude from user parser', rtol=0, atol=1e-11)
    ctx.close(lat, la, 'latitude from user parser', rtol=0, atol=1e-11)
    ctx.close(t, [gen.posix(x) for x in ts], 'times from user parser', rtol=0, atol=2e-6)
    ctx.cover(ship, n)


GROUPS = [Group('quadrants', quadrants, 208, 3000), Group('dropouts', dropouts, 104, 1500),
          Group('special', special, 130, 1500), Group('noisy', noisy, 52, 600), Group('wide', wide, 13, 150), Group('user_function', user_function, 20, 200)]
