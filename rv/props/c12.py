"""Ship dispatch, database defaults and overrides, refusals."""
import os

import numpy as np
import pandas as pd
import tomli

from .. import gen
from ..core import REPO, Group
from ..navtools import cols, expect_rows, make_fixes, read, track
from ..tabletools import same_table, starts
from . import c06, c08, c10

RULE = ('One case = one combination of reader, ship (supported or not), explicit or default talker/scale/parser and single or listed path. '
        'Non-trivial: the combination decides between reading and refusing, or between default and override; signature: that combination.')
ASSUMPTIONS = ['Refusing means returning the integer -999, as documented by the tests and examples.',
               'The shipped database values are those of the pinned release.']
TARGETS = ['io.read_nav', 'io.read_bgm_raw', 'io.read_bgm_rgs', 'io.read_dgs_laptop', 'io.read_dgs_raw']

TALKERS = {'Atlantis': 'GPGGA', 'Thompson': 'INGGA', 'NBP': 'GPGGA', 'Ride': 'INGGA', 'Revelle': 'GPGGA', 'Langseth': 'INGGA', 'Sikuliaq': 'GPGGA'}
SCALES = {'Atlantis': 4.994070552, 'Thompson': 5.003353363, 'Revelle': 4.99980755, 'Langseth': 5.0}
BIAS = {'Atlantis': (969751.259, 855580.65), 'Thompson': (969492.789, 855489.8), 'Revelle': (968888.6465, 855240.81987), 'NBP': (968634.2514, -999),
        'Ride': (968895.7718, -999), 'Langseth': (969376.125, 854974.4), 'Sikuliaq': (969538.8152, -999)}
STRANGERS = ('Titanic', 'Boaty McBoatface', '', 'atlantis', 'ATLANTIS', 'Atlantis ', 'Neil Armstrong', 'ship')


def refused(ctx, res, what):
    ctx.check(isinstance(res, (int, np.integer)) and int(res) == -999, what + ': expected the refusal value -999', got=res)
    ctx.count('refusals')


def strangers(ctx):
    ship = STRANGERS[ctx.idx % len(STRANGERS)]
    l, _, _, _ = c06.records(ctx, 'Atlantis', 3)
    p = ctx.write('x', '\n'.join(l) + '\n')
    arg = ctx.pick(p, [p], [p, p])
    refused(ctx, read(ctx, ship, arg), 'navigation of an unknown ship')
    refused(ctx, read(ctx, ship, arg, talker='GPGGA'), 'navigation of an unknown ship, talker given')
    refused(ctx, ctx.call('io.read_bgm_raw', arg, ship, progressbar=False), 'BGM serial of an unknown ship')
    refused(ctx, ctx.call('io.read_bgm_raw', arg, ship, scale=5.0, progressbar=False), 'BGM serial of an unknown ship, scale given')
    refused(ctx, ctx.call('io.read_bgm_rgs', arg, ship, progressbar=False), 'RGS of an unknown ship')
    refused(ctx, ctx.call('io.read_dgs_laptop', arg, ship, progressbar=False), 'processed DGS of an unknown ship')
    # ships known for one instrument only
    for s in ('NBP', 'Ride', 'Sikuliaq'):
        refused(ctx, ctx.call('io.read_bgm_raw', arg, s, progressbar=False), 'BGM serial for a ship without a scale factor')
    for s in ('Thompson', 'Revelle', 'Ride', 'Langseth', 'Sikuliaq'):
        refused(ctx, ctx.call('io.read_bgm_rgs', arg, s, progressbar=False), 'RGS for a ship without RGS files')
    ctx.cover(ship, type(arg).__name__)


def default_talker(ctx):
    """A log carrying two talkers: the database picks one, the caller may pick the other."""
    ship = list(TALKERS)[ctx.idx % 7]
    if ship == 'Sikuliaq':
        return
    n = ctx.randint(2, 20)
    lo, la = track(ctx.rng, n, 10 + ctx.uni(0, 50), 20.)
    ts = gen.times(ctx.rng, n, tdec=0)
    by = {}
    for k, tk in enumerate(('GPGGA', 'INGGA')):
        by[tk] = make_fixes(ctx, ship, n, [x + 60 * k for x in lo], [x + 20 * k for x in la], times=ts, tdec=0, lag=.1 + .2 * k)
    text = ''.join(gen.nav_text(ctx.rng, ship, tk, [by[tk][i]], chatter=0) for i in range(n) for tk in ctx.pick(('GPGGA', 'INGGA'), ('INGGA', 'GPGGA')))
    p = ctx.write('two', text)
    ctx.inputs = {'ship': ship, 'text': text}
    for talker in (None, 'GPGGA', 'INGGA'):
        if ship == 'Revelle':
            pass
        df = read(ctx, ship, p, talker)
        tk = talker or TALKERS[ship]
        t, lon, lat = cols(ctx, df)
        rows = expect_rows(ship, tk, by[tk])
        ctx.close(lon, [r[1] for r in rows], 'fixes of the wrong talker (default for %s is %s, asked for %s)' % (ship, TALKERS[ship], talker), rtol=0, atol=1e-10)
        ctx.close(t, [r[0] for r in rows], 'times of the wrong talker', rtol=0, atol=2e-6)
        ctx.cover(ship, talker, n)


def absent(ctx):
    """A talker that is not in the log (or in one of the logs) is refused."""
    ship = list(TALKERS)[ctx.idx % 7]
    tk = TALKERS[ship]
    n = ctx.randint(1, 10)
    fixes = make_fixes(ctx, ship, n)
    good = ctx.write('good', gen.nav_text(ctx.rng, ship, tk, fixes))
    none = ctx.write('none', '\n'.join(gen.prefix(ship, tk, f.log) + gen.other(ctx.rng, f.t).replace('INGLL', 'GPGLL') for f in fixes) + '\n')
    empty = ctx.write('empty', '')
    bad = ctx.pick(none, empty)
    refused(ctx, read(ctx, ship, bad), 'log without the talker')
    refused(ctx, read(ctx, ship, ctx.pick([good, bad], [bad, good])), 'one log without the talker')
    refused(ctx, read(ctx, ship, good, talker=ctx.pick('XXGGA', 'GNGGA', 'GPGGB')), 'talker the log does not have')
    if ship == 'Sikuliaq':
        refused(ctx, read(ctx, ship, good, talker='INGGA'), 'talker the ship has no reader for')
    ctx.cover(ship, n, bad == none)


def override(ctx):
    """A user parser takes precedence over the built-in one and sees every path."""
    ship = ctx.pick('Atlantis', 'Thompson', 'Revelle', 'Langseth', 'Titanic')
    k = ctx.randint(1, 4)
    paths = [ctx.write('o%d' % i, 'whatever %d\n' % i) for i in range(k)]
    seen = []

    def parse(path):
        seen.append(path)
        i = paths.index(path)
        return pd.DataFrame({'counts': [i, i + 1], 'tag': [10 * i, 10 * i + 1]})
    df = ctx.call('io.read_dgs_laptop', paths, ship, ship_function=parse, progressbar=False)
    ctx.same(seen, paths, 'paths handed to the user parser (processed DGS)')
    ctx.same([int(x) for x in df['tag']], [v for i in range(k) for v in (10 * i, 10 * i + 1)], 'records of the user parser (processed DGS)')
    del seen[:]
    scale = ctx.pick(2.0, 1, 1.0, 5, ctx.uni(4, 6), 0, 0.0, -5.0, -1, -ctx.uni(4, 6))
    df = ctx.call('io.read_bgm_raw', paths, ship, scale=scale, ship_function=parse, progressbar=False)
    ctx.same(seen, paths, 'paths handed to the user parser (BGM)')
    ctx.close(df['rgrav'], [scale * v for i in range(k) for v in (i, i + 1)], 'scale override with a user parser')
    odd = [pd.DataFrame({'counts': [5. + i, np.nan, 7.], 'tag': ['a', None, 'c'], 'extra': [np.nan] * 3, 'when': pd.to_datetime(['2020-01-02', None, '2019-05-06'])},
                        index=ctx.pick([7, 7, 2], ['x', 'y', 'z'], [2, 1, 0], [.5, 1.5, 2.5])) for i in range(k)]
    for pick in (paths, paths[0], paths[:1]):
        mine = odd if pick is paths else odd[:1]
        keep = [t.copy() for t in mine]
        whole = pd.concat(keep, ignore_index=True)
        ctx.inputs = {'ship': ship, 'paths': pick, 'tables': [t.to_dict() for t in mine]}
        df = ctx.call('io.read_dgs_laptop', pick, ship, ship_function=lambda p: mine[paths.index(p)], progressbar=False)
        same_table(ctx, df, whole, 'tables of the user parser (processed DGS)')
        ctx.same(list(df.index), list(range(len(whole))), 'row labels with a user parser (processed DGS)')
        df = ctx.call('io.read_bgm_raw', pick, ship, scale=scale, ship_function=lambda p: mine[paths.index(p)], progressbar=False)
        same_table(ctx, df[list(whole.columns)], whole, 'tables of the user parser (BGM)')
        ctx.close(df['rgrav'], scale * whole['counts'], 'scale with a user parser, gaps in the counts')
        ctx.same(list(df.index), list(range(len(whole))), 'row labels with a user parser (BGM)')
    told = []

    def fixes(lines, talker):
        told.append(str(talker))
        from datetime import datetime, timedelta
        t0 = datetime(2021, 5, 6, tzinfo=gen.UTC) + timedelta(seconds=10 * len(told))
        return np.array([1., 2.]) / 100, np.array([3., 4.]), np.array([t0, t0 + timedelta(seconds=1)])
    known = ctx.pick(*TALKERS)
    want = ctx.pick('GPGGA', 'INGGA', 'XYZZY', None)
    read(ctx, known, paths, want, ship_function=fixes)
    ctx.same(told, [want or TALKERS[known]] * k, 'talker handed to the user parser (navigation of %s, asked for %s)' % (known, want))
    ctx.cover(ship, k, known, want)


def path_forms(ctx):
    """One path given alone or in a list reads the same."""
    what = ctx.idx % 5
    n = ctx.randint(1, 12)
    if what == 0:
        ship = list(TALKERS)[ctx.randint(0, 6)]
        p = ctx.write('p', gen.nav_text(ctx.rng, ship, TALKERS[ship], make_fixes(ctx, ship, n)))
        a, b = read(ctx, ship, p), read(ctx, ship, [p])
    elif what == 1:
        ship = c06.SHIPS[ctx.randint(0, 3)]
        l, _, _, _ = c06.records(ctx, ship, n)
        p = ctx.write('p', '\n'.join(l) + '\n')
        a, b = [ctx.call('io.read_bgm_raw', x, ship, progressbar=False) for x in (p, [p])]
    elif what == 2:
        ship = 'NBP'
        p = ctx.write('p', '\n'.join(gen.rgs(ctx.rng, t, '980000.125', '12.5', '-170.25')[0] for t in starts(ctx, n)) + '\n')
        a, b = [ctx.call('io.read_bgm_rgs', x, ship, progressbar=False) for x in (p, [p])]
    elif what == 3:
        ship = c08.SHIPS[ctx.randint(0, 7)]
        p = ctx.write('p', c08.build(ctx, ship, starts(ctx, n))[0])
        a, b = [ctx.call('io.read_dgs_laptop', x, ship, progressbar=False) for x in (p, [p])]
    else:
        ship = ctx.pick('Thompson', 'Ride', 'Sikuliaq')
        p = ctx.write('p', c10.build(ctx, {'Ride': 'synced'}.get(ship, ship), starts(ctx, n))[0])
        a, b = [ctx.call('io.read_dgs_raw', x, ship, progressbar=False) for x in (p, [p])]
    same_table(ctx, a, b, 'one path alone and the same path in a list')
    ctx.cover(what, ship, n)


def same_layouts(ctx):
    """Ships documented to share a layout are read alike."""
    n = ctx.randint(1, 15)
    p = ctx.write('d', c08.build(ctx, 'Ride', starts(ctx, n))[0])
    ref = ctx.call('io.read_dgs_laptop', p, 'Ride', progressbar=False)
    for s in ('Atlantis', 'Revelle', 'NBP', 'DGStest'):
        same_table(ctx, ctx.call('io.read_dgs_laptop', p, s, progressbar=False), ref, 'processed DGS layout shared with ' + s)
    p = ctx.write('r', c10.build(ctx, 'synced', starts(ctx, n))[0])
    ref = ctx.call('io.read_dgs_raw', p, 'Ride', progressbar=False)
    for s in ('Atlantis', 'Revelle', 'NBP', 'Whatever'):
        same_table(ctx, ctx.call('io.read_dgs_raw', p, s, progressbar=False), ref, 'raw DGS layout shared with ' + s)
    ctx.cover(n)


def database(ctx):
    """The per-ship values that ship with the package, as the readers and a user see them."""
    with open(REPO + '/shipgrav/database.toml', 'rb') as f:
        db = tomli.load(f)
    ctx.same(db['nav-talkers'], TALKERS, 'shipped talkers')
    ctx.same(db['BGM-scale'], SCALES, 'shipped BGM scale factors')
    ctx.same({k: (v['dgs'], v['bgm']) for k, v in ((k, {kk.strip("'"): vv for kk, vv in v.items()}) for k, v in db['bias-values'].items())}, BIAS, 'shipped biases')
    ctx.same(db['dgs-stuff']['calibration_factor'], 8388607, 'shipped DGS calibration factor')
    for ship, s in SCALES.items():
        c = ctx.randint(1, 999999)
        ln, _ = gen.bgm_serial(ship, ctx.rng, gen.times(ctx.rng, 1)[0], c)
        df = ctx.call('io.read_bgm_raw', ctx.write('b' + ship, ln + '\n'), ship, progressbar=False)
        ctx.close(df['rgrav'], [s * c], 'default scale factor of ' + ship, rtol=1e-12)
    ctx.cover('database', ctx.idx)


GROUPS = [Group('strangers', strangers, 16, 160), Group('default_talker', default_talker, 42, 500), Group('absent', absent, 42, 500),
          Group('override', override, 15, 150), Group('path_forms', path_forms, 40, 500), Group('same_layouts', same_layouts, 10, 100),
          Group('database', database, 3, 20)]
