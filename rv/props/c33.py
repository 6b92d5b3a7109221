"""Reading several files equals reading each and joining them."""
import os

import numpy as np
import pandas as pd

from .. import gen, jobs
from ..core import Group
from ..tabletools import same_table

RULE = ('One case = one reader and ship with two to eight files, listed in any order, with repeats. Non-trivial: at least two files; '
        'signature: reader, ship, number of files, form of list, repeats, options.')
ASSUMPTIONS = ['Lists of paths are lists or tuples of str; values of the joined table are compared exactly with those of the files read alone.']
TARGETS = ['io.read_bgm_raw', 'io.read_bgm_rgs', 'io.read_dgs_laptop', 'io.read_dgs_raw']
NAMES = ['a,b.dat', 'a b.dat', 'x;y', 'x*', '[1]', 'q?', "it's", 'a:b', '#1', '50%', '~x', '$x', '-x', '{a}', 'a.b.c', 'a=b', 'AT50.Raw', 'a&b', 'x.csv', 'a|b',
         'l, m, n', 'end ', ' start', '.hidden', 'a+b', 'a@b', '(2)', 'x.dat.bak', 'con', '1', 'a\\b', 'RGS', 'dgs_raw', 'x' * 200]
COMBOS = [(k, s) for k in jobs.READERS[1:] for s in jobs.grav_ships(k)]


def joined(ctx):
    kind, ship = COMBOS[ctx.idx % len(COMBOS)]
    layout = ship
    if kind == 'raw':
        ship = jobs.raw_ship(ctx, layout)
    k = ctx.pick(2, 2, 3, ctx.randint(2, 8), ctx.randint(2, 8), ctx.randint(9, 40))
    paths = [jobs.grav_file(ctx, kind, ship, ctx.pick('z%d', 'a%d.dat', '%d', 'f %d') % (k - i) + '_%d' % i, layout=layout) for i in range(k)]
    order = [int(i) for i in ctx.rng.permutation(k)]
    if ctx.chance(.3):
        order += [order[0]]
    if ctx.chance(.3):
        order.insert(ctx.randint(0, len(order)), order[ctx.randint(0, len(order) - 1)])
    if ctx.chance(.3):
        at = ctx.randint(0, len(order) - 1)
        order.insert(at, order[at])
    want_paths = [paths[i] for i in order]
    kw = {'progressbar': ctx.chance(.2)}
    if kind == 'raw':
        kw.update(ctx.pick({}, {'scale_ccp': False}, {'scale_ccp': True}))
    if kind == 'bgm':
        kw.update(ctx.pick({}, {'scale': 4.5}))
    fn = jobs.grav_reader(kind)
    ctx.inputs = {'reader': fn, 'ship': ship, 'files': [open(p, errors='replace').read()[:300] for p in want_paths]}
    alone = {p: ctx.call(fn, p, ship, **kw) for p in dict.fromkeys(want_paths)}
    one = want_paths[0]
    same_table(ctx, ctx.call(fn, [one], ship, **kw), alone[one], 'list of one path against the path itself')
    listed = list(want_paths)
    form = ctx.pick('list', 'tuple')
    df = ctx.call(fn, tuple(listed) if form == 'tuple' else listed, ship, **kw)
    ctx.same(listed, want_paths, 'the list of paths is changed')
    parts = [alone[p] for p in want_paths]
    ctx.same(len(df), sum(len(x) for x in parts), 'number of records of all files')
    ctx.same([int(i) for i in df.index], list(range(len(df))), 'row labels of the joined table')
    at = 0
    for x in parts:
        same_table(ctx, df.iloc[at:at + len(x)], x, 'records of one file among those of all')
        ctx.check(list(x.index) == list(range(len(x))), 'row labels of one file')
        at += len(x)
    ctx.count('records', len(df))
    ctx.cover(kind, layout, k, form, len(order) > k, tuple(sorted(kw.items())))


def seams(ctx):
    """A log cut in pieces that overlap, or continue within the same instant: each piece keeps what it holds."""
    kind, ship = COMBOS[ctx.idx % len(COMBOS)]
    layout = ship
    if kind == 'raw':
        ship = jobs.raw_ship(ctx, layout)
    fn = jobs.grav_reader(kind)
    n = ctx.randint(3, 12)
    how = ctx.pick('overlap', 'overlap', 'one instant')
    ts = [gen.times(ctx.rng, 1)[0]] * n if how == 'one instant' else None
    p = jobs.grav_file(ctx, kind, ship, 'all', n=n, ts=ts, layout=layout)
    with open(p, 'rb') as f:
        raw = f.read()
    head = gen.SKQ_HEADER.encode() if raw.startswith(gen.SKQ_HEADER.encode()) else b''
    lines = raw[len(head):].splitlines(keepends=True)
    cut, back = ctx.randint(1, len(lines) - 1), ctx.pick(1, 1, 2, 0)
    back = min(back, cut) if how == 'overlap' else 0
    pieces = [lines[:cut], lines[cut - back:]]
    if ctx.chance(.3):
        pieces = [[x] for x in lines]
    if ctx.chance(.3):
        pieces.insert(ctx.randint(0, len(pieces)), [lines[cut]])
    paths = [ctx.write('s%d' % i, head + b''.join(x)) for i, x in enumerate(pieces)]
    ctx.inputs = {'reader': fn, 'ship': ship, 'lines': [b.decode(errors='replace') for b in lines], 'pieces': [len(x) for x in pieces]}
    df = ctx.call(fn, paths, ship, progressbar=False)
    ctx.same(len(df), sum(len(x) for x in pieces), 'number of records of all files')
    at = 0
    for q, x in zip(paths, pieces):
        same_table(ctx, df.iloc[at:at + len(x)], ctx.call(fn, q, ship, progressbar=False), 'records of one file among those of all')
        at += len(x)
    ctx.cover('seams', kind, layout, how, back, len(pieces))


def named(ctx):
    """One path is one file, whatever characters are in its name."""
    kind, ship = COMBOS[ctx.idx % len(COMBOS)]
    layout = ship
    if kind == 'raw':
        ship = jobs.raw_ship(ctx, layout)
    fn = jobs.grav_reader(kind)
    names = NAMES if ctx.idx < len(COMBOS) else [ctx.pick(*NAMES) + ctx.pick('', ' ') + ctx.pick(*NAMES) for _ in range(4)]
    plain = jobs.grav_file(ctx, kind, ship, 'plain', layout=layout)
    with open(plain) as f:
        text = f.read()
    want = ctx.call(fn, plain, ship, progressbar=False)
    for n in names:
        n = n[:250]
        p = ctx.write(n, text)
        ctx.inputs = {'reader': fn, 'ship': ship, 'name': n}
        same_table(ctx, ctx.call(fn, p, ship, progressbar=False), want, 'one path whose name has special characters')
        same_table(ctx, ctx.call(fn, [p], ship, progressbar=False), want, 'list of one path whose name has special characters')
        ctx.cover(kind, layout, n)


def roads(ctx):
    """The file read is the one the path leads to: twins that differ in case, relative paths, links, dots."""
    kind, ship = COMBOS[ctx.idx % len(COMBOS)]
    layout = ship
    if kind == 'raw':
        ship = jobs.raw_ship(ctx, layout)
    fn = jobs.grav_reader(kind)
    base = os.path.realpath(ctx.path('roads'))
    for d in ('deep/er', 'Deep/er', 'other'):
        os.makedirs(os.path.join(base, d), exist_ok=True)
    names = ['log.dat', 'Log.dat', 'LOG.DAT', 'log.DAT', 'log', 'deep/log.dat', 'deep/er/log.dat', 'Deep/er/log.dat',
             'other/log.dat', 'other/log\\dat', '~log.dat', '$HOME', 'log%20dat', 'other/log dat']
    want = {}
    for i, q in enumerate(names):
        p = jobs.grav_file(ctx, kind, ship, 'twin', n=ctx.randint(2, 6), layout=layout)
        want[q] = ctx.call(fn, p, ship, progressbar=False)
        os.replace(p, os.path.join(base, q))
    os.symlink(os.path.join(base, 'deep', 'er'), os.path.join(base, 'link'))
    os.symlink('other/log.dat', os.path.join(base, 'alias.DAT'))
    ways = {q: q for q in names}
    ways.update({'link/log.dat': 'deep/er/log.dat', 'link/../log.dat': 'deep/log.dat', 'alias.DAT': 'other/log.dat', './log.dat': 'log.dat', 'other/../Log.dat': 'Log.dat',
                 'deep//er/./log.dat': 'deep/er/log.dat', '../roads/log': 'log'})
    here = os.getcwd()
    os.chdir(base)
    try:
        got = {}
        for w in ways:
            ctx.inputs = {'reader': fn, 'ship': ship, 'path': w}
            got[w] = ctx.call(fn, w, ship, progressbar=False)
            got[os.path.join(base, w)] = ctx.call(fn, os.path.join(base, w), ship, progressbar=False)
            ctx.cover(kind, layout, w)
        listed = list(ways)
        ctx.rng.shuffle(listed)
        df = ctx.call(fn, listed, ship, progressbar=False)
    finally:
        os.chdir(here)
    for w, t in got.items():
        same_table(ctx, t, want[ways[w[len(base) + 1:] if w.startswith(base) else w]], 'the file the path leads to')
    at = 0
    for w in listed:
        x = want[ways[w]]
        same_table(ctx, df.iloc[at:at + len(x)], x, 'records of one file among those of all, paths given as they are')
        at += len(x)
    ctx.same(len(df), at, 'number of records of all files')


def refused(ctx):
    """A bad file among good ones is never silently left out: the whole read fails, or its records are there."""
    kind, ship = COMBOS[ctx.idx % len(COMBOS)]
    layout = ship
    if kind == 'raw':
        ship = jobs.raw_ship(ctx, layout)
    paths = [jobs.grav_file(ctx, kind, ship, 'g%d' % i, layout=layout) for i in range(3)]
    paths[ctx.randint(0, 2)] = ctx.path('missing')
    ok, res = ctx.call_raw(jobs.grav_reader(kind), paths, ship, progressbar=False)
    ctx.check(not ok or (isinstance(res, (int, np.integer)) and res == -999), 'a file that does not exist is passed over', got=res)
    ctx.cover(kind, layout)


GROUPS = [Group('seams', seams, 80, 800), Group('joined', joined, 220, 3000), Group('named', named, 20, 200), Group('roads', roads, 20, 200), Group('refused', refused, 20, 100)]
