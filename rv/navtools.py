"""Shared pieces of the navigation monitors."""
import math
from datetime import timedelta

import numpy as np

from . import gen

FULL = ('Atlantis', 'Thompson', 'NBP', 'Ride', 'Revelle', 'Langseth', 'Sikuliaq')
#: (ship, talker to pass or None for the default)
VARIANTS = [(s, None) for s in FULL] + [('Ride', 'GPGGA'), ('NBP', 'INGGA'), ('Atlantis', 'INGGA'),
                                        ('Thompson', 'GPGGA'), ('Langseth', 'GPGGA'), ('Revelle', 'INGGA')]


def track(rng, n, lon0=None, lat0=None, maxstep=0.3, edge=5.0):
    """A track that never jumps a degree and stays clear of +/-180 and the poles."""
    lon = rng.uniform(-180 + edge, 180 - edge) if lon0 is None else lon0
    lat = rng.uniform(-88, 88) if lat0 is None else lat0
    step = 10 ** rng.uniform(-5, math.log10(maxstep))
    dlon = rng.uniform(-step, step)
    dlat = rng.uniform(-step, step) * .5
    lo, la = [], []
    for _ in range(n):
        lo.append(lon)
        la.append(lat)
        lon += dlon + rng.uniform(-step, step) * .2
        lat += dlat + rng.uniform(-step, step) * .2
        if abs(lat) > 89:
            dlat, lat = -dlat, math.copysign(89, lat)
        if abs(lon) > 180 - edge / 2 and lon0 is None:
            dlon = -dlon
            lon = math.copysign(180 - edge / 2, lon)
    return lo, la


def make_fixes(ctx, ship, n, lon=None, lat=None, dropouts=0.0, dec=None, tdec=None, times=None, lag=None):
    rng = ctx.rng
    if lon is None:
        lon, lat = track(rng, n)
    dec = int(rng.integers(3, 10)) if dec is None else dec
    if tdec is None:
        tdec = ctx.pick(0, 1, 2, 2, 3, 6)
    if times is None:
        times = gen.times(rng, n, tdec=min(tdec, 3))
    fixes = []
    for i in range(n):
        lg = rng.uniform(0.0, 0.9) if lag is None else lag
        log = times[i] + timedelta(microseconds=int(lg * 1e6))
        gone = rng.random() < dropouts
        fixes.append(gen.Fix(times[i], log, None if gone else lon[i], None if gone else lat[i], dec=dec, tdec=tdec))
    return fixes


def expect_rows(ship, talker, fixes):
    """(posix time, lon, lat) rows a log with those fixes stands for, in time order."""
    rows = [(gen.posix(gen.fixtime(ship, talker, f)), f.lon, f.lat) for f in fixes]
    rows.sort(key=lambda r: r[0])
    return rows


def dup_free(rows, gap=0.0005):
    return all(b[0] - a[0] > gap for a, b in zip(rows, rows[1:]))


def read(ctx, ship, paths, talker=None, **kw):
    kw.setdefault('progressbar', False)
    if talker is not None:
        kw['talker'] = talker
    return ctx.call('io.read_nav', ship, paths, **kw)


def cols(ctx, df):
    ctx.check(hasattr(df, 'columns'), 'read_nav did not return a table', got=df)
    for c in ('time_sec', 'lon', 'lat', 'stamps'):
        ctx.check(c in df.columns, 'column %s missing from navigation table' % c, columns=list(df.columns))
    return (np.asarray(df['time_sec'], float), np.asarray(df['lon'], float), np.asarray(df['lat'], float))
