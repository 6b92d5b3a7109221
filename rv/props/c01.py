"""End to end: raw ship files reduce to the free-air anomaly that was there."""
import math
from datetime import datetime, timedelta

import numpy as np
import tomli

from .. import gen, navtools
from ..core import Group
from . import c06, c08, c10, c17, c18, c19

RULE = ('One case = one synthetic cruise: a smooth track, a planted anomaly that changes fast, the gravity that meter would have recorded (written in '
        'the format of one ship and meter) and its navigation logs (written in the format of a ship); both are read, joined by time, corrected with '
        'the public corrections and compared with the planted anomaly, record by record and through the time stamps read. Non-trivial: always; '
        'signature: meter, ship, navigation ship, latitude band, crossing of midnight / 180 degrees, positions used, heights, files.')
ASSUMPTIONS = ['Observations are synthesised with independent implementations: Somigliana normal gravity, second-order free air, vertical acceleration of '
               'the track in an inertial frame, scalar Longman tides.',
               'Gravity is logged at 1 Hz and navigation at 1 Hz on whole seconds; positions carry at least eight decimals of minutes (coarser ones make the '
               'Eotvos correction noisy, and are normally filtered).',
               'Agreement within 0.05 mGal plus 0.2 per cent of the Eotvos effect (first-order flattening, interpolation).']
TARGETS = ['io.read_nav', 'io.read_dgs_laptop', 'io.read_bgm_raw', 'io.read_bgm_rgs', 'io.read_dgs_raw', 'utils.clean_ini_to_toml', 'grav.wgs_grav',
           'grav.free_air_second_order', 'grav.eotvos_full', 'grav.longman_tide_prediction']
K = math.degrees(1 / 6.37e6)
METERS = [('laptop', s) for s in c08.SHIPS] + [('bgm', s) for s in c06.SHIPS] + [('rgs', 'Atlantis'), ('rgs', 'NBP')] + [
    ('raw', s) for s in c10.LAYOUTS if s != 'unsynced']


class Track:
    """Closed-form smooth track: lon(t), lat(t), ht(t), planted anomaly(t); t in seconds from the start."""

    def __init__(self, ctx, cross):
        u = ctx.uni
        self.lat0 = ctx.pick(u(-75, 75), u(-75, 75), u(-.002, .002))
        v, az = ctx.pick(u(0, 3), u(3, 9), u(3, 9)), u(0, 2 * math.pi)
        if cross:
            az = ctx.pick(math.pi / 2, -math.pi / 2) + u(-.6, .6)
            v = u(4, 9)
        self.vn, self.ve = v * math.cos(az), v * math.sin(az)
        self.w, self.w2 = 2 * math.pi / u(200, 900), 2 * math.pi / u(200, 900)
        self.an, self.ae = u(0, 1.5) / self.w, u(0, 1.5) / self.w2
        self.p, self.p2, self.p3 = u(0, 6), u(0, 6), u(0, 6)
        self.lon0 = u(-170, 170)
        self.hk = ctx.pick('sea level', 'sea level', 'swell', 'geoid')
        self.h = {'sea level': (0, 0), 'swell': (u(.2, 2), u(200, 500)), 'geoid': (u(-40, 40), 0)}[self.hk]
        self.f = (u(-60, 60), u(-3, 3), u(0, 20), 2 * math.pi / u(20, 90))
        if cross:       # meet 180 degrees in the middle
            self.lon0 = 0.
            mid = 90.
            self.lon0 = math.copysign(180, self.ve) - self.lon(mid)

    def lat(self, t):
        return self.lat0 + K * (self.vn * t + self.an * np.sin(self.w * t + self.p))

    def lon(self, t):
        return self.lon0 + K / math.cos(math.radians(self.lat0)) * (self.ve * t + self.ae * np.sin(self.w2 * t + self.p2))

    def ht(self, t):
        a, T = self.h
        return a + 0 * t if not T else a * np.sin(2 * np.pi * t / T + self.p3)

    def faa(self, t):
        a, b, c, w = self.f
        return a + b * t + c * np.sin(w * t)


def wrap180(x):
    return (np.asarray(x) + 180) % 360 - 180


def start(ctx):
    day = datetime(ctx.randint(2004, 2029), ctx.randint(1, 12), ctx.randint(1, 28), tzinfo=gen.UTC)
    k = ctx.pick('any', 'midnight', 'month', 'year', 'leap', 'am')
    if k == 'any':
        return k, day + timedelta(seconds=ctx.randint(1000, 85000))
    if k == 'am':
        return k, day + timedelta(hours=1 + ctx.randint(0, 9), seconds=ctx.randint(0, 3599))
    d = {'midnight': day, 'month': day.replace(day=1), 'year': day.replace(month=1, day=1), 'leap': datetime(ctx.pick(2008, 2016, 2020, 2024), 3, 1, tzinfo=gen.UTC)}[k]
    return k, d - timedelta(seconds=ctx.randint(20, 100))


def cuts(ctx, items, most=3):
    k = ctx.randint(1, most)
    at = sorted(int(x) for x in ctx.rng.integers(1, len(items), k - 1))
    return [items[a:b] for a, b in zip([0] + at, at + [len(items)]) if b > a]


def nav_files(ctx, ship, talker, tr, t0, n):
    dec = ctx.pick(8, 9)
    tdec = ctx.pick(0, 1, 2, 3)
    fixes = [gen.Fix(t0 + timedelta(seconds=s), t0 + timedelta(seconds=s), float(wrap180(tr.lon(s))), float(tr.lat(s)), dec=dec, tdec=tdec) for s in range(-5, n + 6)]
    out = []
    for i, part in enumerate(cuts(ctx, fixes)):
        out.append(ctx.write('nav%d' % i, gen.nav_text(ctx.rng, ship, talker or gen.NAV[ship], part, chatter=ctx.pick(0, .4))))
    order = [int(i) for i in ctx.rng.permutation(len(out))]
    return [out[i] for i in order] if ctx.chance(.5) else out


def meter(ctx, kind, ship, when, obs, lon, lat):
    """Write the files; returns (table read, gravity column, recorded gravity incl. rounding, times written)."""
    kw = {'progressbar': False}
    parts = cuts(ctx, list(range(len(when))))
    paths, times = [], []
    if kind == 'bgm':
        scale = ctx.pick(None, None, .01, .02)
        s = c06.scales()[ship] if scale is None else scale
        bias = ctx.uni(855000, 856000) if scale is None else float(np.floor(np.min(obs)) - 50)
        counts = np.round((obs - bias) / s).astype(int)
        rec = counts * s + bias
        for k, p in enumerate(parts):
            ls = [gen.bgm_serial(ship, ctx.rng, when[i], int(counts[i])) for i in p]
            times += [x[1] for x in ls]
            paths.append(ctx.write('g%d' % k, '\n'.join(x[0] for x in ls) + '\n'))
        if scale is not None:
            kw['scale'] = scale
        df = ctx.call('io.read_bgm_raw', paths, ship, **kw)
        return df, np.asarray(df['rgrav'], float) + bias, rec, times, None
    if kind == 'rgs':
        for k, p in enumerate(parts):
            ls = [gen.rgs(ctx.rng, when[i], '%.3f' % obs[i], '%.12f' % lat[i], '%.12f' % lon[i]) for i in p]
            times += [x[1] for x in ls]
            paths.append(ctx.write('g%d' % k, '\n'.join(x[0] for x in ls) + '\n'))
        df = ctx.call('io.read_bgm_rgs', paths, ship, **kw)
        col = 'grav' if 'grav' in df.columns else 'rgrav'
        return df, np.asarray(df[col], float), np.array([float('%.3f' % o) for o in obs]), times, ('lon', 'lat')
    if kind == 'laptop':
        bias = ctx.uni(968000, 970000)
        rg = [float(o - bias) for o in obs]
        for k, p in enumerate(parts):
            text, _, w = c08.build(ctx, ship, [when[i] for i in p], pad=ctx.chance(.5), lon=[float(lon[i]) for i in p], lat=[float(lat[i]) for i in p],
                                   rgrav=[rg[i] for i in p], jitter=False)
            times += w
            paths.append(ctx.write('g%d' % k, text))
        df = ctx.call('io.read_dgs_laptop', paths, ship, **kw)
        return df, np.asarray(df['rgrav'], float) + bias, obs, times, ('lon', 'lat')
    # raw counts and the calibration in the meter's ini file
    cal, g0 = ctx.uni(8000, 12000), ctx.uni(5000, 12000)
    bias = ctx.uni(968000, 970000) - g0 + 8000
    ini = ctx.write('Meter.ini', '[Sensor]\nGravCal = %.6f // mGal\nMeter = "AT1M-%d"\ng0 = %.3f\nEnabled = True\n[Ports]\nGPS = COM3\n' % (cal, ctx.randint(1, 99), g0))
    cal, g0 = float('%.6f' % cal), float('%.3f' % g0)
    G = np.round((obs - bias - g0) * 8388607 / cal).astype(int)
    rec = G * cal / 8388607 + g0 + bias
    for k, p in enumerate(parts):
        text, _, w = c10.build(ctx, ship, [when[i] for i in p], gravity=[int(G[i]) for i in p])
        times += w
        paths.append(ctx.write('g%d' % k, text))
    name = ship if ship in ('Thompson', 'Sikuliaq') else 'Ride'
    df = ctx.call('io.read_dgs_raw', paths, name, **kw)
    with open(ctx.call('utils.clean_ini_to_toml', ini), 'rb') as f:
        conf = tomli.load(f)['Sensor']
    col = 'rgrav' if ship == 'Sikuliaq' else 'Gravity'
    return df, np.asarray(df[col], float) * conf['GravCal'] / 8388607 + conf['g0'] + bias, rec, times, None


def cruise(ctx):
    kind, ship = METERS[ctx.idx % len(METERS)]
    nship, talker = navtools.VARIANTS[ctx.randint(0, len(navtools.VARIANTS) - 1)]
    reduce(ctx, kind, ship, nship, talker)


def nav_ships(ctx):
    """Every navigation format in turn."""
    nship, talker = navtools.VARIANTS[ctx.idx % len(navtools.VARIANTS)]
    kind, ship = METERS[ctx.randint(0, len(METERS) - 1)]
    reduce(ctx, kind, ship, nship, talker)


def reduce(ctx, kind, ship, nship, talker):
    cross = ctx.chance(.25)
    tr = Track(ctx, cross)
    when_kind, t0 = start(ctx)
    n = ctx.randint(180, 260)
    whole = kind == 'laptop' and ship != 'Thompson' or kind == 'raw' and ship.startswith('synced')
    frac = 0 if whole or ctx.chance(.3) else ctx.randint(0, 999)
    t = np.arange(n) + frac / 1000
    when = [t0 + timedelta(seconds=i, milliseconds=frac) for i in range(n)]
    lon, lat, ht = tr.lon(t), tr.lat(t), tr.ht(t)
    e = np.empty(n)
    e[1:-1] = c19.inertial(lon, lat, ht, 1)
    e[0], e[-1] = e[1], e[-2]
    gam = np.array([c17.somigliana(x) for x in lat])
    fa = -(.3087691 - .0004398 * np.sin(np.radians(lat)) ** 2) * ht + 7.2125e-8 * ht ** 2
    tide = np.array([c18.longman(float(x), float(y), w)[0] for x, y, w in zip(lon, lat, when)])
    obs = tr.faa(t) + gam + fa - e - tide
    ctx.inputs = {'meter': [kind, ship], 'nav': [nship, talker], 'start': str(when[0]), 'lon': lon, 'lat': lat, 'obs': obs}
    df, g, rec, times, own = meter(ctx, kind, ship, when, obs, wrap180(lon), lat)
    planted = tr.faa(t) + (rec - obs)         # what the recorded (rounded) gravity stands for
    ctx.same(len(df), n, 'number of gravity records')
    tsec = np.array([x.timestamp() for x in df['date_time']])
    nav = ctx.call('io.read_nav', nship, nav_files(ctx, nship, talker, tr, t0, n), progressbar=False, **({'talker': talker} if talker else {}))
    use = 'own' if own and not cross and ctx.chance(.3) else 'nav'
    if use == 'own':
        x, y = np.asarray(df[own[0]], float), np.asarray(df[own[1]], float)
    else:
        ns = np.asarray(nav['time_sec'], float)
        ctx.check(ns[0] <= tsec[0] and ns[-1] >= tsec[-1], 'navigation and gravity do not cover the same time', nav=[ns[0], ns[-1]], grav=[tsec[0], tsec[-1]])
        x = np.interp(tsec, ns, np.asarray(nav['lon'], float))
        y = np.interp(tsec, ns, np.asarray(nav['lat'], float))
    corr = np.asarray(ctx.call('grav.wgs_grav', y), float) + np.asarray(ctx.call('grav.free_air_second_order', y, ht), float)
    eot = np.asarray(ctx.call('grav.eotvos_full', x, y, ht, 1), float)
    td = np.asarray(ctx.call('grav.longman_tide_prediction', x, y, df['date_time']), float)
    faa = g - corr + eot + td
    tol = .05 + 2e-3 * float(np.max(np.abs(e)))
    i = slice(2, n - 2)
    ctx.close(faa[i], planted[i], 'recovered anomaly differs from the one present, record by record (mGal)', rtol=0, atol=tol, meter=[kind, ship], nav=nship)
    true_t = np.array([gen.posix(w) for w in when])
    ctx.close(faa[i], np.interp(tsec, true_t, planted)[i], 'recovered anomaly is not at its time (mGal)', rtol=0, atol=tol + .01 * abs(tr.f[1]) + .02, meter=[kind, ship])
    ctx.cover(kind, ship, nship, talker, int(tr.lat0 // 25), cross, when_kind, use, tr.hk)
    ctx.count('records_reduced', n)



GROUPS = [Group('cruise', cruise, 190, 9500), Group('nav_ships', nav_ships, 78, 5200)]
