"""Synthetic ship files whose contents are known exactly."""
import math
from datetime import datetime, timedelta, timezone
from fractions import Fraction

import numpy as np

UTC = timezone.utc
EPOCH = datetime(1970, 1, 1, tzinfo=UTC)


def posix(t):
    """Exact posix seconds of an aware datetime, correctly rounded."""
    d = t - EPOCH
    return float(Fraction(d.days * 86400 + d.seconds) + Fraction(d.microseconds, 1000000))


# ---------------------------------------------------------------- positions

def degmin(val, kind, dec):
    """(text, hemisphere, exact value of that text) for a signed coordinate."""
    n = 2 if kind == 'lat' else 3
    hemi = ('N' if val >= 0 else 'S') if kind == 'lat' else ('E' if val >= 0 else 'W')
    scale = 10 ** dec
    units = int(round(abs(val) * 60 * scale))
    deg, rem = divmod(units, 60 * scale)
    whole, frac = divmod(rem, scale)
    txt = '%0*d%02d' % (n, deg, whole) + ('.%0*d' % (dec, frac) if dec else '')
    exact = Fraction(units, 60 * scale)
    return txt, hemi, float(-exact if val < 0 else exact)


class Fix:
    """One position fix: `t` is the time of the fix, `log` the time the logger wrote it."""
    __slots__ = ('t', 'log', 'lon', 'lat', 'lontxt', 'lattxt', 'ew', 'ns', 'tdec', 'partial', 'ldec')

    def __init__(self, t, log, lon, lat, dec=6, tdec=2):
        self.t, self.log, self.tdec, self.partial, self.ldec = t, log, tdec, None, None      # ldec: digits of the logger's fraction
        if lon is None:
            self.lon = self.lat = math.nan
            self.lontxt = self.lattxt = self.ew = self.ns = ''
        else:
            self.lontxt, self.ew, self.lon = degmin(lon, 'lon', dec)
            self.lattxt, self.ns, self.lat = degmin(lat, 'lat', dec)

    def clock(self):
        s = self.t.strftime('%H%M%S')
        if self.tdec:
            s += '.%06d' % self.t.microsecond if self.tdec >= 6 else '.' + ('%06d' % self.t.microsecond)[:self.tdec]
        return s

    def sentence(self, talker, rng):
        tail = ['%d,%02d,0.9,%.3f,M,%.3f,M,4.0,0402' % (rng.integers(1, 9), rng.integers(4, 30), rng.uniform(-40, 40), rng.uniform(-60, 60)),
                '5,26,0.8,0.19,M,,,7,1015', '0,,,,,,,,'][int(rng.integers(0, 2)) if self.lontxt else 2]
        return '$%s,%s,%s,%s,%s,%s,%s*%02X' % (talker, self.clock(), self.lattxt, self.ns, self.lontxt, self.ew, tail, rng.integers(0, 256))


def other(rng, t):
    """A sentence from some other talker, as found between fixes in the example files."""
    hms = t.strftime('%H%M%S') + '.00'
    k = int(rng.integers(0, 8))
    return ['$GPVTG,%.2f,T,,M,5.2,N,9.6,K,A*36' % rng.uniform(0, 360),
            '$GPRMC,%s,A,7520.156405,S,17945.635852,W,5.2,5.71,130123,,,A*6C' % hms,
            '$GPHDT,%.2f,T*05' % rng.uniform(0, 360),
            '$PSXN,20,0,0,0,0*3B',
            '$GPZDA,%s,%02d,%02d,%04d,00,00*67' % (hms, t.day, t.month, t.year),
            '$INGLL,5420.890903,N,13237.257959,W,%s,A,D*63' % hms,
            '$INVTG,77.26,T,59.62,M,9.8,N,18.1,K,D*03',
            'logging restarted %04d-%02d-%02d by the watch' % (rng.integers(2000, 2030), rng.integers(1, 13), rng.integers(1, 29))][k]


def prefix(ship, talker, log, ldec=None):
    """What the ship's logger writes in front of a sentence."""
    if ship == 'Atlantis':
        return 'NAV %s GPS ' % (log.strftime('%Y/%m/%d %H:%M:%S.') + '%03d' % (log.microsecond // 1000))
    if ship == 'NBP':
        return log.strftime('%y+%j:%H:%M:%S.') + '%03d ' % (log.microsecond // 1000)
    if ship == 'Thompson':
        return log.strftime('%m/%d/%Y,%H:%M:%S.') + '%03d,' % (log.microsecond // 1000)
    if ship == 'Revelle':
        return log.strftime('%Y-%m-%dT%H:%M:%S.') + '%06dZ ' % log.microsecond
    if ship == 'Ride' and talker == 'INGGA':
        d = log - EPOCH
        return '%d.%s ' % (d.days * 86400 + d.seconds, ('%06d' % d.microseconds)[:ldec or 3])
    if ship in ('Ride', 'Sikuliaq'):
        return log.strftime('%Y-%m-%dT%H:%M:%S.') + ('%06d' % log.microsecond)[:ldec or 6] + 'Z '
    if ship == 'Langseth':
        return 'seapath\t' + log.strftime('%Y:%j:%H:%M:%S.') + ('%06d' % log.microsecond)[:ldec or 4] + '\t'
    raise KeyError(ship)


#: ships read_nav supports with the talker it uses for them
NAV = {'Atlantis': 'GPGGA', 'Thompson': 'INGGA', 'NBP': 'GPGGA', 'Ride': 'INGGA',
       'Revelle': 'GPGGA', 'Langseth': 'INGGA', 'Sikuliaq': 'GPGGA'}
#: ships whose fix time is the clock time in the sentence (the others: the logger's stamp)
CLOCK = ('Atlantis', 'NBP', 'Thompson', 'Revelle')
#: resolution (s) of the time a ship's log carries for a fix
LOGRES = {'Ride': 1000, 'Langseth': 100, 'Sikuliaq': 1}


def fixtime(ship, talker, fix):
    """The time a fix is known for from the file's text (exact)."""
    if ship in CLOCK:
        q = 10 ** (6 - min(fix.tdec, 6))
        return fix.t.replace(microsecond=fix.t.microsecond // q * q)
    q = 10 ** (6 - (fix.ldec or (3 if ship == 'Ride' and talker == 'INGGA' else 4 if ship == 'Langseth' else 6)))
    return fix.log.replace(microsecond=fix.log.microsecond // q * q)


def noise(rng):
    """A line of bytes that are not text: what a serial link leaves in a log when a baud rate is wrong or an instrument is switched on."""
    k = int(rng.integers(1, 60))
    return bytes(int(x) for x in rng.integers(0x80, 0x100, k))


def with_noise(rng, raw, rate):
    """The log with lines of noise between its lines (never inside one)."""
    if not rate:
        return raw
    out = []
    for ln in raw.splitlines(keepends=True):
        if rng.random() < rate:
            out.append(noise(rng) + b'\n')
        out.append(ln)
    if out and out[-1].endswith(b'\n') and rng.random() < rate:
        out.append(noise(rng) + b'\n')
    return b''.join(out)


def nav_text(rng, ship, talker, fixes, chatter=0.5, blank=0.05):
    """Text of a nav log with those fixes in that order, other sentences in between."""
    out = []
    for f in fixes:
        if ship == 'Revelle':
            # dated line first, then undated sentences of the same burst
            out.append(prefix(ship, talker, f.log) + '$GPZDA,%s,%02d,%02d,%04d,,*61' % (f.clock(), f.t.day, f.t.month, f.t.year))
            while rng.random() < chatter / 2:
                out.append(other(rng, f.t))
            out.append(f.sentence(talker, rng))
            while rng.random() < chatter:
                out.append(other(rng, f.t))
            continue
        while rng.random() < chatter / 2:
            out.append(prefix(ship, talker, f.log) + other(rng, f.t))
        out.append(prefix(ship, talker, f.log, f.ldec) + f.sentence(talker, rng))
        while rng.random() < chatter:
            out.append(prefix(ship, talker, f.log) + other(rng, f.t))
        if rng.random() < blank:
            out.append('')
    return '\n'.join(out) + '\n'


# the first years two digits can mean, leap days, ends of years, round and overflowing clocks
SPECIAL_DAYS = [datetime(*d, tzinfo=UTC) for d in ((2000, 2, 28), (2000, 2, 29), (2000, 3, 1), (2000, 12, 30), (2000, 12, 31), (2001, 1, 1), (2001, 9, 8), (2008, 2, 29),
                                                   (2016, 12, 30), (2016, 12, 31), (2019, 4, 6), (2033, 5, 17), (2038, 1, 18), (2038, 1, 19), (2048, 12, 30), (2068, 12, 31),
                                                   (2069, 1, 1), (2072, 2, 29), (2099, 12, 30))]


def times(rng, n, start=None, lo=1.0, hi=1.6, tdec=2):
    """n increasing times at least `lo` seconds apart, on a 10**-tdec grid."""
    if start is None:
        k = int(rng.integers(0, 8))
        day = [datetime(2022, 7, 1, tzinfo=UTC) + timedelta(days=int(rng.integers(-4000, 1400))),
               datetime(int(rng.integers(2003, 2030)), 12, 31, tzinfo=UTC),
               datetime(2024, 2, 28, tzinfo=UTC), datetime(2020, 12, 30, tzinfo=UTC),
               datetime(int(rng.integers(2003, 2030)), 3, 1, tzinfo=UTC),
               datetime(int(rng.integers(2003, 2030)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), tzinfo=UTC),
               SPECIAL_DAYS[int(rng.integers(0, len(SPECIAL_DAYS)))],
               datetime(int(rng.integers(2000, 2100)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), tzinfo=UTC)][k]
        start = day + timedelta(seconds=int(rng.integers(0, 86400)))
    q = 10 ** (6 - tdec)
    t, out = start, []
    for _ in range(n):
        us = int(round(rng.uniform(lo, hi) * 1e6)) // q * q
        out.append(t)
        t = t + timedelta(microseconds=max(us, int(lo * 1e6)))
    return out


# ---------------------------------------------------------------- gravimeters

ODD = (-99, 99, -999, 999, -9999, 9999, -99999, 99999, 999999, -1, 1, 100, -32768, 32767, 65535)


def num(rng, lo, hi, dec):
    """A number; now and then exactly zero, a bound, a whole number or one short text."""
    k = rng.random()
    if k > .12:
        return '%.*f' % (dec, rng.uniform(lo, hi))
    if k < .015:        # numbers some people take for "no data"
        odd = [v for v in ODD if lo <= v <= hi]
        if odd:
            return '%d' % odd[int(rng.integers(len(odd)))]
    zero = min(max(lo, 0.), hi)
    return ['%.*f' % (dec, zero), '%g' % zero, '%.*f' % (dec, lo), '%.*f' % (dec, hi), '%d' % round(rng.uniform(lo, hi)),
            '%.*f' % (dec, np.nextafter(zero, hi) + (10. ** -dec if hi > 0 else 0))][int(k / .02)]


def whole(rng, lo, hi):
    """A whole number; now and then 0, 1, -1 or a bound."""
    k = rng.random()
    if k < .015:
        odd = [v for v in ODD if lo <= v < hi]
        if odd:
            return odd[int(rng.integers(len(odd)))]
    if k > .1:
        return int(rng.integers(lo, hi))
    return [min(max(lo, 0), hi - 1), min(max(lo, 1), hi - 1), min(max(lo, -1), hi - 1), lo, hi - 1][int(k / .02)]


def place(rng, top):
    """A latitude or longitude as a meter without a position fix may write it, too."""
    if rng.random() < .01:
        return ['999.9', '-999', '99.990000000000', '-99.99', '360.000000000000', '359.5', '181.25', '-200', '99999'][int(rng.integers(9))]
    return num(rng, -top, top, 12)


def dgs_fields(rng, t, lon=None, lat=None, rgrav=None, pad=True):
    """The 26 comma-separated fields of a processed DGS record and the values that matter."""
    w = ' ' if pad else ''
    f = [num(rng, 9000, 12000, 12),
         num(rng, -15000, 15000, 12) if rgrav is None else repr(rgrav),
         w + num(rng, -5, 5, 12), w + num(rng, -5, 5, 12), w + num(rng, -1, 1, 12), w + num(rng, 40, 60, 12),
         w * 10 + '%d' % rng.integers(0, 65536), w * 8 + '%d' % rng.integers(1000000, 9999999),
         w + num(rng, 25, 35, 12), w + num(rng, 45, 55, 12),
         w + num(rng, -3, 3, 12), w + num(rng, -3, 3, 12), w + num(rng, -3, 3, 12), w + num(rng, -3, 3, 12),
         w + (place(rng, 90) if lat is None else repr(lat)),
         (place(rng, 180) if lon is None else repr(lon)),
         w + num(rng, 0, 15, 12), num(rng, 0, 360, 12), w + num(rng, 0, 1, 12),
         '%d' % t.year, '%02d' % t.month if rng.random() < .5 else '%d' % t.month, '%d' % t.day,
         '%d' % t.hour, '%d' % t.minute, '%d' % t.second, '%d' % rng.integers(0, 99999)]
    vals = {'rgrav': float(f[1]), 'long_a': float(f[2]), 'crss_a': float(f[3]), 'status': int(f[6]),
            've': float(f[10]), 'vcc': float(f[11]), 'al': float(f[12]), 'ax': float(f[13]),
            'lat': float(f[14]), 'lon': float(f[15]), 'year': t.year, 'month': t.month, 'day': t.day,
            'hour': t.hour, 'minute': t.minute, 'second': t.second}
    return f, vals


SKQ_HEADER = '\n'.join(['# Platform:', '#   Name: R/V Sikuliaq', '#   Operator: UAF', '#   IMO Number: 9578945',
                        '#   ICES Code: 33BI', '#   Call Sign: WDN7246', '#   MMSI Number: 338417000',
                        '# Cruise ID: SKQ202416T', '#', '# Instrument:', '#   Name: Dynamic Gravity Systems AT1M',
                        '#   Model: AT1-M', '#   Serial: 33', '#', '# Data:', '#   Type: gravity', '#',
                        '# Log Name\tLog Time\tQC_Gravity, Gravity, ...', '#']) + '\n'
assert SKQ_HEADER.count('\n') == 19


#: digits of the second's fraction the example files carry
BGM_DIGITS = {'Atlantis': 3, 'Thompson': 3, 'Revelle': 6, 'Langseth': 4}


def bgm_serial(ship, rng, t, count, tag='04', end='00', digits=None):
    """(line, exact time) of a BGM3 serial record."""
    d = digits or BGM_DIGITS[ship]
    f = ('%06d' % t.microsecond)[:d]
    w = t.replace(microsecond=int(f.ljust(6, '0')))
    if ship == 'Atlantis':
        return 'BGM %s.%s BGM3 %s:%06d %s' % (t.strftime('%Y/%m/%d %H:%M:%S'), f, tag, count, end), w
    if ship == 'Thompson':
        return '%s.%s,%s:%06d %s' % (t.strftime('%m/%d/%Y,%H:%M:%S'), f, tag, count, end), w
    if ship == 'Revelle':
        return '%s.%sZ %s:%06d %s' % (t.strftime('%Y-%m-%dT%H:%M:%S'), f, tag, count, end), w
    if ship == 'Langseth':
        return 'vc01\t%s.%s\t%s:%06d %s' % (t.strftime('%Y:%j:%H:%M:%S'), f, tag, count, end), w
    raise KeyError(ship)


def rgs(rng, t, grav, lat, lon, digits=3):
    """(line, exact time) of an RGS record; values as they stand in the text."""
    ms = ('%06d' % t.microsecond)[:digits]
    ln = ('RGS %s.%s %s %d %.3f 4.994070552 855577.390 BGM3 S210 GPS: %s %s %.3f 0 0 UNKNOWN_SRC 0.010 135.000 '
          'DEPTH: -999 -999 NONE HDG: 243.380 %.3f SRC_GYRO NO_DNV_ERROR %.3f -999' % (
              t.strftime('%Y/%m/%d %H:%M:%S'), ms, grav, rng.integers(20000, 30000), posix(t), lat, lon, posix(t) - 1,
              posix(t) - .5, posix(t)))
    return ln, t.replace(microsecond=int(ms.ljust(6, '0')))


def dgs_raw_fields(rng, serial, stamp):
    """Fields 0..18 of a $AT1M record and the values that matter."""
    v = {'Gravity': whole(rng, -9000000, 9000000), 'Long': whole(rng, -900000, 900000),
         'Cross': whole(rng, -900000, 900000), 'Beam': whole(rng, -5000000, 5000000),
         'Temp': whole(rng, 0, 600), 'Pressure': whole(rng, 300, 600), 'ElecTemp': whole(rng, 0, 500),
         'vcc': whole(rng, -9000000, 9000000), 've': whole(rng, -900000, 900000),
         'al': whole(rng, -2000000, 2000000), 'ax': whole(rng, -900000, 900000),
         'status': whole(rng, 0, 65536), 'checksum': whole(rng, 0, 20000000)}
    pos = ['%.10f' % rng.uniform(-90, 90), '%.10f' % rng.uniform(-180, 180), '%.4f' % rng.uniform(0, 15), '%.4f' % rng.uniform(0, 360)]
    if rng.random() < .3:
        pos = ['0.0000000000', '0.0000000000', '0.0000', '0.0000']
    if rng.random() < .02:
        pos[int(rng.integers(2))] = ['999.9', '-999', '99.9900000000', '359.5000000000'][int(rng.integers(4))]
    f = ['$AT1M_3.64_%d' % serial] + ['%d' % v[k] for k in ('Gravity', 'Long', 'Cross', 'Beam', 'Temp', 'Pressure', 'ElecTemp',
                                                            'vcc', 've', 'al', 'ax', 'status', 'checksum')] + pos + [stamp]
    v.update(latitude=float(pos[0]), longitude=float(pos[1]), speed=float(pos[2]), course=float(pos[3]), string=f[0])
    return f, v
