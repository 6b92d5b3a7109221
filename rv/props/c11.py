"""Feed reader (read_other_stuff)."""
import math
import os

import numpy as np
import yaml

from .. import gen
from ..core import REPO, Group

RULE = ('One case = one feed description and one log interleaving records of several feeds (with or without logger stamps, empty fields, '
        'missing final newline). Non-trivial: at least one record of the requested feed; signature: feed, records, position of first/last '
        'record, stamp style, empty fields, line ending.')
ASSUMPTIONS = ['A record of a feed starts with $, its name and a comma; sentences are ASCII and end with a checksum; between them there may be noise, and records of other feeds may be garbled.']
TARGETS = ['io.read_other_stuff']


def value(txt):
    try:
        return float(txt)
    except ValueError:
        return txt


def eq(got, txt):
    """Is `got` the value of field text `txt`?"""
    w = value(txt)
    if txt == '':
        return got == '' or got is None or (isinstance(got, (float, np.floating)) and math.isnan(got))
    if isinstance(w, float):
        try:
            return not isinstance(got, str) and float(got) == w
        except (TypeError, ValueError):
            return False
    return got == w


def judge(ctx, res, colnames, records, stamps, fields):
    ctx.check(isinstance(res, tuple) and len(res) == 2, 'reader must return the table and the column information', got=res)
    df, info = res
    ctx.same(len(df), len(records), 'every record of the feed must appear exactly once')
    for j, c in enumerate(colnames):
        ctx.check(c in df.columns, 'column %r missing' % c, columns=list(df.columns))
        got = list(df[c])
        for i, r in enumerate(records):
            ctx.check(eq(got[i], r[j]), 'field in the wrong column or altered', record=i, column=c, got=got[i], text=r[j])
    ctx.check('mystery' in df.columns, 'text before the tag is lost')
    for i, (g, s) in enumerate(zip(list(df['mystery']), stamps)):
        # blanks next to the tag are nobody's; those in front may mean something
        ctx.check(eq(g.rstrip() if isinstance(g, str) else g, s.rstrip() if isinstance(g, str) else s.strip()), 'text before the tag altered', record=i, got=g, text=s)
    want = {c: fields[c.split(':')[0]] for c in colnames if c.split(':')[0] in fields}
    ctx.same(dict(info), want, 'column information must be what the description says about the columns')
    ctx.count('records', len(records))
    ctx.count('fields', len(records) * len(colnames))


def fieldtext(ctx, empty):
    if ctx.chance(empty):
        return ''
    k = ctx.randint(0, 10)
    return ['%d' % ctx.randint(-9, 10 ** 6), '%.3f' % ctx.uni(-1000, 1000), '%06.2f' % ctx.uni(0, 9999), ctx.pick('A', 'D', 'N', 'W', 'V'),
            '-%.4f' % ctx.uni(0, 1), '0', '%010.5f' % ctx.uni(0, 1e4),
            '%.9f' % ctx.uni(-180, 180), '%.12f' % ctx.uni(0, 1), '%014.8f' % ctx.uni(0, 17959), '%.3f' % ctx.uni(1.4e9, 1.8e9)][k]


def stamp(ctx, style, t):
    return {'none': '', 'iso': t.strftime('%Y-%m-%dT%H:%M:%S.%fZ '), 'posix': '%.3f ' % gen.posix(t),
            'comma': t.strftime('%m/%d/%Y,%H:%M:%S,'), 'name': 'mru '}[style]


def invented(ctx):
    """Random descriptions and logs."""
    nt = ctx.randint(1, 4)
    tags = [['PASHR', 'HEHDT', 'PHVTG', 'XXTST'], ['QQABC', 'ZZ1', 'PSXN', 'INZDA'], ['AAA', 'BBB', 'CCC', 'DDD'],
            ['HDT', 'HDTX', 'XHDT', 'HD'], ['ABC', 'ABCABC', 'CABC', 'AB']][ctx.randint(0, 4)][:nt]
    fmt, names = {}, {}
    allf = {}
    for tg in tags:
        nf = ctx.randint(1, 9)
        names[tg] = ['%s%d:%s' % (ctx.pick('Alpha', 'Beta', 'Gamma'), j, ctx.pick('g', 'd', 'of', 'w')) for j in range(nf)]
        if ctx.chance(.4) and nf > 2:
            names[tg][ctx.randint(1, nf - 2)] = ctx.pick('T', 'M')     # a constant letter in the format
        fmt[tg] = '$%s,' % tg + ','.join('{%s}' % c if ':' in c else c for c in names[tg]) + '*{CheckSum:x}'
        for c in names[tg]:
            if ':' in c and ctx.chance(.7):
                allf[c.split(':')[0]] = {'units': ctx.pick('deg', '', 'm', '\u00b0', '\u00b5Gal'), 'description': ctx.pick('d%d' % ctx.randint(0, 99), 'd\u00e9riv\u00e9e')}
    y = ctx.write('f.yaml', yaml.safe_dump({'Device': {'category': 'device_type', 'description': 'x', 'format': fmt, 'fields': allf}},
                                           sort_keys=ctx.chance(.5), allow_unicode=ctx.chance(.5)).encode())
    tag = tags[ctx.randint(0, nt - 1)]
    logger = ctx.pick('', '', tag, 'mru_' + tag.lower(), tag + 'log', tags[0])      # logger names may name a feed
    n = ctx.pick(1, 2, 5, ctx.randint(1, 80))
    empty = ctx.pick(0, 0, .2, .6)
    style = ctx.pick('none', 'iso', 'posix', 'comma', 'name')
    ts = gen.times(ctx.rng, 4 * n + 4)
    indent = ctx.pick(0, 0, 0, .5)
    lines, recs, sts = [], [], []
    late = nt > 1 and ctx.chance(.08)
    if late:        # the feed comes on long after logging began
        o = [x for x in tags if x != tag][0]
        lines = ['$' + o + ',%d*00' % i for i in range(ctx.pick(2000, 9000, 30000))]
    while len(recs) < n:
        tg = tag if ctx.chance(.5) else tags[ctx.randint(0, nt - 1)]
        t = ts[min(len(lines), len(ts) - 1)]
        f = [fieldtext(ctx, empty) if (':' in c) else c for c in names[tg]]
        f[-1] = (f[-1] if ctx.chance(.8) else '') + '*%02X' % ctx.randint(0, 255)
        s = stamp(ctx, style, t)
        if style != 'none' and logger:
            s = logger + ' ' + s
        if s and ctx.chance(indent):
            s = ctx.pick(' ', '\t', '   ') + s
        lines.append(s + '$' + tg + ',' + ','.join(f))
        if tg == tag:
            recs.append(f)
            sts.append(s)
        elif ctx.chance(.1):
            lines.append('')
    if ctx.chance(.4) and nt > 1:
        o = [x for x in tags if x != tag][0]
        lines.append('$' + o + ',1*00')
    nl = ctx.pick('\n', '\n', '\r\n')
    text = nl.join(lines) + ctx.pick(nl, '')
    raw = text.encode('ascii')
    if ctx.chance(.25):
        raw = gen.with_noise(ctx.rng, raw, ctx.pick(.02, .1, .5))
        if ctx.chance(.5) and nt > 1:       # a record of another feed with bytes gone bad
            o = [x for x in tags if x != tag][0]
            raw = b'$' + o.encode() + b',\xb0\xff\xc3,1*00\n' + raw
        if ctx.chance(.4):       # a name with a byte of noise in it names no feed
            j = ctx.randint(0, len(tag))
            raw += (b'' if raw.endswith(b'\n') else nl.encode()) + b'$' + tag[:j].encode() + ctx.pick(b'\xff', b'\xb0\xc3', b'\xe9') + tag[j:].encode() + b',' + ','.join(recs[0]).encode() + b'\n'
    d = ctx.write('feed.txt', raw)
    ctx.inputs = {'tag': tag, 'yaml': open(y).read(), 'text': text}
    colnames = list(names[tag])
    colnames[-1] += '*CheckSum:x'
    if len(set(colnames)) < len(colnames):
        return
    res = ctx.call('io.read_other_stuff', y, d, ctx.pick(tag, '$' + tag))
    judge(ctx, res, colnames, recs, sts, allf)
    ctx.cover(tag, n, style, empty, nl, text.endswith(nl), len(colnames), lines[-1].startswith('$' + tag), logger == tag, late)


def shipped(ctx):
    """Feeds of the shipped description, generated records, any interleaving; last line always counts."""
    yp = REPO + '/shipgrav/tests/ex_files/IXBlue.yaml'
    ym = yaml.safe_load(open(yp))
    ym = ym[list(ym)[0]]
    ok = [t for t in ym['format'] if 'nlat_dir' not in ym['format'][t]]
    tag = ok[ctx.idx % len(ok)]
    n = ctx.randint(1, 40)
    ts = gen.times(ctx.rng, 3 * n + 3)
    lines, recs, sts = [], [], []
    while len(recs) < n:
        tg = tag if ctx.chance(.4) else ok[ctx.randint(0, len(ok) - 1)]
        cols = ym['format'][tg].replace('{', '').replace('}', '').split(',')[1:]
        f = [fieldtext(ctx, .1) if ':' in c else c.split('*')[0] for c in cols]
        f[-1] += '*%02X' % ctx.randint(0, 255)
        s = stamp(ctx, 'iso', ts[len(lines) % len(ts)])
        lines.append(s + '$' + tg + ',' + ','.join(f))
        if tg == tag:
            recs.append(f)
            sts.append(s)
    d = ctx.write('feed.txt', '\n'.join(lines) + ctx.pick('', '\n'))
    colnames = ym['format'][tag].replace('{', '').replace('}', '').split(',')[1:]
    ctx.inputs = {'tag': tag, 'text': open(d).read()}
    judge(ctx, ctx.call('io.read_other_stuff', yp, d, tag), colnames, recs, sts, ym['fields'])
    ctx.cover(tag, n)


def refused(ctx):
    """A feed the description or the log does not have is refused, not invented."""
    y = ctx.write('f.yaml', 'Dev:\n  format:\n    AAA: "$AAA,{X:g}*{C:x}"\n    BBB: "$BBB,{Y:g}*{C:x}"\n    AA: "$AA,{X:g}*{C:x}"\n  fields:\n    X: {units: m}\n')
    d = ctx.write('d.txt', '$AAA,%d*00\n' % ctx.randint(0, 9) * ctx.randint(1, 5))
    tag = ('BBB', 'CCC', '$BBB', '$CCC', 'AA', 'A', 'AAAB')[ctx.idx % 7]
    ok, res = ctx.call_raw('io.read_other_stuff', y, d, tag)
    ctx.check(not ok, 'a feed that is not there was read', tag=tag, got=res)
    ctx.cover(tag)


def direction(ctx):
    """Feeds with a two-field direction specifier (PHGGA)."""
    yp = REPO + '/shipgrav/tests/ex_files/IXBlue.yaml'
    n = ctx.randint(1, 5)
    recs = [['%010.2f' % ctx.uni(0, 235959), '%013.8f' % ctx.uni(100, 8959), 'N', '%014.8f' % ctx.uni(100, 17959), 'W', '2', '10', '0.828',
             '-31.369', 'M', '-27.243', 'M', '4.000', '0135*6D'] for _ in range(n)]
    d = ctx.write('g.txt', '\n'.join('2023-06-16T00:00:00.089227Z $PHGGA,' + ','.join(r) for r in recs) + '\n')
    ctx.cover(n)
    ok, res = ctx.call_raw('io.read_other_stuff', yp, d, 'PHGGA')
    if not ok and isinstance(res, ValueError) and 'columns' in str(res):
        ctx.finding('nlat-dir-two-fields', 'feed with a direction specifier cannot be read', raised=str(res))
        return
    ctx.check(ok, 'reading a feed with a direction specifier', raised=str(res))
    df = res[0]
    ctx.same(len(df), n, 'records of a feed with a direction specifier')
    for i, r in enumerate(recs):
        row = [str(x) for x in df.iloc[i]]
        ctx.check(any(eq(x, r[0]) for x in df.iloc[i]), 'record content', row=row)


def long_log(ctx):
    """Every record of a long log, and of a log larger than a few megabytes."""
    y = ctx.write('f.yaml', 'Dev:\n  format:\n    AAA: "$AAA,{X:g},{N:d}*{C:x}"\n    BBB: "$BBB,{Y:g}*{C:x}"\n  fields:\n    X: {units: m}\n')
    n, f = 95000, ctx.randint(1, 900)
    vals = np.round(ctx.rng.uniform(-180, 180, n), 4)
    nos = ctx.rng.integers(0, 90, n)
    same = np.flatnonzero(ctx.rng.random(n) < .2)[1:]       # an instrument at rest repeats itself
    vals[same], nos[same] = vals[same - 1], nos[same - 1]
    d = ctx.write('d.txt', ''.join('2023-06-16T00:00:00.089227Z $AAA,%.4f,%d*00\n' % (v, nos[i]) + ('$BBB,%d*00\n' % i if i % f == 0 else '') for i, v in enumerate(vals)))
    df, info = ctx.call('io.read_other_stuff', y, d, 'AAA')
    ctx.same(len(df), n, 'records of a long log')
    ctx.close(df['X:g'], vals, 'values of a long log', rtol=1e-12)
    ctx.check([str(x) for x in df['N:d*C:x']] == ['%d*00' % i for i in nos], 'last fields of a long log')
    ctx.count('records', n)
    ctx.cover('long', f)


GROUPS = [Group('long_log', long_log, 1, 4), Group('invented', invented, 240, 3500), Group('shipped', shipped, 50, 600), Group('refused', refused, 12, 60),
          Group('direction', direction, 3, 12)]
