"""Meter configuration files: ini to toml."""
import os
import re

import tomli

from ..core import Group

RULE = ('One case = one ini file drawn from the dialect of meter configuration files (sections, bare keys, numbers, booleans, quoted and unquoted strings, '
        '// and # comments, tabs, $ in front of talkers). Non-trivial: at least one key; signature: kinds of value, comment and layout present.')
ASSUMPTIONS = ['UTF-8; bare keys; # and // do not occur inside unquoted strings (they start comments), and a backslash in a quoted string is only a backslash; a tab inside a value may become other white space, which must still separate.',
               'Numerals python reads (.5, 5., 007, NaN) mean the number python reads.']
TARGETS = ['utils.clean_ini_to_toml']
WORDS = ['AT1M', "'90s", "o'clock", "'quoted'", 'COM1', 'Sally', 'Ride', 'north', 'a/b', 'C:\\data\\log', 'x=y', 'say "hi"', '12 mV', '1.2.3', '2024/01/02', '10:20:30', '5,6,7', '+-', 'e5', '(x)', '%d', "it's",
         '0-1', 'yes', 'true north', 'nul', '12h', '[1]', 'a;b', '<>', 'C:\\new\\tab', '\\', 'left\tright', 'Sør', '45°', 'µGal', '12\tmV', 'TRUE NORTH', 'FALSEHOOD', 'TRUEHDG', 'x = TRUE', 'not TRUE', 'True', 'a$b', '$GPGGA', '5$', '\\d', 'C:\\', '$HOME', '${PATH}', '%PATH%', '~/log', '%(g0)s', '{HOME}', '$(ls)']


def key(ctx, used):
    while True:
        k = ctx.pick('g0', 'GravCal', 'LongCal', 'beamgain', 'Etempzero', 'path_1', 'port-2', 'X', 'n', 'TRUEHDG', 'useTRUE', 'FALSE', 'Truewind') + ctx.pick('', '', str(ctx.randint(0, 99)))
        if k not in used:
            used.add(k)
            return k


def value(ctx):
    """(text, meaning, kind)"""
    kind = ctx.pick('int', 'float', 'exp', 'bool', 'quoted', 'plain', 'plain', 'empty')
    if kind == 'int':
        v = ctx.pick(0, 1, -5, ctx.randint(-10 ** 6, 10 ** 9))
        t = str(v)
        return (t, v, kind) if v <= 0 or ctx.chance(.8) else ('+' + t, v, kind)
    if kind == 'float':
        t = '%.*f' % (ctx.randint(1, 9), ctx.uni(-1e6, 1e6))
        return t, float(t), kind
    if kind == 'exp':
        t = '%.*e' % (ctx.randint(1, 6), ctx.uni(-1, 1) * ctx.loguni(1e-20, 1e20))
        t = t.replace('e', ctx.pick('e', 'E'))
        return t, float(t), kind
    if kind == 'bool':
        t = ctx.pick('TRUE', 'FALSE', 'true', 'false')
        return t, t.lower() == 'true', kind
    if kind == 'quoted':
        w = ' '.join(ctx.pick('a', 'b c', '#1', 'x=1', '5', 'http://host/p', 'it\'s', 'M//N', '[z]', '', 'true', '   pad ', 'p\tq', 'Ångström', '5\u2032', 'TRUE', 'FALSE', 'C:\\new\\tab', '\\\\host\\u00e9', 'C:\\', '$GPGGA', 'a = TRUE', '$HOME/log', '${PATH}', '%(g0)s') for _ in range(ctx.randint(1, 3)))
        return '"%s"' % w, w, kind
    if kind == 'empty':
        return '', '', kind
    w = ' '.join(ctx.pick(*WORDS) for _ in range(ctx.randint(1, 3)))
    if w.startswith('"') or w.count('"') % 2:
        w = 'w' + w.replace('"', '')
    try:
        float(w)
        w = 'v' + w
    except ValueError:
        pass
    if w.lower() in ('true', 'false'):
        w += 'x'
    return w, w, kind


def comment(ctx):
    return ctx.pick('//', '// ', '# ', '#') + ' '.join(ctx.pick('offset', 'in mGal', 'x = 3', '[old]', '5', 'see manual', 'g0=978', 'TRUE', 'was "old"', '$1', 'C:\\x', 'µGal', '± 1°', '#2', '// more', '//', '#', '; then') for _ in range(ctx.randint(0, 3)))


def build(ctx, numerals=False):
    lines, want, kinds, odd = [], {}, set(), {}
    here, used, sections = want, set(), set()
    for _ in range(ctx.randint(1, 25)):
        r = ctx.rng.random()
        if r < .1:
            lines.append(comment(ctx) if ctx.chance(.7) else ctx.pick('  ', '\t') + comment(ctx))
            kinds.add('comment')
        elif r < .2:
            lines.append(ctx.pick('', '', ' ', '\t'))
            kinds.add('blank')
        elif r < .3:
            s = ctx.pick('Sensor', 'GPS', 'Ports', 'log_1', 'Meter', 'TRUE_') + str(len(sections))
            sections.add(s)
            here, used = want.setdefault(s, {}), set()
            lines.append('[%s]' % s + ctx.pick('', '', ' ' + comment(ctx)))
            kinds.add('section')
        else:
            k = key(ctx, used)
            if numerals and ctx.chance(.5):
                t = ctx.pick('.5', '-.25', '5.', '007', '1.e3', '-3.', '00', '+.75', '.5e-3', '-007', '007.25', '1E5', 'NaN', 'Infinity', '-inf', '1e400')
                v, kind = float(t), 'numeral'
                odd[(id(here), k)] = t
            else:
                t, v, kind = value(ctx)
            eq = ctx.pick(' = ', '=', ' =', '= ', '\t=\t', ' =  ')
            c = ctx.pick('', '', ' ' + comment(ctx), '\t' + comment(ctx)) if kind != 'empty' else ''
            if kind in ('int', 'float', 'exp', 'bool') and ctx.chance(.15):
                c = comment(ctx)        # close to the number
            lines.append(ctx.pick('', '', '', '$') + k + eq + t + ctx.pick('', '', ' ') + c)
            here[k] = v
            kinds.add(kind)
            if c:
                kinds.add('trailing comment')
    return lines, want, kinds, odd


def parse(ctx, out):
    with open(out, 'rb') as f:
        raw = f.read().decode()
    return raw, tomli.loads(raw)


def convert(ctx, lines, numerals=False):
    name = ctx.pick('Meter.ini', 'm.ini', 'ini.ini', 'nini.ini', 'a.b.ini', 'old.ini.ini', 'DGS ini.ini', 'a.ini.b.ini', '-i.ini', 'toml.ini', 'm.toml.ini', 'i.ini', 'meter (1).ini', 'x.ni.ini')
    if ctx.chance(.2):
        d = ctx.path(ctx.pick('conf.ini', 'ini', 'conf.ini.d', 'm.toml'))
        os.makedirs(d, exist_ok=True)
        name = os.path.join(os.path.basename(d), name)
    text = '\n'.join(lines) + ctx.pick('\n', '')
    p = ctx.write(name, text.replace('\n', ctx.pick('\n', '\n', '\r\n')).encode())
    before = open(p, 'rb').read()
    ctx.inputs = {'name': name, 'text': text}
    out = ctx.call('utils.clean_ini_to_toml', p)
    ctx.same(out, p[:-3] + 'toml', 'path of the converted file')
    ctx.check(os.path.isfile(out), 'converted file does not exist')
    ctx.same(open(p, 'rb').read(), before, 'the ini file itself is changed')
    return out


def blanks(s):
    return re.sub(r'\s*\t\s*|\s\s+', ' ', s)


def equal(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and (a == b or type(a) is str and ('\t' in a or '\t' in b) and blanks(a) == blanks(b))
    return a == b or a != a and b != b


def config(ctx):
    lines, want, kinds, _ = build(ctx)
    out = convert(ctx, lines)
    raw = open(out, 'rb').read().decode()
    try:
        got = tomli.loads(raw)
    except tomli.TOMLDecodeError as e:
        ctx.check(False, 'the converted file is not toml: %s' % e, output=raw)
    ctx.check(equal(got, want), 'configuration after conversion', got=got, expected=want, output=raw)
    ctx.cover('config', tuple(sorted(kinds)))


def again(ctx):
    """Converting twice, and over an older longer result, gives the same file."""
    lines, want, kinds, _ = build(ctx)
    out = convert(ctx, lines)
    first = open(out, 'rb').read()
    with open(out, 'ab') as f:
        f.write(b'\nleft = 1\n' * 50)
    ctx.call('utils.clean_ini_to_toml', out[:-4] + 'ini')
    raw = open(out, 'rb').read()
    try:
        got = tomli.loads(raw.decode())
    except ValueError as e:      # covers TOMLDecodeError and UnicodeDecodeError
        ctx.check(False, 'the file converted again is not toml: %s' % e, output=raw.decode(errors='replace'))
    ctx.check(equal(got, want) and raw == first, 'converting again over an older result')
    ctx.cover('again', len(lines))


def numerals(ctx):
    lines, want, kinds, odd = build(ctx, numerals=True)
    out = convert(ctx, lines)
    raw = open(out, 'rb').read().decode()
    try:
        got = tomli.loads(raw)
    except tomli.TOMLDecodeError as e:
        ctx.check(False, 'the converted file is not toml: %s' % e, output=raw)
    ctx.check(equal(got, want), 'configuration after conversion', got=got, expected=want, output=raw)
    ctx.cover('numerals', tuple(sorted(set(odd.values()))))


GROUPS = [Group('config', config, 250, 5000), Group('again', again, 20, 200), Group('numerals', numerals, 30, 300)]
