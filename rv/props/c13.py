"""Reading data files changes nothing else."""
import gc
import os

import numpy as np

from .. import jobs, watch
from ..core import REPO, Group

RULE = ('One case = one round of every reader over generated files, watched for writes, processes, sockets and changes of process state: well-formed, '
        'damaged, hostile or missing files. Non-trivial: at least one call that opened a file; signature: group, reader, outcome, kind of damage.')
ASSUMPTIONS = ['Progress bars are off (they print by design).', 'A first, unwatched call loads what the libraries load lazily (the first call of a process is watched for settings only).',
               'The ini converter may write in the directory of the ini file (its converted file, or a temporary one that it removes).',
               'Hostile files can at worst create a marker in the scratch directory of the case.']
TARGETS = ['io.read_nav', 'io.read_bgm_raw', 'io.read_bgm_rgs', 'io.read_dgs_laptop', 'io.read_dgs_raw', 'io.read_other_stuff', 'utils.clean_ini_to_toml']
_warm = set()
PKG = os.path.join(os.path.realpath(REPO), 'shipgrav')


def warm(ctx):
    """Once per process: let the libraries do their lazy loading."""
    if _warm:
        return
    for _ in range(2):
        for j in jobs.reader_jobs(ctx):
            a, k = j.fresh()
            ctx.call_raw(j.fn, *a, **k)
        ctx.call_raw('utils.clean_ini_to_toml', jobs.ini_file(ctx, 'warm'))
        ctx.call_raw('io.read_nav', 'Atlantis', ctx.path('nothing'), progressbar=False)
    gc.freeze()         # what is loaded by now need not be searched at every call
    _warm.add(1)


def watched(ctx, fn, args, kw, allow=None):
    """Call, then compare the world before and after. Returns (ok, result)."""
    here = os.getcwd()
    os.makedirs(ctx.path('cwd'), exist_ok=True)
    os.chdir(ctx.path('cwd'))
    try:
        np.random.seed(ctx.randint(0, 10 ** 6))
        f0, s0 = dict(watch.tree(ctx.tmp), **watch.tree(PKG, digest=False)), watch.state()
        with watch.Watch() as w:
            ok, res = ctx.call_raw(fn, *args, **kw)
        if not ok:
            res = repr(res)         # drop the traceback and what it keeps alive
            ctx.events[-1].pop('returned', None)
        s1, f1 = watch.state(), dict(watch.tree(ctx.tmp), **watch.tree(PKG, digest=False))
    finally:
        os.chdir(here)
    for ev, what in w.events:
        if allow and ev == 'write' and os.path.dirname(os.path.abspath(what)) == os.path.dirname(allow):
            continue
        if allow and ev in ('os.rename', 'os.remove', 'os.chmod', 'os.utime', 'tempfile.mkstemp', 'shutil.move', 'shutil.copymode') and os.path.dirname(allow) in what:
            continue
        ctx.check(False, '%s does more than read: %s %s' % (fn, ev, what))
    ctx.run.checks += 1
    diff = sorted(p for p in set(f0) | set(f1) if f0.get(p) != f1.get(p) and p != allow)
    ctx.check(not diff, '%s changes files' % fn, files=diff[:5], gone=[p for p in diff if p not in f1][:5])
    ch = watch.changed(s0, s1)
    ctx.check(not ch, '%s changes the state of the process: %s' % (fn, ', '.join(ch)), changes=ch)
    ctx.count('audit_events_seen', w.seen)
    ctx.count('watched_calls')
    ctx.count('watched_calls_that_raised', not ok)
    return ok, res


def plain(ctx):
    warm(ctx)
    for j in jobs.reader_jobs(ctx):
        a, k = j.fresh()
        ok, res = watched(ctx, j.fn, a, k)
        ctx.check(ok, 'reading a well-formed file fails', raised=res, job=j.label)
        ctx.cover('plain', j.label)


def ini(ctx):
    warm(ctx)
    p = jobs.ini_file(ctx, ctx.pick('meter', 'a.b', 'ini'))
    for i in range(3):
        ctx.write('other%d.toml' % i, 'x = 1\n')
    if ctx.chance(.3):
        ctx.call('utils.clean_ini_to_toml', p)
    ok, out = watched(ctx, 'utils.clean_ini_to_toml', (p,), {}, allow=p[:-3] + 'toml')
    ctx.check(ok and os.path.isfile(p[:-3] + 'toml'), 'converted file', raised=out)
    ctx.cover('ini', os.path.basename(p))


def damage(ctx, p):
    kind = ctx.pick('empty', 'cut', 'junk', 'binary', 'missing', 'directory', 'blank', 'utf16', 'ragged', 'ragged')
    data = open(p, 'rb').read()
    if kind == 'ragged':        # many lines, most of them not what they should be
        lines = [x for x in data.split(b'\n') if x] or [b'']
        bad = []
        for _ in range(ctx.pick(5, 40)):
            x = lines[ctx.randint(0, len(lines) - 1)]
            if ctx.chance(.6):
                x = [x[:ctx.randint(0, len(x))], x + b',', x + x, x[1:], x.replace(b',', b',,', 1), x.replace(b',', b' ')][ctx.randint(0, 5)]
            bad.append(x)
        data = b'\n'.join(bad) + b'\n'
    if kind == 'empty':
        data = b''
    elif kind == 'cut':
        data = data[:ctx.randint(0, len(data))]
    elif kind == 'junk':
        data = b'\n'.join(bytes(ctx.rng.integers(32, 127, 60).astype(np.uint8)) for _ in range(5))
    elif kind == 'binary':
        data = bytes(ctx.rng.integers(0, 256, 500).astype(np.uint8))
    elif kind == 'blank':
        data = b'\n\n  \n'
    elif kind == 'utf16':
        data = data.decode('latin-1').encode('utf-16')
    os.remove(p)
    if kind == 'directory':
        os.mkdir(p)
    elif kind != 'missing':
        with open(p, 'wb') as f:
            f.write(data)
    return kind


def damaged(ctx):
    """Whatever becomes of the read, nothing else happens and no file stays open."""
    warm(ctx)
    for j in jobs.reader_jobs(ctx):
        a, k = j.fresh()
        files = [x for y in a for x in (y if isinstance(y, list) else [y]) if isinstance(x, str) and os.path.isfile(x)]
        kind = damage(ctx, files[ctx.randint(0, len(files) - 1)])
        ok, _ = watched(ctx, j.fn, a, k)
        ctx.cover('damaged', j.label, kind, ok)
    p = jobs.ini_file(ctx, 'bad')
    kind = damage(ctx, p)
    ok, _ = watched(ctx, 'utils.clean_ini_to_toml', (p,), {}, allow=p[:-3] + 'toml')
    ctx.cover('damaged ini', kind, ok)


def payloads(marker):
    cmd = 'touch %s' % marker
    py = "__import__('os').system('%s')" % cmd
    return [py, "eval(\"%s\")" % py.replace('"', ''), '$(%s)' % cmd, '`%s`' % cmd, '| %s' % cmd, "@%s" % py, '=cmd|%s' % cmd, "{%s}" % py, '; %s ;' % cmd,
            "open('%s','w')" % marker]


def yamls(marker):
    cmd = 'touch %s' % marker
    return ['!!python/object/apply:os.system ["%s"]' % cmd, '!!python/object/apply:subprocess.check_output [["touch", "%s"]]' % marker,
            '!!python/object/apply:builtins.open ["%s", "w"]' % marker, '!!python/object/new:os.system ["%s"]' % cmd,
            '!!python/object/apply:builtins.eval ["open(\'%s\', \'w\')"]' % marker, '!!python/object/apply:os.mkdir ["%s"]' % marker]


def hostile(ctx):
    """Code in the data is never run."""
    warm(ctx)
    marker = ctx.path('marker')
    pay = payloads(marker)
    for j in jobs.reader_jobs(ctx):
        a, k = j.fresh()
        files = [x for y in a for x in (y if isinstance(y, list) else [y]) if isinstance(x, str) and os.path.isfile(x) and not x.endswith('.yaml')]
        for p in files:
            lines = open(p, 'rb').read().decode('latin-1').split('\n')
            i = ctx.randint(0, len(lines) - 1)
            sep = ctx.pick(',', ' ', '\t')
            f = lines[i].split(sep)
            f[ctx.randint(0, len(f) - 1)] = pay[ctx.randint(0, len(pay) - 1)]
            lines[i] = sep.join(f)
            with open(p, 'wb') as g:
                g.write('\n'.join(lines).encode('latin-1'))
        ok, _ = watched(ctx, j.fn, a, k)
        ctx.check(not os.path.exists(marker), 'code found in a data file was executed', job=j.label)
        ctx.cover('hostile', j.label, ok)
    # feed descriptions
    y, d = jobs.feed_files(ctx, 'evil')
    bad = yamls(marker)[ctx.idx % 6]
    text = open(y).read()
    text = ctx.pick(text + '  extra: %s\n' % bad, 'Zed: %s\n' % bad + text, text.replace('units: m', 'units: %s' % bad), bad + '\n')
    with open(y, 'w') as g:
        g.write(text)
    ok, _ = watched(ctx, 'io.read_other_stuff', (y, d, 'PASHR'), {})
    ctx.check(not os.path.exists(marker), 'code found in a feed description was executed', text=text)
    # meter configuration
    p = ctx.write('evil.ini', '[A]\nx = %s\n%s\n[%s]\ny = "%s"\n' % tuple([pay[ctx.randint(0, len(pay) - 1)].replace('"', "'") for _ in range(4)]))
    watched(ctx, 'utils.clean_ini_to_toml', (p,), {}, allow=p[:-3] + 'toml')
    ctx.check(not os.path.exists(marker), 'code found in an ini file was executed')
    ctx.cover('hostile other', ok, ctx.idx % 6)


def first(ctx):
    """A process that has never read anything: its first read changes nothing either."""
    js = jobs.reader_jobs(ctx)
    js.append(jobs.Job('ini', 'utils.clean_ini_to_toml', jobs.ini_file(ctx, 'first')))
    js.append(jobs.Job('missing', 'io.read_nav', 'Atlantis', ctx.path('nothing'), progressbar=False))
    jobs.first_call(ctx, js)


def selftest(ctx):
    """The monitor itself sees what it must see (in the scratch directory)."""
    p = ctx.path('self')
    with watch.Watch() as w:
        with open(p, 'w'):
            pass
        os.rename(p, p + '2')
        os.remove(p + '2')
    assert [e for e, _ in w.events] == ['write', 'os.rename', 'os.remove'], 'audit hook is blind: %r' % (w.events,)
    ctx.cover('selftest')


GROUPS = [Group('first', first, 2, 10), Group('selftest', selftest, 1, 1), Group('plain', plain, 40, 500), Group('ini', ini, 20, 150), Group('damaged', damaged, 50, 700),
          Group('hostile', hostile, 60, 800)]
