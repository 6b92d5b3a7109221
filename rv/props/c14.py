"""Results do not depend on the computer the data are processed on."""
import os
import pickle
import re
import shutil
import subprocess
import sys

from .. import envchild, gen, jobs, navtools
from ..core import REPO, ROOT, Group

RULE = ('One case = a batch of calls of every reader and calculation over generated inputs, replayed in eight child processes that differ in time zone, locale, '
        'directory (with a decoy of the shipped settings in it), hash seed, optimisation and environment. Non-trivial: every job; signature: variant and job.')
ASSUMPTIONS = ['Records are ASCII, descriptions and configuration files UTF-8. Locales are those installed here (C, POSIX, C.UTF-8). Refusals by assertion are left out (they vanish under -O by design of Python).',
               'Values agree to 1e-11 of the largest of their series (1e-6 for regression parameters).']
TARGETS = ['batch of all readers and calculations in a child process']
PY = sys.executable


def variants(ctx):
    """(name, python flags, environment changes, directory, path mode, package)"""
    z = ctx.pick('Pacific/Auckland', 'America/St_Johns', 'Asia/Kathmandu', 'Pacific/Kiritimati', 'America/Los_Angeles', 'Antarctica/Troll')
    deep = ctx.path('deep/er dir')
    os.makedirs(deep, exist_ok=True)
    with open(os.path.join(REPO, 'shipgrav', 'database.toml')) as f:        # a file of that name that is none of ours
        text = re.sub(r"= *'\w+'", "= 'XXXXX'", re.sub(r'= *-?[\d.]+', '=1.5', f.read()))
    for n in ('database.toml', '.shipgrav.toml', 'shipgrav.toml'):
        with open(os.path.join(deep, n), 'w') as f:
            f.write(text)
    moved = ctx.path('other place')
    if not os.path.isdir(moved):
        shutil.copytree(os.path.join(REPO, 'shipgrav'), os.path.join(moved, 'shipgrav'), ignore=shutil.ignore_patterns('tests', '__pycache__'))
    return [('zone ' + z, [], {'TZ': z}, '/', 'abs', REPO),
            ('zone and locale', [], {'TZ': ctx.pick('EST5EDT', 'AAA-13:37', 'Europe/London', 'Australia/Lord_Howe'), 'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'}, ctx.tmp, 'rel', REPO),
            ('relative paths', [], {'LC_ALL': 'POSIX', 'LANG': 'tr_TR.UTF-8'}, deep, 'rel', REPO),
            ('hash seed', [], {'PYTHONHASHSEED': str(ctx.randint(1, 4000000000))}, deep, 'abs', REPO),
            ('optimised', [ctx.pick('-O', '-OO')], {'PYTHONHASHSEED': '1'}, ctx.tmp, 'rel', REPO),
            ('bare environment', [], None, '/', 'abs', REPO),
            ('other installation', [], {'TZ': z, 'HOME': deep, 'TERM': 'dumb', 'COLUMNS': '20', 'PYTHONHASHSEED': 'random'}, deep, 'rel', moved),
            ('threads and utf8 mode', ['-X', 'utf8'], {'OMP_NUM_THREADS': '4', 'OPENBLAS_NUM_THREADS': '4', 'PYTHONDEVMODE': '1', 'LC_ALL': 'C.UTF-8', 'LC_NUMERIC': 'de_DE.UTF-8'}, ctx.tmp, 'abs', REPO)]


def batch(ctx):
    js = []
    for rnd in range(4):
        sub = Sub(ctx, 'r%d_' % rnd)
        js += jobs.reader_jobs(sub) + jobs.calc_jobs(ctx)
        js.append(jobs.Job('ini', 'utils.clean_ini_to_toml', jobs.ini_file(sub, 'm')))
        if rnd == 2:        # text that is not ASCII
            js.append(jobs.Job('ini text', 'utils.clean_ini_to_toml', jobs.ini_file(sub, 'u', ctx.pick('\u00b5Gal', '\u00b1 1\u00b0'), ctx.pick('S\u00f8r', 'Institut f\u00fcr', '\u6d77'))))
            y, d = jobs.feed_files(sub, 'u', ctx.pick('\u00b0', 'deg \u2032'), ctx.pick('roulis \u00e0 b\u00e2bord', '\u6d77'))
            js.append(jobs.Job('feed text', 'io.read_other_stuff', y, d, 'PASHR'))
        for kind in jobs.READERS[1:]:
            for s in jobs.grav_ships(kind):
                if rnd == 0:
                    p = jobs.grav_file(sub, kind, s if kind != 'raw' else None, 'x%s%s' % (kind, s), layout=s)
                    js.append(jobs.Job('%s %s' % (kind, s), jobs.grav_reader(kind), p, s if kind != 'raw' else jobs.raw_ship(ctx, s), progressbar=False))
        if rnd == 1:
            for s, t in navtools.VARIANTS:
                js.append(jobs.Job('nav ' + s, 'io.read_nav', s, jobs.nav_file(sub, s, t, 'y%s%s' % (s, t)), progressbar=False, **({'talker': t} if t else {})))
    todo = [(j.fn, j.args, j.kw) for j in js]
    src = ctx.path('jobs.pkl')
    with open(src, 'wb') as f:
        pickle.dump(todo, f)
    with open(src, 'rb') as f:
        mine = pickle.load(f)
    base = envchild.run(mine, 'abs', ctx.tmp, ctx.tmp)
    for j, b in zip(js, base):
        ctx.check(not (isinstance(b, str) and b.startswith('raised')), 'well-formed job fails', job=j.label, got=b)
    procs = []
    for n, (name, flags, env, cwd, mode, pkg) in enumerate(variants(ctx)):
        keep = {'PYTHONPYCACHEPREFIX': os.environ.get('PYTHONPYCACHEPREFIX', ''), 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}
        e = dict(keep) if env is None else dict(os.environ, **keep)
        for k, v in (env or {}).items():
            e.pop(k, None)
            if v is not None:
                e[k] = v
        dst = ctx.path('res%d.pkl' % n)
        cmd = [PY, '-B', '-W', 'ignore'] + flags + [os.path.join(ROOT, 'rv', 'envchild.py'), src, dst, ctx.tmp, mode, pkg]
        procs.append((name, dst, subprocess.Popen(cmd, env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    fails = []
    for name, dst, p in procs:
        err = p.communicate()[1].decode(errors='replace')
        if p.returncode < 0:
            raise RuntimeError('child process killed by signal %d' % -p.returncode)
        if p.returncode or not os.path.exists(dst):
            fails.append((name, err[-1500:]))
    for name, err in fails:
        # the jobs catch their own exceptions: a child that dies could not even import the package there
        ctx.check(False, 'shipgrav cannot be used in another environment (%s)' % name, stderr=err)
    rec = ctx.run.calls.setdefault(TARGETS[0], [0, 0])
    for name, dst, _ in procs:
        with open(dst, 'rb') as f:
            got = pickle.load(f)
        assert len(got) == len(base)
        for j, b, g in zip(js, base, got):
            rec[0] += 1
            d = jobs.differ(b, g, jobs.tolerance(j.label))
            ctx.check(d is None, '%s depends on the environment (%s)' % (j.fn, name), job=j.label, difference=d, baseline_against='variant')
            ctx.cover(name.split(' ')[0], j.label)
        ctx.count('child_processes')
    ctx.count('results_compared', len(js) * len(procs))


class Sub:
    """ctx with a prefix for file names."""

    def __init__(self, ctx, prefix):
        self._c, self._p = ctx, prefix

    def __getattr__(self, k):
        return getattr(self._c, k)

    def write(self, name, *a, **k):
        return self._c.write(self._p + name, *a, **k)

    def path(self, name):
        return self._c.path(self._p + name)


GROUPS = [Group('batch', batch, 5, 60, timeout=300)]
