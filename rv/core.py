"""Monitor core: drive the real code, record events at its public boundary, judge them.

A property module (rv/props/<id>.py) provides

    TITLE, RULE, ASSUMPTIONS, TARGETS
    GROUPS = [Group(name, fn, quick, thorough), ...]

``fn(ctx)`` runs one case.  It draws everything random from ``ctx.rng`` (derived from
VERIF_SEED, the property, the group and the case index, so that a case can be replayed
alone), calls the code under test through ``ctx.call('io.read_nav', ...)`` and judges what
came back with ``ctx.check`` / ``ctx.close`` / ``ctx.same``.

Verdicts are three-valued: exit 0 held on what was observed, exit 1 with a VIOLATION line,
exit 2 inconclusive (a target was never reached, the harness itself failed, time ran out
before every group ran).
"""
import contextlib
import hashlib
import importlib
import io as _io
import json
import math
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')


ODD_DIRS = ['AT50-12, leg 2', "o'b [x]", '50% #1', 'x.ini', 'a=b;c', '$HOME', '~', 'donn\u00e9es', 'a*b?', ' lead', 'trail ', '-v', 'c.toml', 'a\\b', 'http:',
            'log.gz', 'x.zip', '(1)', 'dat|x', '{y}', 'ini', '&', '"q"', 'NAV', 'a:b', 'tab\tname', '\u65e5\u672c', '!', '%s', '...', 'MGL.csv.d']
#: properties whose workload needs plain paths (shell payloads, processes with another file-system encoding)
PLAIN = ('C13', 'C14')


class Violation(Exception):
    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail or {}


class TargetRaised(Exception):
    """The code under test raised on an input for which it must not."""

    def __init__(self, fn, exc, tb):
        super().__init__('%s raised %s: %s' % (fn, type(exc).__name__, exc))
        self.fn, self.exc, self.tb = fn, exc, tb


class CaseTimeout(Exception):
    pass


class Group:
    def __init__(self, name, fn, quick, thorough, timeout=120):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.timeout = timeout


def jsonable(o, depth=0):
    import numpy as np
    import pandas as pd
    if depth > 6:
        return '...'
    if isinstance(o, (str, int, bool)) or o is None:
        return o if not isinstance(o, str) or len(o) < 4000 else o[:4000] + '...'
    if isinstance(o, float):
        return o if math.isfinite(o) else repr(o)
    if isinstance(o, complex):
        return repr(o)
    if isinstance(o, np.generic):
        return jsonable(o.item(), depth + 1)
    if isinstance(o, np.ndarray):
        if o.size > 24:
            return {'ndarray': list(o.shape), 'head': [jsonable(v, depth + 1) for v in o.ravel()[:24]]}
        return [jsonable(v, depth + 1) for v in o.ravel()]
    if isinstance(o, (pd.Series, pd.DataFrame)):
        return {'pandas': list(o.shape), 'head': o.head(4).to_string()}
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple)):
        out = [jsonable(v, depth + 1) for v in o[:24]]
        if len(o) > 24:
            out.append('... %d items' % len(o))
        return out
    return repr(o)[:400]


class Run:
    """State of one check run."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.calls = {}          # fn -> [returned, raised]
        self.checks = 0          # oracle judgements made
        self.signatures = set()  # distinct non-trivial cases
        self.cases = {}          # group -> cases run
        self.stats = {}
        self.samples = {}
        self.findings = {}       # key -> first witness
        self.violations = []
        self.lines = set()
        self.known = load_known(prop)


def load_known(prop):
    out = {}
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith('known: property=%s ' % prop):
                rest = ln.split(' ', 2)[2]
                assert rest.startswith('key=')
                key, _, text = rest[4:].partition(' ')
                out[key] = text
    return out


class Ctx:
    def __init__(self, run, group, idx):
        import numpy as np
        self.run, self.group, self.idx = run, group, idx
        h = int.from_bytes(hashlib.sha256(('%s/%s' % (run.prop, group)).encode()).digest()[:6], 'big')
        self.rng = np.random.default_rng(np.random.SeedSequence([run.seed, h, idx]))
        self.tier = run.tier
        self.events = []
        self._tmp = None
        self.inputs = {}
        self.said = ''

    # -- scratch -------------------------------------------------------
    @property
    def tmp(self):
        if self._tmp is None:
            self._base = tempfile.mkdtemp(prefix='rv_%s_' % self.run.prop)
            self._tmp = os.path.normpath(os.path.join(self._base, self.subdir()))
            os.makedirs(self._tmp, exist_ok=True)
        return self._tmp

    def subdir(self):
        """Now and then the files of a case lie in a directory with an awkward name."""
        h = hashlib.sha256(('%s/%s/%d/%d' % (self.run.prop, self.group, self.run.seed, self.idx)).encode()).digest()
        if self.run.prop in PLAIN or h[0] % 4:
            return '.'
        return ODD_DIRS[h[1] % len(ODD_DIRS)]

    def path(self, name):
        return os.path.join(self.tmp, name)

    def write(self, name, text, newline='\n'):
        p = self.path(name)
        with open(p, 'wb') as f:
            f.write(text.replace('\n', newline).encode('ascii') if isinstance(text, str) else text)
        return p

    def cleanup(self):
        if self._tmp:
            shutil.rmtree(self._base, ignore_errors=True)

    # -- events --------------------------------------------------------
    def fn(self, name):
        mod, f = name.split('.', 1)
        m = importlib.import_module('shipgrav.' + mod)
        for part in f.split('.'):
            m = getattr(m, part)
        return m

    def call(self, name, *a, **k):
        """Call the code under test; an exception is a violation unless `call_raw` is used."""
        ok, res = self.call_raw(name, *a, **k)
        if not ok:
            raise TargetRaised(name, res, self._tb)
        if name.startswith(('grav.', 'nav.')) and name != 'grav.crustal_thickness_2D':      # (its callers take np.real)
            for r in res if isinstance(res, tuple) else (res,):
                if getattr(getattr(r, 'dtype', None), 'kind', 'f') not in 'fiub':
                    raise Violation('%s returns numbers of type %s where real numbers are promised' % (name, r.dtype), {})
        return res

    def call_raw(self, name, *a, **k):
        return self.call_fn(name, self.fn(name), *a, **k)

    def call_fn(self, name, f, *a, **k):
        rec = self.run.calls.setdefault(name, [0, 0])
        buf = _io.StringIO()
        ev = {'fn': name, 'args': jsonable(list(a)), 'kw': jsonable(k)}
        self.events.append(ev)
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(buf), contextlib.redirect_stderr(_io.StringIO()):
                warnings.simplefilter('ignore')
                res = f(*a, **k)
        except CaseTimeout:
            raise
        except BaseException as e:  # noqa: the boundary event is what matters
            rec[1] += 1
            ev['raised'] = '%s: %s' % (type(e).__name__, e)
            self._tb = traceback.format_exc()
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            return False, e
        finally:
            self.said = buf.getvalue()
        rec[0] += 1
        ev['returned'] = jsonable(res)
        return True, res

    # -- judgements ----------------------------------------------------
    def check(self, cond, msg, **detail):
        self.run.checks += 1
        if not cond:
            raise Violation(msg, detail)

    def close(self, got, want, msg, rtol=1e-9, atol=0.0, **detail):
        """Elementwise |got-want| <= atol + rtol*max|want|-free comparison; NaN must match NaN."""
        import numpy as np
        self.run.checks += 1
        try:
            g = np.asarray(got)
            if g.dtype.kind in 'USc' or (g.dtype == object and any(isinstance(v, (str, bytes, complex)) for v in g.flat)):
                raise TypeError('text or complex numbers where real numbers are promised')
            g = np.asarray(got, dtype=float)
        except (TypeError, ValueError) as e:
            raise Violation(msg + ' (not numeric: %s)' % e, dict(detail, got=got))
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation(msg + ' (shape %s, expected %s)' % (g.shape, w.shape), detail)
        gn, wn = np.isnan(g), np.isnan(w)
        with np.errstate(all='ignore'):
            bad = (gn != wn) | (~gn & ~wn & ~((g == w) | (np.abs(g - w) <= atol + rtol * np.abs(w))))
        if np.any(bad):
            i = np.argwhere(bad)[0]
            i = tuple(int(v) for v in i)
            raise Violation(msg, dict(detail, n_bad=int(bad.sum()), index=list(i), got=float(g[i]), expected=float(w[i]),
                                      atol=float(np.max(atol)), rtol=rtol))

    def is_close(self, got, want, rtol=1e-9, atol=0.0):
        try:
            n = self.run.checks
            self.close(got, want, '', rtol, atol)
            return True
        except Violation:
            return False
        finally:
            self.run.checks = n

    def same(self, got, want, msg, **detail):
        self.run.checks += 1
        if not (got == want):
            raise Violation(msg, dict(detail, got=got, expected=want))

    def finding(self, key, msg, **detail):
        """Observed the exact signature of a defect. Listed: report it; not listed: a violation."""
        self.run.checks += 1
        if key in self.run.known:
            self.run.findings.setdefault(key, {'group': self.group, 'index': self.idx, 'what': msg,
                                               'detail': jsonable(detail)})
        else:
            raise Violation(msg, detail)

    def cover(self, *sig):
        """Signature of this (non-trivial) case; distinct signatures are counted."""
        self.run.signatures.add(hashlib.sha1(repr((self.group,) + sig).encode()).digest()[:8])
        self.run.samples.setdefault(self.group, jsonable(list(sig)))

    def count(self, name, n=1):
        self.run.stats[name] = self.run.stats.get(name, 0) + int(n)

    # -- random helpers ------------------------------------------------
    def pick(self, *opts):
        return opts[int(self.rng.integers(len(opts)))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def randint(self, lo, hi):
        """inclusive"""
        return int(self.rng.integers(lo, hi + 1))

    def uni(self, lo, hi):
        return float(self.rng.uniform(lo, hi))

    def loguni(self, lo, hi):
        return float(math.exp(self.rng.uniform(math.log(lo), math.log(hi))))


def _setup_target():
    sys.path.insert(0, REPO)
    import shipgrav
    import shipgrav.grav
    import shipgrav.io
    import shipgrav.nav
    import shipgrav.utils
    for m in (shipgrav, shipgrav.io, shipgrav.grav):
        if not os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + os.sep):
            print('INCONCLUSIVE: shipgrav imported from %s, not %s' % (m.__file__, REPO))
            sys.exit(2)
    return os.path.dirname(os.path.realpath(shipgrav.__file__))


def _line_monitor(run, pkgdir):
    """Record which lines of shipgrav the workload really executed (evidence only)."""
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    try:
        mon.use_tool_id(4, 'rv')
    except ValueError:
        return

    def line(code, lineno):
        fn = code.co_filename
        if fn.startswith(pkgdir):
            run.lines.add((os.path.basename(fn), lineno))
        return mon.DISABLE
    mon.register_callback(4, mon.events.LINE, line)
    for name in ('io', 'grav', 'nav', 'utils'):
        m = sys.modules['shipgrav.' + name]
        seen = set()

        def walk(co):
            if co in seen:
                return
            seen.add(co)
            mon.set_local_events(4, co, mon.events.LINE)
            for c in co.co_consts:
                if hasattr(c, 'co_code'):
                    walk(c)
        for v in list(vars(m).values()):
            if getattr(v, '__module__', None) != m.__name__:
                continue
            if hasattr(v, '__code__'):
                walk(v.__code__)
            elif isinstance(v, type):
                for w in vars(v).values():
                    if hasattr(w, '__code__'):
                        walk(w.__code__)


def _alarm(*_):
    raise CaseTimeout()


def run_case(run, group, idx):
    ctx = Ctx(run, group.name, idx)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(group.timeout)
    v = None
    try:
        group.fn(ctx)
    except Violation as e:
        v = {'what': e.msg, 'detail': jsonable(e.detail)}
    except TargetRaised as e:
        v = {'what': str(e), 'traceback': e.tb[-3000:]}
    finally:
        signal.alarm(0)
        ctx.cleanup()
    if v is not None:
        v.update(group=group.name, index=idx, seed=run.seed, tier=run.tier, property=run.prop,
                 inputs=jsonable(ctx.inputs), events=ctx.events[-6:])
    return v


def main(prop, argv):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = only = None
    while argv:
        a = argv.pop(0)
        if a == '--replay':
            replay = json.load(open(argv.pop(0)))
            tier, seed = replay['tier'], replay['seed']
        elif a == '--tier':
            tier = argv.pop(0)
        elif a == '--seed':
            seed = int(argv.pop(0))
        elif a == '--group':
            only = argv.pop(0)
    pkgdir = _setup_target()
    mod = importlib.import_module('rv.props.' + prop.lower())
    run = Run(prop, tier, seed)
    _line_monitor(run, pkgdir)
    budget = 420 if tier == 'quick' else 840
    budget = float(os.environ.get('RV_BUDGET', budget))
    inconclusive = []
    if replay:
        g = [g for g in mod.GROUPS if g.name == replay['group']][0]
        v = run_case(run, g, replay['index'])
        print(json.dumps(v, indent=1) if v else 'replay: no violation')
        return 1 if v else 0
    groups = [g for g in mod.GROUPS if only in (None, g.name)]
    plan = {g.name: (g.quick if tier == 'quick' else g.thorough) for g in groups}
    done = {g.name: 0 for g in groups}
    # one pass per group in rounds, so that running out of time thins every group alike
    rounds = 8
    for r in range(rounds):
        for g in groups:
            stop = math.ceil(plan[g.name] * (r + 1) / rounds)
            while done[g.name] < stop:
                if time.time() - t0 > budget:
                    break
                if len(run.violations) >= 5:
                    break
                i = done[g.name]
                done[g.name] += 1
                try:
                    v = run_case(run, g, i)
                except CaseTimeout:
                    inconclusive.append('case %s/%d timed out' % (g.name, i))
                    break
                except Exception:
                    inconclusive.append('harness error in %s/%d:\n%s' % (g.name, i, traceback.format_exc()))
                    break
                if v:
                    run.violations.append(v)
                    break
            if inconclusive:
                break
        if inconclusive or len(run.violations) >= 5:
            break
    run.cases = done
    if not run.violations and not inconclusive and only is None:
        for t in mod.TARGETS:
            if sum(run.calls.get(t, [0, 0])) == 0:
                inconclusive.append('%s was never called' % t)
        for g in groups:
            if done[g.name] < max(1, plan[g.name] // 8):
                inconclusive.append('group %s ran only %d of %d cases in %ds' % (g.name, done[g.name], plan[g.name], budget))
        if run.checks == 0:
            inconclusive.append('no oracle judgement was made')

    # evidence
    per_file = {}
    for f, _ in run.lines:
        per_file[f] = per_file.get(f, 0) + 1
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(done.values()),
            'distinct_nontrivial': len(run.signatures),
            'rule': mod.RULE,
            'samples': [{'group': k, 'case': v} for k, v in run.samples.items()] or ['none'],
            'cases_per_group': done,
            'oracle_judgements': run.checks,
            'boundary_events': {k: {'returned': v[0], 'raised': v[1]} for k, v in sorted(run.calls.items())},
            'observed': run.stats,
            'lines_of_shipgrav_executed': per_file,
            'known_findings_observed': run.findings,
            'inconclusive': inconclusive,
        },
        'assumptions': mod.ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(run.violations),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for key, w in run.findings.items():
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, run.known[key]))
    if run.violations:
        rdir = os.path.join(ROOT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for n, v in enumerate(run.violations):
            p = os.path.join(rdir, '%s_%s_%s_%d.json' % (prop, tier, v['group'], v['index']))
            with open(p, 'w') as f:
                json.dump(v, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, p))
            print('  %s/%d: %s' % (v['group'], v['index'], v['what']))
            if v.get('detail'):
                print('  ' + json.dumps(v['detail'])[:600])
        return 1
    if inconclusive:
        for s in inconclusive:
            print('INCONCLUSIVE: ' + s)
        return 2
    print('OK property=%s tier=%s seed=%d: held on %d cases (%d distinct), %d judgements, %d calls, %.1fs' % (
        prop, tier, seed, sum(done.values()), len(run.signatures), run.checks,
        sum(sum(v) for v in run.calls.values()), time.time() - t0))
    return 0
