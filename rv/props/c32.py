"""Calculations and readers are pure: repeatable, independent of history and of other threads."""
import copy
import os
import pickle
import random
import subprocess
import sys
import threading
import time

import numpy as np
import pandas as pd

from .. import jobs, watch
from ..core import REPO, ROOT, Group
from .c14 import Sub

RULE = ('One case = one set of calls of every calculation and reader: twice with the first result destroyed in between; in random orders and repeats '
        'against each run alone in a pristine process; with read-only arrays; from files or arrays whose content changed since the last call; or from up to eight threads with '
        'switches forced inside the package; or from two or three threads scheduled line by line (or bytecode by bytecode). Non-trivial: every call; signature: group, function, neighbours in the history or concurrently active function.')
ASSUMPTIONS = ['Platform vectors and tables of status words are cleaned or extended in place by design: their arguments are given afresh.',
               'Results agree to 1e-11 of the largest of their series (1e-6 for regression parameters).', 'Progress bars are off in threads.']
TARGETS = ['pristine process', 'thread']


def pool(ctx, rounds, ini=False):
    js = []
    for r in range(rounds):
        sub = Sub(ctx, 'p%d_' % r)
        js += jobs.calc_jobs(ctx) + jobs.reader_jobs(sub)
    return js


def equal(ctx, label, got, want, msg, **d):
    diff = jobs.differ(want, got, jobs.tolerance(label))
    ctx.check(diff is None, msg, job=label, difference=diff, **d)


def destroy(o):
    """Overwrite a result in every way its owner could."""
    if isinstance(o, np.ndarray):
        if o.flags.writeable:
            o[...] = o.dtype.type(7) if o.dtype.kind in 'fiuc' else o
    elif isinstance(o, pd.DataFrame):
        for c in list(o.columns):
            o[c] = 7
        o.columns = ['x%d' % i for i in range(o.shape[1])]
    elif isinstance(o, pd.Series):
        o.iloc[:] = o.iloc[0] if len(o) else o
    elif isinstance(o, dict):
        for v in o.values():
            destroy(v)
        o.clear()
    elif isinstance(o, list):
        o.clear()
    elif isinstance(o, tuple):
        for v in o:
            destroy(v)


def twice(ctx):
    """Arguments unchanged, process unchanged, repeatable, results independent of each other."""
    for j in pool(ctx, 1):
        a, k = j.fresh()
        before = jobs.normalise([a, k])
        s0 = watch.state()
        with watch.Watch() as w:
            r1 = ctx.call(j.fn, *a, **k)
        if hasattr(ctx, '_w'):              # the first case loads what libraries load lazily
            ch = watch.changed(s0, watch.state())
            ctx.check(not ch and not w.events, '%s changes the state of the process' % j.fn, changes=ch, events=w.events)
        if j.label not in jobs.IN_PLACE:
            d = jobs.differ(before, jobs.normalise([a, k]), 0.)
            ctx.check(d is None, '%s changes its arguments' % j.fn, difference=d)
        n1 = jobs.normalise(r1)
        a2, k2 = j.fresh()
        r2 = ctx.call(j.fn, *a2, **k2)
        equal(ctx, j.label, jobs.normalise(r1), n1, '%s: an earlier result is changed by a later call' % j.fn)
        n2 = jobs.normalise(r2)
        equal(ctx, j.label, n2, n1, '%s: the same call gives another result' % j.fn)
        destroy(r1)
        equal(ctx, j.label, jobs.normalise(r2), n2, '%s: changing one result changes another' % j.fn)
        a3, k3 = j.fresh()
        equal(ctx, j.label, jobs.normalise(ctx.call(j.fn, *a3, **k3)), n1, '%s: changing an earlier result changes later ones' % j.fn)
        ctx.cover('twice', j.label)


def state_group(ctx):
    ctx._w = True
    if ctx.idx == 0:
        for j in pool(ctx, 1):
            a, k = j.fresh()
            ctx.call(j.fn, *a, **k)
    twice(ctx)


def freeze(x):
    """The same argument with every array in it read-only."""
    if isinstance(x, np.ndarray):
        x = x.copy()
        x.flags.writeable = False
        return x
    if isinstance(x, list) and any(isinstance(v, np.ndarray) for v in x):
        return [freeze(v) for v in x]
    return x


def frozen(ctx):
    """Arrays nobody may write to (columns of a table under copy-on-write) give the same results."""
    for j in jobs.calc_jobs(ctx):
        if j.label in jobs.IN_PLACE:
            continue
        a, k = j.fresh()
        want = jobs.normalise(ctx.call(j.fn, *a, **k))
        a, k = j.fresh()
        got = ctx.call(j.fn, *[freeze(x) for x in a], **{n: freeze(x) for n, x in k.items()})
        equal(ctx, j.label, jobs.normalise(got), want, '%s: read-only arrays give another result' % j.fn)
        ctx.cover('frozen', j.label)


def first(ctx):
    jobs.first_call(ctx, pool(ctx, 1))


BAD = [('grav.longman_tide_prediction', (np.zeros(3), np.zeros(2), []), {}), ('nav.latlon_to_EN', (np.zeros(3), np.zeros(5)), {}),
       ('utils.decode_dgs_status_bits', ('x',), {}), ('io.read_nav', ('Titanic', ['nowhere']), {}), ('io.read_bgm_raw', ('nowhere', 'Atlantis'), {}),
       ('io.read_dgs_laptop', ('nowhere', 'Thompson'), {}), ('io.read_other_stuff', ('nowhere', 'nowhere', 'X'), {}), ('grav.center_diff', (np.zeros(5), 3, 1), {}),
       ('grav.grav2d_folding', (np.zeros(3), np.zeros(3), np.zeros((2, 5)), 1., 1.), {}), ('io.read_bgm_raw', ('nowhere', 'Nobody'), {})]


def pristine(ctx, js):
    src, dst = ctx.path('jobs.pkl'), ctx.path('alone.pkl')
    with open(src, 'wb') as f:
        pickle.dump([(j.fn, j.args, j.kw) for j in js], f)
    env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    p = subprocess.run([sys.executable, '-B', '-W', 'ignore', os.path.join(ROOT, 'rv', 'histchild.py'), src, dst, REPO], env=env, capture_output=True)
    if p.returncode:
        raise RuntimeError('pristine process failed: ' + p.stderr.decode(errors='replace')[-1500:])
    with open(dst, 'rb') as f:
        out = pickle.load(f)
    rec = ctx.run.calls.setdefault('pristine process', [0, 0])
    for j, o in zip(js, out):
        rec[0] += 1
        ctx.check(not (isinstance(o, str) and o.startswith('raised')), 'well-formed job fails', job=j.label, got=o)
    return out


def histories(ctx):
    """Random orders and repeats, failing calls in between, against each call alone in a fresh process."""
    js = pool(ctx, 2)
    js += [jobs.variant(j, ctx.rng) for j in js if not j.fn.startswith('io.')] + jobs.reader_jobs(Sub(ctx, 'q_'))
    alone = pristine(ctx, js)
    order = [int(i) for i in ctx.rng.integers(0, len(js), 3 * len(js))] + [int(i) for i in ctx.rng.permutation(len(js))]
    prev, errors, kept = None, 0, []
    for i in order:
        if ctx.chance(.08):
            fn, a, k = BAD[ctx.randint(0, len(BAD) - 1)]
            ctx.call_raw(fn, *copy.deepcopy(a), **dict(k, **({'progressbar': False} if 'read_' in fn and 'other' not in fn else {})))
            errors += 1
        j = js[i]
        a, k = j.fresh()
        res = ctx.call(j.fn, *a, **k)
        equal(ctx, j.label, jobs.normalise(res), alone[i], '%s gives another result after other calls' % j.fn, previous=prev)
        if len(kept) < 25:
            kept.append((j, res, alone[i]))
        ctx.cover('history', j.label.split(' ')[0], (prev or '').split(' ')[0])
        prev = j.label
    for j, res, want in kept:
        equal(ctx, j.label, jobs.normalise(res), want, '%s: an earlier result is changed by later calls' % j.fn)
    ctx.count('history_steps', len(order))
    ctx.count('failing_calls_in_histories', errors)


def changed_input(ctx):
    """The same file name, or the same array object, with new content is read afresh."""
    for r in range(2):
        for j in jobs.reader_jobs(Sub(ctx, 'f%d_' % r)):
            if j.fn in ('io.read_other_stuff',):
                continue
            at = [i for i, x in enumerate(j.args) if isinstance(x, list) or (isinstance(x, str) and os.path.isfile(x))][0]
            paths = j.args[at] if isinstance(j.args[at], list) else [j.args[at]]
            p = paths[0]
            old = open(p, 'rb').read()
            lines = [x for x in old.split(b'\n') if x]
            if len(lines) < 22:
                lines = lines + lines[-1:]
            new = b'\n'.join([x for x in lines[:-1]]) + b'\n' if ctx.chance(.5) else bump(old)
            twin = p + '.twin'
            with open(twin, 'wb') as f:
                f.write(new)
            st = os.stat(p)
            a, k = j.fresh()
            first = jobs.normalise(ctx.call(j.fn, *a, **k))
            same_size = len(new) == len(old)
            with open(p, 'r+b') as f:       # same inode
                f.truncate()
                f.write(new)
            if ctx.chance(.7):
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
            ok1, now = ctx.call_raw(j.fn, *a, **k)
            a2 = list(a)
            a2[at] = [twin if x == p else x for x in paths] if isinstance(a[at], list) else twin
            ok2, want = ctx.call_raw(j.fn, *a2, **k)
            ctx.check(ok1 == ok2, '%s: a rewritten file is not read afresh' % j.fn, raised=[repr(now), repr(want)])
            if ok1:
                equal(ctx, j.label, jobs.normalise(now), jobs.normalise(want), '%s: a rewritten file is not read afresh' % j.fn, same_size=same_size)
            ctx.cover('rewritten', j.label, same_size, first == jobs.normalise(now))
    for j in jobs.calc_jobs(ctx):
        a, k = j.fresh()
        arrs = [x for x in a if isinstance(x, np.ndarray) and x.size > 1 and x.dtype.kind == 'f']
        if not arrs or j.label in jobs.IN_PLACE:
            continue
        ctx.call(j.fn, *a, **k)
        x = arrs[ctx.randint(0, len(arrs) - 1)]
        i = ctx.randint(0, x.size - 1)
        x.flat[i] = x.flat[i] * 1.001 + 1e-6 * np.max(np.abs(x))
        b = copy.deepcopy(a)
        equal(ctx, j.label, jobs.normalise(ctx.call(j.fn, *a, **k)), jobs.normalise(ctx.call(j.fn, *b, **k)), '%s: an array changed in place is not used afresh' % j.fn)
        ctx.cover('in place', j.label)


def bump(data):
    """Same length, one digit of the last line changed (towards the middle: a field, not a stamp)."""
    head, _, last = data.rstrip(b'\n').rpartition(b'\n')
    b = bytearray(last)
    dots = [i for i in range(len(b) - 1) if b[i:i + 1] == b'.' and b[i + 1:i + 2].isdigit()]
    i = (dots[len(dots) // 2] + 1) if dots else None
    if i is not None:
        b[i] = ord(b'0') + (b[i] - ord(b'0') + 3) % 10
    return head + (b'\n' if head else b'') + bytes(b) + b'\n'


# ------------------------------------------------------------- threads

PKG = os.path.join(os.path.realpath(REPO), 'shipgrav') + os.sep


def tracer(rnd, p):
    def local(frame, event, arg):
        if rnd.random() < p:
            time.sleep(0 if rnd.random() < .9 else 2e-4)
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PKG) else None
    return glob


def threads(ctx):
    """Many threads at once, each its own random history."""
    js = pool(ctx, 2)
    expect = []
    for j in js:
        a, k = j.fresh()
        expect.append(jobs.normalise(ctx.call(j.fn, *a, **k)))
    nt = ctx.pick(2, 4, 8)
    per = 24 if ctx.tier == 'quick' else 60
    if ctx.chance(.5):      # many threads in one function at a time
        fns = sorted(set(j.fn for j in js))
        focus = [fns[int(i)] for i in ctx.rng.integers(0, len(fns), per)]
        plan = [[ctx.pick(*[i for i, j in enumerate(js) if j.fn == f]) for f in focus] for _ in range(nt)]
    else:
        plan = [[int(i) for i in ctx.rng.integers(0, len(js), per)] for _ in range(nt)]
    seeds = [int(s) for s in ctx.rng.integers(0, 2 ** 31, nt)]
    slow = ctx.pick(0., .02, .1)
    fns = {j.fn: ctx.fn(j.fn) for j in js}
    lock, active, overlaps, bad = threading.Lock(), {}, {}, []
    barrier = threading.Barrier(nt)

    def work(me):
        rnd = random.Random(seeds[me])
        barrier.wait()
        for i in plan[me]:
            j = js[i]
            a, k = j.fresh()
            with lock:
                for other in active.values():
                    key = tuple(sorted((j.fn, other)))
                    overlaps[key] = overlaps.get(key, 0) + 1
                active[me] = j.fn
            if slow:
                sys.settrace(tracer(rnd, slow))
            try:
                res = fns[j.fn](*a, **k)
                sys.settrace(None)
                d = jobs.differ(expect[i], jobs.normalise(res), jobs.tolerance(j.label))
                if d:
                    bad.append((j.label, j.fn, d))
            except Exception as e:
                sys.settrace(None)
                bad.append((j.label, j.fn, 'raised %s: %s' % (type(e).__name__, e)))
            with lock:
                active.pop(me, None)
            if bad:
                return
    old = sys.getswitchinterval()
    sys.setswitchinterval(ctx.pick(1e-6, 1e-5, 1e-4))
    try:
        ts = [threading.Thread(target=work, args=(m,), daemon=True) for m in range(nt)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    rec = ctx.run.calls.setdefault('thread', [0, 0])
    rec[0] += sum(len(p) for p in plan)
    ctx.check(not bad, '%s gives another result when other threads are at work' % (bad[0][1] if bad else ''), first=bad[:3], threads=nt)
    for key, n in overlaps.items():
        ctx.cover('overlap', key)
    ctx.count('calls_from_threads', sum(len(p) for p in plan))
    ctx.count('overlapping_calls', sum(overlaps.values()))
    ctx.count('overlaps_within_one_function', sum(n for (a, b), n in overlaps.items() if a == b))


class Baton:
    """Lets one thread run at a time and decides, line by line of the package, who runs next."""

    def __init__(self, n, rnd, pause=None, p=0.):
        self.cond, self.holder, self.alive, self.steps, self.rnd = threading.Condition(), 0, set(range(n)), 0, rnd
        self.pause, self.p, self.lines, self.switches, self.stolen, self.where = pause, p, [0] * n, 0, 0, None

    def wait(self, me):
        seen = -1
        with self.cond:
            while self.holder != me:
                if not self.cond.wait(.5) and seen == self.steps:
                    self.holder = me          # whoever has the baton waits for something a waiting thread holds
                    self.stolen += 1
                seen = self.steps

    def give(self, me, to):
        with self.cond:
            self.holder = to
            self.switches += 1
            self.cond.notify_all()

    def tick(self, me, frame):
        self.steps += 1
        self.lines[me] += 1
        if self.pause is not None:
            if me == 0 and self.lines[0] == self.pause and 1 in self.alive:
                self.where = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno)
                self.give(me, 1)
                self.wait(me)
        elif self.rnd.random() < self.p:
            others = sorted(self.alive - {me})
            if others:
                self.give(me, self.rnd.choice(others))
                self.wait(me)

    def done(self, me):
        with self.cond:
            self.alive.discard(me)
            if self.holder == me and self.alive:
                self.holder = self.rnd.choice(sorted(self.alive))
            self.cond.notify_all()


def traced(baton, me, fn, a, k, opcodes=False):
    def local(frame, event, arg):
        if event == ('opcode' if opcodes else 'line'):
            baton.tick(me, frame)
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            frame.f_trace_opcodes = opcodes
            return local
        return None
    sys.settrace(glob)
    try:
        return fn(*a, **k)
    finally:
        sys.settrace(None)


def weave(ctx, js, opcodes=False, **kw):
    """Run the jobs in one thread each under a baton; normalised results (or what was raised)."""
    b = Baton(len(js), random.Random(ctx.randint(0, 2 ** 31)), **kw)
    out = [None] * len(js)
    fns, argv = [ctx.fn(j.fn) for j in js], [j.fresh() for j in js]

    def work(me):
        b.wait(me)
        try:
            out[me] = jobs.normalise(traced(b, me, fns[me], *argv[me], opcodes=opcodes))
        except Exception as e:
            out[me] = 'raised %s: %s' % (type(e).__name__, e)
        finally:
            b.done(me)
    ts = [threading.Thread(target=work, args=(m,), daemon=True) for m in range(len(js))]
    for t in ts:
        t.start()
    for t in ts:
        t.join(120)
    ctx.check(not any(t.is_alive() for t in ts), 'calls in two threads wait for each other for ever', jobs=[j.label for j in js])
    rec = ctx.run.calls.setdefault('thread', [0, 0])
    rec[0] += len(js)
    ctx.count('switches_inside_the_package', b.switches)
    ctx.count('batons_taken_from_blocked_threads', b.stolen)
    return b, out


def interleaved(ctx):
    """Chosen interleavings: a call stopped at some line (or bytecode) while others run, or threads alternating."""
    mine, more = pool(ctx, 1), jobs.reader_jobs(Sub(ctx, 'i_'))
    for j in mine:
        v = jobs.variant(j, ctx.rng)
        if j.fn.startswith('io.'):
            near = [x for x in more if x.fn == j.fn]
            v = near[0] if near else j
        want = {}
        for x in (j, v):
            a, k = x.fresh()
            ok, r = ctx.call_raw(x.fn, *a, **k)
            if ok:
                want[id(x)] = jobs.normalise(r)
        if id(j) not in want:
            ctx.check(False, '%s: well-formed job fails' % j.fn, job=j.label)
        if id(v) not in want:
            v = j
        op = ctx.chance(.3)
        b, out = weave(ctx, [j], opcodes=op)        # alone, counting its lines
        equal(ctx, j.label, out[0], want[id(j)], '%s gives another result under a tracer' % j.fn)
        total = b.lines[0]
        for mode in ('pause', 'pause', 'pause', 'weave'):
            group = [j, ctx.pick(v, v, j)]
            if mode == 'weave':
                group += [ctx.pick(v, j)] * ctx.pick(0, 0, 1)
                b, out = weave(ctx, group, opcodes=op, p=min(.5, 150. / (total + 1)))
            else:
                b, out = weave(ctx, group, opcodes=op, pause=ctx.randint(1, max(total, 1)))
                if b.where:
                    ctx.cover('paused', b.where)
            for x, o in zip(group, out):
                equal(ctx, j.label, o, want[id(x)], '%s gives another result when another thread calls it in between' % j.fn, mode=mode, paused=b.where)
        ctx.cover('woven', j.label)


GROUPS = [Group('first', first, 2, 10), Group('interleaved', interleaved, 10, 120, timeout=240), Group('frozen', frozen, 16, 300), Group('twice', state_group, 16, 200), Group('histories', histories, 8, 100, timeout=240), Group('changed_input', changed_input, 16, 250),
          Group('threads', threads, 10, 140, timeout=240)]
