"""Zygote: the first call a process makes must leave the process as it was.

The libraries are loaded first, then shipgrav, then every job runs in a fork of its own that
has called nothing before.  argv: job file, result file, directory of the package.
"""
import contextlib
import io
import os
import pickle
import sys
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
#: what a library that loads a part of itself on demand does not touch
WATCHED = ('working directory', 'environment', 'numpy random state', 'random state', 'numpy error settings', 'numpy print options', 'pandas options',
           'locale', 'umask', 'recursion limit', 'signal handlers', 'time zone', 'decimal context', 'daylight', 'switch interval',
           'niceness', 'csv', 'gc', 'log handlers', 'hooks', 'processors', 'bytecode', 'tracing of memory', 'numpy error call', 'built-in names',
           'warning display', 'yaml', 'sockets')


def load():
    import importlib
    for m in ('numpy', 'numpy.fft', 'pandas', 'scipy.signal', 'scipy.special', 'scipy.interpolate', 'scipy.optimize', 'scipy.stats', 'scipy.ndimage',
              'statsmodels.api', 'yaml', 'tomli', 'tqdm', 'mmap', 'csv', 'decimal', 'locale', 'random'):
        try:
            importlib.import_module(m)
        except ImportError:
            pass


def state():
    from rv import watch
    s = watch.state()
    return {k: s[k] for k in WATCHED}


def one(fn, args, kw):
    import importlib
    m, f = fn.split('.')
    from rv import watch
    f = getattr(importlib.import_module('shipgrav.' + m), f)
    a = state()
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('once')       # a setting nobody else would choose
        a['warning filters'] = repr(warnings.filters)
        a['standard streams'] = [id(x) for x in (sys.stdin, sys.stdout, sys.stderr)]
        shows = warnings.showwarning, warnings.formatwarning      # kept by catch_warnings
        try:
            f(*args, **kw)
        except Exception:
            pass            # what the call returns is judged elsewhere
        b = {'warning filters': repr(warnings.filters), 'standard streams': [id(x) for x in (sys.stdin, sys.stdout, sys.stderr)]}
        if (warnings.showwarning, warnings.formatwarning) != shows:
            b['warning display'] = 'replaced'
    return {k: repr(v)[:400] for k, v in watch.changed(a, dict(state(), **b)).items()}


if __name__ == '__main__':
    src, dst, pkg = sys.argv[1:4]
    sys.path[:0] = [pkg, HERE]
    with open(src, 'rb') as f:
        todo = pickle.load(f)
    load()
    from rv import watch
    before = state()
    import shipgrav  # noqa
    import shipgrav.grav  # noqa
    import shipgrav.io  # noqa
    import shipgrav.nav  # noqa
    import shipgrav.utils  # noqa
    out = [{k: repr(v)[:400] for k, v in watch.changed(before, state()).items()}]
    for fn, args, kw in todo:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, 'wb') as g:
                    pickle.dump(one(fn, args, kw), g)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as g:
            out.append(pickle.load(g))
        os.waitpid(pid, 0)
    with open(dst, 'wb') as f:
        pickle.dump(out, f)
