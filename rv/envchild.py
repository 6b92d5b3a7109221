"""Child of C14: run pickled jobs under whatever environment this process was given.

argv: job file, result file, scratch directory, 'abs' or 'rel', directory of the package.
"""
import contextlib
import io
import os
import pickle
import sys
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def relocate(o, root, cwd):
    if isinstance(o, str) and o.startswith(root + os.sep):
        return os.path.relpath(o, cwd)
    if isinstance(o, (list, tuple)):
        return type(o)(relocate(v, root, cwd) for v in o)
    return o


def run(jobs_, mode, root, own):
    """[normalised result or error text]"""
    import importlib
    import shutil
    from rv import jobs
    out = []
    for n, (fn, args, kw) in enumerate(jobs_):
        if mode == 'rel':
            args = relocate(args, root, os.getcwd())
        m, f = fn.split('.')
        try:
            if fn == 'utils.clean_ini_to_toml':      # converts in place: give every process its own copy
                src = args[0]
                mine = os.path.join(own, 'ini%d_%d.ini' % (os.getpid(), n))
                shutil.copy(src, mine)
                if mode == 'rel':
                    mine = os.path.relpath(mine)
                args = (mine,)
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                res = getattr(importlib.import_module('shipgrav.' + m), f)(*args, **kw)
            if fn == 'utils.clean_ini_to_toml':
                with open(res, 'rb') as g:
                    out.append(['toml', g.read().decode()])
                continue
            out.append(jobs.normalise(res))
        except Exception as e:
            out.append('raised %s: %s' % (type(e).__name__, e))
    return out


if __name__ == '__main__':
    src, dst, root, mode, pkg = sys.argv[1:6]
    sys.path[:0] = [pkg, HERE]
    import shipgrav.io
    assert os.path.realpath(shipgrav.io.__file__).startswith(os.path.realpath(pkg) + os.sep), shipgrav.io.__file__
    with open(src, 'rb') as f:
        todo = pickle.load(f)
    res = run(todo, mode, root, os.path.dirname(dst))
    with open(dst, 'wb') as f:
        pickle.dump(res, f)
