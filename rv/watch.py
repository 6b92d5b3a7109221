"""Watch what a call does besides returning: interpreter audit events, files, process state."""
import builtins
import csv
import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import sys
import threading
import time
import tracemalloc
import warnings

import numpy as np
import pandas as pd

QUIET = ('object.__getattr__', 'object.__setattr__', 'object.__delattr__', 'import', 'compile', 'exec', 'marshal.loads', 'sys._getframe', 'os.listdir',
         'os.scandir', 'code.__new__', 'builtins.id', 'gc.get_objects', 'cpython._PySys_ClearAuditHooks', 'os.stat', 'mmap.__new__', 'os.fwalk', 'os.walk',
         'glob.glob', 'glob.glob/2', 'sys.monitoring.register_callback', 'pickle.find_class', 'ctypes.dlopen', 'ctypes.dlsym', 'ctypes.cdata',
         'ctypes.cdata/buffer', 'ctypes.dlsym/handle', 'function.__new__', 'sys._getframemodulename', 'sys._current_frames', 'array.__new__',
         'time.sleep', '_thread.start_new_thread', '_thread.start_joinable_thread', 'syslog.openlog')
WORDS = ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.truncate', 'os.utime', 'os.putenv',
         'os.unsetenv', 'os.chdir', 'os.fchdir', 'subprocess.Popen', 'os.system', 'os.exec', 'os.fork', 'os.forkpty', 'os.posix_spawn', 'os.spawn', 'os.kill',
         'os.killpg', 'os.setxattr', 'os.removexattr', 'os.lockf', 'os.startfile', 'pty.spawn', 'signal.pthread_kill', 'webbrowser.open', 'ftplib.',
         'http.', 'urllib.', 'smtplib.', 'socket.', 'shutil.', 'tempfile.', 'sqlite3.', 'fcntl.', 'setopencodehook', 'sys.addaudithook', 'cpython.run_',
         'resource.setrlimit', 'ensurepip.', 'msvcrt.', 'winreg.')
_on = False
_events = []
_installed = False
_count = 0


def _hook(event, args):
    global _count
    if not _on:
        return
    _count += 1
    if event == 'open':
        path, mode, flags = (tuple(args) + (None, None, None))[:3]
        wr = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (
            isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) != 0)
        if wr:
            _events.append(('write', os.fsdecode(path) if isinstance(path, (str, bytes)) else repr(path)))
    elif event.startswith(WORDS):
        _events.append((event, repr(args)[:200]))


class Watch:
    """with Watch() as w: ...; then w.events, w.seen."""

    def __enter__(self):
        global _installed, _on, _count
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        _events.clear()
        _count = 0
        _on = True
        return self

    def __exit__(self, *a):
        global _on
        _on = False
        self.events = list(_events)
        self.seen = _count


def tree(*dirs, digest=True):
    """{path: (kind, mode, size, mtime, digest)} below dirs."""
    out = {}
    for d in dirs:
        for root, ds, fs in os.walk(d):
            if '.git' in ds:
                ds.remove('.git')
            for n in ds + fs:
                p = os.path.join(root, n)
                st = os.lstat(p)
                h = ''
                if os.path.isfile(p) and not os.path.islink(p):
                    h = 'file'
                if h and digest:
                    with open(p, 'rb') as f:
                        h = hashlib.sha1(f.read()).hexdigest()
                out[p] = (st.st_mode, st.st_size if h else 0, st.st_mtime_ns if h else 0, h)
    return out


def _options():
    out = {}
    try:
        out['all'] = repr(pd._config.config._global_config)
    except AttributeError:
        pass
    for k in ('display.precision', 'display.max_rows', 'display.width', 'mode.string_storage', 'compute.use_numexpr', 'compute.use_bottleneck'):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                out[k] = pd.get_option(k)
        except Exception:  # an option this pandas does not have
            pass
    return out


def _yaml():
    y = sys.modules.get('yaml')
    if y is None:
        return None
    return {c.__name__: (sorted(map(str, c.yaml_constructors)), sorted(map(str, c.yaml_implicit_resolvers)), sum(len(v) for v in c.yaml_implicit_resolvers.values()))
            for c in (y.SafeLoader, y.FullLoader, y.Loader)}


def state():
    """Process state a reader or calculation has no business changing."""
    gc.collect()
    um = os.umask(0)
    os.umask(um)
    return {
        'working directory': os.getcwd(), 'environment': dict(os.environ), 'numpy random state': repr(np.random.get_state()[1:3]) + hashlib.sha1(
            np.random.get_state()[1].tobytes()).hexdigest(),
        'random state': hashlib.sha1(repr(random.getstate()).encode()).hexdigest(), 'numpy error settings': dict(np.geterr()),
        'numpy print options': repr(np.get_printoptions()), 'pandas options': _options(), 'locale': locale.setlocale(locale.LC_ALL), 'sys.path': list(sys.path),
        'umask': um, 'threads': threading.active_count(), 'open files': sorted(os.listdir('/proc/self/fd')).__len__(),
        'recursion limit': sys.getrecursionlimit(), 'log handlers': [repr(h) for h in logging.getLogger().handlers] + [logging.getLogger().level],
        'signal handlers': [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGCHLD)],
        'warning filters': repr(warnings.filters), 'time zone': repr((time.tzname, time.timezone)), 'decimal context': repr(decimal.getcontext()),
        'standard streams': [id(x) for x in (sys.stdin, sys.stdout, sys.stderr)], 'hooks': [id(x) for x in (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile())],
        'csv': (csv.field_size_limit(), sorted(csv.list_dialects())), 'daylight': time.daylight,
        'switch interval': sys.getswitchinterval(), 'gc': (gc.isenabled(), gc.get_threshold()), 'niceness': os.nice(0),
        'processors': sorted(os.sched_getaffinity(0)), 'bytecode': sys.dont_write_bytecode, 'tracing of memory': tracemalloc.is_tracing(),
        'numpy error call': repr(np.geterrcall()), 'built-in names': sorted(set(vars(builtins)) - {'_'}), 'warning display': [id(warnings.showwarning), id(warnings.formatwarning)],
        'yaml': _yaml(), 'sockets': sys.modules['socket'].getdefaulttimeout() if 'socket' in sys.modules else None,
        'processes': sys.modules['multiprocessing'].get_start_method(allow_none=True) if 'multiprocessing' in sys.modules else None,
    }


def changed(a, b):
    return {k: (a[k], b[k]) if k != 'environment' else sorted(set(a[k].items()) ^ set(b[k].items()))[:4] for k in a if a[k] != b[k]}
