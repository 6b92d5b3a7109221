"""Zygote of C32: runs every job in a fork of a process that has called nothing yet."""
import os
import pickle
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    src, dst, pkg = sys.argv[1:4]
    sys.path[:0] = [pkg, HERE]
    import shipgrav.grav  # noqa
    import shipgrav.io  # noqa
    import shipgrav.nav  # noqa
    import shipgrav.utils  # noqa
    from rv import envchild
    with open(src, 'rb') as f:
        todo = pickle.load(f)
    out = []
    width = 6
    for at in range(0, len(todo), width):
        kids = []
        for n in range(at, min(at + width, len(todo))):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    with os.fdopen(w, 'wb') as g:
                        pickle.dump(envchild.run([todo[n]], 'abs', '', os.path.dirname(dst))[0], g)
                finally:
                    os._exit(0)
            os.close(w)
            kids.append((pid, r))
        for pid, r in kids:
            with os.fdopen(r, 'rb') as g:
                out.append(pickle.load(g))
            os.waitpid(pid, 0)
    with open(dst, 'wb') as f:
        pickle.dump(out, f)
