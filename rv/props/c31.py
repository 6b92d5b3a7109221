"""The interactive line picker."""
import numpy as np
import pandas as pd

from ..core import Group

RULE = ('One case = one history of mouse events (moves, left/right/other clicks, inside, outside and on the other axis) on a picker over one data table. '
        'Non-trivial: at least one pick; signature: history length, picks, undos, events outside, table index kind.')
ASSUMPTIONS = ['matplotlib is not installed here: axes, lines, canvas and events are stand-ins with the same interface, which record what they are told.',
               'A click picks the sample nearest in time (any of several equally near). A move snaps to the nearest or to the next sample.']
TARGETS = ['utils._SnappingCursor', 'utils.on_mouse_move', 'utils.on_mouse_click']


class Line:
    def __init__(self, x, y):
        self.x, self.y, self.visible = x, y, True

    def get_data(self):
        return self.x, self.y

    def get_visible(self):
        return self.visible

    def set_visible(self, v):
        self.visible = bool(v)

    def set_xdata(self, x):
        self.x = np.array(x)

    def set_ydata(self, y):
        self.y = np.array(y)

    def set_data(self, x, y):
        self.set_xdata(x)
        self.set_ydata(y)

    def update(self, d):
        for k, v in d.items():
            getattr(self, 'set_' + k)(v)

    set = lambda self, **k: self.update(k)


class Canvas:
    def __init__(self):
        self.lines, self.drawn, self.screen = [], 0, None

    def now(self):
        return [([float(v) for v in np.ravel(ln.x)], [float(v) for v in np.ravel(ln.y)]) if ln.visible else None for ln in self.lines]

    def draw(self):
        self.drawn += 1
        self.screen = self.now()

    def draw_idle(self):
        self.draw()


class Figure:
    def __init__(self):
        self.canvas = Canvas()


class Axis:
    def __init__(self, fig, xlim, ylim):
        self.figure, self.xlim, self.ylim, self.lines = fig, xlim, ylim, []

    def get_xlim(self):
        return self.xlim

    def get_ylim(self):
        return self.ylim

    def add(self, line):
        self.lines.append(line)
        self.figure.canvas.lines.append(line)
        return line

    def axhline(self, y=0, **k):
        return self.add(Line([0, 1], [y, y]))

    def axvline(self, x=0, **k):
        return self.add(Line([x, x], [0, 1]))

    def plot(self, x, y, *a, **k):
        return [self.add(Line(np.array(x), np.array(y)))]


class Event:
    def __init__(self, inaxes, xdata, ydata, button=None):
        self.inaxes, self.xdata, self.ydata, self.button = inaxes, xdata, ydata, button
        self.x = self.y = 0
        self.key, self.dblclick, self.step, self.guiEvent = None, False, 0, None
        self.name = 'button_press_event' if button else 'motion_notify_event'


class Bench:
    def __init__(self, ctx):
        self.ctx = ctx
        n = ctx.pick(1, 2, 5, 40, 200)
        t0 = ctx.pick(0., 1.7e9)
        step = ctx.pick(np.ones(n), ctx.rng.uniform(.2, 5, n), ctx.pick(np.ones(n), np.full(n, 60.)))
        self.t = t0 + np.cumsum(step)
        self.lon, self.lat = ctx.rng.uniform(-180, 180, n), ctx.rng.uniform(-80, 80, n)
        self.y = ctx.rng.normal(size=n) * 30
        self.n = n
        self.kind = ctx.pick('range', 'offset', 'time')
        idx = {'range': range(n), 'offset': range(1000, 1000 + n), 'time': pd.date_range('2024-01-01', periods=n, freq='s')}[self.kind]
        self.data = pd.DataFrame({'tsec': self.t, 'lon_new': self.lon, 'lat_new': self.lat, 'faa': self.y}, index=idx)
        fig = Figure()
        span = self.t[-1] - self.t[0] + 1
        self.span = span
        self.ax1 = Axis(fig, (self.t[0] - .1 * span, self.t[-1] + .1 * span), (-100, 100))
        self.ax2 = Axis(fig, (-180, 180), (-90, 90))
        self.s = slice(None, None, ctx.pick(1, 1, 1, 1, 3))        # a long series may be plotted thinned out
        self.line = Line(self.t[self.s].copy() if ctx.chance(.5) else pd.Series(self.t[self.s]).to_numpy(), self.y[self.s].copy())
        self.dot = Line(np.array([self.lon[0]]), np.array([self.lat[0]]))
        ok, self.cur = ctx.call_fn('utils._SnappingCursor', ctx.fn('utils._SnappingCursor'), self.ax1, self.ax2, self.line, self.dot, self.data)
        ctx.check(ok, 'picker cannot be set up: %r' % (self.cur,))
        fig.canvas.lines.append(self.dot)
        fig.canvas.draw()        # the window appears
        self.canvas = fig.canvas
        self.model = []          # indices picked
        self.hair = None         # (x, y) or None when hidden
        self.outside = self.undos = self.picks = 0

    def nearest(self, x):
        d = np.abs(self.t - x)
        return set(np.flatnonzero(d <= d.min() * (1 + 1e-12) + 1e-12).tolist())

    def send(self, what, ev):
        ok, res = self.ctx.call_fn('utils.' + what, getattr(self.cur, what), ev)
        self.ctx.check(ok, '%s raises on an event: %r' % (what, res), button=ev.button, x=ev.xdata)
        self.ctx.same(self.canvas.screen, self.canvas.now(), 'what is on the screen after %s (redrawn?)' % what)

    def event(self):
        ctx = self.ctx
        where = ctx.pick('in', 'in', 'in', 'in', 'map', 'none')
        x = ctx.pick(ctx.uni(*self.ax1.xlim), float(self.t[ctx.randint(0, self.n - 1)]), self.ax1.xlim[0], self.ax1.xlim[1])
        if where == 'map':
            return where, Event(self.ax2, ctx.uni(-180, 180), ctx.uni(-90, 90))
        if where == 'none':
            return where, Event(None, None, None)
        return where, Event(self.ax1, x, ctx.uni(-100, 100))

    def step(self):
        ctx, cur = self.ctx, self.cur
        where, ev = self.event()
        if ctx.chance(.35):
            self.move(where, ev)
        else:
            ev.button = ctx.pick(1, 1, 1, 3, 3, 2)
            ev.name = 'button_press_event'
            self.click(where, ev)

    def move(self, where, ev):
        ctx, cur = self.ctx, self.cur
        before = (list(np.ravel(self.dot.x)), list(np.ravel(self.dot.y)))
        self.send('on_mouse_move', ev)
        h, v = self.ax1.lines[0], self.ax1.lines[1]
        if where != 'in':
            self.outside += 1
            ctx.check(not h.visible and not v.visible, 'cross hair is shown while the mouse is elsewhere', where=where)
            ctx.same((list(np.ravel(self.dot.x)), list(np.ravel(self.dot.y))), before, 'dot moves while the mouse is elsewhere')
        else:
            ctx.check(h.visible and v.visible, 'cross hair is hidden inside the axis')
            x, y, px, py = float(np.ravel(v.x)[0]), float(np.ravel(h.y)[0]), float(np.ravel(self.dot.x)[0]), float(np.ravel(self.dot.y)[0])
            i = np.flatnonzero(self.t == x)
            ctx.check(len(i) == 1, 'cross hair is not at a time of the series', got=x)
            i = int(i[0])
            drawn = self.t[self.s]
            nxt = min(int(np.searchsorted(drawn, ev.xdata)), len(drawn) - 1)
            near = np.abs(drawn - ev.xdata)
            ctx.check(drawn[nxt] == x or x in drawn[near <= near.min() * (1 + 1e-12) + 1e-12], 'cross hair is not at the sample under the mouse', mouse=ev.xdata, got=x, next=drawn[nxt])
            ctx.same(y, float(self.y[i]), 'height of the cross hair')
            ctx.same((px, py), (float(self.lon[i]), float(self.lat[i])), 'dot on the map is not at the position of the cross hair')
        self.picked()

    def click(self, where, ev):
        ctx, cur = self.ctx, self.cur
        n = len(self.model)
        ev.key = ctx.pick(None, None, None, 'shift', 'control', 'alt', 'z')
        ev.dblclick = ctx.chance(.1)        # the second press of a double click is a press
        self.send('on_mouse_click', ev)
        got = [int(i) for i in cur.i_seg]
        if where == 'in' and ev.button == 1:
            self.picks += 1
            ctx.check(len(got) == n + 1 and got[:n] == self.model and got[n] in self.nearest(ev.xdata), 'a left click picks the sample nearest in time',
                      mouse=ev.xdata, before=self.model, got=got, expected=sorted(self.nearest(ev.xdata)))
            self.model = got
        elif where == 'in' and ev.button == 3:
            self.undos += 1
            self.model = self.model[:-1]
            ctx.same(got, self.model, 'a right click removes the last pick')
        else:
            self.outside += where != 'in'
        self.picked()

    def picked(self):
        ctx, cur = self.ctx, self.cur
        ctx.same([int(i) for i in cur.i_seg], self.model, 'picked samples')
        ctx.same([float(v) for v in cur.x_seg], [float(self.lon[i]) for i in self.model], 'longitudes of the picked samples')
        ctx.same([float(v) for v in cur.y_seg], [float(self.lat[i]) for i in self.model], 'latitudes of the picked samples')
        shown = self.ax2.lines[-1]
        if self.picks or self.undos:
            ctx.same([float(v) for v in np.ravel(shown.x)], [float(self.lon[i]) for i in self.model], 'picks shown on the map')
            ctx.same([float(v) for v in np.ravel(shown.y)], [float(self.lat[i]) for i in self.model], 'picks shown on the map')


def history(ctx):
    b = Bench(ctx)
    keep = b.data.copy(deep=True)
    n = ctx.pick(5, 20, 60, 120) if ctx.idx % 20 != 7 else ctx.randint(500, 900)
    many = n >= 500
    for _ in range(n):
        if many and ctx.chance(.6):        # a long session: mostly picks
            b.click('in', Event(b.ax1, ctx.uni(*b.ax1.xlim), 0., 1))
        else:
            b.step()
    ctx.check(b.data.equals(keep), 'the data table is changed by picking')
    ctx.check(np.array_equal(b.line.x, b.t[b.s]) and np.array_equal(b.line.y, b.y[b.s]), 'the plotted line is changed by picking')
    ctx.count('mouse_events', n)
    ctx.count('picks', b.picks)
    ctx.cover('history', n, min(b.picks, 9), min(b.undos, 5), min(b.outside, 5), b.kind, b.n)


def undo(ctx):
    """Undo on nothing, and more undos than picks, leave nothing picked and a working picker."""
    b = Bench(ctx)
    k = ctx.randint(0, 4)
    for _ in range(k):
        b.click('in', Event(b.ax1, ctx.uni(*b.ax1.xlim), 0., 1))
    for _ in range(k + ctx.randint(1, 3)):
        b.click('in', Event(b.ax1, ctx.uni(*b.ax1.xlim), 0., 3))
    b.click('in', Event(b.ax1, ctx.uni(*b.ax1.xlim), 0., 1))
    ctx.same(len(b.model), 1, 'picks after undoing everything')
    ctx.cover('undo', k, b.n)


GROUPS = [Group('history', history, 120, 2500), Group('undo', undo, 20, 200)]
