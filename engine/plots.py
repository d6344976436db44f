"""Stand-in for matplotlib.pyplot during symbolic execution, and a reader of real figures during replay.

Contract taken from matplotlib: every `scatter` call on 3D axes adds its points to these axes; view angles and limits are
those set last (limits only checked where set); everything else (ticks, grids, layout) does not change what is shown.
"""
import numpy as np


def _list(x):
    return list(x) if hasattr(x, '__iter__') else [x]


class Panel:
    """one set of 3D axes: point groups, view angles, limits and texts"""

    def __init__(self):
        self.groups, self.azim, self.elev = [], -60, 30
        self.lim = [None, None, None]
        self.label = ['', '', '']
        self.title = ''


class FakeAxes:
    azim = property(lambda s: s.p.azim, lambda s, v: setattr(s.p, 'azim', v))
    elev = property(lambda s: s.p.elev, lambda s, v: setattr(s.p, 'elev', v))

    def __init__(self, p):
        self.__dict__['p'] = p

    def scatter(self, xs, ys, zs=0, zdir='z', *a, **k):
        from .core import Unsupported
        if zdir != 'z':
            raise Unsupported('scatter zdir')
        c = [_list(v) for v in (xs, ys, zs)]
        n = max(len(v) for v in c)
        c = [v * n if len(v) == 1 else v for v in c]
        if len({len(v) for v in c}) != 1:
            raise ValueError('sizes of the coordinates differ')
        self.p.groups.append([list(t) for t in zip(*c)])

    scatter3D = scatter

    def view_init(self, elev=None, azim=None, *a, **k):
        if elev is not None:
            self.p.elev = elev
        if azim is not None:
            self.p.azim = azim

    def _lim(self, i, lo=None, hi=None, **k):
        for nm in ('left', 'bottom', 'xmin', 'ymin', 'zmin'):
            lo = k.get(nm, lo)
        for nm in ('right', 'top', 'xmax', 'ymax', 'zmax'):
            hi = k.get(nm, hi)
        if hi is None and hasattr(lo, '__iter__'):
            lo, hi = lo
        self.p.lim[i] = (lo, hi)

    def set_xlim(self, *a, **k):
        self._lim(0, *a, **k)

    def set_ylim(self, *a, **k):
        self._lim(1, *a, **k)

    def set_zlim(self, *a, **k):
        self._lim(2, *a, **k)

    set_xlim3d, set_ylim3d, set_zlim3d = set_xlim, set_ylim, set_zlim

    def get_xlim(self):
        return self.p.lim[0]

    def get_ylim(self):
        return self.p.lim[1]

    def get_zlim(self):
        return self.p.lim[2]

    def set_xlabel(self, t, *a, **k):
        self.p.label[0] = t

    def set_ylabel(self, t, *a, **k):
        self.p.label[1] = t

    def set_zlabel(self, t, *a, **k):
        self.p.label[2] = t

    def set_title(self, t, *a, **k):
        self.p.title = t

    def set(self, **k):
        for nm, v in k.items():
            getattr(self, 'set_' + nm)(*(v if nm.endswith('lim') and isinstance(v, tuple) else (v,)))

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        if nm.startswith(('set_', 'grid', 'tick', 'mouse', 'xaxis', 'yaxis', 'zaxis', 'legend', 'axis')):
            return Quiet()
        from .core import Unsupported
        raise Unsupported(f"axes.{nm}")


class Quiet:
    """drawing detail that does not change what is shown"""

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        return self


class FakeFigure:
    def __init__(self, log):
        self.log, self.axes = log, []

    def add_subplot(self, *a, **k):
        ax = FakeAxes(Panel())
        self.log.append(ax.p)
        self.axes.append(ax)
        return ax

    def subplots(self, nrows=1, ncols=1, **k):
        ax = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                ax[i, j] = self.add_subplot()
        if k.get('squeeze', True):
            return ax[0, 0] if ax.size == 1 else np.squeeze(ax)
        return ax

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        return Quiet()


class FakePlot:
    """matplotlib.pyplot"""

    def __init__(self):
        self.log = []
        self.fig = None

    def figure(self, *a, **k):
        self.fig = FakeFigure(self.log)
        return self.fig

    def gcf(self):
        return self.fig or self.figure()

    def subplots(self, nrows=1, ncols=1, **k):
        f = self.figure()
        return f, f.subplots(nrows, ncols, **k)

    def subplot(self, *a, **k):
        return self.gcf().add_subplot(*a, **k)

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        if nm in ('draw', 'show', 'ion', 'ioff', 'close', 'tight_layout', 'style', 'rcParams', 'pause'):
            return Quiet()
        from .core import Unsupported
        raise Unsupported(f"pyplot.{nm}")


def real_panels():
    """the panels of the figures pyplot holds open (replay)"""
    import matplotlib.pyplot as plt
    out = []
    for n in plt.get_fignums():
        for ax in plt.figure(n).axes:
            p = Panel()
            p.azim, p.elev = ax.azim, ax.elev
            p.title = ax.get_title()
            p.label = [ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()]
            p.lim = [ax.get_xlim(), ax.get_ylim(), ax.get_zlim()]
            for c in ax.collections:
                p.groups.append([list(map(float, t)) for t in zip(*c._offsets3d)])
            out.append(p)
    return out
