"""What is drawn: figures are recorded when they are saved, and rendered by a stub (or for real)."""
import os

import numpy as np


def label(text):
    """a number, whatever its type was"""
    try:
        return '%g' % float(text)
    except ValueError:
        return text


class Pictures:
    """records every saved figure of the operating system process it is installed in"""

    def __init__(self, render=False):
        self.render, self.saved = render, []

    def install(self):
        import matplotlib  # pylint: disable=import-outside-toplevel
        from matplotlib.figure import Figure  # pylint: disable=import-outside-toplevel
        matplotlib.rcParams['figure.max_open_warning'] = 0
        matplotlib.rcParams['savefig.dpi'] = 15
        real = Figure.savefig
        me = self

        def savefig(fig, fname, **kw):
            me.saved.append((os.path.basename(str(fname)), describe(fig)))
            if me.render:
                return real(fig, fname, **kw)
            with open(fname, 'wb') as f:       # the stub picture: goes through the simulated file system
                f.write(b'\x89PNG stub')
                f.flush()
                f.write(os.path.basename(str(fname)).encode())
            return None
        Figure.savefig = savefig
        if not me.render:
            from matplotlib.backend_bases import FigureCanvasBase  # pylint: disable=import-outside-toplevel
            FigureCanvasBase.draw_idle = lambda *a, **kw: None       # nobody is looking
        return self

    def take(self):
        out, self.saved = self.saved, []
        return out


def describe(fig):
    from matplotlib.colors import to_rgba_array  # pylint: disable=import-outside-toplevel
    out = []
    for ax in fig.axes:
        d = {'title': ax.get_title(), 'x': ax.get_xlabel(), 'y': ax.get_ylabel(),
             'lines': [(label(l.get_label()) if not str(l.get_label()).startswith('_') else '',
                        np.array(l.get_xdata(orig=True), dtype=float), np.array(l.get_ydata(orig=True), dtype=float))
                       for l in ax.get_lines()],
             'collections': [_collection(c) for c in ax.collections],
             'patches': [np.array(p.get_path().vertices, dtype=float) for p in ax.patches],
             'texts': [label(t.get_text()) for t in ax.texts], 'xlim': tuple(float(v) for v in ax.get_xlim()),
             'ylim': tuple(float(v) for v in ax.get_ylim()),
             'styles': [(float(l.get_linewidth()), str(l.get_linestyle()), str(l.get_marker()), float(l.get_markersize()),
                         to_rgba_array(l.get_color())) for l in ax.get_lines()],
             'colours': [(np.array(c.get_facecolor(), dtype=float), np.array(c.get_edgecolor(), dtype=float))
                         for c in ax.collections],
             'sizes': [float(v.get_fontsize()) for v in (ax.title, ax.xaxis.label, ax.yaxis.label)],
             'scales': (ax.get_xscale(), ax.get_yscale()), 'place': np.array(ax.get_position().bounds), 'figure': np.array(fig.get_size_inches())}
        out.append(d)
    return out


def _collection(c):
    paths = [np.array(p.vertices, dtype=float) for p in c.get_paths()]
    offsets = np.array(np.ma.filled(c.get_offsets(), np.nan), dtype=float)
    return (type(c).__name__, paths, offsets)


def same(a, b, where='figure'):
    """first difference between two descriptions, or None"""
    if isinstance(a, dict):
        for k in a:
            d = same(a[k], b[k], '%s.%s' % (where, k))
            if d:
                return d
        return None
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return '%s has %s points, expected %s' % (where, a.shape, b.shape)
        if not np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True):
            return '%s holds other values' % where
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s has %d elements, expected %d' % (where, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, '%s[%d]' % (where, i))
            if d:
                return d
        return None
    if isinstance(a, float):
        return None if a == b or (np.isnan(a) and np.isnan(b)) or np.isclose(a, b, rtol=1e-9) else (
            '%s is %r, expected %r' % (where, a, b))
    return None if a == b else '%s is %r, expected %r' % (where, a, b)
