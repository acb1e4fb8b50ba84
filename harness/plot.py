"""Observes what the plotting functions draw.

matplotlib draws into its non-interactive backend and the axes are inspected;
plotly, which need not be installed, is replaced by classes that keep what they
are given.
"""
import re, sys, types
import numpy as np
from rec import rvec, mat

class Trace:
    def __init__(self, *a, **kw): self.kind, self.kw = type(self).__name__, kw
class Surface(Trace): pass
class Scatter3d(Trace): pass
class Figure:
    def __init__(self, data=None, *a, **kw):
        self.data = list(data) if isinstance(data, (list, tuple)) else [data] if data is not None else []
    def add_trace(self, t, *a, **kw): self.data.append(t); return self
    def add_traces(self, ts, *a, **kw): self.data.extend(ts if isinstance(ts, (list, tuple)) else [ts]); return self
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        return lambda *a, **kw: self

def install():
    """Before booz_xform is imported."""
    p, g = types.ModuleType('plotly'), types.ModuleType('plotly.graph_objects')
    for c in (Surface, Scatter3d, Figure): setattr(g, c.__name__, c)
    p.graph_objects = p.graph_objs = g
    p.__path__ = []
    sys.modules['plotly'] = p
    sys.modules['plotly.graph_objects'] = sys.modules['plotly.graph_objs'] = g

contours = []
def patch():
    from matplotlib.axes import Axes
    if getattr(Axes, '_recorded', False): return
    Axes._recorded = True
    for name in ('contour', 'contourf'):
        def make(orig, filled):
            def f(self, *args, **kw):
                contours.append((filled, args, kw))
                return orig(self, *args, **kw)
            return f
        setattr(Axes, name, make(getattr(Axes, name), name == 'contourf'))

def sym_label(s):
    if s.startswith('_'): return ''
    t = s.lower()
    for k in ('background', 'mirror'):
        if k in t: return k
    if 'axisym' in t: return 'quasiaxisymmetric'
    if 'other' in t: return 'other'
    if r'\ne' in t or '≠' in t or '!=' in t: return 'helical'
    if re.search(r'=\s*\$?\s*[-\u2212]', t): return 'minus'
    return 'plus' if 'helical' in t else 'label ' + s

def axis_label(s):
    t = s.lower()
    for k in ('toroidal angle', 'poloidal angle'):
        if k in t: return k
    return 'sqrt(s)' if 'sqrt' in t else 's' if s else ''

def figure(fn, result):
    """The figure just drawn, as data."""
    import matplotlib.pyplot as plt, matplotlib.colors as mc
    if fn == 'wireplot':
        curves, surfs = [], []
        for t in result.data:
            if t.kind == 'Surface':
                surfs.append({v: mat(t.kw[v]) for v in 'xyz'})
            else:
                name = str(t.kw.get('name') or '').lower()
                curves.append(dict({v: rvec(t.kw[v]) for v in 'xyz'}, col=str((t.kw.get('line') or {}).get('color')),
                                   name='boozer' if 'boozer' in name else 'original' if 'original' in name else ''))
        return dict(curves=curves, surfs=surfs)
    ax = plt.gcf().axes[0] if plt.gcf().axes else plt.gca()
    text = dict(xaxis=axis_label(ax.get_xlabel()), yaxis=axis_label(ax.get_ylabel()))
    if fn == 'surfplot':
        if len(contours) != 1:
            return dict(filled=False, X=mat(np.zeros((0, 0))), Y=mat(np.zeros((0, 0))), V=mat(np.zeros((0, 0))), ncontours=-2, titled=rvec([]), extra={'none': ''}, **text)
        filled, args, kw = contours[0]
        X, Y, V = (np.asarray(a, float) for a in args[:3])
        if X.ndim == 1: X, Y = np.meshgrid(X, Y)
        n = args[3] if len(args) > 3 else kw.get('levels', -3)
        shown = re.findall(r'=\s*\$?\s*([-+]?\d[\d.]*(?:e[-+]?\d+)?)', ax.get_title())
        return dict(filled=filled, X=mat(X), Y=mat(Y), V=mat(V), titled=rvec([float(v.rstrip('.')) for v in shown[:1]]),
                    extra=dict({k: str(v) for k, v in kw.items()}, none=''), **text, ncontours=-1 if 'levels' in kw and len(args) > 3 or np.ndim(n) else int(n))
    lines, leg = [], ax.get_legend()
    for l in ax.get_lines():
        x, y = (np.ma.filled(np.asarray(v, float), np.nan) for v in l.get_data(orig=True))
        d = dict(x=rvec(x), y=rvec(y), col=mc.to_hex(l.get_color(), keep_alpha=True), label=str(l.get_label()),
                 extra=dict(marker=str(l.get_marker()), linewidth='%g' % l.get_linewidth(), none=''))
        if fn == 'symplot': d['label'] = sym_label(d['label'])
        else:
            k = [int(v) for v in re.findall(r'-?\d+', d['label'].replace('\u2212', '-'))]
            d['m'], d['n'] = (k + [-999, -999])[:2]
        lines.append(d)
    legend = [t.get_text() for t in leg.get_texts()] if leg else []
    for d, l in zip(lines, ax.get_lines()): d['legend'] = d['label'] if d['label'][:1] != '_' else ''
    if fn == 'symplot': legend = [sym_label(t) for t in legend]
    return dict(lines=lines, legend=legend, legend_alpha=str(leg.get_frame().get_alpha()) if leg else 'no legend', **text, log=ax.get_yscale() == 'log', ymin=rvec([ax.get_ylim()[0]]), xlim=rvec(ax.get_xlim()))
