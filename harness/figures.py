"""What a saved figure shows, read from its axes at the moment it is saved."""
import contextlib
import os


def numbers(values):
    import numpy as np
    return [float(v) for v in np.ravel(np.ma.filled(np.ma.asarray(values, dtype=float), np.nan))]


def describe(figure):
    from matplotlib.collections import PolyCollection, PathCollection, QuadMesh
    out = []
    for ax in figure.axes:
        lines = [{'x': numbers(line.get_xdata(orig=False)), 'y': numbers(line.get_ydata(orig=False)),
                  'marker': str(line.get_marker()), 'label': str(line.get_label())} for line in ax.get_lines()]
        points, areas, meshes = [], [], []
        for c in ax.collections:
            if isinstance(c, QuadMesh):
                meshes.append(numbers(c.get_array()))
            elif isinstance(c, PathCollection):
                points.append([[float(x), float(y)] for x, y in c.get_offsets()])
            elif isinstance(c, PolyCollection):
                areas.append([[[float(x), float(y)] for x, y in path.vertices] for path in c.get_paths()])
        out.append({'title': ax.get_title(), 'xlabel': ax.get_xlabel(), 'ylabel': ax.get_ylabel(), 'lines': lines,
                    'points': points, 'areas': areas, 'meshes': meshes, 'xscale': ax.get_xscale(),
                    'xticks': [[float(p), t.get_text()] for p, t in zip(ax.get_xticks(), ax.get_xticklabels())],
                    'yticks': [[float(p), t.get_text()] for p, t in zip(ax.get_yticks(), ax.get_yticklabels())],
                    'texts': [[float(v) for v in t.get_position()] + [t.get_text()] for t in ax.texts]})
    return out


@contextlib.contextmanager
def captured():
    """the figures that are saved in the meantime: list of {'path', 'axes'}"""
    from matplotlib.figure import Figure
    original, out = Figure.savefig, []

    def savefig(self, fname, *args, **kwargs):
        result = original(self, fname, *args, **kwargs)
        out.append({'path': os.path.abspath(str(fname)), 'axes': describe(self)})
        return result

    Figure.savefig = savefig
    try:
        yield out
    finally:
        Figure.savefig = original


CHILD = r'''
import json, runpy, sys
script, verif, repo, answer = sys.argv[1:5]
sys.path.insert(0, repo)
sys.path.append(verif)
from harness import figures
sys.argv = [script] + sys.argv[5:]
with figures.captured() as saved:
    runpy.run_path(script, run_name='__main__')
with open(answer, 'w') as f:
    json.dump(saved, f)
'''
