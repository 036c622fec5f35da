"""A stand-in for matplotlib that records what is drawn (PLOT_REC: a file of JSON lines)."""
import itertools, json, math, os, sys, types

def emit(**kw):
    with open(os.environ["PLOT_REC"], "a") as f:
        f.write(json.dumps(kw) + "\n")

def plain(v):
    def one(y):
        try:
            y = float(y)
        except (TypeError, ValueError):
            return None
        return y if math.isfinite(y) else None
    return [one(y) for y in v]

class Anything:
    """Accepts every call and attribute."""
    def __init__(self, **kw):
        self.__dict__.update(kw)
    def __call__(self, *a, **k):
        return Anything()
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()
    def __getitem__(self, i):
        return Anything()
    def __setitem__(self, i, v):
        pass
    def __iter__(self):
        return iter(())
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False

def draw(*a, **k):
    if k.get("label") is not None and len(a) >= 2:
        emit(ev="line", label=str(k["label"]), x=plain(a[0]), y=plain(a[1]))
    return [Anything()]

class Axes(Anything):
    plot = staticmethod(draw)
    def _lines(self, *a, **k):
        return draw(*a, **k)
    step = scatter = semilogx = semilogy = loglog = errorbar = _lines
    def get_legend_handles_labels(self):
        return [], []

class Params(dict):
    def __missing__(self, k):
        return (lambda: itertools.cycle([{"color": "C0"}])) if k == "axes.prop_cycle" else None

rcParams = Params()
def use(*a, **k):
    pass

class Figure(Anything):
    def savefig(self, path, *a, **k):
        emit(ev="save", path=str(path))
    def show(self, *a, **k):
        emit(ev="show")

pyplot = types.ModuleType("matplotlib.pyplot")
def subplots(nrows=1, ncols=1, *a, **k):
    n = nrows * ncols
    return Figure(), (Axes() if n == 1 else [Axes() for _ in range(n)])
pyplot.subplots = subplots
pyplot.figure = lambda *a, **k: Figure()
pyplot.plot = draw
pyplot.savefig = Figure().savefig
pyplot.show = Figure().show
pyplot.rcParams = rcParams
pyplot.__getattr__ = lambda name: Anything()
sys.modules["matplotlib.pyplot"] = pyplot
