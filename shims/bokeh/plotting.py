from bokeh.io import output_file, show, save, reset_output  # noqa: F401
from bokeh.models import Range1d, _Any

GLYPHS = {
    'circle': ('x', 'y'), 'line': ('x', 'y'), 'patch': ('x', 'y'),
    'multi_line': ('xs', 'ys'), 'patches': ('xs', 'ys'),
    'image': ('image', 'x', 'y', 'dw', 'dh'),
    'segment': ('x0', 'y0', 'x1', 'y1'), 'triangle': ('x', 'y'),
    'scatter': ('x', 'y'), 'rect': ('x', 'y', 'width', 'height')}


class Figure:
    def __init__(self, **kwargs):
        self.kwargs = kwargs
        self.plot_width = kwargs.get('plot_width', 600)
        self.plot_height = kwargs.get('plot_height', 600)
        self.x_range, self.y_range = Range1d(), Range1d()
        for name in ('x_range', 'y_range'):
            if name in kwargs:
                setattr(self, name, kwargs[name])
        self.grid, self.legend = _Any(), _Any()
        self.xaxis, self.yaxis, self.axis = _Any(), _Any(), _Any()
        self.title = _Any()
        self.drawn = []

    def __getattr__(self, name):
        if name not in GLYPHS:
            raise AttributeError(name)
        names = GLYPHS[name]

        def glyph(*args, **kwargs):
            if len(args) > len(names):
                raise TypeError('%s() takes %d values' % (name, len(names)))
            values = dict(zip(names, args))
            for n in names:
                if n in kwargs:
                    if n in values:
                        raise TypeError('%s() got %s twice' % (name, n))
                    values[n] = kwargs.pop(n)
            missing = [n for n in names if n not in values]
            if missing:
                raise TypeError('%s() misses %s' % (name, missing))
            self.drawn.append((name, values, kwargs))
            return _Any()
        return glyph


def figure(**kwargs):
    return Figure(**kwargs)
