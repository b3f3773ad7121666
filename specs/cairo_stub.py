"""Recording stand-in for the cairo library (trusted: its drawing model).

A context collects a path in device coordinates; fill() and stroke() add marks to
its surface, mask_surface() adds the marks of another surface, moved, under the
clip in force.
"""


class Matrix(object):
    def __init__(self, xx=1.0, yx=0.0, xy=0.0, yy=1.0, x0=0.0, y0=0.0):
        assert yx == 0.0 and xy == 0.0
        self.xx, self.yy, self.x0, self.y0 = xx, yy, x0, y0

    def at(self, x, y):
        return (self.xx * x + self.x0, self.yy * y + self.y0)


class Surface(object):
    def __init__(self, target, width, height):
        self.target, self.size, self.marks = target, (width, height), []

    def finish(self):
        pass

    def write_to_png(self, filename):
        self.written = filename


class Context(object):
    def __init__(self, surface):
        self.surface, self.m = surface, Matrix()
        self.path, self.clipped = [], None
        self.op, self.width, self.cap, self.source = 'over', 2.0, 'butt', None

    # transformations
    def translate(self, x, y):
        x0, y0 = self.m.at(x, y)
        self.m = Matrix(self.m.xx, 0.0, 0.0, self.m.yy, x0, y0)

    def scale(self, x, y):
        self.m = Matrix(self.m.xx * x, 0.0, 0.0, self.m.yy * y, self.m.x0, self.m.y0)

    def set_matrix(self, m):
        self.m = Matrix(m.xx, 0.0, 0.0, m.yy, m.x0, m.y0)

    # state
    def set_operator(self, op):
        self.op = op

    def set_line_width(self, w):
        self.width = w

    def set_line_cap(self, cap):
        self.cap = cap

    def set_source_rgba(self, r, g, b, a=1.0):
        self.source = (r, g, b, a)

    def set_source_rgb(self, r, g, b):
        self.source = (r, g, b, 1.0)

    # paths
    def new_path(self):
        self.path = []

    def move_to(self, x, y):
        self.path.append(('M', self.m.at(x, y)))

    def line_to(self, x, y):
        self.path.append(('L', self.m.at(x, y)))

    def close_path(self):
        self.path.append(('Z',))

    def rectangle(self, x, y, w, h):
        self.path.append(('R', self.m.at(x, y), (self.m.xx * w, self.m.yy * h)))

    def arc(self, x, y, r, a1, a2):
        self.path.append(('A', self.m.at(x, y), r, a1, a2, True, (self.m.xx, self.m.yy)))

    def arc_negative(self, x, y, r, a1, a2):
        self.path.append(('A', self.m.at(x, y), r, a1, a2, False, (self.m.xx, self.m.yy)))

    # text
    def select_font_face(self, *a):
        pass

    def set_font_size(self, size):
        pass

    def show_text(self, text):
        self.surface.marks.append(('text', self.path[-1], text, self.op))
        self.path = []

    # drawing
    def fill(self):
        self.surface.marks.append(('fill', self.path, self.op))
        self.path = []

    def stroke(self):
        self.surface.marks.append(('stroke', self.path, self.op, self.width, self.cap))
        self.path = []

    def paint(self):
        self.surface.marks.append(('paint', self.op, self.source))

    def clip(self):
        assert len(self.path) == 1 and self.path[0][0] == 'R' and self.clipped is None
        self.clipped = self.path[0][1:]
        self.path = []

    def reset_clip(self):
        self.clipped = None

    def mask_surface(self, surface, x=0, y=0):
        self.surface.marks.append(('mask', list(surface.marks), self.op, (self.m, x, y), self.clipped, self.source))


class Cairo(object):
    Matrix, Context, SVGSurface = Matrix, Context, Surface
    OPERATOR_OVER, OPERATOR_CLEAR = 'over', 'clear'
    LINE_CAP_ROUND, LINE_CAP_SQUARE, LINE_CAP_BUTT = 'round', 'square', 'butt'
    FONT_SLANT_NORMAL, FONT_WEIGHT_BOLD = 0, 1


class Files(object):
    """Stand-in for tempfile."""

    class NamedTemporaryFile(object):
        pass
