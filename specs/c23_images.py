"""C23: images show every primitive at its place, in its shape and with its polarity."""
import math
from engine.reg import spec
import gerber.render.cairo_backend as CB
import gerber.render.render as R0
import gerber.render.theme as TH
from gerber.render.render import RenderSettings
from gerber.primitives import (Line, Arc, Circle, Rectangle, Obround, Polygon, Region, AMGroup, Outline, Drill, Slot, TestRecord)
from gerber.cam import CamFile, FileSettings
from gerber.excellon import ExcellonFile, DrillHit
from gerber.excellon_statements import ExcellonTool
from gerber.layers import DrillLayer
import cairo_stub
CB.cairo = cairo_stub.Cairo
CB.tempfile = cairo_stub.Files

G = 'gerber.render.cairo_backend.GerberCairoContext.'
SCALES = [300, 12.5, 1]
PLACED = [G + f for f in ('scale_point', 'set_bounds', 'new_render_layer', '_new_mask', '_clip_primitive', 'origin_in_pixels', 'size_in_pixels')] + ['gerber.render.render.GerberContext.render']


def canvas(S, invert=False, mirror=False):
    """A context in the middle of a layer of an image of any place and size."""
    c = CB.GerberCairoContext(scale=S.choice('scale', SCALES))
    ox, oy, w, h = S.real('ox', -20, 20), S.real('oy', -20, 20), S.real('w', 0.1, 30), S.real('h', 0.1, 30)
    c.set_bounds(((ox, ox + w), (oy, oy + h)))
    c.invert = invert
    c.new_render_layer(mirror=mirror)
    c.frame = (c.scale[0], ox, oy, w, h, mirror)
    return c


def device(frame, p):
    """Pixel at which a point of the board belongs."""
    s, ox, oy, w, h, mirror = frame
    x = s * p[0] - s * ox
    return (s * w - x if mirror else x, s * h - (s * p[1] - s * oy))


def same(S, p, q, tol=1e-6):
    return S.and_(S.near(p[0], q[0], tol), S.near(p[1], q[1], tol))


def shapes(mark):
    """The marks of a mask as shapes in pixels of the image."""
    _, marks, op, (m, x, y), clip, _ = mark
    at = lambda p: m.at(p[0] + x, p[1] + y)
    out = []
    for mk in marks:
        path = [e for e in mk[1]]
        if mk[0] == 'stroke':
            while path and path[-1][0] == 'M':
                path = path[:-1]
        cur = []
        for e in path:
            if e[0] == 'R':
                (px, py), (w, h) = e[1], e[2]
                cur.append(('poly', [at(p) for p in ((px, py), (px + w, py), (px + w, py + h), (px, py + h))]))
            elif e[0] == 'A':
                cur.append(('arc', at(e[1]), e[2], e[3], e[4], e[5]))
            elif e[0] == 'Z':
                cur.append(('close',))
            else:
                cur.append((e[0], at(e[1])))
        out.append((mk[0], cur) + tuple(mk[2:]))
    return out


def is_circle(S, mark, center, radius):
    """Is the mark a filled circle?"""
    if mark[0] != 'fill':
        return False
    arcs = [e for e in mark[1] if e[0] == 'arc']
    if len(arcs) != 1 or [e for e in mark[1] if e[0] not in ('arc', 'M', 'close')]:
        return False
    _, c, r, a1, a2, _ = arcs[0]
    return S.and_(same(S, c, center), S.near(r, radius, 1e-6), S.near(S.abs(S.num(a2) - a1), 2 * S.pi, 1e-6))


def corners(mark):
    """Corners of a filled polygon, None if it is none."""
    if mark[0] != 'fill':
        return None
    if len(mark[1]) == 1 and mark[1][0][0] == 'poly':
        return mark[1][0][1]
    es = [e for e in mark[1] if e[0] != 'close']
    if not es or es[0][0] != 'M' or any(e[0] != 'L' for e in es[1:]):
        return None
    return [e[1] for e in es]


def is_polygon(S, mark, points):
    """Is the mark a filled polygon with these corners, in either direction?"""
    got = corners(mark)
    if got is None:
        return False
    n = len(points)
    tries = []
    for k in ([got, got[1:]] if len(got) == n + 1 else [got]):
        if len(k) != n:
            continue
        extra = same(S, got[0], got[-1]) if len(got) > n else True
        for d in (1, -1):
            q = k[::d]
            for i in range(n):
                tries.append(S.and_(extra, *[same(S, a, b) for a, b in zip(q[i:] + q[:i], points)]))
    return S.or_(*tries) if tries else False


def outlined(S, mark, frame, points):
    """Is the mark filled along these points in their order, closed?"""
    got = corners(mark)
    want = [device(frame, p) for p in points]
    return got is not None and len(got) == len(want) + 1 and S.and_(*[same(S, a, b) for a, b in zip(got, want[-1:] + want)])


def is_line(S, mark, a, b, width, cap):
    if mark[0] != 'stroke' or [e[0] for e in mark[1]] != ['M', 'L']:
        return False
    p, q = mark[1][0][1], mark[1][1][1]
    return S.and_(S.or_(S.and_(same(S, p, a), same(S, q, b)), S.and_(same(S, p, b), same(S, q, a))), S.near(mark[3], width, 1e-6), mark[4] == cap)


def drawn(S, c, prim):
    """Draw a primitive; the shapes on its mask, checked for place, polarity and clipping."""
    n = len(c.active_layer.marks)
    c.render(prim)
    new = c.active_layer.marks[n:]
    S.check('one mark', len(new) == 1 and new[0][0] == 'mask')
    m = new[0]
    dark = prim.level_polarity == 'dark'
    S.check('operator', m[2] == ('over' if dark != bool(c.invert) else 'clear'))
    (x0, y0), (w, h) = m[4]
    (bx0, bx1), (by0, by1) = prim.bounding_box
    for p in ((bx0, by0), (bx1, by1)):
        d = device(c.frame, p)
        lo, hi = (S.min(x0, x0 + w), S.min(y0, y0 + h)), (S.max(x0, x0 + w), S.max(y0, y0 + h))
        S.check('not clipped', S.and_(*[S.and_(S.le(lo[k] - 1e-6, d[k]), S.le(d[k], hi[k] + 1e-6)) for k in (0, 1)]))
    S.check('clip reset', c.ctx.clipped is None)
    return shapes(m)


def point(S, n):
    return (S.real(n + 'x', -20, 20), S.real(n + 'y', -20, 20))


def hole_of(S, hole):
    """Parameters of a hole, none, round or rectangular."""
    return {'none': (0, 0, 0), 'round': (S.real('hd', 0.01, 1), 0, 0), 'rect': (0, S.real('hw', 0.01, 1), S.real('hh', 0.01, 1))}[hole]


def holed(S, marks, n, frame, pos, hole, sizes, rotation=0):
    """Is the rest of the marks the hole, cleared from the shape whatever its polarity?"""
    rest = marks[n:]
    S.check('shape first', all(mk[2] == 'over' for mk in marks[:n]))
    if hole == 'none':
        S.check('no hole', not rest)
        return
    S.check('hole', len(rest) == 1 and rest[0][2] == 'clear')
    s = frame[0]
    if hole == 'round':
        S.check('round hole', is_circle(S, rest[0], device(frame, pos), s * sizes[0] / 2))
    else:
        w, h = sizes[1] / 2, sizes[2] / 2
        S.check('rectangular hole', is_polygon(S, rest[0], [device(frame, (pos[0] + a * w, pos[1] + b * h)) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]))


HOLES = ['none', 'round', 'rect']
WAYS = [(False, False), (True, False), (False, True)]      # (invert, mirror)


def state(S):
    return S.choice('way', WAYS), S.choice('polarity', ['dark', 'clear'])


@spec('C23', functions=PLACED + [G + '_render_circle'], params=HOLES, n=60)
def circles(S, hole):
    """Flashed circles are filled circles with their holes."""
    way, pol = state(S)
    c, p, d = canvas(S, *way), point(S, 'p'), S.real('d', 0.01, 5)
    hs = hole_of(S, hole)
    marks = drawn(S, c, Circle(p, d, hs[0], hs[1], hs[2], level_polarity=pol))
    S.check('circle', marks and is_circle(S, marks[0], device(c.frame, p), c.frame[0] * d / 2))
    holed(S, marks, 1, c.frame, p, hole, hs)


@spec('C23', functions=PLACED + [G + '_render_rectangle'], params=HOLES, n=60)
def rectangles(S, hole):
    """Flashed rectangles are filled rectangles with their holes."""
    way, pol = state(S)
    c, p, w, h = canvas(S, *way), point(S, 'p'), S.real('sw', 0.01, 5), S.real('sh', 0.01, 5)
    hs = hole_of(S, hole)
    marks = drawn(S, c, any_box(S, Rectangle(p, w, h, hs[0], hs[1], hs[2], level_polarity=pol)))
    S.check('rectangle', marks and is_polygon(S, marks[0], [device(c.frame, (p[0] + a * w / 2, p[1] + b * h / 2)) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]))
    holed(S, marks, 1, c.frame, p, hole, hs)


@spec('C23', functions=PLACED + [G + '_render_rectangle'], n=60)
def turned_rectangles(S, q):
    """Turned rectangles are drawn turned."""
    pol = S.choice('polarity', ['dark', 'clear'])
    c = canvas(S)
    rect = any_box(S, Rectangle(point(S, 'p'), S.real('sw', 0.01, 5), S.real('sh', 0.01, 5), rotation=S.real('angle', -360, 360), level_polarity=pol))
    marks = drawn(S, c, rect)
    S.check('rectangle', len(marks) == 1 and outlined(S, marks[0], c.frame, rect.vertices))


@spec('C23', functions=PLACED + [G + '_render_obround', 'gerber.primitives.Obround.subshapes'], params=HOLES, n=60)
def obrounds(S, hole):
    """Flashed obrounds are two discs and the rectangle between them, with their holes."""
    way, pol = state(S)
    c, p, w, h = canvas(S, *way), point(S, 'p'), S.real('sw', 0.01, 5), S.real('sh', 0.01, 5)
    hs = hole_of(S, hole)
    marks = drawn(S, c, Obround(p, w, h, hs[0], hs[1], hs[2], level_polarity=pol))
    s = c.frame[0]
    tall = S.decide(S.lt(w, h))
    r = (w if tall else h) / 2
    k = (0, h / 2 - r) if tall else (w / 2 - r, 0)
    ends = [device(c.frame, (p[0] + i * k[0], p[1] + i * k[1])) for i in (1, -1)]
    a, b = (r, k[1]) if tall else (k[0], r)
    body = [device(c.frame, (p[0] + i * a, p[1] + j * b)) for i, j in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    S.check('parts', len(marks) >= 3)
    S.check('discs', S.or_(*[S.and_(is_circle(S, marks[0], x, s * r), is_circle(S, marks[1], y, s * r)) for x, y in (ends, ends[::-1])]))
    S.check('body', is_polygon(S, marks[2], body))
    holed(S, marks, 3, c.frame, p, hole, hs)


@spec('C23', functions=PLACED + [G + '_render_polygon'], params=[(h, n) for h in HOLES for n in (3, 4, 5)], n=40)
def polygons(S, hn):
    """Flashed polygons are filled polygons with their corners and holes."""
    hole, n = hn
    way, pol = state(S)
    c, p, r = canvas(S, *way), point(S, 'p'), S.real('r', 0.01, 5)
    hs = hole_of(S, hole)
    prim = Polygon(p, n, r, hs[0], hole_width=hs[1], hole_height=hs[2], level_polarity=pol)
    marks = drawn(S, c, prim)
    S.check('polygon', marks and is_polygon(S, marks[0], [device(c.frame, v) for v in prim.vertices]))
    holed(S, marks, 1, c.frame, p, hole, hs)


@spec('C23', functions=PLACED + [G + '_render_line', G + '_render_slot', G + '_render_drill'], params=['circle', 'rectangle', 'slot', 'drill'], n=60)
def strokes(S, kind):
    """Lines and slots are strokes with round ends or the area a rectangle sweeps, drills are discs."""
    way, pol = state(S)
    c, a, b, d = canvas(S, *way), point(S, 'a'), point(S, 'b'), S.real('d', 0.01, 5)
    s = c.frame[0]
    A, B = device(c.frame, a), device(c.frame, b)
    if kind == 'drill':
        marks = drawn(S, c, Drill(a, d))
        S.check('drill', len(marks) == 1 and is_circle(S, marks[0], A, s * d / 2))
    elif kind == 'rectangle':
        line = any_box(S, Line(a, b, Rectangle(None, d, d), level_polarity=pol))
        line._vertices = [point(S, 'v%d' % i) for i in range(S.choice('corners', [4, 6]))]      # what they are is the matter of C04
        marks = drawn(S, c, line)
        S.check('swept area', len(marks) == 1 and outlined(S, marks[0], c.frame, line.vertices))
    else:
        marks = drawn(S, c, Line(a, b, Circle(None, d), level_polarity=pol) if kind == 'circle' else Slot(a, b, d))
        S.check('stroke', len(marks) == 1 and is_line(S, marks[0], A, B, s * d, 'round'))


def any_box(S, prim):
    """Give the primitive any bounding box (what its own is, is the matter of C04): drawing must keep clear of it."""
    x, y = point(S, 'box')
    prim._bounding_box = ((x, x + S.real('boxw', 0, 9)), (y, y + S.real('boxh', 0, 9)))
    return prim


def turned(S, a, b):
    """Are two angles the same direction?"""
    return S.or_(*[S.near(S.num(a) + 2 * S.pi * k, b, 1e-6) for k in (-2, -1, 0, 1, 2)])


def is_arc(S, e, frame, arc):
    """Does a path element draw this arc, in its direction and all of it?"""
    if e[0] != 'arc' or e[5] != (arc.direction == 'counterclockwise'):
        return False
    full = arc.end is arc.start
    d = (S.num(e[4]) - e[3]) if e[5] else (S.num(e[3]) - e[4])
    # cairo adds or takes away full turns until the end comes after the start
    swept = S.or_(*[S.and_(S.ge(d + 2 * S.pi * k, 0), S.lt(d + 2 * S.pi * k, 2 * S.pi), S.near(d + 2 * S.pi * k, 2 * S.pi if full else arc.sweep_angle, 1e-6)) for k in (-2, -1, 0, 1, 2)])
    return S.and_(same(S, e[1], device(frame, arc.center)), S.near(e[2], frame[0] * arc.radius, 1e-6), turned(S, e[3], arc.start_angle), swept)


def some_arc(S, way, full, aperture=None, start=None, pol='dark', name=''):
    m = point(S, name + 'm')
    start = start or point(S, name + 'u')
    end = start if full else point(S, name + 'v')
    arc = Arc(start, end, m, way, aperture, 'multi-quadrant', level_polarity=pol)
    if not full:
        S.assume(S.gt(S.abs(S.num(arc.start_angle) - arc.end_angle), 1e-6 if not S.symbolic else 0))
    return arc


@spec('C23', functions=PLACED + [G + '_render_arc'], params=[(a, w, f) for a in ('circle', 'rectangle', 'dot') for w in ('clockwise', 'counterclockwise') for f in (True, False)], n=40)
def arcs(S, awf):
    """Arcs are strokes along the arc in its direction, full circles included."""
    ap, way, full = awf
    pol = S.choice('polarity', ['dark', 'clear'])
    c = canvas(S)
    d = S.real('d', 0.01, 0.5) if ap != 'dot' else 0
    arc = some_arc(S, way, full, Rectangle(None, d, d) if ap == 'rectangle' else Circle(None, d), pol=pol)
    marks = drawn(S, c, any_box(S, arc))
    S.check('one stroke', len(marks) == 1 and marks[0][0] == 'stroke' and S.near(marks[0][3], c.frame[0] * (d if ap != 'dot' else 0.001), 1e-6))
    S.check('ends', marks[0][4] == ('square' if ap == 'rectangle' else 'round'))
    path = marks[0][1]
    S.check('arc', [e[0] for e in path] == ['M', 'arc'] and S.and_(same(S, path[0][1], device(c.frame, arc.start)), is_arc(S, path[1], c.frame, arc)))


@spec('C23', functions=PLACED + [G + '_render_region'], params=[x + y for x in 'lacf' for y in ('', 'l', 'a', 'lc', 'f')], scope='regions of up to three edges', n=30)
def regions(S, edges):
    """Regions are filled along their edges, arcs and full circles included."""
    way, pol = state(S) if 'a' not in edges and 'c' not in edges and 'f' not in edges else ((False, False), 'clear')
    c = canvas(S, *way)
    prims, at = [], point(S, 'start')
    for i, k in enumerate(edges):
        if k == 'l':
            e = point(S, 'e%d' % i)
            prims.append(Line(at, e, None))
        else:
            prims.append(some_arc(S, 'counterclockwise' if k == 'c' else 'clockwise', k == 'f', start=at, name='%d' % i))
        at = prims[-1].end
    r = any_box(S, Region(prims, level_polarity=pol))
    marks = drawn(S, c, r)
    S.check('one area', len(marks) == 1 and marks[0][0] == 'fill' and len(marks[0][1]) == len(prims) + 1)
    path = marks[0][1]
    S.check('start', path[0][0] == 'M' and same(S, path[0][1], device(c.frame, prims[0].start)))
    for e, q in zip(path[1:], prims):
        S.check('edge', (e[0] == 'L' and same(S, e[1], device(c.frame, q.end))) if isinstance(q, Line) else is_arc(S, e, c.frame, q))


@spec('C23', functions=PLACED + [G + '_render_amgroup', 'gerber.primitives.AMGroup.__init__'], params=['outline', 'c', 'cr', 'rc', 'ccr'], scope='groups of up to three shapes', n=40)
def groups(S, kinds):
    """Outlines are filled, and the shapes of a macro are drawn one after the other, each with its own polarity."""
    c = canvas(S)
    if kinds == 'outline':
        pts = [point(S, 'v%d' % i) for i in range(3)]
        o = any_box(S, Outline([Line(a, b, None) for a, b in zip(pts, pts[1:] + pts[:1])], level_polarity='dark'))
        marks = drawn(S, c, o)
        S.check('outline', len(marks) == 1 and len(marks[0][1]) == 4 and S.and_(*[same(S, e[1], device(c.frame, v)) for e, v in zip(marks[0][1], pts + pts[:1])]))
        return
    parts = []
    for i, k in enumerate(kinds):
        pol = S.choice('polarity%d' % i, ['dark', 'clear'])
        parts.append((Circle if k == 'c' else Square)(point(S, 'p%d' % i), 0.25, level_polarity=pol))
    c.render(AMGroup([Fixed(x) for x in parts], level_polarity='dark'))
    new = c.active_layer.marks
    S.check('one each', len(new) == len(parts))
    for m, x in zip(new, parts):
        S.check('operator', m[2] == ('over' if x.level_polarity == 'dark' else 'clear'))
        S.check('place', placed(S, shapes(m), c.frame, x))


def Square(position, size, level_polarity):
    return Rectangle(position, size, size, level_polarity=level_polarity)


def placed(S, marks, frame, prim):
    """Is this all of a disc or a square?"""
    if len(marks) != 1:
        return False
    if isinstance(prim, Circle):
        return is_circle(S, marks[0], device(frame, prim.position), frame[0] * prim.diameter / 2)
    return outlined(S, marks[0], frame, prim.vertices)


class Fixed(object):
    """A statement of a macro that stands for one shape."""

    def __init__(self, shape):
        self.shape = shape

    def to_primitive(self, units):
        return self.shape


class Layer(object):
    """A layer of a board as far as drawing it is concerned."""

    def __init__(self, layer_class, primitives, bounds, cam_source=None):
        self.layer_class, self.primitives, self.bounds, self.cam_source = layer_class, primitives, bounds, cam_source


def box(S, n, lo=0.1):
    x, y = S.real(n + 'x', -20, 20), S.real(n + 'y', -20, 20)
    return ((x, x + S.real(n + 'w', lo, 30)), (y, y + S.real(n + 'h', lo, 30)))


def look(S, n):
    return RenderSettings((S.real(n + 'red', 0, 1), 0.5, 0.25), S.real(n + 'alpha', 0, 1), S.flag(n + 'invert'), S.flag(n + 'mirror'))


def is_layer(S, mark, settings, prims, frame):
    """Is this the mark a layer leaves on the image?"""
    if mark[0] != 'mask' or mark[4] is not None or mark[2] != 'over':
        return False
    marks = list(mark[1])
    if settings.invert:
        if not marks or marks[0] != ('paint', 'over', (0.0, 0.0, 0.0, 1.0)):
            return False
        marks = marks[1:]
    if len(marks) != len(prims):
        return False
    m, x, y = mark[3]
    ok = [S.eq(mark[5][:3], tuple(settings.color)), S.eq(mark[5][3], settings.alpha), same(S, m.at(x, y), (0, 0))]
    for k, prim in zip(marks, prims):
        ok.append(k[2] == ('over' if (prim.level_polarity == 'dark') != bool(settings.invert) else 'clear'))
        ok.append(placed(S, shapes(k), frame, prim))
    return S.and_(*ok)


def some_prims(S, n, k):
    return [(Circle if i else Square)(point(S, '%s%d' % (n, i)), 0.25, level_polarity=S.choice('%spol%d' % (n, i), ['dark', 'clear'])) for i in range(k)]


@spec('C23', functions=[G + f for f in ('render_layer', '_render_layer', 'new_render_layer', 'flatten', 'paint_background', 'set_bounds', 'clear', 'scale_point')],
      params=[(k, j, b) for k in (0, 1, 2) for j in (0, 1) for b in ('own', 'given')], scope='layers of up to two shapes', n=40)
def layers(S, kjb):
    """The image is the background, then each layer in its color and opacity, all over the area of the first layer or the one given."""
    k, j, how = kjb
    c = CB.GerberCairoContext(scale=S.choice('scale', SCALES))
    own, given = box(S, 'own'), box(S, 'given') if how == 'given' else None
    a, b = look(S, 'a'), RenderSettings((0.5, 0.5, 0.5), 0.5, bool(j), not j)
    bg = RenderSettings((S.real('bgred', 0, 1), 0.5, 1.0), S.real('bgalpha', 0, 1))
    one, two = Layer('top', some_prims(S, 'p', k), own), Layer('drill', some_prims(S, 'q', j), box(S, 'other'))
    c.render_layer(one, settings=a, bgsettings=bg, bounds=given)
    c.render_layer(two, settings=b, bgsettings=bg)
    (x0, x1), (y0, y1) = given or own
    s = c.scale[0]
    S.check('size', S.and_(S.near(c.surface.size[0], s * (x1 - x0), 1e-6), S.near(c.surface.size[1], s * (y1 - y0), 1e-6)))
    marks = c.surface.marks
    S.check('background first, once', len(marks) == 3 and marks[0][0] == 'paint' and S.and_(S.eq(marks[0][2][0], bg.color[0]), S.eq(marks[0][2][3], bg.alpha)))
    for m, settings, layer in ((marks[1], a, one), (marks[2], b, two)):
        S.check('layer', is_layer(S, m, settings, layer.primitives, (s, x0, y0, x1 - x0, y1 - y0, settings.mirror)))


@spec('C23', functions=[G + 'render_layers', G + 'render_layer', 'gerber.render.theme.Theme.get', 'gerber.render.theme.Theme.__getitem__'], params=[(1, False), (2, False), (2, True), (3, False), (3, True)], scope='boards of up to three layers', n=40)
def boards(S, ne):
    """A board is drawn as large as it fits, with all its layers in their order, whole and in the colors of the theme."""
    n, empty = ne
    kinds = ['bottom', 'topmask', 'drill'][:n]
    boxes = [box(S, 'b%d' % i) if i != 1 or not empty else None for i in range(n)]
    ls = [Layer(k, some_prims(S, k, 1) if b else [], b) for k, b in zip(kinds, boxes)]
    looks = {k: RenderSettings((0.25, 0.5, 0.75), 0.5, k == 'topmask', k == 'bottom') for k in kinds}
    theme = TH.Theme(**looks)
    c = CB.GerberCairoContext()
    w, h = (800, 600) if n == 2 else (1920, 1080)
    c.render_layers(ls, 'out.png', theme, max_width=w, max_height=h)
    have = [b for b in boxes if b is not None]
    least, most = lambda vs: S.min(*vs) if len(vs) > 1 else vs[0], lambda vs: S.max(*vs) if len(vs) > 1 else vs[0]
    x0, x1 = least([b[0][0] for b in have]), most([b[0][1] for b in have])
    y0, y1 = least([b[1][0] for b in have]), most([b[1][1] for b in have])
    s = c.scale[0]
    S.check('same scale', S.eq(s, c.scale[1]))
    S.check('fits', S.and_(S.le(s * (x1 - x0), w + 1e-6), S.le(s * (y1 - y0), h + 1e-6)))
    S.check('as large as it fits', S.or_(S.gt((s + 1) * (x1 - x0), w - 1e-6), S.gt((s + 1) * (y1 - y0), h - 1e-6)))
    S.check('size', S.and_(S.near(c.surface.size[0], s * (x1 - x0), 1e-6), S.near(c.surface.size[1], s * (y1 - y0), 1e-6)))
    marks = c.surface.marks
    S.check('background first, once', len(marks) == n + 1 and marks[0][0] == 'paint' and marks[0][2] == TH.COLORS['fr-4'] + (1.0,))
    for m, l in zip(marks[1:], ls):
        S.check('layer', is_layer(S, m, looks[l.layer_class], l.primitives, (s, x0, y0, x1 - x0, y1 - y0, looks[l.layer_class].mirror)))


@spec('C23', functions=[G + 'render_layers', G + 'render_layer', G + '_render_layer', G + '_bounds_in_inch', G + '_primitives_in_inch', 'gerber.excellon.ExcellonFile.bounds'], params=['layers', 'drill'], scope='boards of two layers', n=40)
def mixed_units(S, how):
    """Files of different units are drawn at the same scale, so that holes lie where the copper expects them, and stay as they were."""
    b = box(S, 'b')
    inches = Layer('top', some_prims(S, 'p', 1), b)
    at, size = point(S, 'hole'), S.real('size', 0.1, 5)
    fs = FileSettings(units='metric')
    tool = ExcellonTool(fs, number=1, diameter=size)
    drill = DrillLayer('x.drl', ExcellonFile([], {1: tool}, [DrillHit(tool, at)], fs))
    theme = TH.Theme(top=RenderSettings((0.25, 0.5, 0.75), 0.5), drill=RenderSettings((0.5, 0.5, 0.75), 1.0))
    c = CB.GerberCairoContext()
    (hx, hy), d = [S.div(v, S.num(25.4)) for v in at], S.div(size, S.num(25.4))
    edges = [hx - d / 2, hx + d / 2, hy - d / 2, hy + d / 2]
    if how == 'drill':
        c.render_layer(drill, settings=theme['drill'])
        x0, x1, y0, y1 = edges
        marks = c.surface.marks[1:]
    else:
        c.render_layers([inches, drill], 'out.png', theme)
        x0, x1 = S.min(b[0][0], edges[0]), S.max(b[0][1], edges[1])
        y0, y1 = S.min(b[1][0], edges[2]), S.max(b[1][1], edges[3])
        marks = c.surface.marks[2:]
        S.check('copper', is_layer(S, c.surface.marks[1], theme['top'], inches.primitives, (c.scale[0], x0, y0, x1 - x0, y1 - y0, False)))
    s = c.scale[0]
    S.check('size', S.and_(S.near(c.surface.size[0], s * (x1 - x0), 1e-6), S.near(c.surface.size[1], s * (y1 - y0), 1e-6)))
    S.check('hole', len(marks) == 1 and is_layer(S, marks[0], theme['drill'], [Circle((hx, hy), d)], (s, x0, y0, x1 - x0, y1 - y0, False)))
    S.check('file kept', S.and_(S.eq(drill.cam_source.hits[0].position[0], at[0]), S.eq(tool.diameter, size), S.eq(drill.primitives[0].position[1], at[1])) and tool.settings.units == 'metric')


class File(CamFile):
    """A file with any area."""
    area, primitives = None, ()
    bounding_box = property(lambda self: self.area)


@spec('C23', functions=PLACED + [G + '_render_test_record', G + '_render_circle'], n=60)
def points(S, q):
    """Test points are discs at their places with the names of their nets beside them."""
    way, net = S.choice('way', WAYS), S.choice('net', ['GND', 'N/C'])
    c, p = canvas(S, *way), point(S, 'p')
    n = len(c.active_layer.marks)
    c.render(TestRecord(p, net, 'both'))
    new = c.active_layer.marks[n:]
    S.check('marks', [m[0] for m in new] == ['mask', 'text'])
    S.check('disc', is_circle(S, shapes(new[0])[0], device(c.frame, p), c.frame[0] * 0.0075))
    S.check('name', same(S, new[1][1][1], device(c.frame, (p[0] + 0.015, p[1] + 0.015))) and new[1][2] == net)


@spec('C23', functions=['gerber.cam.CamFile.render', G + 'dump', G + 'set_bounds', G + 'new_render_layer', G + 'flatten', G + 'paint_background'], params=[False, True], scope='files of up to two shapes', n=40)
def files(S, invert):
    """Drawing one file gives its shapes over the area of the file on the background."""
    f = File()
    f.area, f.primitives = box(S, 'a'), some_prims(S, 'p', S.choice('n', [0, 1, 2]))
    c = CB.GerberCairoContext(scale=S.choice('scale', SCALES))
    c.background_color, c.color, c.alpha = (0.25, S.real('green', 0, 1), 1), (S.real('red', 0, 1), 0.5, 0.75), S.real('alpha', 0, 1)
    f.render(c, invert=invert, filename='out.png')
    marks, ((x0, x1), (y0, y1)) = c.surface.marks, f.area
    S.check('written', c.surface.written == 'out.png')
    S.check('background', len(marks) == 2 and marks[0][0] == 'paint' and S.and_(S.eq(marks[0][2][1], c.background_color[1]), S.eq(marks[0][2][3], 1)))
    S.check('shapes', is_layer(S, marks[1], RenderSettings(c.color, c.alpha, invert), f.primitives, (c.scale[0], x0, y0, x1 - x0, y1 - y0, False)))


@spec('C23', functions=['gerber.render.theme.Theme.' + f for f in ('__init__', 'get', 'internal', '_internal_gen_func')], params=[1, 8, 20], n=20)
def themes(S, n):
    """Every kind of layer has settings, however many internal layers were drawn before; unknown kinds have the given ones."""
    theme = S.choice('theme', [lambda: TH.Theme(), lambda: TH.Theme(internal=[RenderSettings((0.5, 0, 0))])])()
    for i in range(n):
        S.check('internal', isinstance(theme.get('internal', None), RenderSettings))
    mine = RenderSettings((S.real('red', 0, 1), 0, 0))
    kind = S.choice('kind', ['top', 'bottom', 'topmask', 'bottommask', 'topsilk', 'bottomsilk', 'drill', 'background', 'ipc_netlist'])
    S.check('own', TH.Theme(**{kind: mine}).get(kind, None) is mine and theme.get(kind, mine) is not mine and isinstance(theme.get(kind), RenderSettings))
    S.check('mirrored', theme.get(kind).mirror == kind.startswith('bottom'))
    S.check('inverted', theme.get(kind).invert == kind.endswith('mask'))
    S.check('unknown', theme.get('paste', mine) is mine)
    looks = [TH.THEMES[t].get(k) for t in sorted(TH.THEMES) for k in ('top', 'bottom', 'topmask', 'bottommask', 'topsilk', 'bottomsilk', 'drill', 'background', 'ipc_netlist', 'internal')]
    S.check('sensible', all(0 < x.alpha <= 1 and len(x.color) == 3 and all(0 <= v <= 1 for v in x.color) for x in looks))
    for name in ('default', 'OSH Park', 'Blue'):
        for k in ('bottom', 'bottommask', 'bottomsilk'):
            S.check('seen from below', TH.THEMES[name].get(k).mirror and not TH.THEMES[name].get(k.replace('bottom', 'top')).mirror)


C = 'gerber.render.render.GerberContext.'


@spec('C23', functions=[C + f for f in ('color', 'drill_color', 'background_color', 'alpha', 'units', 'invert', '__init__')], params=['color', 'drill_color', 'background_color', 'alpha', 'units'], n=40)
def settings(S, name):
    """Colors, opacity and units take exactly the values that make sense, and others leave them as they were."""
    c = R0.GerberContext()
    old = getattr(c, name)
    if name == 'units':
        value = S.choice('units', ['inch', 'metric', 'mm', ''])
        good = value in ('inch', 'metric')
    elif name == 'alpha':
        value = S.real('alpha', -2, 2)
        good = S.decide(S.and_(S.ge(value, 0), S.le(value, 1)))
    else:
        value = tuple(S.real('c%d' % i, -1, 2) for i in range(S.choice('n', [2, 3, 4])))
        good = len(value) == 3 and S.decide(S.and_(*[S.and_(S.ge(v, 0), S.le(v, 1)) for v in value]))
    try:
        setattr(c, name, value)
        S.check('taken', good and getattr(c, name) is value)
    except (ValueError, TypeError):
        S.check('refused', not good and getattr(c, name) is old)
