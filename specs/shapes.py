"""Arbitrary graphical objects of every kind, and the meaning of their attributes."""
import gerber.primitives as P

# attributes that are lengths (numbers or points), attributes that are not
LENGTHS = {
    'Line': ['start', 'end'],
    'Arc': ['start', 'end', 'center'],
    'Circle': ['position', 'diameter', 'hole_diameter', 'hole_width', 'hole_height'],
    'Ellipse': ['position', 'width', 'height'],
    'Rectangle': ['position', 'width', 'height', 'hole_diameter', 'hole_width', 'hole_height'],
    'Diamond': ['position', 'width', 'height'],
    'ChamferRectangle': ['position', 'width', 'height', 'chamfer'],
    'RoundRectangle': ['position', 'width', 'height', 'radius'],
    'Obround': ['position', 'width', 'height', 'hole_diameter', 'hole_width', 'hole_height'],
    'Polygon': ['position', 'radius', 'hole_diameter', 'hole_width', 'hole_height'],
    'RoundButterfly': ['position', 'diameter'],
    'SquareButterfly': ['position', 'side'],
    'Donut': ['position', 'width', 'height', 'inner_diameter', 'outer_diameter'],
    'SquareRoundDonut': ['position', 'inner_diameter', 'outer_diameter'],
    'Drill': ['position', 'diameter'],
    'Slot': ['start', 'end', 'diameter'],
    'TestRecord': ['position'],
}
OTHER = {
    'Arc': ['direction', 'quadrant_mode'],
    'ChamferRectangle': ['corners'],
    'RoundRectangle': ['corners'],
    'Polygon': ['sides'],
    'Donut': ['shape'],
    'TestRecord': ['layer'],
}
COMMON = ['level_polarity', 'rotation', 'net_name']
SIMPLE = sorted(LENGTHS)
FLASHED = ['Circle', 'Ellipse', 'Rectangle', 'Diamond', 'ChamferRectangle', 'RoundRectangle', 'Obround', 'Polygon',
           'RoundButterfly', 'SquareButterfly', 'Donut', 'SquareRoundDonut', 'Drill']
POINTS = ('position', 'start', 'end', 'center')
BIG = 10000


def point(S, n):
    return (S.real(n + '.x', -BIG, BIG), S.real(n + '.y', -BIG, BIG))


def size(S, n):
    return S.real(n, 0, BIG)


def aperture(S, n, units, kinds=('Circle', 'Rectangle')):
    k = S.choice(n + '.kind', list(kinds))
    if k == 'Circle':
        return P.Circle((S.real(n + '.ax', -1, 1), 0), size(S, n + '.d'), units=units)
    if k == 'Obround':
        return P.Obround((0, 0), size(S, n + '.w'), size(S, n + '.h'), units=units)
    return P.Rectangle((0, 0), size(S, n + '.w'), size(S, n + '.h'), units=units)


def make(S, kind, n, units, rotation=0, aps=('Circle', 'Rectangle'), polarity=True):
    """An arbitrary object of the given kind."""
    kw = {'units': units}
    if polarity and kind not in ('Drill', 'Slot'):
        kw['level_polarity'] = S.choice(n + '.polarity', ['dark', 'clear'])
    if kind == 'Line':
        return P.Line(point(S, n + '.start'), point(S, n + '.end'), aperture(S, n + '.ap', units, aps), **kw)
    if kind == 'Arc':
        return P.Arc(point(S, n + '.start'), point(S, n + '.end'), point(S, n + '.center'),
                     S.choice(n + '.dir', ['clockwise', 'counterclockwise']), aperture(S, n + '.ap', units, aps),
                     S.choice(n + '.quad', ['single-quadrant', 'multi-quadrant']), **kw)
    if kind == 'Slot':
        return P.Slot(point(S, n + '.start'), point(S, n + '.end'), size(S, n + '.d'), **kw)
    if kind == 'Drill':
        return P.Drill(point(S, n + '.pos'), size(S, n + '.d'), **kw)
    kw['rotation'] = rotation
    pos = point(S, n + '.pos')
    w, h = size(S, n + '.w'), size(S, n + '.h')
    hole = {}
    if kind in ('Circle', 'Rectangle', 'Obround', 'Polygon'):
        hole = {'hole_diameter': S.choice(n + '.hole', [None, 0, 'real']),
                'hole_width': S.real(n + '.hw', 0, BIG), 'hole_height': S.real(n + '.hh', 0, BIG)}
        if hole['hole_diameter'] == 'real':
            hole['hole_diameter'] = S.real(n + '.hd', 0, BIG)
    if kind == 'Circle':
        return P.Circle(pos, w, **dict(kw, **hole))
    if kind in ('Rectangle', 'Obround'):
        return getattr(P, kind)(pos, w, h, **dict(kw, **hole))
    if kind in ('Ellipse', 'Diamond'):
        return getattr(P, kind)(pos, w, h, **kw)
    if kind == 'Polygon':
        return P.Polygon(pos, S.choice(n + '.sides', [3, 4, 5, 8, 12]), w, **dict(kw, **hole))
    if kind == 'ChamferRectangle':
        return P.ChamferRectangle(pos, w, h, size(S, n + '.c'), S.choice(n + '.corners', [None, (True, False, True, False)]), **kw)
    if kind == 'RoundRectangle':
        return P.RoundRectangle(pos, w, h, size(S, n + '.c'), (True, False, True, False), **kw)
    if kind == 'RoundButterfly':
        return P.RoundButterfly(pos, w, **kw)
    if kind == 'SquareButterfly':
        return P.SquareButterfly(pos, w, **kw)
    if kind == 'Donut':
        S.assume(w < h)
        return P.Donut(pos, S.choice(n + '.shape', ['round', 'square', 'hexagon', 'octagon']), w, h, **kw)
    if kind == 'SquareRoundDonut':
        S.assume(w < h)
        return P.SquareRoundDonut(pos, w, h, **kw)
    if kind == 'TestRecord':
        return P.TestRecord(pos, 'net', 'both', **kw)
    raise ValueError(kind)


def kind_of(p):
    return type(p).__name__


def lengths(p):
    out = []
    for a in LENGTHS[kind_of(p)]:
        v = getattr(p, a)
        if v is not None:
            out.append((a, v))
    if kind_of(p) in ('Line', 'Arc') and p.aperture is not None:
        out += [('aperture.' + a, v) for a, v in lengths(p.aperture)]
    return out


def others(p):
    out = [(a, getattr(p, a)) for a in COMMON + OTHER.get(kind_of(p), [])]
    if kind_of(p) in ('Line', 'Arc') and p.aperture is not None:
        out += [('aperture.' + a, v) for a, v in others(p.aperture)]
    return out


def scaled(S, v, k):
    """v * k, for numbers and points (k an exact factor (num, den))."""
    if isinstance(v, tuple):
        return tuple(scaled(S, x, k) for x in v)
    if k == 'inch':
        return S.div(S.num(v), S.num(25.4)) if not S.symbolic else S.div(v, S.num(25.4))
    return v * S.num(25.4)


def same(S, a, b):
    if a is None or b is None:
        return a is b
    return S.eq(a, b)
