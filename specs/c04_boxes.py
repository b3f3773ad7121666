"""C04: bounding boxes and vertices of single shapes."""
import copy
from engine.reg import spec
import shapes as SH
import gerber.primitives as P

M = 'gerber.primitives.'


def box_check(S, box, x0, x1, y0, y1):
    S.check('left', S.eq(box[0][0], x0))
    S.check('right', S.eq(box[0][1], x1))
    S.check('bottom', S.eq(box[1][0], y0))
    S.check('top', S.eq(box[1][1], y1))


def around(S, box, p, w2, h2):
    box_check(S, box, p[0] - w2, p[0] + w2, p[1] - h2, p[1] + h2)


def inside(S, box, p, label='point inside'):
    S.check(label, S.and_(S.le(box[0][0], p[0]), S.ge(box[0][1], p[0]), S.le(box[1][0], p[1]), S.ge(box[1][1], p[1])))


def trig(S, rot):
    a = S.radians(rot)
    return S.cos(a), S.sin(a)


@spec('C04', functions=[M + k + '.bounding_box' for k in ('Circle', 'Drill', 'RoundButterfly', 'SquareButterfly', 'Donut', 'SquareRoundDonut')],
      params=['Circle', 'Drill', 'RoundButterfly', 'SquareButterfly', 'Donut', 'SquareRoundDonut'], n=150)
def round_shapes(S, kind):
    """The box of a circle, drill, butterfly or donut is its diameter wide and high, about its position."""
    o = SH.make(S, kind, 'o', 'inch', rotation=S.real('rot', -360, 360))
    w = h = {'Circle': 'diameter', 'Drill': 'diameter', 'RoundButterfly': 'diameter', 'SquareButterfly': 'side',
             'Donut': 'outer_diameter', 'SquareRoundDonut': 'outer_diameter'}[kind]
    w, h = getattr(o, w), getattr(o, h)
    if kind == 'Donut':
        if o.shape == 'hexagon':
            S.check('hexagon', S.and_(S.le(o.width, w), S.ge(o.width, w * S.num(0.8))))
            w = o.width
    around(S, o.bounding_box, o.position, w / 2., h / 2.)


@spec('C04', functions=[M + 'Line.bounding_box', M + 'Line.bounding_box_no_aperture', M + 'Slot.bounding_box'],
      params=['Line', 'Slot'], n=150)
def strokes(S, kind):
    """The box of a line or slot is that of its end points grown by half the aperture."""
    o = SH.make(S, kind, 'o', 'inch', aps=('Circle', 'Rectangle', 'Obround'))
    if kind == 'Slot':
        w2 = h2 = o.diameter / 2.
    elif isinstance(o.aperture, P.Circle):
        w2 = h2 = o.aperture.diameter / 2.
    else:
        w2, h2 = o.aperture.width / 2., o.aperture.height / 2.
    x0, x1 = S.min(o.start[0], o.end[0]), S.max(o.start[0], o.end[0])
    y0, y1 = S.min(o.start[1], o.end[1]), S.max(o.start[1], o.end[1])
    if kind == 'Line':
        box_check(S, o.bounding_box_no_aperture, x0, x1, y0, y1)
    box_check(S, o.bounding_box, x0 - w2, x1 + w2, y0 - h2, y1 + h2)


@spec('C04', functions=[M + 'Ellipse.bounding_box', M + 'Ellipse.axis_aligned_width', M + 'Ellipse.axis_aligned_height'], n=150)
def ellipse(S, p):
    """The box of an ellipse turned by any angle is exact."""
    rot = S.real('rot', -360, 360)
    o = SH.make(S, 'Ellipse', 'o', 'inch', rotation=rot)
    c, s = trig(S, rot)
    S.lemma_angle_add(S.radians(rot), S.pi / 2.)
    a, b = o.width / 2., o.height / 2.
    box = o.bounding_box
    x, y = o.position
    S.check('centered', S.and_(S.eq(box[0][0] + box[0][1], 2 * x), S.eq(box[1][0] + box[1][1], 2 * y)))
    hw, hh = box[0][1] - x, box[1][1] - y
    S.check('ordered', S.and_(S.ge(hw, 0), S.ge(hh, 0)))
    S.check('half width', S.eq(hw * hw, a * a * c * c + b * b * s * s))
    S.check('half height', S.eq(hh * hh, a * a * s * s + b * b * c * c))


@spec('C04', functions=[M + 'Rectangle.bounding_box', M + 'Rectangle.lower_left', M + 'Rectangle.upper_right', M + 'Rectangle.vertices',
                        'gerber.utils.rotate_point'], n=150)
def rectangle(S, p):
    """The vertices of a rectangle turned by any angle are its corners, its box is their exact extent."""
    rot = S.real('rot', -360, 360)
    o = SH.make(S, 'Rectangle', 'o', 'inch', rotation=rot)
    c, s = trig(S, rot)
    x, y = o.position
    w, h = o.width / 2., o.height / 2.
    v = o.vertices
    want = [(x + c * dx - s * dy, y + s * dx + c * dy) for dx, dy in ((-w, -h), (-w, h), (w, h), (w, -h))]
    S.check('vertices', S.eq(list(v), want))
    box = o.bounding_box
    for q in want:
        inside(S, box, q, 'corner inside')
    for k in (0, 1):
        S.check('tight', S.and_(S.or_(*[S.eq(box[0][k], q[0]) for q in want]), S.or_(*[S.eq(box[1][k], q[1]) for q in want])))
    S.check('corners', S.eq([o.lower_left, o.upper_right], [(box[0][0], box[1][0]), (box[0][1], box[1][1])]))


@spec('C04', functions=[M + 'Diamond.bounding_box', M + 'Diamond.vertices'], n=150)
def diamond(S, p):
    """The box of a diamond contains its vertices for any rotation."""
    rot = S.real('rot', -360, 360)
    o = SH.make(S, 'Diamond', 'o', 'inch', rotation=rot)
    c, s = trig(S, rot)
    x, y = o.position
    w, h = o.width / 2., o.height / 2.
    want = [(x + c * dx - s * dy, y + s * dx + c * dy) for dx, dy in ((0, h), (w, 0), (0, -h), (-w, 0))]
    S.check('vertices', S.eq(list(o.vertices), want))
    for q in want:
        inside(S, o.bounding_box, q, 'vertex inside')


@spec('C04', functions=[M + 'ChamferRectangle.bounding_box', M + 'ChamferRectangle.vertices'],
      params=[None, (True, False, True, False), (False, True, False, True), (False,) * 4], n=150)
def chamfer(S, corners):
    """The vertices of a chamfered rectangle cut the named corners only, and lie in its box."""
    rot = S.real('rot', -360, 360)
    pos, w, h, k = SH.point(S, 'pos'), SH.size(S, 'w'), SH.size(S, 'h'), SH.size(S, 'k')
    S.assume(S.and_(S.le(2 * k, w), S.le(2 * k, h)))
    o = P.ChamferRectangle(pos, w, h, k, corners, rotation=rot)
    c, s = trig(S, rot)
    x, y = pos
    loc = []
    for (sx, sy), cut in zip(((1, 1), (-1, 1), (-1, -1), (1, -1)), corners or (True,) * 4):
        if cut:
            loc += [(sx * (w / 2. - k), sy * h / 2.), (sx * w / 2., sy * (h / 2. - k))]
        else:
            loc.append((sx * w / 2., sy * h / 2.))
    want = [(x + c * dx - s * dy, y + s * dx + c * dy) for dx, dy in loc]
    v = o.vertices
    S.check('number of vertices', len(v) == len(want))
    for q in want:
        S.check('vertex', S.or_(*[S.eq(q, z) for z in v]))
    for q in v:
        inside(S, o.bounding_box, q, 'vertex inside')


@spec('C04', functions=[M + k + '.bounding_box' for k in ('RoundRectangle', 'Obround', 'ChamferRectangle', 'Diamond')],
      params=['RoundRectangle', 'Obround', 'ChamferRectangle', 'Diamond'], n=150)
def unrotated(S, kind):
    """Unrotated, the box of a rounded rectangle, obround, chamfered rectangle or diamond is its width and height."""
    o = SH.make(S, kind, 'o', 'inch')
    around(S, o.bounding_box, o.position, o.width / 2., o.height / 2.)


@spec('C04', functions=[M + k + '.bounding_box' for k in ('RoundRectangle', 'Obround')], params=['RoundRectangle', 'Obround'], n=150)
def rotated_rounded(S, kind):
    """Rotated, the box of a rounded rectangle or obround is no smaller than the shape and no larger than that of its frame."""
    rot = S.real('rot', -360, 360)
    o = SH.make(S, kind, 'o', 'inch', rotation=rot)
    c, s = trig(S, rot)
    x, y = o.position
    box = o.bounding_box
    w, h = o.width / 2., o.height / 2.
    for dx, dy in ((w, 0), (-w, 0), (0, h), (0, -h)):
        inside(S, box, (x + c * dx - s * dy, y + s * dx + c * dy))
    frame = [(x + c * dx - s * dy, y + s * dx + c * dy) for dx, dy in ((-w, -h), (-w, h), (w, h), (w, -h))]
    S.check('within its frame', S.and_(S.or_(*[S.le(q[0], box[0][0]) for q in frame]), S.or_(*[S.ge(q[0], box[0][1]) for q in frame]),
                                       S.or_(*[S.le(q[1], box[1][0]) for q in frame]), S.or_(*[S.ge(q[1], box[1][1]) for q in frame])))
    if kind == 'Obround':
        # any point of the obround: a segment of length |w-h| swept by a disc of the smaller half
        r = S.min(w, h)
        t = S.real('t', -1, 1)
        ux, uy = S.real('ux', -1, 1), S.real('uy', -1, 1)
        S.assume(ux * ux + uy * uy <= 1)
        a, b = t * (w - r), t * (h - r)
        inside(S, box, (x + c * a - s * b + r * ux, y + s * a + c * b + r * uy), 'obround inside')


@spec('C04', functions=[M + 'Obround.subshapes', M + 'Obround.orientation'], n=150)
def obround_parts(S, p):
    """An unrotated obround is the union of two circles of its smaller side and the rectangle between them."""
    o = SH.make(S, 'Obround', 'o', 'inch')
    d = o.subshapes
    w, h = o.width, o.height
    x, y = o.position
    m = S.min(w, h)
    S.check('orientation', (o.orientation == 'vertical') == S.decide(h > w))
    for k in ('circle1', 'circle2'):
        S.check('diameter', S.eq(d[k].diameter, m))
    ps = [d['circle1'].position, d['circle2'].position]
    e = [(x + (w - m) / 2., y + (h - m) / 2.), (x - (w - m) / 2., y - (h - m) / 2.)]
    S.check('ends', S.or_(S.eq(ps, e), S.eq(ps, e[::-1])))
    rect = d['rectangle']
    S.check('rectangle', S.and_(S.eq(rect.position, (x, y)), S.eq(rect.width, S.ite(h > w, w, w - h)), S.eq(rect.height, S.ite(h > w, h - w, h))))


@spec('C04', functions=[M + 'Polygon.bounding_box', M + 'Polygon.vertices'], params=[3, 4, 5, 6, 8, 12], n=100)
def polygon(S, n):
    """The vertices of a regular polygon lie on its circle, the first at its rotation, the others at equal steps; the box is the circle's."""
    rot = S.real('rot', -360, 360)
    o = P.Polygon(SH.point(S, 'pos'), n, SH.size(S, 'r'), rotation=rot)
    v = o.vertices
    x, y = o.position
    S.check('sides', len(v) == n)
    around(S, o.bounding_box, o.position, o.radius, o.radius)
    for i in range(n):
        a = S.radians(rot + S.num(360.0 / n) * i)
        S.check('vertex', S.eq(v[i], (x + o.radius * S.cos(a), y + o.radius * S.sin(a))))
        inside(S, o.bounding_box, v[i], 'vertex inside')


ARC_CASES = [(single, d, k) for single in (False, True) for d in ('counterclockwise', 'clockwise') for k in ('Circle', 'Rectangle', 'Obround')]


def arc_case(S, case):
    """An arbitrary arc: center, radius, start and end angles, direction."""
    single, d, ap = case
    two_pi = 2 * S.pi
    a0, a1 = S.real('a0', 0, 7), S.real('a1', 0, 7)
    S.assume(S.and_(S.lt(a0, two_pi), S.lt(a1, two_pi)))
    r = S.real('r', 0.001, 1000)
    c = SH.point(S, 'c')
    pt = lambda a: (c[0] + r * S.cos(a), c[1] + r * S.sin(a))
    s, e = pt(a0), pt(a1)
    if not S.symbolic:
        # keep away from the points where the direction of travel depends on rounding
        for a in (a0, a1):
            S.assume(min(abs(a - k * S.pi / 2) for k in range(5)) > 1e-6 or s == e)
        S.assume(abs(a0 - a1) > 1e-6 and abs(abs(a0 - a1) - two_pi) > 1e-6)
    for a, q in ((a0, s), (a1, e)):
        S.lemma_polar(r, a, q[1] - c[1], q[0] - c[0])
    o = P.Arc(s, e, c, d, SH.aperture(S, 'ap', 'inch', (ap,)), 'single-quadrant' if single else 'multi-quadrant', units='inch')
    lo, hi = (a0, a1) if d == 'counterclockwise' else (a1, a0)
    return o, a0, a1, r, c, lo, hi, pt


def swept(S, lo, hi, t):
    """The counterclockwise sweep from lo to hi passes t (angles in [0, 2 pi))."""
    return S.or_(S.and_(S.lt(lo, hi), S.le(lo, t), S.le(t, hi)), S.and_(S.ge(lo, hi), S.or_(S.ge(t, lo), S.le(t, hi))))


def half(S, ap):
    return (ap.diameter / 2.,) * 2 if isinstance(ap, P.Circle) else (ap.width / 2., ap.height / 2.)


@spec('C04', functions=[M + 'Arc.bounding_box', M + 'Arc.bounding_box_no_aperture'], params=ARC_CASES, n=100, wall_s=300, timeout_ms=20000)
def arc_contains(S, case):
    """The box of an arc contains every point of it, grown by half the aperture."""
    o, a0, a1, r, c, lo, hi, pt = arc_case(S, case)
    single = case[0]
    two_pi = 2 * S.pi
    if single:
        S.assume(S.not_(S.eq(a0, a1)))
        S.assume(S.or_(S.and_(S.le(lo, hi), S.le(hi - lo, S.pi / 2)), S.and_(S.gt(lo, hi), S.le(hi + two_pi - lo, S.pi / 2))))
    t = S.real('t', 0, 7)
    S.assume(S.and_(S.lt(t, two_pi), swept(S, lo, hi, t)))
    S.lemma_trig_order(a0, t)
    S.lemma_trig_order(a1, t)
    q = pt(t)
    inside(S, o.bounding_box_no_aperture, q, 'point of the arc inside')
    w2, h2 = half(S, o.aperture)
    box = o.bounding_box
    inside(S, box, (q[0] - w2, q[1] - h2), 'stroke inside')
    inside(S, box, (q[0] + w2, q[1] + h2), 'stroke inside')


@spec('C04', functions=[M + 'Arc.bounding_box', M + 'Arc.bounding_box_no_aperture'], params=ARC_CASES, n=100, wall_s=300, timeout_ms=20000)
def arc_tight(S, case):
    """Each side of the box of an arc touches the arc."""
    o, a0, a1, r, c, lo, hi, pt = arc_case(S, case)
    single = case[0]
    if single:
        S.assume(S.not_(S.eq(a0, a1)))
    w2, h2 = half(S, o.aperture)
    for box, w, h in ((o.bounding_box_no_aperture, 0, 0), (o.bounding_box, w2, h2)):
        for side, got, grow, axis, ang in (('left', box[0][0] + w, None, 0, S.pi), ('right', box[0][1] - w, None, 0, 0 * S.pi),
                                           ('bottom', box[1][0] + h, None, 1, 3 * S.pi / 2), ('top', box[1][1] - h, None, 1, S.pi / 2)):
            far = c[axis] + (r if side in ('right', 'top') else -r)
            S.check(side, S.or_(S.eq(got, o.start[axis]), S.eq(got, o.end[axis]), S.and_(S.eq(got, far), swept(S, lo, hi, ang))))


# ------------------------------------------------------------------ histories

SET = {k: v + ['rotation'] for k, v in SH.LENGTHS.items() if k not in ('TestRecord',)}
SET['Line'] = SET['Line'] + ['aperture']
SET['Arc'] = SET['Arc'] + ['aperture', 'direction']
SET['ChamferRectangle'] = SET['ChamferRectangle'] + ['corners']
CASES = [(k, a) for k in sorted(SET) for a in SET[k] if not (k in ('Donut', 'SquareRoundDonut') and a.endswith('_diameter') and
                                                              not (k == 'SquareRoundDonut' and a == 'outer_diameter'))]


COMPASS = [(1, 0), (0, 1), (-1, 0), (0, -1)]


def history_shape(S, kind, units, rotation=0):
    """An arbitrary shape; arcs start and end at a compass point of any circle."""
    if kind != 'Arc':
        return SH.make(S, kind, 'o', units, rotation=rotation, aps=('Circle', 'Rectangle'), polarity=False)
    c, r = SH.point(S, 'c'), S.real('r', 1, 1000)
    s, e = S.choice('s', COMPASS), S.choice('e', COMPASS[:2])
    pt = lambda d: (c[0] + r * d[0], c[1] + r * d[1])
    return P.Arc(pt(s), pt(e), c, S.choice('dir', ['clockwise', 'counterclockwise']), SH.aperture(S, 'ap', units, ('Circle', 'Rectangle')),
                 'multi-quadrant', units=units)


def snapshot(o):
    v = None if isinstance(o, P.Line) else o.vertices
    return o.bounding_box, v if v is None else list(v)


def twin(o):
    o2 = copy.copy(o)
    if type(o) in (P.Line, P.Arc):
        o2.aperture = copy.copy(o.aperture)
    return o2


@spec('C04', functions=[M + 'Primitive._changed'] + [M + '%s.%s' % c for c in CASES], params=CASES, n=60)
def set_attribute(S, ca):
    """After an attribute is set, box and vertices are those of a shape whose box was never asked for before."""
    kind, attr = ca
    o = history_shape(S, kind, 'inch')
    o2 = twin(o)
    snapshot(o)
    if attr == 'rotation':
        v = S.choice('v', [30, 90, -45])
    elif kind == 'Arc' and attr in SH.POINTS:
        k, d = S.real('k', 1, 1000), S.choice('d', COMPASS)
        v = (o.center[0] + k * d[0], o.center[1] + k * d[1])
        if attr == 'center':
            v = (o.start[0] + k * d[0], o.start[1] + k * d[1])
    elif attr in SH.POINTS:
        v = SH.point(S, 'v')
    elif attr == 'aperture':
        v = P.Circle((0, 0), SH.size(S, 'v'), units='inch')
    elif attr == 'direction':
        v = 'clockwise' if o.direction == 'counterclockwise' else 'counterclockwise'
    elif attr == 'corners':
        v = (False, True, True, False)
    else:
        v = SH.size(S, 'v')
    setattr(o, attr, v)
    setattr(o2, attr, v)
    S.check('value kept', S.eq(getattr(o, attr), v))
    a, b = snapshot(o), snapshot(o2)
    S.check('box is current', S.eq(a[0], b[0]))
    if a[1] is not None:
        S.check('vertices are current', S.eq(a[1], b[1]))
        S.check('segments are current', S.eq(list(o.segments), list(o2.segments)))


@spec('C04', functions=[M + 'Primitive.offset', M + 'Primitive.to_inch', M + 'Primitive.to_metric', M + 'Primitive._changed'],
      params=[(k, w) for k in SH.SIMPLE if k != 'TestRecord' for w in ('offset', 'to_metric', 'to_inch', 'twice')], n=60)
def moved_or_converted(S, kw):
    """After a move or a unit conversion, box and vertices are those of a shape whose box was never asked for before."""
    kind, what = kw
    o = history_shape(S, kind, 'metric' if what == 'to_inch' else 'inch', rotation=S.choice('rot', [0, 30]))
    o2 = twin(o)
    snapshot(o)
    d = SH.point(S, 'd')

    def act(z, look):
        if what in ('offset', 'twice'):
            z.offset(d[0], d[1])
        if what in ('to_metric', 'twice'):
            if look:
                snapshot(z)
            z.to_metric()
        if what == 'to_inch':
            z.to_inch()
    act(o, True)
    act(o2, False)
    a, b = snapshot(o), snapshot(o2)
    S.check('box is current', S.eq(a[0], b[0]))
    if a[1] is not None:
        S.check('vertices are current', S.eq(a[1], b[1]))


@spec('C04', functions=[M + 'Line.vertices', 'gerber.utils.convex_hull', 'gerber.utils.ConvexHull_qh', 'gerber.utils._findhull', 'gerber.utils._optimize'],
      params=['Rectangle', 'Polygon'], n=3000,
      bounded='quickhull compares arc tangents of symbolic points and recurses on index sets: outside the solver arithmetic; run-time evaluation of the contract only')
def line_hull(S, kind):
    """The vertices of a line are corners of its aperture at its ends, and every such corner lies within their hull."""
    pos = (0, 0)
    g = lambda n: round(S.real(n, 0.01, 10), 2)
    ap = P.Rectangle(pos, g('w'), g('h')) if kind == 'Rectangle' else P.Polygon(pos, S.choice('sides', [3, 4, 5, 6, 8]), g('r'), rotation=S.choice('rot', [0, 15, 45]))
    s, e = ((round(S.real('sx', -20, 20), 1), round(S.real('sy', -20, 20), 1)), (round(S.real('ex', -20, 20), 1), round(S.real('ey', -20, 20), 1)))
    corners = [(q[0] + v[0], q[1] + v[1]) for v in ap.vertices for q in (s, e)]
    o = P.Line(s, e, ap)
    vs = list(o.vertices)
    S.check('corners', all(any(S.near(v, q, 1e-7) for q in corners) for v in vs))
    S.check('at least three', len(vs) >= 3)
    area = sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(vs, vs[1:] + vs[:1]))
    sign = 1 if area > 0 else -1
    for a, b in zip(vs, vs[1:] + vs[:1]):
        for q in corners:
            S.check('corner within', sign * ((b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])) >= -1e-6)
    o.offset(1, 2)
    ext = lambda z: [f(q[k] for q in z) for f in (min, max) for k in (0, 1)]
    S.check('vertices are current', S.near(ext(o.vertices), ext([(x + 1, y + 2) for x, y in vs]), 1e-6))


@spec('C04', functions=[M + 'Outline.vertices', M + 'Outline.width', M + 'Primitive.segments'], params=[3, 4], n=60)
def outline(S, n):
    """The vertices of an outline are its corners, its width that of its box, its segments every pair of corners."""
    ps = [SH.point(S, 'p%d' % i) for i in range(n)]
    ap = P.Circle((0, 0), 0)
    o = P.Outline([P.Line(a, b, ap) for a, b in zip(ps, ps[1:] + ps[:1])], units='inch')
    S.check('vertices', S.eq(list(o.vertices), ps))
    S.check('width', S.eq(o.width, S.max(*[q[0] for q in ps]) - S.min(*[q[0] for q in ps])))
    S.check('segments', len(o.segments) == n * (n - 1) // 2)
