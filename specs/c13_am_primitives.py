"""C13: aperture macro primitives: written text, geometry and polarity."""
from engine.reg import spec
import gerber.am_statements as AS
import gerber.primitives as P
from gerber.gerber_statements import AMParamStmt

M = 'gerber.am_statements.'
BIG = 1000
CLASSES = ['Circle', 'VectorLine', 'Outline', 'Polygon', 'Moire', 'Thermal', 'CenterLine', 'LowerLeftLine']
FIELDS = {
    'Circle': ['diameter', 'position'],
    'VectorLine': ['width', 'start', 'end', 'rotation'],
    'Outline': ['start_point', 'points', 'rotation'],
    'Polygon': ['vertices', 'position', 'diameter', 'rotation'],
    'Moire': ['position', 'diameter', 'ring_thickness', 'gap', 'max_rings', 'crosshair_thickness', 'crosshair_length', 'rotation'],
    'Thermal': ['position', 'outer_diameter', 'inner_diameter', 'gap', 'rotation'],
    'CenterLine': ['width', 'height', 'center', 'rotation'],
    'LowerLeftLine': ['width', 'height', 'lower_left', 'rotation'],
}


COUNT = {'Circle': 3, 'VectorLine': 6, 'Outline': 7, 'Polygon': 4, 'Moire': 8, 'Thermal': 6, 'CenterLine': 5, 'LowerLeftLine': 5}


class Fresh(object):
    """Arbitrary numbers; any: only this one (0: none) may be negative or small."""
    def __init__(self, S, any=None):
        self.S, self.n, self.any = S, 0, any

    def num(self, lo=-BIG, hi=BIG):
        self.n += 1
        return self.S.real('a%d' % self.n, lo if self.any in (None, self.n) else 1, hi)

    def size(self):
        return self.num(0)

    def point(self):
        return (self.num(), self.num())


def primitive(S, kind, f, rot=None, n=3):
    """An arbitrary macro primitive."""
    r = (lambda: f.num(-360, 360)) if rot is None else (lambda: rot)
    e = S.choice('exposure', ['on', 'off'])
    if kind == 'Circle':
        return AS.AMCirclePrimitive(1, e, f.size(), f.point())
    if kind == 'VectorLine':
        return AS.AMVectorLinePrimitive(S.choice('code', [2, 20]), e, f.size(), f.point(), f.point(), r())
    if kind == 'Outline':
        pts = [f.point() for _ in range(n)]
        return AS.AMOutlinePrimitive(4, e, pts[0], pts[1:] + [pts[0]], r())
    if kind == 'Polygon':
        return AS.AMPolygonPrimitive(5, e, S.choice('vertices', range(3, 13)), f.point(), f.size(), r())
    if kind == 'Moire':
        return AS.AMMoirePrimitive(6, f.point(), f.size(), f.size(), f.size(), S.choice('rings', [1, 2, 12]), f.size(), f.size(), r())
    if kind == 'Thermal':
        return AS.AMThermalPrimitive(7, f.point(), f.size(), f.size(), f.size(), r())
    if kind == 'CenterLine':
        return AS.AMCenterLinePrimitive(21, e, f.size(), f.size(), f.point(), r())
    return AS.AMLowerLeftLinePrimitive(22, e, f.size(), f.size(), f.point(), r())


def flat(v):
    if isinstance(v, (tuple, list)):
        return [y for x in v for y in flat(x)]
    return [v]


@spec('C13', functions=[M + 'AM%sPrimitive.%s' % (k, m) for k in CLASSES for m in ('to_gerber', 'from_gerber')] + [M + '_decimal'],
      params=[(k, i) for k in CLASSES for i in range(0, COUNT[k] + 1)], n=30)
def written_and_read(S, ki):
    """A primitive written and read again has the same code, exposure and values, and no exponents.

    One value of any sign and magnitude at a time, the others between 1 and 1000."""
    kind, i = ki
    S.lazy_numbers()
    a = primitive(S, kind, Fresh(S, i))
    text = a.to_gerber()
    S.check('no exponents', 'e' not in text and 'E' not in text)
    S.check('one block', text.endswith('*') and '*' not in text[:-1])
    b = type(a).from_gerber(text)
    S.check('kind', b.code == a.code and b.exposure == a.exposure)
    unchanged(S, a, b, kind)


def unchanged(S, a, b, kind):
    for name in FIELDS[kind]:
        x, y = flat(getattr(a, name)), flat(getattr(b, name))
        S.check('length of ' + name, len(x) == len(y))
        for u, v in zip(x, y):
            S.check(name, S.near(u, v, 1e-6))


@spec('C13', functions=['gerber.gerber_statements.AMParamStmt.build'], params=CLASSES, n=300,
      bounded='composition of written_and_read with the tokenizer (C12) on the text of arbitrary floats, whose digits are not modelled one by one')
def macro_of_written(S, kind):
    """A written primitive parsed as macro text and built again has the same values."""
    a = primitive(S, kind, Fresh(S))
    if kind == 'Thermal':
        S.assume(0 < a.inner_diameter < a.outer_diameter and a.gap < a.outer_diameter / 2)
    st = AMParamStmt('AM', 'M', a.to_gerber())
    st.units = 'inch'
    st.build()
    S.check('one primitive', len(st.primitives) == 1)
    b = st.primitives[0]
    S.check('kind', type(b) is type(a) and b.code == a.code and b.exposure == a.exposure)
    unchanged(S, a, b, kind)


@spec('C13', functions=[M + 'AM%sPrimitive.%s' % (k, m) for k in CLASSES for m in ('to_gerber', 'from_gerber')],
      params=CLASSES, n=60)
def read_text(S, kind):
    """Values are taken from the positions the format assigns to them."""
    f = Fresh(S)
    a = primitive(S, kind, f)
    names = FIELDS[kind]
    vals = [x for name in names for x in flat(getattr(a, name))]
    if kind == 'Outline':
        vals = [3] + vals
    if kind not in ('Moire', 'Thermal'):
        vals = [1 if a.exposure == 'on' else 0] + vals
    S.lazy_numbers()
    b = type(a).from_gerber(','.join([str(a.code)] + [str(v) for v in vals]) + S.choice('end', ['', '*']))
    S.check('kind', b.code == a.code and b.exposure == a.exposure)
    for name in names:
        x, y = flat(getattr(a, name)), flat(getattr(b, name))
        S.check('length of ' + name, len(x) == len(y))
        for u, v in zip(x, y):
            S.check(name, S.eq(u, v))


def turned(S, p, c, s, about=(0, 0)):
    x, y = p[0] - about[0], p[1] - about[1]
    return (c * x - s * y + about[0], s * x + c * y + about[1])


def contour(S, label, o, want, units, polarity):
    """A closed polygon through the given corners, in either direction, from any of them."""
    S.check(label + ': kind', type(o) is P.Outline and o.units == units and o.level_polarity == polarity)
    S.check(label + ': corners', len(o.primitives) == len(want))
    n = len(want)
    for i in range(n):
        a, b = o.primitives[i], o.primitives[(i + 1) % n]
        S.check(label + ': connected', S.and_(S.eq(a.end[0], b.start[0]), S.eq(a.end[1], b.start[1])))
        S.check(label + ': straight, without width', type(a) is P.Line and a.units == units and S.decide(S.eq(a.aperture.diameter, 0)))
    pts = [p.start for p in o.primitives]
    S.check(label + ': vertices', all(S.decide(S.and_(S.eq(p[0], q[0]), S.eq(p[1], q[1]))) for p, q in zip(pts, o.vertices)))
    ways = [[(k + d * i) % n for i in range(n)] for k in range(n) for d in (1, -1)]
    S.check(label + ': through the corners', S.or_(*[S.and_(*[S.and_(S.near(pts[i][0], want[j][0], 1e-6), S.near(pts[i][1], want[j][1], 1e-6))
                                                            for i, j in enumerate(w)]) for w in ways]))


GEOMETRY = ['Circle', 'VectorLine', 'Outline', 'Polygon', 'CenterLine']


@spec('C13', functions=[M + 'AM%sPrimitive.to_primitive' % k for k in GEOMETRY], params=[(k, u) for k in GEOMETRY for u in ('inch', 'metric')], n=100)
def geometry(S, ku):
    """Every primitive has the shape of its definition, turned by its rotation, dark or clear by its exposure."""
    kind, units = ku
    rot = S.real('rot', -360, 360)
    a = primitive(S, kind, Fresh(S), rot, n=4)
    pol = 'dark' if a.exposure == 'on' else 'clear'
    c, s = S.cos(S.radians(rot)), S.sin(S.radians(rot))
    o = a.to_primitive(units)
    if kind == 'Circle':
        S.check('circle', type(o) is P.Circle and o.units == units and o.level_polarity == pol)
        S.check('circle', S.and_(S.eq(o.diameter, a.diameter), S.eq(o.position[0], a.position[0]), S.eq(o.position[1], a.position[1])))
        S.check('no hole', not o.hole_diameter and not o.hole_width)
    elif kind == 'Polygon':
        S.check('polygon', type(o) is P.Polygon and o.units == units and o.level_polarity == pol)
        S.check('polygon', S.and_(S.eq(o.radius * 2, a.diameter), S.eq(o.position[0], a.position[0]), S.eq(o.position[1], a.position[1]),
                                  S.eq(o.rotation, rot)))
        S.check('sides', o.sides == a.vertices)
        S.check('no hole', not o.hole_diameter and not o.hole_width)
    elif kind == 'Outline':
        contour(S, 'outline', o, [turned(S, p, c, s) for p in a.points], units, pol)
    elif kind == 'CenterLine':
        x, y = a.center
        w, h = a.width / 2, a.height / 2
        contour(S, 'center line', o, [turned(S, p, c, s, a.center) for p in ((x - w, y - h), (x + w, y - h), (x + w, y + h), (x - w, y + h))], units, pol)
    else:
        dx, dy = a.end[0] - a.start[0], a.end[1] - a.start[1]
        S.assume(S.gt(dx * dx + dy * dy, 0.0001))
        ln = S.sqrt(dx * dx + dy * dy)
        nx, ny = -dy * a.width / (2 * ln), dx * a.width / (2 * ln)
        contour(S, 'vector line', o, [turned(S, p, c, s) for p in ((a.start[0] + nx, a.start[1] + ny), (a.start[0] - nx, a.start[1] - ny),
                                                                   (a.end[0] - nx, a.end[1] - ny), (a.end[0] + nx, a.end[1] + ny))], units, pol)


@spec('C13', functions=[M + 'AMThermalPrimitive.to_primitive', M + 'AMThermalPrimitive._approximate_arc_cw'], params=['ring', 'covered'], n=200)
def thermal(S, case):
    """A thermal is four equal sections of a ring, each a quarter turn from the last, a gap apart."""
    f = Fresh(S)
    pos = f.point()
    ri, ro, half = S.real('ri', 0, BIG), S.real('ro', 0.01, BIG), S.real('half', 0, BIG)
    rot = S.real('rot', -360, 360)
    S.assume(S.and_(S.lt(ri, ro), S.lt(2 * half * half, ro * ro * 0.999)))
    if case == 'ring':
        S.assume(S.lt(2 * half * half, ri * ri * 0.999))
    elif case == 'covered':
        S.assume(S.gt(2 * half * half, ri * ri * 1.001))
    units = S.choice('units', ['inch', 'metric'])
    t = AS.AMThermalPrimitive(7, pos, 2 * ro, 2 * ri, 2 * half, rot)
    sections = t.to_primitive(units)
    S.check('four sections', len(sections) == 4)
    c, s = S.cos(S.radians(rot)), S.sin(S.radians(rot))
    first = [p.start for p in sections[0].primitives]
    n = len(first)
    for k, o in enumerate(sections):
        S.check('kind', type(o) is P.Outline and o.units == units and o.level_polarity == 'dark')
        S.check('same corners', len(o.primitives) == n)
        q = [(1, 0), (0, 1), (-1, 0), (0, -1)][k]
        for i in range(n):
            a, b = o.primitives[i], o.primitives[(i + 1) % n]
            S.check('connected', S.and_(S.eq(a.end[0], b.start[0]), S.eq(a.end[1], b.start[1])))
            S.check('straight, without width', type(a) is P.Line and a.units == units and S.decide(S.eq(a.aperture.diameter, 0)))
            if k:
                w = turned(S, first[i], q[0], q[1], pos)
                S.check('a quarter turn further', S.and_(S.near(a.start[0], w[0], 1e-6), S.near(a.start[1], w[1], 1e-6)))
    # the first section, turned back about the center
    local = [(p[0] - pos[0], p[1] - pos[1]) for p in first]
    back = lambda p: turned(S, p, c, -s)
    for p in local[n - 11:]:
        S.check('outer points on the outer circle', S.eq(p[0] * p[0] + p[1] * p[1], ro * ro))
    angles(S, S.asin(half / ro), S.radians(rot))
    S.check('outer ends at the gaps', S.eq(back(local[n - 1])[1], half))
    S.check('outer ends at the gaps', S.eq(back(local[n - 11])[0], half))
    if case == 'covered':
        S.check('corner', n == 12)
        S.check('corner', S.eq(back(local[0])[0], half))
        S.check('corner', S.eq(back(local[0])[1], half))
    else:
        S.check('points', n == 22)
        for p in local[:11]:
            S.check('inner points on the inner circle', S.eq(p[0] * p[0] + p[1] * p[1], ri * ri))
        angles(S, S.asin(half / ri), S.radians(rot))
        S.check('inner ends at the gaps', S.eq(back(local[0])[1], half))
        S.check('inner ends at the gaps', S.eq(back(local[10])[0], half))


def angles(S, a, r):
    """cos and sin of a + r and of 90 degrees - a + r."""
    S.lemma_angle_add(a, r)
    h = S.pi / 2
    S.lemma_angle_add(h, -a)
    S.lemma_angle_add(h - a, r)
    S.lemma_congruence()


FROM = ['Circle', 'Rectangle', 'Line', 'Outline', 'Polygon']


@spec('C13', functions=[M + 'AMCirclePrimitive.from_primitive', M + 'AMCenterLinePrimitive.from_primitive', M + 'AMVectorLinePrimitive.from_primitive',
                        M + 'AMOutlinePrimitive.from_primitive', M + 'AMPolygonPrimitive.from_primitive'], params=FROM, n=100)
def from_shapes(S, kind):
    """A macro primitive made from a shape describes that shape (outlines to six decimals)."""
    f = Fresh(S)
    units = 'inch'
    pos, rot = f.point(), S.real('rot', -360, 360)
    if kind == 'Circle':
        a = P.Circle(pos, f.size())
        m = AS.AMCirclePrimitive.from_primitive(a)
        o = m.to_primitive(units)
        S.check('circle', S.and_(S.eq(o.diameter, a.diameter), S.eq(o.position[0], pos[0]), S.eq(o.position[1], pos[1])))
    elif kind == 'Polygon':
        a = P.Polygon(pos, S.choice('sides', [3, 6, 12]), f.size(), 0, rotation=rot)
        o = AS.AMPolygonPrimitive.from_primitive(a).to_primitive(units)
        S.check('polygon', S.and_(S.eq(o.radius, a.radius), S.eq(o.position[0], pos[0]), S.eq(o.position[1], pos[1]), S.eq(o.rotation, rot)))
        S.check('sides', o.sides == a.sides)
    elif kind == 'Rectangle':
        a = P.Rectangle(pos, f.size(), f.size(), rotation=rot)
        o = AS.AMCenterLinePrimitive.from_primitive(a).to_primitive(units)
        c, s = S.cos(S.radians(rot)), S.sin(S.radians(rot))
        x, y = pos
        w, h = a.width / 2, a.height / 2
        contour(S, 'rectangle', o, [turned(S, p, c, s, pos) for p in ((x - w, y - h), (x + w, y - h), (x + w, y + h), (x - w, y + h))], units, 'dark')
    elif kind == 'Line':
        end, w = f.point(), f.size()
        m = AS.AMVectorLinePrimitive.from_primitive(P.Line(pos, end, P.Rectangle(None, w, w)))
        S.check('line', S.and_(S.eq(m.width, w), S.eq(m.start[0], pos[0]), S.eq(m.start[1], pos[1]), S.eq(m.end[0], end[0]), S.eq(m.end[1], end[1]),
                               S.eq(m.rotation, 0)))
    else:
        pts = [f.point() for _ in range(3)]
        S.assume(S.gt(S.abs(pts[0][0] - pts[1][0]), 1))
        a = P.Outline([P.Line(p, q, P.Circle((0, 0), 0)) for p, q in zip(pts, pts[1:] + pts[:1])])
        m = AS.AMOutlinePrimitive.from_primitive(a)
        S.check('corners', len(m.points) == 3)
        for p, q in zip([m.start_point] + list(m.points), pts + [pts[0]]):
            S.check('corner', S.and_(S.near(p[0], q[0], 1e-6), S.near(p[1], q[1], 1e-6)))
        S.check('not turned', S.eq(m.rotation, 0))
    if kind != 'Line' and kind != 'Outline':
        S.check('dark', o.level_polarity == 'dark')


@spec('C13', functions=['gerber.primitives.AMGroup.__init__', 'gerber.primitives.AMGroup.position'], n=100)
def groups(S, p):
    """A macro aperture is the shapes of its primitives in order, comments left out, moved to where it is flashed."""
    f = Fresh(S)
    d = [f.size() for _ in range(2)]
    c = [f.point() for _ in range(2)]
    units = S.choice('units', ['inch', 'metric'])
    note = AS.AMCommentPrimitive(0, 'note')
    sq = AS.AMCenterLinePrimitive(21, 'off', d[1], d[1], c[1], 0)
    ring = AS.AMThermalPrimitive(7, (0, 0), 4, 2, 1, 0)
    items = [note] * S.choice('first', [0, 1]) + [AS.AMCirclePrimitive(1, 'on', d[0], c[0]), note, sq] + [ring] * S.choice('ring', [0, 1])
    g = P.AMGroup(items, units=units)
    S.check('count', len(g.primitives) == 2 + (4 if ring in items else 0))
    S.check('order', type(g.primitives[0]) is P.Circle and all(type(x) is P.Outline for x in g.primitives[1:]))
    S.check('polarity', [x.level_polarity for x in g.primitives[:2]] == ['dark', 'clear'])
    at = [f.point() for _ in range(2)]
    g.position = at[0]
    if S.flag('again'):
        g.position = at[1]
        at[0] = at[1]
    S.check('position', S.and_(S.eq(g.position[0], at[0][0]), S.eq(g.position[1], at[0][1])))
    S.check('moved', S.and_(*[S.near(g.primitives[0].position[k], c[0][k] + at[0][k], 1e-6) for k in (0, 1)]))
    box = g.primitives[1].bounding_box
    S.check('moved', S.and_(*[S.near(box[k][0], c[1][k] + at[0][k] - d[1] / 2, 1e-6) for k in (0, 1)]))
