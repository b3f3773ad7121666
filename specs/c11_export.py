"""C11: Rs274xContext turns objects into statements that the interpreter reads back as the same objects."""
import copy
from engine.reg import spec
import shapes as SH
import gerber.primitives as P
import gerber.am_statements as AM
import gerber.gerber_statements as GS
from gerber.cam import FileSettings
from gerber.rs274x import GerberParser
from gerber.render.rs274x_backend import Rs274xContext

X = 'gerber.render.rs274x_backend.Rs274xContext.'
APS = ['Circle', 'Rectangle', 'Obround', 'Polygon']
HOLES = [None, 'round', 'rectangular']
STATE = [X + '_render_level_polarity', X + '_simplify_point', X + '_select_aperture']
CREATE = [X + '_get_circle', X + '_get_rectangle', X + '_get_obround', X + '_get_polygon']


def shape(S, n, kind, pos, hole, units):
    """A standard shape, as the interpreter makes them: no hole is 0, not None."""
    kw = {'units': units, 'hole_diameter': 0, 'hole_width': 0, 'hole_height': 0}
    if hole == 'round':
        kw['hole_diameter'] = S.real(n + '.hd', 0.001, SH.BIG)
    elif hole:
        kw['hole_width'], kw['hole_height'] = S.real(n + '.hw', 0.001, SH.BIG), S.real(n + '.hh', 0.001, SH.BIG)
    w, h = SH.size(S, n + '.w'), SH.size(S, n + '.h')
    if kind == 'Circle':
        return P.Circle(pos, w, **kw)
    if kind == 'Polygon':
        return P.Polygon(pos, S.choice(n + '.sides', [4, 6]) if n == 'o' else 6, w, rotation=S.real(n + '.rot', 0, 360), **kw)
    return getattr(P, kind)(pos, w, h, **kw)


class World(object):
    """A context in an arbitrary state, and an interpreter in the state reached by reading what the context has written.

    `vary` names the parts of the state that are arbitrary; the others are as at the beginning of a file, after a flash."""
    def __init__(self, S, kind='Circle', hole=None, vary=('polarity', 'function', 'quadrant', 'selected'), units='inch'):
        self.S = S
        self.units = units
        self.ctx = Rs274xContext(FileSettings(units=self.units, zero_suppression='leading', format=(2, 6)))
        self.reader = GerberParser()
        # two apertures exist already: one arbitrary of the same kind, one of fixed size
        self.old = shape(S, 'old', kind, (1, 2), hole, self.units)
        self.ctx.render(self.old)
        self.ctx.render(P.Circle((1, 2), 0.25, hole_diameter=0, hole_width=0, hole_height=0, units=units))
        self.nh = self.nb = 0
        self.read()
        first = sorted(self.reader.apertures)[0]
        at = SH.point(S, 'at')
        self.ctx._pos = at
        self.reader.x, self.reader.y = at
        pol = S.choice('polarity now', [None, 'dark', 'clear']) if 'polarity' in vary else 'dark'
        self.ctx._level_polarity, self.reader.level_polarity = pol, pol or 'dark'
        f = S.choice('function now', [None, 'G01', 'G02', 'G03']) if 'function' in vary else None
        self.ctx._func = f
        self.reader.interpolation = 'linear' if f == 'G01' else S.choice('mode', ['linear', 'arc']) if 'function' in vary else 'linear'
        self.reader.direction = 'clockwise' if f == 'G02' else 'counterclockwise'
        q = S.choice('quadrant now', [None, 'single-quadrant', 'multi-quadrant']) if 'quadrant' in vary else None
        self.ctx._quadrant_mode = q
        self.reader.quadrant_mode = q or 'single-quadrant'
        d = S.choice('selected', [None, 0]) if 'selected' in vary else 0
        self.ctx._dcode = None if d is None else first
        self.reader.aperture = first
        self.before = dict(self.reader.apertures)
        self.reader.primitives = []

    def read(self):
        """Feed the statements written since the last time to the interpreter: all definitions come before all of the body."""
        new = self.ctx.header[self.nh:] + self.ctx.body[self.nb:]
        self.nh, self.nb = len(self.ctx.header), len(self.ctx.body)
        for st in new:
            self.reader.evaluate(st)
        return new

    def in_step(self, S):
        """The interpreter is in the state the context takes it to be in."""
        c, r = self.ctx, self.reader
        S.check('position known', S.eq((r.x, r.y), tuple(c._pos)))
        S.check('polarity known', c._level_polarity is None or c._level_polarity == r.level_polarity)
        S.check('function known', c._func != 'G01' or r.interpolation == 'linear')
        S.check('quadrant mode known', c._quadrant_mode is None or c._quadrant_mode == r.quadrant_mode)
        S.check('aperture known', c._dcode is None or c._dcode == r.aperture)
        S.check('earlier apertures kept', all(r.apertures[k] is self.before[k] for k in self.before))
        S.check('next code unused', all(k < c._next_dcode for k in r.apertures))


def same_shape(S, label, a, b, position=True):
    S.check(label + ' kind', type(a) is type(b))
    da = dict((n, v) for n, v in SH.lengths(a) if n != 'position')
    db = dict((n, v) for n, v in SH.lengths(b) if n != 'position')
    S.check(label + ' dimensions', S.and_(*[S.eq(da.get(n, 0), db.get(n, 0)) for n in sorted(set(da) | set(db))]))
    if isinstance(a, P.Polygon):
        S.check(label + ' sides', a.sides == b.sides)
        S.check(label + ' rotation', S.eq(a.rotation, b.rotation))
    if position:
        S.check(label + ' position', S.eq(tuple(a.position), tuple(b.position)))


def apart(S, a, b):
    """Either the same point, or different in both coordinates (the mixed cases are separate contracts)."""
    S.assume(S.or_(S.eq(a, b), S.and_(S.not_(S.eq(a[0], b[0])), S.not_(S.eq(a[1], b[1])))))


FLASH = [X + '_render_flash', X + '_render_circle', X + '_render_rectangle', X + '_render_obround', X + '_render_polygon',
         'gerber.render.render.GerberContext.render'] + STATE + CREATE


def flash_ok(S, w, o):
    w.ctx.render(o)
    w.read()
    got = w.reader.primitives
    S.check('one object', len(got) == 1)
    same_shape(S, 'flash', got[0], o)
    S.check('flash polarity', got[0].level_polarity == (o.level_polarity or 'dark'))
    w.in_step(S)


@spec('C11', functions=FLASH, params=[(k, h, c) for k in APS for h in HOLES for c in (True, False)], n=60)
def flashes(S, khc):
    """A flashed standard shape is read back as the same shape at the same place, whatever polarity and aperture were in force."""
    kind, hole, condensed = khc
    w = World(S, kind, hole, vary=('polarity', 'selected'), units='inch' if condensed else 'metric')
    w.ctx.condensed_flash = condensed
    o = shape(S, 'o', kind, SH.point(S, 'o.pos'), hole, w.units)
    o.level_polarity = S.choice('o.polarity', ['dark', 'clear', None])
    apart(S, o.position, w.ctx._pos)
    flash_ok(S, w, o)


@spec('C11', functions=FLASH, params=[True, False], n=100)
def flash_points(S, condensed):
    """... and wherever the current point and whatever the interpolation mode was."""
    w = World(S, vary=('function', 'quadrant'), units='metric' if condensed else 'inch')
    w.ctx.condensed_flash = condensed
    o = P.Circle(SH.point(S, 'o.pos'), w.old.diameter, hole_diameter=0, hole_width=0, hole_height=0, units=w.units, level_polarity='clear')
    flash_ok(S, w, o)


LINE = [X + '_render_line', 'gerber.render.render.GerberContext.render'] + STATE + CREATE


def line_ok(S, w, o):
    w.ctx.render(o)
    w.read()
    got = w.reader.primitives
    S.check('one object', len(got) == 1)
    g = got[0]
    S.check('a line', type(g) is P.Line)
    S.check('line ends', S.eq((tuple(g.start), tuple(g.end)), (o.start, o.end)))
    S.check('line polarity', g.level_polarity == (o.level_polarity or 'dark'))
    same_shape(S, 'aperture', g.aperture, o.aperture, position=False)
    w.in_step(S)


@spec('C11', functions=LINE, params=[(k, h) for k in APS for h in HOLES], n=60)
def lines(S, kh):
    """A line is read back as the same line with the same aperture, whatever polarity and aperture were in force."""
    kind, hole = kh
    w = World(S, kind, hole, vary=('polarity', 'selected'), units='metric' if hole else 'inch')
    ap = shape(S, 'ap', kind, None, hole, w.units)
    o = P.Line(SH.point(S, 'start'), SH.point(S, 'end'), ap, level_polarity=S.choice('o.polarity', ['dark', 'clear', None]), units=w.units)
    apart(S, o.start, w.ctx._pos)
    S.assume(S.and_(S.not_(S.eq(o.start[0], o.end[0])), S.not_(S.eq(o.start[1], o.end[1]))))
    line_ok(S, w, o)


@spec('C11', functions=LINE, n=200)
def line_points(S, p):
    """... and wherever the current point and whatever the interpolation mode was; lines of no length (dots) included."""
    w = World(S, vary=('function', 'quadrant'), units='metric')
    ap = P.Circle(None, w.old.diameter, hole_diameter=0, hole_width=0, hole_height=0, units=w.units)
    o = P.Line(SH.point(S, 'start'), SH.point(S, 'end'), ap, level_polarity='clear', units=w.units)
    line_ok(S, w, o)


ARC = [X + '_render_arc', X + '_simplify_offset', 'gerber.render.render.GerberContext.render'] + STATE + CREATE


def arc_ok(S, w, o):
    w.ctx.render(o)
    w.read()
    got = w.reader.primitives
    S.check('one object', len(got) == 1)
    g = got[0]
    S.check('an arc', type(g) is P.Arc)
    S.check('arc points', S.eq((tuple(g.start), tuple(g.end), tuple(g.center)), (o.start, o.end, o.center)))
    S.check('arc direction', g.direction == o.direction and g.quadrant_mode == 'multi-quadrant')
    S.check('arc polarity', g.level_polarity == (o.level_polarity or 'dark'))
    same_shape(S, 'aperture', g.aperture, o.aperture, position=False)
    w.in_step(S)


@spec('C11', functions=ARC, params=[(k, h) for k in APS for h in HOLES], n=100)
def arcs(S, kh):
    """A multi-quadrant arc is read back as the same arc with the same aperture, whatever polarity and aperture were in force."""
    kind, hole = kh
    w = World(S, kind, hole, vary=('polarity', 'selected'))
    ap = shape(S, 'ap', kind, None, hole, w.units)
    o = P.Arc(SH.point(S, 'start'), SH.point(S, 'end'), SH.point(S, 'center'), S.choice('dir', ['clockwise', 'counterclockwise']), ap, 'multi-quadrant',
              level_polarity=S.choice('o.polarity', ['dark', 'clear', None]), units=w.units)
    apart(S, o.start, w.ctx._pos)
    for q in (o.end, o.center):
        S.assume(S.and_(S.not_(S.eq(o.start[0], q[0])), S.not_(S.eq(o.start[1], q[1]))))
    arc_ok(S, w, o)


@spec('C11', functions=ARC, params=['clockwise', 'counterclockwise'], n=100)
def arc_points(S, direction):
    """... and wherever the current point and whatever the interpolation and quadrant modes were; full circles included."""
    w = World(S, vary=('function', 'quadrant'))
    ap = P.Circle(None, w.old.diameter, hole_diameter=0, hole_width=0, hole_height=0, units=w.units)
    o = P.Arc(SH.point(S, 'start'), SH.point(S, 'end'), SH.point(S, 'center'), direction, ap, 'multi-quadrant', level_polarity='dark', units=w.units)
    arc_ok(S, w, o)


def outline(S, kinds):
    """The segments of a closed contour."""
    pts = [SH.point(S, 'p%d' % i) for i in range(len(kinds))]
    out = []
    for i, k in enumerate(kinds):
        a, b = pts[i], pts[(i + 1) % len(kinds)]
        if k == 'L':
            out.append(P.Line(a, b, None))
        else:
            out.append(P.Arc(a, b, SH.point(S, 'c%d' % i), 'clockwise' if k == 'R' else 'counterclockwise', None, 'multi-quadrant'))
    return out


@spec('C11', functions=[X + '_render_line', X + '_render_arc', X + '_simplify_offset'] + STATE, params=['L', 'clockwise', 'counterclockwise'], n=100)
def segments(S, kind):
    """Inside a region, a segment that continues the contour is read back as that segment (or nothing, if it has no length), from any state."""
    w = World(S, vary=('function', 'quadrant'))
    r = w.reader
    r.region_mode = 'on'
    earlier = P.Line((1, 1), w.ctx._pos, None, level_polarity='dark')
    r.current_region = [earlier]
    a, b = w.ctx._pos, SH.point(S, 'end')
    if kind == 'L':
        o = P.Line(a, b, None)
    else:
        o = P.Arc(a, b, SH.point(S, 'center'), kind, None, 'multi-quadrant')
    o.level_polarity = S.choice('segment polarity', ['dark', None])
    if kind == 'L':
        w.ctx._render_line(o, None, default_polarity='dark')
    else:
        w.ctx._render_arc(o, None, default_polarity='dark')
    w.read()
    S.check('no object', r.primitives == [] and r.region_mode == 'on')
    S.check('same contour', r.current_region[0] is earlier)
    more = [x for x in r.current_region[1:] if isinstance(x, P.Arc) or not S.decide(S.eq(tuple(x.start), tuple(x.end)))]
    if kind == 'L' and S.decide(S.eq(a, b)):
        S.check('nothing drawn', more == [])
    else:
        S.check('one segment', len(more) == 1 and type(more[0]) is type(o))
        S.check('segment ends', S.eq((tuple(more[0].start), tuple(more[0].end)), (a, b)))
        S.check('segment arc', kind == 'L' or S.and_(S.eq(tuple(more[0].center), o.center), more[0].direction == kind))
    w.in_step(S)


@spec('C11', functions=[X + '_render_region', X + '_render_line', X + '_render_arc', 'gerber.render.render.GerberContext.render'] + STATE,
      params=['R', 'A', 'LL', 'LR', 'AL', 'LLL', 'LRL'], n=100)
def regions(S, kinds):
    """A region is read back as one region with the same contour, whatever polarity and interpolation mode were in force."""
    w = World(S, vary=('polarity', 'function') if len(kinds) < 3 else ('polarity',))
    segs = outline(S, kinds)
    apart(S, segs[0].start, w.ctx._pos)
    for s in segs:
        if len(segs) > 1:
            S.assume(S.and_(S.not_(S.eq(s.start[0], s.end[0])), S.not_(S.eq(s.start[1], s.end[1]))))
        if isinstance(s, P.Arc):
            S.assume(S.and_(S.not_(S.eq(s.start[0], s.center[0])), S.not_(S.eq(s.start[1], s.center[1]))))
    o = P.Region(segs, level_polarity=S.choice('o.polarity', ['dark', 'clear']), units=w.units)
    sp = S.choice('segment polarity', ['same', None])
    for s in segs:
        s.level_polarity = sp and o.level_polarity
    w.ctx.explicit_region_move_end = S.flag('explicit end')
    w.ctx.render(o)
    w.read()
    got = w.reader.primitives
    want = [s for s in segs if isinstance(s, P.Arc) or not S.decide(S.eq(s.start, s.end))]
    S.assume(len(want) > 0)
    S.check('one region', len(got) == 1 and type(got[0]) is P.Region)
    g = got[0]
    S.check('region polarity', g.level_polarity == o.level_polarity)
    have = [s for s in g.primitives if isinstance(s, P.Arc) or not S.decide(S.eq(tuple(s.start), tuple(s.end)))]
    S.check('segments', [type(s) for s in have] == [type(s) for s in want])
    for a, b in zip(have, want):
        S.check('segment ends', S.eq((tuple(a.start), tuple(a.end)), (b.start, b.end)))
        if isinstance(b, P.Arc):
            S.check('segment arc', S.eq(tuple(a.center), b.center))
            S.check('segment direction', a.direction == b.direction)
    S.check('region closed', w.reader.region_mode == 'off' and w.reader.current_region is None)
    w.in_step(S)


@spec('C11', functions=LINE + ARC, params=['line', 'arc'], n=100)
def dots(S, before):
    """A line of no length is left out only where a line or arc of the same aperture and polarity has just ended."""
    w = World(S, vary=('function',), units='metric')
    ap = P.Circle(None, w.old.diameter, hole_diameter=0, hole_width=0, hole_height=0, units=w.units)
    at = SH.point(S, 'end')
    first = P.Line(SH.point(S, 'start'), at, ap, level_polarity='dark', units=w.units)
    if before == 'arc':
        first = P.Arc(first.start, at, SH.point(S, 'center'), S.choice('dir', ['clockwise', 'counterclockwise']), ap, 'multi-quadrant', level_polarity='dark', units=w.units)
        S.assume(S.and_(*[S.not_(S.eq(first.start[k], first.center[k])) for k in (0, 1)]))
    S.assume(S.and_(S.not_(S.eq(first.start[0], at[0])), S.not_(S.eq(first.start[1], at[1]))))
    apart(S, first.start, w.ctx._pos)
    w.ctx.render(first)
    between = S.choice('between', ['nothing', 'clear', 'aperture', 'flash'])
    n = 1
    if between == 'aperture':
        ap = P.Circle(None, 0.25, hole_diameter=0, hole_width=0, hole_height=0, units=w.units)
    elif between == 'flash':
        w.ctx.render(P.Circle(at, 0.25, hole_diameter=0, hole_width=0, hole_height=0, units=w.units))
        n = 2
    w.ctx.render(P.Line(at, at, ap, level_polarity='clear' if between == 'clear' else 'dark', units=w.units))
    w.read()
    got = w.reader.primitives[n:]
    same = between == 'nothing' or S.decide(S.eq(w.old.diameter, 0.25)) and between != 'clear'
    S.check('dot drawn', (same and len(got) == 0) or (len(got) == 1 and S.and_(S.eq((tuple(got[0].start), tuple(got[0].end)), (at, at)), S.eq(got[0].aperture.diameter, ap.diameter))))
    w.in_step(S)


# ---- macros --------------------------------------------------------------------------------------------------
def am(S, kind, n):
    """An arbitrary macro primitive."""
    e = S.choice(n + '.exposure', ['on', 'off'])
    v = lambda a: S.real(n + '.' + a, 0.001, 100)
    at = (S.real(n + '.x', -100, 100), S.real(n + '.y', -100, 100))
    if kind == 'circle':
        return AM.AMCirclePrimitive(1, e, v('d'), at)
    if kind == 'polygon':
        return AM.AMPolygonPrimitive(5, e, S.choice(n + '.n', [4, 6]), (0, 0), v('d'), v('rot'))
    if kind == 'center':
        return AM.AMCenterLinePrimitive(21, e, v('w'), v('h'), at, 0)
    if kind == 'outline':
        return AM.AMOutlinePrimitive(4, e, at, [(v('x1'), v('y1')), (v('x2'), 0), at], 0)
    raise ValueError(kind)


def points(p):
    return [tuple(s.start) for s in p.primitives]


def same_picture(S, label, got, want, shift, tol=2e-6):
    """Two lists of shapes agree, the second moved by -shift."""
    S.check(label + ': number of shapes', len(got) == len(want))
    for a, b in zip(got, want):
        S.check(label + ': kind', type(a) is type(b))
        S.check(label + ': exposure', a.level_polarity == b.level_polarity)
        if isinstance(b, P.Outline):
            pa, pb = points(a), points(b)
            S.check(label + ': corners', len(pa) == len(pb))
            for u, v in zip(pa, pb):
                S.check(label + ': corner', S.and_(*[S.near(u[k], v[k] - shift[k], tol) for k in (0, 1)]))
        else:
            S.check(label + ': position', S.and_(*[S.near(a.position[k], b.position[k] - shift[k], tol) for k in (0, 1)]))
            if isinstance(b, P.Circle):
                S.check(label + ': diameter', S.near(a.diameter, b.diameter, tol))
            else:
                S.check(label + ': size', S.near(a.radius, b.radius, tol))
                S.check(label + ': sides', a.sides == b.sides)
                S.check(label + ': rotation', S.near(a.rotation, b.rotation, tol))


def exported(S, ctx, groups):
    """The statements that the context wrote for flashes of groups say where and what was flashed."""
    defs, names, macros = {}, {}, []
    for st in ctx.header:
        if isinstance(st, GS.AMParamStmt):
            S.check('name defined once', st.name not in names)
            names[st.name] = st
        elif isinstance(st, GS.ADParamStmt):
            S.check('code defined once', st.d not in defs)
            S.check('macro defined first', st.shape in names or st.shape in ('C', 'R', 'O', 'P'))
            S.check('no modifiers', st.modifiers == [tuple()])
            defs[st.d] = names[st.shape]
    d, at, flashed = None, (None, None), []
    for st in ctx.body:
        if isinstance(st, GS.ApertureStmt):
            d = st.d
        elif isinstance(st, GS.CoordStmt):
            at = (at[0] if st.x is None else st.x, at[1] if st.y is None else st.y)
            S.check('flashes only', st.op == 'D03')
            flashed.append((d, at))
    S.check('every group flashed', len(flashed) == len(groups))
    for (d, at), g in zip(flashed, groups):
        S.check('flash position', S.eq(at, tuple(g.position)))
        shapes = []
        for a in defs[d].primitives:
            p = a.to_primitive(g.units)
            shapes += p if isinstance(p, list) else [p]
        same_picture(S, 'macro', shapes, g.primitives, g.position)


GROUP = [X + '_render_amgroup', X + '_get_amacro', X + '_render_flash', 'gerber.render.rs274x_backend.AMGroupContext.render', 'gerber.primitives.AMGroup.equivalent']
EQ = {'circle': 'Circle', 'polygon': 'Polygon', 'center': 'Outline', 'outline': 'Outline'}


@spec('C11', functions=GROUP + ['gerber.primitives.Circle.equivalent', 'gerber.primitives.Polygon.equivalent', 'gerber.primitives.Outline.equivalent', 'gerber.primitives.Line.equivalent'],
      params=[('circle', 'circle'), ('polygon', 'polygon'), ('center', 'center'), ('outline', 'outline'), ('circle', 'polygon'), ('polygon', 'circle'), ('center', 'circle')], n=150)
def two_macros(S, kk):
    """Flashes of two macro apertures with arbitrary shapes are each written with a macro of their own shapes, even if the quick hash cannot tell them apart."""
    ctx = Rs274xContext(FileSettings(units='inch', zero_suppression='leading', format=(2, 6)))
    ctx._hash_amacro = lambda group: 'XH'
    groups = []
    for n, k in zip('ab', kk):
        st = GS.AMParamStmt('AM', n, '')
        st.primitives = [am(S, k, n)]
        g = P.AMGroup(st.primitives, stmt=st, units='inch', level_polarity='dark')
        g.position = (S.real(n + '.px', -100, 100), S.real(n + '.py', -100, 100))
        groups.append(g)
        ctx.render(g)
    exported(S, ctx, groups)


@spec('C11', functions=GROUP + ['gerber.gerber_statements.AMParamStmt.build'], n=100)
def one_macro_twice(S, p):
    """Two apertures made from one macro definition with different modifiers are exported each with its own values."""
    S.lazy_numbers()
    r = GerberParser()
    ctx = Rs274xContext(FileSettings(units='inch', zero_suppression='leading', format=(2, 6)))
    ctx._hash_amacro = lambda group: 'XH'
    r.evaluate(GS.AMParamStmt('AM', 'M', '1,1,$1,0,0'))
    groups = []
    for n, d in (('a', 10), ('b', 11)):
        r.evaluate(GS.ADParamStmt('AD', d, 'M', ([S.real(n, 0.01, 100)],)))
    for d in (10, 11):
        r.evaluate(GS.ApertureStmt(d))
        r.evaluate(GS.CoordStmt(None, d, 1, None, None, 'D03', None))
    for g in r.primitives:
        ctx.render(g)
    exported(S, ctx, r.primitives)


def bare(S, kind, n=''):
    """A shape made by a program, to be part of a macro."""
    at = (S.real(n + 'c.x', -100, 100), S.real(n + 'c.y', -100, 100))
    kw = {'units': 'inch', 'level_polarity': S.choice(n + 'exposure', ['dark', 'clear'])}
    v = lambda a: S.real(n + a, 0.001, 100)
    if kind == 'Circle':
        return P.Circle(at, v('d'), **kw)
    if kind == 'Polygon':
        return P.Polygon((0, 0), S.choice(n + 'sides', [4, 6]), v('r'), 0, rotation=v('rot'), **kw)
    if kind == 'Rectangle':
        return P.Rectangle(at, v('w'), v('h'), rotation=S.real(n + 'rot', 0, 360), **kw)
    pts = [at, (v('x1'), v('y1')), (v('x2'), 0)]
    return P.Outline([P.Line(pts[i], pts[(i + 1) % 3], P.Circle((0, 0), 0)) for i in range(3)], **kw)


def corners_ok(S, label, outline, rect, shift=(0, 0), tol=1e-6):
    """The outline is the rectangle, as a set of points: corners given by center, size and rotation."""
    c, s = S.cos(S.radians(rect.rotation)), S.sin(S.radians(rect.rotation))
    S.check(label + ': four corners', len(outline.primitives) == 4)
    want = []
    for i, j in ((-1, -1), (1, -1), (1, 1), (-1, 1)):
        x, y = i * rect.width / 2.0, j * rect.height / 2.0
        want.append((rect.position[0] + x * c - y * s - shift[0], rect.position[1] + x * s + y * c - shift[1]))
    got = points(outline)
    S.check(label + ': corners', S.or_(*[S.and_(*[S.near(got[(k + o) % 4][m], want[k][m], tol) for k in range(4) for m in (0, 1)]) for o in range(4)]))


SHAPES = {'Circle': AM.AMCirclePrimitive, 'Polygon': AM.AMPolygonPrimitive, 'Outline': AM.AMOutlinePrimitive, 'Rectangle': AM.AMCenterLinePrimitive}


@spec('C11', functions=['gerber.am_statements.%s.from_primitive' % c.__name__ for c in SHAPES.values()], params=sorted(SHAPES), n=100)
def macro_of_shape(S, kind):
    """The macro primitive made for a shape is that shape."""
    o = bare(S, kind)
    p = SHAPES[kind].from_primitive(o).to_primitive('inch')
    S.check('exposure kept', p.level_polarity == o.level_polarity)
    if kind == 'Rectangle':
        corners_ok(S, 'rectangle', p, o)
    else:
        same_picture(S, kind, [p], [o], (0, 0))


@spec('C11', functions=['gerber.primitives.%s.equivalent' % k for k in ('AMGroup', 'Circle', 'Polygon', 'Outline', 'Line', 'Rectangle')], params=sorted(SHAPES), n=100)
def same_group(S, kind):
    """Groups taken for the same macro have the same shapes, and a group is the same as its copy elsewhere."""
    shift = (S.real('sx', -100, 100), S.real('sy', -100, 100))
    a, b = bare(S, kind, 'a.'), bare(S, kind, 'b.')
    groups = []
    for o in (a, b, copy.copy(a)):
        g = P.AMGroup([], units='inch', level_polarity='dark')
        g.primitives = [o]
        groups.append(g)
    S.check('itself', groups[0].equivalent(groups[2], (0, 0)))
    if not groups[0].equivalent(groups[1], shift):
        return
    S.cover('same')
    if kind == 'Rectangle':
        S.check('polarity', a.level_polarity == b.level_polarity)
        S.check('size', S.and_(S.near(a.width, b.width, 2e-6), S.near(a.height, b.height, 2e-6), S.near(a.rotation, b.rotation, 2e-6)))
        S.check('place', S.and_(*[S.near(a.position[k], b.position[k] + shift[k], 2e-6) for k in (0, 1)]))
    else:
        same_picture(S, 'same', [a], [b], (-shift[0], -shift[1]))


@spec('C11', functions=GROUP + ['gerber.render.rs274x_backend.AMGroupContext._render_' + k for k in ('circle', 'polygon', 'outline', 'rectangle')],
      params=sorted(SHAPES), n=300, bounded='300 random groups per kind: the macro text is made of arbitrary floats and read by the tokenizer character by character')
def groups_without_macro(S, kind):
    """A group made by a program is exported as a macro that is read back as the same shapes."""
    g = P.AMGroup([], units='inch', level_polarity='dark')
    g.primitives = [bare(S, kind)]
    g.position = (S.real('px', -100, 100), S.real('py', -100, 100))
    ctx = Rs274xContext(FileSettings(units='inch', zero_suppression='leading', format=(2, 6)))
    ctx.render(g)
    r = GerberParser()
    for st in ctx.header + ctx.body:
        r.evaluate(st)
    S.check('one group', len(r.primitives) == 1 and type(r.primitives[0]) is P.AMGroup)
    got = r.primitives[0]
    S.check('group position', S.eq(tuple(got.position), tuple(g.position)))
    if kind == 'Rectangle':
        corners_ok(S, 'rectangle', got.primitives[0], g.primitives[0], tol=1e-5)
    else:
        same_picture(S, kind, got.primitives, g.primitives, (0, 0), 1e-5)


@spec('C11', functions=[X + '_hash_amacro'], n=400, bounded='400 random groups: the name is cut from the text of arbitrary floats')
def macro_names(S, p):
    """The quick hash that names a macro is a legal name that is not that of a standard shape."""
    kinds = ['circle', 'polygon', 'center', 'outline']
    g = P.AMGroup([am(S, S.choice('k%d' % i, kinds), 'p%d' % i) for i in range(S.choice('n', [1, 2, 3, 8]))], units='inch')
    name = Rs274xContext(FileSettings())._hash_amacro(g)
    S.check('legal name', name[0] == 'X' and len(name) > 1 and all(ch.isalnum() or ch in '._$' for ch in name))


@spec('C11', functions=ARC, params=['clockwise', 'counterclockwise'], n=100)
def single_quadrant_arcs(S, direction):
    """A single-quadrant arc is written in that mode, with its direction and the offset of its center from its start (what the reader makes of it: C08)."""
    w = World(S, vary=('function', 'quadrant'))
    o = P.Arc(SH.point(S, 'start'), SH.point(S, 'end'), SH.point(S, 'center'), direction, w.old, 'single-quadrant', level_polarity='dark', units=w.units)
    apart(S, o.start, w.ctx._pos)
    mode, n = w.reader.quadrant_mode, len(w.ctx.body)
    known = w.ctx._quadrant_mode
    w.ctx.render(o)
    new = w.ctx.body[n:]
    for st in new:
        if isinstance(st, GS.QuadrantModeStmt):
            mode = st.mode
    S.check('mode', mode == 'single-quadrant' and (known is None or w.ctx._quadrant_mode == 'single-quadrant'))
    arc = new[-1]
    at = w.reader.x, w.reader.y
    for st in new[:-1]:
        if isinstance(st, GS.CoordStmt):
            S.check('only a move before', st.op == 'D02')
            at = at[0] if st.x is None else st.x, at[1] if st.y is None else st.y
    S.check('start', S.eq(at, o.start))
    S.check('end', S.eq((at[0] if arc.x is None else arc.x, at[1] if arc.y is None else arc.y), o.end))
    S.check('drawn in its direction', arc.op == 'D01' and arc.function == {'clockwise': 'G02', 'counterclockwise': 'G03'}[direction])
    S.check('offset', S.eq((o.start[0] + (arc.i or 0), o.start[1] + (arc.j or 0)), o.center))


@spec('C11', functions=[X + '__init__', X + '_start_header', X + 'dump', 'gerber.gerber_statements.FSParamStmt.from_settings', 'gerber.gerber_statements.MOParamStmt.from_units'],
      params=[(u, z, f) for u in ('inch', 'metric') for z in ('leading', 'trailing') for f in ((2, 5), (3, 6))], n=20)
def file_text(S, uzf):
    """The written file starts with the format and units of its settings, and is all statements, one per line, ended by M02."""
    units, zeros, fmt = uzf
    s = FileSettings(units=units, zero_suppression=zeros, format=fmt, notation='absolute')
    ctx = Rs274xContext(s)
    r = GerberParser()
    for st in ctx.header:
        r.evaluate(st)
    S.check('settings declared', (r.settings.units, r.settings.zero_suppression, r.settings.format, r.settings.notation) == (units, zeros, fmt, 'absolute'))
    ctx.render(P.Circle((S.choice('x', [0, 0.5, 3]), 2), 0.25, units=units))
    ctx.comments.append(GS.CommentStmt('made by a program'))
    want = [st.to_gerber(s) for st in ctx.statements]
    S.check('kept in order', ctx.statements == ctx.comments + ctx.header + ctx.body + ctx.end)
    S.check('text', ctx.dump().getvalue() == '\n'.join(want) + '\n')
    S.check('end', want[-1] == 'M02*')
