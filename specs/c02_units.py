"""C02: unit conversion."""
from engine.reg import spec
import shapes as SH
import gerber.primitives as P
import gerber.utils as U
import gerber.am_statements as AM
import gerber.gerber_statements as GS
import gerber.excellon_statements as XS
import gerber.excellon as X
from gerber.rs274x import GerberFile
from gerber.cam import FileSettings

KINDS = SH.SIMPLE


@spec('C02', functions=['gerber.utils.inch', 'gerber.utils.metric'], n=300)
def factor(S, p):
    """Inches times 25.4 are millimetres, and the two conversions are inverse to each other."""
    v = S.real('v', -10 ** 6, 10 ** 6)
    S.check('inch', S.eq(U.inch(v), SH.scaled(S, v, 'inch')))
    S.check('metric', S.eq(U.metric(v), SH.scaled(S, v, 'metric')))
    S.check('inverse', S.and_(S.eq(U.metric(U.inch(v)), v), S.eq(U.inch(U.metric(v)), v)))


def targets():
    return [(k, t) for k in KINDS for t in ('inch', 'metric')]


def convert(o, target):
    if target == 'inch':
        o.to_inch()
    else:
        o.to_metric()


@spec('C02', functions=['gerber.primitives.Primitive.to_inch', 'gerber.primitives.Primitive.to_metric'],
      params=targets(), n=40)
def shape(S, pt):
    """A shape's lengths and points scale by 25.4, nothing else changes, the box scales along; converting twice or a
    shape already in (or without) units changes nothing."""
    kind, target = pt
    source = {'inch': 'metric', 'metric': 'inch'}[target]
    units = S.choice('units', [source, target, None])
    o = SH.make(S, kind, 'o', units)
    before, fixed = SH.lengths(o), SH.others(o)
    box = o.bounding_box if kind not in ('TestRecord', 'Arc') else None
    convert(o, target)
    k = target if units == source else None
    for name, v in before:
        want = SH.scaled(S, v, k) if k else v
        S.check('length', SH.same(S, dict(SH.lengths(o))[name], want), name)
    S.check('attributes that are not lengths', fixed == SH.others(o))
    S.check('units', o.units == (None if units is None else target))
    if box is not None:
        S.check('box', S.eq(o.bounding_box, SH.scaled(S, box, k) if k else box))
    mid = SH.lengths(o)
    convert(o, target)
    S.check('idempotent', S.and_(*[SH.same(S, a[1], b[1]) for a, b in zip(mid, SH.lengths(o))]))
    if units is not None:
        convert(o, source)
        back = SH.lengths(o)
        want = before if units == source else [(n, SH.scaled(S, v, source)) for n, v in before]
        S.check('inverse', S.and_(*[SH.same(S, a[1], b[1]) for a, b in zip(back, want)]))


@spec('C02', functions=['gerber.primitives.Primitive.to_inch', 'gerber.primitives.Primitive.to_metric',
                        'gerber.primitives.AMGroup.to_inch', 'gerber.primitives.AMGroup.to_metric'],
      params=[('Region', 'inch'), ('Region', 'metric'), ('Outline', 'inch'), ('Outline', 'metric'),
              ('AMGroup', 'inch'), ('AMGroup', 'metric')], n=100)
def collection(S, pt):
    """Every part of a region, outline or macro group of any size is converted exactly once."""
    kind, target = pt
    source = {'inch': 'metric', 'metric': 'inch'}[target]
    units = S.choice('units', [source, target])
    w = SH.make(S, S.choice('part', ['Line', 'Circle', 'Polygon'] if kind == 'AMGroup' else ['Line', 'Arc']),
                'w', units, polarity=False)
    before = SH.lengths(w)

    def other():
        return P.Line(SH.point(S, 'g.s'), SH.point(S, 'g.e'), P.Circle((0, 0), SH.size(S, 'g.d'), units=units), units=units)
    if kind == 'AMGroup':
        o = P.AMGroup([], units=units)
        o.primitives = S.alist('parts', other, w)
        if S.flag('placed'):
            o._position = SH.point(S, 'pos')
    elif kind == 'Region':
        o = P.Region(S.alist('parts', other, w), units=units)
    else:
        o = P.Region(S.alist('parts', other, w), units=units)
        o = P.Outline.__new__(P.Outline)
        P.Primitive.__init__(o, units=units)
        o.primitives = S.alist('parts', other, w)
        o._to_convert = ['primitives']
    pos = o._position if kind == 'AMGroup' else None
    convert(o, target)
    k = target if units == source else None
    for name, v in before:
        S.check('part', SH.same(S, dict(SH.lengths(w))[name], SH.scaled(S, v, k) if k else v), name)
    S.check('units', o.units == target and w.units == target)
    if kind == 'AMGroup':
        S.check('position', SH.same(S, o._position, SH.scaled(S, pos, k) if k and pos else pos))
    convert(o, target)
    for name, v in before:
        S.check('idempotent', SH.same(S, dict(SH.lengths(w))[name], SH.scaled(S, v, k) if k else v), name)


@spec('C02', functions=['gerber.primitives.AMGroup.to_inch', 'gerber.primitives.AMGroup.__init__',
                        'gerber.am_statements.AMOutlinePrimitive.to_primitive',
                        'gerber.am_statements.AMVectorLinePrimitive.to_primitive',
                        'gerber.am_statements.AMCenterLinePrimitive.to_primitive',
                        'gerber.am_statements.AMCirclePrimitive.to_primitive',
                        'gerber.am_statements.AMPolygonPrimitive.to_primitive'],
      params=['circle', 'outline', 'polygon', 'center', 'vector'], n=60)
def macro_shapes(S, what):
    """Shapes built from aperture macro parts convert completely: the box scales with the units."""
    units = S.choice('units', ['inch', 'metric'])
    if what == 'circle':
        a = AM.AMCirclePrimitive(1, 'on', SH.size(S, 'd'), SH.point(S, 'p'))
    elif what == 'outline':
        s = SH.point(S, 's')
        a = AM.AMOutlinePrimitive(4, 'on', s, [SH.point(S, 'a'), SH.point(S, 'b'), s], 0)
    elif what == 'polygon':
        a = AM.AMPolygonPrimitive(5, 'on', 6, SH.point(S, 'p'), SH.size(S, 'd'), 0)
    elif what == 'vector':
        s = SH.point(S, 's')
        a = AM.AMVectorLinePrimitive(20, 'on', S.real('vw', 0.001, 100), s, (s[0] + S.real('l', 0.001, 100), s[1]), 0)
    else:
        a = AM.AMCenterLinePrimitive(21, 'on', SH.size(S, 'w'), SH.size(S, 'h'), SH.point(S, 'c'), 0)
    g = P.AMGroup([a], units=units)
    box = g.bounding_box
    target = {'inch': 'metric', 'metric': 'inch'}[units]
    convert(g, target)
    S.check('box scales', S.eq(g.bounding_box, SH.scaled(S, box, target)))


AM_LEN = {
    'AMCirclePrimitive': ['diameter', 'position'],
    'AMVectorLinePrimitive': ['width', 'start', 'end'],
    'AMOutlinePrimitive': ['start_point', 'points'],
    'AMPolygonPrimitive': ['position', 'diameter'],
    'AMMoirePrimitive': ['position', 'diameter', 'ring_thickness', 'gap', 'crosshair_thickness', 'crosshair_length'],
    'AMThermalPrimitive': ['position', 'outer_diameter', 'inner_diameter', 'gap'],
    'AMCenterLinePrimitive': ['center', 'width', 'height'],
    'AMLowerLeftLinePrimitive': ['lower_left', 'width', 'height'],
}


def am(S, kind):
    p = SH.point(S, 'p')
    r = lambda n: S.real(n, 0, 1000)
    if kind == 'AMCirclePrimitive':
        return AM.AMCirclePrimitive(1, 'on', r('d'), p)
    if kind == 'AMVectorLinePrimitive':
        return AM.AMVectorLinePrimitive(20, 'off', r('w'), p, SH.point(S, 'q'), r('rot'))
    if kind == 'AMOutlinePrimitive':
        return AM.AMOutlinePrimitive(4, 'on', p, [SH.point(S, 'q'), SH.point(S, 'r'), p], r('rot'))
    if kind == 'AMPolygonPrimitive':
        return AM.AMPolygonPrimitive(5, 'on', 6, p, r('d'), r('rot'))
    if kind == 'AMMoirePrimitive':
        return AM.AMMoirePrimitive(6, p, r('d'), r('t'), r('g'), 5, r('ct'), r('cl'), r('rot'))
    if kind == 'AMThermalPrimitive':
        return AM.AMThermalPrimitive(7, p, r('d'), r('t'), r('g'), r('rot'))
    if kind == 'AMCenterLinePrimitive':
        return AM.AMCenterLinePrimitive(21, 'on', r('w'), r('h'), p, r('rot'))
    return AM.AMLowerLeftLinePrimitive(22, 'on', r('w'), r('h'), p, r('rot'))


def deep(S, v, k):
    if isinstance(v, (tuple, list)):
        return tuple(deep(S, x, k) for x in v)
    return SH.scaled(S, v, k)


def tup(v):
    return tuple(tup(x) for x in v) if isinstance(v, (tuple, list)) else v


@spec('C02', functions=['gerber.am_statements.%s.%s' % (c, m) for c in sorted(AM_LEN) for m in ('to_inch', 'to_metric')],
      params=[(c, t) for c in sorted(AM_LEN) for t in ('inch', 'metric')], n=60)
def macro_parts(S, pt):
    """Lengths of a macro part scale by 25.4; counts, rotation and exposure do not change; the conversions are inverse."""
    kind, target = pt
    a = am(S, kind)
    before = dict(a.__dict__)
    convert(a, target)
    for k, v in a.__dict__.items():
        if k in AM_LEN[kind]:
            S.check('length', S.eq(tup(v), deep(S, before[k], target)), k)
        else:
            S.check('not a length', S.eq(v, before[k]), k)
    convert(a, {'inch': 'metric', 'metric': 'inch'}[target])
    for k, v in a.__dict__.items():
        S.check('inverse', S.eq(tup(v), tup(before[k])), k)


# attribute -> lengths of each kind of statement
STMT = {
    'CoordStmt': (['x', 'y', 'i', 'j'], ['op']),
    'OFParamStmt': (['a', 'b'], []),
    'CoordinateStmt': (['x', 'y'], ['mode']),
    'RepeatHoleStmt': (['xdelta', 'ydelta'], ['count']),
    'EndOfProgramStmt': (['x', 'y'], []),
    'SlotStmt': (['x_start', 'y_start', 'x_end', 'y_end'], ['mode']),
}


def opt(S, n):
    return S.real(n, -1000, 1000) if S.flag(n + '?') else None


def stmt(S, kind, units):
    o = [opt(S, n) for n in ('a', 'b', 'c', 'd')[:len(STMT[kind][0])]]
    if kind == 'CoordStmt':
        s = GS.CoordStmt(S.choice('fn', [None, 'G01', 'G70', 'G71']), o[0], o[1], o[2], o[3], 'D01', None)
    elif kind == 'OFParamStmt':
        s = GS.OFParamStmt('OF', o[0], o[1])
    elif kind == 'RepeatHoleStmt':
        s = XS.RepeatHoleStmt(3, o[0], o[1])
    else:
        s = getattr(XS, kind)(*o)
    s.units = units
    return s


@spec('C02', functions=['gerber.gerber_statements.CoordStmt.to_inch', 'gerber.gerber_statements.OFParamStmt.to_inch'] +
      ['gerber.excellon_statements.%s.%s' % (c, m) for c in ('CoordinateStmt', 'RepeatHoleStmt', 'EndOfProgramStmt', 'SlotStmt')
       for m in ('to_inch', 'to_metric')],
      params=[(k, t) for k in sorted(STMT) for t in ('inch', 'metric')], n=100)
def statement(S, pt):
    """Coordinates of a statement scale by 25.4 exactly once, absent coordinates stay absent."""
    kind, target = pt
    source = {'inch': 'metric', 'metric': 'inch'}[target]
    units = S.choice('units', [source, target])
    s = stmt(S, kind, units)
    lens, other = STMT[kind]
    before = {a: getattr(s, a) for a in lens + other}
    convert(s, target)
    k = target if units == source else None

    def verify(label):
        for a in lens:
            v = before[a]
            S.check(label, SH.same(S, getattr(s, a), SH.scaled(S, v, k) if k and v is not None else v), a)
        for a in other:
            S.check(label, getattr(s, a) == before[a], a)
    verify('lengths')
    S.check('units', s.units == target)
    if kind == 'CoordStmt':
        S.check('unit code', s.function != {'inch': 'G71', 'metric': 'G70'}[target] or k is None)
    convert(s, target)
    verify('idempotent')
    convert(s, source)
    for a in lens:
        v = before[a]
        S.check('inverse', SH.same(S, getattr(s, a), v if k else (SH.scaled(S, v, source) if v is not None else None)), a)


@spec('C02', functions=['gerber.gerber_statements.ADParamStmt.to_inch', 'gerber.gerber_statements.ADParamStmt.to_metric'],
      params=['C', 'R', 'O', 'P'], n=100)
def aperture_definition(S, shape):
    """The sizes of a standard aperture definition scale; vertex count and rotation of a polygon do not."""
    units = S.choice('units', ['inch', 'metric'])
    target = {'inch': 'metric', 'metric': 'inch'}[units]
    n = {'C': [1, 2, 3], 'R': [2, 3, 4], 'O': [2, 3, 4], 'P': [2, 3, 4, 5]}[shape]
    n = S.choice('n', n)
    mods = [S.real('m%d' % i, 0, 1000) for i in range(n)]
    s = GS.ADParamStmt('AD', 10, shape, ([m for m in mods],))
    s.units = units
    convert(s, S.choice('same', [target, units]))
    k = target if s.units == target else None
    got = list(s.modifiers[0])
    S.check('count', len(got) == n)
    for i, m in enumerate(mods):
        length = not (shape == 'P' and i in (1, 2))
        S.check('modifier', S.eq(got[i], SH.scaled(S, m, k) if k and length else m), str(i))
    convert(s, units)
    S.check('inverse', S.eq(tuple(s.modifiers[0]), tuple(mods)))
    S.check('shape', s.shape == shape and s.d == 10)


@spec('C02', functions=['gerber.gerber_statements.AMParamStmt.to_inch', 'gerber.gerber_statements.AMParamStmt.to_metric'], n=60)
def macro_definition(S, p):
    """Every part of a macro definition is converted exactly once."""
    units = S.choice('units', ['inch', 'metric'])
    target = {'inch': 'metric', 'metric': 'inch'}[units]
    w = AM.AMCirclePrimitive(1, 'on', S.real('d', 0, 100), SH.point(S, 'p'))
    d, pos = w.diameter, w.position
    s = GS.AMParamStmt('AM', 'M', '')
    s.units = units
    s.primitives = S.alist('parts', lambda: AM.AMCirclePrimitive(1, 'on', S.real('gd', 0, 100), SH.point(S, 'gp')), w)
    convert(s, target)
    convert(s, target)
    S.check('part', S.and_(S.eq(w.diameter, SH.scaled(S, d, target)), S.eq(w.position, SH.scaled(S, pos, target))))
    S.check('units', s.units == target)
    convert(s, units)
    S.check('inverse', S.and_(S.eq(w.diameter, d), S.eq(w.position, pos)))


@spec('C02', functions=['gerber.excellon_statements.ExcellonTool.to_inch', 'gerber.excellon_statements.ExcellonTool.to_metric'], n=100)
def tool(S, p):
    """A drill tool's diameter and depth offset scale once; rates, counts and identity do not."""
    units = S.choice('units', ['inch', 'metric'])
    target = {'inch': 'metric', 'metric': 'inch'}[units]
    t = XS.ExcellonTool(FileSettings(units=units), number=3, diameter=opt(S, 'd'), depth_offset=opt(S, 'z'),
                        rpm=S.real('rpm', 0, 1000), max_hit_count=7, plated='plated')
    d, z, rpm = t.diameter, t.depth_offset, t.rpm
    convert(t, units)
    S.check('no change', S.and_(SH.same(S, t.diameter, d), SH.same(S, t.depth_offset, z)))
    convert(t, target)
    convert(t, target)
    S.check('diameter', SH.same(S, t.diameter, d if d is None else SH.scaled(S, d, target)))
    S.check('depth', SH.same(S, t.depth_offset, z if z is None else SH.scaled(S, z, target)))
    S.check('rest', S.and_(S.eq(t.rpm, rpm), t.number == 3, t.max_hit_count == 7, t.plated == 'plated', t.settings.units == target))
    convert(t, units)
    S.check('inverse', S.and_(SH.same(S, t.diameter, d), SH.same(S, t.depth_offset, z)))
    shared = FileSettings(units=units)
    both = [XS.ExcellonTool(shared, number=n, diameter=t.diameter, depth_offset=t.depth_offset) for n in (1, 2)]
    convert(both[0], target)
    S.check('the other tool', S.and_(SH.same(S, both[1].diameter, d), both[1].settings.units == units))
    convert(both[1], target)
    for o in both:
        S.check('both tools', S.and_(SH.same(S, o.diameter, d if d is None else SH.scaled(S, d, target)), o.settings.units == target))


@spec('C02', functions=['gerber.excellon.DrillHit.to_inch', 'gerber.excellon.DrillHit.to_metric',
                        'gerber.excellon.DrillSlot.to_inch', 'gerber.excellon.DrillSlot.to_metric'],
      params=['hit', 'slot'], n=100)
def hit(S, what):
    """A drill hit or slot converts together with its tool, once."""
    units = S.choice('units', ['inch', 'metric'])
    target = {'inch': 'metric', 'metric': 'inch'}[units]
    t = XS.ExcellonTool(FileSettings(units=units), number=3, diameter=S.real('d', 0, 10))
    d = t.diameter
    if what == 'hit':
        h = X.DrillHit(t, SH.point(S, 'p'))
        names = ['position']
    else:
        h = X.DrillSlot(t, SH.point(S, 'p'), SH.point(S, 'q'), 1)
        names = ['start', 'end']
    before = [getattr(h, n) for n in names]
    box = h.bounding_box
    convert(h, units)
    S.check('no change', S.eq([getattr(h, n) for n in names], before))
    convert(h, target)
    convert(h, target)
    S.check('points', S.eq([getattr(h, n) for n in names], [SH.scaled(S, v, target) for v in before]))
    S.check('tool', S.eq(t.diameter, SH.scaled(S, d, target)))
    S.check('box', S.eq(h.bounding_box, SH.scaled(S, box, target)))


@spec('C02', functions=['gerber.rs274x.GerberFile.to_inch', 'gerber.rs274x.GerberFile.to_metric'], params=['inch', 'metric'], n=60)
def gerber_file(S, target):
    """Converting a Gerber file converts every statement and every drawn object once and switches the file's units."""
    source = {'inch': 'metric', 'metric': 'inch'}[target]
    ws = GS.CoordStmt('G01', S.real('x', -100, 100), S.real('y', -100, 100), None, None, 'D01', None)
    ws.units = source
    mo = GS.MOParamStmt('MO', source)
    wp = SH.make(S, S.choice('kind', ['Line', 'Circle', 'Polygon']), 'w', source, polarity=False)
    x, y, before = ws.x, ws.y, SH.lengths(wp)

    def gs():
        s = GS.CoordStmt('G01', S.real('gx', -100, 100), None, None, None, 'D02', None)
        s.units = source
        return s
    f = GerberFile([], FileSettings(units=source), [], {}, None)
    f.statements = S.alist('statements', gs, ws)
    f.primitives = S.alist('primitives', lambda: P.Circle(SH.point(S, 'gp'), SH.size(S, 'gd'), units=source), wp)
    convert(f, target)
    convert(f, target)
    S.check('units', f.units == target)
    S.check('statement', S.and_(S.eq(ws.x, SH.scaled(S, x, target)), S.eq(ws.y, SH.scaled(S, y, target))))
    for n, v in before:
        S.check('object', SH.same(S, dict(SH.lengths(wp))[n], SH.scaled(S, v, target)), n)
    convert(mo, target)
    S.check('unit statement', mo.mode == target)


@spec('C02', functions=['gerber.excellon.ExcellonFile.to_inch', 'gerber.excellon.ExcellonFile.to_metric'], params=['inch', 'metric'], n=60)
def drill_file(S, target):
    """Converting a drill file converts every statement and every tool once and switches the file's units."""
    source = {'inch': 'metric', 'metric': 'inch'}[target]
    ws = XS.CoordinateStmt(S.real('x', -100, 100), opt(S, 'y'))
    ws.units = source
    tools = {}
    dia = {}
    for n in range(1, S.choice('tools', [2, 4])):
        tools[n] = XS.ExcellonTool(FileSettings(units=source), number=n, diameter=S.real('d%d' % n, 0, 10))
        dia[n] = tools[n].diameter

    def gs():
        s = XS.CoordinateStmt(S.real('gx', -100, 100), None)
        s.units = source
        return s
    x, y = ws.x, ws.y
    f = X.ExcellonFile(S.alist('statements', gs, ws), tools, [], FileSettings(units=source))
    convert(f, target)
    convert(f, target)
    S.check('units', f.units == target)
    S.check('statement', S.and_(S.eq(ws.x, SH.scaled(S, x, target)), SH.same(S, ws.y, y if y is None else SH.scaled(S, y, target))))
    for n in tools:
        S.check('tool', S.eq(tools[n].diameter, SH.scaled(S, dia[n], target)))
    convert(f, source)
    S.check('inverse', S.eq(ws.x, x))
    for n in tools:
        S.check('inverse tool', S.eq(tools[n].diameter, dia[n]))
    u = XS.UnitStmt(source)
    convert(u, target)
    m = XS.MeasuringModeStmt(source)
    convert(m, target)
    S.check('unit statement', u.units == target and m.units == target)


@spec('C02', functions=['gerber.excellon.ExcellonFile.to_metric'], known='C02-hits')
def drill_file_hits(S, p):
    """Converting a drill file converts the position of every hit."""
    t = XS.ExcellonTool(FileSettings(units='inch'), number=1, diameter=1.0)
    h = X.DrillHit(t, (1.0, 2.0))
    f = X.ExcellonFile([], {1: t}, [h], FileSettings(units='inch'))
    f.to_metric()
    S.check('hit converted', S.eq(h.position, (25.4, 50.8)))


@spec('C02', functions=['gerber.gerber_statements.SFParamStmt.to_inch'], known='C02-scale')
def scale_factor(S, p):
    """Scale factors are ratios and do not change with the units."""
    s = GS.SFParamStmt('SF', 1.0, 2.0)
    s.units = 'metric'
    s.to_inch()
    S.check('scale factor unchanged', S.eq((s.a, s.b), (1.0, 2.0)))
