"""C03: translation."""
from engine.reg import spec
import shapes as SH
import gerber.primitives as P
import gerber.gerber_statements as GS
import gerber.excellon_statements as XS
import gerber.excellon as X
from gerber.rs274x import GerberFile
from gerber.cam import FileSettings


def shift(v, d):
    return (v[0] + d[0], v[1] + d[1])


def check_moved(S, o, before, d, label='shape'):
    after = dict(SH.lengths(o))
    S.check(label + ' keeps its parts', sorted(after) == sorted(n for n, _ in before))
    for n, v in before:
        want = shift(v, d) if n in SH.POINTS else v
        S.check(label, SH.same(S, after[n], want), n)


MOVES = {'Line': 'Line', 'Arc': 'Arc', 'Circle': 'Circle', 'Polygon': 'Polygon', 'Drill': 'Drill', 'Slot': 'Slot'}


@spec('C03', functions=['gerber.primitives.%s.offset' % c for c in sorted(MOVES)] + ['gerber.primitives.Primitive.offset'],
      params=SH.SIMPLE, n=120)
def shape(S, kind):
    """Moving a shape shifts each of its points by exactly the vector and changes nothing else; the bounding box moves
    along; moving twice adds up; moving by nothing changes nothing."""
    o = SH.make(S, kind, 'o', 'inch', rotation=S.real('rot', -360, 360) if kind not in ('TestRecord',) else 0)
    d, e = SH.point(S, 'd'), SH.point(S, 'e')
    before, fixed = SH.lengths(o), SH.others(o)
    box = o.bounding_box if kind not in ('TestRecord', 'Arc') else None
    o.offset(d[0], d[1])
    check_moved(S, o, before, d)
    S.check('nothing else', fixed == SH.others(o) and o.units == 'inch')
    if box is not None:
        S.check('box', S.eq(o.bounding_box, ((box[0][0] + d[0], box[0][1] + d[0]), (box[1][0] + d[1], box[1][1] + d[1]))))
    o.offset(e[0], e[1])
    check_moved(S, o, before, shift(d, e), 'twice')
    o.offset()
    check_moved(S, o, before, shift(d, e), 'no move')
    o.offset(0, 0)
    check_moved(S, o, before, shift(d, e), 'zero move')
    o.offset(-d[0] - e[0], -d[1] - e[1])
    check_moved(S, o, before, (0, 0), 'back')


@spec('C03', functions=['gerber.primitives.Arc.offset', 'gerber.primitives.Arc.radius'], n=150)
def arc_geometry(S, p):
    """Moving an arc leaves its radius unchanged."""
    o = SH.make(S, 'Arc', 'o', 'inch')
    d = SH.point(S, 'd')
    r = o.radius
    o.offset(d[0], d[1])
    S.check('radius', S.eq(r, o.radius))


@spec('C03', functions=['gerber.primitives.Arc.offset', 'gerber.primitives.Arc.bounding_box'],
      bounded='box of a moved arc compared natively (inverse trigonometry of shifted points)', n=3000)
def arc_box(S, p):
    """The bounding box of an arc moves along with it."""
    o = SH.make(S, 'Arc', 'o', 'inch')
    d = SH.point(S, 'd')
    box = o.bounding_box
    o.offset(d[0], d[1])
    # a box corner may flip when rounding moves an angle across a quadrant: compare a fresh arc instead
    f = P.Arc(o.start, o.end, o.center, o.direction, o.aperture, o.quadrant_mode)
    S.check('box of the moved arc', S.eq(o.bounding_box, f.bounding_box))


@spec('C03', functions=['gerber.primitives.Region.offset', 'gerber.primitives.Outline.offset', 'gerber.primitives.AMGroup.offset',
                        'gerber.primitives.AMGroup.position'],
      params=['Region', 'Outline', 'AMGroup', 'AMGroup.position'], n=150)
def collection(S, kind):
    """Every part of a region, outline or macro group of any size moves exactly once, by the same vector."""
    w = SH.make(S, S.choice('part', ['Line', 'Arc', 'Circle'] if kind[0] == 'A' else ['Line', 'Arc']), 'w', 'inch', polarity=False)
    before = SH.lengths(w)

    def other():
        return P.Line(SH.point(S, 'g.s'), SH.point(S, 'g.e'), P.Circle((0, 0), SH.size(S, 'g.d')), units='inch')
    d = SH.point(S, 'd')
    if kind[0] == 'A':
        o = P.AMGroup([], units='inch')
        o.primitives = S.alist('parts', other, w)
        if kind == 'AMGroup':
            pos = o._position = SH.point(S, 'pos')
            o.offset(d[0], d[1])
            S.check('position', SH.same(S, o.position, shift(pos, d)))
        else:
            o.position = d
            S.check('position', SH.same(S, o.position, d))
            check_moved(S, w, before, d, 'placed part')
            e = SH.point(S, 'e')
            o.position = e
            S.check('position', SH.same(S, o.position, e))
            d = e
    else:
        o = P.Region([w], units='inch')
        if kind == 'Outline':
            o = P.Outline.__new__(P.Outline)
            P.Primitive.__init__(o, units='inch')
        o.primitives = S.alist('parts', other, w)
        o.offset(d[0], d[1])
    check_moved(S, w, before, d, 'part')


def opt(S, n):
    return S.real(n, -1000, 1000) if S.flag(n + '?') else None


STMT = {
    'CoordinateStmt': (['x'], ['y']),
    'EndOfProgramStmt': (['x'], ['y']),
    'SlotStmt': (['x_start', 'x_end'], ['y_start', 'y_end']),
    'CoordStmt': (['x'], ['y']),
    'RepeatHoleStmt': ([], []),
    'ZAxisInfeedRateStmt': ([], []),
    'ApertureStmt': ([], []),
    'FSParamStmt': ([], []),
    'ADParamStmt': ([], []),
    'CommentStmt': ([], []),
}


def stmt(S, kind):
    if kind == 'CoordStmt':
        return GS.CoordStmt('G01', opt(S, 'a'), opt(S, 'b'), None, None, 'D01', None)
    if kind == 'RepeatHoleStmt':
        return XS.RepeatHoleStmt(3, S.real('a', -9, 9), S.real('b', -9, 9))
    if kind == 'ZAxisInfeedRateStmt':
        return XS.ZAxisInfeedRateStmt(S.real('a', 0, 9))
    if kind == 'ApertureStmt':
        return GS.ApertureStmt(12)
    if kind == 'FSParamStmt':
        return GS.FSParamStmt('FS', 'leading', 'absolute', (2, 4))
    if kind == 'ADParamStmt':
        return GS.ADParamStmt('AD', 10, 'C', ([S.real('a', 0, 9)],))
    if kind == 'CommentStmt':
        return GS.CommentStmt('hello')
    if kind == 'SlotStmt':
        return XS.SlotStmt(opt(S, 'a'), opt(S, 'b'), opt(S, 'c'), opt(S, 'd'))
    return getattr(XS, kind)(opt(S, 'a'), opt(S, 'b'))


@spec('C03', functions=['gerber.gerber_statements.CoordStmt.offset', 'gerber.gerber_statements.Statement.offset'] +
      ['gerber.excellon_statements.%s.offset' % c for c in ('ExcellonStatement', 'CoordinateStmt', 'EndOfProgramStmt', 'SlotStmt')],
      params=sorted(STMT), n=100)
def statement(S, kind):
    """Moving a statement shifts its absolute coordinates, keeps absent coordinates absent and touches nothing else."""
    s = stmt(S, kind)
    before = dict(s.__dict__)
    d = SH.point(S, 'd')
    s.offset(d[0], d[1])
    xs, ys = STMT[kind]
    S.check('same fields', sorted(before) == sorted(s.__dict__))
    for k, v in before.items():
        want = v
        if v is not None and k in xs:
            want = v + d[0]
        if v is not None and k in ys:
            want = v + d[1]
        S.check('field', SH.same(S, getattr(s, k), want), k)


@spec('C03', functions=['gerber.excellon.DrillHit.offset', 'gerber.excellon.DrillSlot.offset'], params=['hit', 'slot'], n=100)
def hit(S, what):
    """Moving a drill hit or slot shifts its points and its box and leaves the tool alone."""
    t = XS.ExcellonTool(FileSettings(), number=3, diameter=SH.size(S, 'dia'))
    dia = t.diameter
    h = X.DrillHit(t, SH.point(S, 'p')) if what == 'hit' else X.DrillSlot(t, SH.point(S, 'p'), SH.point(S, 'q'), 1)
    names = ['position'] if what == 'hit' else ['start', 'end']
    before = [getattr(h, n) for n in names]
    box = h.bounding_box
    d = SH.point(S, 'd')
    h.offset(d[0], d[1])
    S.check('points', S.eq([getattr(h, n) for n in names], [shift(v, d) for v in before]))
    S.check('box', S.eq(h.bounding_box, ((box[0][0] + d[0], box[0][1] + d[0]), (box[1][0] + d[1], box[1][1] + d[1]))))
    S.check('tool', S.eq(t.diameter, dia) if h.tool is t else False)


@spec('C03', functions=['gerber.rs274x.GerberFile.offset'], n=100)
def gerber_file(S, p):
    """Moving a Gerber file moves every statement and every drawn object exactly once."""
    ws = GS.CoordStmt('G01', opt(S, 'x'), opt(S, 'y'), None, None, 'D01', None)
    x, y = ws.x, ws.y
    wp = SH.make(S, S.choice('kind', ['Line', 'Circle', 'Polygon', 'Rectangle', 'Arc']), 'w', 'inch', polarity=False)
    before = SH.lengths(wp)
    f = GerberFile([], FileSettings(), [], {}, None)
    f.statements = S.alist('statements', lambda: GS.CoordStmt(None, S.real('gx', -9, 9), None, None, None, 'D02', None), ws)
    f.primitives = S.alist('primitives', lambda: P.Circle(SH.point(S, 'gp'), SH.size(S, 'gd')), wp)
    d = SH.point(S, 'd')
    f.offset(d[0], d[1])
    S.check('statement', S.and_(SH.same(S, ws.x, x if x is None else x + d[0]), SH.same(S, ws.y, y if y is None else y + d[1])))
    check_moved(S, wp, before, d, 'object')


class FileWithArbitraryObjects(X.ExcellonFile):
    """The contract of `primitives`: it returns objects of its own and changes nothing (see C05 drill_tight)."""
    objects = ()
    primitives = property(lambda self: self.objects)


@spec('C03', functions=['gerber.excellon.ExcellonFile.offset'], n=100)
def drill_file(S, p):
    """Moving a drill file moves every statement and every hit exactly once."""
    ws = XS.CoordinateStmt(opt(S, 'x'), opt(S, 'y'))
    x, y = ws.x, ws.y
    t = XS.ExcellonTool(FileSettings(), number=1, diameter=SH.size(S, 'dia'))
    slot = S.flag('slot')
    wh = X.DrillSlot(t, SH.point(S, 'p'), SH.point(S, 'q'), 1) if slot else X.DrillHit(t, SH.point(S, 'p'))
    pts = [wh.start, wh.end] if slot else [wh.position]
    cls = FileWithArbitraryObjects if S.symbolic else X.ExcellonFile
    f = cls([], {1: t}, [], FileSettings())
    if S.symbolic:
        f.objects = S.alist('objects', lambda: P.Drill(SH.point(S, 'gd'), SH.size(S, 'gs')))
    f.statements = S.alist('statements', lambda: XS.CoordinateStmt(S.real('gx', -9, 9), None), ws)
    f.hits = S.alist('hits', lambda: X.DrillHit(t, SH.point(S, 'gp')), wh)
    d = SH.point(S, 'd')
    f.offset(d[0], d[1])
    S.check('statement', S.and_(SH.same(S, ws.x, x if x is None else x + d[0]), SH.same(S, ws.y, y if y is None else y + d[1])))
    now = [wh.start, wh.end] if slot else [wh.position]
    S.check('hit', S.eq(now, [shift(v, d) for v in pts]))


@spec('C03', functions=['gerber.gerber_statements.CoordStmt.offset'], known='C03-ij')
def arc_statement(S, p):
    """The center offset of an arc statement is relative and does not move."""
    s = GS.CoordStmt('G02', 1.0, 2.0, 3.0, 4.0, 'D01', None)
    s.offset(10, 20)
    S.check('center offset unchanged', S.eq((s.i, s.j), (3.0, 4.0)))


@spec('C03', functions=['gerber.gerber_statements.SFParamStmt.offset'], known='C03-scale')
def scale_factor(S, p):
    """Scale factors do not move."""
    s = GS.SFParamStmt('SF', 1.0, 2.0)
    s.offset(10, 20)
    S.check('scale factor unchanged', S.eq((s.a, s.b), (1.0, 2.0)))
