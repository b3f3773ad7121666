"""C05: extents of files and composite objects."""
from engine.reg import spec
import shapes as SH
import gerber.primitives as P
import gerber.gerber_statements as GS
import gerber.excellon_statements as XS
import gerber.excellon as X
from gerber.rs274x import GerberFile
from gerber.cam import FileSettings


def union_ok(S, box, boxes):
    """box contains every box of the list; each side is attained by some box."""
    for b in boxes:
        S.check('contains every part', S.and_(S.le(box[0][0], b[0][0]), S.ge(box[0][1], b[0][1]),
                                               S.le(box[1][0], b[1][0]), S.ge(box[1][1], b[1][1])))


def attained(S, box, boxes):
    for (a, b) in ((0, 0), (0, 1), (1, 0), (1, 1)):
        S.check('each side touches a part', S.or_(*[S.eq(box[a][b], x[a][b]) for x in boxes]))


def parts(S, kind, n):
    if kind == 'Outline' or kind == 'Region':
        return SH.make(S, 'Line', n, 'inch', polarity=False, aps=('Circle',))
    return SH.make(S, S.choice(n + '.kind', ['Line', 'Circle', 'Rectangle', 'Obround', 'Polygon']), n, 'inch', polarity=False)


def composite(kind, ps):
    if kind == 'Region':
        o = P.Region([P.Line((0, 0), (1, 1), None)], units='inch')
    elif kind == 'AMGroup':
        o = P.AMGroup([], units='inch')
    else:
        o = P.Outline.__new__(P.Outline)
        P.Primitive.__init__(o, units='inch')
    o.primitives = ps
    return o


def box_of(kind, p):
    return p.bounding_box_no_aperture if kind == 'Region' else p.bounding_box


FN = {'Region': 'gerber.primitives.Region.bounding_box', 'Outline': 'gerber.primitives.Outline.bounding_box',
      'AMGroup': 'gerber.primitives.AMGroup.bounding_box'}


@spec('C05', functions=sorted(FN.values()) + ['gerber.primitives.Line.bounding_box_no_aperture'], params=sorted(FN), n=150)
def composite_contains(S, kind):
    """The box of a region, outline or macro group with any number of parts contains the box of every part."""
    w = parts(S, kind, 'w')
    o = composite(kind, S.alist('parts', lambda: SH.make(S, 'Line', 'g', 'inch', polarity=False, aps=('Circle',)), w))
    union_ok(S, o.bounding_box, [box_of(kind, w)])


@spec('C05', functions=sorted(FN.values()), params=[(k, n) for k in sorted(FN) for n in (1, 2, 3)], n=150)
def composite_tight(S, kn):
    """Each side of the box of a composite is the side of one of its parts."""
    kind, n = kn
    ps = [SH.make(S, 'Line' if kind != 'AMGroup' or i else 'Circle', 'p%d' % i, 'inch', polarity=False, aps=('Circle',)) for i in range(n)]
    o = composite(kind, list(ps))
    box = o.bounding_box
    boxes = [box_of(kind, p) for p in ps]
    union_ok(S, box, boxes)
    attained(S, box, boxes)


@spec('C05', functions=['gerber.primitives.Region.offset', 'gerber.primitives.Outline.offset', 'gerber.primitives.AMGroup.offset'],
      params=sorted(FN), n=150)
def composite_after_move(S, kind):
    """After a move or unit conversion the box of a composite is again that of its parts."""
    ps = [SH.make(S, 'Line', 'p%d' % i, 'inch', polarity=False, aps=('Circle',)) for i in range(2)]
    o = composite(kind, list(ps))
    if kind == 'AMGroup':
        o._position = (0, 0)
    o.bounding_box
    what = S.choice('what', ['offset', 'metric', 'position'])
    if what == 'offset':
        o.offset(S.real('dx', -10, 10), S.real('dy', -10, 10))
    elif what == 'position':
        if kind == 'AMGroup':
            o.position = SH.point(S, 'to')
    else:
        o.to_metric()
    boxes = [box_of(kind, p) for p in ps]
    union_ok(S, o.bounding_box, boxes)
    attained(S, o.bounding_box, boxes)


@spec('C05', functions=['gerber.rs274x.GerberFile.bounding_box'], n=150)
def gerber_contains(S, p):
    """The extents of a Gerber file contain every drawn object."""
    w = SH.make(S, S.choice('kind', ['Line', 'Circle', 'Rectangle', 'Obround', 'Polygon', 'Diamond', 'Ellipse']), 'w', 'inch', polarity=False)
    f = GerberFile([], FileSettings(), [], {}, None)
    f.primitives = S.alist('primitives', lambda: P.Circle(SH.point(S, 'gp'), SH.size(S, 'gd')), w)
    union_ok(S, f.bounding_box, [w.bounding_box])


@spec('C05', functions=['gerber.rs274x.GerberFile.bounding_box'], params=[1, 2, 3], n=150)
def gerber_tight(S, n):
    """Each side of the extents of a Gerber file is the side of a drawn object, clear objects included."""
    ps = [P.Circle(SH.point(S, 'p%d' % i), SH.size(S, 'd%d' % i), level_polarity=S.choice('pol%d' % i, ['dark', 'clear'])) for i in range(n)]
    f = GerberFile([], FileSettings(), list(ps), {}, None)
    boxes = [p.bounding_box for p in ps]
    union_ok(S, f.bounding_box, boxes)
    attained(S, f.bounding_box, boxes)


@spec('C05', functions=['gerber.rs274x.GerberFile.bounds', 'gerber.rs274x.GerberFile.size'], n=200)
def gerber_bounds(S, p):
    """The coordinate bounds of a Gerber file contain every coordinate; the size is their extent."""
    ws = GS.CoordStmt(None, S.real('x', -1000, 1000) if S.flag('x?') else None, S.real('y', -1000, 1000) if S.flag('y?') else None,
                      None, None, 'D01', None)

    def other():
        k = S.choice('k', ['coord', 'comment'])
        if k == 'comment':
            return GS.CommentStmt('x')
        return GS.CoordStmt(None, S.real('gx', -1000, 1000) if S.flag('gx?') else None,
                            S.real('gy', -1000, 1000) if S.flag('gy?') else None, None, None, 'D02', None)
    f = GerberFile([], FileSettings(), [], {}, None)
    f.statements = S.alist('statements', other, ws)
    b = f.bounds
    if ws.x is not None:
        S.check('x within', S.and_(S.le(b[0][0], ws.x), S.ge(b[0][1], ws.x)))
    if ws.y is not None:
        S.check('y within', S.and_(S.le(b[1][0], ws.y), S.ge(b[1][1], ws.y)))


@spec('C05', functions=['gerber.rs274x.GerberFile.bounds', 'gerber.rs274x.GerberFile.size'], params=[1, 2, 3], n=200)
def gerber_bounds_tight(S, n):
    """Each side of the coordinate bounds is a coordinate of the file."""
    ss = [GS.CoordStmt(None, S.real('x%d' % i, -1000, 1000), S.real('y%d' % i, -1000, 1000), None, None, 'D01', None) for i in range(n)]
    f = GerberFile(list(ss), FileSettings(), [], {}, None)
    b = f.bounds
    for s in ss:
        S.check('within', S.and_(S.le(b[0][0], s.x), S.ge(b[0][1], s.x), S.le(b[1][0], s.y), S.ge(b[1][1], s.y)))
    for k in (0, 1):
        S.check('attained x', S.or_(*[S.eq(b[0][k], s.x) for s in ss]))
        S.check('attained y', S.or_(*[S.eq(b[1][k], s.y) for s in ss]))
    S.check('size', S.eq(f.size, (b[0][1] - b[0][0], b[1][1] - b[1][0])))


def hit(S, n, t):
    if S.flag(n + '.slot'):
        return X.DrillSlot(t, SH.point(S, n + '.s'), SH.point(S, n + '.e'), X.DrillSlot.TYPE_ROUT)
    return X.DrillHit(t, SH.point(S, n + '.p'))


@spec('C05', functions=['gerber.excellon.ExcellonFile.bounding_box', 'gerber.excellon.DrillHit.bounding_box',
                        'gerber.excellon.DrillSlot.bounding_box'], n=150)
def drill_contains(S, p):
    """The extents of a drill file contain every hole and slot including its radius."""
    t = XS.ExcellonTool(FileSettings(), number=1, diameter=SH.size(S, 'dia'))
    w = hit(S, 'w', t)
    t2 = XS.ExcellonTool(FileSettings(), number=2, diameter=SH.size(S, 'dia2'))
    f = X.ExcellonFile([], {1: t, 2: t2}, [], FileSettings())
    f.hits = S.alist('hits', lambda: hit(S, 'g', t2), w)
    box = f.bounding_box
    r = t.diameter / 2
    for pt in ([w.start, w.end] if isinstance(w, X.DrillSlot) else [w.position]):
        S.check('contains', S.and_(S.le(box[0][0], pt[0] - r), S.ge(box[0][1], pt[0] + r),
                                    S.le(box[1][0], pt[1] - r), S.ge(box[1][1], pt[1] + r)))


@spec('C05', functions=['gerber.excellon.ExcellonFile.bounding_box', 'gerber.excellon.ExcellonFile.primitives'], params=[1, 2, 3], n=150)
def drill_tight(S, n):
    """Each side of the extents of a drill file touches a hole; the file's objects have the same extents."""
    ts = [XS.ExcellonTool(FileSettings(), number=i, diameter=SH.size(S, 'dia%d' % i)) for i in range(min(n, 2))]
    hs = [hit(S, 'h%d' % i, ts[i % len(ts)]) for i in range(n)]
    f = X.ExcellonFile([], {t.number: t for t in ts}, list(hs), FileSettings())
    boxes = []
    for h in hs:
        r = h.tool.diameter / 2
        pts = [h.start, h.end] if isinstance(h, X.DrillSlot) else [h.position]
        boxes.append(((S.min(*[q[0] - r for q in pts]) if len(pts) > 1 else pts[0][0] - r,
                       S.max(*[q[0] + r for q in pts]) if len(pts) > 1 else pts[0][0] + r),
                      (S.min(*[q[1] - r for q in pts]) if len(pts) > 1 else pts[0][1] - r,
                       S.max(*[q[1] + r for q in pts]) if len(pts) > 1 else pts[0][1] + r)))
    union_ok(S, f.bounding_box, boxes)
    attained(S, f.bounding_box, boxes)
    prims = f.primitives
    S.check('as many objects as hits', len(prims) == n)
    for q, b in zip(prims, boxes):
        S.check('object box', S.eq(q.bounding_box, b))
        S.check('object units', q.units == f.settings.units)
