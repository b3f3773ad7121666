"""C06: the drawing state machine of the RS-274X interpreter, statement by statement from an arbitrary state."""
import copy
from engine.reg import spec
import shapes as SH
import gerber.primitives as P
import gerber.gerber_statements as GS
from gerber.rs274x import GerberParser

R = 'gerber.rs274x.GerberParser.'
DRAW, MOVE, FLASH = ('D01', 'D1'), ('D02', 'D2'), ('D03', 'D3')
OPS = DRAW + MOVE + FLASH
FUNCS = [None, 'G01', 'G1', 'G02', 'G2', 'G03', 'G3']
APS = ['Circle', 'Rectangle', 'Obround', 'Polygon']


def definition(S, n, kind, units):
    """An aperture as the interpreter stores it: a shape without a position."""
    p = P.Circle(None, SH.size(S, n + '.d'), units=units) if kind == 'Circle' else \
        P.Polygon(None, 6, SH.size(S, n + '.r'), rotation=S.real(n + '.rot', 0, 90), units=units) if kind == 'Polygon' else \
        getattr(P, kind)(None, SH.size(S, n + '.w'), SH.size(S, n + '.h'), hole_diameter=SH.size(S, n + '.hd'), units=units)
    return p


def machine(S, region='off', contour=None, kind=None, op=None):
    """A parser in an arbitrary state; `contour` is the open contour of a region."""
    g = GerberParser()
    g.settings.units = S.choice('units', ['inch', 'metric'])
    g.x, g.y = SH.point(S, 'at')
    g.op = op or S.choice('op', ['D01', 'D02', 'D03'])
    g.interpolation = S.choice('mode', ['linear', 'arc'])
    g.direction = S.choice('dir', ['clockwise', 'counterclockwise'])
    g.level_polarity = S.choice('polarity', ['dark', 'clear'])
    g.quadrant_mode = 'multi-quadrant'
    g.region_mode = region
    g.current_region = contour
    g.apertures = {10: definition(S, 'a10', kind or 'Circle', g.settings.units), 11: definition(S, 'a11', 'Rectangle', g.settings.units)}
    g.aperture = S.choice('selected', [10, 11])
    g.primitives = [P.Circle((1, 2), 3, units=g.settings.units)]
    return g


def coord(S, funcs, ops, arcs=True):
    opt = lambda n: S.real(n, -SH.BIG, SH.BIG) if S.flag(n + '?') else None
    return GS.CoordStmt(S.choice('function', funcs), opt('x'), opt('y'), opt('i') if arcs else None, opt('j') if arcs else None, S.choice('code', ops), None)


def state(g):
    return {'x': g.x, 'y': g.y, 'op': g.op, 'interpolation': g.interpolation, 'direction': g.direction, 'image_polarity': g.image_polarity,
            'level_polarity': g.level_polarity, 'quadrant_mode': g.quadrant_mode, 'region_mode': g.region_mode, 'aperture': g.aperture,
            'units': g.settings.units, 'notation': g.settings.notation, 'zeros': g.settings.zero_suppression, 'format': g.settings.format}


def kept(S, before, g, *but):
    now = state(g)
    for k in sorted(before):
        if k not in but:
            S.check('state kept: ' + k, SH.same(S, now[k], before[k]))


def modal(S, g0, st):
    """Interpolation and direction after a statement's function code."""
    f = st.function
    if f in ('G01', 'G1'):
        return 'linear', g0['direction']
    if f in ('G02', 'G2'):
        return 'arc', 'clockwise'
    if f in ('G03', 'G3'):
        return 'arc', 'counterclockwise'
    return g0['interpolation'], g0['direction']


def segment_ok(S, seg, g0, start, end, st, mode, direction, aperture):
    """seg is the straight or circular segment that the statement describes."""
    S.check('segment kind', type(seg) is (P.Line if mode == 'linear' else P.Arc))
    S.check('segment start', S.eq(tuple(seg.start), start))
    S.check('segment end', S.eq(tuple(seg.end), end))
    S.check('segment polarity', seg.level_polarity == g0['level_polarity'])
    S.check('segment units', seg.units == g0['units'])
    if mode == 'arc':
        i, j = 0 if st.i is None else st.i, 0 if st.j is None else st.j
        S.check('arc center', S.eq(tuple(seg.center), (start[0] + i, start[1] + j)))
        S.check('arc direction', seg.direction == direction)
        S.check('arc quadrant mode', seg.quadrant_mode == g0['quadrant_mode'])
    if aperture is not None:
        S.check('segment aperture', seg.aperture is aperture or S.eq([v for a, v in SH.lengths(seg.aperture)], [v for a, v in SH.lengths(aperture)]))


def point_of(S, g0, st):
    return (g0['x'] if st.x is None else st.x, g0['y'] if st.y is None else st.y)


@spec('C06', functions=[R + 'evaluate', R + '_evaluate_coord', R + '_find_center'], params=[(f, o) for f in FUNCS for o in (None,) + DRAW], n=60)
def draw(S, fo):
    """D01, given or modal, draws one line or arc from the current point with the selected aperture, and moves there."""
    f, o = fo
    g = machine(S, op='D01' if o is None else None)
    st = coord(S, [f], [o])
    S.assume(not st.only_function)
    g0, first = state(g), g.primitives[0]
    i, j = st.i, st.j
    mode, direction = modal(S, g0, st)
    end = point_of(S, g0, st)
    g.evaluate(st)
    S.check('one more object', len(g.primitives) == 2 and g.primitives[0] is first)
    segment_ok(S, g.primitives[1], g0, (g0['x'], g0['y']), end, st, mode, direction, g.apertures[g0['aperture']])
    S.check('moved', S.eq((g.x, g.y), end))
    S.check('mode', g.interpolation == mode and g.direction == direction)
    S.check('operation is modal', g.op in DRAW and st.op in DRAW)
    S.check('no region', g.current_region is None)
    kept(S, g0, g, 'x', 'y', 'op', 'interpolation', 'direction')


@spec('C06', functions=[R + 'evaluate', R + '_evaluate_coord'], params=[(f, o) for f in FUNCS for o in (None,) + MOVE], n=60)
def move(S, fo):
    """D02, given or modal, moves without drawing."""
    f, o = fo
    g = machine(S, op='D02' if o is None else None)
    st = coord(S, [f], [o])
    S.assume(not st.only_function)
    g0, first = state(g), g.primitives[0]
    mode, direction = modal(S, g0, st)
    end = point_of(S, g0, st)
    g.evaluate(st)
    S.check('nothing drawn', len(g.primitives) == 1 and g.primitives[0] is first)
    S.check('moved', S.eq((g.x, g.y), end))
    S.check('mode', g.interpolation == mode and g.direction == direction)
    S.check('operation is modal', g.op in MOVE and st.op in MOVE)
    kept(S, g0, g, 'x', 'y', 'op', 'interpolation', 'direction')


@spec('C06', functions=[R + 'evaluate', R + '_evaluate_coord'], params=[(k, o) for k in APS for o in (None,) + FLASH], n=60)
def flash(S, ko):
    """D03, given or modal, places one copy of the selected aperture at the point; the aperture itself stays as defined."""
    kind, o = ko
    g = machine(S, kind=kind, op='D03' if o is None else None)
    st = coord(S, [None, 'G01'], [o], arcs=False)
    S.assume(not st.only_function)
    g.aperture = 10
    ap = g.apertures[10]
    g0, first = state(g), g.primitives[0]
    dims = SH.lengths(ap)
    end = point_of(S, g0, st)
    g.evaluate(st)
    S.check('one more object', len(g.primitives) == 2 and g.primitives[0] is first)
    o = g.primitives[1]
    S.check('kind', type(o) is type(ap))
    S.check('its own object', o is not ap)
    S.check('position', S.eq(tuple(o.position), end))
    S.check('polarity', o.level_polarity == g0['level_polarity'])
    S.check('units', o.units == g0['units'])
    want = dict(dims)
    got = [(a, v) for a, v in SH.lengths(o) if a != 'position']
    S.check('dimensions', sorted(a for a, v in got) == sorted(want))
    for a, v in got:
        S.check('dimension', SH.same(S, v, want[a]), a)
    S.check('rotation', S.eq(o.rotation, ap.rotation))
    S.check('aperture unchanged', ap.position is None and g.apertures[10] is ap)
    for a, v in SH.lengths(ap):
        S.check('aperture unchanged', SH.same(S, v, want[a]), a)
    S.check('moved', S.eq((g.x, g.y), end))
    S.check('operation is modal', g.op in FLASH and st.op in FLASH)
    kept(S, g0, g, 'x', 'y', 'op', 'interpolation')


@spec('C06', functions=[R + 'evaluate', R + '_evaluate_coord'], n=200)
def two_flashes(S, p):
    """Two flashes of one aperture are independent objects: moving or converting one leaves the other alone."""
    g = machine(S, kind='Rectangle')
    g.aperture = 10
    a, b = SH.point(S, 'p'), SH.point(S, 'q')
    g.evaluate(GS.CoordStmt(None, a[0], a[1], None, None, 'D03', None))
    g.evaluate(GS.CoordStmt(None, b[0], b[1], None, None, None, None))
    o1, o2 = g.primitives[1:]
    w = g.apertures[10].width
    o1.offset(1, 2)
    o1.to_metric()
    o1.to_inch()
    S.check('second flash', S.eq(tuple(o2.position), b))
    S.check('second size', S.eq(o2.width, w))
    S.check('definition', S.eq(g.apertures[10].width, w))


@spec('C06', functions=[R + 'evaluate', R + '_evaluate_coord', 'gerber.gerber_statements.CoordStmt.only_function'], n=200)
def function_only(S, p):
    """A block that only sets the interpolation mode draws nothing, moves nothing and leaves the operation alone."""
    region = S.choice('region', ['off', 'on'])
    line = P.Line((0, 0), (1, 1), P.Circle((0, 0), 0))
    g = machine(S, region=region, contour=[line] if region == 'on' else None)
    st = GS.CoordStmt(S.choice('function', FUNCS[1:]), None, None, None, None, None, None)
    g0 = state(g)
    mode, direction = modal(S, g0, st)
    g.evaluate(st)
    S.check('nothing drawn', len(g.primitives) == 1 and (g.current_region is None if region == 'off' else len(g.current_region) == 1))
    S.check('mode', g.interpolation == mode and g.direction == direction)
    kept(S, g0, g, 'interpolation', 'direction')


@spec('C06', functions=[R + 'evaluate', R + '_evaluate_aperture'], n=100)
def select(S, p):
    """Selecting an aperture changes the selection and nothing else."""
    g = machine(S)
    g0 = state(g)
    d = S.int('d', 10, 999)
    g.evaluate(GS.ApertureStmt(d))
    S.check('selected', S.eq(g.aperture, d))
    S.check('nothing drawn', len(g.primitives) == 1)
    kept(S, g0, g, 'aperture')


@spec('C06', functions=[R + 'evaluate', R + '_evaluate_param', R + '_evaluate_mode'],
      params=['LPD', 'LPC', 'IPPOS', 'IPNEG', 'MOIN', 'MOMM', 'FSLA', 'FSTA', 'G74', 'G75', 'comment', 'eof', 'LN', 'IN', 'AS', 'IR', 'OF', 'SF'], n=60)
def parameter(S, what):
    """A parameter or mode statement sets exactly its own piece of state and draws nothing."""
    g = machine(S)
    g0 = state(g)
    ap = dict(g.apertures)
    st, changes = {
        'LPD': (GS.LPParamStmt('LP', 'dark'), {'level_polarity': 'dark'}),
        'LPC': (GS.LPParamStmt('LP', 'clear'), {'level_polarity': 'clear'}),
        'IPPOS': (GS.IPParamStmt('IP', 'positive'), {'image_polarity': 'positive'}),
        'IPNEG': (GS.IPParamStmt('IP', 'negative'), {'image_polarity': 'negative'}),
        'MOIN': (GS.MOParamStmt('MO', 'inch'), {'units': 'inch'}),
        'MOMM': (GS.MOParamStmt('MO', 'metric'), {'units': 'metric'}),
        'FSLA': (GS.FSParamStmt('FS', 'leading', 'absolute', (2, 5)), {'zeros': 'leading', 'notation': 'absolute', 'format': (2, 5)}),
        'FSTA': (GS.FSParamStmt('FS', 'trailing', 'incremental', (3, 4)), {'zeros': 'trailing', 'notation': 'incremental', 'format': (3, 4)}),
        'G74': (GS.QuadrantModeStmt('single-quadrant'), {'quadrant_mode': 'single-quadrant'}),
        'G75': (GS.QuadrantModeStmt('multi-quadrant'), {'quadrant_mode': 'multi-quadrant'}),
        'comment': (GS.CommentStmt('LPC*'), {}), 'eof': (GS.EofStmt(), {}), 'LN': (GS.LNParamStmt('LN', 'x'), {}),
        'IN': (GS.INParamStmt('IN', 'x'), {}), 'AS': (GS.ASParamStmt('AS', 'AXBY'), {}), 'IR': (GS.IRParamStmt('IR', 90), {}),
        'OF': (GS.OFParamStmt('OF', 1, 2), {}), 'SF': (GS.SFParamStmt('SF', 1, 1), {})}[what]
    g.evaluate(st)
    for k, v in changes.items():
        S.check('sets ' + k, state(g)[k] == v)
    kept(S, g0, g, *changes)
    S.check('nothing drawn', len(g.primitives) == 1 and g.current_region is None)
    S.check('apertures kept', sorted(g.apertures) == sorted(ap) and all(g.apertures[k] is ap[k] for k in ap))


def params_of_aperture(S, shape):
    n = S.choice('n', {'C': [1, 2, 3], 'R': [2, 3, 4], 'O': [2, 3, 4], 'P': [2, 3, 4, 5]}[shape])
    v = [S.real('m%d' % k, 0, 1000) for k in range(n)]
    if shape == 'P':
        v[1] = S.choice('sides', [3.0, 4.0, 6.0, 12.0])
    return n, v


@spec('C06', functions=[R + '_define_aperture', R + '_evaluate_param'], params=['C', 'R', 'O', 'P'], n=150)
def define(S, shape):
    """An aperture definition creates the standard shape with the given dimensions, hole and rotation under its code."""
    g = machine(S)
    g0 = state(g)
    others = dict(g.apertures)
    n, v = params_of_aperture(S, shape)
    d = S.choice('d', [10, 12, 999])
    g.evaluate(GS.ADParamStmt('AD', d, shape, (list(v),)))
    S.check('codes', sorted(g.apertures) == sorted(set(list(others) + [d])))
    for k in others:
        if k != d:
            S.check('other apertures', g.apertures[k] is others[k])
    a = g.apertures[d]
    S.check('kind', type(a).__name__ == {'C': 'Circle', 'R': 'Rectangle', 'O': 'Obround', 'P': 'Polygon'}[shape])
    S.check('units', a.units == g0['units'])
    base = {'C': 1, 'R': 2, 'O': 2, 'P': 3}[shape]
    if shape == 'C':
        S.check('diameter', S.eq(a.diameter, v[0]))
    elif shape == 'P':
        S.check('outer diameter', S.eq(a.radius * 2, v[0]))
        S.check('sides', a.sides == v[1])
        S.check('rotation', S.eq(a.rotation, v[2] if n > 2 else 0))
    else:
        S.check('size', S.eq((a.width, a.height), (v[0], v[1])))
    hole = v[base:]
    S.check('hole', S.eq(a.hole_diameter, hole[0] if len(hole) == 1 else 0))
    S.check('rectangular hole', S.eq((a.hole_width, a.hole_height), tuple(hole) if len(hole) == 2 else (0, 0)))
    kept(S, g0, g)
    S.check('nothing drawn', len(g.primitives) == 1)


@spec('C06', functions=[R + '_define_aperture', R + 'evaluate', R + '_evaluate_coord', 'gerber.primitives.AMGroup.position'], n=100)
def macro_flash(S, p):
    """A macro defined and instantiated is flashed as its shapes moved to the point, every time afresh."""
    g = machine(S)
    S.assume(g.settings.units == 'inch')
    g.evaluate(GS.AMParamStmt('AM', 'TWO', '1,1,$1,$2,0*1,1,0.5,0,$2*'))
    dia, off = S.real('dia', 0.01, 100), S.real('off', -100, 100)
    g.evaluate(GS.ADParamStmt('AD', 12, 'TWO', ([dia, off],)))
    g.evaluate(GS.ApertureStmt(12))
    for n in ('p', 'q'):
        a = SH.point(S, n)
        g.evaluate(GS.CoordStmt(None, a[0], a[1], None, None, 'D03', None))
        o = g.primitives[-1]
        S.check('group', type(o) is P.AMGroup and len(o.primitives) == 2)
        S.check('position', S.eq(tuple(o.position), a))
        S.check('polarity', o.level_polarity == g.level_polarity)
        c1, c2 = o.primitives
        S.check('first circle', S.and_(S.eq(tuple(c1.position), (a[0] + off, a[1])), S.eq(c1.diameter, dia)))
        S.check('second circle', S.and_(S.eq(tuple(c2.position), (a[0], a[1] + off)), S.eq(c2.diameter, 0.5)))
    S.check('two flashes', len(g.primitives) == 3)
