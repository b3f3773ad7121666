"""C07: regions (G36/G37): contours become region objects, nothing else is drawn."""
from engine.reg import spec
import shapes as SH
import gerber.primitives as P
import gerber.gerber_statements as GS
from c06_draw import machine, coord, state, kept, modal, segment_ok, point_of, FUNCS, DRAW, MOVE

R = 'gerber.rs274x.GerberParser.'


def contour_of(S, n):
    """An open contour of n arbitrary segments (None: no segment yet)."""
    if n == 0:
        return None
    return [P.Line(SH.point(S, 's%d' % k), SH.point(S, 'e%d' % k), P.Circle((0, 0), 0), units='inch') if k % 2 == 0 else
            P.Arc(SH.point(S, 's%d' % k), SH.point(S, 'e%d' % k), SH.point(S, 'c%d' % k), 'clockwise', P.Circle((0, 0), 0), 'multi-quadrant', units='inch')
            for k in range(n)]


@spec('C07', functions=[R + 'evaluate', R + '_evaluate_mode'], params=[0, 1, 2], n=100)
def begin(S, n):
    """G36 starts a region and draws nothing."""
    g = machine(S)
    g0 = state(g)
    g.evaluate(GS.RegionModeStmt('on'))
    S.check('on', g.region_mode == 'on')
    S.check('nothing drawn', len(g.primitives) == 1)
    S.check('no contour', not g.current_region)
    kept(S, g0, g, 'region_mode')


@spec('C07', functions=[R + 'evaluate', R + '_evaluate_coord'], params=[(n, f) for n in (0, 1, 2, 3) for f in FUNCS], n=60)
def segment(S, nf):
    """Inside a region D01 adds one segment to the contour and draws no object; the pen moves."""
    n, f = nf
    g = machine(S, region='on', contour=contour_of(S, n))
    before = list(g.current_region or [])
    st = coord(S, [f], ['D01', None])
    if st.op is None:
        S.assume(g.op == 'D01' and not st.only_function)
    if S.flag('undefined aperture'):
        g.aperture = 0
    g0 = state(g)
    mode, direction = modal(S, g0, st)
    end = point_of(S, g0, st)
    g.evaluate(st)
    S.check('no object', len(g.primitives) == 1)
    S.check('one more segment', len(g.current_region) == n + 1)
    for a, b in zip(g.current_region, before):
        S.check('earlier segments kept', a is b)
    segment_ok(S, g.current_region[n], g0, (g0['x'], g0['y']), end, st, mode, direction, None)
    S.check('moved', S.eq((g.x, g.y), end))
    kept(S, g0, g, 'x', 'y', 'op', 'interpolation', 'direction')
    S.check('direction', g.direction == direction)
    if mode == 'linear':
        S.check('mode', g.interpolation == 'linear')


@spec('C07', functions=[R + '_evaluate_coord'], known='C07-arcmode')
def arc_mode_is_modal(S, p):
    """Circular interpolation stays on inside a region until a G01."""
    g = machine(S, region='on')
    g.evaluate(GS.CoordStmt('G02', 1.0, 1.0, 0.5, 0.5, 'D01', None))
    S.check('still circular', g.interpolation == 'arc')


@spec('C07', functions=[R + 'evaluate', R + '_evaluate_mode', R + '_evaluate_coord'], params=[(n, how) for n in (0, 1, 2, 3, 4) for how in ('D02', 'G37')], n=100)
def close(S, nh):
    """G37, or a move to the next contour, turns the open contour into one region object with every segment in order; an empty contour draws nothing."""
    n, how = nh
    g = machine(S, region='on', contour=contour_of(S, n))
    before = list(g.current_region or [])
    g0, first = state(g), g.primitives[0]
    x, y = SH.point(S, 'to')
    if how == 'G37':
        g.evaluate(GS.RegionModeStmt('off'))
        S.check('off', g.region_mode == 'off')
    else:
        g.evaluate(GS.CoordStmt(None, x, y, None, None, S.choice('code', list(MOVE)), None))
        S.check('still on', g.region_mode == 'on')
        S.check('moved', S.eq((g.x, g.y), (x, y)))
    S.check('objects', len(g.primitives) == (1 if n == 0 else 2) and g.primitives[0] is first)
    S.check('contour closed', not g.current_region)
    if n:
        r = g.primitives[1]
        S.check('a region', type(r) is P.Region)
        S.check('every segment', len(r.primitives) == n)
        for a, b in zip(r.primitives, before):
            S.check('segments in order', a is b)
        S.check('polarity', r.level_polarity == g0['level_polarity'])
        S.check('units', r.units == g0['units'])
    kept(S, g0, g, 'region_mode', *([] if how == 'G37' else ['x', 'y', 'op']))


@spec('C07', functions=[R + 'evaluate', R + '_evaluate_mode', R + '_evaluate_coord'], params=[1, 2, 3], n=60)
def whole_region(S, n):
    """A region with two contours gives two region objects with the segments of each, and nothing leaks into drawing afterwards."""
    g = machine(S)
    S.assume(g.interpolation == 'linear')
    pts = [SH.point(S, 'p%d' % k) for k in range(n + 1)]
    qts = [SH.point(S, 'q%d' % k) for k in range(n + 1)]
    g.evaluate(GS.RegionModeStmt('on'))
    for ps in (pts, qts):
        g.evaluate(GS.CoordStmt(None, ps[0][0], ps[0][1], None, None, 'D02', None))
        for k in range(n):
            g.evaluate(GS.CoordStmt('G01', ps[k + 1][0], ps[k + 1][1], None, None, 'D01', None))
    g.evaluate(GS.RegionModeStmt('off'))
    S.check('two regions', [type(o) for o in g.primitives[1:]] == [P.Region, P.Region])
    for r, ps in zip(g.primitives[1:], (pts, qts)):
        S.check('contour', S.eq([(tuple(s.start), tuple(s.end)) for s in r.primitives], [(ps[k], ps[k + 1]) for k in range(n)]))
    a = SH.point(S, 'a')
    g.evaluate(GS.CoordStmt('G01', a[0], a[1], None, None, 'D01', None))
    S.check('drawing again', len(g.primitives) == 4 and type(g.primitives[3]) is P.Line)
    S.check('from the last point', S.eq((tuple(g.primitives[3].start), tuple(g.primitives[3].end)), (qts[n], a)))
