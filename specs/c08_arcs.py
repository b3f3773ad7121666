"""C08: arc geometry: sweep angles, radii, and the center of single-quadrant arcs."""
from engine.reg import spec
import shapes as SH
import gerber.primitives as P
from gerber.rs274x import GerberParser

DIRS = ['counterclockwise', 'clockwise']


def polar(S, n, r, c):
    a = S.real(n, 0, 7)
    S.assume(S.lt(a, 2 * S.pi))
    return a, (c[0] + r * S.cos(a), c[1] + r * S.sin(a))


@spec('C08', functions=['gerber.primitives.Arc.sweep_angle', 'gerber.primitives.Arc.start_angle', 'gerber.primitives.Arc.end_angle',
                        'gerber.primitives.Arc.radius'], params=DIRS, n=400)
def sweep(S, d):
    """The sweep is the angle, at least 0 and less than a full turn, that carries the start to the end in the arc's direction."""
    c, r = SH.point(S, 'c'), S.real('r', 0.001, 1000)
    a0, s = polar(S, 'a0', r, c)
    a1, e = polar(S, 'a1', r, c)
    for a, q in ((a0, s), (a1, e)):
        S.lemma_polar(r, a, q[1] - c[1], q[0] - c[0])
    if not S.symbolic:
        S.assume(abs(a0 - a1) > 1e-6)
    o = P.Arc(s, e, c, d, P.Circle((0, 0), 1), 'multi-quadrant')
    S.check('radius', S.eq(o.radius, r))
    w = o.sweep_angle
    S.check('range', S.and_(S.ge(w, 0), S.lt(w, 2 * S.pi)))
    want = a1 - a0 if d == 'counterclockwise' else a0 - a1
    S.check('carries start to end', S.or_(S.eq(w, want), S.eq(w, want + 2 * S.pi)))


@spec('C08', functions=['gerber.rs274x.GerberParser._find_center'], n=300)
def multi_quadrant_center(S, p):
    """In multi-quadrant mode the center is the start point plus the signed offsets."""
    g = GerberParser()
    g.quadrant_mode = 'multi-quadrant'
    g.direction = S.choice('dir', DIRS)
    s, e, o = SH.point(S, 's'), SH.point(S, 'e'), SH.point(S, 'o')
    S.check('center', S.eq(tuple(g._find_center(s, e, o)), (s[0] + o[0], s[1] + o[1])))


def quarter(S, d):
    """A single-quadrant arc: center, radius and angles with a sweep of at most 90 degrees."""
    c, r = SH.point(S, 'c'), S.real('r', 0.01, 1000)
    a0, s = polar(S, 'a0', r, c)
    w = S.real('w', 0.001, 1.5707963)
    a1 = a0 + w if d == 'counterclockwise' else a0 - w
    S.lemma_angle_add(a0, w if d == 'counterclockwise' else -w)
    e = (c[0] + r * S.cos(a1), c[1] + r * S.sin(a1))
    return c, r, a0, w, s, e


@spec('C08', functions=['gerber.rs274x.GerberParser._find_center'], params=DIRS, n=1500,
      bounded='four candidate centers with two arc tangents each over products of sine and cosine: outside what nlsat decides; run-time evaluation of the contract only')
def single_quadrant_center(S, d):
    """In single-quadrant mode the unsigned offsets recover the center of every arc of at most 90 degrees, wherever it starts."""
    c, r, a0, w, s, e = quarter(S, d)
    g = GerberParser()
    g.quadrant_mode = 'single-quadrant'
    g.direction = d
    i, j = abs(c[0] - s[0]), abs(c[1] - s[1])
    got = g._find_center(s, e, (i, j))
    S.check('a center', got is not None)
    S.check('center', S.near(tuple(got), c, 1e-4 * max(1, r)))


@spec('C08', functions=['gerber.rs274x.GerberParser._find_center'], params=[(d, k) for d in DIRS for k in range(4)], n=100)
def quarter_turns(S, dk):
    """The center of every quarter turn that starts at a compass point is recovered."""
    d, k = dk
    c, r = SH.point(S, 'c'), S.real('r', 0.01, 1000)
    compass = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    s = compass[k]
    e = compass[(k + (1 if d == 'counterclockwise' else -1)) % 4]
    pt = lambda v: (c[0] + r * v[0], c[1] + r * v[1])
    g = GerberParser()
    g.quadrant_mode = 'single-quadrant'
    g.direction = d
    got = g._find_center(pt(s), pt(e), (r * abs(s[0]), r * abs(s[1])))
    S.check('a center', got is not None)
    S.check('center', S.eq(tuple(got), c))


@spec('C08', functions=['gerber.primitives.Line.angle'], n=200)
def line_angle(S, p):
    """The angle of a line points from its start to its end."""
    s, e = SH.point(S, 's'), SH.point(S, 'e')
    a = P.Line(s, e, P.Circle((0, 0), 1)).angle
    n = S.sqrt((e[0] - s[0]) * (e[0] - s[0]) + (e[1] - s[1]) * (e[1] - s[1]))
    S.check('x', S.eq(n * S.cos(a), e[0] - s[0]))
    S.check('y', S.eq(n * S.sin(a), e[1] - s[1]))


@spec('C08', functions=['gerber.rs274x.GerberParser._find_center'], params=[(d, a, b) for d in DIRS for a in (1, -1) for b in (1, -1)], n=200,
      wall_s=250, timeout_ms=30000)
def single_quadrant_center_exists(S, case):
    """In single-quadrant mode a center is always found, equally far from start and end, one unsigned offset from the start."""
    d, si, sj = case
    c = SH.point(S, 'c')
    i, j = S.real('i', 0, 1000), S.real('j', 0, 1000)
    u = (si * i, sj * j)
    S.assume(S.gt(i + j, 0.01))
    if S.symbolic:
        v = (S.real('vx', -2000, 2000), S.real('vy', -2000, 2000))
        S.assume(S.eq(v[0] * v[0] + v[1] * v[1], i * i + j * j))
        cross = u[0] * v[1] - u[1] * v[0]
        S.assume(S.ge(u[0] * v[0] + u[1] * v[1], 0))
        S.assume(S.ge(cross, 0) if d == 'counterclockwise' else S.le(cross, 0))
    else:
        w = S.real('w', 0.001, 1.5707963) * (1 if d == 'counterclockwise' else -1)
        v = (u[0] * S.cos(w) - u[1] * S.sin(w), u[0] * S.sin(w) + u[1] * S.cos(w))
    s, e = (c[0] + u[0], c[1] + u[1]), (c[0] + v[0], c[1] + v[1])
    r = S.sqrt(i * i + j * j) if not S.symbolic else 1
    S.lemma_acute(u[1], u[0], v[1], v[0])
    g = GerberParser()
    g.quadrant_mode = 'single-quadrant'
    g.direction = d
    got = g._find_center(s, e, (i, j))
    S.check('a center', got is not None)
    x, y = got
    S.check('one offset away', S.and_(S.or_(S.eq(x, s[0] + i), S.eq(x, s[0] - i)), S.or_(S.eq(y, s[1] + j), S.eq(y, s[1] - j))))
    S.check('equally far', S.near((s[0] - x) * (s[0] - x) + (s[1] - y) * (s[1] - y), (e[0] - x) * (e[0] - x) + (e[1] - y) * (e[1] - y), 0 if S.symbolic else 1e-6 * max(1, r * r)))
