"""C18: records of IPC-D-356 netlists."""
from engine.reg import spec
import gerber.ipc356 as I
from gerber.cam import FileSettings
from netlines import R, put, symbol

SCALE = {'inch': 10000, 'metric': 1000}


def settings(S):
    return FileSettings(units=S.choice('units', ['inch', 'metric']), angle_units='degrees')


def number(S, n, width, signed=False):
    """A number right-aligned in a field, with leading zeros or blanks, and its value."""
    k = S.choice(n + '.len', range(1, width + 1)) if width > 2 else width
    d = S.digits(n, k)
    sign = S.choice(n + '.sign', ['', '-', '+']) if signed and k < width else ''
    fill = width - k - len(sign)
    text = S.concat(sign, '0' * fill, d) if S.flag(n + '.zeros') else S.concat(' ' * fill, sign, d)
    return text, -S.int_of(d) if sign == '-' else S.int_of(d)


# the parts of a record, each with what it must decode to
def parts(S, which, shift):
    """Fields of a record; those named by `which` hold arbitrary values."""
    u = lambda k, w, s, d: number(S, k, w, s) if k in which else d
    f, want = {}, {}
    dia = u('dia', 4, False, ('0150', 150))
    x, y = u('x', 7, True, (' 006647', 6647)), u('y', 7, True, ('-  1290'.replace('  ', '00'), -1290))
    f[33 + shift], f[34 + shift] = 'D', dia[0]
    f[38 + shift], f[39 + shift] = 'P', 'A'
    f[40 + shift] = '01'
    f[42 + shift], f[43 + shift], f[50 + shift], f[51 + shift] = 'X', x[0], 'Y', y[0]
    want.update(hole_diameter=dia[1], x_coord=x[1], y_coord=y[1])
    return f, want


def decoded(S, line, s, want):
    r = I.IPC356_TestRecord.from_line(line, s)
    for k in want:
        got = getattr(r, k, None)
        if isinstance(want[k], str) or want[k] is None or isinstance(want[k], bool):
            S.check(k, S.exact(got, want[k]) if isinstance(got, str) and isinstance(want[k], str) else got == want[k])
        else:
            S.check(k, got is not None and S.near(got, S.div(want[k], SCALE[s.units]), 1e-9))
    return r


HEAD = {1: '3', 2: '1', 3: '7'}
# length of the line: after which field it ends
ENDS = {'y': 57, 'rect_x': 62, 'rect_y': 67, 'rotation': 71, 'soldermask': 74, 'full': 80}


@spec('C18', functions=[R + 'IPC356_TestRecord.from_line'], params=[(w, e, shift) for w in ('dia', 'x', 'y') for e in ('y', 'rect_y', 'full') for shift in (0, 7)], n=60)
def measures(S, wes):
    """Hole sizes and signed coordinates are those of their columns, in the units of the file, wherever the line ends and however long the component's name is."""
    which, end, shift = wes
    s = settings(S)
    f, want = parts(S, (which,), shift)
    f.update({1: '317', 4: 'GND', 21: 'COMMUNICATION-1' if shift else S.choice('id', ['VIA', 'R1    -2', 'U1'])})
    if end != 'y':
        f[58 + shift], f[59 + shift], f[63 + shift], f[64 + shift] = 'X', ' 396', 'Y', '0315'
        want.update(rect_x=396, rect_y=315)
    else:
        want.update(rect_x=None, rect_y=None)
    if end == 'full':
        f[68 + shift], f[69 + shift], f[73 + shift], f[74 + shift], f[76 + shift] = 'R', '270', 'S', '3', 'EXTRA'
        want.update(rect_rotation_=None)
        want.pop('rect_rotation_')
    r = decoded(S, put(S, f), s, want)
    S.check('rotation', getattr(r, 'rect_rotation', None) == (270 if end == 'full' else None))
    S.check('soldermask', getattr(r, 'soldermask_info', None) == ('both' if end == 'full' else None))
    S.check('optional', getattr(r, 'optional_info', None) == ('EXTRA' if end == 'full' else None))
    S.check('rest', r.plated is True and r.access == 'top' and r.net_name == 'GND' and r.feature_type == 'through-hole')


@spec('C18', functions=[R + 'IPC356_TestRecord.from_line'], params=['rect_x', 'rect_y', 'rotation', 'radians', 'soldermask', 'optional'], n=60)
def tail(S, which):
    """The fields after the coordinates are decoded also when the line ends with them."""
    s = settings(S)
    if which == 'radians':
        s = FileSettings(units='inch', angle_units='radians')
    f, want = parts(S, (), 0)
    f.update({1: '327', 4: 'GND', 21: 'R1    -2', 58: 'X'})
    v = number(S, 'v', S.choice('width', [3, 2, 1] if which in ('rotation', 'radians') else [4, 3, 1]))
    f[59] = v[0] if which == 'rect_x' else ' 396'
    if which != 'rect_x':
        f[63] = 'Y'
        f[64] = v[0] if which == 'rect_y' else '0315'
    if which in ('rotation', 'radians', 'soldermask', 'optional'):
        f[68] = 'R'
        f[69] = v[0] if which in ('rotation', 'radians') else '090'
    if which in ('soldermask', 'optional'):
        f[73] = 'S'
        f[74] = S.choice('side', ['0', '1', '2', '3'])
    info = symbol(S, 'info', S.choice('n', [1, 2, 5]))
    if which == 'optional':
        f[76] = info
    r = decoded(S, put(S, f), s, want)
    k = SCALE[s.units]
    S.check('rect_x', S.near(r.rect_x, S.div(v[1] if which == 'rect_x' else 396, k), 1e-9))
    if which == 'rect_x':
        S.check('nothing else', not [n for n in ('rect_y', 'rect_rotation', 'soldermask_info', 'optional_info') if hasattr(r, n)])
        return
    S.check('rect_y', S.near(r.rect_y, S.div(v[1] if which == 'rect_y' else 315, k), 1e-9))
    if which == 'rotation':
        S.check('degrees', S.eq(r.rect_rotation, v[1]))
    elif which == 'radians':
        S.check('radians', S.near(r.rect_rotation, S.div(S.num(v[1]) * 180, S.pi), 1e-6))
    elif which != 'rect_y':
        S.check('degrees', r.rect_rotation == 90)
        S.check('side', r.soldermask_info == {'0': 'none', '1': 'primary side', '2': 'secondary side', '3': 'both'}[f[74]])
    if which == 'optional':
        S.check('optional', S.exact(r.optional_info, info))
    elif which != 'optional':
        S.check('no optional', not hasattr(r, 'optional_info'))


TYPES = {'317': 'through-hole', '327': 'smt', '367': 'non-plated-tooling-hole'}


@spec('C18', functions=[R + 'IPC356_TestRecord.from_line', R + 'IPC356_TestRecord.__init__'], params=[(t, n) for t in sorted(TYPES) for n in (1, 6, 14)], n=60)
def names(S, tn):
    """Net, component and pin are the texts of their columns without blanks; names may fill their columns."""
    t, n = tn
    s = settings(S)
    net, ref = symbol(S, 'net', n), symbol(S, 'ref', S.choice('refs', [1, 3, 6]))
    pin = symbol(S, 'pin', S.choice('pins', [0, 1, 4]))
    f, want = parts(S, (), 0)
    side = S.choice('access', range(9))
    plated, middle = S.flag('plated'), S.flag('middle')
    f.update({1: t, 4: net, 21: ref, 38: 'P' if plated else 'U', 40: '%02d' % side})
    if len(pin):
        f[27], f[28] = '-', pin
    if middle:
        f[32] = 'M'
    if t == '327':
        f.pop(33), f.pop(34), want.pop('hole_diameter')
    r = decoded(S, put(S, f), s, want)
    S.check('type', r.feature_type == TYPES[t])
    S.check('net', S.exact(r.net_name, net))
    S.check('component', S.exact(r.id, ref))
    S.check('pin', S.exact(r.pin, pin) if len(pin) else r.pin is None)
    S.check('location', r.location == ('middle' if middle else 'end'))
    S.check('plated', r.plated == plated)
    S.check('side', r.access == ['both', 'top', 'layer2', 'layer3', 'layer4', 'layer5', 'layer6', 'layer7', 'bottom'][side])
    S.check('hole', hasattr(r, 'hole_diameter') == (t != '327'))


@spec('C18', functions=[R + 'IPC356_TestRecord.from_line'], params=[7, 9, 13], n=60)
def long_names(S, n):
    """Component names too long for their columns move the rest of the record."""
    s = settings(S)
    ref, pin = symbol(S, 'ref', n), symbol(S, 'pin', S.choice('pins', [1, 4]))
    shift = n - 6
    f, want = parts(S, ('x',), shift)
    f.update({1: '317', 4: 'N1', 21: S.concat(ref, '-', pin)})
    r = decoded(S, put(S, f), s, want)
    S.check('component', S.exact(r.id, ref))
    S.check('pin', S.exact(r.pin, pin))
    S.check('plated', r.plated is True and r.access == 'top')


def points_text(S, kind, signs=True):
    """Coordinates with modal parts and what they denote."""
    a, b = number(S, 'a', 2, False), number(S, 'b', 2, False)
    sa, sb = (S.choice('sa', ['', '-', '+']), S.choice('sb', ['', '-'])) if signs else ('', '')
    A, B = (-a[1] if sa == '-' else a[1]), (-b[1] if sb == '-' else b[1])
    p, q = S.concat(sa, S.choice('pad', ['', '00']), a[0].strip() if not S.symbolic else a[0]), S.concat(sb, b[0])
    return {'XY': (S.concat('X', p, 'Y', q, ' X20Y30'), [(A, B), (20, 30)]), 'X': (S.concat('X5Y7 X', p), [(5, 7), (A, 7)]),
            'Y': (S.concat('X5Y7 Y', q, ' X9'), [(5, 7), (5, B), (9, B)])}[kind]


@spec('C18', functions=[R + 'IPC356_Outline.from_line'], params=['XY', 'X', 'Y'], n=60)
def outline(S, kind):
    """Outlines have the signed points of their line; a coordinate left out is that of the point before."""
    s = settings(S)
    text, want = points_text(S, kind)
    o = I.IPC356_Outline.from_line('389BOARD_EDGE         ' + text, s)
    S.check('type', o.type == 'BOARD_EDGE')
    S.check('number of points', len(o.points) == len(want))
    for p, w in zip(o.points, want):
        S.check('point', S.and_(*[S.near(p[k], S.div(w[k], SCALE[s.units]), 1e-9) for k in (0, 1)]))


@spec('C18', functions=[R + 'IPC356_Conductor.from_line'], params=['XY', 'X', 'Y'], n=60)
def conductor(S, kind):
    """Conductors have their net, layer, aperture and chains of signed points."""
    s = settings(S)
    text, want = points_text(S, kind)
    layer = S.choice('layer', [1, 2, 12])
    round_ = S.flag('round')
    c = I.IPC356_Conductor.from_line(put(S, {1: '378', 4: 'GND', 19: 'L%02d' % layer, 23: S.concat('X100' if round_ else 'X100Y50', ' ', text, ' * X1Y2 X3')}), s)
    k = SCALE[s.units]
    S.check('net', c.net_name == 'GND' and c.layer == layer)
    S.check('aperture', S.near(c.aperture[0], 100.0 / k, 1e-9) and (c.aperture[1] is None if round_ else S.near(c.aperture[1], 50.0 / k, 1e-9)))
    want = [want, [(1, 2), (3, 2)]]
    S.check('chains', [len(x) for x in c.shapes] == [len(x) for x in want])
    for x, w in zip(c.shapes, want):
        for p, q in zip(x, w):
            S.check('point', S.and_(*[S.near(p[i], S.div(q[i], k), 1e-9) for i in (0, 1)]))
