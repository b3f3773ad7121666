"""C15: Excellon statements survive being written and read back."""
from engine.reg import spec
import gerber.excellon_statements as ES
from gerber.cam import FileSettings
from gerber.excellon import ExcellonParser, DrillHit, DrillSlot

M = 'gerber.excellon_statements.'
PX = 'gerber.excellon.ExcellonParser.'
FORMATS = [(2, 4), (2, 5), (3, 3), (4, 2), (1, 5), (3, 2)]


def settings(S, fmt, notation='absolute'):
    return FileSettings(units=S.choice('units', ['inch', 'metric']), zeros=S.choice('zeros', ['leading', 'trailing']), format=fmt, notation=notation)


def value(S, n, fmt):
    """A number that the format can hold after rounding."""
    v = S.real(n, -10 ** fmt[0], 10 ** fmt[0])
    r = S.num(10.0 ** -fmt[1]) / 2
    S.assume(S.and_(v < 10 ** fmt[0] - r, v > -10 ** fmt[0] + r))
    return v


def near(S, a, b, fmt):
    if a is None or b is None:
        return a is b
    return S.near(a, b, 10.0 ** -fmt[1] / 2)


def pair(S, which, fmt):
    """Two coordinates: any number and a missing, positive or negative one."""
    v, w = value(S, 'v', fmt), S.choice('w', [None, 1.5, -0.25, 0])
    return (v, w) if which == 'x' else (w, v)


@spec('C15', functions=[M + 'CoordinateStmt.to_excellon', M + 'CoordinateStmt.from_excellon'], params=[(f, w) for f in FORMATS for w in 'xy'], n=60)
def coordinate(S, fw):
    """A coordinate is read back to within half the resolution of the format, and missing ones stay missing."""
    fmt, w = fw
    s = settings(S, fmt)
    x, y = pair(S, w, fmt)
    st = ES.CoordinateStmt(x, y)
    back = ES.CoordinateStmt.from_excellon(st.to_excellon(s), s)
    S.check('x', near(S, back.x, x, fmt))
    S.check('y', near(S, back.y, y, fmt))
    S.check('units', back.units == s.units)


@spec('C15', functions=[M + 'SlotStmt.to_excellon', M + 'SlotStmt.from_excellon', M + 'SlotStmt.from_points'], params=[(f, n, k) for f in [(2, 4), (3, 3)] for n in ('absolute', 'incremental') for k in range(4)], n=60)
def slot(S, fn):
    """A slot is read back with both its points; with absolute coordinates those missing at the end are those of the start."""
    fmt, notation, k = fn
    s = settings(S, fmt, notation)
    a = list(S.choice('others', [(1.5, -0.25, 0, 2), (0, 0, 0, 0)]))
    a[k] = value(S, 'v', fmt)
    have = S.choice('have', ['1111', '1011', '1110', '0101', '1101', '0111'])
    S.assume(have[k] == '1')
    a = [v if h == '1' else None for v, h in zip(a, have)]
    st = ES.SlotStmt(*a) if have != '1111' or S.flag('plain') else ES.SlotStmt.from_points((a[0], a[1]), (a[2], a[3]))
    back = ES.SlotStmt.from_excellon(st.to_excellon(s), s)
    want = list(a)
    if notation == 'absolute':
        want[2:] = [a[k] if a[k + 2] is None else a[k + 2] for k in (0, 1)]
    for g, w in zip((back.x_start, back.y_start, back.x_end, back.y_end), want):
        S.check('coordinate', near(S, g, w, fmt))
    S.check('units', back.units == s.units)


@spec('C15', functions=[M + 'RepeatHoleStmt.to_excellon', M + 'RepeatHoleStmt.from_excellon'], params=[(f, w) for f in FORMATS[:4] for w in 'xy'], n=60)
def repeat(S, fw):
    """A repeat is read back with its count and step."""
    fmt, w = fw
    s = settings(S, fmt)
    x, y = pair(S, w, fmt)
    n = S.choice('n', [0, 7, 100])
    st = ES.RepeatHoleStmt(n, x, y)
    back = ES.RepeatHoleStmt.from_excellon(st.to_excellon(s), s)
    S.check('count', back.count == n)
    S.check('step', S.and_(near(S, back.xdelta or 0, x or 0, fmt), near(S, back.ydelta or 0, y or 0, fmt)))
    S.check('units', back.units == s.units)


@spec('C15', functions=[M + 'EndOfProgramStmt.to_excellon', M + 'EndOfProgramStmt.from_excellon'], params=[(f, w) for f in FORMATS[:4] for w in 'xy'], n=60)
def end(S, fw):
    """The end of the program is read back with its position."""
    fmt, w = fw
    s = settings(S, fmt)
    x, y = pair(S, w, fmt)
    st = ES.EndOfProgramStmt(x, y)
    back = ES.EndOfProgramStmt.from_excellon(st.to_excellon(s), s)
    S.check('x', near(S, back.x, x, fmt))
    S.check('y', near(S, back.y, y, fmt))
    S.check('units', back.units == s.units)


TOOL = {'retract_rate': 'B', 'feed_rate': 'F', 'max_hit_count': 'H', 'depth_offset': 'Z'}


@spec('C15', functions=[M + 'ExcellonTool.to_excellon', M + 'ExcellonTool.from_excellon'], params=[(f, k) for f in [(2, 4), (3, 3)] for k in sorted(TOOL) + ['rpm', 'fast', 'diameter', 'number']], n=60)
def tool(S, fk):
    """Each parameter of a tool is read back to the resolution of the format, alone and next to others."""
    fmt, key = fk
    s = settings(S, fmt)
    args = {'number': 7}
    for k, v in (('feed_rate', 1.25), ('rpm', 2500.0), ('depth_offset', -0.5)):
        if k != key and S.flag('with ' + k):
            args[k] = v
    tol = 10.0 ** -fmt[1] / 2
    if key == 'number':
        args['number'] = v = S.choice('number', [1, 9, 10, 99, 102, 999])
    elif key == 'rpm':
        v = args['rpm'] = S.real('rpm', 0, 99999)
        S.assume(S.lt(v, 1000 * (10 ** fmt[0] - 1)))
        tol *= 1000
    elif key == 'fast':
        S.explicit_digits()
        key = 'rpm'
        v = args['rpm'] = S.choice('rpm', [100000.0, 120000.0, 125500.0, 250000.0])
        tol *= 1000
    elif key == 'diameter':
        S.explicit_digits()
        v = args[key] = S.real('c', 0.001, 99)
        tol *= 2.01
    else:
        v = args[key] = value(S, 'v', fmt)
    t = ES.ExcellonTool(s, **args)
    back = ES.ExcellonTool.from_excellon(t.to_excellon(), s)
    for k in ('number', 'retract_rate', 'feed_rate', 'max_hit_count', 'rpm', 'diameter', 'depth_offset'):
        if k not in args:
            S.check('not invented: ' + k, getattr(back, k) is None)
        elif k == 'number':
            S.check('number', back.number == args[k])
        else:
            S.check('kept: ' + k, S.near(getattr(back, k), args[k], tol if k == key else 1e-9))


@spec('C15', functions=[M + 'ToolSelectionStmt.to_excellon', M + 'ToolSelectionStmt.from_excellon'], params=['01', '1', '12', '102', '0203', '1200', '00'], n=5)
def selection(S, t):
    """A tool selection is read back with its tool and compensation."""
    st = ES.ToolSelectionStmt.from_excellon('T' + t)
    back = ES.ToolSelectionStmt.from_excellon(st.to_excellon())
    S.check('kept', (back.tool, back.compensation_index) == (st.tool, st.compensation_index))


# ---- lines of a program, read, written and read ---------------------------------
def machine(S, state=None, fmt=(2, 4), units=None):
    s = FileSettings(units=units or S.choice('units', ['inch', 'metric']), zeros=S.choice('zeros', ['leading', 'trailing']), format=fmt, notation=S.choice('notation', ['absolute', 'incremental']))
    p = ExcellonParser(s)
    p.state = state or S.choice('state', ['INIT', 'HEADER', 'DRILL', 'ROUT', 'LINEAR'])
    p.drill_down = p.state in ('ROUT', 'LINEAR') and S.flag('down')
    p.pos = [S.real('at.x', -9, 9), S.real('at.y', -9, 9)]
    p.tools = {k: ES.ExcellonTool(s, number=k, diameter=0.5) for k in (1, 2)}
    p.active_tool = p.tools[2]
    return p


def twin(p):
    q = ExcellonParser(p._settings())
    q.state, q.drill_down, q.pos = p.state, p.drill_down, list(p.pos)
    q.tools = dict(p.tools)
    q.active_tool = p.active_tool
    return q


def reread(p, q):
    text = [st.to_excellon(p._settings()) for st in p.statements]
    q.parse_raw('\n'.join(text) + '\n')


def same_machine(S, p, q):
    for k in ('state', 'units', 'zeros', 'notation', 'format', 'drill_down', 'plated'):
        S.check('same ' + k, getattr(p, k) == getattr(q, k))
    S.check('same position', S.eq(p.pos, q.pos))
    S.check('same tool', p.active_tool.number == q.active_tool.number)
    S.check('same number of hits', len(p.hits) == len(q.hits))
    for a, b in zip(p.hits, q.hits):
        S.check('same kind of hit', type(a) is type(b) and a.tool.number == b.tool.number)
        S.check('same hit', S.eq(tuple(a.position), tuple(b.position)) if isinstance(a, DrillHit) else
                S.and_(S.eq(tuple(a.start), tuple(b.start)), S.eq(tuple(a.end), tuple(b.end)), a.slot_type == b.slot_type))
    S.check('same statements', [type(s) for s in p.statements] == [type(s) for s in q.statements])


@spec('C15', functions=[PX + '_parse_line', M + 'CoordinateStmt.to_excellon', M + 'RouteModeStmt.to_excellon', M + 'LinearModeStmt.to_excellon'],
      params=[(w, f) for w in ('', 'G00', 'G01', 'G00\n', 'G01\n') for f in ('XY', 'X', 'Y')], n=40)
def moves(S, wf):
    """Moves, holes and routed slots come back as they were when the statements read are written."""
    w, form = wf
    p = machine(S, fmt=S.choice('fmt', [(2, 4), (3, 3)]), units='metric')
    q = twin(p)
    t = ''
    for c in form:
        t = S.concat(t, c, S.choice('s', ['', '-']) if c == form[0] else '', S.digits(c, 2), '3' if len(form) > 1 else S.digits('more', 1))
    p.parse_raw(S.concat(w, t, '\n'))
    reread(p, q)
    same_machine(S, p, q)


@spec('C15', functions=[PX + '_parse_line', M + 'SlotStmt.to_excellon', M + 'RepeatHoleStmt.to_excellon', M + 'EndOfProgramStmt.to_excellon'], params=['slot', 'slot y', 'repeat', 'end'], n=40)
def lines(S, kind):
    """Slots, repeats and the end of the program come back as they were when the statements read are written."""
    p = machine(S, units='inch')
    q = twin(p)
    a, b, c = S.concat('0', S.digits('a', 3)), '0250', S.digits('c', 2)
    sa, sb = S.choice('sa', ['', '-']), S.choice('sb', ['', '-'])
    t = {'slot': S.concat('X', sa, a, 'Y', b, 'G85X', sb, c, 'Y', a), 'slot y': S.concat('X', sa, a, 'Y', b, 'G85Y', sb, c),
         'repeat': S.concat('R3X', sa, a, 'Y', sb, b), 'end': S.concat('M30X', sa, a, 'Y', sb, b)}[kind]
    if kind == 'repeat':
        S.assume(p.state != 'HEADER')
    p.parse_raw(t + '\n')
    reread(p, q)
    same_machine(S, p, q)
    if kind == 'end':
        S.check('position', S.and_(S.eq(p.statements[0].x, q.statements[0].x), S.eq(p.statements[0].y, q.statements[0].y)))


OTHERS = ['M48', '%', 'M95', 'M15', 'M16', 'M17', 'M30', 'G05', 'G40', 'G41', 'G42', 'G90', 'M71', 'M72', 'ICI', 'ICI,ON', 'ICI,OFF', 'VER,1', 'VER,2', 'FMAT,1', 'FMAT,2',
          'INCH', 'METRIC', 'INCH,LZ', 'INCH,TZ', 'METRIC,LZ', 'METRIC,TZ', 'METRIC,TZ,000.000', 'METRIC,LZ,0000.00', 'INCH,LZ,00.0000', 'T01', 'T0203', 'T00', 'F200', 'F5', 'M00',
          'G93X0Y0', 'DETECT,ON', 'M47,Message', ';FILE_FORMAT=3:5', ';TYPE=PLATED', ';TYPE=NON_PLATED', '; HEADER:', 'R2']


@spec('C15', functions=[PX + '_parse_line', M + 'UnitStmt.to_excellon', M + 'MeasuringModeStmt.to_excellon', M + 'IncrementalModeStmt.to_excellon', M + 'UnknownStmt.to_excellon', M + 'CommentStmt.to_excellon',
      M + 'FormatStmt.to_excellon', M + 'VersionStmt.to_excellon', M + 'ZAxisInfeedRateStmt.to_excellon'], params=OTHERS, n=20)
def commands(S, line):
    """Every other command has the same effect after being read and written."""
    p = machine(S)
    if line.startswith('T') or line in ('R2', 'M00'):
        S.assume(p.state != 'HEADER')
    if line == 'M00':
        p.active_tool = p.tools[1]
    q = twin(p)
    p.parse_raw(line + '\n')
    reread(p, q)
    same_machine(S, p, q)
    a, b = p.statements[0], q.statements[0]
    for k in vars(a):
        if k not in ('id', 'cur_tool', 'next_tool', 'units', 'xdelta', 'ydelta'):
            S.check('same ' + k, getattr(a, k) == getattr(b, k))


@spec('C15', functions=[PX + '_parse_line', M + 'CommentStmt.to_excellon', M + 'UnknownStmt.to_excellon'], params=['comment', 'unknown'], n=60)
def free_text(S, kind):
    """Comments and unknown commands keep their text."""
    p = machine(S)
    q = twin(p)
    t = S.text('t', 3, exclude=';')
    p.parse_raw(S.concat({'comment': ';', 'unknown': 'Q'}[kind], t, '-\n'))
    reread(p, q)
    same_machine(S, p, q)
    a, b = p.statements[0], q.statements[0]
    S.check('text', S.exact(a.comment, b.comment) if kind == 'comment' else S.exact(a.stmt, b.stmt))


@spec('C15', functions=[M + 'ExcellonTool.to_excellon', M + 'ExcellonTool.from_excellon', PX + '_parse_line'], params=['C', 'F', 'B', 'H', 'Z', 'S'], n=60)
def definitions(S, key):
    """A tool defined in the header comes back the same when the definition is written."""
    S.explicit_digits()
    p = machine(S, 'HEADER')
    q = twin(p)
    d = S.digits('d', 3)
    p.parse_raw(S.concat('T05', 'C0.', d, '\n') if key == 'C' else S.concat('T05', key, d, 'C0.125\n'))
    reread(p, q)
    a, b = p.tools[5], q.tools[5]
    for k in ('number', 'retract_rate', 'feed_rate', 'max_hit_count', 'rpm', 'diameter', 'depth_offset'):
        u, v = getattr(a, k), getattr(b, k)
        S.check('same ' + k, u is v if u is None or v is None else S.near(u, v, 1e-9))
