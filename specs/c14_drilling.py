"""C14: the state machine of the Excellon interpreter, line by line from an arbitrary state."""
from engine.reg import spec
import gerber.excellon as X
import gerber.excellon_statements as ES
from gerber.cam import FileSettings
from gerber.excellon import ExcellonParser, DrillHit, DrillSlot

P = 'gerber.excellon.ExcellonParser.'
BIG = 1000


def point(S, n):
    return [S.real(n + '.x', -BIG, BIG), S.real(n + '.y', -BIG, BIG)]


def machine(S, state=None, notation=None, down=None, active=True):
    """A parser in an arbitrary state, with two tools and a hit already made."""
    s = FileSettings(units=S.choice('units', ['inch', 'metric']), zeros=S.choice('zeros', ['leading', 'trailing']), format=(2, 4),
                     notation=notation or S.choice('notation', ['absolute', 'incremental']))
    p = ExcellonParser(s)
    p.state = state or S.choice('state', ['INIT', 'HEADER', 'DRILL', 'ROUT', 'LINEAR'])
    p.drill_down = S.flag('down') if down is None else down
    p.pos = point(S, 'at')
    p.tools = {k: ES.ExcellonTool(s, number=k, diameter=S.real('d%d' % k, 0, 1)) for k in (1, 2)}
    for k in p.tools:
        p.tools[k].hit_count = S.int('hits%d' % k, 0, 1000)
    p.active_tool = p.tools[2] if active else None
    p.hits = [DrillHit(p.tools[1], (1, 2))]
    p.statements = [ES.HeaderBeginStmt()]
    return p


def snapshot(p):
    return {'state': p.state, 'units': p.units, 'zeros': p.zeros, 'notation': p.notation, 'format': p.format, 'down': p.drill_down,
            'active': p.active_tool, 'x': p.pos[0], 'y': p.pos[1], 'plated': p.plated, 'hits': list(p.hits), 'statements': list(p.statements),
            'tools': dict(p.tools), 'counts': dict((k, p.tools[k].hit_count) for k in p.tools)}


def same(S, a, b):
    if isinstance(a, str) or a is None or isinstance(a, (tuple, list, dict, bool)) or hasattr(a, 'hit_count'):
        return a is b or (type(a) is type(b) and not hasattr(a, 'hit_count') and a == b)
    return S.eq(a, b)


SCALARS = ('state', 'units', 'zeros', 'notation', 'format', 'down', 'active', 'x', 'y', 'plated')


def kept(S, b, p, *but):
    """Everything but the named parts is as before; earlier hits and statements stay."""
    n = snapshot(p)
    for k in SCALARS:
        if k not in but:
            S.check('kept: ' + k, same(S, n[k], b[k]))
    S.check('earlier hits kept', len(n['hits']) >= len(b['hits']) and all(x is y for x, y in zip(n['hits'], b['hits'])))
    if 'statements' not in but:
        S.check('earlier statements kept', len(n['statements']) >= len(b['statements']) and all(x is y for x, y in zip(n['statements'], b['statements'])))
    S.check('tools kept', all(n['tools'].get(k) is b['tools'][k] for k in b['tools']))
    if 'hits' not in but:
        S.check('no hit', len(n['hits']) == len(b['hits']))
    # every hit counts once for its tool
    for k in n['tools']:
        made = len([h for h in n['hits'][len(b['hits']):] if h.tool is n['tools'][k]])
        S.check('hits counted', S.eq(n['tools'][k].hit_count, b['counts'].get(k, 0) + made))


def coordinates(S, form, n='c'):
    """The text of a coordinate and what it denotes."""
    t = ''
    if 'X' in form:
        t = S.concat('X', S.choice(n + '.sx', ['', '-']), S.digits(n + '.x', 3))
    if 'Y' in form:
        t = S.concat(t, 'Y', S.choice(n + '.sy', ['', '-']), S.digits(n + '.y', 3))
    return t


def feed(p, *lines):
    return p.parse_raw(''.join([l + '\n' for l in lines]))


def moved(S, b, st):
    """The position after a coordinate."""
    out = []
    for k, v in (('x', st[0]), ('y', st[1])):
        out.append(b[k] if v is None else v if b['notation'] == 'absolute' else b[k] + v)
    return out


def meant(p, text):
    c = ES.CoordinateStmt.from_excellon(text, FileSettings(units=p.units, zeros=p.zeros, format=p.format, notation=p.notation))
    return c.x, c.y


def last_statement(S, p, b, kind, n=1):
    S.check('statements recorded', len(p.statements) == len(b['statements']) + n and type(p.statements[-1]) is kind)
    return p.statements[-1]


LINE = [P + 'parse_raw', P + '_parse_line']


@spec('C14', functions=LINE + [P + '_settings'], params=[(s, f) for s in ('DRILL', 'HEADER') for f in ('XY', 'X', 'Y')], n=60)
def drill(S, sf):
    """A coordinate drills one hole with the tool in use, at the new position, whether coordinates are absolute or incremental."""
    state, form = sf
    p = machine(S, state)
    b = snapshot(p)
    t = coordinates(S, form)
    want = meant(p, t)
    feed(p, t)
    st = last_statement(S, p, b, ES.CoordinateStmt)
    S.check('coordinate recorded', (st.x is None) == (want[0] is None) and (st.y is None) == (want[1] is None))
    at = moved(S, b, want)
    S.check('moved', S.eq(p.pos, at))
    S.check('one hole', len(p.hits) == len(b['hits']) + 1 and type(p.hits[-1]) is DrillHit)
    S.check('where', S.eq(tuple(p.hits[-1].position), tuple(at)))
    S.check('which tool', p.hits[-1].tool is b['active'])
    kept(S, b, p, 'x', 'y', 'hits')


@spec('C14', functions=LINE, params=['XY', 'X', 'Y'], n=60)
def drill_with_first_tool(S, form):
    """If no tool was selected, coordinates drill with tool 1."""
    p = machine(S, active=False)
    what = S.choice('what', ['', 'G85', 'G01'])
    S.assume(p.state in ('DRILL', 'HEADER') and what != 'G01' or p.drill_down and (what == 'G01' or p.state == 'LINEAR' and not what))
    if what:
        b = snapshot(p)
        t = coordinates(S, form)
        feed(p, 'X01Y01G85' + t if what == 'G85' else what + t)
        S.check('one slot', len(p.hits) == len(b['hits']) + 1 and type(p.hits[-1]) is DrillSlot and p.hits[-1].tool is p.tools[1])
        kept(S, b, p, 'x', 'y', 'hits', 'active', *(['state'] if what == 'G01' else []))
        return
    b = snapshot(p)
    feed(p, coordinates(S, form))
    S.check('one hit', len(p.hits) == len(b['hits']) + 1 and p.hits[-1].tool is p.tools[1])
    kept(S, b, p, 'x', 'y', 'hits', 'active')


@spec('C14', functions=LINE, params=[(s, f) for s in ('INIT', 'ROUT', 'LINEAR') for f in ('XY', 'X', 'Y')], n=60)
def move(S, sf):
    """Before the program, while positioning or with the tool up, a coordinate moves and cuts nothing."""
    state, form = sf
    p = machine(S, state, down=False if state == 'LINEAR' else None)
    b = snapshot(p)
    t = coordinates(S, form)
    want = meant(p, t)
    feed(p, t)
    last_statement(S, p, b, ES.CoordinateStmt)
    S.check('moved', S.eq(p.pos, moved(S, b, want)))
    kept(S, b, p, 'x', 'y')


@spec('C14', functions=LINE, params=[(w, f, n) for w in ('modal', 'G01', 'G00') for f in ('XY', 'X', 'Y') for n in (False, True) if w != 'modal' or not n], n=40)
def rout(S, wfn):
    """With the tool down, linear routing cuts a slot from the old to the new position and counts it; G00 only moves. The coordinates may be on the next line."""
    what, form, split = wfn
    p = machine(S, 'LINEAR' if what == 'modal' else None, down=True if what == 'modal' else None)
    b = snapshot(p)
    t = coordinates(S, form)
    want = meant(p, t)
    if what == 'modal':
        feed(p, t)
    elif split:
        feed(p, what, t)
    else:
        feed(p, what + t)
    at = moved(S, b, want)
    S.check('moved', S.eq(p.pos, at))
    S.check('state', p.state == {'modal': 'LINEAR', 'G01': 'LINEAR', 'G00': 'ROUT'}[what])
    if what == 'G00' or not b['down']:
        kept(S, b, p, 'x', 'y', 'state')
        return
    S.check('one slot', len(p.hits) == len(b['hits']) + 1 and type(p.hits[-1]) is DrillSlot)
    h = p.hits[-1]
    S.check('from', S.eq(tuple(h.start), (b['x'], b['y'])))
    S.check('to', S.eq(tuple(h.end), tuple(at)))
    S.check('which tool', h.tool is b['active'])
    S.check('routed', h.slot_type == DrillSlot.TYPE_ROUT)
    kept(S, b, p, 'x', 'y', 'hits', 'state')


@spec('C14', functions=LINE + ['gerber.excellon_statements.SlotStmt.from_excellon'], params=[(s, f, g) for s in ('DRILL', 'HEADER', 'other') for f in ('XY', 'X', 'Y') for g in ('XY', 'X', 'Y')], n=30)
def slot(S, sfg):
    """G85 cuts a slot between its two points; coordinates left out are those of the point before."""
    state, form, form2 = sfg
    p = machine(S, S.choice('state', ['INIT', 'ROUT', 'LINEAR']) if state == 'other' else state)
    b = snapshot(p)
    t, u = coordinates(S, form, 'from'), coordinates(S, form2, 'to')
    a, e = meant(p, t), meant(p, u)
    feed(p, t + 'G85' + u)
    start = moved(S, b, a)
    if b['notation'] == 'absolute':
        end = [start[k] if e[k] is None else e[k] for k in (0, 1)]
    else:
        end = [start[k] + (0 if e[k] is None else e[k]) for k in (0, 1)]
    last_statement(S, p, b, ES.SlotStmt)
    S.check('moved', S.eq(p.pos, end))
    if state == 'other':
        kept(S, b, p, 'x', 'y')
        return
    S.check('one slot', len(p.hits) == len(b['hits']) + 1 and type(p.hits[-1]) is DrillSlot)
    h = p.hits[-1]
    S.check('from', S.eq(tuple(h.start), tuple(start)))
    S.check('to', S.eq(tuple(h.end), tuple(end)))
    S.check('which tool', h.tool is b['active'])
    S.check('drilled', h.slot_type == DrillSlot.TYPE_G85)
    kept(S, b, p, 'x', 'y', 'hits')


@spec('C14', functions=LINE + ['gerber.excellon_statements.RepeatHoleStmt.from_excellon'], params=[(n, f) for n in (0, 1, 2, 5) for f in ('XY', 'X', 'Y', '')], n=30)
def repeat(S, nf):
    """Rn drills n further holes with the tool in use, each one step from the one before, however coordinates are given."""
    n, form = nf
    p = machine(S, S.choice('state', ['INIT', 'DRILL', 'ROUT']))
    b = snapshot(p)
    t = coordinates(S, form, 'step')
    d = meant(p, t) if form else (None, None)
    dx, dy = 0 if d[0] is None else d[0], 0 if d[1] is None else d[1]
    feed(p, 'R%d' % n + t)
    st = last_statement(S, p, b, ES.RepeatHoleStmt)
    S.check('count', st.count == n)
    new = p.hits[len(b['hits']):]
    S.check('n holes', len(new) == n)
    x, y = b['x'], b['y']
    for h in new:
        x, y = x + dx, y + dy
        S.check('hole', S.and_(S.eq(tuple(h.position), (x, y)), h.tool is b['active'] and type(h) is DrillHit))
    S.check('moved', S.eq(p.pos, [x, y]))
    kept(S, b, p, 'x', 'y', 'hits')


MODES = {
    'M15': (ES.ZAxisRoutPositionStmt, {'down': True}), 'M16': (ES.RetractWithClampingStmt, {'down': False}), 'M17': (ES.RetractWithoutClampingStmt, {'down': False}),
    'G05': (ES.DrillModeStmt, {'down': False, 'state': 'DRILL'}), 'G90': (ES.AbsoluteModeStmt, {'notation': 'absolute'}), 'M48': (ES.HeaderBeginStmt, {'state': 'HEADER'}),
    'G40': (ES.CutterCompensationOffStmt, {}), 'G41': (ES.CutterCompensationLeftStmt, {}), 'G42': (ES.CutterCompensationRightStmt, {}), 'M30': (ES.EndOfProgramStmt, {}),
    'ICI,ON': (ES.IncrementalModeStmt, {'notation': 'incremental'}), 'ICI,OFF': (ES.IncrementalModeStmt, {'notation': 'absolute'}), 'ICI': (ES.IncrementalModeStmt, {'notation': 'incremental'}),
    'M71': (ES.MeasuringModeStmt, {'units': 'metric'}), 'M72': (ES.MeasuringModeStmt, {'units': 'inch'}), 'VER,1': (ES.VersionStmt, {}), 'F200': (ES.ZAxisInfeedRateStmt, {}),
    'INCH': (ES.UnitStmt, {'units': 'inch', 'zeros': 'trailing'}), 'INCH,LZ': (ES.UnitStmt, {'units': 'inch', 'zeros': 'leading'}), 'INCH,TZ': (ES.UnitStmt, {'units': 'inch', 'zeros': 'trailing'}),
    'METRIC,LZ': (ES.UnitStmt, {'units': 'metric', 'zeros': 'leading'}), 'METRIC,TZ,000.000': (ES.UnitStmt, {'units': 'metric', 'zeros': 'trailing', 'format': (3, 3)}),
    'METRIC,TZ,0000.00': (ES.UnitStmt, {'units': 'metric', 'zeros': 'trailing', 'format': (4, 2)}), 'INCH,LZ,00.0000': (ES.UnitStmt, {'units': 'inch', 'zeros': 'leading', 'format': (2, 4)}),
    'FMAT,2': (ES.FormatStmt, {'format': (2, 4)}), 'FMAT,1': (ES.FormatStmt, {'format': (1, 5)}), 'G93X0Y0': (ES.UnknownStmt, {}), 'DETECT,ON': (ES.UnknownStmt, {}),
    ';FILE_FORMAT=3:5': (ES.CommentStmt, {'format': (3, 5)}), ';TYPE=PLATED': (ES.CommentStmt, {'plated': 'plated'}), ';TYPE=NON_PLATED': (ES.CommentStmt, {'plated': 'nonplated'}),
    '; HEADER:': (ES.CommentStmt, {'state': 'HEADER'}), ';X1Y1': (ES.CommentStmt, {}), ';M30': (ES.CommentStmt, {}),
}


@spec('C14', functions=LINE, params=sorted(MODES), n=40)
def modes(S, line):
    """Each command sets its own part of the state and nothing else; unknown ones and comments set nothing."""
    p = machine(S)
    p.format = (2, 4)
    b = snapshot(p)
    kind, changes = MODES[line]
    feed(p, line)
    last_statement(S, p, b, kind)
    for k, v in changes.items():
        S.check('sets ' + k, snapshot(p)[k] == v)
    kept(S, b, p, *changes)


@spec('C14', functions=LINE, params=['%', 'M95'], n=40)
def header_end(S, line):
    """% and M95 end the header; % before anything else begins it; neither touches a running program."""
    p = machine(S)
    b = snapshot(p)
    feed(p, line)
    last_statement(S, p, b, ES.RewindStopStmt if line == '%' else ES.HeaderEndStmt)
    S.check('state', p.state == ('DRILL' if b['state'] == 'HEADER' else 'HEADER' if line == '%' and b['state'] == 'INIT' else b['state']))
    kept(S, b, p, 'state')


@spec('C14', functions=LINE, params=['', '   ', '\t'], n=10)
def blank(S, line):
    """Blank lines do nothing."""
    p = machine(S)
    b = snapshot(p)
    feed(p, line)
    S.check('no statement', len(p.statements) == len(b['statements']))
    kept(S, b, p)


@spec('C14', functions=LINE + [P + '_get_tool', 'gerber.excellon_statements.ToolSelectionStmt.from_excellon'], params=['1', '01', '2', '0', '00', '0203', '102'], n=40)
def select(S, number):
    """A tool number selects that tool; 0 leaves the tool in use."""
    p = machine(S, S.choice('state', ['INIT', 'DRILL', 'ROUT', 'LINEAR']))
    p.tools[102] = ES.ExcellonTool(p._settings(), number=102, diameter=0.5)
    b = snapshot(p)
    feed(p, 'T' + number)
    st = last_statement(S, p, b, ES.ToolSelectionStmt)
    n, comp = (2, 3) if number == '0203' else (int(number), None)
    S.check('number', (st.tool, st.compensation_index) == (n, comp))
    S.check('selected', p.active_tool is (p.tools[n] if n else b['active']))
    kept(S, b, p, 'active')


@spec('C14', functions=LINE + [P + '_get_tool', P + '_add_comment_tool', P + '_merge_properties'], params=['external', 'comment', 'none'], n=60)
def select_undefined(S, where):
    """A tool not defined in the header is taken from the tool table of the comments or of the caller, else gets the standard size of its number."""
    p = machine(S, S.choice('state', ['DRILL', 'ROUT', 'LINEAR']))
    n = S.choice('n', [3, 15])
    t = ES.ExcellonTool(None, number=n, diameter=S.real('size', 0, 1), plated='plated')
    if where == 'external':
        p.ext_tools = {n: t}
    elif where == 'comment':
        p.comment_tools = {n: t}
    b = snapshot(p)
    feed(p, 'T%02d' % n)
    got = p.active_tool
    S.check('in the table', p.tools[n] is got and sorted(p.tools) == sorted(list(b['tools']) + [n]))
    S.check('numbered', got.number == n)
    S.check('units', got.settings.units == p.units)
    if where == 'none':
        inches = (16 + 8 * n) / 1000.0
        S.check('standard size', S.near(got.diameter, inches if p.units == 'inch' else inches * 25.4, 1e-9))
        S.check('definition recorded before its use', [s for s in p.statements if s is got or isinstance(s, ES.ToolSelectionStmt)][0] is got)
        S.check('statements kept', [s for s in p.statements if s is not got][:-1] == b['statements'])
    else:
        S.check('that tool', got is t if where == 'comment' else got is not t)
        S.check('size', S.eq(got.diameter, t.diameter) and got.plated == t.plated == 'plated')
    kept(S, b, p, 'active', 'statements')


@spec('C14', functions=LINE + [P + '_merge_properties'], n=100)
def define(S, p):
    """A tool definition in the header makes the tool with its size; it is plated as the file or the caller's table say."""
    p = machine(S, 'HEADER')
    p.plated = S.choice('plated', [None, 'plated', 'nonplated'])
    ext = S.choice('external', [None, 'plated', 'nonplated', 'optional'])
    if ext:
        p.ext_tools = {7: ES.ExcellonTool(None, number=7, diameter=1, plated=ext)}
    b = snapshot(p)
    line = S.concat('T07C0.', S.digits('c', 3))
    feed(p, line)
    t = last_statement(S, p, b, ES.ExcellonTool)
    S.check('in the table', p.tools[7] is t and t.number == 7 and sorted(p.tools) == [1, 2, 7])
    S.check('size', S.eq(t.diameter, S.float_of(line[4:])))
    S.check('plated', t.plated == (b['plated'] or ext))
    S.check('unused', t.hit_count == 0)
    S.check('units', t.settings.units == p.units)
    kept(S, b, p)


HOLESIZE = ['T3 Holesize 3. = %s Tolerance = +0.100000/-0.100000 PLATED MM Quantity = 4', ' Holesize 3. = %s Tolerance = +0.100000/-0.100000 NON_PLATED MM Quantity = 4',
            'T3 Holesize 3. = %s Tolerance = +0.100000/-0.100000 OPTIONAL MILS Quantity = 4']


@spec('C14', functions=LINE + [P + '_add_comment_tool', P + '_get_tool', 'gerber.excellon_tool.ExcellonToolDefinitionParser._parse'], params=[0, 1, 2], n=60)
def comment_tools(S, k):
    """Tool tables in comments define the tools that the program then selects."""
    p = machine(S, 'DRILL')
    b = snapshot(p)
    size = S.concat(S.digits('s', 2), '.', S.digits('f', 2))
    line = HOLESIZE[k]
    feed(p, S.concat(';', line.split('%s')[0], size, line.split('%s')[1]))
    S.check('header', p.state == 'HEADER')
    kept(S, b, p, 'state')
    p.state = 'DRILL'
    feed(p, 'T03')
    t = p.active_tool
    v = S.float_of(size)
    mm = v if k < 2 else S.div(v, S.num(39.3700787402))
    S.check('size', S.near(t.diameter, S.div(mm, S.num(25.4)) if p.units == 'inch' else mm, 1e-9))
    S.check('plated', t.plated == ['plated', 'nonplated', 'optional'][k])


@spec('C14', functions=LINE + [P + '_get_tool'], n=40)
def next_tool(S, p):
    """M00 in the program goes on to the next tool."""
    p = machine(S, 'DRILL')
    p.active_tool = p.tools[1]
    b = snapshot(p)
    feed(p, 'M00')
    last_statement(S, p, b, ES.NextToolSelectionStmt)
    S.check('next', p.active_tool is p.tools[2])
    kept(S, b, p, 'active')


@spec('C14', functions=[P + 'parse_raw', 'gerber.excellon.loads'], n=60)
def result(S, q):
    """The file made of a program has its statements, tools, hits and settings, all in the units of the program."""
    p = machine(S)
    b = snapshot(p)
    f = p.parse_raw(';a comment\n', 'drill.drl')
    S.check('statements', f.statements is p.statements or f.statements == p.statements)
    S.check('tools and hits', f.tools == p.tools and f.hits == p.hits)
    S.check('settings', (f.settings.units, f.settings.zeros, f.settings.format, f.settings.notation) == (b['units'], b['zeros'], b['format'], b['notation']))
    S.check('units', f.units == b['units'] and all(st.units == b['units'] for st in f.statements))
    S.check('name', f.filename == 'drill.drl')


@spec('C14', functions=[P + '__init__'], params=[None, 'given'], n=40)
def start(S, given):
    """A program starts at the origin with no tool, the tool up and nothing drilled, whatever other programs left behind; units and format are those given."""
    s = given and FileSettings(units=S.choice('units', ['inch', 'metric']), zeros=S.choice('zeros', ['leading', 'trailing']), format=(3, S.choice('d', [2, 3])), notation=S.choice('notation', ['absolute', 'incremental']))
    other = ExcellonParser(s)
    other.tools[1] = ES.ExcellonTool(other._settings(), number=1, diameter=0.5)
    other.active_tool = other.tools[1]
    feed(other, S.choice('other', ['X01Y01', ';T2 Holesize 1. = 10 Tolerance = +3/-3 PLATED MILS Quantity = 1', 'M15', 'G00X01Y01']))
    p = ExcellonParser(s)
    b = snapshot(p)
    S.check('state', b['state'] == 'INIT' and b['down'] is False and b['active'] is None and b['plated'] is None)
    S.check('at the origin', S.and_(S.eq(b['x'], 0), S.eq(b['y'], 0)))
    S.check('empty', b['hits'] == [] and b['statements'] == [] and b['tools'] == {} and p.comment_tools == {})
    if given:
        S.check('settings', (b['units'], b['zeros'], b['format'], b['notation']) == (s.units, s.zeros, s.format, s.notation))
    feed(p, S.choice('move', ['G00X01Y01', 'X01Y01']), 'G01X02Y02')
    S.check('tool up', p.hits == [])


@spec('C14', functions=LINE + [P + '_add_comment_tool', P + '_get_tool'], params=[0, 1, 2], n=40)
def comment_plating(S, k):
    """A tool table in comments says whether a tool already defined is plated, unless that is known, and does not change its size."""
    p = machine(S)
    p.tools[2].plated = S.choice('plated', [None, 'plated', 'nonplated'])
    known, size = p.tools[2].plated, p.tools[2].diameter
    b = snapshot(p)
    feed(p, ';' + (HOLESIZE[k] % '0.5').replace('T3', 'T2').replace('Holesize 3', 'Holesize 2'))
    S.check('plating', p.tools[2].plated == (known or ['plated', 'nonplated', 'optional'][k]))
    S.check('size kept', S.eq(p.tools[2].diameter, size))
    S.check('the defined tool wins', p._get_tool(2) is p.tools[2])
    kept(S, b, p, 'state')


@spec('C14', functions=LINE + [P + '_add_comment_tool', P + '_get_tool'], params=['M71', 'M72', 'INCH,TZ', 'METRIC'], n=40)
def comment_table_before_units(S, line):
    """The sizes of a tool table in comments are lengths, whatever units the program states after it."""
    p = machine(S, 'DRILL')
    feed(p, ';' + HOLESIZE[0] % '0.5', line)
    p.state = 'DRILL'
    feed(p, 'T03')
    t = p.active_tool
    S.check('size', S.near(t.diameter, S.div(S.num(0.5), S.num(25.4)) if p.units == 'inch' else 0.5, 1e-9))
    S.check('units', t.settings.units == p.units)
