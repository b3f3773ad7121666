"""C24: settings objects, and the settings and tools that companion files give."""
from engine.reg import spec
from gerber.cam import CamFile, FileSettings
from gerber.excellon import ExcellonFile
from gerber.rs274x import GerberFile
import gerber.excellon as E
import gerber.excellon_tool as T
import gerber.excellon_settings as Set

C = 'gerber.cam.FileSettings.'
D = 'gerber.excellon_tool.ExcellonToolDefinitionParser.'
R = 'gerber.excellon_tool.ExcellonReportParser.'
A = 'gerber.excellon_settings.'
OTHER = {'leading': 'trailing', 'trailing': 'leading'}


def refused(f):
    try:
        f()
    except (ValueError, KeyError):
        return True
    return False


@spec('C24', functions=[C + '__init__', C + 'zeros', C + 'zero_suppression', C + '__setitem__', C + '__getitem__', C + '__eq__'], n=60)
def zeros(S, p):
    """The zeros kept and the zeros suppressed are always opposite ends, whichever of them is stated, as argument, attribute or item, in any order."""
    first = S.choice('first', [None, 'leading', 'trailing'])
    second = S.choice('second', [None, 'leading', 'trailing'])
    fs = FileSettings(zero_suppression=first) if S.flag('suppressed') else FileSettings(zeros=second, zero_suppression=OTHER[second] if second and S.flag('both') else None)
    S.check('opposite', fs.zeros == OTHER[fs.zero_suppression])
    for k in range(2):
        v = S.choice('value%d' % k, ['leading', 'trailing'])
        how = S.choice('how%d' % k, ['zeros', 'zero_suppression', 'items zeros', 'items zero_suppression'])
        key = how.split()[-1]
        if how[:5] == 'items':
            fs[key] = v
        else:
            setattr(fs, key, v)
        S.check('taken', getattr(fs, key) == v == fs[key])
        S.check('opposite', fs.zeros == OTHER[fs.zero_suppression] == fs['zeros'])


@spec('C24', functions=[C + '__init__', C + '__setitem__', C + '__getitem__', C + '__eq__'], n=60)
def settings(S, p):
    """A settings object says what it was given, item by item, and differs from one that says something else."""
    f = (S.int('i', 0, 7), S.int('d', 0, 7))
    args = {'notation': S.choice('notation', ['absolute', 'incremental']), 'units': S.choice('units', ['inch', 'metric']),
            'zero_suppression': S.choice('zs', ['leading', 'trailing']), 'format': f, 'angle_units': S.choice('angles', ['degrees', 'radians'])}
    fs = FileSettings(**args)
    other = FileSettings()
    for k in args:
        S.check(k, fs[k] == args[k] == getattr(fs, k))
        other[k] = args[k]
    S.check('equal', fs == other)
    k = S.choice('changed', sorted(args))
    v = (f[0], f[1] + 1) if k == 'format' else {'absolute': 'incremental', 'incremental': 'absolute', 'inch': 'metric', 'metric': 'inch', 'leading': 'trailing',
                                               'trailing': 'leading', 'degrees': 'radians', 'radians': 'degrees'}[args[k]]
    other[k] = v
    S.check('taken', other[k] == v)
    S.check('rest kept', all(other[j] == args[j] for j in args if j != k))
    S.check('different', not fs == other)
    S.check('unaffected', all(fs[j] == args[j] for j in args))


@spec('C24', functions=['gerber.cam.CamFile.__init__', 'gerber.cam.CamFile.settings', C + '__init__'], n=40)
def of_a_file(S, p):
    """A file has the settings it was made with, whatever becomes of the object that gave them; without any its settings agree with each other."""
    kind = S.choice('kind', [CamFile, GerberFile, ExcellonFile])
    plain = CamFile()
    S.check('defaults', plain.zeros == OTHER[plain.zero_suppression] == plain.settings.zeros and plain.settings == FileSettings(plain.notation, plain.units, plain.zero_suppression, plain.format))
    args = {'notation': S.choice('notation', ['absolute', 'incremental']), 'units': S.choice('units', ['inch', 'metric']),
            'zero_suppression': S.choice('zs', ['leading', 'trailing']), 'format': (S.int('i', 0, 7), S.int('d', 0, 7))}
    fs = FileSettings(**args)
    f = {CamFile: lambda: CamFile([], fs, [], 'a'), GerberFile: lambda: GerberFile([], fs, [], {}, 'a'), ExcellonFile: lambda: ExcellonFile([], {}, [], fs, 'a')}[kind]()
    S.check('file name', f.filename == 'a')
    fs.zeros = args['zero_suppression']
    for k in args:
        S.check(k, getattr(f, k) == args[k] == f.settings[k])
    S.check('zeros', f.zeros == OTHER[args['zero_suppression']] == f.settings.zeros)


@spec('C24', functions=[C + '__init__', C + '__setitem__'], params=['notation', 'units', 'zero_suppression', 'zeros', 'format', 'angle_units'], n=30)
def nonsense(S, k):
    """Settings that mean nothing are refused, and leave the settings as they were."""
    bad = (2, 4, 1) if k == 'format' else S.choice('bad', ['', 'mm', 'relative', 'none', 'Inch'])
    fs = FileSettings()
    was = [fs[j] for j in ('notation', 'units', 'zero_suppression', 'zeros', 'format', 'angle_units')]
    S.check('refused', refused(lambda: fs.__setitem__(k, bad)))
    S.check('unknown refused', refused(lambda: fs.__setitem__('x' + k, 'inch')) and refused(lambda: fs['x' + k]))
    if k != 'zero_suppression':
        S.check('refused at once', refused(lambda: FileSettings(**{k: bad})))
    S.check('kept', was == [fs[j] for j in ('notation', 'units', 'zero_suppression', 'zeros', 'format', 'angle_units')])
    z = S.choice('z', ['leading', 'trailing'])
    S.check('contradiction refused', refused(lambda: FileSettings(zeros=z, zero_suppression=z)))


@spec('C24', functions=[A + 'loads', A + 'ExcellonSettingsParser.parse_raw', A + 'ExcellonSettingsParser._parse', A + 'map_coordinates', A + 'map_units'], params=[0, 1, 2, 3], n=60)
def parameters(S, turn):
    """A parameter file gives the format, notation and units it states, whatever the order of its lines and whatever else it says."""
    i, d = S.digits('i', 1), S.digits('d', 1)
    n = S.choice('n', ['ABSOLUTE', 'INCREMENTAL'])
    u = S.choice('u', ['ENGLISH', 'METRIC'])
    space = S.choice('space', [' ', '   ', '\t'])
    lines = [S.concat('INTEGER-PLACES', space, i), S.concat('DECIMAL-PLACES', space, d), S.concat('COORDINATES', space, n), S.concat('OUTPUT-UNITS', space, u)]
    lines = lines[turn:] + lines[:turn]
    noise = S.choice('noise', ['', 'HEADER   none', 'FEEDRATE 1', 'INTEGER-PLACES', 'COORDINATES ABSOLUTE INCREMENTAL', '# OUTPUT-UNITS METRIC', 'X-OUTPUT-UNITS METRIC'])
    lines.insert(S.choice('where', [0, 2, 4]), noise)
    fs = Set.loads(S.concat(*[x for l in lines for x in (l, '\n')]))
    S.check('format', S.and_(S.eq(fs.format[0], S.int_of(i)), S.eq(fs.format[1], S.int_of(d))))
    S.check('notation', fs.notation == n.lower())
    S.check('units', fs.units == ('inch' if u == 'ENGLISH' else 'metric'))


PLATED = {'PLATED': 'plated', 'NON_PLATED': 'nonplated', 'OPTIONAL': 'optional', 'P': 'plated', 'N': 'nonplated'}


def row(S, kind, tool, size, plated):
    tol = S.choice('tolerance', ['0.100000', '3'])
    if kind == 'table':
        return S.concat(size, '   ', plated, '   T', tool, '   ', tol, '   ', tol)
    return S.concat('T' + tool + ' ' if kind[0] == 'T' else '', 'Holesize ', tool, '. = ', size, ' Tolerance = +', tol, '/-', tol, ' ', plated, ' ', kind[1:], ' Quantity = 12')


def length(S, mm, units):
    return S.div(mm, S.num(25.4)) if units == 'inch' else mm


@spec('C24', functions=[D + 'parse_raw', D + '_parse', D + '_convert_length', 'gerber.excellon_tool.loads'], params=['table', 'TMILS', 'TMM', 'HMILS', 'HMM'], n=60)
def tool_table(S, kind):
    """Each row of a tool table is the tool of its number, with the length of its size in the units asked for and its plating; other lines are none."""
    units = S.choice('units', ['inch', 'metric', None])
    sizes = [S.concat(S.digits('a', 2), '.', S.digits('b', 2)), S.concat(S.digits('c', 3))]
    plated = [S.choice('plated%d' % k, ['P', 'N'] if kind == 'table' else ['PLATED', 'NON_PLATED', 'OPTIONAL']) for k in range(2)]
    rows = [row(S, kind, '01', sizes[0], plated[0]), row(S, kind, '12', sizes[1], plated[1])]
    noise = S.choice('noise', ['', ';Holesize', 'Size  Plated  Tool', '1.000  X  T03  0  0', '-----', 'Holesize 1. = x'])
    rows.insert(S.choice('where', [0, 1, 2]), noise)
    fs = FileSettings(units=units) if units else None
    tools = T.loads(S.concat(*[x for r in rows for x in (r, '\n')]), fs)
    S.check('tools', sorted(tools) == [1, 12] and [tools[n].number for n in (1, 12)] == [1, 12])
    for n, size, pl in zip((1, 12), sizes, plated):
        v = S.float_of(size)
        mm = v if kind[1:] == 'MM' else S.div(v, S.num(39.3700787402))
        S.check('size', S.near(tools[n].diameter, length(S, mm, units or 'inch'), 1e-9))
        S.check('plated', tools[n].plated == PLATED[pl])
    if fs:
        S.check('settings kept', fs == FileSettings(units=units))


@spec('C24', functions=[R + 'parse_raw', R + '_parse', 'gerber.excellon_tool.loads_rep'], n=60)
def report(S, p):
    """Each row under the heading of a drill report is the tool of its number, with its size, plating, feed and speed; what stands above the heading is none."""
    size = S.concat(S.digits('a', 1), '.', S.digits('b', 3))
    tool, feed, speed = S.digits('t', 2), S.digits('f', 3), S.digits('s', 3)
    pl = S.choice('plated', ['x', '-', '?'])
    above = S.choice('above', ['', 'DRILL REPORT\n', '5 0.3 x 1 2 3\n', '====\n'])
    text = S.concat(above, 'Tool Size Pltd Feed Speed Qty\n==== ==== ==== ==== ===== ===\n', S.choice('gap', ['', '\n', '=====\n']),
                    tool, ' ', size, '  ', pl, ' ', feed, ' ', speed, ' 7\n', S.choice('end', ['', '\n', '==== end\n', 'Total 7\n', '100 0.5 x 11 22 33\n']))
    tools = T.loads_rep(text, S.choice('settings', [None, FileSettings()]))
    n = S.int_of(tool)
    found = [t for t in tools.values() if S.decide(S.not_(S.eq(t.number, 100)))]
    S.check('one', len(found) == 1)
    t = found[0]
    S.check('number', S.eq(t.number, n))
    S.check('under its number', all(S.decide(S.eq(k, v.number)) for k, v in tools.items()))
    S.check('size', S.eq(t.diameter, S.float_of(size)))
    S.check('rates', S.and_(S.eq(t.feed_rate, S.int_of(feed)), S.eq(t.rpm, S.int_of(speed))))
    S.check('plated', t.plated == {'x': 'plated', '-': 'nonplated', '?': None}[pl])


@spec('C24', functions=['gerber.excellon.loads', 'gerber.excellon.ExcellonParser._get_tool', 'gerber.excellon.ExcellonParser._merge_properties', D + '_parse', A + 'loads'], params=['inch', 'metric', 'report'], n=60)
def drilling(S, table):
    """Holes drilled with tools of the caller's table have the sizes of that table, in the units of the program, and the table is left as it was for the next file."""
    size = S.concat(S.digits('a', 1), '.', S.digits('b', 3))
    plated = S.choice('plated', ['PLATED', 'NON_PLATED'])
    if table == 'report':
        tools = T.loads_rep(S.concat('==== ==== ==== ==== ===== ===\n1 ', size, ' ', 'x' if plated == 'PLATED' else '-', ' 2 3 4\n'))
    else:
        tools = T.loads(S.concat('T1 ', 'Holesize 1. = ', size, ' Tolerance = +0/-0 ', plated, ' MM Quantity = 3\n'), FileSettings(units=table))
    given = (tools[1].diameter, tools[1].hit_count)
    fs = Set.loads('INTEGER-PLACES 3\nDECIMAL-PLACES 3\nCOORDINATES ABSOLUTE\nOUTPUT-UNITS METRIC\n')
    first = S.choice('first', ['M72\n', 'M71\n', ''])
    x = S.digits('x', 6)
    files = [E.loads(S.concat('M48\n', unit, '%\nT1\nX', x, 'Y0\nX1Y1\nM30\n'), settings=fs, tools=tools) for unit in (first, 'M71\n')]
    if S.flag('converted'):
        files[0].to_inch()
    for f, unit in zip(files, (files[0].units, 'metric')):
        S.check('units', f.units == unit)
        h = f.hits[0]
        S.check('one tool', h.tool is f.hits[1].tool is f.tools[1] and h.tool.number == 1)
        if table != 'report':
            S.check('size', S.near(h.tool.diameter, length(S, S.float_of(size), unit), 1e-9))
        elif unit == 'metric':
            S.check('size', S.eq(h.tool.diameter, S.float_of(size)))
        S.check('plated', h.tool.plated == PLATED[plated])
        S.check('hits', h.tool.hit_count == 2)
    S.check('position', S.near(files[1].hits[0].position[0], S.div(S.int_of(x), 1000), 1e-9))
    S.check('format', files[1].format == (3, 3))
    S.check('table kept', S.eq(tools[1].diameter, given[0]) and tools[1].hit_count == given[1] and files[0].tools[1] is not files[1].tools[1])
    S.check('settings kept', fs == FileSettings(units='metric', format=(3, 3)))
