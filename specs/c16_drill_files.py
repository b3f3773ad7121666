"""C16: drill files written, reported on and edited."""
from engine.reg import spec
import gerber.excellon as X
import gerber.excellon_statements as ES
from gerber.cam import FileSettings
from gerber.excellon import ExcellonParser, ExcellonFile, DrillHit, DrillSlot

F = 'gerber.excellon.ExcellonFile.'
FMT = (2, 4)


def exactly(S, n, k=2):
    """A coordinate that the format holds exactly."""
    return S.div(S.int_of(S.digits(n, k)), S.num(100))


def read(text, s, tools=None):
    return ExcellonParser(s, tools).parse_raw(text)


def geometry(h):
    return (h.position,) if isinstance(h, DrillHit) else (h.start, h.end)


def same_holes(S, f, g):
    """Tool by tool the same holes and slots in the same order."""
    S.check('no tool invented', set(g.tools) == set(f.tools))
    S.check('number of hits', len(f.hits) == len(g.hits))
    for n in f.tools:
        S.check('size', S.near(f.tools[n].diameter, g.tools[n].diameter, 1.1e-4))
        a, b = [h for h in f.hits if h.tool.number == n], [h for h in g.hits if h.tool.number == n]
        S.check('hits of the tool', len(a) == len(b))
        for h, k in zip(a, b):
            S.check('kind', type(h) is type(k) and getattr(h, 'slot_type', 0) == getattr(k, 'slot_type', 0))
            for u, v in zip(geometry(h), geometry(k)):
                S.check('place', S.and_(S.near(u[0], v[0], 0.51e-4), S.near(u[1], v[1], 0.51e-4)))
    S.check('counted', all(g.tools[n].hit_count == len([h for h in g.hits if h.tool.number == n]) for n in g.tools))
    S.check('units', g.units == f.units)


HEADERS = {
    'plain': 'M48\nINCH,TZ\n{T1}\n{T2}\n%\n', 'M95': 'M48\nMETRIC,LZ\n;FILE_FORMAT=2:4\n{T1}\n{T2}\nM95\n', 'percent': '%\nM72\n{T2}\n{T1}\n%\n', 'G05': 'M48\nINCH\n{T1}\n{T2}\n%\nG90\nG05\n',
    'incremental': 'M48\nINCH,LZ\nICI,ON\n{T1}\n{T2}\n%\n', 'undefined': 'M48\nM71\n%\n', 'half defined': 'M48\nM71\n{T2}\n%\n', 'no header': 'M71\n;by hand\nG05\n', 'open': 'M48\nM72\n{T1}\n{T2}\n',
    'external': 'M48\nM72\n%\n', 'comments': ';T1 Holesize 1. = 0.6 Tolerance = +0.1/-0.1 PLATED MM Quantity = 4\n;T2 Holesize 2. = 0.8 Tolerance = +0.1/-0.1 PLATED MM Quantity = 4\nM48\nM71\n%\n',
    'format': 'M48\nMETRIC,TZ,00.0000\n{T1}\n{T2}\n%\n', 'comment after': 'M48\nINCH\n{T1}\n{T2}\n%\n; HEADER:\nM95\n',
}
BODIES = {'holes': 'T01\n{a}\nX05Y05\nT02\nX07\n{a}\n', 'slots': 'T02\n{a}G85X05Y05\nX01\nT01\nX01Y07\n', 'routs': 'T02\nG00X03Y03\nM15\nG01{a}\nX05\nM16\nG05\nT01\n{a}\nT02\n{a}\n', 'repeats': 'T01\n{a}\nR2X02\nT02\nR1Y03\n'}


@spec('C16', functions=[F + 'write', 'gerber.excellon.ExcellonParser.parse_raw'], params=[(h, b) for h in sorted(HEADERS) for b in sorted(BODIES)], n=20)
def write(S, hb):
    """The file written has, when read back with the settings of the file, the same holes and slots of the same tools."""
    h, b = hb
    S.explicit_digits()
    s = FileSettings(units=S.choice('units', ['inch', 'metric']), zeros=S.choice('zeros', ['leading', 'trailing']), format=FMT, notation='absolute')
    sizes = {'T1': S.concat('T01C0.', S.digits('d1', 2)), 'T2': 'T02C0.125'}
    head = HEADERS[h]
    for k in sizes:
        head = S.concat(*[x for i, part in enumerate(head.split('{%s}' % k)) for x in ((sizes[k], part) if i else (part,))]) if '{%s}' % k in head else head
    body = BODIES[b]
    if h == 'open':
        # an open header takes tool numbers for definitions
        body = '{a}\nX05Y05\n'
    at = S.concat('X', S.choice('sign', ['', '-']), '1', S.digits('x', 1), 'Y', '15')
    body = S.concat(*[x for i, part in enumerate(body.split('{a}')) for x in ((at, part) if i else (part,))])
    ext = {n: ES.ExcellonTool(None, number=n, diameter=0.25 * n) for n in (1, 2)} if h == 'external' else None
    f = read(S.concat(head, body, 'M30\n'), s, ext)
    S.assume(len(f.hits) > 0)
    path = S.path('out.drl')
    f.write(path)
    g = read(''.join(S.written(path)), f.settings)
    same_holes(S, f, g)


@spec('C16', functions=[F + 'write'], params=['hit', 'g85', 'rout'], n=60)
def write_any(S, kind):
    """Whatever hits a file has, each is written once, under its tool."""
    s = FileSettings(units='inch', zeros='trailing', format=FMT, notation='absolute')
    t1, t2 = [ES.ExcellonTool(s, number=k, diameter=0.5) for k in (1, 2)]
    a, b = (exactly(S, 'ax'), 0.5), (exactly(S, 'bx'), 1.5)
    w = {'hit': lambda: DrillHit(t1, a), 'g85': lambda: DrillSlot(t1, a, b, DrillSlot.TYPE_G85), 'rout': lambda: DrillSlot(t1, a, b, DrillSlot.TYPE_ROUT)}[kind]()
    hits = S.alist('hits', lambda: DrillHit(S.choice('tool', [t1, t2]), (exactly(S, 'ox'), 0.25)), w)
    f = ExcellonFile([ES.HeaderBeginStmt(), t1, t2, ES.RewindStopStmt()], {1: t1, 2: t2}, hits, s)
    path = S.path('out.drl')
    f.write(path)
    got = S.written(path)
    line = ''.join([st.to_excellon(s) + '\n' for st in f._hit_statements(w)])
    text = ''.join(got)
    if S.symbolic:
        S.check('its lines once', len([x for x in got if S.decide(S.exact(x, line))]) == 1)
    S.check('ends', text.endswith('M30\n'))
    S.check('both tools', 'T01\n' in text and 'T02\n' in text)


def holed(S, first=1):
    s = FileSettings(units=S.choice('units', ['inch', 'metric']), zeros='trailing', format=FMT, notation=S.choice('notation', ['absolute', 'incremental']))
    tools = {k: ES.ExcellonTool(s, number=k, diameter=S.real('d%d' % k, 0.01, 9)) for k in (first, 2)}
    hits = []
    for i in range(3):
        t = tools[S.choice('tool%d' % i, [first, 2])]
        p, q = [S.real('x%d' % i, -9, 9), S.real('y%d' % i, -9, 9)], (S.real('u%d' % i, -9, 9), 0.5)
        hits.append(DrillHit(t, tuple(p)) if i != 1 or S.flag('hole') else DrillSlot(t, tuple(p), q, DrillSlot.TYPE_G85))
    for h in hits:
        h.tool._hit()
    return ExcellonFile([ES.HeaderBeginStmt()], tools, hits, s, 'a.drl')


def length(S, f, n):
    at, total = (0, 0), 0
    for h in f.hits:
        if h.tool.number == n:
            for p in geometry(h):
                total = total + S.hypot(p[0] - at[0], p[1] - at[1])
                at = p
    return total


@spec('C16', functions=[F + 'path_length'], n=60)
def path_length(S, p):
    """The path of a tool goes from the origin to each of its holes and along its slots, in order; per tool and in the table of all."""
    f = holed(S, S.choice('first', [1, 0]))
    table = f.path_length()
    used = set(h.tool.number for h in f.hits)
    S.check('tools', set(table) == used)
    for n in used:
        S.check('length', S.near(table[n], length(S, f, n), 1e-9))
        S.check('the same for one', S.eq(f.path_length(n), table[n]))


@spec('C16', functions=[F + 'report', F + 'path_length', F + 'hit_count'], n=60)
def report(S, p):
    """The report states notation and units of the file and, for every tool, its size, hits and path length."""
    f = holed(S, S.choice('first', [1, 0]))
    path = S.path('report.txt')
    text = f.report(path)
    S.check('saved', S.exact(S.written(path)[0] if S.symbolic else ''.join(S.written(path)), text))
    lines = text.split('\n')
    S.check('file', 'NC Drill File: a.drl' in lines)
    S.check('mode', '  Data Mode         %s' % {'absolute': 'Absolute', 'incremental': 'Incremental'}[f.notation] in lines)
    S.check('units', '  Units             %s' % {'inch': 'Inches', 'metric': 'Millimeters'}[f.units] in lines)
    k = [i for i, l in enumerate(lines) if l.startswith('  -----')][0]
    rows = [l for l in lines[k + 1:] if l]
    S.check('one row per tool', len(rows) == len(f.tools))
    for row, n in zip(rows, f.tools):
        t = f.tools[n]
        words = row.split()
        S.check('code', words[0] == 'T%02d' % n)
        S.check('size', S.near(S.float_of(words[1]), t.diameter, 0.51e-4))
        S.check('hits', words[2] == str(t.hit_count) and f.hit_count(n) == t.hit_count)
        S.check('unit', words[3][-3:] == 'in.' if f.units == 'inch' else words[3][-2:] == 'mm')
        S.check('length', S.near(S.float_of(words[3][:-3] if f.units == 'inch' else words[3][:-2]), length(S, f, n), 1e-6))


@spec('C16', functions=[F + 'update_tool', F + 'hit_count'], params=['feed_rate', 'retract_rate', 'rpm', 'diameter', 'max_hit_count', 'depth_offset'], n=40)
def update(S, key):
    """Changing a parameter of a tool changes it for the tool and all its hits, and nothing else."""
    f = holed(S)
    other = vars(f.tools[1]).copy()
    mine = vars(f.tools[2]).copy()
    hits = [(h, h.tool.number, geometry(h)) for h in f.hits]
    v = S.real('v', 0, 9)
    f.update_tool(2, **{key: v})
    S.check('changed', S.eq(getattr(f.tools[2], key), v))
    S.check('rest of the tool kept', all(vars(f.tools[2])[k] is mine[k] for k in mine if k != key))
    S.check('other tools kept', all(vars(f.tools[1])[k] is other[k] for k in other))
    S.check('hits kept', len(f.hits) == len(hits) and all(h is g and h.tool is f.tools[n] and geometry(h) == a for h, (g, n, a) in zip(f.hits, hits)))
    S.check('hit counts', f.hit_count() == dict((n, f.tools[n].hit_count) for n in f.tools))
