"""C19: nets, aliases, units and layers of IPC-D-356 netlists."""
from engine.reg import spec
import gerber.ipc356 as I
from netlines import R, put, symbol


def record(S, net, ref='VIA'):
    return put(S, {1: '317', 4: net, 21: ref, 33: 'D0150PA01X 006647Y-012900'})


@spec('C19', functions=[R + 'IPCNetlistParser._parse_line', R + 'IPCNetlistParser.parse_raw'], params=['UNITS CUST', 'UNITS CUST 0', 'UNITS CUST 1', 'UNITS CUST 2', 'UNITS SI', 'JOB x y', 'DIM N', 'UNITS'], n=30)
def parameters(S, line):
    """Units hold from their parameter on and are those of the netlist; other parameters are kept and change nothing."""
    p = I.IPCNetlistParser()
    p.units, p.angle_units = S.choice('units', ['inch', 'metric']), S.choice('angles', ['degrees', 'radians'])
    before = (p.units, p.angle_units)
    f = p.parse_raw('P  %s\n%s\n' % (line, record(S, 'A')))
    want = {'UNITS CUST': ('inch', 'degrees'), 'UNITS CUST 0': ('inch', 'degrees'), 'UNITS CUST 1': ('metric', 'degrees'), 'UNITS CUST 2': ('inch', 'radians'), 'UNITS SI': ('metric', 'degrees')}.get(line, before)
    S.check('units', (f.units, f.angle_units) == want and (f.settings.units, f.settings.angle_units) == want)
    S.check('record in these units', S.near(f.test_records[0].x_coord, 0.6647 if want[0] == 'inch' else 6.647, 1e-9))
    q = f.parameters[0]
    S.check('parameter', (q.parameter, q.value) == (line.split()[0], ' '.join(line.split()[1:])))


@spec('C19', functions=[R + 'IPCNetlistParser.parse_raw', R + 'IPCNetlistParser._parse_line'], params=['record', 'outline', 'conductor', 'adjacency'], n=40)
def continued(S, kind):
    """A record broken over lines that start with 0 is one record; empty lines and line ends do not matter."""
    a = S.digits('a', 3)
    full = {'record': record(S, S.concat('N', a)), 'outline': S.concat('389BOARD_EDGE         X', a, 'Y100 X20000Y20000 X40000 Y60000'),
            'conductor': S.concat(put(S, {1: '378', 4: 'GND', 19: 'L01', 23: 'X100 X'}), a, 'Y5 X1Y2'), 'adjacency': S.concat('379GND            N', a, '  VCC')}[kind]
    head = 'C  comment\n'
    end = S.choice('end', ['\n', '\r\n', '\n\n'])
    k = S.choice('break', [15, 30, 40] if kind != 'adjacency' else [18, 24])
    if kind == 'record':
        cut = S.concat(full[:k], end[:-1] if end == '\r\n' else '', '\n', '017', full[k:])
        S.assume(full[k - 1] != ' ' and full[k] != ' ')
    else:
        i = full.find(' ', k)
        cut = S.concat(full[:i], end if end != '\n\n' else '\n', '0' + full[1:3], full[i:])
    one, two = I.loads(S.concat(head, full, end, '999\n')), I.loads(S.concat(head, cut, end, '999'))
    S.check('same records', [type(x) for x in one.statements] == [type(x) for x in two.statements] and len(one.statements) == 3)
    x, y = vars(one.statements[1]), vars(two.statements[1])
    S.check('same fields', sorted(x) == sorted(y))
    for n in x:
        S.check('same ' + n, S.eq(x[n], y[n]) if not isinstance(x[n], (str, bool, type(None))) else S.exact(x[n], y[n]) if isinstance(x[n], str) else x[n] == y[n])


@spec('C19', functions=[R + 'IPCNetlistParser._parse_line', R + 'IPCNetlist.nets'], params=['record', 'conductor', 'adjacent', 'adjacent to'], n=40)
def aliases(S, where):
    """A net name variable stands for its name wherever nets are named; one that is not defined stands for itself."""
    n, d = S.digits('n', 2), S.digits('d', 2)
    defined = S.decide(S.exact(n, d))
    long = S.concat('VERY_LONG_', symbol(S, 't', 2))
    text = S.concat('P  NNAME', d, '  ', long, '\n')
    name = S.concat('NNAME', n)
    line = {'record': lambda: record(S, name), 'conductor': lambda: put(S, {1: '378', 4: name, 19: 'L01', 23: 'X100 X1Y2'}),
            'adjacent': lambda: S.concat('379', name, ' GND'), 'adjacent to': lambda: S.concat('379GND ', name)}[where]()
    f = I.loads(S.concat(text, line, '\n'))
    st = f.statements[-1]
    got = {'record': lambda: st.net_name, 'conductor': lambda: st.net_name, 'adjacent': lambda: st.net, 'adjacent to': lambda: st.adjacent_nets[0]}[where]()
    S.check('name', S.exact(got, long if defined else name))


@spec('C19', functions=[R + 'IPCNetlist.nets', R + 'IPCNetlist.components', R + 'IPCNetlist.vias', R + 'IPCNetlist.__init__', R + 'IPC356_Net.__init__'], scope='netlists of three test records and two adjacency records', n=60)
def nets(S, q):
    """The nets are those of the test records, once each, with all nets that adjacency records name next to them from either side."""
    names = ['A', 'B', 'GND']
    recs = []
    for i in range(3):
        recs.append((S.choice('net%d' % i, [['A'], ['A', 'B'], ['A', 'GND']][i]), S.choice('ref%d' % i, [['VIA', 'R1'], ['VIA', 'R1', 'U2'], ['R1']][i])))
    adj = []
    for i in range(2):
        adj.append((S.choice('from%d' % i, [names, ['B', 'Z']][i]), S.choice('to%d' % i, [('A',), ('GND',), ('A', 'GND'), ('X', 'B')])))
    text = ''.join([record(S, n, r) + '\n' for n, r in recs] + ['379%s %s\n' % (a, ' '.join(b)) for a, b in adj])
    f = I.loads(text)
    want = {}
    for n, _ in recs:
        want[n] = set()
    for a, b in adj:
        for n in want:
            if n == a:
                want[n] |= set(b)
            elif n in b:
                want[n].add(a)
    S.check('nets', sorted(x.name for x in f.nets) == sorted(want))
    S.check('adjacent', all(x.adjacent_nets == want[x.name] for x in f.nets))
    S.check('components', sorted(f.components) == sorted(set(r for _, r in recs if r != 'VIA')))
    S.check('vias', len(f.vias) == len([r for _, r in recs if r == 'VIA']))
    S.check('records', [(r.net_name, r.id) for r in f.test_records] == recs and len(f.adjacency_records) == 2)
    S.check('primitives', [(p.net_name, p.layer) for p in f.primitives] == [(n, 'top') for n, _ in recs])


class Canvas(object):
    def __init__(self):
        self.drawn = []

    def render(self, p):
        self.drawn.append(p)


@spec('C19', functions=[R + 'IPCNetlist.render', R + 'IPCNetlist.__init__'], params=["both", "top", "bottom"], n=40)
def layers(S, layer):
    """Each test point is drawn at its position on the layers that can reach it, and on no other."""
    x = S.digits('x', 6)
    side = S.choice('side', [0, 1, 2, 8])
    f = I.loads(S.concat(put(S, {1: '317', 4: 'N', 21: 'VIA', 33: 'D0150PA%02dX ' % side, 44: x, 50: 'Y 000100'}), '\n'))
    c = Canvas()
    f.render(c, layer)
    on = {0: ('top', 'bottom'), 1: ('top',), 2: (), 8: ('bottom',)}[side]
    S.check('drawn', len(c.drawn) == (1 if (on if layer == 'both' else layer in on) else 0))
    for p in c.drawn:
        S.check('where', S.and_(S.near(p.position[0], S.div(S.int_of(x), 10000), 1e-9), S.near(p.position[1], 0.01, 1e-9)))


@spec('C19', functions=[R + 'IPCNetlistParser._parse_line', R + 'IPC356_Comment.from_line', R + 'IPC356_EndOfFile'], n=40)
def other_lines(S, q):
    """Comments keep their text, and unknown lines, comments and the end add nothing to nets or settings."""
    t = S.text('t', 3, exclude=' ')
    f = I.loads(S.concat('C  ', t, '.\n', '399 what\n', record(S, 'A'), '\n999\n'))
    S.check('kinds', [type(x) for x in f.statements] == [I.IPC356_Comment, I.IPC356_TestRecord, I.IPC356_EndOfFile])
    S.check('comment', S.exact(f.comments[0].comment, S.concat(t, '.')))
    S.check('nets', [n.name for n in f.nets] == ['A'] and f.units == 'inch')
