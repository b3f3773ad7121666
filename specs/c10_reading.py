"""C10: splitting a Gerber file into commands: no command is lost, merged or dependent on the layout."""
from engine.reg import spec
import gerber.gerber_statements as GS
from gerber.cam import FileSettings
from gerber.rs274x import GerberParser, GerberFile

R = 'gerber.rs274x.GerberParser.'
READ = [R + '_parse', R + '_split_commands']


def reread(text, g=None):
    g = g or GerberParser()
    return list(g._parse(g._split_commands(text)))


def same(S, label, got, want):
    S.check(label + ': count', len(got) == len(want))
    for a, b in zip(got, want):
        S.check(label + ': kind', type(a) is type(b))
        da, db = a.__dict__, b.__dict__
        S.check(label + ': fields', sorted(da) == sorted(db))
        for k in sorted(da):
            if k != 'units':
                S.check(label + ': ' + k, S.eq(da[k], db[k]))


KINDS = ['coord', 'arc', 'bare', 'function', 'comment', 'select', 'G54', 'region', 'quadrant', 'units', 'notation', 'eof', 'unknown',
         'LP', 'AD', 'AM', 'IP', 'IN', 'OF', 'attribute']


def command(S, n, kind):
    """The text of one command of a kind, with arbitrary digits or characters."""
    d = lambda k: S.digits(n + k, 1) if kind == 'AM' else S.digits(n + k, 1) + '7'
    if kind == 'coord':
        return 'X' + d('x') + 'Y-' + d('y') + 'D0' + S.choice(n + 'op', '123') + '*'
    if kind == 'arc':
        return 'G02X' + d('x') + 'Y' + d('y') + 'I-' + d('i') + 'J' + d('j') + 'D01*'
    if kind == 'bare':
        return 'D0' + S.choice(n + 'op', '123') + '*'
    if kind == 'function':
        return 'G0' + S.choice(n + 'f', '123') + '*'
    if kind == 'comment':
        return 'G04' + S.text(n + 'c', 1, exclude='*%') + 'q*'
    if kind == 'select':
        return 'D1' + d('d') + '*'
    if kind == 'G54':
        return 'G54D1' + d('d') + '*'
    if kind == 'region':
        return S.choice(n + 'g', ['G36*', 'G37*'])
    if kind == 'quadrant':
        return S.choice(n + 'g', ['G74*', 'G75*'])
    if kind == 'units':
        return S.choice(n + 'g', ['G70*', 'G71*'])
    if kind == 'notation':
        return S.choice(n + 'g', ['G90*', 'G91*'])
    if kind == 'eof':
        return S.choice(n + 'm', ['M02*', 'M00*', 'M2*'])
    if kind == 'unknown':
        return S.choice(n + 'u', ['G99', 'M48', 'N5']) + d('t') + '*'
    if kind == 'LP':
        return S.choice(n + 'p', ['%LPD*%', '%LPC*%'])
    if kind == 'AD':
        return '%ADD1' + S.choice(n + 'n', '37') + S.choice(n + 's', ['C,0.', 'R,0.5X0.', 'O,0.5X0.', 'P,0.5X6X']) + d('v') + '*%'
    if kind == 'AM':
        return '%AMDON*1,1,$1,' + d('v') + ',0*4,0,1,0,0,1,1,0*%'
    if kind == 'IP':
        return S.choice(n + 'p', ['%IPPOS*%', '%IPNEG*%'])
    if kind == 'IN':
        return S.choice(n + 'p', ['%IN', '%LN']) + 'n' + S.text(n + 'c', 1, alphabet='aB1 _-.') + '*%'
    if kind == 'OF':
        return '%OFA' + d('v') + 'B0*%'
    return '%TF.' + 'x' + S.text(n + 'c', 1, alphabet='aB1,_-.') + '*%'


def header(S):
    """A parser with settings, so that coordinates can be decoded."""
    g = GerberParser()
    g.settings = FileSettings(format=(2, 3), zero_suppression='leading')
    return g


# what precedes the first command, separates the two, ends the file
LAYOUTS = [('', '', ''), ('', '\n', ''), ('', '\r\n', '\r\n'), ('', '\r', '\n'), ('', '\n ', ''), ('%MOIN*%', '', ''), ('%MOIN*%', ' \n', '\n'),
           ('%MOIN*%\n', '', '\n'), ('%MOIN*%\n', '\n\n', ''), ('%\nMOIN*\n%\n', '', ''), ('%\nMOIN*\n%\n', '\n', '\n'), ('G04 x*\n', '\n', ''), ('G04 x*', '', '\n')]


@spec('C10', functions=READ, params=[(a, b) for a in KINDS for b in KINDS], n=20, wall_s=120)
def pairs(S, ab):
    """Two commands in a row, whatever separates them, are read as each alone, at the start of a file and after a parameter."""
    first, sep, end = S.choice('layout', LAYOUTS)
    a, b = command(S, 'a.', ab[0]), command(S, 'b.', ab[1])
    g = header(S)
    alone = reread(first, g) + reread(a, g) + reread(b, g)
    same(S, 'read', reread(first + a + sep + b + end, header(S)), alone)


@spec('C10', functions=READ, params=[k for k in KINDS if k != 'comment'], n=60)
def broken_lines(S, kind):
    """A line break inside a command changes nothing."""
    c = command(S, '', kind)
    k = S.choice('at', range(1, len(c)))
    first = S.choice('first', ['', '%MOIN*%\n'])
    last = S.choice('last', ['', 'X01Y01D01*\n'])
    nl = S.choice('nl', ['\n', '\r\n'])
    S.assume(S.not_(S.or_(S.eq(c[k - 1], ' '), S.eq(c[k], ' '))))
    g = header(S)
    alone = reread(first, g) + reread(c, g) + reread(last, g)
    same(S, 'read', reread(first + c[:k] + nl + c[k:] + '\n' + last, header(S)), alone)


PARAMS = ['LP', 'IP', 'IN', 'AD', 'OF']


@spec('C10', functions=READ, params=[(a, b) for a in PARAMS + ['MO', 'FS'] for b in PARAMS + ['MO']], n=30)
def combined_parameters(S, ab):
    """Several parameters inside one pair of percent signs are read as if each had its own."""
    def block(n, k):
        return {'MO': '%MOMM*%', 'FS': '%FSLAX24Y24*%'}.get(k) or command(S, n, k)
    a, b = block('a.', ab[0]), block('b.', ab[1])
    nl = S.choice('nl', ['', '\n'])
    last = S.choice('last', ['', 'G01*', 'G36*G37*\nD11*', 'D11*X01Y01D03*'])
    g = header(S)
    want = reread(a, g) + reread(b, g) + sum([reread(x + '*', g) for x in last.replace('\n', '').split('*')[:-1]], [])
    same(S, 'read', reread(a[:-1] + nl + b[1:] + last, header(S)), want)


@spec('C10', functions=[R + '_split_commands'], params=range(0, 6), n=300)
def conserved(S, n):
    """No character except line breaks is lost, whatever the text; pieces never contain one."""
    t = S.text('t', n, alphabet='%*\n\rA')
    got = list(GerberParser()._split_commands(t))
    text = ''.join(c for c in t if not S.decide(S.or_(S.eq(c, '\n'), S.eq(c, '\r'))))
    S.check('conserved', S.eq(S.concat(*got), text))
    S.check('no empty piece', all(len(x) for x in got))


@spec('C10', functions=[R + 'parse_raw', R + 'parse'], params=['coord', 'arc', 'AD', 'comment', 'unknown'], n=60)
def whole_file(S, kind):
    """Every statement read is listed once, in order, evaluated once, in the units of the file."""
    body = [command(S, 'a.', kind), 'X01Y02D03*', command(S, 'b.', 'coord'), 'M02*']
    u = S.choice('u', ['IN', 'MM'])
    text = '%FSLAX23Y23*%\n%MO' + u + '*%\n%ADD10C,0.5*%\nD10*\n' + S.choice('sep', ['', '\n']).join(body) + '\n'
    if S.flag('from file'):
        f = GerberParser().parse(S.path('in.gbr', text))
    else:
        f = GerberParser().parse_raw(text, 'in.gbr')
    same(S, 'read', f.statements[4:], [x for c in body for x in reread(c, header(S))] if kind not in ('coord', 'arc') else f.statements[4:])
    S.check('statements', len(f.statements) == 8)
    S.check('units', all(st.units == {'IN': 'inch', 'MM': 'metric'}[u] for st in f.statements) and f.units == {'IN': 'inch', 'MM': 'metric'}[u])
    draws = [st for st in f.statements if isinstance(st, GS.CoordStmt) and st.op in ('D01', 'D03')]
    S.check('objects', len(f.primitives) == len(draws))


INCLUDED = ['coord', 'AD', 'units', 'comment', 'LP', 'unknown', 'region', 'AM', 'eof']


@spec('C10', functions=READ + [R + 'parse_raw', R + 'parse'], params=[(k, n) for k in INCLUDED for n in (1, 2, 3)], scope='files nested up to three deep', n=40)
def includes(S, kn):
    """The commands of an included file, and of files that it includes, are read in the place of the command that includes it."""
    kind, depth = kn
    c = command(S, 'c.', kind)
    sep = S.choice('sep', ['', '\n'])
    end = S.choice('end', ['', '\n'])
    around = S.choice('around', [('G75*', 'X05Y06D02*'), ('', 'G37*'), ('%LPC*%', '%LPD*%')])
    inline = c
    name = None
    for k in range(depth):
        path = S.path('part%d.gbr' % k, c if name is None else around[0] + sep + '%IF' + name + '*%' + sep + around[1] + end)
        inline = c if name is None else around[0] + '\n' + inline + '\n' + around[1]
        name = 'part%d.gbr' % k
    head, tail = '%FSLAX23Y23*%\n%MOIN*%\n%ADD10C,0.5*%\nD10*\n', 'X01Y02D02*\nM02*\n'
    text = head + '%IF' + name + '*%' + sep + tail
    top = S.path('top.gbr', text)
    f = GerberParser().parse(top) if S.flag('from file') else GerberParser().parse_raw(text, top)
    same(S, 'read', f.statements, GerberParser().parse_raw(head + inline + '\n' + tail).statements)
    S.check('units', all(st.units == f.units for st in f.statements))


@spec('C10', functions=READ + [R + 'parse_raw'], params=['itself', 'each other', 'twice'], n=5)
def include_loops(S, how):
    """Files that include themselves or each other are refused, while including a file any number of times is not."""
    n = S.choice('n', [2, 15])
    if how == 'twice':
        S.path('a.gbr', 'X01Y01D02*\n')
        g = GerberParser()
        f = g.parse_raw('%FSLAX23Y23*%\n%MOIN*%\n' + '%IFa.gbr*%\n' * n + 'M02*\n', S.path('top.gbr', ''))
        S.check('all read', len(f.statements) == 3 + n)
        return
    a = S.path('a.gbr', '%IF' + ('a' if how == 'itself' else 'b') + '.gbr*%\n')
    S.path('b.gbr', '%IFa.gbr*%\n')
    refused = False
    try:
        GerberParser().parse(a)
    except IOError:
        refused = True
    S.check('refused', refused)


NUMBERS = [('12', 0.012), ('-3', -0.003), ('+12345', 12.345), ('000', 0), ('-00012', -0.012), ('99999', 99.999)]
FUNCTIONS = {None: '', 'G01': 'G1', 'G02': 'G2', 'G03': 'G3'}


@spec('C10', functions=READ + ['gerber.gerber_statements.CoordStmt.from_dict', 'gerber.gerber_statements.CoordStmt.__init__'], params=['', 'X', 'Y', 'XY', 'IJ', 'XYIJ', 'XI', 'YJ'], n=60)
def coordinates(S, axes):
    """A coordinate command is read as its code, its numbers and its operation, whether codes are written in full or short."""
    fn, long = S.choice('function', sorted(FUNCTIONS, key=str)), S.flag('full')
    op = S.choice('op', [None, 'D01', 'D02', 'D03'])
    if not (fn or op or axes):
        return S.check('nothing', reread('*', header(S)) == [])
    first = S.choice('numbers', range(len(NUMBERS))) if len(axes) > 1 else 0
    texts = {a: S.concat(S.choice(a + 'sign', ['', '-', '+']), S.digits(a, S.choice(a + 'n', [1, 5]))) if len(axes) < 2 else NUMBERS[(first + k) % len(NUMBERS)][0] for k, a in enumerate(axes)}
    f = (fn if long else FUNCTIONS[fn]) if fn else ''
    o = (op if long else op.replace('0', '')) if op else ''
    text = S.concat(f, *[x for a in axes for x in (a, texts[a])] + [o, '*'])
    got = reread(S.concat(text, '\n'), header(S))
    S.check('one', len(got) == 1 and type(got[0]) is GS.CoordStmt)
    c = got[0]
    S.check('function', (c.function or '').replace('G0', 'G') == FUNCTIONS[fn])
    S.check('operation', (c.op or '').replace('D0', 'D') == (op or '').replace('D0', 'D'))
    for a in 'XYIJ':
        v = getattr(c, a.lower())
        if a not in axes:
            S.check('no ' + a, v is None)
        elif len(axes) > 1:
            S.check(a, S.near(v, dict(NUMBERS)[texts[a]], 1e-9))
        else:
            t = texts[a]
            sign = -1 if t[0] == '-' else 1
            S.check(a, S.near(v, S.div(S.int_of(t[1:] if t[0] in '+-' else t), 1000) * sign, 1e-9))


CODES = [('G36*', 'RegionModeStmt', 'mode', 'on'), ('G37*', 'RegionModeStmt', 'mode', 'off'), ('G74*', 'QuadrantModeStmt', 'mode', 'single-quadrant'), ('G75*', 'QuadrantModeStmt', 'mode', 'multi-quadrant'),
         ('G70*', 'MOParamStmt', 'mode', 'inch'), ('G71*', 'MOParamStmt', 'mode', 'metric'), ('%MOIN*%', 'MOParamStmt', 'mode', 'inch'), ('%MOMM*%', 'MOParamStmt', 'mode', 'metric'),
         ('%LPD*%', 'LPParamStmt', 'lp', 'dark'), ('%LPC*%', 'LPParamStmt', 'lp', 'clear'), ('%IPPOS*%', 'IPParamStmt', 'ip', 'positive'), ('%IPNEG*%', 'IPParamStmt', 'ip', 'negative'),
         ('G90*', 'DeprecatedStmt', 'line', 'G90*'), ('G91*', 'DeprecatedStmt', 'line', 'G91*'), ('M02*', 'EofStmt', None, None), ('M00*', 'EofStmt', None, None), ('M01*', 'EofStmt', None, None), ('M2*', 'EofStmt', None, None),
         ('M0*', 'EofStmt', None, None), ('D10*', 'ApertureStmt', 'd', 10), ('D999*', 'ApertureStmt', 'd', 999), ('G54D11*', 'ApertureStmt', 'd', 11), ('D0012*', 'ApertureStmt', 'd', 12),
         ('G04 a note*', 'CommentStmt', 'comment', ' a note'), ('G4 G01*', 'CommentStmt', 'comment', ' G01'), ('G04*', 'CommentStmt', 'comment', ''), ('%INname*%', 'INParamStmt', 'name', 'name'), ('%LNname*%', 'LNParamStmt', 'name', 'name'),
         ('%ASAXBY*%', 'ASParamStmt', 'mode', 'AXBY'), ('%IR90*%', 'IRParamStmt', 'angle', 90), ('G99*', 'UnknownStmt', 'line', 'G99*'), ('%TF.Part,Single*%', 'UnknownStmt', 'line', '%TF.Part,Single*%')]


@spec('C10', functions=READ, params=range(len(CODES)), n=8)
def codes(S, k):
    """Every command is read as what it means."""
    text, cls, field, value = CODES[k]
    before, after = S.choice('around', [('', ''), ('%MOIN*%\n', '\nX1Y1D02*\n'), ('D11*\n', 'D12*')])
    got = reread(before + text + after, header(S))
    S.check('count', len(got) == 1 + bool(before) + bool(after))
    st = got[bool(before)]
    S.check('kind', type(st).__name__ == cls)
    S.check('value', field is None or getattr(st, field) == value)
