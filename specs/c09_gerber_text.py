"""C09: Gerber statements survive being written and read back by the real parser."""
from engine.reg import spec
import shapes as SH
import gerber.gerber_statements as GS
from gerber.cam import FileSettings
from gerber.rs274x import GerberParser, GerberFile

F = 'gerber.gerber_statements.'
R = 'gerber.rs274x.GerberParser.'
READ = [R + '_parse', R + '_split_commands']
NAMECH = 'abzAZ09_$.+-'
TEXTCH = 'aZ09_+-/!?<>(){}.|&@# :,;=$XDGM'


def settings(fmt, zs, units='inch'):
    s = FileSettings(units=units, format=fmt, zero_suppression='leading')
    s.zero_suppression = zs
    return s


def reread(text, s=None):
    """The statements the interpreter reads from a text."""
    g = GerberParser()
    if s is not None:
        g.settings = s
    return list(g._parse(g._split_commands(text)))


def one(S, st, s=None):
    """The statement that a statement becomes when written and read."""
    got = reread(st.to_gerber(s) + '\n', s)
    S.check('one statement', len(got) == 1)
    S.check('same kind', type(got[0]) is type(st))
    return got[0]


@spec('C09', functions=[F + 'CoordStmt.to_gerber', F + 'CoordStmt.from_dict'] + READ,
      params=lambda tier: [(f, k) for f in ([(2, 4), (3, 5), (0, 6), (6, 6), (4, 0)] if tier == 'quick' else [(i, d) for i in range(7) for d in range(8) if i + d])
                           for k in 'xyij'], n=60)
def coordinates(S, fk):
    """A coordinate block comes back with its function, operation and every coordinate present, to the resolution of the format."""
    fmt, letter = fk
    i, d = fmt
    s = settings(fmt, S.choice('zs', ['leading', 'trailing', 'none']))
    v = S.real('v', -10 ** i, 10 ** i)
    res = S.div(S.num(1), S.num(10 ** d))
    S.assume(S.and_(S.lt(v, 10 ** i - res / 2), S.gt(v, res / 2 - 10 ** i)))
    other = {'x': 1, 'y': -2, 'i': 3, 'j': -4} if S.flag('others') else {}
    scale = 10.0 ** -d if d else 1.0
    vals = {k: (v if k == letter else (other[k] * scale if k in other else None)) for k in 'xyij'}
    f, o = S.choice('fo', [(None, None), ('G01', 'D01'), ('G02', None), ('G03', 'D01'), (None, 'D02'), (None, 'D03'), ('G1', 'D1')])
    st = GS.CoordStmt(f, vals['x'], vals['y'], vals['i'], vals['j'], o, s)
    b = one(S, st, s)
    S.check('function', b.function == f)
    S.check('operation', b.op == o)
    for k in 'xyij':
        back = getattr(b, k)
        S.check('presence', (back is None) == (vals[k] is None))
        if vals[k] is not None:
            S.check('coordinate', S.near(back, vals[k], res / 2))


@spec('C09', functions=[F + 'CoordStmt.move', F + 'CoordStmt.line', F + 'CoordStmt.arc', F + 'CoordStmt.flash', F + 'CoordStmt.mode'], n=100)
def builders(S, p):
    """The convenience constructors build the statement they name."""
    pt, c = SH.point(S, 'p'), SH.point(S, 'c')
    f = S.choice('f', [None, 'G01', 'G02'])
    C = GS.CoordStmt
    fields = lambda st: (st.function, st.x, st.y, st.i, st.j, st.op)
    S.check('move', S.eq(fields(C.move(f, pt)), (f, pt[0], pt[1], None, None, 'D02')))
    S.check('bare move', fields(C.move(f, None)) == (f, None, None, None, None, 'D02'))
    S.check('line', S.eq(fields(C.line(f, pt)), (f, pt[0], pt[1], None, None, 'D01')))
    S.check('arc', S.eq(fields(C.arc(f, pt, c)), (f, pt[0], pt[1], c[0], c[1], 'D01')))
    S.check('flash', S.eq(fields(C.flash(pt)), (None, pt[0], pt[1], None, None, 'D03')))
    S.check('bare flash', fields(C.flash(None)) == (None, None, None, None, None, 'D03'))
    S.check('mode', fields(C.mode(f)) == (f, None, None, None, None, None))


SHAPES = {'circle': ('C', 1), 'rect': ('R', 2), 'obround': ('O', 2), 'polygon': ('P', 1)}


@spec('C09', functions=[F + 'ADParamStmt.to_gerber', F + 'ADParamStmt.from_dict', F + 'ADParamStmt.__init__', F + 'ADParamStmt.circle', F + 'ADParamStmt.rect',
                        F + 'ADParamStmt.obround', F + 'ADParamStmt.polygon'] + READ,
      params=[(k, h, w) for k in ['circle', 'rect', 'obround', 'polygon'] for h in ('none', 'round', 'rect')
              for w in range(SHAPES[k][1] + {'none': 0, 'round': 1, 'rect': 2}[h])], n=80)
def apertures(S, khw):
    """An aperture definition comes back with its number, shape and every dimension (to nine digits)."""
    kind, hole, w = khw
    S.explicit_digits()
    code, n = SHAPES[kind]
    v = S.real('v', 0.001, 100)
    dims = [0.5, 0.75][:n] + {'none': [], 'round': [0.25], 'rect': [0.125, 0.0625]}[hole]
    dims[w] = v
    kw = {}
    if hole == 'round':
        kw = {'hole_diameter': dims[n]}
    if hole == 'rect':
        kw = {'hole_width': dims[n], 'hole_height': dims[n + 1]}
    d = S.choice('d', [10, 11, 99, 1234])
    make = getattr(GS.ADParamStmt, kind)
    if kind == 'polygon':
        sides, rot = S.choice('sides', [3, 6, 12]), S.choice('rot', [0, 30.5, -15])
        st = make(d, dims[0], sides, rot, **kw)
        want = [dims[0], sides, rot] + dims[1:]
    else:
        st = make(d, *dims[:n], **kw)
        want = dims
    b = one(S, st)
    S.check('number', b.d == d)
    S.check('shape', b.shape == code)
    S.check('one modifier list', len(b.modifiers) == 1 and len(b.modifiers[0]) == len(want))
    for x, y in zip(b.modifiers[0], want):
        S.check('modifier', S.near(x, y, 1e-9 * S.abs(S.num(y))))


@spec('C09', functions=[F + 'ADParamStmt.macro', F + 'ADParamStmt.to_gerber'] + READ, params=[1, 2, 3, 4], n=300)
def macro_apertures(S, n):
    """An aperture that names a macro comes back naming the same macro, with the same parameters."""
    name = S.text('first', 1, alphabet='ABCDOPRZaz_$.' if n > 1 else 'ABDZaz_$.') + S.text('rest', n - 1, alphabet=NAMECH)
    if S.flag('parameters'):
        a, b = S.choice('a', [0.5, 2, -1.25]), S.choice('b', [0, 45])
        st = GS.ADParamStmt('AD', S.choice('d', [10, 999]), name, ([a, b],))
        want = (a, b)
    else:
        st, want = GS.ADParamStmt.macro(S.choice('d', [10, 999]), name), ()
    b = one(S, st)
    S.check('number', b.d == st.d)
    S.check('macro name', S.eq(b.shape, name))
    S.check('parameters', tuple(b.modifiers[0]) == want)


@spec('C09', functions=[F + 'INParamStmt.to_gerber', F + 'LNParamStmt.to_gerber', F + 'CommentStmt.to_gerber'] + READ,
      params=[(k, n) for k in ('IN', 'LN', 'comment') for n in range(1, 5)], n=100)
def names(S, kn):
    """Image names, level names and comments come back unchanged."""
    k, n = kn
    t = S.text('t', n, exclude='*%')
    if k == 'comment':
        S.check('comment', S.eq(one(S, GS.CommentStmt(t)).comment, t))
    else:
        S.check('name', S.eq(one(S, getattr(GS, k + 'ParamStmt')(k, t)).name, t))


@spec('C09', functions=[F + x + '.to_gerber' for x in ('LPParamStmt', 'IPParamStmt', 'MOParamStmt', 'ASParamStmt', 'MIParamStmt', 'FSParamStmt', 'QuadrantModeStmt',
                                                      'RegionModeStmt', 'EofStmt')] + READ, n=200)
def flags(S, p):
    """Parameters and modes with a fixed set of values come back with the same value."""
    k = S.choice('kind', ['LP', 'IP', 'MO', 'AS', 'MI', 'FS', 'quadrant', 'region', 'eof'])
    if k == 'LP':
        v = S.choice('v', ['dark', 'clear'])
        S.check('level polarity', one(S, GS.LPParamStmt('LP', v)).lp == v)
    elif k == 'IP':
        v = S.choice('v', ['positive', 'negative'])
        S.check('image polarity', one(S, GS.IPParamStmt('IP', v)).ip == v)
    elif k == 'MO':
        v = S.choice('v', ['inch', 'metric'])
        s = settings((2, 4), 'leading', S.choice('was', ['inch', 'metric']))
        S.check('units', one(S, GS.MOParamStmt('MO', v), s).mode == v)
        S.check('units in effect', s.units == v)
    elif k == 'AS':
        v = S.choice('v', ['AXBY', 'AYBX'])
        S.check('axes', one(S, GS.ASParamStmt('AS', v)).mode == v)
    elif k == 'MI':
        a, b = S.choice('a', [0, 1, None]), S.choice('b', [0, 1, None])
        r = one(S, GS.MIParamStmt('MI', a, b))
        S.check('mirror', (r.a, r.b) == (a or 0, b or 0))
    elif k == 'FS':
        fmt = (S.choice('i', range(0, 7)), S.choice('dd', range(0, 8)))
        zs, nt = S.choice('zs', ['leading', 'trailing']), S.choice('nt', ['absolute', 'incremental'])
        st = GS.FSParamStmt('FS', zs, nt, fmt)
        s = FileSettings()
        if S.flag('from settings'):
            w = settings(fmt, zs)
            w.notation = nt
            got = reread(GS.FSParamStmt('FS').to_gerber(w) + '\n', s)[0] if S.flag('explicit') else reread(GS.FSParamStmt.from_settings(w).to_gerber() + '\n', s)[0]
        else:
            got = one(S, st, None)
            s = None
        S.check('format', tuple(got.format) == fmt)
        S.check('zeros', got.zero_suppression == zs)
        S.check('notation', got.notation == nt)
        if s is not None:
            S.check('in effect', tuple(s.format) == fmt and s.zero_suppression == zs and s.notation == nt)
    elif k == 'quadrant':
        v = S.choice('v', ['single-quadrant', 'multi-quadrant'])
        S.check('quadrant mode', one(S, GS.QuadrantModeStmt(v)).mode == v)
    elif k == 'region':
        v = S.choice('v', ['on', 'off'])
        S.check('region mode', one(S, GS.RegionModeStmt(v)).mode == v)
    else:
        one(S, GS.EofStmt())


@spec('C09', functions=[F + 'ApertureStmt.to_gerber', F + 'IRParamStmt.to_gerber'] + READ, n=200)
def numbers(S, p):
    """Aperture selections and image rotations come back with the same number."""
    S.explicit_digits()
    d = S.int('d', 10, 99999)
    dep = S.flag('deprecated')
    b = one(S, GS.ApertureStmt(d, dep))
    S.check('aperture', S.eq(b.d, d))
    S.check('deprecated form', b.deprecated == dep)
    a = S.int('a', -360, 360)
    S.check('rotation', S.eq(one(S, GS.IRParamStmt('IR', a)).angle, a))


@spec('C09', functions=[F + 'OFParamStmt.to_gerber', F + 'OFParamStmt.from_dict', F + 'SFParamStmt.to_gerber', F + 'SFParamStmt.from_dict',
                        'gerber.utils.decimal_string'] + READ, params=[(k, w) for k in ('OF', 'SF') for w in 'ab'], n=200)
def offsets(S, kw):
    """Image offsets and scale factors come back to five decimals, absent ones as the neutral value."""
    k, w = kw
    S.explicit_digits()
    v = S.real('v', -1000, 1000) if k == 'OF' else S.real('v', 0.001, 1000)
    S.assume(S.or_(S.ge(v, 0.001), S.le(v, -0.001), S.eq(v, 0)))
    other = S.choice('other', [None, 2.5])
    a, b = (v, other) if w == 'a' else (other, v)
    r = one(S, getattr(GS, k + 'ParamStmt')(k, a, b))
    for got, want in ((r.a, a), (r.b, b)):
        S.check('present' if want is not None else 'absent', S.near(got, want, 1.1e-5) if want is not None else got == (0 if k == 'OF' else 1))


@spec('C09', functions=[F + 'UnknownStmt.to_gerber', F + 'DeprecatedStmt.to_gerber'] + READ, n=200)
def verbatim(S, p):
    """Statements the reader does not interpret are written as they were read."""
    t = S.text('t', 2, alphabet='aZ09.,+-')
    line = S.choice('form', ['%TF', '%TA', '%TO', '%TD', '%AB', '%LM', '%SR', 'G99', 'M99']) + t
    line += '*%' if line[0] == '%' else '*'
    got = reread(line + '\n')
    S.check('one statement', len(got) == 1)
    S.check('same text', S.eq(got[0].to_gerber(), line))
    d = S.choice('g', ['G90*', 'G91*'])
    got = reread('%MOIN*%\n' + d + '\n')
    S.check('deprecated', [type(x) for x in got[1:]] == [GS.DeprecatedStmt] and got[1].to_gerber() == d)


@spec('C09', functions=['gerber.rs274x.GerberFile.write'], params=['coord', 'aperture', 'comment'], n=100)
def file(S, kind):
    """A file is written as the text of its statements, in order, one per line."""
    s = settings((3, 5), 'leading', 'metric')
    other = settings((2, 4), 'trailing') if S.flag('other settings') else None
    make = lambda: GS.CommentStmt(S.text('c', 2, exclude='*%'))
    w = {'coord': lambda: GS.CoordStmt('G01', S.choice('x', [None, 1.25]), 2.5, None, None, 'D01', s),
         'aperture': lambda: GS.ApertureStmt(S.choice('d', [10, 20])), 'comment': make}[kind]()
    stmts = S.alist('stmts', make, w)
    path = S.path('out.gbr')
    GerberFile(stmts, s, [], []).write(path, other) if other is not None else GerberFile(stmts, s, [], []).write(path)
    got = S.written(path)
    line = w.to_gerber(other or s) + '\n'
    if S.symbolic:
        S.check('its line once, nothing else', [x for x in got if x] == [line])
    else:
        S.check('all lines in order', got[0] == ''.join(st.to_gerber(other or s) + '\n' for st in stmts))


@spec('C09', functions=[F + 'AMParamStmt.to_gerber'], known='C09-am')
def macro_text(S, p):
    """A macro definition is written with its own text."""
    got = reread('%AMDONUT*1,1,$1,0,0*1,0,$2,0,0*%\n')
    S.check('macro kept', len(got) == 1 and getattr(reread(got[0].to_gerber() + '\n')[0], 'instructions', None) == got[0].instructions)
