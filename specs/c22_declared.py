"""C22: what a drill file says about its numbers wins over detection."""
from engine.reg import spec
import gerber.excellon as E

D = 'gerber.excellon.detect_excellon_format'
FORMATS = [(2, 4), (2, 5), (3, 3)]


def value(S, digits, fmt, zeros):
    """The number digits denote; zeros is the end whose zeros are kept."""
    n = len(digits)
    if zeros == 'leading':
        return S.div(S.int_of(digits), 10 ** (n - fmt[0])) if n >= fmt[0] else S.int_of(digits) * 10 ** (fmt[0] - n)
    return S.div(S.int_of(digits), 10 ** fmt[1])


def comment(S, fmt):
    return ';FILE_FORMAT=%d:%d\n' % fmt if fmt else ''


@spec('C22', functions=[D, 'gerber.excellon.loads', 'gerber.excellon.ExcellonParser.__init__', 'gerber.excellon.ExcellonParser._settings', 'gerber.excellon_statements.UnitStmt.from_excellon'],
      params=[(u, z, w) for u in ('INCH', 'METRIC') for z in ('LZ', 'TZ') for w in ('comment', 'unit')], n=60)
def declared(S, uzw):
    """Units, format and zeros that a file declares are those of its numbers, whatever the holes look like."""
    unit, zeros, way = uzw
    fmt = S.choice('format', [(2, 4), (3, 3), (4, 2), (2, 5), (3, 4)] if way == 'comment' else [(2, 4), (3, 3), (4, 2)])
    x = S.digits('x', S.choice('n', [2, 4, 6]))
    line = '%s,%s%s\n' % (unit, zeros, ',' + '0' * fmt[0] + '.' + '0' * fmt[1] if way == 'unit' else '')
    head = comment(S, fmt if way == 'comment' else None)
    S.cover(way)
    text = S.concat('M48\n', head + line if S.flag('comment first') else line + head, 'T1C0.5\n%\nT1\n', S.choice('other', ['', 'X9Y0\n', 'X123456Y999999\n']), 'X', x, 'Y0\nM30\n')
    f = E.loads(text)
    z = 'leading' if zeros == 'LZ' else 'trailing'
    S.check('settings', (f.units, f.zeros, f.format) == ('inch' if unit == 'INCH' else 'metric', z, fmt))
    S.check('position', S.near(f.hits[-1].position[0], value(S, x, fmt, z), 1e-9))
    if way == 'comment':
        S.check('detected', E.detect_excellon_format(text) == {'format': fmt, 'zeros': z})


@spec('C22', functions=[D], params=['leading', 'trailing', 'format'], n=60)
def partly(S, what):
    """When only the zeros or only the format is declared, it holds, and the rest is a usual choice."""
    fmt = S.choice('format', FORMATS + [(4, 4), (3, 4)]) if what == 'format' else None
    x = S.choice('x', ['0', '01', '123456', '00123', '5', '9999'])
    y = S.choice('y', ['0', '1', '120000', '654321'])
    tool = S.choice('tool', ['T1C0.02\n', 'T1C1\n', 'T1\n', ''])
    unit = S.choice('unit', ['INCH', 'METRIC']) + {'leading': ',LZ', 'trailing': ',TZ', 'format': ''}[what]
    lines = [] if what == 'format' and S.flag('no unit') else [unit + '\n']
    if what == 'format' and lines and S.flag('twice'):
        lines = lines * 2
    text = 'M48\n' + ''.join(lines) + (comment(S, fmt) if fmt else '') + tool + '%\nT1\nX0Y0\nX' + x + 'Y' + y + '\nM30\n'
    d = E.detect_excellon_format(text)
    S.check('keys', sorted(d) == ['format', 'zeros'])
    S.check('format', d['format'] == fmt if fmt else d['format'] in FORMATS)
    S.check('zeros', d['zeros'] == what if what != 'format' else d['zeros'] in ('leading', 'trailing'))
    f = E.loads(text)
    S.check('used', f.format == d['format'] and (f.zeros == d['zeros'] or what == 'format'))
    near = S.near(f.hits[-1].position[0], value(S, x, f.format, f.zeros), 1e-9)
    S.check('position', S.and_(near, S.near(f.hits[-1].position[1], value(S, y, f.format, f.zeros), 1e-9)))


@spec('C22', functions=[D, 'gerber.excellon.read'], params=['loads', 'read'], n=40)
def nothing(S, how):
    """A drill file that declares nothing, or holds no holes, reads with one of the usual choices."""
    head = S.choice('head', ['', 'INCH\n', 'METRIC\n', 'M71\n', 'M72\n'])
    body = S.choice('body', ['', 'T1C0.02\n%\nT1\n', 'T1C0.02\n%\nT1\nX0100Y02\nX05Y0500\n', 'T1\n%\nT1\nX01Y01\n', '%\nT3\nX1Y1\nX2Y2\n'])
    text = 'M48\n' + head + body + 'M30\n'
    f = E.loads(text) if how == 'loads' else E.read(S.path('x.drl', text))
    S.check('format', f.format in FORMATS and f.zeros in ('leading', 'trailing'))
    S.check('units', f.units == ('metric' if head in ('METRIC\n', 'M71\n') else 'inch'))
    S.check('holes', len(f.hits) == (text.count('X') if 'T' in body else 0))
    for h, (x, y) in zip(f.hits, [l[1:].split('Y') for l in body.split('\n') if l.startswith('X')]):
        S.check('position', S.and_(S.near(h.position[0], value(S, x, f.format, f.zeros), 1e-9), S.near(h.position[1], value(S, y, f.format, f.zeros), 1e-9)))
    if how == 'read':
        S.check('by name', E.detect_excellon_format(filename=S.path('x.drl')) == E.detect_excellon_format(text))


@spec('C22', functions=['gerber.excellon.loads', 'gerber.excellon.ExcellonParser.__init__'], params=['leading', 'trailing'], n=40)
def given(S, zeros):
    """Settings that the caller gives are used instead of detection, for all that the file does not declare."""
    fmt, units = S.choice('format', [(2, 4), (3, 3), (4, 4)]), S.choice('units', ['inch', 'metric'])
    x = S.digits('x', 5)
    f = E.loads(S.concat('M48\nT1C0.5\n%\nT1\nX', x, 'Y0\nM30\n'), settings=E.FileSettings(zeros=zeros, format=fmt, units=units))
    S.check('settings', (f.units, f.zeros, f.format) == (units, zeros, fmt))
    S.check('position', S.near(f.hits[0].position[0], value(S, x, fmt, zeros), 1e-9))
