"""C21: files are told apart by their content and read by the reader of their format."""
from engine.reg import spec
import gerber
import gerber.common as common
import gerber.utils as U
import gerber.rs274x as rs274x
import gerber.excellon as excellon
import gerber.ipc356 as ipc356
from gerber.exceptions import ParseError

MARK = {'rs274x': ['%FSLAX24Y24*%', '%MOIN*%%FSLAX24Y24*%', ' %FS'], 'excellon': ['M48', ' M48 ', 'M48;x'],
        'ipc_d_356': ['P  JOB', 'P JOB name', 'P  JOB x', ' P\tJOB\tx']}
OTHER = ['', 'G04 x*', '; x', 'P', 'P  UNITS CUST 0', 'C  JOB', 'P JOBS', 'PJOB', 'M4', 'FSLAX', 'x P JOB']


def expected(S, texts):
    """Format of lines of which at most the given texts are markers."""
    for t in texts:
        k = [f for f in MARK if t in MARK[f]]
        if k:
            return k[0]
    return 'unknown'


@spec('C21', functions=['gerber.utils.detect_file_format'], params=['\n', '\r\n'], n=60)
def first_marker(S, end):
    """The first line that only one format can have decides, whatever comes before and after."""
    lines = [S.choice('first', OTHER), S.choice('second', OTHER[:4] + MARK['rs274x'][:2] + MARK['excellon'] + MARK['ipc_d_356']),
             S.choice('third', ['', 'M48', '%FSLAX24Y24*%', 'P  JOB x'])]
    t = S.text('t', 2, exclude='')
    text = end.join([S.concat(';', t)] + lines)
    S.check('format', U.detect_file_format(text) == expected(S, lines))


@spec('C21', functions=['gerber.utils.detect_file_format'], params=[3, 4], n=60)
def short_line(S, n):
    """Any short line is a marker only if it holds the whole marker."""
    t = S.text('t', n)
    has = lambda m: S.or_(*[S.exact(t[i:i + len(m)], m) for i in range(n - len(m) + 1)])
    got = U.detect_file_format(S.concat('x\n', t, '\ny'))
    want = 'excellon' if S.decide(has('M48')) else 'rs274x' if S.decide(has('%FS')) else 'unknown'
    S.check('format', got == want)
    if want == 'unknown':
        try:
            gerber.loads(S.concat('x\n', t, '\ny'))
            S.check('refused', False)
        except ParseError:
            pass


@spec('C21', functions=['gerber.utils.detect_file_format'], params=[0, 1, 2], n=40)
def job_line(S, k):
    """A netlist is known by its job parameter, with any name and any blanks."""
    t = S.text('t', k, exclude='%M')
    text = S.concat('C  comment\n', S.choice('before', ['', ' ']), 'P', S.choice('gap', [' ', '  ', '\t']), 'JOB', ' ' if k else '', t)
    S.check('format', U.detect_file_format(text) == 'ipc_d_356')


GERBER = '%%FSLAX24Y24*%%\n%%MOIN*%%\n%%ADD10C,0.010*%%\nD10*\nX%sY0D03*\nM02*\n'
DRILL = 'M48\n;FILE_FORMAT=2:4\nINCH,LZ\nT1C0.02\n%%\nT1\nX%sY01\nM30\n'
NETLIST = 'P  JOB x\nP  UNITS CUST 0\n317A                VIA         D0150PA01X %sY-012900\n999\n'


@spec('C21', functions=['gerber.common.' + f for f in ('loads', 'read')] + ['gerber.rs274x.loads', 'gerber.excellon.loads', 'gerber.ipc356.loads', 'gerber.rs274x.read', 'gerber.excellon.read', 'gerber.ipc356.read'],
      params=[(f, e) for f in ('gerber', 'drill', 'netlist') for e in ('\n', '\r\n')], n=40)
def dispatch(S, fe):
    """Reading a file or its text gives what the reader of its format gives, from a file with either kind of line ends, and knows its name."""
    fmt, end = fe
    x = S.digits('x', 6)
    whole = {'gerber': GERBER, 'drill': DRILL, 'netlist': NETLIST}[fmt]
    a, b = whole.replace('%%', '%').split('%s')
    text = S.concat(a, x, b)
    reader = {'gerber': rs274x, 'drill': excellon, 'netlist': ipc356}[fmt]
    path = S.path('some.' + S.choice('ext', ['txt', 'gtl', 'drl', 'ipc']), S.concat(*[p + end for p in text.split('\n')]) if end != '\n' else text)
    named = S.flag('named')
    files = {'loads': lambda: gerber.loads(text, 'name') if named else gerber.loads(text), 'read': lambda: gerber.read(path),
             'own loads': lambda: reader.loads(text, filename='name') if named else reader.loads(text), 'own read': lambda: reader.read(path)}
    how = S.choice('how', sorted(files))
    f = files[how]()
    S.check('class', type(f) is {'gerber': rs274x.GerberFile, 'drill': excellon.ExcellonFile, 'netlist': ipc356.IPCNetlist}[fmt])
    S.check('name', f.filename == (path if 'read' in how else 'name' if named else None))
    v = S.int_of(x)
    if fmt == 'netlist':
        S.check('content', len(f.test_records) == 1 and S.near(f.test_records[0].x_coord, S.div(v, 10000), 1e-9))
    else:
        p = f.primitives
        S.check('content', len(p) == 1 and S.and_(S.near(p[0].position[0], S.div(v, 10000), 1e-9), f.units == 'inch'))
