"""C25: operations on files give changed copies, as the file's own methods would change it, and leave the file alone."""
from engine.reg import spec
import gerber.operations as O
import gerber.rs274x as G
import gerber.excellon as E
import gerber.ipc356 as I

F = 'gerber.operations.'


def gerber(S, units, x, y):
    return S.concat('%FSLAX24Y24*%\n%MO', 'IN' if units == 'inch' else 'MM', '*%\n%AMBOX*21,1,$1,$2,0,0,0*%\n%ADD10C,0.5X0.25*%\n%ADD11BOX,1.5X2.5*%\n',
                    'D10*\nX', x, 'Y', y, 'D02*\nX100000Y5000D01*\nG75*\nG03X100000Y5000I5000J0D01*\nD11*\nX', x, 'Y0D03*\n',
                    'G36*\nX0Y0D02*\nG01X', y, 'Y0D01*\nX0Y10000D01*\nX0Y0D01*\nG37*\nM02*\n')


def drill(S, units, x, y):
    return S.concat('M48\n', 'INCH,TZ' if units == 'inch' else 'METRIC,TZ', '\n;FILE_FORMAT=2:4\nT1C0.5\nT2C1.25\n%\nT1\nX', x, 'Y', y, '\nR3X5000Y1000\nT2\nX', y, 'Y0G85X', x, 'Y10000\n',
                    'G00X1000Y', y, '\nM15\nG01X', x, 'Y2000\nM16\nM30\n')


def load(text, kind):
    return (G if kind == 'gerber' else E).loads(text)


def shape(p):
    """What can be seen of a primitive."""
    got = [type(p).__name__, p.units]
    for k in ('position', 'start', 'end', 'center', 'diameter', 'width', 'height', 'hole_diameter'):
        if hasattr(p, k):
            got.append(getattr(p, k))
    for k in ('aperture', 'hit'):
        if getattr(p, k, None) is not None and hasattr(getattr(p, k), 'units'):
            got.append(shape(getattr(p, k)))
    if hasattr(p, 'primitives'):
        got.append([shape(q) for q in p.primitives])
    return got


def values(o):
    """What a statement says."""
    got = [type(o).__name__]
    for k, v in sorted(vars(o).items()):
        if k == 'id':
            continue
        if isinstance(v, (list, tuple)):
            got.append([values(x) if hasattr(x, '__dict__') else x for x in v])
        elif not hasattr(v, '__dict__'):
            got.append(v)
    return got


def view(f, kind):
    """What can be seen of a file."""
    got = [f.units, f.notation, f.zeros, f.format, f.filename, [shape(p) for p in f.primitives], [values(s) for s in f.statements]]
    if kind == 'gerber':
        got.append([(d, shape(a)) for d, a in sorted(f.apertures.items())] if isinstance(f.apertures, dict) else [shape(a) for a in f.apertures])
    else:
        got.append([(n, t.number, t.diameter, t.settings.units, t.hit_count) for n, t in sorted(f.tools.items())])
        got.append([(type(h).__name__, h.tool.number, h.tool.diameter, getattr(h, 'position', None), getattr(h, 'start', None), getattr(h, 'end', None)) for h in f.hits])
    return got


def same(S, a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and S.and_(True, True, *[same(S, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    return S.eq(a, b)


def mutable(o, seen, out, depth=0):
    """The objects of the file that could be changed."""
    if id(o) in seen or depth > 12:
        return
    seen.add(id(o))
    if isinstance(o, (list, tuple)):
        items = list(o)
    elif isinstance(o, dict):
        items = list(o.values())
    elif type(o).__module__.startswith('gerber.') and hasattr(o, '__dict__'):
        items = list(vars(o).values())
    else:
        return
    if not isinstance(o, tuple) and not isinstance(o, type):
        out.append(o)
    for x in items:
        mutable(x, seen, out, depth + 1)


def objects(f):
    out = []
    mutable(f, set(), out)
    return out


def act(S, op, f, by):
    """The copy that the operation gives."""
    return {'to_inch': O.to_inch, 'to_metric': O.to_metric}[op](f) if op != 'offset' else O.offset(f, *by)


def in_place(op, f, by):
    if op == 'offset':
        f.offset(*by)
    else:
        getattr(f, op)()
    return f


@spec('C25', functions=[F + 'to_inch', F + 'to_metric', F + 'offset', 'gerber.rs274x.GerberFile.to_inch', 'gerber.rs274x.GerberFile.to_metric', 'gerber.rs274x.GerberFile.offset',
                        'gerber.excellon.ExcellonFile.to_inch', 'gerber.excellon.ExcellonFile.to_metric', 'gerber.excellon.ExcellonFile.offset'],
      params=[(k, u, op) for k in ('gerber', 'drill') for u in ('inch', 'metric') for op in ('to_inch', 'to_metric', 'offset')], n=20)
def operation(S, kuo):
    """The operation gives a copy changed as the method of that name changes the file itself, and the file keeps everything."""
    kind, units, op = kuo
    text = (gerber if kind == 'gerber' else drill)(S, units, S.digits('x', 4), S.digits('y', 4))
    f = load(text, kind)
    by = (S.real('dx', -5, 5), S.real('dy', -5, 5))
    before = view(f, kind)
    g = act(S, op, f, by)
    S.check('a copy', g is not f and type(g) is type(f))
    S.check('file kept', same(S, before, view(f, kind)))
    changed = view(g, kind)
    S.check('changed as by the method', same(S, changed, view(in_place(op, load(text, kind), by), kind)))
    S.check('nothing shared', not {id(o) for o in objects(f)} & {id(o) for o in objects(g)})
    in_place(S.choice('then', ['to_inch', 'to_metric', 'offset']), f, (1, 1))
    S.check('copy kept', same(S, changed, view(g, kind)))


@spec('C25', functions=[F + 'to_inch', F + 'to_metric', F + 'offset', 'gerber.rs274x.GerberFile.write', 'gerber.excellon.ExcellonFile.write'], params=[(k, u) for k in ('gerber', 'drill') for u in ('inch', 'metric')], scope='two operations', n=20)
def sequence(S, ku):
    """Operations on copies follow each other like the methods do, and what the last copy writes is what the changed file would write."""
    kind, units = ku
    text = (gerber if kind == 'gerber' else drill)(S, units, S.choice('x', ['0', '05080', '999']), S.choice('y', ['0254', '40']))
    f = load(text, kind)
    before = view(f, kind)
    ops = [S.choice('op%d' % k, ['to_inch', 'to_metric', 'offset']) for k in range(2)]
    by = [(S.choice('d', [1, -0.5]), 0.25), (0, 2)]
    g = act(S, ops[1], act(S, ops[0], f, by[0]), by[1])
    want = in_place(ops[1], in_place(ops[0], load(text, kind), by[0]), by[1])
    S.check('changed as by the methods', same(S, view(g, kind), view(want, kind)))
    S.check('file kept', same(S, before, view(f, kind)))
    pair = []
    for h, name in ((g, 'a.txt'), (want, 'b.txt')):
        path = S.path(name, '')
        h.write(path)
        pair.append(S.written(path))
    S.check('written', len(pair[0]) == len(pair[1]) and all(S.exact(a, b) for a, b in zip(*pair)))
