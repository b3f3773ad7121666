"""C20: kinds of layers and their order in the board."""
from engine.reg import spec
import gerber.layers as L
import gerber.pcb as P
import gerber.common as common
from gerber.excellon import ExcellonFile
from gerber.ipc356 import IPCNetlist
from gerber.rs274x import GerberFile

M = 'gerber.layers.'
# extensions and names of the common tools (Protel/Altium, Eagle, OrCAD, PADS, KiCad)
EXT = {'top': ['gtl', 'cmp', 'top'], 'bottom': ['gbl', 'sld', 'bot', 'sol', 'bottom'],
       'internal': ['in', 'gt1', 'gt2', 'gt6', 'g1', 'g2', 'g3', 'g4', 'g5', 'g6'],
       'topsilk': ['gto', 'sst', 'plc', 'ts', 'skt', 'topsilk'], 'bottomsilk': ['gbo', 'ssb', 'pls', 'bs', 'skb', 'bottomsilk'],
       'topmask': ['gts', 'stc', 'tmk', 'smt', 'tr', 'topmask'], 'bottommask': ['gbs', 'sts', 'bmk', 'smb', 'br', 'bottommask'],
       'toppaste': ['gtp', 'tm', 'toppaste'], 'bottompaste': ['gbp', 'bm', 'bottompaste'],
       'outline': ['gko', 'outline'], 'ipc_netlist': ['ipc'], 'drawing': ['fab'], 'unknown': ['', 'txt', 'drl', 'gbr', 'gt', 'gtlx', 'xgtl', 'l']}
NAME = {'top': ['top', 'F.Cu', 'F_Cu', 'art01', 'layer1', 'soldcom'], 'bottom': ['bottom', 'bot', 'B.Cu', 'art02', 'layer2', 'soldsold'],
        'internal': ['In1.Cu', 'In4_Cu', 'internal', 'gnd', 'pwr'], 'topsilk': ['silk', 'topsilk', 'F.SilkS', 'sst01'], 'bottomsilk': ['bsilk', 'botsilk', 'bottomsilk', 'B.SilkS', 'ssb'],
        'topmask': ['topmask', 'cmask', 'F.Mask', 'sm01', 'mst'], 'bottommask': ['botmask', 'bottommask', 'B_Mask', 'msb', 'sm'],
        'toppaste': ['toppaste', 'F.Paste', 'pst'], 'bottompaste': ['botpaste', 'bottompaste', 'B.Paste', 'psb'],
        'outline': ['outline', 'border', 'Edge.Cuts', 'Edge_Cuts'], 'drawing': ['assembly', 'fab'], 'unknown': ['xtop', 'topx', 'Cu', 'netlist', 'drill']}
CASES = {'lower': lambda s: s.lower(), 'upper': lambda s: s.upper(), 'as is': lambda s: s}


def board(S, n=2):
    """A board name that is no hint at a kind of layer."""
    return S.text('board', n, alphabet='qxzQXZ7_')


@spec('C20', functions=[M + 'guess_layer_class', M + 'guess_layer_class_by_content'], params=sorted(EXT), n=40)
def extensions(S, kind):
    """The extension of a file gives its kind in any case, whatever the board's name and the directory."""
    ext = S.choice('ext', EXT[kind])
    case = S.choice('case', sorted(CASES))
    where = S.choice('where', ['', 'old.gtl', 'B.Cu', 'outline'])
    name = S.concat(board(S), '.' if ext else '', CASES[case](ext))
    path = S.path(S.concat(where, '/' if where else '', name))
    S.check('kind', L.guess_layer_class(path) == kind)
    S.check('kind without directory', L.guess_layer_class(name) == kind)


@spec('C20', functions=[M + 'guess_layer_class'], params=sorted(NAME), n=40)
def names(S, kind):
    """A usual name of a layer gives its kind, alone or next to a board name, in any case."""
    hint = CASES[S.choice('case', sorted(CASES))](S.choice('name', NAME[kind]))
    b = board(S, 1)
    place = S.choice('place', ['alone', 'after', 'after dot', 'before'])
    name = {'alone': lambda: hint, 'after': lambda: S.concat(b, '-', hint), 'after dot': lambda: S.concat(b, '.', hint), 'before': lambda: S.concat(hint, '-', b)}[place]()
    ext = S.choice('ext', ['.gbr', '.GER'] if '.' in hint or place == 'after dot' else ['.gbr', '.pho', '.GER', ''])
    S.check('kind', L.guess_layer_class(S.concat(name, ext)) == kind)


STACK = ['outline', 'toppaste', 'topsilk', 'topmask', 'top', 'internal', 'bottom', 'bottommask', 'bottomsilk', 'bottompaste']
KINDS = STACK + ['drill', 'drawing']
SIDES = [['top', 'bottom'], ['top'], ['bottom']]


class Source(object):
    filename = None

    def __init__(self, n):
        self.primitives = [n]
        self.bounds = ((n, n), (n, n))


def layer(S, i, kinds):
    k = S.choice('kind%d' % i, kinds)
    if k == 'internal':
        return L.InternalLayer('x', Source(i), S.int('order%d' % i, 0, 9))
    if k == 'drill':
        return L.DrillLayer('x', Source(i))
    return L.PCBLayer('x', k, Source(i))


def stacked(S, got, layers, from_top=True):
    """Do the layers stand in the order of the board, with equal ones as given?"""
    place = dict((k, i if from_top else -i) for i, k in enumerate(STACK))
    place.update(drill=20, drawing=21)
    ok = [len(got) == len(layers), all(any(g is l for l in layers) for g in got), all(any(g is l for g in got) for l in layers)]
    at = dict((id(l), i) for i, l in enumerate(layers))
    for a, b in zip(got, got[1:]):
        pa, pb = place[a.layer_class], place[b.layer_class]
        ok.append(pa <= pb)
        if pa == pb and a.layer_class == 'internal':
            ok.append(S.le(a.order, b.order) if from_top else S.ge(a.order, b.order))
            if from_top:
                ok.append(S.or_(S.lt(a.order, b.order), at[id(a)] < at[id(b)]))
        elif pa == pb and (from_top or pa >= 20):
            ok.append(at[id(a)] < at[id(b)])
    return S.and_(*ok)


@spec('C20', functions=[M + 'sort_layers', M + 'InternalLayer.__lt__', M + 'InternalLayer.__init__', M + 'DrillLayer.__init__', M + 'PCBLayer.__init__', 'gerber.pcb.PCB.__init__'],
      params=[(k, t) for k in KINDS for t in (True, False)], scope='boards of up to three layers', n=60)
def order(S, kt):
    """Layers come in the order of the board, internal ones by number, seen from either side; drills and drawings come last."""
    kind, from_top = kt
    layers = [layer(S, 0, [kind])] + [layer(S, i, KINDS) for i in range(1, S.choice('n', [1, 2, 3]))]
    S.check('order', stacked(S, L.sort_layers(layers, from_top), layers, from_top))
    S.check('order of the board', stacked(S, P.PCB(layers).layers, layers))


@spec('C20', functions=[M + 'sort_layers', M + 'InternalLayer.__lt__'], params=[True, False], scope='boards of four internal layers', n=40)
def internals(S, from_top):
    """Internal layers come in the order of their numbers."""
    layers = [L.InternalLayer('x', Source(i), S.int('order%d' % i, 0, 99)) for i in range(4)]
    S.check('order', stacked(S, L.sort_layers(layers, from_top), layers, from_top))


@spec('C20', functions=[M + 'InternalLayer.' + f for f in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__')], n=20)
def comparison(S, q):
    """Internal layers compare as their numbers."""
    a, b = S.int('a', 0, 99), S.int('b', 0, 99)
    x, y = L.InternalLayer('x', None, a), L.InternalLayer('y', None, b)
    S.check('compare', S.and_(S.eq(x == y, S.eq(a, b)), S.eq(x != y, S.not_(S.eq(a, b))), S.eq(x < y, S.lt(a, b)), S.eq(x <= y, S.le(a, b)), S.eq(x > y, S.gt(a, b)), S.eq(x >= y, S.ge(a, b))))


@spec('C20', functions=['gerber.pcb.PCB.' + f for f in ('__init__', '__len__', 'top_layers', 'bottom_layers', 'drill_layers', 'copper_layers', 'outline_layer', 'layer_count', 'board_bounds')],
      params=KINDS, scope='boards of up to three layers', n=60)
def views(S, first):
    """The layers of a board by side and by kind are its own layers of these kinds in the order they are drawn."""
    layers = [layer(S, 0, [first])] + [layer(S, i, KINDS) for i in range(1, 3)][:S.choice('n', [0, 1, 2])]
    for l in layers:
        if l.layer_class == 'drill':
            l.layers = S.choice('sides%d' % l.primitives[0], SIDES)
    b = P.PCB(layers, 'name')
    ids = lambda ls: [l.primitives[0] for l in ls]
    of = lambda *kinds: [l for l in b.layers if l.layer_class in kinds]
    S.check('count', len(b) == len(layers) and b.layer_count == len(of('top', 'bottom', 'internal')) and b.name == 'name')
    S.check('drills', ids(b.drill_layers) == ids(of('drill')))
    S.check('copper', ids(b.copper_layers) == ids(of('bottom')[::-1] + of('internal')[::-1] + of('top')[::-1]))
    for side, got in (('top', b.top_layers), ('bottom', b.bottom_layers)):
        copper, drills = of(side), [l for l in of('drill') if side in l.layers]
        rest = [of(side + 'mask'), of(side + 'silk')]
        S.check('same layers ' + side, sorted(ids(got)) == sorted(ids(copper + drills + rest[0] + rest[1])))
        where = dict((l.primitives[0], i) for i, l in enumerate(got))
        seq = [copper, drills] + rest if copper else rest
        S.check('from the copper outward ' + side, all(where[x.primitives[0]] < where[y.primitives[0]] for i, k in enumerate(seq) for x in k for n in seq[i + 1:] for y in n) or len(copper) > 1)
    out = of('outline')
    S.check('outline', b.outline_layer is (out[0] if out else None))
    bounded = (out + of('top'))[:1]
    S.check('bounds', b.board_bounds == (bounded[0].bounds if bounded else None))


@spec('C20', functions=[M + 'PCBLayer.from_cam', M + 'DrillLayer.from_cam', M + 'InternalLayer.from_cam', M + 'PCBLayer.bounds'], params=['gerber', 'excellon', 'netlist'], n=60)
def layer_of(S, fmt):
    """A file becomes a layer of its kind that shows the file's content; internal layers are numbered by their names."""
    k = S.choice('number', [1, 2])
    n = S.digits('n', k)
    name, kind = S.choice('name', [(S.concat('xy-In', n, '.Cu.gbr'), 'internal'), (S.concat('qx', n, '.gnd.ger'), 'internal'), ('qx.gtl', 'top'), ('qx.drl', 'unknown'), ('pwr.gbr', 'internal'), ('qx.bsilk.art', 'bottomsilk')])
    if kind == 'internal' and 'In' in name:
        S.assume(k == 1 and S.decide(S.and_(S.ge(S.int_of(n), 1), S.le(S.int_of(n), 4))))
    path = S.path(S.concat(S.choice('where', ['', 'v12/', 'g3/']), name))
    s = common.rs274x.FileSettings()
    cam = {'gerber': lambda: GerberFile([], s, [], {}), 'excellon': lambda: ExcellonFile([], {}, [], s), 'netlist': lambda: IPCNetlist([], s)}[fmt]()
    cam.filename = path
    l = L.PCBLayer.from_cam(cam)
    want = {'excellon': 'drill', 'netlist': 'internal' if kind == 'internal' else 'ipc_netlist'}.get(fmt, kind)
    S.check('kind', l.layer_class == want)
    S.check('content', l.cam_source is cam and l.filename == path and l.primitives == [])
    if want == 'drill':
        S.check('sides', l.layers == ['top', 'bottom'])
    if want == 'internal':
        S.check('number', S.eq(l.order, 0 if name == 'pwr.gbr' else S.int_of(n)))


GERBER = '%%FSLAX24Y24*%%\n%%MOIN*%%\n%%ADD10C,0.010*%%\nD10*\nX%dY0D03*\nM02*\n'
DRILL = 'M48\nINCH\nT1C0.02\n%%\nT1\nX0%dY01\nM30\n'
FILES = {'gtl': ('top', GERBER), 'gbs': ('bottommask', GERBER), 'gko': ('outline', GERBER), 'g3': ('internal', GERBER), 'drl': ('drill', DRILL), 'ipc': ('ipc_netlist', 'P  JOB x\nP  UNITS CUST 0\n317A                VIA         D0150PA01X 00%d000Y-012900\n999\n')}
FOREIGN = [('readme.txt', 'no layer\n'), ('.q.gtl', GERBER % 1), ('Thumbs.db', GERBER % 1), ('empty.gbl', '')]


@spec('C20', functions=['gerber.pcb.PCB.from_directory', 'gerber.utils.listdir', M + 'PCBLayer.from_cam', 'gerber.common.read', 'gerber.common.loads'], params=sorted(FILES), scope='directories of up to three files', n=60)
def directories(S, ext):
    """A directory becomes the board of its layer files; hidden files, system files and files of other kinds are left out."""
    b, named = S.choice('board', ['qx', 'my_board', 'rev1-top2', 'a.b']), S.flag('named')
    exts = [ext] + [e for e in (S.choice('more', ['', 'gtl', 'gbs', 'drl']),) if e and e != ext]
    paths = []
    for i, e in enumerate(exts):
        paths.append(S.path(S.concat('brd/', b, '.', e), FILES[e][1] % i))
    other = S.choice('other', [None] + FOREIGN)
    if other:
        S.path('brd/' + other[0], other[1])
    p = P.PCB.from_directory(S.path('brd'), *[x for x in ('given',) if named])
    order = ['outline', 'top', 'internal', 'bottommask', 'drill']
    want = sorted([(FILES[e][0], q) for e, q in zip(exts, paths) if e != 'ipc'], key=lambda x: order.index(x[0]))
    S.check('layers', [l.layer_class for l in p.layers] == [k for k, _ in want])
    S.check('files', S.and_(*[S.exact(l.filename, q) for l, (_, q) in zip(p.layers, want)]))
    S.check('content', all(len(l.primitives) == 1 for l in p.layers))
    S.check('name', S.exact(p.name, 'given' if named else b))
