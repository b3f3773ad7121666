"""C17: drill files rendered to Excellon."""
from engine.reg import spec
import gerber.excellon_statements as ES
import gerber.primitives as P
from gerber.cam import FileSettings
from gerber.excellon import ExcellonParser, ExcellonFile, DrillHit, DrillSlot
from gerber.render.excellon_backend import ExcellonContext

E = 'gerber.render.excellon_backend.ExcellonContext.'
FNS = [E + '_render_drill', E + '_render_slot', E + '_start_drill_mode', E + '_simplify_point', 'gerber.render.render.GerberContext.render', 'gerber.excellon.ExcellonFile.primitives']
TOL = 0.51e-4


def grid(S, n):
    return S.div(S.int_of(S.digits(n, 1)), S.num(10))


def settings(S, units=None):
    return FileSettings(units=units or S.choice('units', ['inch', 'metric']), zeros=S.choice('zeros', ['leading', 'trailing']), format=(2, 4), notation='absolute')


def the_file(s, *hits):
    return ExcellonFile([], {h.tool.number: h.tool for h in hits}, list(hits), s)


def thing(S, kind, tool, start, end):
    if kind == 'hole':
        return DrillHit(tool, end)
    return DrillSlot(tool, start, end, DrillSlot.TYPE_ROUT if kind == 'rout' else DrillSlot.TYPE_G85)


def same_hit(S, a, b):
    S.check('kind', type(a) is type(b) and a.tool.number == b.tool.number)
    if isinstance(a, DrillHit):
        return S.check('hole', S.and_(S.near(a.position[0], b.position[0], TOL), S.near(a.position[1], b.position[1], TOL)))
    S.check('slot type', a.slot_type == b.slot_type)
    for p, q in ((a.start, b.start), (a.end, b.end)):
        S.check('slot', S.and_(S.near(p[0], q[0], TOL), S.near(p[1], q[1], TOL)))


def consistent(S, ctx, p):
    """What the context assumes of the machine that reads its text."""
    slot = ctx.drill_mode == ExcellonContext.MODE_SLOT
    S.check('mode', p.state in ('ROUT', 'LINEAR') if slot else p.state == 'DRILL')
    S.check('tool down', p.drill_down == ctx.drill_down)
    S.check('tool', (p.active_tool.number if p.active_tool else None) == (ctx.cur_tool.number if ctx.cur_tool else None))
    S.check('position', S.and_(*[S.near(ctx._pos[k], p.pos[k], TOL) for k in (0, 1)]))


@spec('C17', functions=FNS, params=[(m, k, w) for m in ('drill', 'slot', 'slot down') for k in ('hole', 'g85', 'rout') for w in ('x', 'xy', 'y', 'here')], n=60)
def step(S, mkw):
    """Whatever was rendered before, a hole or slot is written so that the machine makes it, with its tool, and nothing else."""
    mode, kind, where = mkw
    s = settings(S, 'metric')
    tools = {k: ES.ExcellonTool(s, number=k, diameter=0.25 * k) for k in (1, 2)}
    ctx = ExcellonContext(s)
    at = (grid(S, 'px'), 1.5)
    ctx._pos = at
    ctx.cur_tool = tools[S.choice('tool before', [1, 2])]
    ctx.handled_tools = set(tools)
    ctx.drill_mode = ExcellonContext.MODE_DRILL if mode == 'drill' else ExcellonContext.MODE_SLOT
    ctx.drill_down = mode == 'slot down'
    m = ExcellonParser(s)
    m.state = 'DRILL' if mode == 'drill' else S.choice('state', ['ROUT', 'LINEAR'])
    m.drill_down = ctx.drill_down
    m.tools = dict(tools)
    m.active_tool = tools[ctx.cur_tool.number]
    m.pos = list(at)
    u, v = grid(S, 'u'), S.real('v', -9, 9)
    start = {'x': (u, 1.5), 'xy': (u, 2.5), 'y': (at[0], u), 'here': at}[where]
    end = {'x': (v, 1.5), 'xy': (v, 3.5), 'y': (at[0], v), 'here': start}[where]
    h = thing(S, kind, tools[S.choice('tool', [1, 2])], start, end)
    k = len(ctx.body)
    header = list(ctx.header)
    ctx.render(the_file(s, h).primitives[0])
    m.parse_raw('\n'.join([st.to_excellon(s) for st in ctx.body[k:]]) + '\n')
    S.check('one hit', len(m.hits) == 1)
    same_hit(S, h, m.hits[0])
    consistent(S, ctx, m)
    S.check('tools are defined once', ctx.header == header)


@spec('C17', functions=FNS + [E + 'statements', E + '_start_header', E + '_start_comments', E + '_get_end', 'gerber.excellon_statements.ExcellonTool.from_tool'],
      params=[(a, b) for a in ('hole', 'g85', 'rout') for b in ('hole', 'g85', 'rout', 'again', None)], n=60)
def whole(S, ab):
    """The text of a rendered file, read with any settings, has its units, tools and hits."""
    a, b = ab
    if not b:
        S.explicit_digits()
    s = settings(S)
    tools = {k: ES.ExcellonTool(s, number=k, diameter=d) for k, d in ((3, 0.1 if b else S.div(S.int_of(S.digits('d', 2)), S.num(100))), (1, 0.125))}
    p, q = (S.real('x', -9, 9) if not b else grid(S, 'x'), 0.5), (1.25, grid(S, 'y'))
    hits = [thing(S, a, tools[3], p, q)]
    if b == 'again':
        hits.append(thing(S, a, tools[1], p, q))
    elif b:
        hits.append(thing(S, b, tools[S.choice('tool', [1, 3])], q, p))
    f = the_file(s, *hits)
    ctx = ExcellonContext(s)
    for o in f.primitives:
        ctx.render(o)
    text = '\n'.join([st.to_excellon(s) for st in ctx.statements]) + '\n'
    m = ExcellonParser(FileSettings(units='metric', zeros='leading', format=(3, 3)))
    g = m.parse_raw(text)
    S.check('settings', (g.units, g.settings.zeros, g.settings.format, g.notation) == (s.units, s.zeros, s.format, 'absolute'))
    S.check('tools', set(g.tools) == set(f.tools) and all([S.decide(S.near(g.tools[n].diameter, f.tools[n].diameter, 1.1e-4)) for n in f.tools]))
    S.check('number of hits', len(g.hits) == len(hits))
    for u, v in zip(hits, g.hits):
        same_hit(S, u, v)
    S.check('tool up at the end', not m.drill_down and g.statements[-1].to_excellon() == 'M30')


@spec('C17', functions=[E + 'statements', E + '_render_drill', 'gerber.excellon_statements.ExcellonTool.from_tool', 'gerber.excellon_statements.ExcellonTool.to_excellon'],
      params=['retract_rate', 'feed_rate', 'max_hit_count', 'rpm', 'depth_offset'], n=60)
def tool_parameters(S, given):
    """The tools of the text have the parameters that those of the file have, and no others."""
    s = settings(S)
    v = S.div(S.int_of(S.digits('v', 2)), S.num(10))
    t = ES.ExcellonTool(s, number=3, diameter=0.25, **{given: 1000 * v if given == 'rpm' else v})
    ctx = ExcellonContext(s)
    for o in the_file(s, DrillHit(t, (1.5, 2.5)), DrillHit(t, (2.5, 0.5))).primitives:
        ctx.render(o)
    g = ExcellonParser(s).parse_raw('\n'.join([st.to_excellon(s) for st in ctx.statements]) + '\n')
    S.check('tools', sorted(g.tools) == [3] and len(g.hits) == 2)
    for f in ('retract_rate', 'feed_rate', 'max_hit_count', 'rpm', 'depth_offset', 'diameter'):
        a, b = getattr(t, f), getattr(g.tools[3], f)
        S.check(f, b is None if a is None else b is not None and S.decide(S.near(a, b, 1e-6)))


@spec('C17', functions=[E + '_start_header'], n=4)
def incremental_refused(S, p):
    """Incremental files are refused, not written wrongly."""
    try:
        ExcellonContext(FileSettings(notation='incremental'))
        S.check('refused', False)
    except NotImplementedError:
        S.check('refused', True)
