"""C12: evaluation of aperture macros: arithmetic, variables, modifiers, comments."""
from engine.reg import spec
from gerber.am_read import read_macro
from gerber.am_eval import eval_macro
from gerber.gerber_statements import AMParamStmt
import gerber.am_statements as AS

FNS = ['gerber.am_read.read_macro', 'gerber.am_eval.eval_macro', 'gerber.am_read.Scanner.readint', 'gerber.am_read.Scanner.readfloat',
       'gerber.am_read.precedence', 'gerber.am_read.token_to_opcode']


def trees(ops):
    """All expression shapes with the given number of binary operators."""
    if ops == 0:
        return ['.']
    return [(l, r) for k in range(ops) for l in trees(k) for r in trees(ops - 1 - k)]


class Expr(object):
    """The text of an expression over given operators, arbitrary numbers and variables, and its value.

    ops: operators, left to right in the tree; negated: node (by number) that is negated, or -1;
    leaves: kind of each leaf in turn."""
    def __init__(self, S, values, ops, negated=-1, leaves='dv', extra=-1):
        self.S, self.values, self.ops, self.negated, self.leaves, self.extra = S, values, list(ops), negated, leaves, extra
        self.node = self.leafs = 0

    def leaf(self):
        S, n = self.S, self.leafs
        self.leafs += 1
        k = self.leaves[n % len(self.leaves)]
        if k in self.values:
            return '$%d' % k, self.values[k]
        d = S.digits('leaf%d' % n, 1)
        t = {'d': S.concat(d), 'f': S.concat('0', d, '.', S.digits('frac%d' % n, 1), '5'), 'p': S.concat('.', d), 'e': S.concat(d, '.')}[k]
        return t, S.float_of(t)

    def make(self, tree):
        me, self.node = self.node, self.node + 1
        if tree == '.':
            t, v = self.leaf()
            p = 9
        else:
            S = self.S
            lt, lv, lp = self.make(tree[0])
            op = self.ops.pop(0)
            rt, rv, rp = self.make(tree[1])
            p = 1 if op in '+-' else 2
            if lp < p:
                lt = '(' + lt + ')'
            if rp <= p:
                rt = '(' + rt + ')'
            if op == '+':
                v = lv + rv
            elif op == '-':
                v = lv - rv
            elif op == '/':
                S.assume(S.or_(S.gt(rv, 0.001), S.lt(rv, -0.001)))
                v = lv / rv
            else:
                v = lv * rv
            t = lt + op + rt
        if me == self.negated:
            t, v, p = '-' + (t if p == 9 else '(' + t + ')'), -v, 3
        if me == self.extra:
            t, p = '(' + t + ')', 9
        return t, v, p


def variables(S, n=2):
    S.lazy_numbers()
    return dict((i, S.real('v%d' % i, -100, 100)) for i in range(1, n + 1))


def fields(S, text):
    """Code and values of an evaluated primitive."""
    parts = text.split(',')
    return S.int_of(parts[0]), [S.float_of(p) for p in parts[1:]]


def evaluate(macro, params):
    return list(eval_macro(read_macro(macro), params))


def values(S, label, text, code, want):
    c, got = fields(S, text)
    S.check(label + ': code', S.eq(c, code))
    S.check(label + ': count', len(got) == len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        S.check(label + ': value', S.eq(a, b))


@spec('C12', functions=FNS, params=['first', 'last', 'assigned'], n=200)
def expressions(S, pos):
    """An expression of at most one operator has its arithmetic value, as modifier or assigned, with every form of operand."""
    v = variables(S)
    tree, ops = S.choice('op', [('.', ''), (('.', '.'), '+'), (('.', '.'), '-'), (('.', '.'), 'x'), (('.', '.'), 'X'), (('.', '.'), '/')])
    leaves = [S.choice('left', ['d', 'f', 'p', 'e', 1]), S.choice('right', ['d', 'f', 1, 2]) if ops else 'd']
    neg = S.choice('negated', [-1, 0, 1, 2] if ops else [-1, 0])
    t, want, _ = Expr(S, v, ops, neg, leaves, S.choice('extra', [-1, 0, 1, 2] if ops else [-1, 0])).make(tree)
    params = [v[1], v[2]]
    if pos == 'first':
        got, want = evaluate('1,' + t + ',7*', params), [want, 7]
    elif pos == 'last':
        got, want = evaluate('1,7,' + t + S.choice('end', ['*', '']), params), [7, want]
    else:
        got, want = evaluate('$3=' + t + '*1,$3,7*', params), [want, 7]
    S.check('one primitive', len(got) == 1)
    values(S, 'primitive', got[0], 1, want)


@spec('C12', functions=FNS, params=lambda tier: [t for k in ((2, 3) if tier == 'quick' else (2, 3, 4)) for t in trees(k)], n=300, wall_s=300)
def nested_expressions(S, tree):
    """Precedence, left association, parentheses and signs in expressions of several operators, in every combination."""
    count = str(tree).count('.') - 1
    v = variables(S, 1)
    ops = [S.choice('op%d' % i, '+-x/') for i in range(count)]
    neg = S.choice('negated', range(-1, 2 * count + 1)) if count < 4 else -1
    t, want, _ = Expr(S, v, ops, neg, S.choice('leaves', [['d', 1], [1, 'd']] if count < 3 else [['d', 1]])).make(tree)
    got = evaluate('21,' + t + '*', [v[1]])
    values(S, 'primitive', got[0], 21, [want])


LAYOUT = ['', ' ', '\n']


@spec('C12', functions=FNS, n=200)
def assignments(S, p):
    """A variable keeps the last value assigned before its use; unassigned ones count as zero; positions are 1-based."""
    v = variables(S, 3)
    n = S.choice('given', [0, 1, 3])
    params = [v[i] for i in range(1, n + 1)]
    given = lambda i: v[i] if i <= n else 0
    a, b = S.digits('a', 1), S.digits('b', 1)
    k = S.choice('k', [1, 2, 4, 12])
    w = S.choice('w', LAYOUT)
    macro = w + '$%d' % k + w + '=' + w + '$1+' + a + '*1,$%d,$2*' % k + w + '$%d=$%d-' % (k, k) + b + '*' + w + '5,$%d,$1,$3,$9*' % k
    got = evaluate(macro, params)
    S.check('two primitives', len(got) == 2)
    first = given(1) + S.float_of(a)
    second = first - S.float_of(b)
    at = lambda i, new: new if i == k else given(i)
    values(S, 'first', got[0], 1, [first, at(2, first)])
    values(S, 'second', got[1], 5, [second, at(1, second), at(3, given(3)), 0])


@spec('C12', functions=FNS, params=['list', 'dict'], n=60)
def evaluations_independent(S, kind):
    """Evaluating a macro changes neither its instructions nor the caller's values; each evaluation stands alone."""
    prog = read_macro('$2=$1x2*1,$2,$3*$3=5*')
    keep = list(prog)
    v = variables(S, 2)
    w = S.real('w', -100, 100)
    one = [v[1], v[2]] if kind == 'list' else {1: v[1], 2: v[2]}
    two = [w] if kind == 'list' else {1: w}
    a = list(eval_macro(prog, one))
    b = list(eval_macro(prog, two))
    c = list(eval_macro(prog)) if S.flag('none') else list(eval_macro(prog, {}))
    S.check('instructions kept', prog == keep)
    S.check('values kept', (len(one) == 2 and S.eq(one[0], v[1]) and S.eq(one[1], v[2])) if kind == 'list' else sorted(one) == [1, 2])
    if kind == 'dict':
        S.check('values kept', S.and_(S.eq(one[1], v[1]), S.eq(one[2], v[2])))
        S.check('values kept', sorted(two) == [1])
    values(S, 'first', a[0], 1, [v[1] * 2, 0])
    values(S, 'second', b[0], 1, [w * 2, 0])
    values(S, 'third', c[0], 1, [0, 0])


@spec('C12', functions=FNS, n=100)
def comments(S, p):
    """Comments are kept as text whatever they contain, and change no primitive."""
    c = S.text('c', 3, alphabet='$=,-+x(1 a0')
    S.assume(S.not_(S.or_(S.eq(c[0], ' '), S.eq(c[2], ' '))))
    w = S.choice('w', LAYOUT)
    got = evaluate('1,$1,2*' + w + '0 ' + c + '*' + w + '1,$2,3*', [4, 6])
    S.check('three', len(got) == 3)
    values(S, 'before', got[0], 1, [4, 2])
    S.check('comment', S.eq(got[1], '0,' + c))
    values(S, 'after', got[2], 1, [6, 3])


KINDS = [('1,1,$1,0,0', AS.AMCirclePrimitive), ('2,1,$1,0,0,1,1,0', AS.AMVectorLinePrimitive), ('20,1,$1,0,0,1,1,0', AS.AMVectorLinePrimitive),
         ('21,1,$1,1,0,0,0', AS.AMCenterLinePrimitive), ('22,1,$1,1,0,0,0', AS.AMLowerLeftLinePrimitive),
         ('4,1,3,0,0,$1,0,1,1,0,0,0', AS.AMOutlinePrimitive), ('5,1,6,0,0,$1,0', AS.AMPolygonPrimitive),
         ('6,0,0,$1,0.1,0.1,2,0.1,1,0', AS.AMMoirePrimitive), ('7,0,0,$1,0.01,0.001,0', AS.AMThermalPrimitive),
         ('0 note', AS.AMCommentPrimitive), ('9,1', AS.AMUnsupportPrimitive), ('10,1', None)]


@spec('C12', functions=['gerber.gerber_statements.AMParamStmt.build'], params=range(len(KINDS) - 1), n=40)
def primitives_by_code(S, k):
    """Each evaluated primitive becomes the object of its code, in order, and again for every set of modifiers."""
    st = AMParamStmt('AM', 'M', KINDS[k][0] + '*' + '1,1,$1,0,$2*')
    st.units = S.choice('u', ['inch', 'metric'])
    a, b, y = S.real('a', 1, 9), S.real('b', 1, 9), S.real('y', -9, 9)
    for d in (a, b):
        group = st.build([[d, y]])
        S.check('kinds', [type(p) for p in st.primitives] == [KINDS[k][1], AS.AMCirclePrimitive])
        S.check('last', S.and_(S.eq(st.primitives[1].diameter, d), S.eq(st.primitives[1].position[1], y)))
        S.check('units', group.units == st.units)
        S.check('statement', group.stmt.name == st.name and group.stmt.macro == st.macro and list(group.stmt.primitives) == list(st.primitives))
