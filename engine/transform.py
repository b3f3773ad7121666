"""Mechanical rewriting of /repo's source before it is executed symbolically.

Nothing is dropped: every statement of the module is kept, in order.  The rewrite
only routes operations through helpers so that symbolic operands are handled:

  float literal c            -> VT_K(c)            exact decimal rational
  a / b                      -> VT_div(a, b)
  a % b                      -> VT_mod(a, b)       (number modulo, or % formatting)
  a + b, a * b               -> VT_add / __mul     (only to reject unbounded lists mixing)
  a == b, != , in, not in    -> VT_eq / VT_ne / VT_in / __nin  (each side evaluated once, in order)
  obj.m(args)                -> VT_mcall(obj, 'm', args...)
  f(*xs)                     -> VT_star(f, args, xs...)   only for starred calls
  o[k] (load)                -> VT_get(o, k)
  o[k] = v, o.a = v          -> VT_set / __sa      (plain store + write log)
  [f(x) for x in s if c]     -> VT_comp(kind, s, lambda: ...)
  for x in s: ...            -> the same loop over VT_loop(s), with re-synchronised locals when
                                s is an unbounded list (loop invariant inference)
  f'{x}'                     -> VT_fstr(...)
Builtins (float, int, str, min, max, sum, len, ...), `math`, `re`, `copy` are replaced by
versions that accept symbolic values and defer to the originals otherwise (shadow.py).
"""
import ast


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def call(fn, *args, **kw):
    return ast.Call(func=name(fn), args=list(args), keywords=[])


class Names(ast.NodeVisitor):
    def __init__(self):
        self.stores, self.loads = [], []

    def visit_Name(self, n):
        (self.loads if isinstance(n.ctx, ast.Load) else self.stores).append(n.id)

    def visit_AugAssign(self, n):
        for x in ast.walk(n.target):
            if isinstance(x, ast.Name):
                self.loads.append(x.id)
                if x is n.target:
                    self.stores.append(x.id)
        self.visit(n.value)

    def visit_FunctionDef(self, n):
        self.stores.append(n.name)
        for d in n.args.defaults:
            self.visit(d)
        # free variables of nested functions count as loads
        sub = Names()
        for s in n.body:
            sub.visit(s)
        self.loads.extend(sub.loads)

    def visit_Lambda(self, n):
        self.visit(n.body)

    def visit_ListComp(self, n):
        sub = Names()
        sub.generic_visit(n)
        self.loads.extend(x for x in sub.loads)
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def stores_loads(nodes):
    v = Names()
    for n in nodes:
        v.visit(n)
    return v.stores, v.loads


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.func = []
        self.n = 0
        self.loopno = {}

    def fresh(self, base):
        self.n += 1
        return 'VT_%s_%d' % (base, self.n)

    # -- scopes
    def visit_FunctionDef(self, n):
        self.func.append(n)
        n.body = self.block(n.body)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.func.pop()
        return n

    def visit_ClassDef(self, n):
        self.func.append(None)
        n.body = self.block(n.body)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(b) for b in n.bases]
        self.func.pop()
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    # -- expressions
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(call('VT_K', ast.Constant(value=n.value)), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                spec = v.format_spec
                spec = self.visit(spec) if spec is not None else ast.Constant(value='')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return ast.copy_location(call('VT_fstr', *parts), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Div: 'VT_div', ast.Mod: 'VT_mod'}.get(type(n.op))
        if f:
            return ast.copy_location(call(f, n.left, n.right), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        special = (ast.Eq, ast.NotEq, ast.In, ast.NotIn)
        if not any(isinstance(o, special) for o in n.ops):
            return n
        fn = {ast.Eq: 'VT_eq', ast.NotEq: 'VT_ne', ast.In: 'VT_in', ast.NotIn: 'VT_nin'}
        if len(n.ops) == 1:
            return ast.copy_location(call(fn[type(n.ops[0])], n.left, n.comparators[0]), n)
        # chained: lambda-free expansion with temporaries (walrus)
        terms = []
        left = n.left
        for op, right in zip(n.ops, n.comparators):
            t = self.fresh('c')
            r = ast.NamedExpr(target=name(t, ast.Store()), value=right)
            if isinstance(op, special):
                terms.append(call(fn[type(op)], left, r))
            else:
                terms.append(ast.Compare(left=left, ops=[op], comparators=[r]))
            left = name(t)
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=terms), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        star = any(isinstance(a, ast.Starred) for a in n.args)
        if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'vars', 'globals'):
            return n
        if star:
            args = [ast.Tuple(elts=[ast.Constant(value=isinstance(a, ast.Starred)),
                                    a.value if isinstance(a, ast.Starred) else a], ctx=ast.Load())
                    for a in n.args]
            return ast.copy_location(ast.Call(func=name('VT_star'),
                                              args=[n.func, ast.List(elts=args, ctx=ast.Load())],
                                              keywords=n.keywords), n)
        if isinstance(n.func, ast.Attribute) and not (n.func.attr.startswith('__') and not n.func.attr.endswith('__')):
            return ast.copy_location(ast.Call(func=name('VT_mcall'),
                                              args=[n.func.value, ast.Constant(value=n.func.attr)] + n.args,
                                              keywords=n.keywords), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            sl = n.slice
            if isinstance(sl, ast.Slice):
                sl = call('slice', sl.lower or ast.Constant(value=None), sl.upper or ast.Constant(value=None),
                          sl.step or ast.Constant(value=None))
                sl.func = name('VT_slice')
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
                return n
            return ast.copy_location(call('VT_get', n.value, sl), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(call('VT_new', n), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.copy_location(call('VT_new', n), n)

    def _comp(self, kind, n):
        gens = n.generators
        first = gens[0]
        src = self.visit(first.iter)
        e = self.fresh('e')
        g0 = ast.comprehension(target=self.visit(first.target),
                               iter=ast.Tuple(elts=[name(e)], ctx=ast.Load()),
                               ifs=[self.visit(i) for i in first.ifs], is_async=0)
        rest = []
        for g in gens[1:]:
            rest.append(ast.comprehension(target=self.visit(g.target), iter=call('VT_citer', self.visit(g.iter)),
                                          ifs=[self.visit(i) for i in g.ifs], is_async=0))
        if kind == 'dict':
            elt = ast.Tuple(elts=[self.visit(n.key), self.visit(n.value)], ctx=ast.Load())
        else:
            elt = self.visit(n.elt)
        inner = ast.ListComp(elt=elt, generators=[g0] + rest)
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=e)], kwonlyargs=[], kw_defaults=[],
                                            defaults=[]), body=inner)
        return ast.copy_location(call('VT_comp', ast.Constant(value=kind), src, lam), n)

    def _comp_or_keep(self, kind, n):
        # inside a class body a lambda could not see class variables: keep as is there
        if self.func and self.func[-1] is None:
            return self.generic_visit(n)
        return self._comp(kind, n)

    def visit_ListComp(self, n):
        return self._comp_or_keep('list', n)

    def visit_SetComp(self, n):
        return self._comp_or_keep('set', n)

    def visit_GeneratorExp(self, n):
        return self._comp_or_keep('gen', n)

    def visit_DictComp(self, n):
        return self._comp_or_keep('dict', n)

    # -- statements
    def store(self, target, valname):
        """Statements storing Name(valname) into target (already visited value)."""
        if isinstance(target, ast.Attribute) and not (target.attr.startswith('__') and not target.attr.endswith('__')):
            return [ast.Expr(call('VT_sa', self.visit(target.value), ast.Constant(value=target.attr), name(valname)))]
        if isinstance(target, ast.Subscript) and not isinstance(target.slice, ast.Slice):
            return [ast.Expr(call('VT_set', self.visit(target.value), self.visit(target.slice), name(valname)))]
        return [ast.Assign(targets=[self.visit(target)], value=name(valname))]

    def needs(self, t):
        return any(isinstance(x, (ast.Attribute, ast.Subscript)) for x in ast.walk(t) if
                   isinstance(getattr(x, 'ctx', None), ast.Store))

    def visit_Assign(self, n):
        val = self.visit(n.value)
        if not any(self.needs(t) for t in n.targets) and not any(isinstance(t, (ast.Tuple, ast.List)) for t in n.targets):
            n.value = val
            return n
        v = self.fresh('v')
        out = [ast.Assign(targets=[name(v, ast.Store())], value=val)]
        for t in n.targets:
            out.extend(self.assign_to(t, v))
        for o in out:
            ast.copy_location(o, n)
        return out

    def assign_to(self, t, v):
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                return [ast.Assign(targets=[t], value=name(v))]
            parts = [self.fresh('u') for _ in t.elts]
            out = [ast.Assign(targets=[ast.Tuple(elts=[name(p, ast.Store()) for p in parts], ctx=ast.Store())],
                              value=call('VT_unpack', name(v), ast.Constant(value=len(parts))))]
            for p, x in zip(parts, t.elts):
                out.extend(self.assign_to(x, p))
            return out
        return self.store(t, v)

    def visit_AugAssign(self, n):
        load = ast.parse(ast.unparse(n.target), mode='eval').body
        pre = []
        tgt = n.target
        if isinstance(tgt, ast.Attribute) and not isinstance(tgt.value, ast.Name):
            o = self.fresh('o')
            pre.append(ast.Assign(targets=[name(o, ast.Store())], value=self.visit(tgt.value)))
            tgt = ast.Attribute(value=name(o), attr=tgt.attr, ctx=ast.Store())
            load = ast.Attribute(value=name(o), attr=tgt.attr, ctx=ast.Load())
        elif isinstance(tgt, ast.Subscript) and not isinstance(tgt.slice, ast.Slice):
            o, k = self.fresh('o'), self.fresh('k')
            pre.append(ast.Assign(targets=[name(o, ast.Store())], value=self.visit(tgt.value)))
            pre.append(ast.Assign(targets=[name(k, ast.Store())], value=self.visit(tgt.slice)))
            tgt = ast.Subscript(value=name(o), slice=name(k), ctx=ast.Store())
            load = ast.Subscript(value=name(o), slice=name(k), ctx=ast.Load())
        val = self.visit(n.value)
        load = self.visit(load)
        v = self.fresh('v')
        ops = {ast.Add: '+='}
        new = call('VT_aug', ast.Constant(value=type(n.op).__name__), load, val)
        out = pre + [ast.Assign(targets=[name(v, ast.Store())], value=new)] + self.store(tgt, v)
        for o in out:
            ast.copy_location(o, n)
        return out

    def visit_ExceptHandler(self, n):
        # a bare handler must not swallow the verifier's own control exceptions
        if n.type is None:
            n.type = name("Exception")
        else:
            n.type = self.visit(n.type)
        n.body = self.block(n.body)
        return n

    def visit_For(self, n):
        if not self.func or self.func[-1] is None:
            n.body = self.block(n.body)
            n.orelse = self.block(n.orelse) if n.orelse else []
            n.iter = self.visit(n.iter)
            return n
        fn = self.func[-1]
        # ordinal of this loop within its function (identifies it across runs)
        k = self.loopno.get(fn, 0)
        self.loopno[fn] = k + 1
        site = '%s:%s:%d' % (self.mod, fn.name, n.lineno)
        stores, loads = stores_loads(n.body)
        tstores, _ = stores_loads([n.target])
        outside = outside_loads(fn, n)
        carried = []
        for v in sorted(set(stores) | set(tstores)):
            if v in outside:
                carried.append(v)
                continue
            if v in tstores and v not in stores:
                continue
            if first_is_store(n.body, v):
                continue
            carried.append(v)
        carried = [v for v in carried if v not in global_names(fn)]
        L = self.fresh('L')
        it = self.visit(n.iter)
        tgt = n.target
        pre_body = []
        if self.needs(tgt) or isinstance(tgt, (ast.Tuple, ast.List)):
            t = self.fresh('t')
            pre_body = self.assign_to(tgt, t)
            tgt = name(t, ast.Store())
        body = self.block(n.body)
        orelse = self.block(n.orelse) if n.orelse else []

        def sync():
            ss = []
            for v in carried:
                ss.append(ast.If(test=ast.Call(func=ast.Attribute(value=name(L), attr='has', ctx=ast.Load()),
                                               args=[ast.Constant(value=v)], keywords=[]),
                                 body=[ast.Assign(targets=[name(v, ast.Store())],
                                                  value=ast.Call(func=ast.Attribute(value=name(L), attr='get', ctx=ast.Load()),
                                                                 args=[ast.Constant(value=v)], keywords=[]))],
                                 orelse=[]))
            if not ss:
                return []
            return [ast.If(test=ast.Attribute(value=name(L), attr='sync', ctx=ast.Load()), body=ss, orelse=[])]
        getters = ast.Dict(keys=[ast.Constant(value=v) for v in carried],
                           values=[ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                                                 kw_defaults=[], defaults=[]), body=name(v))
                                   for v in carried])
        pre = ast.Assign(targets=[name(L, ast.Store())],
                         value=call('VT_loop', ast.Constant(value=site), it, getters))
        loop = ast.For(target=tgt, iter=name(L), body=sync() + pre_body + body, orelse=sync() + orelse)
        fin = ast.Try(body=[loop], handlers=[], orelse=[], finalbody=[
            ast.Expr(ast.Call(func=ast.Attribute(value=name(L), attr='close', ctx=ast.Load()), args=[], keywords=[]))])
        for o in (pre, fin):
            ast.copy_location(o, n)
        return [pre, fin]


def global_names(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out.update(n.names)
    return out


def outside_loads(fn, loop):
    """Names loaded in fn outside the loop node."""
    out = set()

    class V(ast.NodeVisitor):
        def visit(self, n):
            if n is loop:
                _, l = stores_loads([])
                for x in [loop.iter] + loop.orelse:
                    self.visit(x)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                out.add(n.id)
            self.generic_visit(n)
    V().visit(fn)
    # the loop sits inside another loop: everything read in that loop may be read again
    return out


def first_is_store(body, v):
    """v is unconditionally assigned in the body before any read."""
    for s in body:
        st, ld = stores_loads([s])
        if v in ld:
            return False
        if v in st:
            return isinstance(s, (ast.Assign, ast.AnnAssign, ast.For)) and not isinstance(s, ast.For)
    return False


def transform(source, modname, filename):
    tree = ast.parse(source, filename)
    # undo annotations on assignment, keep everything else
    t = T(modname)
    tree.body = t.block(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')
