"""Abstract (unboundedly long) sequences and inferred loop invariants.

An AList is a sequence of segments; a segment is one element, or an arbitrary
number (0..n, unbounded) of elements each produced by a factory of arbitrary
("generic") elements.  The usual shape is  generic* ; witness ; generic* : a claim
proved about the witness holds for every element of every list of every length.

A `for` over an AList is verified by a loop invariant: Houdini-style candidates
relating every loop-assigned local and every heap attribute written in the body
to its value at loop entry (equal / not greater / not less) are established at
entry, preserved by one arbitrary iteration, and assumed afterwards.  Candidates
that are not preserved are dropped and the whole exploration restarts, so the
invariants that survive are inductive (each preservation is an obligation).
"""
import z3
from . import sym
from .sym import SNum, SBool, Unsupported, PathEnd, Restart, num, zb, mkbool


class Elem(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Gen(object):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class AList(object):
    """Abstract list."""

    def __init__(self, segs):
        self.segs = list(segs)

    def __iter__(self):
        raise Unsupported('native iteration over an unbounded list')

    def __len__(self):
        raise Unsupported('native len() of an unbounded list')

    def __bool__(self):
        if any(isinstance(s, Elem) for s in self.segs):
            return True
        if sym.cur().fork(2):
            return False
        # non-empty: materialise that some generic element exists
        self.segs.insert(1, Elem(self.segs[0].f()))
        self.segs.insert(2, Gen(self.segs[0].f))
        return True

    def length(self):
        if not any(isinstance(s, Gen) for s in self.segs):
            return len(self.segs)
        n = sym.fresh_int('len')
        sym.cur().axiom(n.zi >= len([s for s in self.segs if isinstance(s, Elem)]))
        return n

    def first(self, rev=False):
        segs = list(reversed(self.segs)) if rev else self.segs
        opts = []
        for s in segs:
            opts.append(s)
            if isinstance(s, Elem):
                break
        else:
            opts.append(None)
        s = opts[sym.cur().fork(len(opts))]
        if s is None:
            raise IndexError('list index out of range')
        return s.v if isinstance(s, Elem) else s.f()

    def __getitem__(self, i):
        if isinstance(i, SNum) and i.const:
            i = int(i.v)
        if i == 0:
            return self.first()
        if i == -1:
            return self.first(True)
        if isinstance(i, slice):
            if i.start in (None, 0) and i.stop is None and i.step in (None, 1):
                return AList(self.segs)
            if i.start is None and i.stop is None and i.step == -1:
                return AList(reversed(self.segs))
        raise Unsupported('index %r into an unbounded list' % (i,))

    def __add__(self, o):
        return AList(self.segs + as_segs(o))

    def __radd__(self, o):
        return AList(as_segs(o) + self.segs)

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported('comparing an unbounded list')

    __hash__ = None

    def append(self, v):
        self.segs.append(Elem(v))

    def extend(self, o):
        self.segs.extend(as_segs(o))

    def copy(self):
        return AList(self.segs)

    def reverse(self):
        self.segs.reverse()

    def __deepcopy__(self, memo):
        import copy
        out = []
        for s in self.segs:
            if isinstance(s, Elem):
                out.append(Elem(copy.deepcopy(s.v, memo)))
            else:
                out.append(Gen(lambda f=s.f: copy.deepcopy(f())))
        return AList(out)

    def map(self, f):
        return AList([Elem(f(s.v)) if isinstance(s, Elem) else Gen(lambda s=s: f(s.f())) for s in self.segs])

    def flatmap(self, f):
        """f(e) -> list of 0 or more results (0: filtered out)."""
        out = []
        for s in self.segs:
            if isinstance(s, Elem):
                r = f(s.v)
                out.extend(as_segs(r))
            else:
                def g(s=s):
                    r = f(s.f())
                    if isinstance(r, AList):
                        raise Unsupported('nested unbounded comprehension')
                    if not len(r):
                        raise PathEnd()
                    return r[sym.cur().fork(len(r))]
                out.append(Gen(g))
        return AList(out)

    def pick_extreme(self, le, key=None, default=None, what='min'):
        """Element r of the list with le(r, x) for every element x."""
        key = key or (lambda v: v)
        segs = self.segs
        elems = [s for s in segs if isinstance(s, Elem)]
        n = len(segs)
        opts = n + (0 if elems else 1)
        k = sym.cur().fork(opts)
        if k == n:
            if default is not None:
                return default[0]
            raise ValueError('%s() arg is an empty sequence' % what)
        s = segs[k]
        r = s.v if isinstance(s, Elem) else s.f()
        for e in elems:
            if e is not s:
                sym.cur().assume(zb(le(key(r), key(e.v))))
        return r

    def sorted(self, key=None, reverse=False):
        key = key or (lambda v: v)
        elems = [s for s in self.segs if isinstance(s, Elem)]
        gens = [s for s in self.segs if isinstance(s, Gen)]
        if len(elems) > 1:
            return self._sorted_many(elems, gens, key, reverse)

        def fac(lo):
            def f():
                g = gens[sym.cur().fork(len(gens))].f()
                if elems:
                    a, b = key(g), key(elems[0].v)
                    c = (a <= b) if (lo != reverse) else (b <= a)
                    sym.cur().assume(zb(c))
                return g
            return f
        if not gens:
            return AList(elems)
        if not elems:
            return AList([Gen(fac(True))])
        return AList([Gen(fac(True)), elems[0], Gen(fac(False))])


    def _sorted_many(self, elems, gens, key, reverse):
        """Named elements in stable order, generic ones anywhere their keys allow."""
        order = []
        for e in elems:
            k = len(order)
            while k and bool(key(order[k - 1].v) < key(e.v) if reverse else key(e.v) < key(order[k - 1].v)):
                k -= 1
            order.insert(k, e)
        if not gens:
            return AList(order)

        def fac(lo, hi):
            def f():
                g = gens[sym.cur().fork(len(gens))].f()
                for e, before in ((lo, True), (hi, False)):
                    if e is not None:
                        a, b = (e.v, g) if before else (g, e.v)
                        sym.cur().assume(zb(key(b) <= key(a) if reverse else key(a) <= key(b)))
                return g
            return f
        out = []
        for i in range(len(order) + 1):
            out.append(Gen(fac(order[i - 1] if i else None, order[i] if i < len(order) else None)))
            if i < len(order):
                out.append(order[i])
        return AList(out)


def as_segs(o):
    if isinstance(o, AList):
        return list(o.segs)
    return [Elem(v) for v in o]


# ---------------------------------------------------------------------------
class Info(object):
    """Surviving invariant candidates of one abstract loop phase."""

    def __init__(self):
        self.dropped = set()      # {(path, cand)}
        self.values = {}          # path -> list of extra non-numeric values seen
        self.heap = []            # [(obj serial key, attr)]


def numeric(v):
    return isinstance(v, (SNum, int, float)) and not isinstance(v, bool)


def leaves(v, path, out):
    if isinstance(v, tuple):
        out.append((path + ('#',), len(v)))
        for i, x in enumerate(v):
            leaves(x, path + (i,), out)
    else:
        out.append((path, v))


class Driver(object):
    """Iterator handed to a transformed `for` over an AList."""

    def __init__(self, site, alist, getters):
        self.alist = alist
        self.site = site
        self.getters = getters
        self.sync = False
        self.vals = {}
        self.state = 'start'
        c = sym.cur()
        n = c.loopctx.get(site, 0)
        c.loopctx[site] = n + 1
        self.key = (site, n)
        self.k = 0                 # next segment
        self.phase = None

    # -- locals
    def snapshot(self):
        out = {}
        for name, g in self.getters.items():
            try:
                out[name] = g()
            except NameError:
                pass
        return out

    def has(self, name):
        return name in self.vals

    def get(self, name):
        return self.vals[name]

    def info(self, k):
        c = sym.cur()
        key = self.key + (k,)
        if key not in c.loopinv:
            c.loopinv[key] = Info()
        return c.loopinv[key]

    def __iter__(self):
        return self

    def __next__(self):
        c = sym.cur()
        self.sync = False
        if self.state == 'generic':
            self.check_preserved()
            raise PathEnd()
        segs = self.alist.segs
        while True:
            if self.k >= len(segs):
                raise StopIteration
            s = segs[self.k]
            if isinstance(s, Elem):
                self.k += 1
                self.sync = bool(self.vals)
                self.pop_scope()
                r = s.v
                return r
            # generic phase
            entry = self.merge_vals()
            info = self.info(self.k)
            entry_heap = self.heap_entry(info)
            do_generic = c.fork(2) == 1
            vals = self.havoc(info, entry, 'L')
            for (serial, attr), v in entry_heap.items():
                o = c.birth_objs()[serial]
                nv = self.havoc_value(info, ('H', serial, attr), v)
                object.__setattr__(o, attr, nv) if False else o.__dict__.__setitem__(attr, nv)
            self.vals = vals
            self.sync = True
            if do_generic:
                self.state = 'generic'
                self.entry, self.entry_heap, self.curinfo = entry, entry_heap, info
                c.loopstack.append(self)
                self.writes = {}
                self.newobjs = set()
                e = s.f()
                self.elem = e
                return e
            self.k += 1
            from . import shadow
            shadow.note_gap(c)
            # continue with the next segment, values pending in self.vals

    def pop_scope(self):
        pass

    def merge_vals(self):
        snap = self.snapshot()
        if self.sync:
            snap.update(self.vals)
        return snap

    def heap_entry(self, info):
        c = sym.cur()
        objs = c.birth_objs()
        out = {}
        for serial, attr in info.heap:
            if serial < len(objs) and attr in objs[serial].__dict__:
                out[(serial, attr)] = objs[serial].__dict__[attr]
        return out

    # -- havoc
    def havoc(self, info, entry, tag):
        out = {}
        for name in sorted(entry):
            out[name] = self.havoc_value(info, (tag, name), entry[name])
        return out

    def havoc_value(self, info, path, v):
        c = sym.cur()
        if (path, 'eq') not in info.dropped and not self.sub_dropped(info, path):
            return v
        if isinstance(v, tuple) and (path, 'shape') not in info.dropped and not info.values.get(path):
            return tuple(self.havoc_value(info, path + (i,), x) for i, x in enumerate(v))
        extra = info.values.get(path, [])
        opts = [('entry', v)]
        if numeric(v) and not sym.is_inf(v):
            opts = [('num', v)]
        for x in extra:
            if x == ('num',):
                if opts[0][0] != 'num':
                    opts.append(('num', None))
            elif x == ('elem',):
                opts.append(('elem', None))
            elif x[0] == 'shape':
                opts.append(x)
            else:
                opts.append(('val', x[1]))
        k, x = opts[c.fork(len(opts))][:2]
        if k == 'entry' or k == 'val':
            return x
        if k == 'elem':
            gens = [s for s in self.alist.segs if isinstance(s, Gen)]
            return gens[c.fork(len(gens))].f()
        if k == 'shape':
            return tuple(sym.fresh_real('hv') for _ in range(x))
        if isinstance(x, int) or (isinstance(x, SNum) and x.isint and (path, 'int') not in info.dropped):
            r = sym.fresh_int('hv') if (path, 'int') not in info.dropped else sym.fresh_real('hv')
        else:
            r = sym.fresh_real('hv')
        for cand in CANDS:
            if (path, cand) not in info.dropped:
                e = CANDS[cand](r, x)
                if e is not None:
                    c.assume(zb(e))
        return r

    def sub_dropped(self, info, path):
        n = len(path)
        return any(p[:n] == path for p, _ in info.dropped) or any(p[:n] == path for p in info.values)

    # -- preservation
    def check_preserved(self):
        c = sym.cur()
        c.loopstack.pop()
        info = self.curinfo
        after = self.snapshot()
        changed = False
        for name, v in sorted(after.items()):
            if name in self.entry:
                changed |= self.check_value(info, ('L', name), self.entry[name], v)
            # names first bound in the body are dead before the loop
        objs = c.birth_objs()
        for (serial, attr) in sorted(self.writes):
            if (serial, attr) not in info.heap:
                info.heap.append((serial, attr))
                changed = True
        for (serial, attr), v0 in self.entry_heap.items():
            changed |= self.check_value(info, ('H', serial, attr), v0, objs[serial].__dict__.get(attr))
        if changed:
            raise Restart()

    def check_value(self, info, path, v0, v):
        """Returns True when a candidate had to be dropped."""
        c = sym.cur()
        if v is v0:
            return False
        if (path, 'eq') not in info.dropped and not self.sub_dropped(info, path):
            if self.holds_eq(v0, v):
                c.prove('loop-invariant preserved', True)
                return False
        if isinstance(v0, tuple) and isinstance(v, tuple) and len(v0) == len(v) and (path, 'shape') not in info.dropped:
            ch = False
            for i in range(len(v)):
                ch |= self.check_value(info, path + (i,), v0[i], v[i])
            return ch
        ch = False
        if (path, 'eq') not in info.dropped:
            info.dropped.add((path, 'eq'))
            ch = True
        if numeric(v) and not sym.is_inf(v):
            if numeric(v0) and not sym.is_inf(v0):
                if isinstance(v0, int) or (isinstance(v0, SNum) and v0.isint):
                    isint = isinstance(v, int) or v.isint
                    if not isint and (path, 'int') not in info.dropped:
                        info.dropped.add((path, 'int'))
                        ch = True
                for cand in CANDS:
                    if (path, cand) not in info.dropped:
                        e = CANDS[cand](num(v), v0)
                        if e is None:
                            continue
                        ok = e if isinstance(e, bool) else c.solve(c.pc + [z3.Not(zb(e))])[0] == 'unsat'
                        if ok:
                            c.prove('loop-invariant preserved', True)
                        else:
                            info.dropped.add((path, cand))
                            ch = True
            else:
                ch |= self.add_value(info, path, ('num',))
            return ch
        if v is self.elem:
            return self.add_value(info, path, ('elem',)) or ch
        if isinstance(v, (str, bool, type(None))) or sym.is_inf(v):
            if v == v0 and type(v) == type(v0):
                return ch
            return self.add_value(info, path, ('val', v)) or ch
        if isinstance(v, tuple) and all(numeric(x) for x in v):
            return self.add_value(info, path, ('shape', len(v))) or ch
        raise Unsupported('loop-carried value of type %s' % type(v).__name__)

    def add_value(self, info, path, x):
        L = info.values.setdefault(path, [])
        if x in L:
            return False
        if len(L) > 12:
            raise Unsupported('too many loop-carried values')
        L.append(x)
        return True

    def holds_eq(self, v0, v):
        if numeric(v0) and numeric(v) and not sym.is_inf(v0) and not sym.is_inf(v):
            e = num(v) == num(v0)
            if isinstance(e, bool):
                return e
            c = sym.cur()
            return c.solve(c.pc + [z3.Not(zb(e))])[0] == 'unsat'
        if isinstance(v0, tuple) and isinstance(v, tuple) and len(v) == len(v0):
            return all(self.holds_eq(a, b) for a, b in zip(v0, v))
        if isinstance(v, (str, bool, type(None), float)):
            return type(v) == type(v0) and v == v0
        return False


CANDS = {
    'le': lambda r, v0: r <= v0,
    'ge': lambda r, v0: r >= v0,
}


# ---- heap-write log ------------------------------------------------------------
def birth(o):
    """Serial number of an object (registered at its first attribute write)."""
    c = sym.cur()
    k = id(o)
    s = c.births.get(k)
    if s is None:
        s = c.births[k] = len(c.birth_keep)
        c.birth_keep.append(o)
        for d in c.loopstack:
            d.newobjs.add(s)
    return s


def log_write(o, attr):
    if sym.CUR is None:
        return
    c = sym.CUR
    s = birth(o)
    for d in c.loopstack:
        if s not in d.newobjs:
            d.writes[(s, attr)] = True


def register_new(o):
    """A container created by the executed code."""
    c = sym.CUR
    if c is not None and c.loopstack and isinstance(o, (list, dict, set)):
        c.birth_keep.append(o)
        for d in c.loopstack:
            d.newobjs.add(('c', id(o)))
    return o


def check_container(o):
    c = sym.CUR
    if c is None or not c.loopstack:
        return
    for d in c.loopstack:
        if ('c', id(o)) not in d.newobjs:
            raise Unsupported('container mutated across iterations of an unbounded loop')


sym.Explorer.birth_objs = lambda self: self.birth_keep
