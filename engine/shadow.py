"""Helpers and builtins seen by the rewritten code (see transform.py)."""
import builtins
import copy as _copy
import os as _os
import math as _math
import operator as _operator
import itertools as _itertools
import functools as _functools
import types
from fractions import Fraction
import z3
from . import sym, strs, loops
from .sym import SNum, SBool, Unsupported, num, zb, mkbool, q
from .strs import has_sym
from .loops import AList


# ---- arithmetic helpers -----------------------------------------------------------
_K = {}


def VT_K(c):
    r = _K.get(c)
    if r is None:
        if c != c or c in (float('inf'), float('-inf')):
            return c
        r = _K[c] = SNum(Fraction(repr(c)), False)
    return r


def _isnum(x):
    return isinstance(x, (int, float, SNum, SBool))


def VT_div(a, b):
    if _isnum(a) and _isnum(b) and not sym.is_inf(a) and not sym.is_inf(b):
        return num(a) / num(b)
    return a / b


def VT_mod(a, b):
    if isinstance(a, str):
        return strs.mod_format(a, b)
    if isinstance(a, (SNum, SBool)) or isinstance(b, (SNum, SBool)):
        return num(a) % num(b)
    return a % b


_AUG = {'Add': _operator.iadd, 'Sub': _operator.isub, 'Mult': _operator.imul, 'Div': VT_div, 'Mod': VT_mod,
        'FloorDiv': _operator.ifloordiv, 'Pow': _operator.ipow, 'BitOr': _operator.ior, 'BitAnd': _operator.iand,
        'BitXor': _operator.ixor, 'LShift': _operator.ilshift, 'RShift': _operator.irshift}


def VT_aug(op, a, b):
    if op == 'Add' and isinstance(a, (list, dict, set)):
        loops.check_container(a)
        if isinstance(b, AList):
            return AList(loops.as_segs(a) + b.segs)
    return _AUG[op](a, b)


# ---- comparisons --------------------------------------------------------------------
def VT_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        if has_sym(a) or has_sym(b):
            return strs.str_eq(a, b)
        return a == b
    if type(a) in (tuple, list) and type(b) in (tuple, list) and isinstance(a, type(b)):
        return _seq_eq(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return conj([VT_eq(a[k], b[k]) for k in a])
    return a == b


def conj(rs):
    acc = []
    for r in rs:
        if r is False:
            return False
        if isinstance(r, SBool):
            acc.append(r.e)
        elif not r:
            return False
    return mkbool(z3.And(acc)) if acc else True


def _seq_eq(a, b):
    if len(a) != len(b):
        return False
    return conj([VT_eq(x, y) for x, y in zip(a, b)])


def neg(r):
    if isinstance(r, SBool):
        return ~r
    return not r


def VT_ne(a, b):
    if type(a).__ne__ is not object.__ne__ and not isinstance(a, (str, tuple, list, dict, int, float, type(None), SNum)):
        return a != b
    return neg(VT_eq(a, b))


def VT_in(x, c):
    if isinstance(c, str):
        if len(x) == 1 and strs.is_sent(x) and strs.entry(x)[0] in ('d', 'c') and not has_sym(c):
            return strs.char_in(x, c)
        if has_sym(x) or has_sym(c):
            return strs.contains(c, x)
        return x in c
    if isinstance(c, AList):
        hit = [VT_eq(x, s.v) for s in c.segs if isinstance(s, loops.Elem)]
        if any(h is True for h in hit):
            return True
        raise Unsupported('membership in an unbounded list')
    if isinstance(c, (tuple, list, set, frozenset, type({}.keys()), type({}.values()), dict)):
        if _hashable_concrete(x) and isinstance(c, (set, frozenset, dict, type({}.keys()))) and not _has_symkeys(c):
            return x in c
        for y in c:
            if y is x or bool(VT_eq(x, y)):
                return True
        return False
    return x in c


def _has_symkeys(c):
    return any(not _hashable_concrete(k) for k in c)


def _own(f):
    """Run a dictionary operation on a key that is (or becomes) an entry's own key object."""
    sym.HASHING.append(1)
    try:
        return f()
    finally:
        sym.HASHING.pop()


def _hashable_concrete(x):
    if isinstance(x, str):
        return not has_sym(x)
    if isinstance(x, SNum):
        return x.const
    if isinstance(x, (tuple,)):
        return all(_hashable_concrete(y) for y in x)
    return not isinstance(x, SBool)


def VT_nin(x, c):
    return neg(VT_in(x, c))


# ---- containers ------------------------------------------------------------------------
def VT_new(o):
    return loops.register_new(o)


def VT_get(o, k):
    if isinstance(o, dict):
        if not _hashable_concrete(k) or _has_symkeys(o):
            return _dict_get(o, k)
        return o[k]
    if isinstance(k, (SNum, SBool)):
        k = k.__index__()
    if isinstance(o, str) and isinstance(k, slice) and strs._hasrun(o):
        return _run_slice(o, k)
    if isinstance(o, str) and isinstance(k, int) and strs._hasrun(o):
        i = k if k >= 0 else len(o) + k
        part = o[:i + 1] if k >= 0 else o[i:]
        if strs._hasrun(part):
            raise Unsupported('index into a formatted number')
        return o[k]
    return o[k]


def _run_slice(o, k):
    if (k.start or 0) == 0 and k.stop is None:
        return o[k]
    a, b, st = k.indices(len(o))
    if st != 1:
        raise Unsupported('strided slice of formatted number')
    for bound, isneg in ((k.start, (k.start or 0) < 0), (k.stop, (k.stop or 0) < 0)):
        if bound is None:
            continue
        i = bound if bound >= 0 else len(o) + bound
        skipped = o[max(0, i):] if isneg else o[:max(0, i)]
        if strs._hasrun(skipped):
            raise Unsupported('slice position inside a formatted number')
    return o[k]


def _dict_get(o, k):
    for y in o:
        if y is k or bool(VT_eq(k, y)):
            return _own(lambda: o[y])
    raise KeyError(k)


def VT_set(o, k, v):
    if isinstance(o, (list, dict)):
        loops.check_container(o)
    if isinstance(o, dict):
        if not _hashable_concrete(k) or _has_symkeys(o):
            for y in o:
                if y is k or bool(VT_eq(k, y)):
                    _own(lambda: o.__setitem__(y, v))
                    return
            _own(lambda: o.__setitem__(k, v))
            return
    elif isinstance(k, (SNum, SBool)):
        k = k.__index__()
    o[k] = v


def VT_slice(a, b, c):
    f = lambda x: x.__index__() if isinstance(x, (SNum, SBool)) else x
    return slice(f(a), f(b), f(c))


def VT_sa(o, attr, v):
    setattr(o, attr, v)
    d = getattr(type(o), attr, None)
    if d is None or not hasattr(type(d), '__set__'):
        if not isinstance(o, type) and hasattr(o, '__dict__'):
            loops.log_write(o, attr)


def VT_setattr(o, attr, v):
    VT_sa(o, attr, v)


def VT_unpack(v, n):
    if isinstance(v, AList):
        raise Unsupported('unpacking an unbounded list')
    if isinstance(v, str) and strs._hasrun(v):
        raise Unsupported('unpacking symbolic text')
    return v


def VT_citer(it):
    if isinstance(it, AList):
        raise Unsupported('nested unbounded comprehension')
    return it


def VT_comp(kind, src, f):
    if isinstance(src, AList):
        if kind in ('list', 'gen'):
            return src.flatmap(f)
        raise Unsupported('%s comprehension over an unbounded list' % kind)
    if kind == 'gen':
        def g():
            for e in src:
                for x in f(e):
                    yield x
        return g()
    out = []
    for e in src:
        out.extend(f(e))
    if kind == 'list':
        return loops.register_new(out)
    if kind == 'set':
        return loops.register_new(VT_set_build(out))
    d = {}
    for k, v in out:
        VT_set_raw(d, k, v)
    return loops.register_new(d)


def VT_set_raw(d, k, v):
    if not _hashable_concrete(k):
        for y in d:
            if bool(VT_eq(k, y)):
                d[y] = v
                return
    d[k] = v


def VT_set_build(xs):
    s = set()
    for x in xs:
        if _hashable_concrete(x):
            s.add(x)
        else:
            raise Unsupported('set of symbolic values')
    return s


class Plain(object):
    """Loop over an ordinary iterable."""
    sync = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def close(self):
        pass


def VT_loop(site, it, getters):
    if isinstance(it, AList):
        d = loops.Driver(site, it, getters)
        return d
    if isinstance(it, str) and strs._hasrun(it):
        raise Unsupported('iteration over a formatted number')
    return Plain(it)


def _close(self):
    c = sym.CUR
    if c is not None and self in c.loopstack:
        c.loopstack.remove(self)


loops.Driver.close = _close


def VT_fstr(*parts):
    out = []
    for p in parts:
        if len(p) == 1:
            out.append(p[0])
        else:
            v, conv, spec = p
            if conv == 115:
                v = strs.to_str(v)
            elif conv == 114:
                v = strs.to_repr(v)
            out.append(strs.format_of(v, spec))
    return ''.join(out)


MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'add', 'sort', 'reverse',
       'discard', 'popitem', 'appendleft', 'popleft'}


def VT_mcall(o, m, *args, **kw):
    if isinstance(o, str):
        if has_sym(o) or any(has_sym(a) for a in args) or m == 'format':
            if m == 'format' and not has_sym(o) and not any(strs._deep(a) or isinstance(a, (SNum, SBool)) or has_sym(a)
                                                              for a in list(args) + list(kw.values())):
                return o.format(*args, **kw)
            return loops.register_new(strs.str_method(o, m, args, kw))
        if m == 'join':
            if isinstance(args[0], AList):
                raise Unsupported('joining an unbounded list')
            return o.join(list(args[0]))
        args = [a.__index__() if isinstance(a, SNum) and a.isint else a for a in args]
        return loops.register_new(getattr(o, m)(*args, **kw))
    if isinstance(o, (list, dict, set)) and type(o).__module__ in ('builtins', 'collections'):
        if m in MUT:
            loops.check_container(o)
        if isinstance(o, list):
            if m == 'extend' and isinstance(args[0], AList):
                raise Unsupported('extending a list by an unbounded list')
            if m == 'index' or m == 'remove' or m == 'count':
                for i, y in enumerate(o):
                    if m != 'count' and (y is args[0] or bool(VT_eq(args[0], y))):
                        if m == 'index':
                            return i
                        del o[i]
                        return None
                if m == 'count':
                    return len([1 for y in o if y is args[0] or bool(VT_eq(args[0], y))])
                raise ValueError('not in list')
            if m == 'sort':
                r = VT_sorted(o, **kw)
                o[:] = r
                return None
        elif isinstance(o, dict):
            if m in ('get', 'pop', 'setdefault') and (not _hashable_concrete(args[0]) or _has_symkeys(o)):
                if VT_in(args[0], o):
                    v = _dict_get(o, args[0])
                    if m == 'pop':
                        for y in list(o):
                            if bool(VT_eq(args[0], y)):
                                _own(lambda: o.__delitem__(y))
                                break
                    return v
                if m == 'setdefault':
                    _own(lambda: o.__setitem__(args[0], args[1]))
                    return args[1]
                if m == 'pop' and len(args) < 2:
                    raise KeyError(args[0])
                return args[1] if len(args) > 1 else None
        elif isinstance(o, set) and m == 'add' and not _hashable_concrete(args[0]):
            raise Unsupported('set of symbolic values')
        return getattr(o, m)(*args, **kw)
    if isinstance(o, float) and m == 'is_integer':
        return o.is_integer()
    return getattr(o, m)(*args, **kw)


class StarZip(object):
    pass


def VT_star(f, args, **kw):
    out = []
    for starred, a in args:
        if starred and isinstance(a, AList):
            if f in (VT_zip, builtins.zip) and len(args) == 1:
                return _zip_star(a)
            if f is VT_min or f is VT_max:
                if len(args) == 1:
                    return f(a, **kw)
            raise Unsupported('star-argument of unbounded length')
        if starred:
            out.extend(a)
        else:
            out.append(a)
    return f(*out, **kw)


def _zip_star(a):
    elems = [s for s in a.segs if isinstance(s, loops.Elem)]
    if not elems:
        # may be empty: then zip(*[]) is empty; otherwise take the arity of a generic element
        if not bool(a):
            return []
        elems = [s for s in a.segs if isinstance(s, loops.Elem)]
    k = len(elems[0].v)
    return [a.map(lambda e, i=i: e[i]) for i in range(k)]


# ---- builtins ------------------------------------------------------------------------------
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, SNum) and x.isint) or isinstance(x, SBool)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, int)


class VT_int(metaclass=_IntMeta):
    def __new__(cls, x=0, base=None):
        if isinstance(x, str):
            if has_sym(x):
                if base not in (None, 10):
                    raise Unsupported('int(text, base)')
                v = strs.to_number(x, True)
                return v
            return int(x) if base is None else int(x, base)
        if isinstance(x, SNum):
            if x.const:
                return int(x.v)
            return sym.trunc(x)
        if isinstance(x, SBool):
            return num(x)
        return int(x) if base is None else int(x, base)
    from_bytes = int.from_bytes


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, SNum) and not x.isint)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, float)


class VT_float(metaclass=_FloatMeta):
    def __new__(cls, x=0):
        if isinstance(x, str):
            if has_sym(x):
                return strs.to_number(x)
            r = float(x)
            if r != r or sym.is_inf(r):
                return r
            try:
                return SNum(Fraction(x.strip().replace('_', '')), False)
            except ValueError:
                return VT_K(r)
        if isinstance(x, SNum):
            if x.isint:
                return SNum(x.v if x.const else x.z, False)
            return x
        if isinstance(x, SBool):
            return SNum(num(x).z, False)
        r = float(x)
        if r != r or sym.is_inf(r):
            return r
        return SNum(Fraction(x), False) if isinstance(x, int) else VT_K(r)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, str)

    def __eq__(cls, o):
        return o is str or o is cls

    def __hash__(cls):
        return hash(str)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, str)

    def __getattr__(cls, n):
        return getattr(str, n)


class VT_str(metaclass=_StrMeta):
    def __new__(cls, x='', *a):
        if a:
            return str(x, *a)
        return strs.to_str(x)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (list, AList))

    def __eq__(cls, o):
        return o is list or o is cls

    def __hash__(cls):
        return hash(list)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, list)


class VT_list(metaclass=_ListMeta):
    def __new__(cls, x=()):
        if isinstance(x, AList):
            return AList(x.segs)
        if isinstance(x, str) and strs._hasrun(x):
            raise Unsupported('list() of a formatted number')
        return loops.register_new(list(x))


class _TupleMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, tuple)

    def __eq__(cls, o):
        return o is tuple or o is cls

    def __hash__(cls):
        return hash(tuple)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, tuple)


class VT_tuple(metaclass=_TupleMeta):
    def __new__(cls, x=()):
        if isinstance(x, AList):
            return AList(x.segs)
        return tuple(x)


def VT_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SNum):
            return int if x.isint else float
        if isinstance(x, SBool):
            return bool
        if isinstance(x, AList):
            return list
        return type(x)
    return type(*a)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SBool))

    def __eq__(cls, o):
        return o is bool or o is cls

    def __hash__(cls):
        return hash(bool)


class VT_bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        return bool(x)


def VT_len(x):
    if isinstance(x, AList):
        return x.length()
    if isinstance(x, str) and has_sym(x):
        return strs.str_len(x)
    return len(x)


def _extreme(args, kw, f2, le, what):
    key = kw.get('key')
    if len(args) == 1:
        it = args[0]
        if isinstance(it, AList):
            d = (kw['default'],) if 'default' in kw else None
            return it.pick_extreme(le, key, d, what)
        xs = list(it)
    else:
        xs = list(args)
    if not xs:
        if 'default' in kw:
            return kw['default']
        raise ValueError('%s() arg is an empty sequence' % what)
    r = xs[0]
    if key is None and all(_isnum(x) for x in xs):
        for x in xs[1:]:
            r = f2(r, x)
        return r
    key = key or (lambda v: v)
    for x in xs[1:]:
        a, b = key(x), key(r)
        if bool(_lt(a, b) if what == 'min' else _lt(b, a)):
            r = x
    return r


def _lt(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        for x, y in zip(a, b):
            if not bool(VT_eq(x, y)):
                return _lt(x, y)
        return len(a) < len(b)
    if has_sym(a) or has_sym(b):
        raise Unsupported('ordering of symbolic text')
    return a < b


def VT_min(*args, **kw):
    return _extreme(args, kw, sym.smin2, lambda a, b: num(a) <= num(b), 'min')


def VT_max(*args, **kw):
    return _extreme(args, kw, sym.smax2, lambda a, b: num(a) >= num(b), 'max')


def VT_sum(it, start=0):
    if isinstance(it, AList):
        raise Unsupported('sum of an unbounded list')
    r = start
    for x in it:
        r = r + x
    return r


def VT_abs(x):
    return abs(x)


def VT_round(x, nd=None):
    if isinstance(x, (SNum, SBool)):
        return sym.round_(num(x), nd)
    return round(x) if nd is None else round(x, nd)


def VT_sorted(it, key=None, reverse=False):
    if isinstance(it, AList):
        return it.sorted(key, reverse)
    xs = list(it)
    k = key or (lambda v: v)
    ks = [(k(x), x) for x in xs]
    # stable insertion sort through _lt (branches on symbolic keys)
    out = []
    for kx, x in ks:
        i = len(out)
        while i > 0 and bool(_lt(kx, out[i - 1][0]) if not reverse else _lt(out[i - 1][0], kx)):
            i -= 1
        out.insert(i, (kx, x))
    return loops.register_new([x for _, x in out])


def VT_map(f, *its):
    if any(isinstance(i, AList) for i in its):
        if len(its) == 1:
            return its[0].map(f)
        raise Unsupported('map over several unbounded lists')
    return map(f, *its)


def VT_filter(f, it):
    if isinstance(it, AList):
        return it.flatmap(lambda e: [e] if (bool(f(e)) if f else bool(e)) else [])
    return filter(f, it)


def VT_zip(*its, **kw):
    if any(isinstance(i, AList) for i in its):
        raise Unsupported('zip of unbounded lists')
    return zip(*its)


def VT_enumerate(it, start=0):
    if isinstance(it, AList):
        out = []
        for s in it.segs:
            def idx():
                i = sym.fresh_int('idx')
                sym.cur().axiom(i.zi >= start)
                return i
            if isinstance(s, loops.Elem):
                out.append(loops.Elem((idx(), s.v)))
            else:
                out.append(loops.Gen(lambda s=s: (idx(), s.f())))
        return AList(out)
    return enumerate(it, start)


def VT_reversed(it):
    if isinstance(it, AList):
        return AList(reversed(it.segs))
    return reversed(it)


def VT_any(it):
    if isinstance(it, AList):
        for s in it.segs:
            if isinstance(s, loops.Elem) and bool(s.v):
                return True
        gens = [s for s in it.segs if isinstance(s, loops.Gen)]
        k = sym.cur().fork(len(gens) + 1)
        if k == len(gens):
            return False          # (over-approximation: no generic element is true)
        sym.cur().assume(zb(gens[k].f()))
        return True
    for x in it:
        if x:
            return True
    return False


def VT_all(it):
    if isinstance(it, AList):
        for s in it.segs:
            if isinstance(s, loops.Elem) and not bool(s.v):
                return False
        gens = [s for s in it.segs if isinstance(s, loops.Gen)]
        k = sym.cur().fork(len(gens) + 1)
        if k == len(gens):
            return True
        sym.cur().assume(zb(neg(gens[k].f())))
        return False
    for x in it:
        if not x:
            return False
    return True


def VT_iter(x, *a):
    if isinstance(x, AList):
        raise Unsupported('iter() of an unbounded list')
    return iter(x, *a)


def VT_range(*a):
    return range(*[x.__index__() if isinstance(x, SNum) else x for x in a])


def VT_pow(a, b, *m):
    if isinstance(a, SNum) or isinstance(b, SNum):
        return num(a) ** b
    return pow(a, b, *m)


def VT_divmod(a, b):
    if isinstance(a, SNum) or isinstance(b, SNum):
        return sym.divmod_(num(a), num(b))
    return divmod(a, b)


def VT_repr(x):
    return strs.to_repr(x)


def VT_format(x, spec=''):
    return strs.format_of(x, spec)


def VT_ord(c):
    if has_sym(c):
        e = strs.entry(c)
        if e[0] == 'd':
            return SNum(e[1] + 48, True)
        if e[0] == 'c':
            return SNum(e[1], True)
        raise Unsupported('ord of a digit run')
    return ord(c)


GAP = '\ue000'       # in a written file: what an arbitrary number of loop iterations wrote


class SymFile(object):
    """A file under /vt/: reads give the text put there by the contract, writes are logged."""

    def __init__(self, path, mode):
        c = sym.cur()
        self.files = c.memo.setdefault('files', {})
        self.path, self.mode = path, mode
        if 'w' in mode:
            self.files[path] = []
        elif path not in self.files:
            raise FileNotFoundError(path)
        if 'b' in mode:
            raise Unsupported('binary file')
        self.text = None

    def read(self, n=-1):
        if n != -1:
            raise Unsupported('partial read')
        t = ''.join(self.files[self.path])
        if self.text is not None:
            t = self.text
        self.text = ''
        # universal newlines
        out, k = [], 0
        while k < len(t):
            if t[k] == '\r':
                out.append('\n')
                if k + 1 < len(t) and t[k + 1] == '\n':
                    k += 1
            else:
                out.append(t[k])
            k += 1
        return ''.join(out)

    def readlines(self):
        return strs._splitlines(self.read(), True)

    def __iter__(self):
        return iter(self.readlines())

    def write(self, text):
        if not isinstance(text, str):
            raise TypeError('write() argument must be str')
        if 'w' not in self.mode:
            raise OSError('not writable')
        self.files[self.path].append(text)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def note_gap(c):
    """A loop over an unbounded list ran any number of iterations."""
    for path, chunks in c.memo.get('files', {}).items():
        chunks.append(GAP)


def VT_open(path, mode='r', *a, **k):
    if isinstance(path, str) and path and not path.startswith('/') and 'r' in mode:
        raise FileNotFoundError(path)      # contracts name no files of the working directory
    if not (isinstance(path, str) and path.startswith('/vt/')) or a or k:
        raise Unsupported('file access during symbolic execution')
    return SymFile(path, mode)


def VT_print(*a, **k):
    pass


# ---- math ---------------------------------------------------------------------------------------
def _trig(x):
    """(cos, sin) pair of an angle in radians."""
    x = num(x)
    c = sym.cur() if sym.CUR is not None else None
    if x.const:
        t = x.v / sym.PI
        k = t * 2
        if k.denominator == 1:
            k = int(k) % 4
            return [(1, 0), (0, 1), (-1, 0), (0, -1)][k]
        # exact values for multiples of 30 / 45 degrees
        d = t * 180
        if c is not None and d.denominator == 1:
            d = int(d) % 360
            if d % 45 == 0:
                h = sym.sqrt(SNum(Fraction(1, 2)))
                return (h if d in (45, 315) else -h, h if d in (45, 135) else -h)
            if d % 30 == 0:
                h3 = sym.sqrt(SNum(Fraction(3, 4)))
                half = SNum(Fraction(1, 2))
                r = d % 180
                a = d % 360
                cc = {30: h3, 60: half, 120: -half, 150: -h3, 210: -h3, 240: -half, 300: half, 330: h3}[a]
                ss = {30: half, 60: h3, 120: h3, 150: half, 210: -half, 240: -h3, 300: -h3, 330: -half}[a]
                return (cc, ss)
    if c is None:
        return VT_K(_math.cos(float(x.v))), VT_K(_math.sin(float(x.v)))
    key = ('trig', z3.simplify(x.z).sexpr())
    r = c.memo.get(key)
    if r is None:
        # reduce -a to a
        nkey = ('trig', z3.simplify(-x.z).sexpr())
        if nkey in c.memo:
            cc, ss, _ = c.memo[nkey]
            return (cc, -ss)
        cc, ss = sym.fresh_real('cos'), sym.fresh_real('sin')
        c.axiom(z3.And(cc.z * cc.z + ss.z * ss.z == 1, cc.z <= 1, cc.z >= -1, ss.z <= 1, ss.z >= -1))
        c.memo[key] = r = (cc, ss, x)
        c.memo.setdefault('trigargs', []).append((x, cc, ss))
        if x.const:
            # numeric enclosure of the concrete value
            import math
            e = Fraction(1, 10 ** 12)
            cv, sv = Fraction(math.cos(float(x.v))), Fraction(math.sin(float(x.v)))
            c.axiom(z3.And(cc.z >= q(cv - e), cc.z <= q(cv + e), ss.z >= q(sv - e), ss.z <= q(sv + e)))
        else:
            quadrant_axioms(c, x, cc, ss)
    return r[0], r[1]


def quadrant_axioms(c, x, cc, ss):
    """cos(0)=1, sin(0)=0 and signs in [-pi, pi] (facts about the real functions)."""
    p = q(sym.PI)
    h = q(sym.PI / 2)
    z = x.z
    c.axiom(z3.Implies(z == 0, z3.And(cc.z == 1, ss.z == 0)))
    c.axiom(z3.Implies(z == h, z3.And(cc.z == 0, ss.z == 1)))
    c.axiom(z3.Implies(z == -h, z3.And(cc.z == 0, ss.z == -1)))
    c.axiom(z3.Implies(z3.Or(z == p, z == -p), z3.And(cc.z == -1, ss.z == 0)))
    c.axiom(z3.Implies(z3.And(z > 0, z < p), ss.z > 0))
    c.axiom(z3.Implies(z3.And(z < 0, z > -p), ss.z < 0))
    c.axiom(z3.Implies(z3.And(z < h, z > -h), cc.z > 0))
    c.axiom(z3.Implies(z3.Or(z3.And(z > h, z <= p), z3.And(z < -h, z >= -p)), cc.z < 0))


class MathModule(types.ModuleType):
    pi = SNum(sym.PI, False)
    e = VT_K(_math.e)
    inf = float('inf')
    nan = float('nan')
    tau = SNum(2 * sym.PI, False)

    def __init__(self):
        types.ModuleType.__init__(self, 'math')

    @staticmethod
    def radians(x):
        return num(x) * SNum(sym.PI / 180)

    @staticmethod
    def degrees(x):
        return num(x) * SNum(180 / sym.PI)

    @staticmethod
    def cos(x):
        r = _trig(x)[0]
        return SNum(Fraction(r)) if isinstance(r, int) else r

    @staticmethod
    def sin(x):
        r = _trig(x)[1]
        return SNum(Fraction(r)) if isinstance(r, int) else r

    @staticmethod
    def tan(x):
        c, s = _trig(x)
        return num(s) / num(c)

    @staticmethod
    def sqrt(x):
        return sym.sqrt(x)

    @staticmethod
    def hypot(*xs):
        t = SNum(Fraction(0))
        for x in xs:
            t = t + num(x) * num(x)
        return sym.sqrt(t, positive=True)

    @staticmethod
    def pow(a, b):
        return num(a) ** b

    @staticmethod
    def fabs(x):
        return abs(num(x))

    @staticmethod
    def floor(x):
        return sym.floor(x)

    @staticmethod
    def ceil(x):
        return -sym.floor(-num(x))

    @staticmethod
    def fmod(a, b):
        raise Unsupported('fmod')

    @staticmethod
    def isnan(x):
        return False if isinstance(x, SNum) else _math.isnan(x)

    @staticmethod
    def isclose(a, b, **k):
        raise Unsupported('isclose')

    @staticmethod
    def copysign(a, b):
        a, b = num(a), num(b)
        return sym.ite(b >= 0, abs(a), -abs(a))

    @staticmethod
    def atan2(y, x):
        """theta with x = r cos theta, y = r sin theta, -pi < theta <= pi."""
        y, x = num(y), num(x)
        if y.const and x.const:
            if y.v == 0:
                return SNum(Fraction(0)) if x.v >= 0 else SNum(sym.PI)
            if x.v == 0:
                return SNum(sym.PI / 2) if y.v > 0 else SNum(-sym.PI / 2)
            if abs(x.v) == abs(y.v):
                return SNum(sym.PI * Fraction({(1, 1): 1, (1, -1): 3, (-1, 1): -1, (-1, -1): -3}[
                    (1 if y.v > 0 else -1, 1 if x.v > 0 else -1)], 4))
            if sym.CUR is None:
                return VT_K(_math.atan2(float(y.v), float(x.v)))
        c = sym.cur()
        key = ('atan2', z3.simplify(y.z).sexpr(), z3.simplify(x.z).sexpr())
        if key in c.memo:
            return c.memo[key]
        r = sym.sqrt(x * x + y * y)
        th = sym.fresh_real('theta')
        p, h = q(sym.PI), q(sym.PI / 2)
        c.axiom(z3.And(th.z > -p, th.z <= p))
        # quadrant facts of atan2
        X, Y, t = x.z, y.z, th.z
        c.axiom(z3.And(
            z3.Implies(z3.And(Y == 0, X >= 0), t == 0),
            z3.Implies(z3.And(Y == 0, X < 0), t == p),
            z3.Implies(z3.And(X == 0, Y > 0), t == h),
            z3.Implies(z3.And(X == 0, Y < 0), t == -h),
            z3.Implies(z3.And(X > 0, Y > 0), z3.And(t > 0, t < h)),
            z3.Implies(z3.And(X < 0, Y > 0), z3.And(t > h, t < p)),
            z3.Implies(z3.And(X > 0, Y < 0), z3.And(t < 0, t > -h)),
            z3.Implies(z3.And(X < 0, Y < 0), z3.And(t < -h, t > -p))))
        # polar relation and pairwise order with the other known angles
        for (y2, x2, r2, t2) in c.memo.setdefault('angles', []):
            atan2_pair(c, (y, x, r, th), (y2, x2, r2, t2))
        c.memo['angles'].append((y, x, r, th))
        cc, ss = _trig(th)
        c.axiom(z3.And(r.z * num(cc).z == X, r.z * num(ss).z == Y))
        c.memo[key] = th
        return th

    @staticmethod
    def atan(x):
        return MathModule.atan2(x, SNum(Fraction(1)))

    @staticmethod
    def asin(x):
        x = num(x)
        if x.const and x.v in (0, 1, -1):
            return SNum(sym.PI / 2 * x.v)
        if bool(x > 1) or bool(x < -1):
            raise ValueError('math domain error')
        c = sym.cur()
        key = ('asin', z3.simplify(x.z).sexpr())
        if key in c.memo:
            return c.memo[key]
        th = c.memo[key] = sym.fresh_real('asin')
        h = q(sym.PI / 2)
        c.axiom(z3.And(th.z >= -h, th.z <= h))
        cc, ss = _trig(th)
        c.axiom(z3.And(num(ss).z == x.z, num(cc).z >= 0))
        for x2, t2 in c.memo.setdefault('asin', []):
            c.axiom((x.z == x2.z) == (th.z == t2.z))
        c.memo['asin'].append((x, th))
        return th

    @staticmethod
    def acos(x):
        x = num(x)
        if x.const and x.v in (0, 1, -1):
            return SNum(sym.PI / 2 * (1 - x.v))
        if bool(x > 1) or bool(x < -1):
            raise ValueError('math domain error')
        c = sym.cur()
        key = ('acos', z3.simplify(x.z).sexpr())
        if key in c.memo:
            return c.memo[key]
        th = c.memo[key] = sym.fresh_real('acos')
        c.axiom(z3.And(th.z >= 0, th.z <= q(sym.PI)))
        cc, ss = _trig(th)
        c.axiom(z3.And(num(cc).z == x.z, num(ss).z >= 0))
        for x2, t2 in c.memo.setdefault('acos', []):
            c.axiom((x.z == x2.z) == (th.z == t2.z))
        c.memo['acos'].append((x, th))
        return th

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = getattr(_math, n)

        def f(*a):
            if any(isinstance(x, SNum) and not x.const for x in a):
                raise Unsupported('math.%s of a symbolic number' % n)
            r = v(*[x.pyval() if isinstance(x, SNum) else x for x in a])
            return VT_K(r) if isinstance(r, float) else r
        return f


def atan2_pair(c, a, b):
    """Order of two polar angles from the cross product (same half plane)."""
    (y1, x1, r1, t1), (y2, x2, r2, t2) = a, b
    cross = x1.z * y2.z - y1.z * x2.z          # >0 : b is counterclockwise of a (diff in (0,pi))
    d = t2.z - t1.z
    p = q(sym.PI)
    nz = z3.And(z3.Or(x1.z != 0, y1.z != 0), z3.Or(x2.z != 0, y2.z != 0))
    dot = x1.z * x2.z + y1.z * y2.z
    c.axiom(z3.Implies(nz, z3.And(
        z3.Implies(cross > 0, z3.Or(z3.And(d > 0, d < p), z3.And(d > -2 * p, d < -p))),
        z3.Implies(cross < 0, z3.Or(z3.And(d < 0, d > -p), z3.And(d < 2 * p, d > p))),
        z3.Implies(z3.And(cross == 0, dot > 0), d == 0),
        z3.Implies(z3.And(cross == 0, dot < 0), z3.Or(d == p, d == -p)))))


MATH = MathModule()


def deepcopy_registering(x, memo=None):
    m = {} if memo is None else memo
    r = _copy.deepcopy(x, m)
    if sym.CUR is not None:
        seen = set()

        def walk(v):
            if id(v) in seen or isinstance(v, (str, int, float, SNum, SBool, type(None), type, AList)):
                return
            seen.add(id(v))
            if isinstance(v, dict):
                loops.register_new(v)
                for y in v.values():
                    walk(y)
            elif isinstance(v, (list, tuple, set)):
                loops.register_new(v)
                for y in v:
                    walk(y)
            elif hasattr(v, '__dict__') and not callable(v):
                loops.birth(v)
                for y in v.__dict__.values():
                    walk(y)
        walk(r)
    return r


class CopyModule(types.ModuleType):
    deepcopy = staticmethod(deepcopy_registering)
    copy = staticmethod(_copy.copy)
    Error = _copy.Error


COPY = CopyModule('copy')


class OperatorModule(types.ModuleType):
    def __getattr__(self, n):
        return {'eq': VT_eq, 'ne': VT_ne, 'truediv': VT_div, 'mod': VT_mod}.get(n) or getattr(_operator, n)


OPERATOR = OperatorModule('operator')
OPERATOR.add = _operator.add


class OsPathModule(types.ModuleType):
    """os.path of texts that may hold symbolic characters, and of the contract's scratch files."""
    sep = '/'
    altsep = None
    extsep = '.'

    @staticmethod
    def _last(p, ch):
        for i in range(len(p) - 1, -1, -1):
            if bool(strs.char_eq(p[i], ch)):
                return i
        return -1

    def split(self, p):
        k = self._last(p, '/') + 1
        head, tail = p[:k], p[k:]
        n = len(head)
        while n and bool(strs.char_eq(head[n - 1], '/')):
            n -= 1
        return (head[:n] if n else head), tail

    def basename(self, p):
        return self.split(p)[1]

    def dirname(self, p):
        return self.split(p)[0]

    def splitext(self, p):
        base = self._last(p, '/') + 1
        dot = self._last(p, '.')
        if dot > base:
            for k in range(base, dot):
                if not bool(strs.char_eq(p[k], '.')):
                    return p[:dot], p[dot:]
        return p, ''

    def join(self, a, *rest):
        for b in rest:
            if b and bool(strs.char_eq(b[0], '/')):
                a = b
            elif not a or bool(strs.char_eq(a[-1], '/')):
                a = a + b
            else:
                a = a + '/' + b
        return a

    def _vt(self, p):
        if not (isinstance(p, str) and (p + '/').startswith('/vt/')):
            raise Unsupported('file system access during symbolic execution')
        if '/.' in p or '//' in p:
            raise Unsupported('path that is not normal')
        return p.rstrip('/')

    def abspath(self, p):
        return self._vt(p)

    normpath = realpath = abspath

    def isdir(self, p):
        p = self._vt(p)
        return p == '/vt' or any(f.startswith(p + '/') for f in sym.cur().memo.get('files', {}))

    def isfile(self, p):
        return self._vt(p) in sym.cur().memo.get('files', {})

    def exists(self, p):
        return self.isdir(p) or self.isfile(p)


class OsModule(types.ModuleType):
    sep, linesep, curdir, extsep = '/', '\n', '.', '.'

    def listdir(self, p='.'):
        p = self.path._vt(p) + '/'
        return sorted({f[len(p):].split('/')[0] for f in sym.cur().memo.get('files', {}) if f.startswith(p)})

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = getattr(_os, n)
        if not callable(v):
            return v

        def f(*a, **k):
            if sym.CUR is not None:
                raise Unsupported('os.%s during symbolic execution' % n)
            return v(*a, **k)
        return f


OSPATH = OsPathModule('os.path')
OS = OsModule('os')
OS.path = OSPATH


RE = types.ModuleType('re')
for _n in dir(strs.ReModule):
    if not _n.startswith('__'):
        setattr(RE, _n, getattr(strs.ReModule, _n))

SHADOW_MODULES = {'copy': COPY, 'math': MATH, 're': RE, 'operator': OPERATOR, 'os': OS}

HELPERS = {k: v for k, v in globals().items() if k.startswith('VT_')}
BUILTINS = {
    'int': VT_int, 'float': VT_float, 'str': VT_str, 'list': VT_list, 'tuple': VT_tuple, 'bool': VT_bool,
    'len': VT_len, 'min': VT_min, 'max': VT_max, 'sum': VT_sum, 'round': VT_round, 'sorted': VT_sorted,
    'map': VT_map, 'filter': VT_filter, 'zip': VT_zip, 'enumerate': VT_enumerate, 'reversed': VT_reversed,
    'any': VT_any, 'all': VT_all, 'iter': VT_iter, 'range': VT_range, 'pow': VT_pow, 'divmod': VT_divmod,
    'repr': VT_repr, 'format': VT_format, 'ord': VT_ord, 'open': VT_open, 'setattr': VT_setattr, 'type': VT_type,
    'print': VT_print,
}


def make_builtins():
    d = dict(vars(builtins))
    d.update(BUILTINS)
    d.update(HELPERS)
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in SHADOW_MODULES:
            return SHADOW_MODULES[name]
        return real_import(name, globals, locals, fromlist, level)
    d['__import__'] = imp
    return d
