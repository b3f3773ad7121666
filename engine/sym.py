"""Symbolic values, path exploration and verification-condition discharge.

The verifier executes the *real* code of /repo (mechanically rewritten by
transform.py, see there) on z3-backed values.  Every feasible branch decision is
enumerated (decision-prefix re-execution), so that a finished exploration covers
all inputs admitted by a contract's precondition; every `check` on every path is
one obligation  path-condition => postcondition  handed to z3.

Numbers: Python floats are modelled as mathematical reals, ints as mathematical
integers (stated assumption A-REAL).
"""
import z3
import sys
from fractions import Fraction

sys.setrecursionlimit(20000)
z3.set_param('auto_config', True)


class Unsupported(BaseException):
    """The construct is outside the verifier's reach (never a violation)."""


class Limit(Unsupported):
    pass


class PathEnd(BaseException):
    """Stop this path silently (infeasible, or end of an inductive step)."""


class Restart(BaseException):
    """The inferred loop invariants were weakened: restart the exploration."""


PI = Fraction(repr(3.141592653589793))

CUR = None          # the current Explorer


def cur():
    if CUR is None:
        raise Unsupported('symbolic operation outside exploration')
    return CUR


def q(fr):
    fr = Fraction(fr)
    return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def to_fraction(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float in symbolic arithmetic')
        return Fraction(repr(x))
    raise TypeError(x)


def is_inf(x):
    return isinstance(x, float) and x in (float('inf'), float('-inf'))


HASHING = []            # not empty while an entry with a symbolic key is stored or fetched by identity


class SBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, zb(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, zb(o)))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.e == zb(o))
        if isinstance(o, (int, SNum)):
            return num(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'SBool(%s)' % self.e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # arithmetic on booleans (True == 1)
    def __add__(self, o):
        return num(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return num(self) * o
    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__


def zb(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, SNum):
        return zb(x != 0)
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SBool(e)


def num(x, isint=None):
    """Lift to SNum."""
    if isinstance(x, SNum):
        return x
    if isinstance(x, SBool):
        return SNum(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), True)
    if isinstance(x, bool):
        return SNum(Fraction(int(x)), True)
    if isinstance(x, int):
        return SNum(Fraction(x), True)
    if isinstance(x, (float, Fraction)):
        return SNum(to_fraction(x), False)
    raise TypeError('not a number: %r' % (x,))


def _coerce(o):
    if isinstance(o, (SNum, SBool, bool, int, float, Fraction)):
        return num(o)
    return None


class SNum(object):
    """A number: `v` is a Fraction (constant) or a z3 arithmetic term.
    `isint`: the Python type is int (else float)."""
    __slots__ = ('v', 'isint')

    def __init__(self, v, isint=False):
        if isinstance(v, z3.ExprRef):
            if z3.is_rational_value(v):
                v = Fraction(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_int_value(v):
                v = Fraction(v.as_long())
        self.v = v
        self.isint = isint

    @property
    def const(self):
        return isinstance(self.v, Fraction)

    @property
    def z(self):
        """z3 term of sort Real."""
        if isinstance(self.v, Fraction):
            return q(self.v)
        if z3.is_int(self.v):
            return z3.ToReal(self.v)
        return self.v

    @property
    def zi(self):
        """z3 term of sort Int (only for ints)."""
        if isinstance(self.v, Fraction):
            return z3.IntVal(int(self.v))
        if z3.is_int(self.v):
            return self.v
        return z3.ToInt(self.v)

    def __repr__(self):
        if self.const:
            return 'Num(%s)' % (float(self.v) if not self.isint else int(self.v))
        return 'SNum(%s)' % z3.simplify(self.v)

    def pyval(self):
        assert self.const
        return int(self.v) if self.isint else float(self.v)

    # -- arithmetic
    def _arith(self, o, fi, fz, keepint=True):
        isint = self.isint and o.isint and keepint
        if self.const and o.const:
            return SNum(fi(self.v, o.v), isint)
        if isint:
            return SNum(fz(self.zi, o.zi), True)
        return SNum(fz(self.z, o.z), False)

    def __add__(self, o):
        if is_inf(o):
            return o
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if o.const and o.v == 0 and (self.isint or not o.isint or True):
            return self if (self.isint == (self.isint and o.isint)) else SNum(self.v, False)
        if self.const and self.v == 0:
            return o if (o.isint == (self.isint and o.isint)) else SNum(o.v, False)
        return self._arith(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        if is_inf(o):
            return o
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return o.__add__(self)

    def __sub__(self, o):
        if is_inf(o):
            return -o
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return self._arith(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        if is_inf(o):
            return o
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return o.__sub__(self)

    def __mul__(self, o):
        o2 = _coerce(o)
        if o2 is None:
            if isinstance(o, (str, list, tuple)):
                return o * self.__index__()
            return NotImplemented
        o = o2
        isint = self.isint and o.isint
        if (self.const and self.v == 0) or (o.const and o.v == 0):
            return SNum(Fraction(0), isint)
        if o.const and o.v == 1:
            return self if (isint or not self.isint) else SNum(self.v, False)
        if self.const and self.v == 1:
            return o if (isint or not o.isint) else SNum(o.v, False)
        return self._arith(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return o.__mul__(self)

    def __truediv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if o.const:
            if o.v == 0:
                raise ZeroDivisionError('division by zero')
            if self.const:
                return SNum(self.v / o.v, False)
            return SNum(self.z * q(1 / o.v), False)
        if bool(o == 0):
            raise ZeroDivisionError('division by zero')
        return SNum(self.z / o.z, False)

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return o.__truediv__(self)

    def __floordiv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return divmod_(self, o)[0]

    def __rfloordiv__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return divmod_(o, self)[0]

    def __mod__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return divmod_(self, o)[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported('% formatting outside helper')
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return divmod_(o, self)[1]

    def __divmod__(self, o):
        return divmod_(self, _coerce(o))

    def __pow__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        if not o.const:
            raise Unsupported('symbolic exponent')
        if self.const:
            if o.v.denominator == 1:
                if self.v == 0 and o.v < 0:
                    raise ZeroDivisionError('0 ** negative')
                r = self.v ** int(o.v)
                return SNum(Fraction(r), self.isint and o.isint and o.v >= 0)
        if o.v == Fraction(1, 2):
            return sqrt(self)
        if o.v.denominator != 1:
            raise Unsupported('fractional exponent')
        n = int(o.v)
        if n < 0:
            return SNum(Fraction(1), False) / (self ** (-n))
        r = SNum(Fraction(1), self.isint and o.isint)
        for _ in range(n):
            r = r * self
        return r

    def __rpow__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return o.__pow__(self)

    def __neg__(self):
        if self.const:
            return SNum(-self.v, self.isint)
        return SNum(-self.v, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.const:
            return SNum(abs(self.v), self.isint)
        return SNum(z3.If(self.v >= 0, self.v, -self.v), self.isint)

    # -- comparison
    def _cmp(self, o, fi, fz, inf):
        if is_inf(o):
            return inf(o)
        oo = _coerce(o)
        if oo is None:
            return NotImplemented
        if self.const and oo.const:
            return fi(self.v, oo.v)
        if self.isint and oo.isint:
            return mkbool(fz(self.zi, oo.zi))
        return mkbool(fz(self.z, oo.z))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b, lambda i: i > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b, lambda i: i > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b, lambda i: i < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b, lambda i: i < 0)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b, lambda i: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        if self.const:
            return hash(self.v)
        if HASHING:
            return id(self)         # the key's own entry only; equal keys are found by comparison
        raise Unsupported('hash of a symbolic number')

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.const:
            return float(self.v)
        raise Unsupported('native float() of a symbolic number')

    def __int__(self):
        if self.const:
            return int(self.v)
        raise Unsupported('native int() of a symbolic number')

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def is_integer(self):
        return self == floor(self)

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        if self.const:
            return int(self.v)
        return cur().enumerate_int(self)

    def __round__(self, nd=None):
        return round_(self, nd)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        from . import strs
        return strs.str_of(self)

    def __format__(self, spec):
        from . import strs
        return strs.format_of(self, spec)


def fresh_real(name='r'):
    c = cur()
    return SNum(z3.Real(c.fresh_name(name)), False)


def fresh_int(name='k'):
    c = cur()
    return SNum(z3.Int(c.fresh_name(name)), True)


def floor(x):
    x = num(x)
    if x.const:
        return SNum(Fraction(x.v.__floor__()), True)
    if x.isint:
        return x
    return SNum(z3.ToInt(x.v), True)


def trunc(x):
    x = num(x)
    if x.const:
        return SNum(Fraction(int(x.v)), True)
    if x.isint:
        return x
    return SNum(z3.If(x.v >= 0, z3.ToInt(x.v), -z3.ToInt(-x.v)), True)


def divmod_(a, b):
    isint = a.isint and b.isint
    if b.const and b.v == 0:
        raise ZeroDivisionError('modulo by zero')
    if a.const and b.const:
        k = (a.v / b.v).__floor__()
        return SNum(Fraction(k), isint), SNum(a.v - k * b.v, isint)
    if not b.const:
        if bool(b == 0):
            raise ZeroDivisionError('modulo by zero')
    c = cur()
    k = fresh_int('q')
    if isint:
        r = a - b * k
    else:
        r = SNum(a.z - b.z * k.z, False)
    if b.const:
        if b.v > 0:
            c.axiom(z3.And(r.z >= 0, r.z < b.z))
        else:
            c.axiom(z3.And(r.z <= 0, r.z > b.z))
    else:
        c.axiom(z3.If(b.z > 0, z3.And(r.z >= 0, r.z < b.z), z3.And(r.z <= 0, r.z > b.z)))
    return (k if isint else SNum(k.v, False)), r


def round_(x, nd=None):
    x = num(x)
    if x.const:
        f = Fraction(round(x.v, nd)) if nd is not None else Fraction(round(x.v))
        return SNum(f, nd is None or x.isint)
    if nd is not None and isinstance(nd, SNum):
        nd = nd.__index__()
    if x.isint and (nd is None or nd >= 0):
        return x
    c = cur()
    scale = Fraction(10) ** (nd or 0)
    y = x.z * q(scale)
    key = ('round', z3.simplify(y).sexpr())
    k = c.memo.get(key)
    if k is not None:
        return SNum(k, True) if nd is None else SNum(z3.ToReal(k) * q(1 / scale), False)
    k = c.memo[key] = z3.Int(c.fresh_name('rnd'))
    half = q(Fraction(1, 2))
    # nearest integer, ties to even (Python semantics on the real model)
    c.axiom(z3.And(z3.ToReal(k) - y <= half, y - z3.ToReal(k) <= half))
    if nd is None:
        return SNum(k, True)
    return SNum(z3.ToReal(k) * q(1 / scale), False)


def sqrt(x, positive=False):
    x = num(x)
    if x.const:
        if x.v < 0:
            raise ValueError('math domain error')
        import math
        n, d = x.v.numerator, x.v.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return SNum(Fraction(rn, rd), False)
    elif not positive and bool(x < 0):
        raise ValueError('math domain error')
    c = cur()
    # one value for one polynomial, however it is written
    key = ('sqrt', z3.simplify(x.z, som=True, sort_sums=True).sexpr())
    if key in c.memo:
        return c.memo[key]
    r = fresh_real('sqrt')
    c.axiom(z3.And(r.z >= 0, r.z * r.z == x.z))
    c.memo[key] = r
    return r


def smin2(a, b):
    """min(a, b) with Python's tie rule irrelevant for numbers."""
    if is_inf(a):
        return b if a > 0 else a
    if is_inf(b):
        return a if b > 0 else b
    a, b = num(a), num(b)
    if a.const and b.const:
        return b if b.v < a.v else a
    c = b < a
    if isinstance(c, bool):
        return b if c else a
    isint = a.isint and b.isint
    return SNum(z3.If(c.e, b.zi if isint else b.z, a.zi if isint else a.z), isint)


def smax2(a, b):
    if is_inf(a):
        return a if a > 0 else b
    if is_inf(b):
        return b if b > 0 else a
    a, b = num(a), num(b)
    if a.const and b.const:
        return b if b.v > a.v else a
    c = b > a
    if isinstance(c, bool):
        return b if c else a
    isint = a.isint and b.isint
    return SNum(z3.If(c.e, b.zi if isint else b.z, a.zi if isint else a.z), isint)


def ite(c, a, b):
    """if-then-else on numbers without forking (for contracts)."""
    if isinstance(c, bool):
        return a if c else b
    a, b = num(a), num(b)
    isint = a.isint and b.isint
    return SNum(z3.If(c.e, a.zi if isint else a.z, b.zi if isint else b.z), isint)


# ---------------------------------------------------------------------------
class Obligation(object):
    __slots__ = ('label', 'status', 'backend', 'time', 'model', 'choices', 'detail')

    def __init__(self, label, status, backend, time, model=None, choices=None, detail=''):
        self.label = label
        self.status = status
        self.backend = backend
        self.time = time
        self.model = model
        self.choices = choices
        self.detail = detail


class Explorer(object):
    def __init__(self, max_paths=4000, max_decisions=600, timeout_ms=20000,
                 wall_s=300, crosscheck=False):
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.timeout_ms = timeout_ms
        self.wall_s = wall_s
        self.crosscheck = crosscheck
        self.obligations = []
        self.paths = 0
        self.covers = set()
        self.solver_time = 0.0
        self.queries = 0
        self.loopinv = {}         # (site, ctx) -> LoopInfo (persistent over paths)
        self.restarts = 0
        self.cvc5_agree = 0
        self.cvc5_total = 0
        self.vccache = {}

    # -- names
    def fresh_name(self, base):
        n = self.counter
        self.counter += 1
        return '%s!%d' % (base, n)

    # -- path control
    def run_all(self, fn):
        """fn(): executes one path.  Explores all of them."""
        import time
        global CUR
        t_end = time.time() + self.wall_s
        stack = [[]]
        results = []
        while stack:
            prefix = stack.pop()
            if self.paths >= self.max_paths:
                raise Limit('more than %d paths' % self.max_paths)
            if time.time() > t_end:
                raise Limit('exploration exceeded %ds' % self.wall_s)
            self.paths += 1
            self.prefix = prefix
            self.trace = []
            self.pending = []
            self.counter = 0
            self.memo = {}
            self.draws = []       # (name, kind, value) in draw order
            self.pc = []
            self.labels = {}
            self.loopctx = {}
            self.loopstack = []
            self.births = {}
            self.birth_keep = []
            self.solver = z3.Solver()
            self.solver.set('timeout', 3000)
            self.npush = 0
            self.t_end = t_end
            CUR = self
            restarted = False
            try:
                fn()
            except PathEnd:
                pass
            except Restart:
                restarted = True
            finally:
                CUR = None
            if restarted:
                self.restarts += 1
                if self.restarts > 60:
                    raise Limit('loop invariant inference did not converge')
                stack = [[]]
                self.obligations = []
                self.paths = 0
                continue
            stack.extend(self.pending)
        return results

    def axiom(self, e):
        """Add a definitional constraint (true by construction)."""
        self.pc.append(e)
        self.solver.add(e)

    def assume(self, e):
        if isinstance(e, bool):
            if not e:
                raise PathEnd()
            return
        e = zb(e)
        self.pc.append(e)
        self.solver.add(e)
        if len(self.trace) >= len(self.prefix):
            if self._check() == 'unsat':
                raise PathEnd()

    def _check(self, *extra):
        import time
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        dt = time.time() - t
        self.solver_time += dt
        return str(r)

    def branch(self, e):
        """Decide a symbolic boolean; forks."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.trace)
        if i >= self.max_decisions:
            raise Limit('more than %d decisions on one path' % self.max_decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            if d in (True, False):
                self._commit(e if d else z3.Not(e))
            elif d == 'T':     # forced: no need to add
                return True
            else:
                return False
            return d
        import time
        if time.time() > self.t_end:
            raise Limit('exploration exceeded its time budget')
        can_t = self._check(e) != 'unsat'
        if not can_t:
            self.trace.append('F')
            return False
        can_f = self._check(z3.Not(e)) != 'unsat'
        if not can_f:
            self.trace.append('T')
            return True
        self.pending.append(self.trace + [False])
        self.trace.append(True)
        self._commit(e)
        return True

    def _commit(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def fork(self, n, label=''):
        """Non-deterministic (demonic) choice of 0..n-1, all explored."""
        if n == 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            return d[1]
        for k in range(n - 1, 0, -1):
            self.pending.append(self.trace + [('f', k)])
        self.trace.append(('f', 0))
        return 0

    def enumerate_int(self, x, limit=40):
        """Concretise an int by exhaustive enumeration of its feasible values."""
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self._commit(x.zi == d[1])
            return d[1]
        vals = []
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*self.pc)
        while True:
            r = s.check()
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise Unsupported('cannot enumerate an index')
            v = s.model().eval(x.zi, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > limit:
                raise Unsupported('index with more than %d values' % limit)
            s.add(x.zi != v)
        if not vals:
            raise PathEnd()
        vals.sort()
        for v in reversed(vals[1:]):
            self.pending.append(self.trace + [('e', v)])
        self.trace.append(('e', vals[0]))
        self._commit(x.zi == vals[0])
        return vals[0]

    # -- obligations
    def prove(self, label, cond, detail=''):
        import time
        n = self.labels.get(label, 0)
        self.labels[label] = n + 1
        t = time.time()
        if isinstance(cond, bool):
            if cond:
                self.obligations.append(Obligation(label, 'discharged', 'evaluation', 0.0))
                return True
            goal = z3.BoolVal(False)
        else:
            goal = zb(cond)
        neg = z3.Not(goal)
        status, model, backend = self.solve(self.pc + [neg])
        dt = time.time() - t
        self.solver_time += dt
        if status == 'unsat':
            self.obligations.append(Obligation(label, 'discharged', backend, dt))
            if self.crosscheck:
                self._cvc5(neg)
            return True
        ob = Obligation(label, 'failed' if status == 'sat' else 'unknown', backend, dt,
                        detail=detail)
        if model is not None:
            ob.model = self.extract(model)
        ob.choices = list(self.draws)
        self.obligations.append(ob)
        if cond is False:
            raise PathEnd()
        if self.branch_possible(goal):
            self._commit(goal)
        else:
            raise PathEnd()
        return False

    def branch_possible(self, e):
        return self._check(e) != 'unsat'

    def solve(self, es):
        """Portfolio: returns (status, model, backend)."""
        self.queries += 1
        s = z3.Solver()
        s.set('timeout', int(self.timeout_ms))
        s.add(*es)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            return 'unsat', None, 'z3'
        if r == z3.sat:
            m = self.nice_model(es) or s.model()
            return 'sat', m, 'z3'
        try:
            t = z3.Then('simplify', 'purify-arith', 'solve-eqs', 'qfnra-nlsat').solver()
            t.set('timeout', int(self.timeout_ms))
            t.add(*es)
            r = t.check()
            if r == z3.unsat:
                return 'unsat', None, 'z3-nlsat'
            if r == z3.sat:
                return 'sat', t.model(), 'z3-nlsat'
        except z3.Z3Exception:
            pass
        if self._cvc5_unsat(es):
            return 'unsat', None, 'cvc5'
        return 'unknown', None, 'z3+nlsat+cvc5'

    def nice_model(self, es):
        """Prefer a model whose inputs are small multiples of 1/8."""
        reals = []
        for kind, name, v in self.draws:
            if kind in ('real', 'int') and isinstance(v, SNum) and not v.const:
                reals.append(v)
        if not reals or len(reals) > 40:
            return None
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*es)
        for v in reals:
            if v.isint:
                s.add(v.zi <= 1000, v.zi >= -1000)
            else:
                s.add(z3.IsInt(v.z * 8), v.z <= 1000, v.z >= -1000)
        try:
            if s.check() == z3.sat:
                return s.model()
        except z3.Z3Exception:
            pass
        return None

    def _cvc5_unsat(self, es):
        s = z3.Solver()
        s.add(*es)
        return run_cvc5(s.to_smt2(), self.timeout_ms) == 'unsat'

    def _cvc5(self, neg):
        s = z3.Solver()
        s.add(*(self.pc + [neg]))
        self.cvc5_total += 1
        r = run_cvc5(s.to_smt2(), 10000)
        if r == 'unsat':
            self.cvc5_agree += 1
        elif r == 'sat':
            raise Unsupported('cvc5 disagrees with z3 on an obligation')

    def extract(self, model):
        out = {}
        for kind, name, v in self.draws:
            out[name] = concretise(v, model)
        return out

    def path_model(self):
        """A model of the current path condition (for exception witnesses)."""
        st, m, _ = self.solve(list(self.pc))
        if st == 'sat':
            return self.extract(m)
        if st == 'unsat':
            return 'infeasible'
        return None


def concretise(v, model):
    if isinstance(v, SNum):
        if v.const:
            return v.pyval()
        r = model.eval(v.v, model_completion=True)
        return z3num(r, v.isint)
    if isinstance(v, SBool):
        return bool(z3.is_true(model.eval(v.e, model_completion=True)))
    if isinstance(v, str):
        from . import strs
        return strs.concretise(v, model)
    if isinstance(v, (list, tuple)):
        return [concretise(x, model) for x in v]
    return v


def z3num(r, isint):
    if z3.is_int_value(r):
        return r.as_long() if isint else float(r.as_long())
    if z3.is_rational_value(r):
        f = Fraction(r.numerator_as_long(), r.denominator_as_long())
        return int(f) if isint else float(f)
    if z3.is_algebraic_value(r):
        a = r.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0 if isint else 0.0


def run_cvc5(smt2, timeout_ms):
    import subprocess
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout_ms)],
                           input=('(set-logic ALL)\n' + smt2).encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=timeout_ms / 1000.0 + 5)
        out = p.stdout.decode().strip().splitlines()
        return out[-1] if out else 'unknown'
    except Exception:
        return 'unknown'
