"""The S object of symbolic runs."""
import z3
from . import sym, strs, loops, shadow
from .sym import SNum, SBool, num, zb, mkbool, q, Unsupported, PathEnd
from .loops import AList, Elem, Gen


class S(object):
    symbolic = True

    def __init__(self, explorer):
        self.ex = explorer
        self.prefix = ''

    # -- inputs
    def _draw(self, kind, name, v):
        name = self.prefix + name
        self.ex.draws.append((kind, name, v))
        return v

    def real(self, name, lo=None, hi=None, **kw):
        v = SNum(z3.Real('in:' + self.prefix + name), False)
        if lo is not None:
            self.ex.axiom(v.z >= q(sym.to_fraction(lo)))
        if hi is not None:
            self.ex.axiom(v.z <= q(sym.to_fraction(hi)))
        return self._draw('real', name, v)

    def int(self, name, lo=None, hi=None):
        v = SNum(z3.Int('in:' + self.prefix + name), True)
        if lo is not None:
            self.ex.axiom(v.zi >= lo)
        if hi is not None:
            self.ex.axiom(v.zi <= hi)
        return self._draw('int', name, v)

    def choice(self, name, options):
        options = list(options)
        k = self.ex.fork(len(options), name)
        self._draw('choice', name, k)
        return options[k]

    def flag(self, name):
        return self.choice(name, [False, True])

    def digits(self, name, n):
        s = ''.join(strs.new_digit(name='in:%s%s' % (self.prefix, name)) for _ in range(n))
        return self._draw('str', name, s)

    def text(self, name, n, alphabet=None, lo=32, hi=126, exclude=''):
        out = []
        for i in range(n):
            if alphabet is not None:
                t = z3.Int(self.ex.fresh_name('in:' + self.prefix + name))
                self.ex.axiom(z3.Or([t == ord(c) for c in alphabet]))
                e = ('c', t, 0, 127)
                strs.restrict(e, map(ord, alphabet))
                out.append(strs.new_sentinel(e))
            else:
                out.append(strs.new_char(lo, hi, 'in:' + self.prefix + name, exclude))
        return self._draw('str', name, ''.join(out))

    def named(self, xs, witnesses):
        """Those of the witnesses that are in a list, in its order, as often as they are in it."""
        vs = [s.v for s in xs.segs if isinstance(s, Elem)] if isinstance(xs, AList) else list(xs)
        return [v for v in vs if any(v is w for w in witnesses)]

    def alist(self, name, factory, witness=None, witnesses=None):
        """Unbounded list: any elements, the witness at any position, any elements."""
        count = {}

        def gen(seg):
            def f():
                k = count.get(seg, 0)
                count[seg] = k + 1
                old = self.prefix
                self.prefix = '%s%s.%s[%d].' % (old, name, seg, k)
                try:
                    return factory()
                finally:
                    self.prefix = old
            return f
        if witnesses is not None:
            segs = [Gen(gen('A'))]
            for i, w in enumerate(witnesses):
                segs += [Elem(w), Gen(gen('BCDE'[i]))]
            return AList(segs)
        if witness is None:
            return AList([Gen(gen('A'))])
        return AList([Gen(gen('A')), Elem(witness), Gen(gen('B'))])

    # -- logic
    def assume(self, c):
        self.ex.assume(c if isinstance(c, bool) else zb(c))

    def check(self, label, c, detail=''):
        if not isinstance(c, (bool, SBool)):
            c = bool(c)
        return self.ex.prove(label, c, detail)

    def cover(self, label):
        self.ex.covers.add(label)

    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return False
            return self.and_(*[self.eq(x, y) for x, y in zip(a, b)])
        if _n(a) and _n(b):
            return num(a) == num(b) if not sym.is_inf(a) and not sym.is_inf(b) else a == b
        return shadow.VT_eq(a, b)

    exact = eq

    def near(self, a, b, tol):
        if isinstance(a, (tuple, list)):
            return self.and_(*[self.near(x, y, tol) for x, y in zip(a, b)])
        d = num(a) - num(b)
        if not d.const:
            z = z3.simplify(d.z, som=True)
            if z3.is_rational_value(z):
                return abs(z.as_fraction()) <= num(tol).v
        return self.and_(d <= tol, d >= -num(tol))

    def le(self, a, b):
        return num(a) <= num(b)

    def ge(self, a, b):
        return num(a) >= num(b)

    def lt(self, a, b):
        return num(a) < num(b)

    def gt(self, a, b):
        return num(a) > num(b)

    def and_(self, *cs):
        return shadow.conj(cs)

    def or_(self, *cs):
        acc = []
        for c in cs:
            if c is True:
                return True
            if isinstance(c, SBool):
                acc.append(c.e)
            elif c:
                return True
        return mkbool(z3.Or(acc)) if acc else False

    def not_(self, c):
        return shadow.neg(c)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def ite(self, c, a, b):
        return sym.ite(c, a, b)

    def min(self, *a):
        return shadow.VT_min(*a)

    def max(self, *a):
        return shadow.VT_max(*a)

    def abs(self, a):
        return abs(num(a))

    def decide(self, c):
        """Branch on a condition in the contract."""
        return bool(c)

    def num(self, x):
        """Exact numeric constant."""
        return num(x)

    def cos(self, a):
        return num(shadow.MATH.cos(a))

    def sin(self, a):
        return num(shadow.MATH.sin(a))

    def asin(self, a):
        return num(shadow.MATH.asin(a))

    def radians(self, a):
        return shadow.MATH.radians(a)

    def sqrt(self, a):
        return sym.sqrt(num(a))

    def hypot(self, a, b):
        return shadow.MATH.hypot(a, b)

    @property
    def pi(self):
        return SNum(sym.PI, False)

    def div(self, a, b):
        return num(a) / num(b)

    def call(self, f, *a, **k):
        """Run f, returning (result, exception)."""
        try:
            return f(*a, **k), None
        except (Unsupported, PathEnd):
            raise
        except RecursionError:
            raise Unsupported('recursion')
        except Exception as e:
            return None, e

    def float_of(self, text):
        return shadow.VT_float(text)

    def int_of(self, text):
        return shadow.VT_int(text)

    def concat(self, *parts):
        return ''.join(parts)

    def lemma_cos_mono(self, a, b):
        """cos is strictly decreasing on [0, pi]: instance for angles a, b."""
        ca, cb = num(shadow.MATH.cos(a)), num(shadow.MATH.cos(b))
        a, b = num(a), num(b)
        p = q(sym.PI)
        self.ex.axiom(z3.Implies(z3.And(a.z >= 0, a.z < b.z, b.z <= p), ca.z > cb.z))
        self.ex.axiom(z3.Implies(z3.And(b.z >= 0, b.z < a.z, a.z <= p), cb.z > ca.z))

    def lemma_trig_order(self, a, b):
        """Monotonicity and sign of cos and sin on the quarters of [0, 2 pi]: instance for a, b."""
        ca, sa = num(shadow.MATH.cos(a)).z, num(shadow.MATH.sin(a)).z
        cb, sb = num(shadow.MATH.cos(b)).z, num(shadow.MATH.sin(b)).z
        a, b = num(a).z, num(b).z
        p, h = q(sym.PI), q(sym.PI / 2)

        def mono(lo, hi, fa, fb, up):
            inside = z3.And(a >= lo, b >= lo, a <= hi, b <= hi)
            self.ex.axiom(z3.Implies(z3.And(inside, a < b), fa < fb if up else fa > fb))
            self.ex.axiom(z3.Implies(z3.And(inside, b < a), fb < fa if up else fb > fa))
        zero = z3.RealVal(0)
        self.ex.axiom(z3.Implies(a == b, z3.And(ca == cb, sa == sb)))
        mono(zero, p, ca, cb, False)
        mono(p, 2 * p, ca, cb, True)
        mono(zero, h, sa, sb, True)
        mono(h, 3 * h, sa, sb, False)
        mono(3 * h, 4 * h, sa, sb, True)
        for t, c, s in ((a, ca, sa), (b, cb, sb)):
            self.ex.axiom(z3.And(z3.Implies(z3.And(t >= 0, t <= p), s >= 0), z3.Implies(z3.And(t >= p, t <= 2 * p), s <= 0),
                                 z3.Implies(z3.And(t >= h, t <= 3 * h), c <= 0),
                                 z3.Implies(z3.And(t >= 0, t <= h), c >= 0), z3.Implies(z3.And(t >= 3 * h, t <= 4 * h), c >= 0)))

    def lemma_polar(self, r, a, y, x):
        """atan2(r sin a, r cos a) for r > 0 and 0 <= a < 2 pi."""
        ca, sa = num(shadow.MATH.cos(a)).z, num(shadow.MATH.sin(a)).z
        th = num(shadow.MATH.atan2(y, x)).z
        r, a, y, x = num(r).z, num(a).z, num(y).z, num(x).z
        p = q(sym.PI)
        self.ex.axiom(z3.Implies(z3.And(r > 0, a >= 0, a < 2 * p, x == r * ca, y == r * sa), th == z3.If(a <= p, a, a - 2 * p)))

    def lemma_acute(self, y1, x1, y2, x2):
        """Two vectors with a non-negative dot product are at most 90 degrees apart."""
        d = num(shadow.MATH.atan2(y2, x2)).z - num(shadow.MATH.atan2(y1, x1)).z
        y1, x1, y2, x2 = num(y1).z, num(x1).z, num(y2).z, num(x2).z
        h = q(sym.PI / 2)
        nz = z3.And(z3.Or(x1 != 0, y1 != 0), z3.Or(x2 != 0, y2 != 0))
        self.ex.axiom(z3.Implies(z3.And(nz, x1 * x2 + y1 * y2 >= 0), z3.Or(z3.And(d >= -h, d <= h), d <= -3 * h, d >= 3 * h)))

    def lemma_angle_add(self, a, b):
        """cos/sin of a+b."""
        ca, sa = num(shadow.MATH.cos(a)), num(shadow.MATH.sin(a))
        cb, sb = num(shadow.MATH.cos(b)), num(shadow.MATH.sin(b))
        t = num(a) + num(b)
        ct, st = num(shadow.MATH.cos(t)), num(shadow.MATH.sin(t))
        self.ex.axiom(z3.And(ct.z == ca.z * cb.z - sa.z * sb.z, st.z == sa.z * cb.z + ca.z * sb.z))

    def lemma_congruence(self):
        """Equal angles have equal cos and sin: all pairs of angles used so far."""
        args = self.ex.memo.get('trigargs', [])
        for i, (x, c, s) in enumerate(args):
            for x2, c2, s2 in args[:i]:
                self.ex.axiom(z3.Implies(x.z == x2.z, z3.And(num(c).z == num(c2).z, num(s).z == num(s2).z)))

    def lemma_period(self, a, k):
        """cos/sin(a + 2 k pi) = cos/sin a."""
        t = num(a) + num(2 * k) * SNum(sym.PI)
        ca, sa = num(shadow.MATH.cos(a)), num(shadow.MATH.sin(a))
        ct, st = num(shadow.MATH.cos(t)), num(shadow.MATH.sin(t))
        self.ex.axiom(z3.And(ct.z == ca.z, st.z == sa.z))

    # -- files
    def path(self, name, text=None):
        """Path of a scratch file, holding `text` if given."""
        p = '/vt/' + name
        fs = self.ex.memo.setdefault('files', {})
        if text is not None:
            fs[p] = [text]
        return p

    def written(self, path):
        """Texts written to a file, one per stretch between loops over unbounded lists."""
        fs = self.ex.memo.get('files', {})
        return ''.join(fs.get(path, [])).split(shadow.GAP)

    def explicit_digits(self):
        """Model formatted numbers digit by digit from here on."""
        self.ex.memo['general_digits'] = True
        self.ex.memo['fixed_digits'] = True

    def lazy_numbers(self):
        """Keep the text of formatted floats whole: code that looks into it is refused."""
        self.ex.memo['lazy_numbers'] = True

    def axiom(self, c):
        self.ex.axiom(zb(c))


def _n(x):
    return isinstance(x, (int, float, SNum, SBool)) and not isinstance(x, bool)
