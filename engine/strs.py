"""Symbolic text.

A symbolic string is an ordinary Python str in which some characters are
*sentinels* (code points >= U+F0000) described by the per-path table:

  ('d', term)            one decimal digit, value `term` (z3 Int, 0..9)
  ('c', term, lo, hi)    one character with code point `term`
  ('num', value, exponent?, float?)         the whole text of a formatted float, never looked into
  ('run', group, part)   a non-empty run of decimal digits of unknown length, part
                         `part` of formatted number `group`

Concatenation, slicing, join and iteration are native; every operation that
inspects characters is routed here by transform.py and decides sentinel
characters by branching (so all cases are explored).  Anything not implemented
raises Unsupported.
"""
import re
try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:                      # pragma: no cover
    import sre_parse
    import sre_constants as sre_c
from fractions import Fraction
import z3
from . import sym
from .sym import SNum, SBool, Unsupported, num, mkbool, q

BASE = 0xF0000
SENT = re.compile('[\U000F0000-\U000FFFFF]')


def has_sym(s):
    return isinstance(s, str) and SENT.search(s) is not None


def table():
    c = sym.cur()
    t = c.memo.get('strtab')
    if t is None:
        t = c.memo['strtab'] = []
        c.memo['groups'] = []
    return t


def new_sentinel(entry):
    t = table()
    t.append(entry)
    if len(t) > 0xFFFF:
        raise Unsupported('too many symbolic characters')
    return chr(BASE + len(t) - 1)


def entry(ch):
    return table()[ord(ch) - BASE]


def is_sent(ch):
    return ord(ch) >= BASE


def new_digit(term=None, name='dig'):
    c = sym.cur()
    if term is None:
        term = z3.Int(c.fresh_name(name))
        c.axiom(z3.And(term >= 0, term <= 9))
    return new_sentinel(('d', term))


def new_char(lo=32, hi=126, name='chr', exclude=''):
    c = sym.cur()
    term = z3.Int(c.fresh_name(name))
    c.axiom(z3.And(term >= lo, term <= hi))
    for x in exclude:
        c.axiom(term != ord(x))
    e = ('c', term, lo, hi)
    restrict(e, set(range(lo, hi + 1)) - set(map(ord, exclude)))
    return new_sentinel(e)


class Group(object):
    """A formatted non-negative number; `value` its numeric value as text."""

    def __init__(self, value, parts):
        self.value = value
        self.parts = parts
        self.chars = None


# ---- characters --------------------------------------------------------------
def char_eq(a, b):
    """bool / SBool: characters equal."""
    if a == b:
        return True
    sa, sb = is_sent(a), is_sent(b)
    if not sa and not sb:
        return False
    if not sa:
        a, b, sa, sb = b, a, sb, sa
    ea = entry(a)
    if ea[0] == 'num' or (sb and entry(b)[0] == 'num'):
        if not sb and b not in NUMCHARS:
            return False
        raise Unsupported('character of a formatted number')
    if not sb:
        if ea[0] == 'd':
            return mkbool(ea[1] == int(b)) if b in '0123456789' else False
        if ea[0] == 'c':
            return mkbool(ea[1] == ord(b)) if ord(b) in known(ea) else False
        if b in '0123456789':
            raise Unsupported('digit run compared with a digit')
        return False
    eb = entry(b)
    if ea[0] == 'run' or eb[0] == 'run':
        if ea[0] == 'c' or eb[0] == 'c':
            raise Unsupported('digit run compared with a symbolic character')
        raise Unsupported('digit runs compared')
    ta = ea[1] if ea[0] == 'c' else ea[1] + 48
    tb = eb[1] if eb[0] == 'c' else eb[1] + 48
    return mkbool(ta == tb)


def char_in(ch, chars):
    """bool: is ch one of the concrete/symbolic characters (branches)."""
    if not is_sent(ch) and not has_sym(chars):
        return ch in chars
    if is_sent(ch) and not has_sym(chars):
        return in_ranges(ch, [(ord(x), ord(x)) for x in chars])
    for x in chars:
        if bool(char_eq(ch, x)):
            return True
    return False


def in_ranges(ch, ranges, negate=False):
    """bool (branches): code point in one of the inclusive ranges."""
    if not is_sent(ch):
        r = any(lo <= ord(ch) <= hi for lo, hi in ranges)
        return r != negate
    e = entry(ch)
    if e[0] == 'num':
        hit = [any(lo <= ord(c) <= hi for lo, hi in ranges) for c in NUMCHARS]
        if all(hit) or not any(hit):
            return hit[0] != negate
        raise Unsupported('formatted number against a partial character class')
    if e[0] == 'd' or e[0] == 'run':
        ds = [d for d in range(10) if any(lo <= 48 + d <= hi for lo, hi in ranges)]
        if len(ds) == 10:
            return not negate
        if not ds:
            return negate
        if e[0] == 'run':
            raise Unsupported('digit run against a partial digit class')
        r = bool(mkbool(z3.Or([e[1] == d for d in ds])))
        return r != negate
    t = e[1]
    p = known(e)
    hit = frozenset(x for x in p if any(lo <= x <= hi for lo, hi in ranges))
    if len(hit) == len(p) or not hit:
        return bool(hit) != negate
    r = bool(mkbool(z3.Or([z3.And(t >= lo, t <= hi) for lo, hi in ranges])))
    sym.cur().memo['codes'][t.get_id()] = (t, hit if r else p - hit)
    return r != negate


def known(e):
    """Code points a character can have as far as this path has decided."""
    codes = sym.cur().memo.setdefault('codes', {})
    k = e[1].get_id()
    if k not in codes:
        codes[k] = (e[1], frozenset(range(e[2], e[3] + 1)))
    return codes[k][1]


def restrict(e, points):
    known(e)
    sym.cur().memo['codes'][e[1].get_id()] = (e[1], frozenset(points))


WS = [(9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0)]
DIG = [(48, 57)]
NUMCHARS = '0123456789.e+-'    # of a finite number written by str() or %g


def is_ws(ch):
    if is_sent(ch):
        return in_ranges(ch, WS)
    return ch.isspace()


def str_eq(a, b):
    """bool/SBool equality of two strings (at least one symbolic)."""
    if a == b:
        return True
    ra, rb = _hasrun(a), _hasrun(b)
    if not ra and not rb:
        if len(a) != len(b):
            return False
        acc = []
        for x, y in zip(a, b):
            r = char_eq(x, y)
            if r is False:
                return False
            if r is not True:
                acc.append(r.e)
        return mkbool(z3.And(acc)) if acc else True
    # runs: decide by structure
    ta, tb = _tokens(a), _tokens(b)
    if len(ta) == len(tb) and all((x[0] == y[0]) for x, y in zip(ta, tb)):
        # same shape: equal iff separators equal and runs equal
        ok = True
        for x, y in zip(ta, tb):
            if x[0] == 'lit':
                r = str_eq(x[1], y[1]) if (has_sym(x[1]) or has_sym(y[1])) else x[1] == y[1]
                if r is False:
                    return False
                if r is not True:
                    raise Unsupported('string equality with runs')
            elif x[1] != y[1]:
                ok = False
        if ok:
            return True
        ga, gb = _whole_value(a), _whole_value(b)
        if ga is not None and gb is not None:
            return ga == gb
        raise Unsupported('equality of formatted numbers')
    # different shape: a literal separator character that cannot occur in the other
    la = ''.join(x[1] for x in ta if x[0] == 'lit')
    lb = ''.join(x[1] for x in tb if x[0] == 'lit')
    if any(is_sent(c) and entry(c)[0] == 'num' for c in a + b):
        raise Unsupported('string equality with formatted numbers: %r %r' % (show(a), show(b)))
    nd = lambda s: [c for c in s if not c.isdigit()]
    if not has_sym(la) and not has_sym(lb) and nd(la) != nd(lb):
        return False
    raise Unsupported('string equality with digit runs: %r %r' % (show(a), show(b)))


def _whole_value(s):
    try:
        return to_number(s, allow_ws=False)
    except (ValueError, Unsupported):
        return None


def _hasrun(s):
    return any(is_sent(c) and entry(c)[0] in ('run', 'num') for c in s)


def _tokens(s):
    out = []
    for c in s:
        if is_sent(c) and entry(c)[0] in ('run', 'num'):
            out.append(('run', c))
        elif out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + c)
        else:
            out.append(('lit', c))
    return out


def show(s):
    out = []
    for c in s:
        if is_sent(c):
            out.append({'d': '\u2460', 'c': '?', 'run': '#', 'num': '#'}[entry(c)[0]])
        else:
            out.append(c)
    return ''.join(out)


# ---- numbers -----------------------------------------------------------------
def to_number(s, want_int=False, allow_ws=True):
    """float(s) / int(s) of a symbolic string."""
    if allow_ws:
        s = do_strip(s, None)
    if not s:
        raise ValueError('could not convert string to %s' % ('int' if want_int else 'float'))
    if len(s) == 1 and is_sent(s) and entry(s)[0] == 'num':
        if want_int:
            if not entry(s)[3]:
                raise Unsupported('int() of a formatted number')
            raise ValueError('invalid literal for int(): %r' % show(s))
        return entry(s)[1]
    i = 0
    neg = False
    if char_in(s[0], '+-'):
        neg = bool(char_eq(s[0], '-'))
        i = 1
    body = s[i:]
    if _hasrun(body):
        v = _run_value(body, want_int)
        return -v if neg else v
    ip, fp, ex, st = [], [], None, 0
    for k, ch in enumerate(body):
        if in_ranges(ch, DIG):
            t = digit_term(ch)
            (ip if st == 0 else fp).append(t)
        elif not want_int and st == 0 and bool(char_eq(ch, '.')):
            st = 1
        elif not want_int and char_in(ch, 'eE'):
            rest = body[k + 1:]
            ex = to_number(rest, True, False)
            if isinstance(ex, SNum):
                if not ex.const:
                    raise Unsupported('symbolic exponent text')
                ex = int(ex.v)
            break
        else:
            raise ValueError('invalid literal for number: %r' % show(s))
    if not ip and not fp:
        raise ValueError('invalid literal for number: %r' % show(s))
    digs = ip + fp
    const = Fraction(0)
    terms = []
    for k, t in enumerate(digs):
        w = Fraction(10) ** (len(ip) - 1 - k + (ex or 0))
        if isinstance(t, int):
            const += w * t
        else:
            terms.append((w, t))
    if want_int:
        e = z3.IntVal(int(const))
        for w, t in terms:
            e = e + int(w) * t
        v = SNum(z3.simplify(e), True) if terms else SNum(const, True)
    else:
        if not terms:
            v = SNum(const, False)
        else:
            # one integer sum scaled once: keeps linear-integer structure
            lo = min([w for w, t in zip([Fraction(10) ** (len(ip) - 1 - k + (ex or 0)) for k in range(len(digs))], digs)
                      if not isinstance(t, int) or t])
            e = z3.IntVal(0)
            for w, t in terms:
                e = e + int(w / lo) * t
            if const:
                e = e + int(const / lo)
            e = z3.simplify(e)
            v = SNum(z3.ToReal(e) * q(lo), False)
            chars = ''.join(ch for ch in body if ch != '.' and (is_sent(ch) or ch.isdigit()))
            remember_digits(z3.ToReal(e) if lo >= 1 else z3.ToReal(e), chars)
            low = Fraction(10) ** (-len(fp))
            if lo != low:
                remember_digits(z3.ToReal(e) * q(lo / low), chars)
    return -v if neg else v


def digit_term(ch):
    if not is_sent(ch):
        return int(ch)
    e = entry(ch)
    if e[0] == 'd':
        return e[1]
    if e[0] == 'c':
        return e[1] - 48
    raise Unsupported('digit run as a digit')


def _run_value(body, want_int):
    first = entry(body[0])
    lead = ''
    k = 0
    while first[0] != 'run':
        # leading concrete zeros are harmless
        if body[k] == '0':
            k += 1
            first = entry(body[k]) if is_sent(body[k]) else ('x',)
            continue
        if not in_ranges(body[k], DIG + [(46, 46)]):
            raise ValueError('invalid literal for number: %r' % show(body))
        raise Unsupported('number text mixing digits and a formatted number: %r' % show(body))
    body = body[k:]
    g = sym.cur().memo['groups'][first[1]]
    if body == g.chars:
        if want_int and g.parts != 'int':
            raise ValueError('invalid literal for int(): %r' % show(body))
        return g.value
    if want_int and g.parts == 'int':
        pass
    if any(not is_sent(c) and c not in '0123456789.eE+-' for c in body):
        raise ValueError('invalid literal for number: %r' % show(body))
    if not want_int and body == g.chars + '.0':
        return SNum(g.value.z, False)
    raise Unsupported('partial formatted number %r' % show(body))


def emit_group(value, form):
    """Text of a non-negative number with unknown digits.
    form: 'int', 'dec', 'exp', 'decexp' """
    t = table()
    c = sym.cur()
    gid = len(c.memo['groups'])
    g = Group(value, form)
    c.memo['groups'].append(g)
    r = lambda p: new_sentinel(('run', gid, p))
    if form == 'int':
        s = r('i')
    elif form == 'dec':
        s = r('i') + '.' + r('f')
    elif form in ('exp-', 'exp+'):
        s = r('i') + 'e' + form[3] + r('e')
    elif form in ('decexp-', 'decexp+'):
        s = r('i') + '.' + r('f') + 'e' + form[6] + r('e')
    else:
        raise Unsupported(form)
    g.chars = s
    return s


def _sign(x, text_abs, plus=''):
    neg = bool(x < 0)
    return ('-' if neg else plus) + text_abs(-x if neg else x)


def str_of(x):
    """str(number)."""
    if isinstance(x, SBool):
        return str(bool(x))
    if x.const:
        return str(x.pyval())
    if x.isint:
        if sym.cur().memo.get('general_digits'):
            return _sign(x, lambda a: int_digits(a, 1))
        return _sign(x, lambda a: emit_group(a, 'int'))

    if sym.cur().memo.get('lazy_numbers'):
        a = z3.If(x.z < 0, -x.z, x.z)
        return new_sentinel(('num', x, z3.Or(z3.And(a > 0, a < q(Fraction(1, 10000))), a >= q(10 ** 16)), True))

    def fa(a):
        if bool(a == 0):
            return '0.0'
        if bool(a < Fraction(1, 10000)):
            return emit_group(a, ['exp-', 'decexp-'][sym.cur().fork(2)])
        if bool(a >= 10 ** 16):
            return emit_group(a, ['exp+', 'decexp+'][sym.cur().fork(2)])
        return emit_group(a, 'dec')
    return _sign(x, fa)


def fixed_of(x, prec, width=0, zero=False, plus='', digits=None):
    """'%0W.Pf' of a symbolic real."""
    if x.const:
        return ('%' + plus + ('0' if zero else '') + (str(width) if width else '') + '.%df' % prec) % float(x.v)
    c = sym.cur()
    if c.memo.get('lazy_numbers') and not zero and not width and not plus:
        return new_sentinel(('num', sym.round_(x, prec) if not x.isint else x, z3.BoolVal(False), prec > 0))
    neg = bool(x < 0)
    a = -x if neg else x
    y = a.z * q(Fraction(10) ** prec)
    sign = '-' if neg else plus
    if not zero and not width and not c.memo.get('fixed_digits'):
        # nearest multiple of 10^-prec, text kept abstract
        n = z3.Int(c.fresh_name('N'))
        c.axiom(z3.And(n >= 0, z3.ToReal(n) - y <= q(Fraction(1, 2)), y - z3.ToReal(n) <= q(Fraction(1, 2))))
        val = SNum(z3.ToReal(n) * q(Fraction(1, 10 ** prec)), False)
        return sign + emit_group(val, 'dec' if prec else 'int')
    digs = rounded_digits(y, prec + 1)
    txt = digs[:len(digs) - prec] + ('.' + digs[len(digs) - prec:] if prec else '')
    return pad(sign + txt, width, zero, sign)


def remember_digits(real_term, chars):
    """real_term == the integer denoted by the digit characters."""
    c = sym.cur()
    c.memo.setdefault('digits', {})[z3.simplify(real_term).sexpr()] = chars


def rounded_digits(y, mindigits):
    """Digit characters of round(y), y >= 0: at least mindigits of them, no further leading zero.
    Branches on the number of digits."""
    c = sym.cur()
    known = c.memo.get('digits', {}).get(z3.simplify(y).sexpr())
    if known is not None:
        known = '0' * (mindigits - len(known)) + known
        while len(known) > mindigits and bool(char_eq(known[0], '0')):
            known = known[1:]
        return known
    half = q(Fraction(1, 2))
    k = mindigits
    while not bool(mkbool(y < q(10 ** k) - half)):
        k += 1
        if k > 18:
            raise Unsupported('formatted number of more than 18 digits')
    ds = [z3.Int(c.fresh_name('dg')) for _ in range(k)]
    for d in ds:
        c.axiom(z3.And(d >= 0, d <= 9))
    if k > mindigits:
        c.axiom(ds[0] >= 1)
    e = z3.IntVal(0)
    for i, d in enumerate(ds):
        e = e + (10 ** (k - 1 - i)) * d
    e = z3.ToReal(z3.simplify(e))
    c.axiom(z3.And(e - y <= half, y - e <= half))
    chars = ''.join(new_sentinel(('d', d)) for d in ds)
    remember_digits(e, chars)
    return chars


def int_digits(n, mindigits):
    """Digits of a non-negative symbolic int, at least mindigits (branching on length)."""
    c = sym.cur()
    k = mindigits
    while True:
        if bool(n < 10 ** k):
            if k > mindigits:
                c.axiom(n.zi >= 10 ** (k - 1))
            break
        k += 1
        if k > 18:
            raise Unsupported('formatted integer of more than 18 digits')
    ds = [z3.Int(c.fresh_name('dg')) for _ in range(k)]
    for d in ds:
        c.axiom(z3.And(d >= 0, d <= 9))
    e = z3.IntVal(0)
    for i, d in enumerate(ds):
        e = e + (10 ** (k - 1 - i)) * d
    c.axiom(n.zi == e)
    return ''.join(new_sentinel(('d', d)) for d in ds)


def pad(txt, width, zero, sign='', left=False):
    if _hasrun(txt) and width:
        raise Unsupported('padding a formatted number of unknown width')
    if len(txt) >= width:
        return txt
    if left:
        return txt + ' ' * (width - len(txt))
    if zero:
        return sign + '0' * (width - len(txt)) + txt[len(sign):]
    return ' ' * (width - len(txt)) + txt


def int_of(x, width=0, zero=False, plus='', left=False):
    if x.const:
        v = int(x.v)
        return ('%' + plus + ('-' if left else '') + ('0' if zero else '') + (str(width) if width else '') + 'd') % v
    if not x.isint:
        x = sym.trunc(x)
    neg = bool(x < 0)
    a = -x if neg else x
    sign = '-' if neg else plus
    if not width and not sym.cur().memo.get('general_digits'):
        # keep the number of digits abstract
        return sign + emit_group(a, 'int')
    digs = int_digits(a, 1)
    return pad(sign + digs, width, zero, sign, left)


def general_of(x, prec, plus='', width=0, zero=False):
    """'%.Pg' of a symbolic real."""
    if x.const:
        return ('%' + plus + ('0' if zero else '') + (str(width) if width else '') + '.%dg' % prec) % float(x.v)
    if width > 1 or (zero and width > 1):
        raise Unsupported('padded %g')
    if prec == 0:
        prec = 1
    c = sym.cur()
    if c.memo.get('lazy_numbers') and not width and not plus:
        key = ('general', prec, z3.simplify(x.z).sexpr())
        if key in c.memo:
            return c.memo[key]
        y = z3.Real(c.fresh_name('g'))
        a, b = z3.If(x.z < 0, -x.z, x.z), z3.If(y < 0, -y, y)
        half = q(Fraction(5, 10 ** prec))
        c.axiom(z3.And(y - x.z <= half * a, x.z - y <= half * a))
        r = c.memo[key] = new_sentinel(('num', SNum(y, False), z3.Or(z3.And(b > 0, b < q(Fraction(1, 10000))), b >= q(10 ** prec)), False))
        return r
    neg = bool(x < 0)
    a = -x if neg else x
    sign = '-' if neg else plus
    if bool(a == 0):
        return sign + '0'
    if c.memo.get('general_digits'):
        return sign + general_digits(a, prec)
    y = z3.Real(c.fresh_name('g'))
    half = q(Fraction(5, 10 ** prec))
    c.axiom(z3.And(y > 0, y - a.z <= half * a.z, a.z - y <= half * a.z))
    # values that are exactly representable with `prec` significant digits print exactly
    c.memo.setdefault('gvals', []).append((a, prec, y))
    for k in range(-4, prec):
        # 10^k <= a < 10^(k+1): resolution 10^(k-prec+1)
        res = Fraction(10) ** (k - prec + 1)
        cond = z3.And(a.z >= q(Fraction(10) ** k), a.z < q(Fraction(10) ** (k + 1)))
        c.axiom(z3.Implies(cond, z3.And(z3.IsInt(y * q(1 / res)), y - a.z <= q(res / 2), a.z - y <= q(res / 2),
                                        y >= q(Fraction(10) ** k), y <= q(Fraction(10) ** (k + 1)))))
    v = SNum(y, False)
    if bool(v < Fraction(1, 10000)):
        return sign + emit_group(v, ['exp-', 'decexp-'][c.fork(2)])
    if bool(v >= 10 ** prec):
        return sign + emit_group(v, ['exp+', 'decexp+'][c.fork(2)])
    if bool(mkbool(z3.IsInt(y))):
        return sign + emit_group(v, 'int')
    return sign + emit_group(v, 'dec')


def general_digits(a, prec):
    """'%.Pg' of a positive real, digit by digit (branches on exponent and trailing zeros)."""
    c = sym.cur()
    for k in range(-5, prec):
        res = Fraction(10) ** (k - prec + 1)
        if bool(a < Fraction(10) ** (k + 1) - res / 2):
            break
    else:
        k = prec
    if k == -5 or k == prec:
        raise Unsupported('%g text with an exponent')
    ds = [z3.Int(c.fresh_name('dg')) for _ in range(prec)]
    for d in ds:
        c.axiom(z3.And(d >= 0, d <= 9))
    c.axiom(ds[0] >= 1)
    e = z3.IntVal(0)
    for i, d in enumerate(ds):
        e = e + (10 ** (prec - 1 - i)) * d
    e = z3.ToReal(z3.simplify(e))
    y = a.z * q(1 / res)
    half = q(Fraction(1, 2))
    c.axiom(z3.And(e - y <= half, y - e <= half))
    txt = ''.join(new_sentinel(('d', d)) for d in ds)
    if k < 0:
        ip, fp = '0', '0' * (-k - 1) + txt
    else:
        ip, fp = txt[:k + 1], txt[k + 1:]
    while fp and bool(char_eq(fp[-1], '0')):
        fp = fp[:-1]
    return ip + '.' + fp if fp else ip


SPEC = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>.)')


def mod_format(fmt, args):
    """fmt % args"""
    if has_sym(fmt):
        raise Unsupported('symbolic format string')
    isdict = isinstance(args, dict)
    seq = list(args) if isinstance(args, tuple) else [args]
    if not isdict and not any(isinstance(a, (SNum, SBool)) or has_sym(a) or _deep(a) for a in seq):
        return fmt % args
    out, pos, k = [], 0, 0

    def nxt():
        nonlocal k
        if k >= len(seq):
            raise TypeError('not enough arguments for format string')
        k += 1
        return seq[k - 1]
    while True:
        i = fmt.find('%', pos)
        if i < 0:
            out.append(fmt[pos:])
            break
        out.append(fmt[pos:i])
        m = SPEC.match(fmt, i)
        if not m:
            raise ValueError('incomplete format')
        pos = m.end()
        conv = m.group('conv')
        if conv == '%':
            out.append('%')
            continue
        flags = m.group('flags')
        width = m.group('width')
        prec = m.group('prec')
        width = int(nxt()) if width == '*' else (int(width) if width else 0)
        prec = int(nxt()) if prec == '*' else (int(prec) if prec is not None else None)
        v = args[m.group('key')] if m.group('key') is not None else nxt()
        out.append(one_format(v, conv, flags, width, prec))
    if not isdict and k < len(seq):
        raise TypeError('not all arguments converted during string formatting')
    return ''.join(out)


def _deep(a):
    if isinstance(a, (list, tuple)):
        return any(isinstance(x, (SNum, SBool)) or has_sym(x) or _deep(x) for x in a)
    return not isinstance(a, (str, int, float, type(None)))


def one_format(v, conv, flags, width, prec):
    zero = '0' in flags
    plus = '+' if '+' in flags else (' ' if ' ' in flags else '')
    left = '-' in flags
    if conv in 'sr' or conv == 'a':
        s = v if isinstance(v, str) else to_str(v)
        if conv == 'r' and isinstance(v, str):
            s = repr(v)
        if prec is not None:
            s = s[:prec]
        if width:
            return pad(s, width, False, '', left)
        return s
    if isinstance(v, SBool):
        v = num(v)
    if isinstance(v, SNum):
        if conv in 'diu':
            return int_of(v, width, zero, plus, left)
        if left and not v.const:
            raise Unsupported('left-justified number')
        if conv in 'fF':
            return fixed_of(v, 6 if prec is None else prec, width, zero, plus)
        if conv in 'gG':
            return general_of(v, 6 if prec is None else prec, plus, width, zero)
        raise Unsupported('%%%s of a symbolic number' % conv)
    spec = '%' + flags + (str(width) if width else '') + ('.%d' % prec if prec is not None else '') + conv
    return spec % (v,)


FSPEC = re.compile(r'^(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[+\- ])?(?P<zero>0)?(?P<width>\d+)?(?P<comma>,)?(?:\.(?P<prec>\d+))?(?P<conv>[a-zA-Z%])?$')


def format_of(v, spec):
    if isinstance(v, SBool):
        v = bool(v)
    if isinstance(v, SNum) and v.const:
        return format(v.pyval(), spec)
    if isinstance(v, str):
        if not has_sym(v) or spec == '':
            return format(v, spec)
    elif not isinstance(v, SNum):
        return format(v, spec) if spec else to_str(v)
    if spec == '':
        return to_str(v)
    m = FSPEC.match(spec)
    if not m or m.group('comma') or m.group('fill') not in (None, ' ', '0'):
        raise Unsupported('format spec %r' % spec)
    width = int(m.group('width') or 0)
    prec = m.group('prec')
    conv = m.group('conv')
    align = m.group('align')
    zero = bool(m.group('zero'))
    plus = m.group('sign') or ''
    plus = '' if plus == '-' else plus
    if isinstance(v, str):
        if conv not in (None, 's') or prec:
            raise Unsupported('format spec %r' % spec)
        return pad(v, width, False, '', align in (None, '<'))
    if conv is None:
        conv = 'd' if v.isint and prec is None else ('g' if prec is not None else 's')
    if align not in (None, '>', '='):
        raise Unsupported('format spec %r' % spec)
    return one_format(v, conv, ('0' if zero else '') + plus, width, int(prec) if prec else None)


def do_format(fmt, args, kwargs):
    import string
    if has_sym(fmt):
        raise Unsupported('symbolic format string')
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        head = re.match(r'[^.\[]*', field).group(0)
        rest = field[len(head):]
        if head == '':
            v = args[auto]
            auto += 1
        elif head.isdigit():
            v = args[int(head)]
        else:
            v = kwargs[head]
        while rest:
            m = re.match(r'\.(\w+)|\[([^\]]*)\]', rest)
            if m.group(1):
                v = getattr(v, m.group(1))
            else:
                kx = m.group(2)
                v = v[int(kx) if kx.isdigit() else kx]
            rest = rest[m.end():]
        if conv == 's':
            v = to_str(v)
        elif conv == 'r':
            v = to_repr(v)
        if spec and '{' in spec:
            spec = do_format(spec, args[auto:], kwargs)
        out.append(format_of(v, spec or ''))
    return ''.join(out)


def to_str(v):
    if isinstance(v, str):
        return v
    if isinstance(v, (SNum, SBool)):
        return str_of(v)
    if isinstance(v, (tuple, list)) and _deep(v):
        inner = ', '.join(to_repr(x) for x in v)
        if isinstance(v, tuple):
            return '(' + inner + (',)' if len(v) == 1 else ')')
        return '[' + inner + ']'
    r = type(v).__str__(v) if type(v).__str__ is not object.__str__ else repr(v)
    return r


def to_repr(v):
    if isinstance(v, str):
        if has_sym(v):
            return "'" + v + "'"
        return repr(v)
    if isinstance(v, (SNum, SBool)):
        return str_of(v)
    return to_str(v) if isinstance(v, (tuple, list)) else repr(v)


# ---- str methods ---------------------------------------------------------------
def do_strip(s, chars, left=True, right=True):
    test = is_ws if chars is None else (lambda c: char_in(c, chars))
    i, j = 0, len(s)
    if left:
        while i < j and test(s[i]):
            i += 1
    if right:
        while j > i and test(s[j - 1]):
            j -= 1
    return s[i:j]


def eqb(a, b):
    if not has_sym(a) and not has_sym(b):
        return a == b
    return bool(str_eq(a, b))


def starts_at(s, sub, i):
    """sub concrete or symbolic at i"""
    if i + len(sub) > len(s):
        # a run could be longer than one character, but sub of digits against
        # runs is Unsupported anyway
        pass
    seg = s[i:i + len(sub)]
    if len(seg) < len(sub):
        for x, y in zip(seg, sub):
            if is_sent(x) and entry(x)[0] in ('run', 'num') and y.isdigit():
                raise Unsupported('prefix test inside a digit run')
        return False
    for x, y in zip(seg, sub):
        if is_sent(x) or is_sent(y):
            if not bool(char_eq(x, y)):
                return False
        elif x != y:
            return False
    return True


def _find(s, sub, start=0, end=None):
    end = len(s) if end is None else min(end, len(s))
    if start < 0:
        start = max(0, len(s) + start)
    s2 = s[:end]
    for i in range(start, len(s2) - len(sub) + 1):
        if starts_at(s2, sub, i):
            return i
    return -1


def contains(s, sub):
    if sub in ('e', 'E') and any(is_sent(c) and entry(c)[0] == 'num' for c in s):
        return any([bool(mkbool(entry(c)[2])) if is_sent(c) and entry(c)[0] == 'num' and sub == 'e'
                    else not (is_sent(c) and entry(c)[0] == 'num') and bool(char_eq(c, sub)) for c in s])
    return _find(s, sub) >= 0


def _split(s, sep=None, maxsplit=-1):
    out = []
    if sep is None:
        i = 0
        n = len(s)
        while i < n:
            while i < n and is_ws(s[i]):
                i += 1
            if i >= n:
                break
            if 0 <= maxsplit <= len(out):
                out.append(do_strip(s[i:], None, left=False))
                return out
            j = i
            while j < n and not is_ws(s[j]):
                j += 1
            out.append(s[i:j])
            i = j
        return out
    i = 0
    while True:
        if 0 <= maxsplit <= len(out):
            break
        k = _find(s, sep, i)
        if k < 0:
            break
        out.append(s[i:k])
        i = k + len(sep)
    out.append(s[i:])
    return out


def _replace(s, a, b, count=-1):
    return b.join(_split(s, a, count))


def _isdigit(s):
    return len(s) > 0 and all(in_ranges(c, DIG) for c in s)


def _splitlines(s, keepends=False):
    out, curs = [], ''
    i = 0
    while i < len(s):
        c = s[i]
        if char_in(c, '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'):
            out.append(curs + (c if keepends else ''))
            curs = ''
            if bool(char_eq(c, '\r')) and i + 1 < len(s) and bool(char_eq(s[i + 1], '\n')):
                i += 1
        else:
            curs += c
        i += 1
    if curs:
        out.append(curs)
    return out


def _case(s, up):
    out = []
    for c in s:
        if is_sent(c) and entry(c)[0] == 'c':
            e = entry(c)
            if in_ranges(c, [(97, 122)] if up else [(65, 90)]):
                e2 = ('c', e[1] + (-32 if up else 32), 0, 127)
                restrict(e2, [x + (-32 if up else 32) for x in known(e)])
                out.append(new_sentinel(e2))
            else:
                out.append(c)
        elif is_sent(c):
            out.append(c)
        else:
            out.append(c.upper() if up else c.lower())
    return ''.join(out)


def str_method(s, name, args, kwargs):
    """Dispatch of s.name(*args) where s or an argument is symbolic."""
    if name == 'join':
        it = list(args[0])
        return s.join(it)
    if name == 'format':
        return do_format(s, args, kwargs)
    if name == 'strip':
        return do_strip(s, args[0] if args else None)
    if name == 'lstrip':
        return do_strip(s, args[0] if args else None, right=False)
    if name == 'rstrip':
        return do_strip(s, args[0] if args else None, left=False)
    if name == 'startswith':
        if len(args) > 1:
            s = s[args[1]:]
        p = args[0]
        return any(starts_at(s, x, 0) for x in (p if isinstance(p, tuple) else (p,)))
    if name == 'endswith':
        p = args[0]
        return any(len(x) <= len(s) and starts_at(s, x, len(s) - len(x)) for x in (p if isinstance(p, tuple) else (p,)))
    if name == 'find':
        return _find(s, *args)
    if name == 'index':
        r = _find(s, *args)
        if r < 0:
            raise ValueError('substring not found')
        return r
    if name == 'rfind':
        sub = args[0]
        for i in range(len(s) - len(sub), -1, -1):
            if starts_at(s, sub, i):
                return i
        return -1
    if name == 'split':
        return _split(s, *args, **kwargs)
    if name == 'rsplit' and (len(args) > 1 or kwargs):
        raise Unsupported('rsplit')
    if name == 'rsplit':
        return _split(s, *args)
    if name == 'partition':
        k = _find(s, args[0])
        return (s, '', '') if k < 0 else (s[:k], args[0], s[k + len(args[0]):])
    if name == 'replace':
        return _replace(s, *args)
    if name in ('isdigit', 'isdecimal', 'isnumeric'):
        return _isdigit(s)
    if name == 'isspace':
        return len(s) > 0 and all(is_ws(c) for c in s)
    if name == 'isalpha':
        return len(s) > 0 and all(in_ranges(c, [(65, 90), (97, 122)]) for c in s)
    if name == 'isalnum':
        return len(s) > 0 and all(in_ranges(c, [(48, 57), (65, 90), (97, 122)]) for c in s)
    if name == 'upper':
        return _case(s, True)
    if name == 'lower':
        return _case(s, False)
    if name == 'splitlines':
        return _splitlines(s, *args)
    if name == 'zfill':
        if _hasrun(s):
            raise Unsupported('zfill')
        sign = s[0] if s and char_in(s[0], '+-') else ''
        return pad(s, args[0], True, sign)
    if name == 'rjust' or name == 'ljust':
        if _hasrun(s):
            raise Unsupported(name)
        fill = (args[1] if len(args) > 1 else ' ') * max(0, args[0] - len(s))
        return fill + s if name == 'rjust' else s + fill
    if name == 'count':
        n, i = 0, 0
        while True:
            k = _find(s, args[0], i)
            if k < 0:
                return n
            n += 1
            i = k + max(1, len(args[0]))
    if name == '__len__':
        return str_len(s)
    if name == 'removeprefix':
        return s[len(args[0]):] if starts_at(s, args[0], 0) else s
    if name == 'encode':
        raise Unsupported('encode')
    raise Unsupported('str.%s on symbolic text' % name)


def str_len(s):
    if _hasrun(s):
        raise Unsupported('length of a formatted number')
    return len(s)


# ---- regular expressions --------------------------------------------------------
class Match(object):
    def __init__(self, pat, s, pos, end, groups):
        self.re = pat
        self.string = s
        self._s, self._e, self._g = pos, end, groups

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.native.groupindex[g]
        return g

    def span(self, g=0):
        g = self._idx(g)
        if g == 0:
            return (self._s, self._e)
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = []
        for g in gs:
            a, b = self.span(g)
            r.append(None if a < 0 else self.string[a:b])
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self.group(i) is None else self.group(i)
                     for i in range(1, self.re.native.groups + 1))

    def groupdict(self, default=None):
        return {k: (default if self.group(k) is None else self.group(k))
                for k in self.re.native.groupindex}

    @property
    def lastindex(self):
        raise Unsupported('lastindex')


class Pattern(object):
    """A regular expression usable on symbolic text (native `re` on concrete)."""

    def __init__(self, pattern, flags=0):
        if isinstance(pattern, Pattern):
            pattern, flags = pattern.pattern, pattern.flags
        self.native = re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = flags
        self.groupindex = self.native.groupindex
        self.groups = self.native.groups
        self._tree = None

    @property
    def tree(self):
        if self._tree is None:
            self._tree = list(sre_parse.parse(self.pattern, self.flags))
        return self._tree

    def match(self, s, pos=0):
        if not has_sym(s):
            return self.native.match(s, pos)
        return self._at(s, pos)

    def fullmatch(self, s):
        if not has_sym(s):
            return self.native.fullmatch(s)
        return self._at(s, 0, full=True)

    def search(self, s, pos=0):
        if not has_sym(s):
            return self.native.search(s, pos)
        for i in range(pos, len(s) + 1):
            m = self._at(s, i)
            if m is not None:
                return m
        return None

    def finditer(self, s):
        if not has_sym(s):
            return self.native.finditer(s)
        out, i = [], 0
        while i <= len(s):
            m = self.search(s, i)
            if m is None:
                break
            out.append(m)
            i = m.end() if m.end() > m.start() else m.end() + 1
        return iter(out)

    def findall(self, s):
        if not has_sym(s):
            return self.native.findall(s)
        r = []
        for m in self.finditer(s):
            n = self.native.groups
            r.append(m.group(0) if n == 0 else (m.group(1) or '') if n == 1 else tuple(x or '' for x in m.groups()))
        return r

    def sub(self, repl, s, count=0):
        if not has_sym(s) and not has_sym(repl):
            return self.native.sub(repl, s, count)
        if not isinstance(repl, str) or '\\' in repl:
            raise Unsupported('re.sub with a template')
        out, i, n = [], 0, 0
        for m in self.finditer(s):
            out.append(s[i:m.start()])
            out.append(repl)
            i = m.end()
            n += 1
            if count and n >= count:
                break
        out.append(s[i:])
        return ''.join(out)

    def split(self, s, maxsplit=0):
        if not has_sym(s):
            return self.native.split(s, maxsplit)
        if maxsplit:
            raise Unsupported('re.split with a limit')
        out, i = [], 0
        for m in self.finditer(s):
            if m.end() == m.start():
                raise Unsupported('re.split at nothing')
            out.append(s[i:m.start()])
            out.extend(m.groups())
            i = m.end()
        out.append(s[i:])
        return out

    def _at(self, s, pos, full=False):
        ic = bool(self.native.flags & re.IGNORECASE)
        for end, groups in self._m(self.tree, s, pos, {}, ic):
            if full and end != len(s):
                continue
            return Match(self, s, pos, end, groups)
        return None

    def _m(self, items, s, i, g, ic):
        if not items:
            yield i, g
            return
        op, av = items[0]
        rest = items[1:]
        name = str(op)
        if name in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'):
            if i < len(s) and self._one(op, av, s[i], ic, single=True):
                for r in self._m(rest, s, i + 1, g, ic):
                    yield r
            return
        if name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            lo, hi, sub = av
            sub = list(sub)
            if name == 'MAX_REPEAT':
                for r in self._rep(lo, hi, sub, rest, s, i, g, ic, 0):
                    yield r
                return
            if name == 'MIN_REPEAT':
                for r in self._rep_min(lo, hi, sub, rest, s, i, g, ic, 0):
                    yield r
                return
            raise Unsupported(name)
        if name == 'SUBPATTERN':
            gid, add, dele, sub = av
            if add or dele:
                raise Unsupported('inline flags')
            for j, g2 in self._m(list(sub), s, i, g, ic):
                if gid is not None:
                    g3 = dict(g2)
                    g3[gid] = (i, j)
                else:
                    g3 = g2
                for r in self._m(rest, s, j, g3, ic):
                    yield r
            return
        if name == 'BRANCH':
            for alt in av[1]:
                for r in self._m(list(alt) + rest, s, i, g, ic):
                    yield r
            return
        if name == 'AT':
            a = str(av)
            if a in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                ok = i == 0
                if self.native.flags & re.MULTILINE:
                    raise Unsupported('MULTILINE')
            elif a == 'AT_END':
                ok = i == len(s) or (i == len(s) - 1 and bool(char_eq(s[i], '\n')))
            elif a == 'AT_END_STRING':
                ok = i == len(s)
            else:
                raise Unsupported(a)
            if ok:
                for r in self._m(rest, s, i, g, ic):
                    yield r
            return
        if name in ('ASSERT', 'ASSERT_NOT'):
            d, sub = av
            if d < 0:
                raise Unsupported('lookbehind')
            hit = False
            for _ in self._m(list(sub), s, i, g, ic):
                hit = True
                break
            if hit == (name == 'ASSERT'):
                for r in self._m(rest, s, i, g, ic):
                    yield r
            return
        raise Unsupported('regex %s' % name)

    def _rep(self, lo, hi, sub, rest, s, i, g, ic, n, last=None):
        # one iteration may match nothing, but none follows it at the same place
        if (hi is sre_c.MAXREPEAT or n < hi) and (n < lo or last != i):
            for j, g2 in self._m1(sub, s, i, g, ic):
                for r in self._rep(lo, hi, sub, rest, s, j, g2, ic, n + 1, i):
                    yield r
        if n >= lo:
            for r in self._m(rest, s, i, g, ic):
                yield r

    def _rep_min(self, lo, hi, sub, rest, s, i, g, ic, n):
        if n >= lo:
            for r in self._m(rest, s, i, g, ic):
                yield r
        if hi is sre_c.MAXREPEAT or n < hi:
            for j, g2 in self._m1(sub, s, i, g, ic):
                if j == i:
                    continue
                for r in self._rep_min(lo, hi, sub, rest, s, j, g2, ic, n + 1):
                    yield r

    def _m1(self, sub, s, i, g, ic):
        """One repetition body; a single-character body may swallow a digit run."""
        if len(sub) == 1 and str(sub[0][0]) in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'):
            if i < len(s) and self._one(sub[0][0], sub[0][1], s[i], ic, single=False):
                yield i + 1, g
            return
        for r in self._m(sub, s, i, g, ic):
            yield r

    def _one(self, op, av, ch, ic, single):
        name = str(op)
        run = is_sent(ch) and entry(ch)[0] in ('run', 'num')
        if name == 'LITERAL':
            ranges, neg = [(av, av)], False
        elif name == 'NOT_LITERAL':
            ranges, neg = [(av, av)], True
        elif name == 'ANY':
            ranges, neg = ([(10, 10)], True) if not self.native.flags & re.DOTALL else ([], True)
        else:
            ranges, neg = [], False
            for o, a in av:
                o = str(o)
                if o == 'NEGATE':
                    neg = True
                elif o == 'LITERAL':
                    ranges.append((a, a))
                elif o == 'RANGE':
                    ranges.append(tuple(a))
                elif o == 'CATEGORY':
                    cat = str(a)
                    if cat == 'CATEGORY_DIGIT':
                        ranges += DIG
                    elif cat == 'CATEGORY_SPACE':
                        ranges += WS
                    elif cat == 'CATEGORY_WORD':
                        ranges += DIG + [(65, 90), (97, 122), (95, 95)]
                    elif cat == 'CATEGORY_NOT_SPACE' and len(av) == 1:
                        ranges, neg = list(WS), True
                    elif cat == 'CATEGORY_NOT_DIGIT' and len(av) == 1:
                        ranges, neg = list(DIG), True
                    else:
                        raise Unsupported(cat)
                else:
                    raise Unsupported(o)
        if ic:
            extra = []
            for lo, hi in ranges:
                for a, b, d in ((65, 90, 32), (97, 122, -32)):
                    l2, h2 = max(lo, a), min(hi, b)
                    if l2 <= h2:
                        extra.append((l2 + d, h2 + d))
            ranges = ranges + extra
        r = in_ranges(ch, ranges, neg)
        if run and r and single:
            raise Unsupported('digit run against a single-character pattern')
        return r


class ReModule(object):
    """Shadow of `re`."""
    IGNORECASE = I = re.IGNORECASE
    MULTILINE = M = re.MULTILINE
    DOTALL = S = re.DOTALL
    VERBOSE = X = re.VERBOSE
    ASCII = A = re.ASCII
    UNICODE = U = re.UNICODE
    error = re.error
    escape = staticmethod(re.escape)
    Pattern = Pattern

    @staticmethod
    def compile(p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(p, flags)

    @staticmethod
    def match(p, s, flags=0):
        return ReModule.compile(p, flags).match(s)

    @staticmethod
    def fullmatch(p, s, flags=0):
        return ReModule.compile(p, flags).fullmatch(s)

    @staticmethod
    def search(p, s, flags=0):
        return ReModule.compile(p, flags).search(s)

    @staticmethod
    def findall(p, s, flags=0):
        return ReModule.compile(p, flags).findall(s)

    @staticmethod
    def finditer(p, s, flags=0):
        return ReModule.compile(p, flags).finditer(s)

    @staticmethod
    def sub(p, r, s, count=0, flags=0):
        return ReModule.compile(p, flags).sub(r, s, count)

    @staticmethod
    def split(p, s, maxsplit=0, flags=0):
        return ReModule.compile(p, flags).split(s, maxsplit)


def concretise(s, model):
    if not has_sym(s):
        return s
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if not is_sent(c):
            out.append(c)
            i += 1
            continue
        e = entry(c)
        if e[0] == 'd':
            out.append(str(model.eval(e[1], model_completion=True).as_long() % 10))
        elif e[0] == 'c':
            out.append(chr(model.eval(e[1], model_completion=True).as_long()))
        else:
            g = sym.cur().memo['groups'][e[1]]
            if s.startswith(g.chars, i):
                v = sym.concretise(g.value, model)
                out.append(repr(v))
                i += len(g.chars)
                continue
            out.append('0')
        i += 1
    return ''.join(out)
