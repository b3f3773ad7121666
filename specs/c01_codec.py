"""C01: coordinate text codec."""
from engine.reg import spec
import gerber.utils as U

FORMATS = [(i, d) for i in range(0, 7) for d in range(0, 8) if i + d <= 13]
FNS = ['gerber.utils.parse_gerber_value', 'gerber.utils.write_gerber_value']


def decode(S, text, fmt, zs):
    """Independent reading of coordinate digits (sign already removed)."""
    i, d = fmt
    n = len(text)
    if zs == 'leading':
        return S.div(S.int_of(text), S.num(10 ** d))
    if zs == 'trailing':
        if n <= i + d:
            return S.div(S.int_of(text + '0' * (i + d - n)), S.num(10 ** d))
    if zs == 'none' and n == i + d:
        return S.div(S.int_of(text), S.num(10 ** d))
    return None


@spec('C01', functions=FNS, params=FORMATS, covers=['zero', 'pos', 'neg'], n=150)
def roundtrip(S, fmt):
    """Reading a written coordinate returns the value rounded to the format's resolution, with its sign."""
    zs = S.choice('zs', ['leading', 'trailing', 'none'])
    i, d = fmt
    res = 10.0 ** -d
    v = S.real('v', -10 ** i, 10 ** i)
    # the rounded value must be representable in the format
    S.assume(S.and_(v < 10 ** i - S.num(res) / 2, v > -10 ** i + S.num(res) / 2))
    text = U.write_gerber_value(v, fmt, zs)
    back = U.parse_gerber_value(text, fmt, zs)
    S.check('within half a unit of the last place', S.near(back, v, res / 2))
    S.check('sign preserved', S.or_(S.eq(back, 0), S.and_(S.lt(0, back), S.lt(0, v)), S.and_(S.lt(back, 0), S.lt(v, 0))))
    if S.decide(S.eq(back, 0)):
        S.cover('zero')
    else:
        S.cover('pos' if S.decide(S.lt(0, v)) else 'neg')
    S.check('re-writing the value read gives the same text', S.exact(U.write_gerber_value(back, fmt, zs), text))


@spec('C01', functions=['gerber.utils.parse_gerber_value'], params=FORMATS, n=150)
def reading(S, fmt):
    """The digits of a coordinate denote sign * digits / 10^decimals after the suppressed zeros are restored."""
    i, d = fmt
    zs = S.choice('zs', ['leading', 'trailing', 'none'])
    if i + d == 0:
        return S.check('empty format', True)
    n = (i + d) if zs == 'none' else S.choice('n', range(1, i + d + 1))
    sign = S.choice('sign', ['', '+', '-'])
    t = S.digits('t', n)
    got = U.parse_gerber_value(sign + t, fmt, zs)
    want = decode(S, t, fmt, zs)
    S.check('value of digits', S.eq(got, -want if sign == '-' else want))


@spec('C01', functions=['gerber.utils.parse_gerber_value'], params=[(2, 4), (3, 3), (6, 7)], n=100)
def explicit_point(S, fmt):
    """Text with an explicit decimal point denotes that decimal whatever the format."""
    zs = S.choice('zs', ['leading', 'trailing', 'none'])
    a = S.choice('a', [0, 1, 2, 5])
    b = S.choice('b', [1, 3, 6])
    sign = S.choice('sign', ['', '+', '-'])
    x, y = S.digits('x', a), S.digits('y', b)
    got = U.parse_gerber_value(sign + x + '.' + y, fmt, zs)
    want = S.div(S.int_of(x + y), S.num(10 ** b))
    S.check('explicit decimal', S.eq(got, -want if sign == '-' else want))


@spec('C01', functions=FNS, n=100)
def bad_formats(S, p):
    """Formats beyond 6:7 are refused by reader and writer."""
    i = S.choice('i', range(0, 10))
    d = S.choice('d', range(0, 10))
    S.assume(i + d > 13 or i > 6 or d > 7)
    zs = S.choice('zs', ['leading', 'trailing', 'none'])
    v = S.real('v', -1000, 1000)
    S.check('write refuses', isinstance(S.call(U.write_gerber_value, v, (i, d), zs)[1], ValueError))
    S.check('read refuses', isinstance(S.call(U.parse_gerber_value, '123', (i, d), zs)[1], ValueError))


@spec('C01', functions=FNS, n=100)
def float_format(S, p):
    """With the explicit-decimal format the written text reads back to six decimals."""
    v = S.real('v', -10 ** 6, 10 ** 6)
    text = U.write_gerber_value(v, (float, float), 'trailing')
    S.check('six decimals', S.near(U.parse_gerber_value(text, (2, 4), 'trailing'), v, 0.0000005))
