"""Multi-precision references for the elementary functions (integers in fixed point; decimal for ln and exp).

Each function takes an exact Fraction and returns (Fraction approximation, absolute error bound as Fraction)."""
from fractions import Fraction as F
from decimal import Decimal, getcontext, Context, localcontext
from math import isqrt

_pi = {}


def pi_fix(bits):
    """floor(pi * 2^bits) approximately (error below 2^-10 of the last bit's group: 32 guard bits)"""
    if bits in _pi:
        return _pi[bits]
    g = bits + 32
    one = 1 << g

    def atan_inv(n):
        t = one // n
        s = t
        k = 1
        n2 = n * n
        while t:
            t //= n2
            k += 2
            s += -(t // k) if (k // 2) & 1 else t // k
        return s
    p = 4 * (4 * atan_inv(5) - atan_inv(239))
    _pi[bits] = p >> 32
    return _pi[bits]


def _fix(f, bits):
    return (f.numerator << bits) // f.denominator


def _lo(f):
    """floor(log2 |f|), roughly"""
    return f.numerator.bit_length() - f.denominator.bit_length() if f else 0


def _sincos(x, want):
    """sin and cos of Fraction x"""
    bits = 260 + max(0, _lo(abs(x))) + max(0, -2 * _lo(abs(x)) if x else 0)
    p = pi_fix(bits)
    t = _fix(x, bits)
    # reduce to [-pi/4, pi/4] modulo pi/2
    q = (2 * t + p // 2) // p          # round(t / (pi/2))
    r = t - q * p // 2
    one = 1 << bits
    r2 = r * r >> bits
    s, term, k = 0, r, 1
    while term:
        s += term
        term = -(term * r2 >> bits) // ((k + 1) * (k + 2))
        k += 2
        if term == -1:
            break
    c, term, k = 0, one, 0
    while term:
        c += term
        term = -(term * r2 >> bits) // ((k + 1) * (k + 2))
        k += 2
        if term == -1:
            break
    q &= 3
    sn, cs = [(s, c), (c, -s), (-s, -c), (-c, s)][q]
    return F(sn if want == 'sin' else cs, one), F(1 << (bits - 200 - max(0, -2 * _lo(abs(x)) if x else 0)), one)


def sin(x):
    return _sincos(x, 'sin') if x else (F(0), F(0))


def cos(x):
    return _sincos(x, 'cos') if x else (F(1), F(0))


def arctan(x):
    if x == 0:
        return F(0), F(0)
    if x < 0:
        v, e = arctan(-x)
        return -v, e
    bits = 300 + max(0, -3 * _lo(x))
    if x > 1:
        v, e = arctan(1 / x)
        return F(pi_fix(400), 1 << 401) - v, e + F(1, 1 << 390)
    t = _fix(x, bits)
    one = 1 << bits
    n = 0
    while t > one >> 5:
        t = (t << bits) // (one + isqrt((one << bits) + t * t))
        n += 1
    t2 = t * t >> bits
    s, p, k = 0, t, 1
    while p:
        s += p // k if (k // 2) % 2 == 0 else -(p // k)
        p = p * t2 >> bits
        k += 2
    return F(s << n, one), F(1 << 60, one)


def _dec(x, prec):
    with localcontext(Context(prec=prec, Emax=10**9, Emin=-10**9)):
        return Decimal(x.numerator) / Decimal(x.denominator)


def ln(x):
    with localcontext(Context(prec=100, Emax=10**9, Emin=-10**9)) as c:
        c.prec = 800 if abs(x - 1) < F(1, 1 << 60) else 100
        d = Decimal(x.numerator) / Decimal(x.denominator)
        c.prec = 80
        r = F(d.ln())
    return r, abs(r) / 10**75


def exp(x):
    """None when far outside the range"""
    if x > 1500:
        return None
    if x < -1500:
        return F(0), F(0)
    with localcontext(Context(prec=80, Emax=10**9, Emin=-10**9)) as c:
        c.prec = 700
        d = Decimal(x.numerator) / Decimal(x.denominator)
        c.prec = 80
        if abs(x) < F(1, 1 << 250):
            return 1 + x, x * x
        r = F(d.exp())
    return r, r / 10**70


def sqrt(x):
    if x == 0:
        return F(0), F(0)
    sh = 400 + max(0, -_lo(x))
    r = isqrt((x.numerator << (2 * sh)) // x.denominator)
    return F(r, 1 << sh), F(1, 1 << sh)


def power(a, b):
    """a ** b for a > 0, any rational b; None when far outside the range"""
    with localcontext(Context(prec=120, Emax=10**9, Emin=-10**9)) as c:
        c.prec = 800 if abs(a - 1) < F(1, 1 << 30) else 120
        da = Decimal(a.numerator) / Decimal(a.denominator)
        c.prec = 120
        la = da.ln()
        db = Decimal(b.numerator) / Decimal(b.denominator)
        e = la * db
        if e > 1500:
            return None
        if e < -1500:
            return F(0), F(0)
        if e == 0:
            return F(1), F(0)
        r = F(e.exp()) if abs(e) > Decimal(10) ** -100 else F(1) + F(e)
    return r, r / 10**60
