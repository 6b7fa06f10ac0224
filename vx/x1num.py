"""Independent model of X1 numbers (integers of 27-bit ones' complement, reals of 40+12 bits).

A value is a tuple (kind, bits): ('i', word27) or ('r', raw54).
Written from the number formats in /repo/doc and the comments on the arithmetic rules; the arithmetic is
done with exact Python integers.  `EXT` emulates the 64-bit intermediate significand (round to nearest even)
that the run-time documents by using `long double`; results are then rounded to 40 bits, half away from zero.
"""
from fractions import Fraction

M26 = (1 << 26) - 1
M27 = (1 << 27) - 1
M54 = (1 << 54) - 1
MAXINT = M26


class AlgolError(Exception):
    """A condition for which the system must stop the program with an error report."""


# ---------------------------------------------------------------- integers
def iv(n):
    """Integer value from a Python int; out of range is an overflow error."""
    if n > MAXINT or n < -MAXINT:
        raise AlgolError('integer overflow')
    return ('i', n if n >= 0 else (-n) ^ M27)


INEGZERO = ('i', M27)


def word_to_int(w):
    return -((w ^ M27) & M27) if w & (1 << 26) else w


# ---------------------------------------------------------------- reals
def raw_split(raw):
    """raw54 -> (negative, mantissa40, biased exponent)"""
    neg = raw >> 53 & 1
    if neg:
        raw ^= M54
    mant = ((raw >> 27) & M27) << 14 | (raw >> 12 & 0x3FFF)
    return neg, mant, raw & 0xFFF


def raw_join(neg, mant, bexp):
    raw = (mant >> 14) << 27 | (mant & 0x3FFF) << 12 | bexp
    return raw ^ M54 if neg else raw


def dec(raw):
    """raw54 -> exact value as (sign, integer m, exponent e): value = (-1)^sign * m * 2^e"""
    n, m, b = raw_split(raw)
    return n, m, b - 2048 - 40


def frac(v):
    """exact value of any number as Fraction"""
    if v[0] == 'i':
        return Fraction(word_to_int(v[1]))
    n, m, e = dec(v[1])
    f = Fraction(m << e, 1) if e >= 0 else Fraction(m, 1 << -e)
    return -f if n else f


def rne(num, den, bits):
    """Round positive num/den to `bits` significant bits, nearest even: (m, e)"""
    sh = num.bit_length() - den.bit_length() - bits
    for _ in range(3):
        if sh >= 0:
            q, r = divmod(num, den << sh)
            d = den << sh
        else:
            q, r = divmod(num << -sh, den)
            d = den
        if q.bit_length() > bits:
            sh += 1
            continue
        if q.bit_length() < bits:
            sh -= 1
            continue
        break
    r2 = 2 * r
    if r2 > d or (r2 == d and q & 1):
        q += 1
        if q.bit_length() > bits:
            q >>= 1
            sh += 1
    return q, sh


def encode(sign, m, e):
    """Round m*2^e to 40 bits (half away from zero) and pack; overflow is an error, underflow gives a zero."""
    if m == 0:
        return ('r', M54 if sign else 0)
    bl = m.bit_length()
    sh = bl - 40
    if sh > 0:
        q = m >> sh
        if (m >> (sh - 1)) & 1:
            q += 1
            if q == 1 << 40:
                q >>= 1
                sh += 1
    else:
        q = m << -sh
    exp = e + sh + 40
    if exp > 2047:
        raise AlgolError('real overflow')
    if exp < -2048:
        return ('r', M54 if sign else 0)
    return ('r', raw_join(sign, q, exp + 2048))


def enc_ext(sign, num, den=1):
    """num/den (>=0): round to 64 bits as the intermediate, then encode."""
    if num == 0:
        return ('r', M54 if sign else 0)
    m, e = rne(num, den, 64)
    return encode(sign, m, e)


def real_of_frac(f):
    return enc_ext(1 if f < 0 else 0, abs(f.numerator), f.denominator)


def real_of_int(n):
    return enc_ext(1 if n < 0 else 0, abs(n))


RNEGZERO = ('r', M54)
RZERO = ('r', 0)


def is_neg(v):
    """sign bit of the value as the arithmetic sees it (an integer -0 counts as +0)"""
    if v[0] == 'i':
        return word_to_int(v[1]) < 0
    return bool(v[1] >> 53 & 1)


def _sgn_frac(v):
    """(sign bit, Fraction magnitude)"""
    return is_neg(v), abs(frac(v))


def add(a, b, sub=False):
    if a[0] == 'i' and b[0] == 'i':
        x, y = word_to_int(a[1]), word_to_int(b[1])
        return iv(x - y if sub else x + y)
    fa, fb = frac(a), frac(b)
    r = fa - fb if sub else fa + fb
    if r == 0:
        sb = is_neg(b) != sub
        # IEEE: x + (-x) = +0 ; (-0) + (-0) = -0
        if fa == 0 and fb == 0 and is_neg(a) and sb:
            return RNEGZERO
        return RZERO
    return real_of_frac(r)


def mul(a, b):
    if a[0] == 'i' and b[0] == 'i':
        p = word_to_int(a[1]) * word_to_int(b[1])
        if -MAXINT <= p <= MAXINT:
            return iv(p)
        return real_of_int(p)
    s = is_neg(a) != is_neg(b)
    f = abs(frac(a)) * abs(frac(b))
    return enc_ext(1 if s else 0, f.numerator, f.denominator)


def div(a, b):
    fb = frac(b)
    if fb == 0:
        raise AlgolError('division by zero')
    s = is_neg(a) != is_neg(b)
    f = abs(frac(a)) / abs(fb)
    return enc_ext(1 if s else 0, f.numerator, f.denominator)


def idiv(a, b):
    if a[0] != 'i' or b[0] != 'i':
        raise AlgolError('integer division of a real')
    x, y = word_to_int(a[1]), word_to_int(b[1])
    if y == 0:
        raise AlgolError('division by zero')
    q = abs(x) // abs(y)
    return iv(-q if (x < 0) != (y < 0) else q)


def neg(v):
    return (v[0], v[1] ^ (M27 if v[0] == 'i' else M54))


def cmp(a, b):
    """-1, 0, 1"""
    x, y = frac(a), frac(b)
    return (x > y) - (x < y)


def sign(v):
    f = frac(v)
    return iv((f > 0) - (f < 0))


def absr(v):
    """abs: always of type real"""
    if v[0] == 'i':
        return real_of_int(abs(word_to_int(v[1])))
    return ('r', v[1] ^ M54 if v[1] >> 53 & 1 else v[1])


def round_half_away(f):
    n = (2 * abs(f.numerator) + f.denominator) // (2 * f.denominator)
    return -n if f < 0 else n


def to_int(v):
    """Transfer to type integer (assignment, value parameter)."""
    if v[0] == 'i':
        return v
    return iv(round_half_away(frac(v)))


def to_real(v):
    if v[0] == 'r':
        return v
    if v[1] == M27:
        return RNEGZERO
    return real_of_int(word_to_int(v[1]))


def entier(v):
    if v[0] == 'i':
        return v
    f = frac(v)
    if f < -MAXINT or f >= MAXINT + 1:
        raise AlgolError('entier overflow')
    return iv(f.numerator // f.denominator)


def power_int(a, n):
    """a ^ n for integer n>0 with a integer: the exact product if it is representable, else None."""
    x = word_to_int(a[1])
    if x == 0:
        return iv(0)
    if abs(x) == 1:
        return iv(x if n & 1 else 1)
    p = x ** n if n < 27 else None
    if p is not None and -MAXINT <= p <= MAXINT:
        return iv(p)
    return None


# ---------------------------------------------------------------- printing
def fmt_int(w):
    if w & (1 << 26):
        return '-%d' % ((w ^ M27) & M26)
    return '%d' % (w & M26)


def digits(num, den, nd):
    """num/den>0 -> (string of nd digits, X) with value = d.ddd * 10^X, rounded to nearest even."""
    X = 0
    # estimate
    est = int((num.bit_length() - den.bit_length()) * 0.30103)
    X = est - 2
    while True:
        # want 10^X <= v < 10^(X+1)
        if X + 1 >= 0:
            ge = num >= den * 10 ** (X + 1)
        else:
            ge = num * 10 ** (-X - 1) >= den
        if not ge:
            break
        X += 1
    sc = nd - 1 - X
    if sc >= 0:
        n2, d2 = num * 10 ** sc, den
    else:
        n2, d2 = num, den * 10 ** -sc
    q, r = divmod(n2, d2)
    if 2 * r > d2 or (2 * r == d2 and q & 1):
        q += 1
    s = str(q)
    if len(s) > nd:
        s = s[:nd]
        X += 1
    return s, X


def fmt_g13(raw):
    n, m, e = dec(raw)
    sg = '-' if n else ''
    if m == 0:
        return sg + '0'
    if e >= 0:
        s, X = digits(m << e, 1, 13)
    else:
        s, X = digits(m, 1 << -e, 13)
    if X < -4 or X >= 13:
        t = s.rstrip('0')
        t = t[0] + ('.' + t[1:] if len(t) > 1 else '')
        return '%s%se%s%02d' % (sg, t, '-' if X < 0 else '+', abs(X))
    if X >= 0:
        t = s[:X + 1] + '.' + s[X + 1:]
    else:
        t = '0.' + '0' * (-X - 1) + s
    t = t.rstrip('0').rstrip('.')
    return sg + t


def fmt(v):
    return fmt_int(v[1]) if v[0] == 'i' else fmt_g13(v[1])
