"""Generators of X1 numbers, biased to borders, and the object-level evaluation of operations on them."""
from fractions import Fraction
from vx import x1num as X, obj as O
from checks.common import *

MAXI = X.MAXINT


def g_int(s):
    """an integer in range"""
    k = s.draw(9)
    if k == 0:
        n = s.rint(0, 20)
    elif k == 1:
        n = s.draw(MAXI + 1)
    elif k == 2:
        n = MAXI - s.skew(12)
    elif k == 3:
        n = (1 << s.draw(27)) - s.draw(3)
    elif k == 4:
        n = 8192 + s.rint(-8, 8)
    elif k == 5:
        n = s.draw(1 << s.rint(1, 26))
    elif k == 6:
        n = 10 ** s.draw(8) + s.rint(-1, 1)
    elif k == 7:
        n = (1 << s.draw(26)) + (1 << s.draw(26))
    else:
        n = s.choice([3, 5, 7, 9, 11]) ** s.draw(8)
    n = max(0, min(MAXI, n))
    return -n if s.p(45) else n


def iv(s):
    n = g_int(s)
    if n == 0 and s.p(30):
        return X.INEGZERO
    return X.iv(n)


def mk(neg, m, e):
    """real (-1)^neg * m/2^40 * 2^e, m normalised to 40 bits"""
    return ('r', X.raw_join(neg, m, e + 2048))


def g_mant(s):
    k = s.draw(7)
    if k == 0:
        return 1 << 39
    if k == 1:
        return (1 << 39) | s.draw(1 << 39)
    if k == 2:      # short: products of two of them can be ties
        b = s.rint(1, 22)
        return ((1 << (b - 1)) | s.draw(1 << (b - 1))) << (40 - b)
    if k == 3:
        return (1 << 40) - 1 - s.skew(40)
    if k == 4:
        return (1 << 39) + s.skew(40)
    if k == 5:      # few bits
        m = 1 << 39
        for _ in range(s.rint(1, 4)):
            m |= 1 << s.draw(39)
        return m
    b = s.rint(20, 40)
    return ((1 << (b - 1)) | s.draw(1 << (b - 1))) << (40 - b)


def g_exp(s, wide=True):
    k = s.draw(6 if wide else 3)
    if k == 0:
        return s.rint(-3, 4)
    if k == 1:
        return s.rint(-45, 45)
    if k == 2:
        return s.rint(20, 44)
    if k == 3:
        return s.rint(-1100, 1100)
    if k == 4:
        return s.choice([2047, 2046, -2048, -2047, 2040, -2040]) if s.p(50) else s.rint(-2048, 2047)
    return s.rint(-2048, 2047)


def rv(s, wide=True):
    if s.p(4):
        return s.choice([X.RZERO, X.RNEGZERO])
    return mk(1 if s.p(45) else 0, g_mant(s), g_exp(s, wide))


def shift(v, d):
    """v with its exponent changed by d, or clipped"""
    n, m, b = X.raw_split(v[1])
    if m == 0:
        return v
    return ('r', X.raw_join(n, m, max(0, min(4095, b + d))))


def neighbour(v, d):
    """a real d units in the last place away (same sign), or itself at a border"""
    n, m, b = X.raw_split(v[1])
    m += d
    if m >= 1 << 40:
        m = (m + (1 << 40)) // 2 if b < 4095 else (1 << 40) - 1
        m = max(m, 1 << 39) & ((1 << 40) - 1) | (1 << 39)
        b = min(4095, b + 1)
    if m < 1 << 39:
        return v
    return ('r', X.raw_join(n, m, b))


def related(s, a):
    """an operand with an interesting relation to a"""
    k = s.draw(8)
    if a[0] == 'i':
        n = X.word_to_int(a[1])
        if k == 0:
            return X.iv(max(-MAXI, min(MAXI, -n + s.rint(-2, 2))))
        if k == 1:      # sums at the border
            return X.iv(max(-MAXI, min(MAXI, (MAXI if n >= 0 else -MAXI) - n + s.rint(-2, 2))))
        if k == 2:
            q = MAXI // abs(n) if n else 5
            return X.iv(max(-MAXI, min(MAXI, (q + s.rint(-1, 2)) * s.choice([1, -1]))))
        if k == 3:
            return X.real_of_int(n)
        if k == 4 and n:
            return neighbour(X.real_of_int(n), s.choice([1, -1]))
        if k == 5:
            return X.iv(max(-MAXI, min(MAXI, n + s.rint(-1, 1))))
        return iv(s)
    n, m, b = X.raw_split(a[1])
    if m == 0:
        return rv(s)
    if k == 0:
        return neighbour(('r', a[1] ^ X.M54 if s.p(50) else a[1]), s.choice([0, 1, -1, 2, -2]))
    if k == 1:      # about 40 places lower: rounding decides
        r = mk(n if s.p(50) else 1 - n, g_mant(s), 0)
        return shift(r, b - 2048 - s.rint(37, 43))
    if k == 2:
        r = mk(n if s.p(50) else 1 - n, g_mant(s), 0)
        return shift(r, b - 2048 + s.rint(-3, 3))
    if k == 3:      # result near overflow / underflow
        r = mk(s.draw(2), g_mant(s), 0)
        return shift(r, s.choice([2047, -2048]) + s.choice([1, -1]) * (b - 2048) + s.rint(-2, 2))
    if k == 4:
        f = X.frac(a)
        if f.denominator == 1 and abs(f) <= MAXI:
            return X.iv(int(f))
        return rv(s)
    if k == 5:
        return iv(s)
    return rv(s, s.p(50))


def lit_int(n):
    return str(n) if n >= 0 else '(-%d)' % -n


def alternatives(fn):
    """results a correct implementation may give: the model's, and its neighbour when the exact value is within the
    double-rounding band of a tie"""
    return fn


def model(op, a, b):
    """('ok', [values]) or ('err', why)"""
    try:
        if op in ('+', '-'):
            r = X.add(a, b, op == '-')
            ex = X.frac(a) - X.frac(b) if op == '-' else X.frac(a) + X.frac(b)
        elif op == '×':
            r = X.mul(a, b)
            ex = X.frac(a) * X.frac(b)
        elif op == '/':
            r = X.div(a, b)
            ex = X.frac(a) / X.frac(b)
        elif op == '÷':
            return 'ok', [X.idiv(a, b)]
        else:
            raise ValueError(op)
    except X.AlgolError as e:
        return 'err', str(e)
    if r[0] == 'r' and ex != 0 and A.near_tie(ex):
        alts = [r]
        n, m, bx = X.raw_split(r[1])
        if m:
            # the exact value lies between two neighbours; add the other one
            d = 1 if abs(X.frac(r)) < abs(ex) else -1
            w = adjacent(r, d)
            if w:
                alts.append(w)
        return 'ok', alts
    return 'ok', [r]


def show(v):
    return X.fmt(v) if v is not None else None


def desc(v):
    """exact description for samples and replay files"""
    if v[0] == 'i':
        return 'int %s' % X.fmt(v)
    n, m, e = X.dec(v[1])
    return 'real %s%d*2^%d' % ('-' if n else '', m, e)


STAT = {('+', 'i'): 'ADIS', ('+', 'r'): 'ADRS', ('-', 'i'): 'SUIS', ('-', 'r'): 'SURS', ('×', 'i'): 'MUIS',
        ('×', 'r'): 'MURS', ('/', 'i'): 'DIIS', ('/', 'r'): 'DIRS'}


def emit_op(o, op, a, b, static):
    o.take(a)
    if static and (op, b[0]) in STAT:
        o.baddr(b).op(STAT[op, b[0]])
    else:
        o.take(b).op(O.BINOP[op])


def object_ops_case(ops, opers, nmax=16, want_err=60, rule=lambda op, a, b: True):
    """case function: a straight-line object program of many operations; each result is printed, and for reals also its
    difference to the exactly computed value; the last one may be an error"""
    def case(ctx, s):
        n = s.rint(1, nmax)
        o = O.Obj()
        lines = []
        labels = set()
        items = []
        err = None
        tries = 0
        while len(items) < n and tries < 60:
            tries += 1
            op = s.choice(ops)
            a, b = opers(s, op)
            k, r = model(op, a, b)
            if k == 'err':
                if err is None and s.p(want_err):
                    err = (op, a, b, r)
                continue
            items.append((op, a, b, r, s.p(50)))
        for op, a, b, r, st in items:
            emit_op(o, op, a, b, st)
            o.op('print', 'NLCR')
            ex = [X.fmt(v) for v in r]
            if r[0][0] == 'r' and X.frac(r[0]) != 0:
                emit_op(o, op, a, b, st)
                o.take(r[0]).op('SUB', 'print', 'NLCR')
                lines.append((2, [(X.fmt(v), X.fmt(X.add(v, r[0], True))) for v in r], (op, a, b, st)))
            else:
                lines.append((1, [(x,) for x in ex], (op, a, b, st)))
                if all(v[0] == 'i' for v in r) and s.p(50):
                    # the result is of type integer: it may be divided by ÷
                    emit_op(o, op, a, b, st)
                    o.take(X.iv(1)).op('IDI', 'print', 'NLCR')
                    lines.append((1, [(x,) for x in ex], (op, a, b, st)))
                    labels.add('type integer asserted')
            labels.add('%s %s%s->%s' % (op, a[0], b[0], r[0][0]))
            if r[0][0] == 'r' and X.frac(r[0]) == 0 and X.frac(a) != 0 and X.frac(b) != 0:
                labels.add('zero or underflow ' + op)
            if len(r) > 1:
                labels.add('near tie')
        if not err and items and all(v[0] == 'r' for v in items[-1][3]) and s.p(15):
            # the result is of type real, also if it is a whole number
            op, a, b, r, st = items[-1]
            emit_op(o, op, a, b, st)
            o.take(X.iv(1)).op('IDI', 'print', 'NLCR')
            err = (op, a, b, 'a real is no operand of ÷')
            labels.add('type real asserted')
        elif err:
            emit_op(o, err[0], err[1], err[2], s.p(50))
            o.op('print', 'NLCR')
            labels.add('error ' + err[3])
        o.op('STOP')
        r = ctx.run_x1(o.text())
        check_lines(r, lines, err, o)
        nt = [(it[0], it[1], it[2]) for it in items if rule(*it[:3])] + ([err[:3]] if err else [])
        return dict(nontrivial=bool(nt), key=nt and nt[0], keys=nt, evals=len(items) + bool(err), labels=sorted(labels),
                    sample=[[it[0], desc(it[1]), desc(it[2]), [desc(v) for v in it[3]]] for it in items[:3]] +
                           ([[err[0], desc(err[1]), desc(err[2]), 'error: ' + err[3]]] if err else []))
    return case


def check_lines(r, lines, err, o=None, detail=None):
    """compare printed lines with accepted alternatives; err: the program must then stop with an error report"""
    d = dict(observed=r.brief())
    if o is not None:
        d['object_program'] = o.text()
    d.update(detail or {})
    c = crash_text(r)
    if c:
        raise Fail('crash: %s' % c, **d)
    if r.timeout:
        raise Fail('did not stop', **d)
    got = norm(r.out.decode('utf8', 'replace')).split('\n')
    got.pop()
    p = 0
    for cnt, alts, what in lines:
        g = tuple(got[p:p + cnt])
        p += cnt
        if g not in [tuple(norm(x) for x in a) for a in alts]:
            raise Fail('%s: expected %s, got %s%s' % (describe(what), ' or '.join(' / '.join(a) for a in alts), ' / '.join(g) or 'nothing',
                       '' if len(g) == cnt else ' (stopped: %s)' % r.err.decode('utf8', 'replace').strip()[:120]), **d)
    if err:
        if r.rc == 0:
            raise Fail('%s: no error report (%s expected), printed %r' % (describe(err), err[-1], '\n'.join(got[p:])), **d)
        if [g for g in got[p:] if g]:
            raise Fail('%s: a value %r before the error report' % (describe(err), got[p:]), **d)
    elif r.rc != 0:
        raise Fail('error exit after all results: %s' % r.err.decode('utf8', 'replace').strip()[:160], **d)


def describe(w):
    return ' '.join(desc(x) if isinstance(x, tuple) and x and x[0] in 'ir' and len(x) == 2 and isinstance(x[1], int) else str(x)
                    for x in w)


def adjacent(v, d):
    """the next X1 real away from zero (d > 0) or towards zero, across powers of two; None outside the range"""
    n, m, b = X.raw_split(v[1])
    m += d
    if m >= 1 << 40:
        m, b = 1 << 39, b + 1
    elif m < 1 << 39:
        m, b = (1 << 40) - 1, b - 1
    return ('r', X.raw_join(n, m, b)) if 0 <= b < 4096 else None


def rounded(ap, band=Fraction(1, 100)):
    """X1 reals acceptable for the mathematical value ap (a Fraction): ap rounded to 40 bits, and a neighbour when ap is
    within `band` units of a tie.  Raises AlgolError when ap is out of range."""
    v = X.real_of_frac(ap)
    if ap == 0 or X.frac(v) == 0:
        return [v]
    n, m, e = X.dec(v[1])
    ulp = Fraction(2) ** e
    if abs(ap) < Fraction(2) ** (e + 39):
        ulp /= 2                                               # ap itself lies below the power of two
    r = [v]
    for d in (1, -1):
        w = adjacent(v, d)
        if w and abs(X.frac(w) - ap) <= (Fraction(1, 2) + band) * ulp:
            r.append(w)
    return r


def result_lines(o, emit, alts, what, lines, s=None):
    """print a result, and for reals its difference to the expected value"""
    emit()
    o.op('print', 'NLCR')
    if alts[0][0] == 'r' and X.frac(alts[0]) != 0:
        emit()
        o.take(alts[0]).op('SUB', 'print', 'NLCR')
        lines.append((2, [(X.fmt(v), X.fmt(X.add(v, alts[0], True))) for v in alts], what))
    else:
        lines.append((1, [(X.fmt(v),) for v in alts], what))
    if s is not None and all(v[0] == 'i' for v in alts) and s.p(50):
        integer_line(o, emit, alts, what, lines)


def integer_line(o, emit, alts, what, lines):
    """the result is of type integer: ÷ takes it"""
    emit()
    o.take(X.iv(1)).op('IDI', 'print', 'NLCR')
    lines.append((1, [(X.fmt(X.idiv(v, X.iv(1))),) for v in alts], tuple(what) + ('then ÷ 1',)))


def real_end(o, emit, alts, what, s):
    """the result is of type real: ÷ refuses it (the last statement of a program); None if not asked for"""
    if all(v[0] == 'r' for v in alts) and s.p(15):
        emit()
        o.take(X.iv(1)).op('IDI', 'print', 'NLCR')
        return tuple(what) + ('then ÷ 1: a real is no operand of ÷',)
    return None
