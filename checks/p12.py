"""P12: number output: FIXT, ABSFIXT, FLOT, print"""
from checks.numgen import *

# The run-time formats with a 64-bit significand; the digits an item shows are those of the number up to half a unit of the last
# place plus the error of that intermediate.
EPS = Fraction(1, 1 << 61)


def fix_text(n, m, q, neg, signed):
    t = str(q).rjust(m + (1 if n else 0), '0')
    ip, fp = (t[:-m], t[-m:]) if m else (t, '')
    if n == 0 and ip.strip('0') == '':
        ip = ''
    return (('-' if neg else '+') if signed else ' ') + ip.rjust(n) + ('.' + fp if m else '') + ' '


def flo_text(n, m, q, e, neg):
    return ('-' if neg else '+') + '.' + str(q).rjust(n, '0') + '⏨' + ('-' if e < 0 else '+') + str(abs(e)).rjust(m) + ' '


def mantissas(n, f):
    """acceptable (mantissa, exponent) of f > 0 with n digits"""
    e = len(str(f.numerator)) - len(str(f.denominator))
    while f >= Fraction(10) ** e:
        e += 1
    while f < Fraction(10) ** (e - 1):
        e -= 1
    u = f * Fraction(10) ** (n - e)          # in [10^(n-1), 10^n)
    tol = Fraction(1, 2) + u * EPS * 4
    r = []
    for q in range(int(u), int(u) + 2):
        if abs(q - u) <= tol:
            r.append((q, e) if q < 10 ** n else (10 ** (n - 1), e + 1))
    return r


def flot(n, m, v):
    """acceptable texts"""
    if not (1 <= n <= 13 and 1 <= m <= 3):
        n, m = 13, 3
    f = abs(X.frac(v))
    if f == 0:
        return {flo_text(n, m, 0, 0, g) for g in (0, 1)}
    neg = X.is_neg(v)
    r = set()
    for q, e in mantissas(n, f):
        if abs(e) < 10 ** m:
            r.add(flo_text(n, m, q, e, neg))
        else:
            r |= {flo_text(13, 3, a, b, neg) for a, b in mantissas(13, f)}
    return r


def fixt(n, m, v, signed, got):
    """is `got` an acceptable text?"""
    if n < 0 or m < 0 or n + m > 21:
        return got in flot(13, 3, v)
    f = abs(X.frac(v))
    u = f * 10 ** m
    lim = 10 ** (n + m)
    tol = Fraction(1, 2) + lim * EPS
    negs = (0, 1) if f == 0 else (X.is_neg(v),)
    if u + tol >= lim:
        if got in flot(13, 3, v):
            return True
        if u - tol >= lim:
            return False
    d = re.sub('[^0-9]', '', got)
    if not d or len(d) > 40:
        return False
    q = int(d)
    return abs(q - u) <= tol and q < lim and any(got == fix_text(n, m, q, g, signed) for g in negs)


def expected_fixt(n, m, v, signed):
    f = abs(X.frac(v))
    if n < 0 or m < 0 or n + m > 21 or f * 10 ** m + Fraction(1, 2) >= 10 ** (n + m):
        return sorted(flot(13, 3, v))[0]
    return fix_text(n, m, X.round_half_away(f * 10 ** m), X.is_neg(v), signed)


def decimal_near(s, digits, e10):
    """a 40-bit number nearest to d.ddd * 10^e10, perhaps moved by a few units"""
    n = s.rint(1, digits)
    k = s.draw(5)
    if k == 0:
        d = 10 ** (n - 1)
    elif k == 1:
        d = 10 ** n - 1
    elif k == 2:
        d = s.rint(10 ** (n - 1), 10 ** n - 1) * 10 + 5
    elif k == 3:
        d = (10 ** n - 1) * 10 + 5
    else:
        d = s.rint(10 ** (n - 1), 10 ** n - 1)
    f = d * Fraction(10) ** (e10 - len(str(d)) + 1)
    v = X.real_of_frac(f)
    if X.frac(v) == 0:
        return v
    v = neighbour(v, s.choice([0, 0, 0, 1, -1, 2, -2]))
    return X.neg(v) if s.p(40) else v


def value(s, wide, scale):
    k = s.draw(8)
    if k == 0:
        return iv(s)
    if k == 1:
        return decimal_near(s, 13, s.rint(-12, 14))
    if k == 2:
        return decimal_near(s, 13, s.rint(-610, 614) if wide else s.rint(-4, 20))
    if k == 3:      # exact ties of a fixed layout: odd multiples of 10^-m / 2 that are dyadic
        j = s.rint(1, 12)
        return mk(1 if s.p(40) else 0, 1 << 39 | 0, 0) if False else X.real_of_frac(Fraction(2 * s.draw(4000) + 1, 1 << j) * (-1 if s.p(40) else 1))
    if k == 4:
        return rv(s, wide)
    if k == 5:
        n, m, b = X.raw_split(rv(s, False)[1])
        return ('r', X.raw_join(n, m, 2048 + s.rint(-40, 46))) if m else X.RZERO
    if k == 6:
        return X.real_of_frac(Fraction(s.rint(-10 ** 6, 10 ** 6), 10 ** s.draw(7)))
    return s.choice([X.RZERO, X.RNEGZERO, X.iv(0), X.INEGZERO, X.iv(1), X.real_of_int(10 ** s.draw(12)), decimal_near(s, 3, s.choice([-10, -9, 9, 10, 8, 98, 99, 100, -99, -100, 0, 1]))])


def layout_fix(s):
    k = s.draw(10)
    if k < 7:
        n = s.draw(14)
        m = s.draw(min(14, 22 - n))
    elif k == 7:
        n = s.draw(22)
        m = s.draw(22 - n)
    elif k == 8:
        n = s.rint(0, 21)
        m = 21 - n + s.rint(0, 1)
    else:
        n, m = s.choice([(-1, 3), (3, -1), (22, 0), (0, 22), (11, 11), (21, 1), (-2, -2), (67108863, 5), (5, 67108863), (-67108863, 67108863), (-1, 22)])
    if n == 0 and m == 0:
        n = 1
    return n, m


def layout_flo(s):
    k = s.draw(8)
    if k < 7:
        return s.rint(1, 13), s.rint(1, 3)
    return s.choice([(0, 1), (14, 2), (1, 0), (13, 4), (-1, 1), (5, -1), (20, 3), (67108863, 67108863), (13, 0), (0, 0)])


def item(s):
    k = s.choice(['FIXT', 'FIXT', 'ABSFIXT', 'FLOT', 'FLOT', 'print'])
    if k == 'print':
        return k, 0, 0, value(s, True, 0)
    n, m = layout_flo(s) if k == 'FLOT' else layout_fix(s)
    v = value(s, k == 'FLOT' or s.p(20), n)
    if k != 'FLOT' and s.p(25) and 0 <= n <= 13:
        # at the border of the layout
        v = neighbour(X.real_of_frac(10 ** n - Fraction(1, 2 * 10 ** max(0, min(m, 12)))), s.rint(-2, 2))
    return k, n, m, v


def accept(it, got):
    k, n, m, v = it
    if k == 'print':
        return norm(got) == norm(X.fmt(v))
    if k == 'FLOT':
        return got in flot(n, m, v)
    return fixt(n, m, v, k == 'FIXT', got)


def expectation(it):
    k, n, m, v = it
    if k == 'print':
        return X.fmt(v)
    if k == 'FLOT':
        return ' or '.join(sorted(flot(n, m, v)))
    return expected_fixt(n, m, v, k == 'FIXT')


def verify(r, items, detail):
    d = dict(observed=r.brief(), **detail)
    c = crash_text(r)
    if c or r.timeout or r.rc != 0:
        raise Fail(c or 'did not end normally: %s' % r.err[:200].decode('utf8', 'replace'), **d)
    got = r.out.decode('utf8', 'replace').split('\n')
    if len(got) != len(items) + 1 or got[-1]:
        raise Fail('%d lines expected, %d written' % (len(items), len(got) - 1), **d)
    for line, its in zip(got, items):
        parts = line.split('/')
        if len(parts) != len(its):
            raise Fail('%d items expected in a line, got %r' % (len(its), line), **d)
        for it, g in zip(its, parts):
            if not accept(it, g):
                raise Fail('%s(%d, %d, %s): expected %r, got %r' % (it[0], it[1], it[2], desc(it[3]), expectation(it), g), **d)


def label(it):
    k, n, m, v = it
    f = X.frac(v)
    l = [k, '%s of %s' % (k, 'integer' if v[0] == 'i' else 'real'), '%s %s' % (k, 'zero' if f == 0 else 'negative' if f < 0 else 'positive')]
    if k in ('FIXT', 'ABSFIXT'):
        t = expected_fixt(n, m, v, k == 'FIXT')
        l.append(k + (' replaced by FLOT' if '⏨' in t else ' n=0' if n == 0 else ' m=0' if m == 0 else ' both parts'))
    elif k == 'FLOT':
        t = sorted(flot(n, m, v))
        if len(t) > 1 and f:
            l.append('FLOT near a tie')
        if not (1 <= n <= 13 and 1 <= m <= 3) or ' ' in t[0] and len(t[0]) != n + m + 5:
            l.append('FLOT replaced by FLOT(13,3)')
    return l


def case_object(ctx, s):
    o = O.Obj()
    lines = []
    labels = set()
    for _ in range(s.rint(1, 40)):
        it = item(s)
        labels.update(label(it))
        if it[0] != 'print':
            o.take(X.iv(it[1]) if it[1] or s.p(80) else X.INEGZERO)
            if it[0] == 'FLOT' and it[2] == 2 and s.p(50):
                labels.add('FLOT with two arguments')
            else:
                o.take(X.iv(it[2]))
        o.take(it[3]).op(it[0], 'NLCR')
        lines.append([it])
    o.op('STOP')
    r = ctx.run_x1(o.text())
    verify(r, lines, dict(object_program=o.text()))
    keys = [it for l in lines for it in l]
    return dict(nontrivial=True, key=keys[0], keys=keys, evals=len(keys), labels=sorted(labels),
                sample=[[i[0], i[1], i[2], desc(i[3]), expectation(i)] for i in keys[:4]])


def src_num(s, v):
    """source text for a number"""
    f = X.frac(v)
    if v[0] == 'i':
        return str(int(f))
    from checks.p06 import exact_text
    return ('-' if X.is_neg(v) else '') + exact_text(v)


def case_source(ctx, s):
    """calls of the procedures with arguments of all kinds, several per line"""
    lines = []
    labels = set()
    body = []
    p = 0
    pre = []
    for _ in range(s.rint(1, 10)):
        its = []
        row = []
        for j in range(s.rint(1, 4)):
            k, n, m, v = item(s)
            if v[0] == 'r' and not -60 < X.raw_split(v[1])[2] - 2048 < 44 or v == X.INEGZERO:
                v = X.real_of_frac(Fraction(s.rint(-9999, 9999), 8))
            if X.frac(v) == 0:
                v = X.iv(0)          # a zero constant is of type integer
            its.append((k, n, m, v))
            labels.update(label(its[-1]))

            def place(t, ty):
                """the argument as expression, variable, element, parameter"""
                w = s.draw(5)
                if w == 0:
                    return t
                if w == 1:
                    body.append('%s := %s' % ('i1' if ty == 'i' else 'x1', t))
                    return None
                if w == 2:
                    return '(%s)' % t
                if w == 3:
                    return 'f%s(%s)' % (ty, t)
                return '_i_f b _t_h_e_n %s _e_l_s_e 4711' % t
            tn, tm = place(str(n), 'i') or 'i1', str(m)
            if s.p(10):
                labels.add('real layout argument')
                tm = '(%d.5 - .375)' % m
            tx = place(src_num(s, v), v[0]) or ('i1' if v[0] == 'i' else 'x1')
            if tn == 'i1' and tx == 'i1':
                tn = str(n)
            if j:
                body.append('PRINTTEXT(|</|>)')
            if k == 'print':
                body.append('print(%s)' % tx)
            elif k == 'FLOT' and m == 2 and s.p(30):
                body.append('FLOT(%s, %s)' % (tn, tx))
                labels.add('FLOT with two arguments')
            elif s.p(25):
                # by value or by name through a procedure
                labels.add('through a procedure')
                body.append('p%s%s(%s, %s, %s)' % (k, s.choice('vn'), tn, tm, tx))
            else:
                body.append('%s(%s, %s, %s)' % (k, tn, tm, tx))
        body.append('NLCR')
        lines.append(its)
    procs = ''
    for k in ('FIXT', 'ABSFIXT', 'FLOT'):
        procs += 'procedure p%sv(n, m, x); value n, m; integer n, m; real x; %s(n, m, x);\n' % (k, k)
        procs += 'procedure p%sn(n, m, x); integer n, m; real x; begin integer d; d := m; %s(n, d, x) end;\n' % (k, k)
    # quotes of the text must not be taken for word delimiters
    text = kwtext('begin integer i1; real x1; boolean b; integer procedure fi(n); value n; integer n; fi := n;\n'
                  'real procedure fr(x); value x; real x; fr := x;\n' + procs + 'b := true;\n') + ';\n'.join(body) + '\n_e_n_d\n'
    r = ctx.run_a60(text)
    verify(r, lines, dict(program=text))
    keys = [it for l in lines for it in l]
    return dict(nontrivial=True, key=keys[0], keys=keys, evals=len(keys), labels=sorted(labels), sample=text[-1200:])


CHECK = Check('P12', [
    Sub('layouts', case_object, 14000, 300000, 'distinct (procedure, layout, value)'),
    Sub('source', case_source, 6000, 80000, 'distinct (procedure, layout, value)'),
])
