"""P16: numbers written in the program text"""
from checks.numgen import *
from checks.p14 import decimal_of
from vx import obj as O

MAXR = Fraction(2) ** 2047
MINR = Fraction(1, 2 ** 2049)


def layout(s, d, e, notes):
    """write digits d * 10^e as an unsigned number; returns (text, number of scaling steps)"""
    k = s.draw(6)
    z = s.choice(['', '', '', '0', '000'])
    if k <= 1 and -60 < e <= 0 or k == 2 and -400 < e <= 0:
        if e == 0:
            notes.add('integer')
            return z + d
        notes.add('fraction')
        if len(d) > -e:
            return z + d[:e] + '.' + d[e:]
        return z + '.' + '0' * (-e - len(d)) + d
    if k <= 1 and 0 < e < 60:
        notes.add('integer')
        return z + d + '0' * e
    notes.add('exponent part')
    p = s.draw(len(d) + 1)
    x = e + len(d) - p
    m = d[:p] + ('.' + d[p:] if p < len(d) else '')
    if m == '1' and not z and s.p(60):
        m = ''                                   # the exponent part alone
        notes.add('exponent part alone')
    sx = '-' if x < 0 else s.choice(['', '+'])
    return (z + m) + s.choice(['⏨', '⏨', '@']) + sx + s.choice(['', '', '0', '00']) + str(abs(x))


def blanks(s, t):
    """layout characters inside a number have no meaning"""
    if not s.p(6):
        return t
    r = ''
    for c in t:
        r += c + (s.choice([' ', '\n', '  ']) if s.p(20) else '')
    return r


def number(s, notes):
    k = s.draw(11)
    if k <= 1:
        d, e = str(s.rint(0, 9999)), 0
    elif k == 2:
        d, e = str(s.draw(10 ** s.rint(1, 12))), 0
    elif k == 3:
        d, e = str(s.choice([1 << 26, 1 << 26, 1 << 27, 1 << 25, 1 << 40, 1 << 48, 1 << 52, 10 ** 12]) - s.rint(-2, 3)), 0
        notes.add('border integer')
    elif k == 4:
        d, e = str(s.draw(10 ** s.rint(1, 25))), -s.rint(0, 30)
    elif k == 5:
        d, e = str(s.draw(10 ** s.rint(1, 20))), s.rint(-630, 605)
        notes.add('wide exponent')
    elif k == 6:
        m = (1 << 41) + 2 * s.draw(1 << 40) + 1
        f = Fraction(m) * Fraction(2) ** s.rint(-90, 40)
        d, e = decimal_of(f, s.rint(14, 60))
        if s.p(40):
            d = str(int(d) + 1)
        notes.add('near the middle of two X1 numbers')
    elif k == 7:
        d, e = decimal_of(X.frac(rv(s, s.p(60))), s.rint(12, 45))
        notes.add('expansion of an X1 number')
    elif k == 8:
        if s.p(50):
            d, e = decimal_of(MAXR * (1 - Fraction(s.rint(0, 9), 10 ** s.rint(1, 11))), s.rint(10, 20))
        else:
            d, e = decimal_of(MINR * (1 + Fraction(s.rint(0, 99), 10)), s.rint(3, 20))
        notes.add('border of the range')
    elif k == 9:
        d, e = str(s.draw(10 ** s.rint(1, 16))), s.rint(1, 30)
        notes.add('scaled up')
    else:
        d, e = '0' * s.rint(0, 3) + str(s.draw(100)) + '0' * s.rint(0, 30), -s.rint(0, 20)
        notes.add('many zeros')
    return layout(s, d, e, notes), Fraction(int(d)) * Fraction(10) ** e


def overlapping(s, notes):
    """two numbers of which the second one's words are both equal to the last word of the first"""
    e = s.rint(-24, 62)
    n = (1 << 25 | s.draw(1 << 13) << 12) | (2048 + e)
    if s.p(50):
        a = str(n)
    else:
        a = layout(s, *decimal_of(Fraction(((1 << 25 | s.draw(1 << 25)) << 14) | (n >> 12)) * Fraction(2) ** (e - 40), 18), set())
    d = decimal_of(Fraction((n << 14) | (n >> 12)) * Fraction(2) ** (e - 40), 18)
    notes.add('words equal to the word before')
    return a, layout(s, *d, notes), Fraction(int(d[0])) * Fraction(10) ** d[1]


def is_int(t):
    return re.fullmatch(r'\d+', t) and int(t) <= MAXI


def scale_of(t):
    m = re.fullmatch(r'(\d*)\.?(\d*)(?:[⏨@]([-+]?\d+))?', t)
    return abs(int(m.group(3) or 0)) + len(m.group(1)) + len(m.group(2))


def accepted(t, f):
    """X1 reals acceptable for the literal: the nearest one, and the next when the value is so near to the middle of two
    that the accumulated truncation of the scaling steps (52-bit) may decide.  None: to be rejected"""
    if f == 0:
        return [('i', 0)]
    if f >= MAXR or f < MINR:
        return None
    try:
        a = rounded(f, Fraction(1, 100) + Fraction(scale_of(t), 2048))
    except X.AlgolError:
        return None
    return a


PRE = ('begin integer j, k; real x, y, zero; boolean b, c; array a[1:3], p[0:10]; integer array ia[0:3];\n'
       'real procedure S(h, l, e); value h, l, e; integer h, l, e; begin real r; integer q; r := h × 1048576 + l; q := abs(e);\n'
       ' if q > 2047 then begin r := r / p[10] / p[10]; q := q - 2048 end;\n'
       ' for k := 0 step 1 until 10 do begin if q ÷ 2 × 2 ≠ q then r := if e > 0 then r × p[k] else r / p[k]; q := q ÷ 2 end; S := r end;\n'
       'real procedure va(v); value v; real v; va := v;\n'
       'real procedure nm(v); real v; nm := v;\n'
       'real procedure nn(v); real v; nn := nm(v);\n'
       'procedure out(h, l, e); value h, l, e; integer h, l, e; begin print(x); SPACE(1); print(abs(x) - S(h, l, e)); NLCR end;\n'
       'p[0] := 2; for j := 1 step 1 until 10 do p[j] := p[j - 1] × p[j - 1]; zero := 0; b := true; c := false; y := 0.0;\n')


def place(s, t, integer, notes):
    """statement that brings the number into x; returns (text, negated)"""
    k = s.draw(17)
    if k == 0:
        return 'x := %s' % t, 0
    if k == 1:
        return 'x := va(%s)' % t, 0
    if k == 2:
        return 'x := nm(%s)' % t, 0
    if k == 3:
        return 'x := -%s' % t, 1
    if k == 4:
        return 'x := zero + %s' % t, 0
    if k == 5:
        return 'x := %s + zero' % t, 0
    if k == 6:
        return 'x := if b then %s else 3' % t, 0
    if k == 7:
        return 'x := if c then 3.5 else %s' % t, 0
    if k == 8:
        return 'a[2] := %s; x := a[2]' % t, 0
    if k == 9:
        return 'for y := %s do x := y' % t, 0
    if k == 10:
        return 'y := x := %s' % t, 0
    if k == 11:
        return 'x := (%s)' % t, 0
    if k == 12:
        return 'x := nn(%s)' % t, 0
    if k == 13:
        return 'x := nn(-(%s))' % t, 1
    if k == 14:
        return 'x := 1 × %s' % t, 0
    if k == 15:
        return 'x := zero; if %s > 0 then x := %s' % (t, t), 0
    return 'x := zero - %s' % t, 1


def case_values(ctx, s):
    notes = set()
    body, lines, keys = [], [], []
    pool = []
    n = s.weighted([(20, 1), (60, s.rint(2, 12)), (20, s.rint(15, 70))])
    for _ in range(n):
        first = None
        if s.p(4):
            first, t, f = overlapping(s, notes)
        elif pool and s.p(20):
            t, f = s.choice(pool)                         # again, or nearly: constants are shared
            k = s.draw(4)
            if k == 0 and f == int(f) and f < 10 ** 6:
                t = '%d.0' % f if '.' not in t else '%d' % f
                notes.add('integer and real of equal value')
            elif k == 1 and re.fullmatch(r'\d+', t):
                t = t + s.choice(['0', '⏨1', '.5', '1'])
                f = Fraction(t.replace('⏨', 'e'))
            notes.add('repeated')
        else:
            t, f = number(s, notes)
        acc = accepted(t, f)
        if acc is None:
            continue
        pool.append((t, f))
        keys.append(t)
        shown = blanks(s, t)
        if is_int(t):
            k = s.draw(6)
            v = int(t)
            notes.add('integer type')
            if k == 0:
                body.append('print(%s); NLCR' % shown)
                x = str(v)
            elif k == 1:
                body.append('print(%s ÷ 1); NLCR' % shown)
                x = str(v)
            elif k == 2:
                body.append('j := %s; print(-j); NLCR' % shown)
                x = str(-v)
            elif k == 3:
                body.append('ia[%s ÷ %d] := %s; print(ia[%d]); NLCR' % (shown, v // 3 + 1, t, v // (v // 3 + 1)))
                x = str(v)
            elif k == 4:
                q = s.rint(0, 5)
                body.append('for j := %s step 1 until %d do begin print(j); NLCR end' % (shown, min(MAXI - 1, v + q)))
                x = None
                for w in range(v, min(MAXI - 1, v + q) + 1):
                    lines.append((1, [(str(w),)], ('for from', t)))
                notes.add('in a for list')
            else:
                body.append('print(67108863 - %s); NLCR' % shown)
                x = str(MAXI - v)
            if x is not None:
                lines.append((1, [(x,)], ('integer', t)))
            continue
        st, ng = place(s, shown, False, notes)
        if first:
            st, ng = 'y := %s; x := %s; x := x + 0 × 12.75' % (first, shown), 0
        if f == 0:
            body.append(st + '; print(x); NLCR')
            lines.append((1, [('0',)], ('zero', t)))
            notes.add('zero')
            continue
        _, m, b = X.raw_split(acc[0][1])
        e = b - 2088
        body.append(st + '; out(%d, %d, %d)' % (m >> 20, m & 0xFFFFF, e))
        alts = []
        for v in acc:
            d = X.add(v, acc[0], True)
            q = X.fmt(X.neg(v) if ng else v)
            alts.append((q + ' ' + X.fmt(d),))
        if len(acc) > 1:
            notes.add('undecided')
        lines.append((1, alts, ('literal', t, st)))
        notes.add('real type')
    if not lines:
        raise Discard('nothing')
    prog = kwtext(PRE + ';\n'.join(body) + ' end')
    if len(body) > 100:
        raise Discard('many')
    r = ctx.run_a60(prog)
    if b'compiler' in r.err and r.rc:
        c = ctx.compile(prog)
        raise Fail('the compiler rejects a program of admissible numbers', program=prog, observed=c.brief())
    check_lines(r, lines, None, None, dict(program=prog))
    return dict(nontrivial=True, key=keys[0], keys=keys, evals=len(keys), labels=sorted(notes), sample=keys[:6])


def case_range(ctx, s):
    """a number outside the range must be rejected, never replaced by another"""
    notes = set()
    k = s.draw(8)
    if k <= 1:
        f = MAXR * (1 + Fraction(s.rint(1, 99), 10 ** s.rint(2, 10)))
        d, e = decimal_of(f, s.rint(12, 30))
        notes.add('just too large')
    elif k == 2:
        d, e = str(s.rint(1, 10 ** s.rint(1, 15))), s.rint(640, 3000)
        notes.add('too large')
    elif k == 3:
        f = MINR * (1 - Fraction(s.rint(1, 99), 10 ** s.rint(2, 10)))
        d, e = decimal_of(f, s.rint(12, 30))
        notes.add('just too small')
    elif k == 4:
        d, e = str(s.rint(1, 10 ** s.rint(1, 15))), -s.rint(660, 3000)
        notes.add('too small')
    elif k == 5:
        d, e = str(s.rint(1, 9)), s.choice([-1, 1]) * s.rint(10 ** 4, 10 ** s.rint(5, 12))
        notes.add('huge exponent')
    elif k == 6:
        d, e = str(s.rint(1, 999)) + '0' * s.rint(640, 2000), 0
        notes.add('many digits')
    else:
        d, e = decimal_of(MAXR, 20)[0], 0
        e = s.choice([1, -1]) * s.choice([67108863, 67108864, 134217727, 2147483647, 2147483648, 4294967295, 4294967296, 4294967306, 99999999999999999999])
        notes.add('exponent beyond the words of any machine')
    f = None
    if abs(e) < 4000:
        f = Fraction(int(d)) * Fraction(10) ** e
        if MINR * (1 - Fraction(1, 1 << 41)) <= f < MAXR * (1 - Fraction(1, 1 << 42)):
            raise Discard('in range')
    t = layout(s, d, e, set()) if abs(e) < 4000 else '%s%s%d' % (d if s.p(50) else s.choice(['.', '1.']) + d, s.choice(['⏨', '@']), e)
    st, _ = place(s, t, False, notes)
    pre = ['x := %s' % number(s, set())[0] for _ in range(s.draw(3))]
    pre = [p for p in pre if accepted(p[5:], value(p[5:])) is not None]
    prog = kwtext(PRE + ';\n'.join(pre + ['NLCR', st, 'print(x); print(%d)' % s.rint(0, 9)]) + ' end')
    r = ctx.run_a60(prog)
    c = crash_text(r)
    if c or r.timeout:
        raise Fail('crash or hang: %s' % c, program=prog, literal=t[:200], observed=r.brief())
    if r.rc == 0 or r.out.strip() not in (b'',):
        raise Fail('the number %s is outside the range, but the program was not rejected' % t[:80], program=prog, observed=r.brief())
    return dict(nontrivial=True, key=t[:300], labels=sorted(notes), sample=t[:100])


def value(t):
    m, _, e = t.replace('@', '⏨').partition('⏨')
    return Fraction(m if m else '1') * Fraction(10) ** int(e or 0)


CHECK = Check('P16', [
    Sub('values', case_values, 10000, 250000, 'distinct numbers written in a program'),
    Sub('range', case_range, 3000, 60000, 'distinct numbers outside the range'),
], assumptions=['the compiler scales decimal numbers in 52 bits with truncation in each step; numbers whose exact value lies within (0.01 + digits+exponent over 2048) units of the middle of two X1 reals may go to either neighbour'])
