"""P14: reading numbers"""
from checks.numgen import *
from vx import obj as O
from checks.p13 import CODES, check_out

LIM = Fraction(2) ** 2047


def decimal_of(f, digits):
    """|f| as (digit string, exponent): digits * 10^exponent, cut after so many digits"""
    f = abs(f)
    if f == 0:
        return '0', 0
    e = 0
    while f >= 10:
        k = max(1, len(str(int(f))) - 1)
        f /= Fraction(10) ** k
        e += k
    while f < 1:
        k = max(1, len(str(int(1 / f))) - 1)
        f *= Fraction(10) ** k
        e -= k
        if f < 1:
            f *= 10
            e -= 1
    n = int(f * Fraction(10) ** (digits - 1))
    return str(n), e - digits + 1


def layout(s, d, e, notes):
    """write digits d * 10^e in one of the notations"""
    k = s.draw(6)
    z = s.choice(['', '', '', '0', '000'])
    mark = s.choice(['⏨', '⏨', 'e', 'E'])
    if k <= 1 and -60 < e <= 0 or k == 2 and -400 < e <= 0:      # decimal fraction without exponent
        if e == 0:
            notes.add('integer')
            return z + d
        notes.add('fraction')
        if len(d) > -e:
            return z + d[:e] + '.' + d[e:]
        return z + '.' + '0' * (-e - len(d)) + d
    if k <= 1 and 0 < e < 60:
        notes.add('integer')
        return z + d + '0' * e
    notes.add('exponent part')
    p = s.draw(len(d) + 1)                    # digits before the point
    x = e + len(d) - p
    m = d[:p] + ('.' + d[p:] if p < len(d) else '')
    sx = '-' if x < 0 else s.choice(['', '+'])
    return z + m + mark + sx + s.choice(['', '', '0', '00']) + str(abs(x))


def number(s, notes):
    """(text, exact value as a Fraction, sign text)"""
    k = s.draw(10)
    if k <= 1:
        d, e = str(s.rint(0, 9999)), 0
    elif k == 2:
        d, e = str(s.draw(10 ** s.rint(1, 12))), 0
    elif k == 3:                               # integers entered exactly: below 2^40
        d, e = str(s.choice([1 << 40, 1 << 39, 1 << 26, 1 << 27, 10 ** 12]) - s.rint(1, 9)), 0
        notes.add('large integer')
    elif k == 4:
        d, e = str(s.draw(10 ** s.rint(1, 25))), -s.rint(0, 30)
    elif k == 5:
        d, e = str(s.draw(10 ** s.rint(1, 20))), s.rint(-640, 610)
        notes.add('wide exponent')
    elif k == 6:                               # near a value that lies half-way between two X1 numbers
        m = (1 << 41) + 2 * s.draw(1 << 40) + 1
        f = Fraction(m) * Fraction(2) ** s.rint(-90, 40)
        nd = s.rint(14, 60)
        d, e = decimal_of(f, nd)
        if s.p(40):
            d = str(int(d) + 1)
        notes.add('near the middle of two X1 numbers')
    elif k == 7:
        v = rv(s, s.p(60))
        d, e = decimal_of(X.frac(v), s.rint(12, 45))
        notes.add('expansion of an X1 number')
    elif k == 8:                               # borders of the range
        if s.p(50):
            d, e = decimal_of(LIM * (1 + Fraction(s.rint(-9, 9), 10 ** s.rint(1, 14))), s.rint(10, 30))
        else:
            d, e = decimal_of(Fraction(1, 2 ** s.rint(2045, 2095)) * (1 + Fraction(s.rint(0, 9), 10)), s.rint(3, 20))
        notes.add('border of the range')
    else:
        d, e = '0' * s.rint(0, 3) + str(s.draw(100)) + '0' * s.rint(0, 30), -s.rint(0, 20)
        notes.add('many zeros')
    t = layout(s, d, e, notes)
    sg = s.weighted([(50, ''), (25, '-'), (10, '+')])
    return sg + t, Fraction(int(d)) * Fraction(10) ** e * (-1 if sg == '-' else 1)


def accepted(f):
    """the X1 values for f: rounded once, or by way of 64 bits; or an error"""
    try:
        a = [X.real_of_frac(f)]
        b = X.enc_ext(f < 0, abs(f).numerator, abs(f).denominator) if f else a[0]
        if X.frac(b) != X.frac(a[0]):
            a.append(b)
        return a
    except X.AlgolError:
        return None


SEPS = [' ', '\n', '  ', '\t', '\r\n', '\n\n', ' \n ', ', ', ',', ';', '; ', '/', ':\n', ',\n\n  ', ' \t \n']


def separator(s, notes, nxt):
    if nxt and nxt[0] in '+-' and s.p(25):
        notes.add('no separator before a sign')
        return ''
    k = s.draw(20)
    if k == 19:
        notes.add('long separator')
        return s.choice([' ', '\n', ' \n']) * s.rint(20, 2000)
    return s.choice(SEPS)


BAD = ['x', 'abc', '+', '-', '.', '++5', '--1', '+-3', '-+3', 'e5', '⏨5', '1e', '1e+', '2⏨', '2⏨-', '3.4e', '.e5', '-.', '-x', '!', '$5', 'inf', 'nan', 'NaN',
       'infinity', '-inf', 'é', '’', '1⏨x', '5e+y', '(3)', '=7', '⏩5', '\x01', "'5", '"5"', '*', '×3', '[1', '_5', '|', '#1', '%', '&', '1⏨⏨5', '5⏨+-3', '5⏨.5']
HUGE = ['1e700', '9⏨650', '-1⏨617', '1e5000', '4e99999', '-3⏨123456789', '1' + '0' * 640, '1' * 5000]


def case_values(ctx, s):
    """an object program that reads and prints n numbers, with the difference to the model"""
    notes = set()
    o = O.Obj()
    nums = [number(s, notes) for _ in range(s.weighted([(20, 1), (70, s.rint(2, 12)), (10, s.rint(20, 60))]))]
    text = s.choice(['', '', ' ', '\n', '\n\n  '])
    lines, err, keys = [], None, []
    for i, (t, f) in enumerate(nums):
        a = accepted(f)
        text += t
        if a is None:
            err = ('read', t[:80], 'out of range')
            o.op('read', 'print', 'NLCR')
            notes.add('out of range')
            break
        nz = X.frac(a[0]) != 0
        o.vaddr(200).op('TRAS').op('read').op('ST')
        o.vaddr(200).op('TRRS').op('print', 'NLCR')
        o.vaddr(200).op('TRRS')
        o.take(a[0]).op('SUB', 'print', 'NLCR')
        lines.append((2, [(X.fmt(v), X.fmt(X.add(v, a[0], True))) for v in a], ('read', t[:80])))
        if not nz:
            notes.add('zero')
        keys.append(t)
        if i < len(nums) - 1:
            text += separator(s, notes, nums[i + 1][0])
    if not err:
        k = s.draw(4)
        if k == 0:
            text += s.choice(['\n', '', ' ', ',', '\n \n'])
            o.op('read', 'print', 'NLCR')
            err = ('read', 'nothing left', 'no input')
            notes.add('end of input')
        elif k == 1:
            b = s.choice(BAD) if s.p(70) else s.choice(HUGE)
            text += s.choice([' ', '\n', ', ']) + b + s.choice(['', ' ', '\n', ' 7 8 9\n'])
            o.op('read', 'print', 'NLCR')
            err = ('read', b[:60], 'malformed')
            notes.add('malformed')
        else:
            text += s.choice(['\n', '', ' ', ',', ' x y', '\nEND', ', ??'])
    o.op('STOP')
    r = ctx.run_x1(o.text(), text)
    check_lines(r, lines, err, o, dict(stdin=text[:3000]))
    return dict(nontrivial=True, key=keys[0] if keys else text, keys=keys, evals=len(keys) + (err is not None), labels=sorted(notes), sample=text[:300])


# ------------------------------------------------------------------ in programs
def case_programs(ctx, s):
    """read in all places of a program, mixed with RESYM and output; a number ends with the first character that cannot belong to it"""
    notes = set()
    body, exp, text = [], [], ''
    last = False                       # the text ends with a number whose end has not been written
    err = None
    n = s.rint(1, 14)

    def num():
        d = s.choice([str(s.rint(0, 99)), str(s.rint(0, 99999)), '%d.%s' % (s.rint(0, 99), s.choice(['5', '25', '125', '0', '75'])), '.%s' % s.choice(['5', '25'])])
        sg = s.weighted([(50, ''), (30, '-'), (10, '+')])
        v = Fraction(d) * (-1 if sg == '-' else 1)
        return sg + d, v

    def put(t):
        """append a number: separate it from the number before"""
        nonlocal text, last
        if last:
            text += s.choice([' ', ',', '\n', ';']) if t[0] not in '+-' or s.p(60) else ''
        elif text and s.p(30):
            text += s.choice([' ', '\n', '  '])
        text += t
        last = True

    def fmt(f):
        return X.fmt(X.real_of_frac(Fraction(f))) if f else '0'

    def rnd(f):
        return X.round_half_away(Fraction(f))
    for _ in range(n):
        k = s.draw(14)
        t, v = num()
        if k == 0:
            put(t)
            body.append('print(read)')
            exp.append(fmt(v))
        elif k == 1:
            put(t)
            body.append('x := read; print(x)')
            exp.append(fmt(v))
        elif k == 2:
            put(t)
            notes.add('to integer')
            body.append('i := read; print(i)')
            exp.append(str(rnd(v)))
        elif k == 3:
            t2, v2 = num()
            put(t)
            put(t2)
            notes.add('order of reading')
            body.append('print(read - 2 × read)')
            exp.append(fmt(v - 2 * v2))
        elif k == 4:
            m = s.rint(1, 5)
            vs = []
            notes.add('into an array')
            for _ in range(m):
                t, v = num()
                put(t)
                vs.append(v)
            body.append('for i := 1 step 1 until %d do a[i] := read; for i := %d step -1 until 1 do begin print(a[i]); SPACE(1) end' % (m, m))
            exp.append(''.join(fmt(q) + ' ' for q in vs[::-1]))
        elif k == 5:
            t2, v2 = num()
            put(t)
            put(t2)
            notes.add('by name')
            body.append('nm(read)')
            exp.append(fmt(v) + ' ' + fmt(v2))
        elif k == 6:
            put(t)
            notes.add('by value')
            body.append('vl(read)')
            exp.append(fmt(v) + ' ' + fmt(v))
        elif k == 7:
            put(t)
            body.append('print(if read > 0 then 1 else 2)')
            exp.append('1' if v > 0 else '2')
        elif k == 8:
            put('%d' % s.rint(1, 5))
            q = int(re.search(r'(\d)$', text).group(1))
            notes.add('as subscript')
            body.append('a[read] := 7; print(a[%d])' % q)
            exp.append('7')
        elif k == 9:
            put(t)
            body.append('print(rd)')
            notes.add('function that reads')
            exp.append(fmt(v))
        elif k == 10:
            # characters after a number: its terminator has gone with it
            cs = [s.choice(sorted(set(CODES) - {92})) for _ in range(s.rint(1, 4))]
            notes.add('characters between numbers')
            if last:
                text += s.choice([' ', ',', '\n'])
            text += ''.join(CODES[c] for c in cs)
            last = False
            body.append('for i := 1 step 1 until %d do begin print(RESYM); SPACE(1) end' % len(cs))
            exp.append(''.join('%d ' % c for c in cs))
        elif k == 12:
            t2, v2 = num()
            put(t)
            put(t2)
            notes.add('read as actual procedure')
            body.append(s.choice(['pf(read)', 'pg(read)', 'pf(rd)', 'pg(rd)']))
            exp.append(fmt(v - v2))
        elif k == 11:
            b = s.choice(['Total', "a b", 'x'])
            body.append('PRINTTEXT(`%s\')' % b)
            exp.append(b)
        else:
            if s.p(60):
                continue
            b = s.choice(BAD)
            text += (s.choice([' ', ', ', '\n']) if last else ' ') + b + s.choice(['', ' 1', '\n2 3'])
            notes.add('malformed')
            err = 'malformed number %r' % b
            body.append('x := read; print(x); print(x)')
            break
    if not err and s.p(15):
        text += s.choice(['\n', ' ', '']) if last else ''
        body.append('x := read; print(x)')
        err = 'no number left'
        notes.add('end of input')
    prog = kwtext("begin integer i; real x; array a[1:5]; procedure nm(e); real e; begin print(e); SPACE(1); print(e) end; "
                  "procedure vl(e); value e; real e; begin print(e); SPACE(1); print(e) end; real procedure rd; begin real y; y := read; rd := y end; "
                  "procedure pf(f); real procedure f; print(f - f); procedure pg(f); real procedure f; pf(f);\n" +
                  '; NLCR;\n'.join(body) + '; NLCR\nend')
    x = '\n'.join(exp) + '\n'
    r = ctx.run_a60(prog, text)
    check_out(r, prog, x, err, text, True)
    return dict(nontrivial=len(exp) > 0, key=(text, prog), labels=sorted(notes), sample=dict(program=prog[-700:], stdin=text[:200]))


# ------------------------------------------------------------------ from a terminal
def case_terminal(ctx, s):
    """asked for at a terminal: each number with a prompt; a malformed one is refused with the rest of its line, and asked for again"""
    notes = set()
    text, exp = '', ''
    n = s.rint(1, 8)
    got = 0
    fresh = True
    while got < n:
        if s.p(25):
            b = s.choice([b for b in BAD if b.isprintable()] + HUGE[3:5])
            text += ('' if fresh else s.choice([' ', ' ', '  '])) + b + s.choice(['', '', ' 5', ' 6 7', ', x']) + '\n'
            exp += 'Enter number: Bad input, try again.\n'
            notes.add('refused' if fresh else 'refused behind a number')
            fresh = True
            continue
        d = s.choice([str(s.rint(0, 99)), str(s.rint(0, 99999)), '%d.%s' % (s.rint(0, 99), s.choice(['5', '25', '125', '0', '75'])), '.5', '2⏨3', '125@-2', '1e2'])
        sg = s.weighted([(50, ''), (30, '-'), (10, '+')])
        v = Fraction(d.replace('⏨', 'e').replace('@', 'e')) * (-1 if sg == '-' else 1)
        if '@' in d:
            d = d.replace('@', 'E')
        text += ('' if fresh else s.choice([' ', '  '])) + sg + d
        exp += 'Enter number: %s\n' % (X.fmt(X.real_of_frac(v)) if v else '0')
        got += 1
        if s.p(70):
            text += '\n' * s.weighted([(80, 1), (20, 2)])
            fresh = True
        else:
            fresh = False
            notes.add('several on a line')
    if not fresh:
        text += '\n'
    err = None
    if s.p(20):
        if s.p(30):
            text += s.choice(['abc', '-', '1e']) + '\n'
            exp += 'Enter number: Bad input, try again.\n'
        n += 1
        exp += 'Enter number: '
        err = 'no number left'
        notes.add('end of input')
    form = s.draw(3)
    body = ['for i := 1 step 1 until %d do begin x := read; print(x); NLCR end' % n, 'for i := 1 step 1 until %d do begin print(read); NLCR end' % n,
            'i := 0; L: if i < %d then begin nm(read); i := i + 1; goto L end' % n][form]
    prog = kwtext('begin integer i; real x; procedure nm(e); real e; begin x := e; print(x); NLCR end; %s end' % body)
    ctx.write('p.a60', prog)
    r = ctx.exec([ctx.tools['x1sim'], 'p.a60'], text, tty=True)
    check_out(r, prog, exp, err, text, True)
    return dict(nontrivial='refused' in notes or 'refused behind a number' in notes, key=(text, form), labels=sorted(notes), sample=dict(stdin=text[:200]))


CHECK = Check('P14', [
    Sub('values', case_values, 12000, 250000, 'distinct number texts, malformed texts and ends of input'),
    Sub('programs', case_programs, 6000, 120000, 'programs that read at least one number'),
    Sub('terminal', case_terminal, 1500, 30000, 'different dialogues in which a text is refused'),
])
