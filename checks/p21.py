"""P21: RANDOM, SETRANDOM, EVEN, SUM, XEEN, TIMEOFDAY"""
import time
from checks.common import *

M26 = 1 << 26
M27 = (1 << 27) - 1


def run(ctx, text, d, stdin=b'', env=None):
    t = kwtext(text)
    if env:
        ctx.write('p.a60', t)
        r = ctx.exec([ctx.tools['x1sim'], 'p.a60'], stdin, env=env)
    else:
        r = ctx.run_a60(t, stdin)
    d.update(program=t, observed=r.brief())
    if stdin:
        d['stdin'] = stdin
    c = crash_text(r)
    if c:
        raise Fail('crashed: ' + c, **d)
    if r.timeout:
        raise Fail('does not stop', **d)
    return r


# ----------------------------------------------------------------------- RANDOM
_seq = {}
SHOW = ("procedure show(x); value x; real x; begin real y; integer h, l; "
        "if x < 0 then PRINTTEXT(`low'); if x ≥ 1 then PRINTTEXT(`high'); y := x × 1048576; h := entier(y); y := (y - h) × 1048576; l := entier(y); print(h, l, entier((y - l) × 1048576)); NLCR end; ")


def sequence(ctx, seed, n=64):
    """the first numbers after SETRANDOM(seed), or from the start"""
    if seed not in _seq:
        if len(_seq) > 3000:
            _seq.clear()
        d = {}
        r = run(ctx, "begin integer i; %s %s for i := 1 step 1 until %d do show(RANDOM) end" % (SHOW, '' if seed is None else 'SETRANDOM(%s);' % seed, n), d)
        q = r.out.decode('utf8', 'replace').split('\n')
        if r.rc or len(q) != n + 1 or not all(re.fullmatch(r'\d+ \d+ \d+', x) for x in q[:n]):
            raise Fail('RANDOM does not deliver %d numbers in [0, 1)' % n, **d)
        if any(x == y for x, y in zip(q, q[1:])):
            raise Fail('RANDOM delivers the same number twice in succession', **d)
        if len(set(q[:n])) < n - 1:
            raise Fail('RANDOM repeats itself within %d numbers' % n, **d)
        _seq[seed] = q[:n]
    return _seq[seed]


def a_seed(s):
    k = s.draw(7)
    if k < 2:
        return '%d' % s.draw(100)
    if k == 2:
        return '%d' % (s.draw(M26))
    if k == 3:
        return '-%d' % (1 + s.draw(10000))
    if k == 4:
        return '%d.%d' % (s.draw(100), s.draw(1000))
    if k == 5:
        return '%d⏨%d' % (1 + s.draw(999), s.rint(-40, 40))
    return '%d/%d' % (1 + s.draw(50), 1 + s.draw(50))


def case_random(ctx, s):
    """the numbers depend on the last seed and the number of calls since only, wherever and for whatever the calls are made"""
    seeds = [a_seed(s) for _ in range(s.rint(1, 4))]
    st, exp, lab = [], [], set()
    cur, k = None, 0
    ops = 0
    noise = ['x := EVEN(%d)' % s.draw(50), 'x := SUM(i, 1, %d, i × i)' % s.draw(5), 'x := sin(x)', 'begin array q[1:%d]; q[1] := x end' % s.rint(1, 40),
             'x := x × x / 7', 'PRINTTEXT(`z\')', 'x := TIMEOFDAY', 'p(x)']

    def want(n):
        nonlocal k
        r = sequence(ctx, cur)[k:k + n]
        k += n
        return [x + '\n' for x in r]
    for _ in range(s.rint(2, 14)):
        j = s.draw(13)
        if j < 3 and seeds:
            cur, k = s.choice(seeds), 0
            f = s.draw(4)
            st.append(['SETRANDOM(%s)', 'begin x := %s; SETRANDOM(x) end', 'seedit(%s)', 'if x = x then SETRANDOM(%s)'][f] % cur)
            if f == 2:
                lab.add('SETRANDOM in a procedure')
            if len(seeds) > 1:
                lab.add('several seeds')
            continue
        if k > 50:
            continue
        ops += 1
        if j < 5:
            st.append('show(RANDOM)')
            exp += want(1)
        elif j == 5:
            n = s.rint(1, 8)
            st.append('for i := 1 step 1 until %d do show(RANDOM)' % n)
            exp += want(n)
            lab.add('in a loop')
        elif j == 6:
            st.append('twice(RANDOM)')
            exp += want(2)
            lab.add('passed by name')
        elif j == 7:
            st.append('once(RANDOM)')
            exp += want(1) * 2
            lab.add('passed by value')
        elif j == 8:
            n = s.rint(1, 6)
            st.append('rec(%d)' % n)
            exp += want(n)
            lab.add('in a recursive procedure')
        elif j == 9:
            st.append('a[EVEN(2)] := RANDOM; a[2] := RANDOM; show(a[2]); show(a[1])')
            w = want(2)
            exp += [w[1], w[0]]
            lab.add('stored in an array')
        elif j == 10:
            st.append('x := RANDOM + 2 × RANDOM; if x < 0 then NLCR')
            want(2)
            lab.add('several in an expression')
        elif j == 11:
            n = s.rint(1, 5)
            st.append('x := SUM(i, 1, %d, RANDOM); show(RANDOM)' % n)
            want(n)
            exp += want(1)
            lab.add('within SUM')
        else:
            n = s.choice(noise)
            st.append(n)
            if 'PRINT' in n:
                exp.append('z')
            lab.add('other calls between')
    text = ("begin integer i; real x; array a[1:2]; %sprocedure twice(r); real r; begin show(r); show(r) end; procedure once(r); value r; real r; begin show(r); show(r) end; "
            "procedure p(y); real y; y := y + 1; procedure seedit(y); value y; real y; SETRANDOM(y); "
            "procedure rec(n); value n; integer n; begin real r; r := RANDOM; show(r); if n > 1 then rec(n - 1) end; x := 0.5; %s end" % (SHOW, '; '.join(st)))
    d = dict(expected_stdout=''.join(exp))
    r = run(ctx, text, d)
    out = r.out.decode('utf8', 'replace')
    if r.rc:
        raise Fail('stopped with an error', **d)
    if out != ''.join(exp):
        raise Fail('the history gives other numbers: %s' % diff_text(''.join(exp), out), **d)
    return dict(nontrivial=ops > 1, key=text, labels=sorted(lab), sample=dict(program=text, stdout=out[:200]))


def case_seeds(ctx, s):
    """different seeds, different numbers; they are spread evenly"""
    if s.p(75):
        a, b = s.choice([(s.draw(1000), s.draw(1000)), (s.draw(M26), s.draw(M26)), (s.draw(1000), s.draw(M26))])
        if s.p(30):
            b = a + 1
        if a == b:
            raise Discard('equal')
        if sequence(ctx, str(a), 8) == sequence(ctx, str(b), 8):
            raise Fail('seeds %d and %d give the same numbers' % (a, b), numbers=sequence(ctx, str(a), 8))
        return dict(nontrivial=True, key=(a, b), labels=['pair of seeds'])
    seed, m = s.draw(100000), s.choice([8, 10, 16, 7])
    d = {}
    r = run(ctx, "begin integer i, k, u; real x, y, sx, sxy, sxx; integer array n[0:%d]; SETRANDOM(%d); for i := 0 step 1 until %d do n[i] := 0; sx := 0; sxy := 0; sxx := 0; x := RANDOM; u := 0; "
            "for i := 1 step 1 until 4000 do begin y := RANDOM; k := entier(y × %d); n[k] := n[k] + 1; sx := sx + y; sxy := sxy + x × y; sxx := sxx + y × y; if y > x then u := u + 1; x := y end; "
            "for i := 0 step 1 until %d do begin print(n[i]); SPACE(1) end; print(u); NLCR; print(sx, sxy, sxx) end" % (m - 1, seed, m - 1, m, m - 1), d)
    if r.rc:
        raise Fail('stopped with an error', **d)
    f = r.out.decode('utf8', 'replace').split()
    try:
        n, u, (sx, sxy, sxx) = [int(x) for x in f[:m]], int(f[m]), [float(x) for x in f[m + 1:]]
    except ValueError:
        raise Fail('unexpected output', **d)
    N = 4000
    chi = sum((x - N / m) ** 2 / (N / m) for x in n)
    # limits far beyond 7 standard deviations
    if chi > 100 or abs(u - N / 2) > 200 or abs(sx / N - .5) > .04 or abs(sxx / N - 1 / 3) > .04 or abs(sxy / N - .25) > .04:
        raise Fail('RANDOM is not spread evenly: chi-square %.1f, %d rises in %d, means %.4f %.4f %.4f' % (chi, u, N, sx / N, sxx / N, sxy / N), **d)
    return dict(nontrivial=True, key=(seed, m), labels=['distribution'], sample=dict(seed=seed, counts=n))


# ------------------------------------------------------------------------- EVEN
def anyint(s):
    k = s.draw(6)
    v = s.draw(10) if k < 2 else s.draw(M26) if k < 4 else M26 - 1 - s.draw(4) if k == 4 else 1 << s.draw(26)
    return -v if s.p(40) else v


def case_even(ctx, s):
    st, exp = [], []
    for _ in range(s.rint(2, 12)):
        v = anyint(s)
        lit = str(v) if v >= 0 else '-%d' % -v
        e = s.choice([lambda: lit, lambda: '(%s)' % lit, lambda: 'idn(%s)' % lit, lambda: 'byname(%s)' % lit, lambda: 'if x = 0 then %s else 7' % lit])()
        pre = ''
        k = s.draw(5)
        if k == 0:
            pre, e = 'i := %s; ' % lit, 'i'
        elif k == 1:
            pre, e = 'a[2] := %s; ' % lit, 'a[EVEN(2) + 1]'
        elif k == 2 and abs(v) < M26 // 2:
            w = s.draw(1000)
            pre, e, v = 'i := %s; ' % lit, 'i + %d' % w, v + w
        f = s.draw(4)
        r = 1 if v % 2 == 0 else -1
        if f == 0:
            st.append(pre + 'print(EVEN(%s))' % e)
            exp.append(r)
        elif f == 1:
            st.append(pre + 'print(3 × EVEN(%s) + 1)' % e)
            exp.append(3 * r + 1)
        elif f == 2:
            st.append(pre + 'print(if EVEN(%s) = 1 then 10 else 20)' % e)
            exp.append(10 if r == 1 else 20)
        else:
            st.append(pre + 'print(EVEN(EVEN(%s) + 1))' % e)
            exp.append(1 if (r + 1) % 2 == 0 else -1)
    text = ("begin integer i, x; integer array a[1:2]; integer procedure idn(n); value n; integer n; idn := n; integer procedure byname(n); integer n; byname := n; x := 0; %s end" %
            '; '.join(x + '; NLCR' for x in st))
    d = dict(expected=exp)
    r = run(ctx, text, d)
    if r.rc or r.out.decode('utf8', 'replace').split() != [str(x) for x in exp]:
        raise Fail('EVEN delivers something else', **d)
    return dict(nontrivial=True, key=text, labels=[], sample=dict(program=text, stdout=r.out.decode()))


# -------------------------------------------------------------------------- SUM
# a is an integer too: a real argument is rounded, whether it is called by value (as b) or by name
DOC = ("real procedure SUM(i, a, b, x); value a, b; integer i, a, b; real x; begin real s; s := 0; for i := a step 1 until b do s := s + x; SUM := s end; ")


class Sums:
    """expressions with SUM in all places; a and b have no side effects, values stay small"""

    def __init__(self, s):
        self.s = s
        self.n = 0
        self.lab = set()

    def small(self, vs):
        s = self.s
        k = s.draw(6)
        if k < 3 or not vs:
            return str(s.rint(0, 5)) if s.p(80) else '(-%d)' % s.rint(1, 4)
        if k == 3:
            return s.choice(vs)
        if k == 4:
            return 'm + %d' % s.draw(3)
        return '%s - %d' % (s.choice(vs), s.draw(3))

    def expr(self, d, vs):
        s = self.s
        k = s.draw(14)
        if d <= 0 or k < 2:
            return s.choice(vs + ['m', 'r', 'A[2]', '%d' % s.draw(9), '%d.%s' % (s.draw(4), s.choice(['5', '25', '0']))])
        if k < 5:
            return '%s %s %s' % (self.expr(d - 1, vs), s.choice('+-'), self.term(d - 1, vs))
        if k == 5:
            return '%s × %s' % (self.term(d - 2, vs), self.small(vs) if s.p(50) else self.term(d - 2, vs)) if False else '%s × %d' % (self.term(d - 1, vs), s.rint(2, 3))
        if k == 6:
            return '(if %s %s %s then %s else %s)' % (s.choice(vs + ['m']), s.choice(['<', '=', '>', '≠', '≤']), self.small([]), self.expr(d - 1, vs), self.expr(d - 1, vs))
        if k == 7:
            self.lab.add('x with a side effect')
            return 'bump(%s)' % self.expr(d - 1, vs)
        if k == 8:
            self.lab.add('SUM within a function')
            return s.choice(['tri(%s)', 'jensen(%s)', 'nest(%s)']) % self.expr(d - 1, vs)
        return self.sum(d - 1, vs)

    def term(self, d, vs):
        e = self.expr(d, vs)
        return e if re.fullmatch(r'\w+', e) or re.fullmatch(r'SUM\(.*\)', e) and False else '(%s)' % e

    def sum(self, d, vs):
        s = self.s
        free = [v for v in ('i', 'j', 'k', 'A[1]', 'A[m]', 'q') if v not in vs and not (v[0] == 'A' and any(w[0] == 'A' for w in vs))]
        if not free:
            return '1'
        v = s.choice(free)
        a, b = self.small(vs), self.small(vs)
        if s.p(60):
            a = str(s.rint(-2, 2))
            if a[0] == '-':
                a = '-' + a[1:]
        if s.p(15):
            a = '%s.%s' % (s.draw(3), s.choice(['4', '6', '25']))
            self.lab.add('rounded bounds')
        if s.p(10):
            b = '%s + %s' % (b, s.choice(['.4', '.75']))
            self.lab.add('rounded bounds')
        if v == 'q':
            self.lab.add('real bound variable')
        if v[0] == 'A':
            self.lab.add('array element as bound variable')
        if vs:
            self.lab.add('nested SUM')
        self.n += 1
        return 'SUM(%s, %s, %s, %s)' % (v, a, b, self.expr(d, vs + [v]))


def case_sum(ctx, s):
    g = Sums(s)
    st = []
    for _ in range(s.rint(1, 5)):
        e = g.sum(s.rint(1, 3), []) if s.p(70) else g.expr(3, [])
        st.append(s.choice(['print(%s)', 'begin x := %s; print(x) end', 'print(if %s > 3 then 1 else 2)', 'show(%s)', 'twice(%s)']) % e + '; NLCR')
        if s.p(50):
            st.append("print(i, j, k, A[1], A[2], q, m, c); NLCR")
    if not g.n:
        raise Discard('no SUM')
    body = ("integer procedure bump(x); integer x; begin c := c + 1; bump := x + 1 end; real procedure tri(n); value n; integer n; begin integer h; tri := SUM(h, 1, if n > 6 then 6 else n, h) end; "
            "real procedure jensen(e); real e; begin integer h; jensen := SUM(h, 1, 3, e) end; real procedure nest(e); value e; real e; begin integer h, g; nest := SUM(h, 0, 1, SUM(g, h, 2, e + g)) end; "
            "procedure show(x); value x; real x; print(x); procedure twice(x); real x; begin print(x); SPACE(1); print(x) end; "
            "i := j := k := 17; A[1] := 21; A[2] := %d; q := 1.5; m := %d; r := %d.5; c := 0; x := 0; %s end" % (s.draw(5), s.rint(1, 2), s.draw(3), '; '.join(st)))
    decl = 'begin integer i, j, k, m, c; real q, r, x; integer array A[1:2]; '
    d1, d2 = {}, {}
    r1 = run(ctx, decl + body, d1)
    r2 = run(ctx, decl + DOC + body, d2)
    d = dict(program=d1['program'], observed=d1['observed'], program_with_documented_text=d2['program'], observed_there=d2['observed'])
    o1, o2 = r1.out.decode('utf8', 'replace'), r2.out.decode('utf8', 'replace')
    if r1.rc != r2.rc and re.search('compiler', (r1.err + r2.err).decode('utf8', 'replace')):
        raise Fail('only one of the programs is accepted', **d)
    big = any(abs(float(x)) > 1e9 for x in re.findall(r'[\d.]+(?:e[+-]?\d+)?', o1 + ' ' + o2) if x.strip('.'))
    if big:
        raise Discard('large values')
    if r1.rc != r2.rc or norm(o1) != norm(o2):
        raise Fail('SUM differs from its documented text: %s' % diff_text(o2, o1), **d)
    return dict(nontrivial=r1.rc == 0, key=d1['program'], labels=sorted(g.lab | ({'error in both'} if r1.rc else set())), sample=dict(program=d1['program'], stdout=o1[:300]))


# ------------------------------------------------------------------------- XEEN
def case_xeen(ctx, s):
    lines, st, exp, lab = [], [], [], set()
    sw, ask, err, pos = 0, True, False, [0]
    nl = s.rint(1, 6)
    plan = []
    for _ in range(s.rint(1, 12)):
        k = s.draw(12)
        if k < 8:
            n = s.choice([0, anyint(s), anyint(s), 1 << s.draw(26), -(1 << s.draw(26)), M26 - 1, -(M26 - 1)])
            if ask and not err:
                j = s.draw(20)
                if j == 0:
                    err = True
                    lab.add('no input')
                    plan.append(('x', n, None))
                    lines = [l for l in lines]
                    break
                if j == 1:
                    lines.append(s.choice(['1' * 28, '1' + '0' * 27, '1' * 40, '1' * 70, 'x', '', '-', '2']))
                    err = True
                    lab.add('bad input')
                    plan.append(('x', n, None))
                    break
                sw = s.choice([s.draw(1 << 27), M27, 0, 1 << s.draw(27), s.draw(64), M27 ^ (1 << s.draw(27))])
                t = bin(sw)[2:]
                lines.append(t.rjust(27, '0') if s.p(30) else t)
                ask = False
                lab.add('switches asked')
            w = n if n > 0 else M27 + n
            w &= sw
            plan.append(('x', n, w if w < M26 else w - M27))
        elif k < 10:
            plan.append(('stop',))
            ask = True
            lab.add('STOP')
        else:
            v = s.draw(1000)
            lines.append(str(v))
            plan.append(('read', v))
            lab.add('read between')
    for p in plan:
        if p[0] == 'x':
            lit = str(p[1]) if p[1] >= 0 else '-%d' % -p[1]
            st.append(s.choice(['print(XEEN(%s)); NLCR', 'i := %s; print(XEEN(i)); NLCR', 'show(XEEN(%s))', 'i := XEEN(%s); print(i); NLCR', 'byname(XEEN(%s))',
                                'print(XEEN(%s.0)); NLCR']) % lit)
            if p[2] is not None:
                exp.append(str(p[2]))
        elif p[0] == 'stop':
            st.append(s.choice(['stop', 'halt', 'begin stop end']))
        else:
            st.append('print(read); NLCR')
            exp.append(str(p[1]))
    stdin = '\n'.join(lines) + ('\n' if lines and s.p(80) else '')
    text = ("begin integer i; procedure show(n); value n; integer n; begin print(n); NLCR end; procedure byname(n); integer n; begin print(n); NLCR end; procedure halt; stop; %s end" % '; '.join(st))
    d = dict(expected=exp)
    r = run(ctx, text, d, stdin)
    got = norm(r.out.decode('utf8', 'replace')).split()
    if (r.rc != 0) != err:
        raise Fail('exit status %d' % r.rc, error_expected=err, **d)
    if got != [norm(x) for x in exp]:
        raise Fail('XEEN delivers something else', **d)
    if not err and r.err.strip():
        raise Fail('error report', **d)
    return dict(nontrivial=any(p[0] == 'x' for p in plan), key=(text, stdin), labels=sorted(lab), sample=dict(program=text, stdin=stdin, stdout=r.out.decode('utf8', 'replace')))


# -------------------------------------------------------------------- TIMEOFDAY
def case_time(ctx, s):
    n = s.rint(2, 40)
    k = s.draw(4)
    t = time.time()
    if k == 0:
        off = 0
    elif k == 1:
        off = s.rint(-12 * 3600, 12 * 3600)
    elif k == 2:
        off = int(86400 - t % 86400) - s.draw(3)        # just before midnight
        off = off if off <= 86400 // 2 else off - 86400
    else:
        off = int(s.draw(24) * 3600 - t % 86400) + s.draw(2)
        off = (off + 43200) % 86400 - 43200
    a = abs(off)
    tz = 'XYZ%s%02d:%02d:%02d' % ('-' if off >= 0 else '+', a // 3600, a // 60 % 60, a % 60)
    text = ("begin integer i; real x, y; procedure show(t); value t; real t; begin integer h; h := entier(t); print(h); SPACE(1); print(entier((t - h) × 1000000)); NLCR end; "
            "for i := 1 step 1 until %d do begin x := TIMEOFDAY; show(x); for y := 1 step 1 until %d do x := x + y; show(TIMEOFDAY) end end" % (n, s.choice([0, 10, 1000])))
    d = dict(tz=tz)
    t0 = time.time()
    r = run(ctx, text, d, env={'TZ': tz})
    t1 = time.time()
    d['between'] = [t0, t1]
    f = r.out.decode('utf8', 'replace').split()
    if r.rc or len(f) != 4 * n or not all(re.fullmatch(r'\d+', x) for x in f):
        raise Fail('TIMEOFDAY fails', **d)
    v = [int(a) + int(b) / 1e6 for a, b in zip(f[::2], f[1::2])]
    if t1 - t0 > 3600:
        raise Discard('machine stalled')
    last = t0 + off
    for x in v:
        if not 0 <= x < 86400:
            raise Fail('not a time of day: %r' % x, **d)
        # the moment of the same time of day next to the last one
        m = x + 86400 * round((last - x) / 86400)
        if m < last - 0.002 or m > t1 + off + 0.002:
            raise Fail('TIMEOFDAY gives %.6f, which is not between %.6f and %.6f' % (x, last % 86400, (t1 + off) % 86400), **d)
        last = max(last, m)
    return dict(nontrivial=True, key=(tz, n), labels=['about midnight' if k == 2 else 'about a full hour' if k == 3 else 'any time'], sample=dict(tz=tz, first=v[0]))


# ------------------------------------------------------------------------- XEEN at a terminal
def case_console(ctx, s):
    ask, lines, st, exp, lab = True, [], [], '', set()
    head = '\nEnter console switches (up to 27 binary digits)\n> '
    err = None
    sw = 0
    for _ in range(s.rint(1, 9)):
        k = s.draw(10)
        if k < 7:
            n = s.choice([0, anyint(s), anyint(s), 1 << s.draw(26), M26 - 1, -(M26 - 1)])
            if ask:
                while s.p(35):
                    lines.append(s.choice(['1' * 28, '1' + '0' * 27, '1' * 70, 'x', '', '-', '2', 'on', '-1', '.1', ' ']))
                    exp += head + 'Bad input, try again.\n'
                    lab.add('refused')
                exp += head
                if s.p(5):
                    err = 'no input'
                    st.append('print(XEEN(%d)); NLCR' % n if n >= 0 else 'print(XEEN(-%d)); NLCR' % -n)
                    lab.add('no input')
                    break
                sw = s.choice([s.draw(1 << 27), M27, 0, 1 << s.draw(27), s.draw(64), M27 ^ (1 << s.draw(27))])
                t = bin(sw)[2:]
                lines.append(t.rjust(27, '0') if s.p(30) else t)
                ask = False
            w = (n if n > 0 else M27 + n) & sw
            lit = str(n) if n >= 0 else '-%d' % -n
            st.append(s.choice(['print(XEEN(%s)); NLCR', 'i := %s; print(XEEN(i)); NLCR', 'i := XEEN(%s); print(i); NLCR']) % lit)
            exp += '%s\n' % norm(str(w if w < M26 else w - M27) if w != M27 else '0')
        elif k < 9:
            st.append('stop')
            ask = True
        else:
            v = s.draw(1000)
            lines.append(str(v))
            st.append('print(read); NLCR')
            exp += 'Enter number: %d\n' % v
    stdin = ''.join(l + '\n' for l in lines)
    text = kwtext('begin integer i; %s end' % '; '.join(st))
    ctx.write('p.a60', text)
    r = ctx.exec([ctx.tools['x1sim'], 'p.a60'], stdin, tty=True)
    d = dict(program=text, stdin=stdin, expected=exp, observed=r.brief())
    c = crash_text(r)
    if c or r.timeout:
        raise Fail('crash or hang: %s' % c, **d)
    if (r.rc != 0) != bool(err):
        raise Fail('exit status %s' % r.rc, **d)
    got = r.out.decode('utf8', 'replace')
    if norm(got).rstrip('\n') != norm(exp).rstrip('\n'):
        raise Fail('the dialogue differs: ' + diff_text(exp, got), **d)
    return dict(nontrivial='print(XEEN' in text or 'XEEN(' in text, key=(text, stdin), labels=sorted(lab), sample=dict(program=text[-300:], stdin=stdin[:200]))


CHECK = Check('P21', [
    Sub('random', case_random, 5000, 60000, 'different histories with more than one call of RANDOM'),
    Sub('seeds', case_seeds, 600, 10000, 'different pairs of seeds or distributions'),
    Sub('even', case_even, 2000, 40000, 'different programs'),
    Sub('sum', case_sum, 7000, 80000, 'different programs that run to their end'),
    Sub('xeen', case_xeen, 6000, 80000, 'different histories with a call of XEEN'),
    Sub('console', case_console, 800, 15000, 'different dialogues with a call of XEEN'),
    Sub('time', case_time, 300, 4000, 'different places and moments'),
])
