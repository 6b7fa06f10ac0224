"""P07: elementary functions"""
from checks.numgen import *
from vx import ref

FUN = ['sqrt', 'sin', 'cos', 'arctan', 'ln', 'exp', 'abs', 'sign', 'entier']
PI2 = Fraction(ref.pi_fix(300), 1 << 301)


def g_arg(s, f):
    k = s.draw(9)
    if k == 0:
        return iv(s)
    if k == 1:
        return rv(s, True)
    if k in (2, 3):
        return rv(s, False)
    if k == 4:
        v = X.real_of_frac(Fraction(s.rint(1, 4000), s.rint(1, 300)))
    elif k == 5:    # near multiples of pi/2, or near 1
        if f in ('sin', 'cos', 'arctan'):
            v = neighbour(X.real_of_frac(PI2 * s.rint(1, 3000)), s.rint(-2, 2))
        else:
            v = neighbour(X.real_of_int(1), s.rint(0, 6)) if s.p(50) else shift(mk(0, (1 << 40) - s.rint(1, 9), 0), 0)
    elif k == 6:    # border of exp
        if f == 'exp':
            v = X.real_of_frac(Fraction(s.choice([1418, 1419, 1420, 1421])) + Fraction(s.draw(4096), 4096))
            if s.p(30):   # the exact limit: ln(2^2047)
                v = neighbour(X.real_of_frac(ref.ln(Fraction(2) ** 2047)[0]), s.rint(-3, 3))
        elif f == 'sqrt':
            n = s.draw(1 << 20)
            v = X.real_of_int(n * n) if s.p(50) else X.iv(min(MAXI, s.draw(8192) ** 2))
        else:
            v = rv(s, False)
    elif k == 7:
        v = X.iv(s.rint(-30, 200))
    else:
        v = X.real_of_frac(Fraction(s.rint(-64, 64), 8)) if True else None
    if s.p(40) and k in (4, 5, 6) and not (f in ('ln', 'sqrt') and s.p(85)):
        v = X.neg(v)
    return v


def reference(f, v):
    """('ok', alternatives) or ('err', why)"""
    x = X.frac(v)
    try:
        if f == 'abs':
            return 'ok', [X.absr(v)]
        if f == 'sign':
            return 'ok', [X.sign(v)]
        if f == 'entier':
            return 'ok', [X.entier(v)]
        if f == 'sqrt':
            if x < 0:
                return 'err', 'sqrt of a negative number'
            r = ref.sqrt(x)[0]
        elif f == 'ln':
            if x <= 0:
                return 'err', 'ln of a non-positive number'
            r = ref.ln(x)[0]
        elif f == 'exp':
            e = ref.exp(x)
            if e is None:
                return 'err', 'exp overflow'
            r = e[0]
            if abs(r - Fraction(2) ** 2047) < Fraction(2) ** 2047 / (1 << 36):
                # at the very limit
                try:
                    rounded(r)
                except X.AlgolError:
                    pass
        else:
            r = getattr(ref, f)(x)[0]
        return 'ok', rounded(r)
    except X.AlgolError as e:
        return 'err', str(e)


def case(ctx, s):
    o = O.Obj()
    lines, todo = [], []
    err = None
    n = s.rint(1, 12)
    tries = 0
    while len(todo) < n and tries < 50:
        tries += 1
        f = s.choice(FUN)
        v = g_arg(s, f)
        if f in ('ln', 'sqrt') and s.p(70) and X.is_neg(v):
            v = X.neg(v)
        k, r = reference(f, v)
        if k == 'err':
            if err is None and s.p(50):
                err = (f, v, r)
            continue
        todo.append((f, v, r))
    for f, v, r in todo:
        result_lines(o, lambda: o.take(v).op(f), r, (f, v), lines, s)
    if not err and todo:
        f, v, r = todo[-1]
        err = real_end(o, lambda: o.take(v).op(f), r, (f, v), s)
    elif err:
        o.take(err[1]).op(err[0], 'print', 'NLCR')
    o.op('STOP')
    check_lines(ctx.run_x1(o.text()), lines, err, o)
    keys = [(f, v) for f, v, r in todo] + ([err] if err else [])
    labels = {f + ' ' + v[0] for f, v, r in todo} | {'near tie' for f, v, r in todo if len(r) > 1}
    if err:
        labels.add('error ' + err[2])
    return dict(nontrivial=bool(keys), key=keys and keys[0], keys=keys, evals=len(keys), labels=sorted(labels),
                sample=[[f, desc(v), [desc(x) for x in r]] for f, v, r in todo[:3]] + ([describe(err)] if err else []))


def case_source(ctx, s):
    """compiled calls: the argument any expression, the result used in an expression; several calls in one statement"""
    n = s.rint(1, 8)
    txt = 'begin real x, y; integer i;\nreal procedure id(u); value u; real u; id := u;\nprocedure show(u, v); real u, v; begin print(u); NLCR; print(v); NLCR end;\n'
    lines, keys = [], []

    def arg():
        if s.p(30):
            m = s.rint(1, 60)
            v = X.iv(m)
            t = str(m)
        else:
            fr = Fraction(s.rint(1, 2000), 1 << s.rint(1, 7))
            v = X.real_of_frac(fr)
            e = fr.denominator.bit_length() - 1
            dg = str(fr.numerator * 5 ** e).rjust(e + 1, '0')
            t = (dg[:-e] + '.' + dg[-e:]) if e else dg + '.0'
            t = t.rstrip('0') + ('0' if t.rstrip('0').endswith('.') else '') if '.' in t else t
        return v, t
    def one():
        f = s.choice(FUN)
        v, t = arg()
        sg = s.p(30) and f not in ('ln', 'sqrt')
        if sg:
            v, t = X.neg(v), '-' + t
        k, r = reference(f, v)
        if k == 'err':
            return None
        form = s.draw(4)
        if form == 0:
            a = '%s(%s)' % (f, t)
        elif form == 1:
            a = '%s((%s))' % (f, t)
        elif form == 2 and v[0] == 'r':
            a = '%s(id(%s))' % (f, t)
        else:
            a = '%s(%s)' % (f, t)
        return f, v, r, a
    for _ in range(n):
        p, q = one(), one()
        if not p or not q:
            continue
        form = s.draw(4)
        if form == 0:
            txt += 'show(%s, %s);\n' % (p[3], q[3])
        elif form == 1:
            txt += 'print(%s); NLCR; print(%s); NLCR;\n' % (p[3], q[3])
        elif form == 2:
            txt += 'print(0 + %s); NLCR; print(if sign(%s) > 5 then 0 else %s); NLCR;\n' % (p[3], p[3], q[3])
        else:
            txt += 'show(%s, if %s > x then 1 else 2);\n' % (p[3], q[3]) if False else 'show(id(%s), %s);\n' % (p[3], q[3])
        for f, v, r, a in (p, q):
            lines.append((1, [(X.fmt(x),) for x in r], (f, v, a)))
            keys.append((f, v, form))
    txt = kwtext(txt + 'x := 0 end\n')
    check_lines(ctx.run_a60(txt), lines, None, None, dict(program=txt))
    return dict(nontrivial=bool(keys), key=keys and keys[0], keys=keys, evals=len(keys),
                labels=sorted({'source ' + k[0] for k in keys}), sample=txt)


CHECK = Check('P07', [
    Sub('functions', case, 14000, 250000, 'distinct (function, argument), errors included'),
    Sub('source', case_source, 5000, 60000, 'distinct (function, argument, form of call) in compiled programs'),
], assumptions=['results may differ from correct rounding only within 1/100 unit in the last place of a tie'])
