"""P08: exponentiation"""
from checks.numgen import *
from vx import ref

LIM = Fraction(2) ** 2047
TINY = Fraction(1, 2 ** 2049)


def reference(a, b):
    """('ok', alternatives) | ('err', why) | ('skip', why)"""
    x, y = X.frac(a), X.frac(b)
    if b[0] == 'i':
        n = int(y)
        if n == 0:
            if x == 0:
                return 'err', '0 to the power 0'
            return 'ok', [X.iv(1) if a[0] == 'i' else X.real_of_int(1)]
        if x == 0:
            if n < 0:
                return 'err', 'zero to a negative power'
            return 'ok', [X.iv(0) if a[0] == 'i' else X.RZERO]
        if a[0] == 'i' and n > 0:
            p = X.power_int(a, n)
            return ('ok', [p]) if p is not None else ('err', 'integer overflow')
        tol = Fraction(51, 100) + Fraction(abs(n), 1 << 22)
        neg = x < 0 and n & 1
        if abs(n) <= 300:
            r = abs(x) ** n
        else:
            r = ref.power(abs(x), Fraction(n))
            if r is None:
                return 'err', 'real overflow'
            r = r[0]
    else:
        if x < 0:
            return 'err', 'negative base with a real exponent'
        if x == 0:
            if y <= 0:
                return 'err', 'zero to a non-positive real power'
            return 'ok', [X.RZERO]
        tol = Fraction(51, 100)
        neg = False
        r = ref.power(x, y)
        if r is None:
            return 'err', 'real overflow'
        r = r[0]
    # the borders of the range, where the allowed error decides
    if r:
        rel = tol / (1 << 38)
        if abs(r - LIM) < LIM * rel or abs(r - TINY) < TINY * rel * 4:
            return 'skip', 'at the border of the range'
    if neg:
        r = -r
    try:
        v = X.real_of_frac(r)
    except X.AlgolError as e:
        return 'err', str(e)
    if r == 0 or X.frac(v) == 0:
        return 'ok', [v]
    n, m, e = X.dec(v[1])
    alts = [v]
    for d in (1, -1):
        w = v
        for k in range(20):
            w = adjacent(w, d)
            if w is None or abs(X.frac(w) - r) > tol * Fraction(2) ** e:
                break
            alts.append(w)
    return 'ok', alts


def g_pair(s):
    k = s.draw(12)
    if k == 0:
        return iv(s), iv(s)
    if k == 1:
        return iv(s), X.iv(s.rint(-40, 40))
    if k == 2:
        return rv(s, False), X.iv(s.rint(-45, 45))
    if k == 3:
        return rv(s, True), X.iv(s.rint(-4, 4))
    if k == 4:      # base near 1, large exponent
        m = mk(s.draw(2), (1 << 39) + s.draw(1 << s.rint(1, 39)), 1)
        if s.p(50):
            m = mk(s.draw(2), (1 << 40) - 1 - s.draw(1 << s.rint(1, 38)), 0)
        return m, X.iv(g_int(s))
    if k == 5:      # real exponents
        return X.real_of_frac(Fraction(s.rint(1, 4000), s.rint(1, 100))), X.real_of_frac(Fraction(s.rint(-400, 400), s.rint(1, 40)) or Fraction(1, 2))
    if k == 6:
        return rv(s, True), rv(s, False)
    if k == 7:
        return iv(s), rv(s, False)
    if k == 8:      # special classes
        z = [X.iv(0), X.INEGZERO, X.RZERO, X.RNEGZERO, X.iv(1), X.iv(-1), X.real_of_int(1), X.real_of_int(-1), X.iv(2), X.iv(-2),
             X.real_of_int(2), X.real_of_int(-3), X.real_of_frac(Fraction(1, 2)), X.real_of_frac(Fraction(-1, 2)), X.iv(3), X.iv(-7)]
        return s.choice(z), s.choice(z)
    if k == 9:      # powers of two at the limits of the range
        e = s.rint(1, 60)
        return mk(s.draw(2), 1 << 39, s.choice([e, -e]) + 1), X.iv(s.choice([1, -1]) * (2048 // max(1, e) + s.rint(-2, 2)))
    if k == 10:
        a = s.rint(2, 30)
        n = s.rint(2, 12)
        return X.iv(a * s.choice([1, -1])), X.iv(-n)
    return X.real_of_frac(Fraction(s.rint(-900, 900), 8)), X.iv(s.rint(-9, 9))


def cls(v):
    f = X.frac(v)
    return v[0] + ('0' if f == 0 else '+' if f > 0 else '-')


def case(ctx, s):
    o = O.Obj()
    lines, todo, err = [], [], None
    n = s.rint(1, 12)
    tries = 0
    while len(todo) < n and tries < 50:
        tries += 1
        a, b = g_pair(s)
        k, r = reference(a, b)
        if k == 'skip':
            continue
        if k == 'err':
            if err is None and s.p(50):
                err = (a, '↑', b, r)
            continue
        todo.append((a, b, r))
    for a, b, r in todo:
        result_lines(o, lambda: o.take(a).take(b).op('TTP'), r, (a, '↑', b), lines, s)
    if not err and todo:
        a, b, r = todo[-1]
        if (e := real_end(o, lambda: o.take(a).take(b).op('TTP'), r, (a, '↑', b), s)):
            err = (a, '↑', b, e[-1])
    elif err:
        o.take(err[0]).take(err[2]).op('TTP', 'print', 'NLCR')
    o.op('STOP')
    check_lines(ctx.run_x1(o.text()), lines, err, o)
    keys = [(a, b) for a, b, r in todo] + ([err] if err else [])
    labels = {'%s ↑ %s' % (cls(a), cls(b)) for a, b, r in todo}
    if err:
        labels.add('error %s: %s ↑ %s' % (err[3], cls(err[0]), cls(err[2])))
    return dict(nontrivial=bool(keys), key=keys and keys[0], keys=keys, evals=len(keys), labels=sorted(labels),
                sample=[[desc(a), desc(b), [desc(x) for x in r[:3]]] for a, b, r in todo[:3]] + ([describe(err)] if err else []))


def case_source(ctx, s):
    """compiled: precedence and association of ↑, signs, and operands of several kinds"""
    ints = {'i': s.rint(-5, 6), 'j': s.rint(1, 4), 'k': s.rint(-4, 3)}
    reals = {'x': Fraction(s.rint(-40, 40), 8), 'y': Fraction(s.rint(1, 24), 8)}

    def prim(d):
        k = s.draw(6)
        if k == 0 or d <= 0:
            n = s.choice(sorted(ints) + sorted(reals))
            return ('var', n)
        if k == 1:
            n = s.rint(0, 5)
            return ('num', str(n), X.iv(n))
        if k == 2:
            return expr(d - 1)
        if k == 3:
            return ('var', 'j')
        return ('var', s.choice('jxy'))

    def expr(d):
        k = s.draw(6)
        if k == 0:
            return prim(d)
        if k == 1:
            return ('neg', expr(d - 1)) if d > 0 else prim(d)
        if k <= 3:
            return ('bin', '↑', prim(d - 1), s.choice([('var', 'j'), ('num', '2', X.iv(2)), ('num', '3', X.iv(3)), ('neg', ('num', '1', X.iv(1)))]))
        return ('bin', s.choice(['+', '-', '×', '/', '↑']), prim(d - 1), prim(d - 1))
    P = A.Printer()
    it = A.Interp()
    env = A.Env(None)
    txt = 'begin integer i, j, k; real x, y;\n'
    for n, v in ints.items():
        c = A.Cell('i')
        c.v = X.iv(v)
        env.b[n] = c
        txt += '%s := %d; ' % (n, v)
    for n, v in reals.items():
        c = A.Cell('r')
        c.v = X.real_of_frac(v) if v else X.RZERO
        env.b[n] = c
        txt += '%s := %s%d / 8; ' % (n, '-' if v < 0 else '', abs(v * 8))
    txt = kwtext(txt + '\n')
    lines, keys, err = [], [], None
    for _ in range(s.rint(1, 8)):
        e = expr(3)
        if e[0] == 'var':
            continue
        try:
            v = it.ev(e, env)
        except A.Ambiguous:
            continue
        except X.AlgolError as er:
            if err is None:
                err = (P.e(e), str(er))
            continue
        txt += 'print(%s); NLCR;\n' % P.e(e)
        lines.append((1, [(X.fmt(v),)], (P.e(e), ints, str(reals))))
        keys.append((P.e(e), str(ints), str(reals)))
    if err:
        txt += 'print(%s); NLCR;\n' % err[0]
    txt += kwtext('i := 0 end\n')
    check_lines(ctx.run_a60(txt), lines, err, None, dict(program=txt))
    return dict(nontrivial=any('↑' in k[0] for k in keys), key=keys and keys[0], keys=keys, evals=len(keys) + bool(err), sample=txt)


CHECK = Check('P08', [
    Sub('powers', case, 14000, 250000, 'distinct (base, exponent), errors included'),
    Sub('source', case_source, 6000, 80000, 'expressions with ↑'),
], assumptions=['a real power to an integer exponent n may be off by 0.51 + |n|/2^22 units of the last place (repeated squaring in extended precision), other powers by 0.51'])
