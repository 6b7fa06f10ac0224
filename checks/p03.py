"""P03: integer arithmetic"""
from checks.numgen import *
from fractions import Fraction


def opers(s, op):
    a = iv(s)
    b = related(s, a) if s.p(60) else iv(s)
    if op == '÷':
        if s.p(8):
            b = s.choice([X.iv(0), X.INEGZERO])
        if s.p(4):
            b = rv(s, False)
    elif b[0] == 'r':
        b = iv(s)
    if s.p(25):
        a, b = b, a
    return a, b


def base_model(op, a, b):
    return model(op, a, b)


case_ops = object_ops_case(['+', '-', '×', '÷'], opers)


def g_real_for_int(s):
    """a real near an integer, a half, or the border of the integer range"""
    k = s.draw(8)
    if k == 0:
        return rv(s, False)
    if k == 1:
        return rv(s, True)
    if k in (2, 3):
        n = abs(g_int(s))
        q = s.choice([0, 1, 2, 3])
        f = Fraction(4 * n + q, 4)
    elif k == 4:
        f = Fraction(2 * (MAXI + 1) + s.rint(-6, 6), 2)
    elif k == 5:
        f = Fraction(2 * abs(g_int(s)) + 1, 2)
    elif k == 6:
        f = Fraction(s.draw(200), 8)
    else:
        f = Fraction(MAXI) + s.rint(0, 3)
    v = X.real_of_frac(f)
    if s.p(35) and k != 1:
        v = neighbour(v, s.choice([1, -1, 2, -3]))
    if s.p(50):
        v = X.neg(v)
    return v


def case_convert(ctx, s):
    """real -> integer on assignment, entier, sign; integer entier, abs, neg"""
    o = O.Obj()
    lines, keys = [], []
    err = None
    n = s.rint(1, 16)
    tries = 0
    todo = []
    while len(todo) < n and tries < 60:
        tries += 1
        k = s.choice(['assign', 'entier', 'sign', 'neg', 'abs'])
        v = g_real_for_int(s) if k in ('assign', 'entier') and s.p(85) or k == 'sign' and s.p(60) else iv(s)
        try:
            w = {'assign': X.to_int, 'entier': X.entier, 'sign': X.sign, 'neg': X.neg, 'abs': X.absr}[k](v)
        except X.AlgolError as e:
            if err is None and s.p(60):
                err = (k, v, str(e))
            continue
        todo.append((k, v, w))

    def emit(k, v):
        if k == 'assign':
            o.vaddr(200).op('TIAS').take(v).op('ST')
            o.vaddr(200).op('TIRS')
        else:
            o.take(v).op('NEG' if k == 'neg' else k)
    for k, v, w in todo:
        emit(k, v)
        o.op('print', 'NLCR')
        lines.append((1, [(X.fmt(w),)], (k, v)))
        if w[0] == 'i' and s.p(50):
            integer_line(o, lambda: emit(k, v), [w], (k, v), lines)
    if err:
        emit(*err[:2])
        o.op('print', 'NLCR')
    o.op('STOP')
    check_lines(ctx.run_x1(o.text()), lines, err, o)
    keys = [(k, v) for k, v, w in todo] + ([err] if err else [])
    return dict(nontrivial=bool(keys), key=keys and keys[0], keys=keys, evals=len(keys),
                labels=sorted({k + ' ' + v[0] for k, v, w in todo} | ({'error ' + err[2]} if err else set())),
                sample=[[k, desc(v), X.fmt(w)] for k, v, w in todo[:3]] + ([describe(err)] if err else []))


def case_power(ctx, s):
    """integer to a positive integer power"""
    o = O.Obj()
    lines, keys, todo = [], [], []
    err = None
    for _ in range(s.rint(1, 24)):
        k = s.draw(5)
        if k == 0:
            a, n = s.rint(-20, 20), s.rint(1, 30)
        elif k == 1:      # near the largest base for this exponent
            n = s.rint(1, 26)
            r = int(round(MAXI ** (1.0 / n)))
            a = (r + s.rint(-2, 2)) * s.choice([1, -1])
        elif k == 2:
            a, n = g_int(s), s.rint(1, 5)
        elif k == 3:
            a, n = s.choice([0, 1, -1, 2, -2]), s.choice([1, 2, 3, 25, 26, 27, 31, 32, 33, 63, 64, 1000001, MAXI, MAXI - 1])
        else:
            a, n = g_int(s), abs(g_int(s)) or 1
        a = max(-MAXI, min(MAXI, a))
        p = X.power_int(X.iv(a), n)
        if p is None:
            if err is None and s.p(60):
                err = ('↑', X.iv(a), X.iv(n), 'integer overflow')
            continue
        todo.append((X.iv(a), X.iv(n), p))
    for a, n, p in todo:
        o.take(a).take(n).op('TTP', 'print', 'NLCR')
        lines.append((1, [(X.fmt(p),)], ('↑', a, n)))
        if s.p(50):
            integer_line(o, lambda: o.take(a).take(n).op('TTP'), [p], ('↑', a, n), lines)
    if err:
        o.take(err[1]).take(err[2]).op('TTP', 'print', 'NLCR')
    o.op('STOP')
    check_lines(ctx.run_x1(o.text()), lines, err, o)
    keys = [(a, n) for a, n, p in todo] + ([err] if err else [])
    return dict(nontrivial=bool(keys), key=keys and keys[0], keys=keys, evals=len(keys),
                labels=['error'] if err else [], sample=[[desc(a), desc(n), X.fmt(p)] for a, n, p in todo[:3]])


def lit(v):
    """source expression for an integer value"""
    n = X.word_to_int(v[1])
    if v == X.INEGZERO:
        return '(-0)'
    return lit_int(n)


def case_source(ctx, s):
    """the same through compiled programs: literals, variables, and a mixture"""
    lines, keys, body = [], [], []
    err = None
    for _ in range(s.rint(1, 14)):
        op = s.choice(['+', '-', '×', '÷'])
        a, b = opers(s, op)
        if a[0] == 'r' or b[0] == 'r':
            continue
        k, r = model(op, a, b)
        form = s.draw(5)
        item = (op, a, b)
        if k == 'err':
            if err is None and s.p(50):
                err = (op, a, b, r)
                ef = form
            continue
        body.append((form, op, a, b))
        lines.append((1, [(X.fmt(v),) for v in r], item))
        keys.append(item)
    if err:
        body.append((ef,) + err[:3])
    txt = 'begin integer i, j, k; real x;\n'
    for form, op, a, b in body:
        la, lb = lit(a), lit(b)
        if form == 0:
            txt += 'print(%s %s %s)' % (la, op, lb)
        elif form == 1:
            txt += 'i := %s; j := %s; print(i %s j)' % (la, lb, op)
        elif form == 2:
            txt += 'i := %s; print(i %s %s)' % (la, op, lb)
        elif form == 3:
            txt += 'j := %s; print((%s) %s j)' % (lb, la, op)
        else:
            txt += 'i := %s; j := %s; print((i + 0) %s (j - 0))' % (la, lb, op)
        txt += '; NLCR;\n'
    txt += ' end\n'
    txt = kwtext(txt)
    r = ctx.run_a60(txt)
    check_lines(r, lines, err, None, dict(program=txt))
    if err:
        keys.append(err)
    return dict(nontrivial=bool(keys), key=keys and keys[0], keys=keys, evals=len(keys),
                labels=['error'] if err else [], sample=txt)


CHECK = Check('P03', [
    Sub('ops', case_ops, 16000, 300000, 'distinct (operation, operands), errors included'),
    Sub('convert', case_convert, 8000, 150000, 'distinct (transfer, value)'),
    Sub('power', case_power, 6000, 100000, 'distinct (base, exponent)'),
    Sub('source', case_source, 5000, 80000, 'distinct (operation, operands) in source programs'),
])
