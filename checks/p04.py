"""P04: real arithmetic"""
from checks.numgen import *


def opers(s, op):
    k = s.draw(4)
    if k == 0:
        a = iv(s)
    else:
        a = rv(s, s.p(70))
    if s.p(65):
        b = related(s, a)
    elif s.p(70):
        b = rv(s, s.p(50))
    else:
        b = iv(s)
    if s.p(30):
        a, b = b, a
    return a, b


def inexact(op, a, b):
    if a[0] == 'i' and b[0] == 'i' and op in '+-':
        return False
    try:
        fa, fb = X.frac(a), X.frac(b)
        ex = {'+': fa + fb, '-': fa - fb, '×': fa * fb, '/': fa / fb if fb else None}[op]
    except ZeroDivisionError:
        return True
    return ex is None or ex != 0


case_ops = object_ops_case(['+', '-', '×', '/'], opers, rule=inexact)


def case_transfer(ctx, s):
    """integer -> real on assignment, negation, abs, assignment of reals: exact"""
    o = O.Obj()
    lines = []
    keys = []
    for _ in range(s.rint(1, 20)):
        k = s.choice(['assign', 'neg', 'abs', 'assignr'])
        v = iv(s) if k == 'assign' or s.p(30) else rv(s)
        if k.startswith('assign'):
            o.vaddr(200).op('TRAS').take(v).op('ST')
            o.vaddr(200).op('TRRS')
            w = X.to_real(v)
        elif k == 'neg':
            o.take(v).op('NEG')
            w = X.neg(v)
        else:
            o.take(v).op('abs')
            w = X.absr(v)
        o.op('print', 'NLCR')
        if k.startswith('assign'):
            o.vaddr(200).op('TRRS')
        elif k == 'neg':
            o.take(v).op('NEG')
        else:
            o.take(v).op('abs')
        o.take(w).op('SUB', 'print', 'NLCR')
        lines.append((2, [(X.fmt(w), '0')], (k, v)))
        keys.append((k, v))
    o.op('STOP')
    check_lines(ctx.run_x1(o.text()), lines, None, o)
    return dict(nontrivial=True, key=keys[0], keys=keys, evals=len(keys), labels=sorted({k[0] + ' ' + k[1][0] for k in keys}),
                sample=[[k, desc(v)] for k, v in keys[:4]])


def case_chain(ctx, s):
    """long sums and products in one expression: every intermediate result is rounded, none is kept wider"""
    o = O.Obj()
    lines = []
    keys = []
    for _ in range(s.rint(1, 4)):
        v = rv(s, False)
        o.take(v)
        seq = [v]
        acc = v
        for _ in range(s.rint(2, 10)):
            op = s.choice(['+', '-', '×', '/'])
            b = rv(s, False) if s.p(70) else iv(s)
            k, r = model(op, acc, b)
            if k == 'err' or len(r) > 1:
                continue
            if s.p(50):
                o.baddr(b).op(STAT[op, b[0]])
            else:
                o.take(b).op(O.BINOP[op])
            acc = r[0]
            seq += [op, b]
        # print the difference to the model
        o.take(acc).op('SUB', 'print', 'NLCR')
        d = X.add(acc, acc, True)
        lines.append((1, [(X.fmt(d),)], tuple(seq)))
        keys.append(tuple(seq))
    o.op('STOP')
    check_lines(ctx.run_x1(o.text()), lines, None, o)
    return dict(nontrivial=any(len(k) > 4 for k in keys), key=keys[0], keys=[k for k in keys if len(k) > 4], evals=len(keys),
                sample=[describe(k) for k in keys[:2]])


CHECK = Check('P04', [
    Sub('ops', case_ops, 30000, 600000, 'operand pairs with a non-zero real result (inexact, exact, underflowing) or a prescribed error'),
    Sub('transfer', case_transfer, 6000, 100000, 'distinct (operation, value) pairs'),
    Sub('chain', case_chain, 8000, 150000, 'chains of at least two operations'),
], assumptions=['the host long double has a 64-bit significand, so the result may differ from single rounding by 2^-24 units of the last place around ties; there both neighbours are accepted'])
