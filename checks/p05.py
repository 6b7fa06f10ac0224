"""P05: relations and Boolean operators"""
from checks.numgen import *
from itertools import product

RELS = ['<', '≤', '=', '≥', '>', '≠']


def pair(s):
    k = s.draw(10)
    if k < 3:
        a = rv(s, s.p(60))
    else:
        a = iv(s)
    j = s.draw(6)
    if j == 0:
        b = a
    elif j == 1:
        b = X.to_real(a) if a[0] == 'i' else related(s, a)
    elif j in (2, 3):
        b = related(s, a)
    elif j == 4:
        b = X.neg(a)
    else:
        b = iv(s) if s.p(50) else rv(s, s.p(50))
    if s.p(6):
        a = s.choice([X.iv(0), X.INEGZERO, X.RZERO, X.RNEGZERO])
    if s.p(6):
        b = s.choice([X.iv(0), X.INEGZERO, X.RZERO, X.RNEGZERO])
    if s.p(50):
        a, b = b, a
    return a, b


def truth(op, a, b):
    c = X.cmp(a, b)
    return {'<': c < 0, '≤': c <= 0, '=': c == 0, '≥': c >= 0, '>': c > 0, '≠': c != 0}[op]


def case_rel(ctx, s):
    o = O.Obj()
    lines, keys, labels = [], [], set()
    for _ in range(s.rint(1, 14)):
        a, b = pair(s)
        for op in RELS:
            o.take(a).take(b).op(O.BINOP[op], 'print', 'NLCR')
            lines.append((1, [('0' if truth(op, a, b) else '1',)], (op, a, b)))
        c = X.cmp(a, b)
        labels.add('%s%s %s' % (a[0], b[0], {-1: '<', 0: '=', 1: '>'}[c]))
        if a[0] == b[0] == 'r' and c and abs(X.frac(a) - X.frac(b)) * (1 << 38) < abs(X.frac(a)):
            labels.add('close reals')
        keys.append((a, b))
    o.op('STOP')
    check_lines(ctx.run_x1(o.text()), lines, None, o)
    return dict(nontrivial=True, key=keys[0], keys=keys, evals=6 * len(keys), labels=sorted(labels),
                sample=[[desc(a), desc(b)] for a, b in keys[:4]])


def gen_bool(s, d, atoms):
    k = s.draw(10) if d > 0 else 0
    if k <= 1:
        return ('var', s.choice(atoms))
    if k == 2:
        return ('not', gen_bool(s, d - 1, atoms))
    if k == 3 and s.p(60):
        return ('if', gen_bool(s, d - 1, atoms), gen_bool(s, d - 1, atoms), gen_bool(s, d - 1, atoms))
    if k == 4:
        return ('bin', s.choice(RELS), s.choice([('var', 'i'), ('var', 'j'), ('num', '1', X.iv(1)),
                                                 ('bin', '+', ('var', 'i'), ('var', 'j')), ('neg', ('var', 'i'))]),
                s.choice([('var', 'j'), ('var', 'i'), ('num', '0', X.iv(0)), ('bin', '-', ('var', 'i'), ('var', 'j'))]))
    return ('bin', s.choice(['∧', '∨', '⊃', '≡', '∧', '∨']), gen_bool(s, d - 1, atoms), gen_bool(s, d - 1, atoms))


def size(e):
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, tuple))


def case_bool(ctx, s):
    """the value of Boolean expressions for every assignment of their variables: as value, in if-statements, if-expressions and while"""
    atoms = ['p', 'q', 'r', 't']
    P = A.Printer()
    n = s.rint(1, 5)
    exprs = [gen_bool(s, s.rint(1, 4), atoms) for _ in range(n)]
    forms = [s.draw(5) for _ in range(n)]
    ijs = (s.rint(-1, 1), s.rint(-1, 1))
    kw = kwtext
    txt = kw('begin integer i, j, k; boolean p, q, r, t, u; i := %s; j := %s;\n' % (lit_int(ijs[0]).strip('()'), lit_int(ijs[1]).strip('()')))
    # nested loops by a counter, decoding its bits
    txt += kw('for k := 0 step 1 until 15 do begin p := k ÷ 8 = 0; q := (k - k ÷ 8 × 8) ÷ 4 = 0; r := (k - k ÷ 4 × 4) ÷ 2 = 0; t := k - k ÷ 2 × 2 = 0;\n')
    for e, f in zip(exprs, forms):
        x = P.e(e)
        if f == 0:
            txt += 'print(%s)' % x
        elif f == 1:
            txt += 'u := %s; print(u)' % x
        elif f == 2:
            txt += kw('if ') + x + kw(' then') + ' print(0) ' + kw('else') + ' print(1)'
        elif f == 3:
            txt += 'print(' + kw('if ') + x + kw(' then') + ' 0 ' + kw('else') + ' 1)'
        else:
            txt += 'print(¬ ¬ (%s))' % x
        txt += '; '
    txt += kw('NLCR end end') + '\n'
    out = []
    it = A.Interp()
    for k in range(16):
        env = A.Env(None)
        for v, n_ in zip(atoms, (k // 8, k % 8 // 4, k % 4 // 2, k % 2)):
            c = A.Cell('b')
            c.v = A.TRUE if n_ == 0 else A.FALSE
            env.b[v] = c
        for v, n_ in zip('ij', ijs):
            c = A.Cell('i')
            c.v = X.iv(n_)
            env.b[v] = c
        out.append(''.join('0' if it.ev(e, env)[1] == 0 else '1' for e in exprs))
    r = ctx.run_a60(txt)
    check_lines(r, [(1, [(l,)], (P.e(exprs[0]), 'all values, row %d' % k)) for k, l in enumerate(out)], None, None, dict(program=txt))
    nt = any(size(e) > 3 for e in exprs)
    return dict(nontrivial=nt, key=txt, evals=16 * n, labels=['depth %d' % min(12, max(size(e) for e in exprs) // 3)], sample=txt)


def exact_text(v):
    """decimal text of a moderately sized real, exact"""
    f = abs(X.frac(v))
    if f.denominator == 1:
        return '%d.0' % f.numerator if f else '0'
    e = f.denominator.bit_length() - 1
    n = f.numerator * 5 ** e
    t = str(n).rjust(e + 1, '0')
    return t[:-e] + '.' + t[-e:]


def case_source(ctx, s):
    """relations in compiled conditions, with operands of declared variables and literals"""
    txt = 'begin integer i, j; real x, y; boolean b;\n'
    lines, keys = [], []
    for _ in range(s.rint(1, 8)):
        ta, tb = s.choice('ir'), s.choice('ir')

        def small(t):
            if t == 'i':
                return iv(s)
            return X.real_of_frac(Fraction(s.rint(1, 4000) * s.choice([1, -1]), 1 << s.draw(6)))
        a = small(ta)
        b = small(tb)
        if s.p(40):
            b = a if tb == ta else (X.to_real(a) if tb == 'r' else b)
        op = s.choice(RELS)
        va, vb = 'i' if ta == 'i' else 'x', 'j' if tb == 'i' else 'y'

        def t(v):
            r = X.fmt_int(v[1]).lstrip('-') if v[0] == 'i' else exact_text(v)
            return '-' + r if X.is_neg(v) or v == X.INEGZERO else r
        form = s.draw(4)
        txt += '%s := %s; %s := %s; ' % (va, t(a), vb, t(b))
        rel = '%s %s %s' % (va, op, vb)
        if form == 0:
            txt += 'print(%s)' % rel
        elif form == 1:
            txt += 'if %s then print(0) else print(1)' % rel
        elif form == 2:
            txt += 'b := %s; print(b)' % rel
        else:
            txt += 'print(if %s then 0 else 1)' % ('%s %s %s' % (va, op, ('(%s)' if t(b)[0] == '-' else '%s') % t(b)))
        txt += '; NLCR;\n'
        lines.append((1, [('0' if truth(op, a, b) else '1',)], (op, a, b)))
        keys.append((op, a, b))
    txt = kwtext(txt + ' end\n')
    check_lines(ctx.run_a60(txt), lines, None, None, dict(program=txt))
    return dict(nontrivial=True, key=keys[0], keys=keys, evals=len(keys), labels=sorted({k[0] + k[1][0] + k[2][0] for k in keys}), sample=txt)


CHECK = Check('P05', [
    Sub('relations', case_rel, 14000, 250000, 'distinct operand pairs (all six relations evaluated on each)'),
    Sub('boolean', case_bool, 4000, 80000, 'sets of Boolean expressions with more than one operator, evaluated for all 16 assignments'),
    Sub('source', case_source, 6000, 80000, 'distinct (relation, operands) in compiled conditions'),
])
