"""P06: the value of an operation does not depend on where its operands and its result live"""
from checks.numgen import *

NAMET = {'i': 'integer', 'r': 'real', 'b': 'boolean'}


def exact_text(v):
    f = abs(X.frac(v))
    if f == 0:
        return '0'
    if f.denominator == 1:
        t = str(f.numerator)
        return t + '.0'
    e = f.denominator.bit_length() - 1
    n = f.numerator * 5 ** e
    t = str(n).rjust(e + 1, '0')
    return t[:-e] + '.' + t[-e:]


def lit(v):
    """a literal, without and with sign: (text, needs parentheses)"""
    if v[0] == 'b':
        return ('_t_r_u_e' if v[1] == 0 else '_f_a_l_s_e'), False
    if v[0] == 'i':
        n = X.word_to_int(v[1])
        return (str(n), False) if n >= 0 and v != X.INEGZERO else ('-%d' % -n, True)
    return (('-' if X.is_neg(v) else '') + exact_text(v)), X.is_neg(v)


def par(t):
    return '(' + t[0] + ')' if t[1] else t[0]


def val(s, t):
    if t == 'b':
        return ('b', s.draw(2))
    if t == 'i':
        if s.p(50):
            return X.iv(s.rint(-9, 30))
        return X.iv(g_int(s))
    b = s.rint(1, 40)
    m = (1 << (b - 1)) | s.draw(1 << (b - 1))
    m = (m << (40 - b))
    return mk(1 if s.p(40) else 0, m, s.rint(-6, 30))


OPS = ['+', '-', '×', '/', '÷', '↑', '<', '≤', '=', '≥', '>', '≠', '∧', '∨', '⊃', '≡', 'neg', 'abs', 'sign', 'entier', 'id', '¬']


def ev(op, a, b):
    """result value (kind, bits); Booleans are kind 'b'"""
    if op == 'id':
        return a
    if op == '¬':
        return ('b', 1 - a[1])
    if op == 'neg':
        return X.neg(a)
    if op in ('abs', 'sign', 'entier'):
        return A.std(op, a)
    if op in '∧∨⊃≡':
        r = A.binop(op, ('i', a[1]), ('i', b[1]))
        return ('b', r[1])
    r = A.binop(op, a, b)
    if op in '<≤=≥>≠':
        return ('b', r[1])
    return r


UN = ('neg', 'abs', 'sign', 'entier', 'id', '¬')


def text_of(op, x, y):
    if op == 'id':
        return x
    if op == '¬':
        return '¬ ' + x
    if op == 'neg':
        return '-' + x
    if op in ('abs', 'sign', 'entier'):
        return '%s(%s)' % (op, x)
    return '%s %s %s' % (x, op, y)


def case(ctx, s):
    for _ in range(30):
        op = s.choice(OPS)
        if op in ('∧', '∨', '⊃', '≡', '¬'):
            ta = tb = 'b'
        elif op == '÷':
            ta = tb = 'i'
        elif op == '↑':
            ta, tb = s.choice('ir'), 'i'
        elif op == 'id':
            ta, tb = s.choice('irb'), 'i'
        else:
            ta, tb = s.choice('ir'), s.choice('ir')
        a = val(s, ta)
        b = val(s, tb) if op != '↑' else X.iv(s.rint(1, 6) if s.p(70) else s.rint(-3, 0))
        if op == '↑' and X.word_to_int(b[1]) <= 0 and X.frac(a) == 0:
            continue
        try:
            r = ev(op, a, b)
        except (X.AlgolError, A.Ambiguous):
            continue
        break
    else:
        raise Discard('no defined operation')
    if op not in UN and op not in '∧∨⊃≡÷<≤=≥>≠↑' and r[0] == 'r':
        k, alts = model(op, a, b)
        if len(alts) > 1:
            raise Discard('near tie')
    tr = r[0]
    td = tr                      # type of the destination
    if tr in 'ir' and s.p(35):
        td = 'r' if tr == 'i' else 'i'
    try:
        d = A.conv(td, r) if td in 'ir' else r
    except X.AlgolError:
        td, d = tr, r
    Ta, Tb, Td = NAMET[ta], NAMET[tb], NAMET[td]
    la, lb = lit(a), lit(b)
    zero = {'i': '0', 'r': '.5', 'b': '_t_r_u_e'}
    lo = s.choice([0, 1, -3, 5])
    n = s.rint(2, 4)
    ka, kb, kd = (s.rint(lo, lo + n - 1) for _ in range(3))
    two = s.p(40)

    def sub(k, i='g'):
        e = s.choice([str(k), 'k%s' % i, '%d + k%s' % (k - lo, i) if False else str(k)])
        return e

    def el(name, k):
        ix = str(k) if s.p(50) else 'z + %s' % (str(k) if k >= 0 else '(%d)' % k)
        if ix.startswith('z + (-'):
            ix = 'z - %d' % -k
        return '%s[%s%s]' % (name, ix, ', 1' if two else '')
    bounds = '[%d:%d%s]' % (lo, lo + n - 1, ', 0:2' if two else '')

    npr = [0]
    exp = []

    def forms(which, env):
        """texts denoting operand `which` in environment env (a set of available places)"""
        v, l, k = (a, la, ka) if which == 'a' else (b, lb, kb)
        fs = [par(l), 'g' + which, el('h' + which, k), 'f' + which, '(' + l[0] + ')', '(_i_f z = 0 _t_h_e_n g%s _e_l_s_e %s)' % (which, par(l)),
              'q%s(z)' % which, 'q%s(g%s)' % (which, which) if v[0] == 'i' else 'q%s(z)' % which, '(g%s)' % which]
        for p in env:
            if p == 'el':
                fs.append(el('l' + which + 'r', k))
            elif p == 'vr':
                fs.append(el('w' + which, k))
            elif p == 'er':
                fs.append(el('x' + which, k))
            elif p == 'pf':
                fs.append('m' + which)
            else:
                fs.append(p + which)
        return fs

    def dests(env):
        ds = ['gd', el('hd', kd)]
        for p in env:
            if p == 'el':
                ds.append(el('ldr', kd))
            elif p in ('er',):
                ds.append(el('xd', kd))
            elif p in ('l', 'o', 'u', 'n', 's', 'v', 't'):
                ds.append(p + 'd')
        return ds

    def tests(env, cnt):
        out = []
        for _ in range(cnt):
            x = s.choice(forms('a', env))
            y = s.choice(forms('b', env))
            e = text_of(op, x, y)
            k = s.draw(4)
            if k == 0:
                out.append('print(%s); NLCR' % e)
                exp.append((r, e))
            elif k == 1 and tr != 'b':
                # as part of a larger expression: both accumulator and pending operand
                out.append('print(%s); NLCR' % ('(%s)' % e))
                exp.append((r, e))
            elif k == 2:
                ds = [s.choice(dests(env)) for _ in range(2)]
                out.append('%s := %s := %s; print(%s, %s); NLCR' % (ds[0], ds[1], e, ds[0], ds[1]))
                exp.append(((d, d), '%s := %s := %s' % (ds[0], ds[1], e)))
            else:
                dd = s.choice(dests(env))
                out.append('%s := %s; print(%s); NLCR' % (dd, e, dd))
                exp.append((d, '%s := %s' % (dd, e)))
        return ';\n'.join(out)

    # order of execution = order of generation below
    nt = s.rint(2, 6)
    t_main = tests([], nt)
    t_block = tests(['u'], s.rint(1, 5))
    innerplaces = ['l', 'o', 'v', 'n', 'el', 'vr', 'er', 'pf', 'e', 'u'][: ]
    nest_in_block = s.p(50)
    ip = [p for p in ('l', 'o', 'v', 'n', 'el', 'vr', 'er', 'pf', 'e') if True]
    if not nest_in_block:
        pass
    t_inner = tests(ip, s.rint(3, 10))
    dp = ip + ['s', 't']
    t_deep = tests(dp, s.rint(3, 10))
    T = {'a': Ta, 'b': Tb, 'd': Td}
    prog = ['begin integer z; %s ga; %s gb; %s gd; %s array ha%s; %s array hb%s; %s array hd%s;' % (Ta, Tb, Td, Ta, bounds, Tb, bounds, Td, bounds)]
    prog.append('%s procedure fa; fa := %s;' % (Ta, la[0]))
    prog.append('%s procedure fb; begin %s y; y := %s; fb := y end;' % (Tb, Tb, lb[0]))
    prog.append('%s procedure qa(p); integer p; begin %s y; y := ga; qa := if p = 0 then y else ga end;' % (Ta, Ta))
    prog.append('%s procedure qb(p); value p; integer p; qb := if p = 0 then gb else gb;' % Tb)
    prog.append('''procedure inner(va, na, ea, wa, xa, ma, vb, nb, eb, wb, xb, mb, nd, vd, xd); value va, vb, wa, wb, vd;
%(a)s va; %(a)s na; %(a)s ea; %(a)s array wa; %(a)s array xa; %(a)s procedure ma; %(b)s vb; %(b)s nb; %(b)s eb; %(b)s array wb;
%(b)s array xb; %(b)s procedure mb; %(d)s nd; %(d)s vd; %(d)s array xd;
begin %(a)s la; %(b)s lb; %(d)s ld; own %(a)s oa; own %(b)s ob; own %(d)s od; %(a)s array lar%(B)s; %(b)s array lbr%(B)s; %(d)s array ldr%(B)s;
procedure deep(sa, ta, sb, tb, sd, td); value ta, tb, td; %(a)s sa; %(a)s ta; %(b)s sb; %(b)s tb; %(d)s sd; %(d)s td;
begin integer dummy; dummy := 0;
%(T)s
end;
la := va; lb := vb; oa := na; ob := nb; %(LA)s := ea; %(LB)s := eb;
''' % dict(a=Ta, b=Tb, d=Td, B=bounds, T=t_deep, LA='lar[%d%s]' % (ka, ', 1' if two else ''), LB='lbr[%d%s]' % (kb, ', 1' if two else '')))

    def act(which, place):
        v, l, k = (a, la, ka) if which == 'a' else (b, lb, kb)
        # actual parameters for expression positions
        return s.choice([l[0], 'g' + which, el('h' + which, k), 'f' + which, '(g%s)' % which, 'q%s(z)' % which])
    prog.append(t_inner + ';')
    prog.append('deep(%s, %s, %s, %s, %s, %s)' % (
        s.choice(['na', 'la', 'oa', el('lar', ka), 'va', 'ma', 'ea', el('xa', ka)]), s.choice(['na', 'la', el('xa', ka), 'ea', 'ma', 'va']),
        s.choice(['nb', 'lb', 'ob', el('lbr', kb), 'vb', 'mb', 'eb', el('xb', kb)]), s.choice(['nb', 'lb', el('xb', kb), 'eb', 'mb', 'vb']),
        s.choice(['nd', 'ld', 'od', el('ldr', kd), el('xd', kd), 'vd']), zero[td]))
    prog.append('end;')
    prog.append('z := 0; ga := %s; gb := %s; ha[%d%s] := %s; hb[%d%s] := %s;' % (la[0], lb[0], ka, ', 1' if two else '', la[0], kb, ', 1' if two else '', lb[0]))
    # whole arrays passed by value must be initialised
    fill = 'for z := %d step 1 until %d do begin ' % (lo, lo + n - 1)
    for w, l in (('a', la), ('b', lb)):
        for j in ((0, 1, 2) if two else (None,)):
            fill += 'h%s[z%s] := %s; ' % (w, '' if j is None else ', %d' % j, l[0])
    prog.append(fill + 'z := z end; z := 0;')
    prog.append(t_main + ';')
    prog.append('begin %s ua; %s ub; %s ud; ua := %s; ub := %s;' % (Ta, Tb, Td, la[0], lb[0]))
    prog.append(t_block + ';')
    na = s.choice(['ga', 'ua', el('ha', ka), la[0], 'fa', 'qa(z)'])
    nb = s.choice(['gb', 'ub', el('hb', kb), lb[0], 'fb', 'qb(z)'])
    nd = s.choice(['gd', 'ud', el('hd', kd)])
    prog.append('inner(%s, %s, %s, ha, ha, fa, %s, %s, %s, hb, hb, fb, %s, %s, hd)' % (
        act('a', 'v'), na, act('a', 'e'), act('b', 'v'), nb, act('b', 'e'), nd, zero[td]))
    prog.append('end end')
    txt = kwtext('\n'.join(prog) + '\n')
    lines = []
    # order of output: main, block, inner, deep
    for v, e in exp:
        vs = v if isinstance(v[0], tuple) else (v,)
        lines.append((1, [(' '.join(str(x[1]) if x[0] == 'b' else X.fmt(x) for x in vs),)], (op, a, b, e)))
    res = ctx.run_a60(txt)
    check_lines(res, lines, None, None, dict(program=txt))
    return dict(nontrivial=True, key=(op, a, b), keys=[(op, a, b, e) for v, e in exp], evals=len(exp),
                labels=['%s %s%s->%s' % (op, ta, '' if op in UN else tb, td)], sample=txt)


CHECK = Check('P06', [
    Sub('places', case, 25000, 400000, 'distinct (operation, values, operand places, result place)'),
])
