"""P22: the C compiler against the original Pascal compiler"""
from fractions import Fraction
from checks.common import *
from checks.layout import Pad
from vx import respell as R, build as B
from checks.p11 import Loops
from checks.p02 import Nest
from checks.p16 import number
from checks.p15 import program_tokens, object_of, PROFILES


def lines(toks):
    """the text in lines short enough for the Pascal compiler (255 bytes)"""
    out, cur = [], ''
    for k, w in toks:
        w = ''.join('_' + c for c in w) if k == 'word' else w if k != 'str' else '`' + w + "'"
        if len((cur + ' ' + w).encode()) > 120 or w == ';':
            out.append(cur + (w if w == ';' else ''))
            cur = '' if w == ';' else w
        else:
            cur += (' ' if cur else '') + w
    return '\n'.join(out + [cur]) + '\n'


def pascal(ctx, text):
    """the Pascal compiler, with a library tape holding the routine both know (it was made for other lengths of EVEN and SUM)"""
    lib = os.path.join(ctx.home, 'tape')
    if not os.path.exists(lib):
        d = os.path.join(B.REPO, 'library')
        with open(lib, 'w') as f:
            for n in ('printtext',):
                f.write(open(os.path.join(d, n + '.lib')).read())
            f.write('30 124 0 0 0 0 0\n')
    return ctx.exec([ctx.tools['x1algol'], lib], text)


def stopped(r):
    m = re.search(r'\*\*\* stop +(\d+)- *(\d+)', r.out.decode('utf8', 'replace'))
    return '%s-%s' % m.groups() if m else None


def words(r, art):
    """(names, the words of the program itself); calls of library routines, whose place may differ, are numbered"""
    names, rest = object_of(r)
    adr, w = [], []
    for l in rest:
        p = l.split()
        if len(p) == 3 and all(x.isdigit() for x in p):
            adr.append((int(p[0]) * 32 + int(p[1])) * 32 + int(p[2]))
        elif len(p) == 2 and all(x.isdigit() for x in p):
            w.append((int(p[0]), int(p[1])))
        else:
            raise Fail('unexpected line in an object program: %r' % l[:80], **art)
    if not adr:
        raise Fail('no start address in the object program', **art)
    start, low = adr[0], min(adr)
    calls = sorted({v - 88604672 for a, v in w if a >= start and low <= v - 88604672 < start})
    return names, ['%d %s' % (a, 'call of library routine %d' % calls.index(v - 88604672) if v - 88604672 in calls else v) for a, v in w if a >= start]


def compare(ctx, text, lab):
    a = ctx.compile(text)
    b = pascal(ctx, text)
    art = {'program.a60': text}
    if a.rc != 0:
        raise Fail('C rejects: %s' % a.out[-100:].decode('utf8', 'replace'), **art)
    st = stopped(b)
    if b.rc != 0 or st:
        raise Fail('Pascal rc %d stop %s' % (b.rc, st), **art)
    b.out = b.out.replace(b'load (next) library tape into the tape reader\n', b'')
    oa, ob = words(a, art), words(b, art)
    if oa[1] != ob[1]:
        raise Fail('object differs: %s' % diff_text('\n'.join(ob[1]), '\n'.join(oa[1])), **art)
    if oa[0] != ob[0]:
        raise Fail('names differ', **art)


class NoPassing(G.Gen):
    """programs that do not pass a formal parameter on as it is: there the two compilers differ on purpose (README)"""
    filtering = False

    def vis(self, sc, pred):
        r = super().vis(sc, pred)
        return [(n, i) for n, i in r if not i.get('formal')] if self.filtering else r

    def actual(self, sc, p, d, info=None):
        a = super().actual(sc, p, d, info)
        if a is not None and self.bare_formal(sc, a):
            self.filtering = True
            try:
                a = super().actual(sc, p, d, info)
            finally:
                self.filtering = False
        return a

    def bare_formal(self, sc, a):
        n = a[1]
        while isinstance(n, tuple) and n[0] == 'pos':       # no code is made for a plus sign
            n = n[1]
        if isinstance(n, tuple):
            n = n[1] if n[0] == 'var' else n[1] if n[0] == 'call' and not n[2] else None
        return a[0] != 't' and any(x == n for x, i in super().vis(sc, lambda i: i.get('formal')))


def decorate(s, toks, lab):
    """numbers of all forms, standard functions and library routines, other names.  The program need not make sense, only be well-formed."""
    dens = s.choice([0, 10, 40])
    names = R.rename(s, toks) if s.p(40) else None
    out, depth, head = [], 0, True
    for k, t in toks:
        if t in '[]' and k == 'op':
            depth += 1 if t == '[' else -1
        if k == 'id' and names and t in names:
            t = names[t]
        if k == 'num' and not depth and s.p(dens):
            c = s.draw(10)
            if c < 5:
                n, v = number(s, lab)
                if v == 0 and not n.isdigit() or v and not Fraction(1, 10 ** 600) < v < 10 ** 600 or len(n) > 100:
                    n = '0'                            # 0.0 is a number below the range for the Pascal compiler
                out += [('num', n.replace('@', '⏨'))]
                continue
            if c < 10:
                f = s.choice(['abs', 'sign', 'sqrt', 'sin', 'cos', 'ln', 'exp', 'entier'])
                lab.add('standard function')
                out += [('id', f), ('op', '('), (k, t), ('op', ')')]
                continue
        out.append((k, t))
    return out


VARS = R.tokens('_i_n_t_e_g_e_r zi; _r_e_a_l zx; _b_o_o_l_e_a_n zb; _i_n_t_e_g_e_r _a_r_r_a_y zq[1:4,-1:2]; _r_e_a_l _a_r_r_a_y zr[0:3];')
PROCS = R.tokens('_p_r_o_c_e_d_u_r_e zp(f,g,h,k); zi:=1; _r_e_a_l _p_r_o_c_e_d_u_r_e zf(f); _v_a_l_u_e f; _r_e_a_l f; zf:=f+1; _i_n_t_e_g_e_r _p_r_o_c_e_d_u_r_e zg; zg:=zi;')
STMTS = ['TAB', 'SPACE(3)', 'SPACE(zi+1)', 'zx:=read', 'zi:=zi÷2', 'zx:=zx↑zi', 'zi:=zi↑2', 'zb:=zx>zi≡zb⊃zb', 'zq[zi,1]:=zq[zq[1,0],zi]:=2', 'zi:=_i_f zb _t_h_e_n 1 _e_l_s_e 2',
         '_f_o_r zq[zi,0]:=1,2 _s_t_e_p zi _u_n_t_i_l 3,4 _w_h_i_l_e zb _d_o zx:=zx+1', 'zx:=sqrt(ln(exp(zr[zi]/2)))', '_i_f zb _t_h_e_n stop', 'zb:=_t_r_u_e∧¬zb∨zx≠zr[zi]',
         '_f_o_r zi:=1 _s_t_e_p 1 _u_n_t_i_l 4 _d_o zr[zi]:=-zi', '_g_o_t_o zl; zl: zx:=1', '_b_e_g_i_n _o_w_n _r_e_a_l zo; _i_n_t_e_g_e_r _a_r_r_a_y zz[zi:4]; zo:=zz[2] _e_n_d',
         '_b_e_g_i_n _s_w_i_t_c_h zs:=zm,zn,zm; _g_o_t_o zs[zi]; zm: zi:=2; zn: _e_n_d', 'zx:=entier(zx)×sign(zi)-abs(zx)', 'zx:=zi:=3']
ARGS = ['zi', 'zx', 'zb', 'zq', 'zr', 'zp', 'zf', 'zg', 'sin', 'cos', 'exp', 'ln', 'sqrt', 'abs', 'sign', 'entier', 'zi+1', '-zi', 'zf(zx)', 'zf(1)', 'zf(zg)', 'zq[zi,1]', 'zr[2]',
        '(zi)', '`s t r\'', '_t_r_u_e', '_f_a_l_s_e', '¬zb', '_i_f zb _t_h_e_n 1 _e_l_s_e zx', 'zi<zx', 'sin(zx)', 'abs(1)']


def insert(s, toks, lab):
    """more statements, with their declarations; they are the same at every place"""
    if s.p(30):
        return toks
    procs = [i for i, t in enumerate(toks) if t == ('word', 'procedure')]
    at = None
    if procs:
        at = procs[0] - (toks[procs[0] - 1][0] == 'word' and toks[procs[0] - 1][1] in ('integer', 'real', 'boolean'))
        if toks[at - 1][1] != ';':
            at = None
    out = [toks[0]] + VARS
    dens, once = s.choice([20, 60]), False
    for i, t in enumerate(toks[1:], 1):
        if i == at:
            out += PROCS
        if t == ('id', 'print') and toks[i - 1] == ('op', ';') and s.p(dens):
            if at is not None and s.p(60):
                lab.add('call with all kinds of parameters')
                st = 'zp(%s)' % ','.join(s.choice(ARGS) if s.p(80) else str(s.draw(4000)) for _ in range(4))
            else:
                st = s.choice(STMTS)
                if 'zl' in st:
                    if once:
                        st = 'TAB'
                    once = True
            out += R.tokens(st + ';')
        out.append(t)
    return out


def unpass(toks):
    """replaces a formal parameter that is passed on in a call by an expression"""
    formals, head, spec, out = set(), False, False, []
    for i, (k, t) in enumerate(toks):
        if (k, t) == ('word', 'procedure'):
            head = True
        elif k == 'word' and not head and t in ('value', 'integer', 'real', 'boolean', 'array', 'label', 'switch', 'string'):
            spec = True
        elif t == ';':
            head = spec = False
        elif head and k == 'id' and toks[i - 1][1] in '(,':
            formals.add(t)
        out.append((k, t))
        if not head and not spec and k == 'id' and t in formals and toks[i - 1][1] in ('(', ',') and toks[i + 1][1] in (')', ','):
            out += [('op', '+'), ('num', '1')]
    return out


def case(ctx, s):
    lab = set()
    k = s.draw(12)
    if k == 10:
        toks = unpass(R.tokens(A.Printer().program(Nest(s, s.rint(2, 20), True).program())))
        lab.add('nested procedures')
    elif k == 11:
        toks = unpass(R.tokens(A.Printer().program(Loops(s).build())))
        lab.add('loops')
    else:
        block = NoPassing(s, **s.choice(PROFILES)).program()
        if s.p(15):
            P = Pad(s, 1500, own=False)      # own arrays after local variables: reserved twice by the Pascal compiler
            block = P.program(block)
            lab.update('pad: ' + x for x in P.lab)
        toks = R.tokens(A.Printer().program(block))
    for i in range(2, len(toks)):
        if toks[i - 2] == ('id', 'PRINTTEXT') and toks[i][0] == 'id':
            toks[i] = ('str', toks[i][1])
    n = len(toks)
    toks = decorate(s, insert(s, toks, lab), lab) if s.p(85) else toks
    text = lines(toks)
    if len(toks) > 3500 or len(text) > 12000 and any(x.startswith('pad') for x in lab):
        raise Discard('too big: the C compiler keeps more routines in its store')
    compare(ctx, text, lab)
    for k, w in toks:
        if k == 'word' and w in ('switch', 'own', 'for', 'goto', 'procedure', 'array', 'value'):
            lab.add(w)
    return dict(nontrivial=n > 60, key=text, labels=sorted(lab), sample=dict(text=text[:600]))


W = ('x1algc', 'x1algol')
CHECK = Check('P22', [
    Sub('programs', case, 8000, 150000, 'different programs of more than 60 symbols', what=W),
])
