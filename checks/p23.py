"""P23: the stack: how deep a program may go, and that nothing stays behind on it"""
import hashlib
from checks.common import *
from checks.p10 import Machine
from checks.p11 import Loops
from checks.p15 import PROFILES

CAP = {}          # free cells at the place of the probe, per skeleton

PROFS = [dict(p, own=0) for p in PROFILES] + [
    dict(procs=(1, 3), formals=(1, 4), w_call=25, recursion=25, jensen=20, arrays=(0, 2), own=0),
    dict(procs=(1, 2), formals=(0, 3), w_call=20, labels=75, switches=55, w_goto=16, w_back=30, arrays=(0, 1), own=0)]


def skeleton(mode, body, n, k):
    """the program text `body` (a block) n times in the frame of a loop, then an array of k cells in the same frame"""
    probe = '%s_i_n_t_e_g_e_r _a_r_r_a_y zz[1:%d]; zz[%d]:=zi; NLCR; print(`probe\') ' % ('_b_e_g_i_n ', k, k)
    probe = "_b_e_g_i_n _i_n_t_e_g_e_r _a_r_r_a_y zz[1:%d]; zz[%d]:=4321; NLCR; print(zz[%d]) _e_n_d" % (k, k, k)
    loop = {'for': '_f_o_r zi:=1 _s_t_e_p 1 _u_n_t_i_l %d _d_o %s', 'while': 'zi:=0; _f_o_r zi:=zi+1 _w_h_i_l_e zi<=%d _d_o %s'.replace('<=', '≤'),
            'goto': 'zi:=0; zback: zi:=zi+1; _i_f zi<=%d _t_h_e_n _b_e_g_i_n %s; _g_o_t_o zback _e_n_d'.replace('<=', '≤')}[mode[0]] % (n, body)
    if mode[1] == 'main':
        return '_b_e_g_i_n _i_n_t_e_g_e_r zi;\n%s;\n%s\n_e_n_d\n' % (loop, probe)
    if mode[1] == 'block':
        return '_b_e_g_i_n _i_n_t_e_g_e_r zi; zi:=3; _b_e_g_i_n _r_e_a_l _a_r_r_a_y zw[1:zi];\n%s;\n%s\n_e_n_d _e_n_d\n' % (loop, probe)
    if mode[1] == 'procedure':
        return ('_b_e_g_i_n _i_n_t_e_g_e_r zi; _p_r_o_c_e_d_u_r_e zproc(zv, zn); _v_a_l_u_e zv; _i_n_t_e_g_e_r zv, zn; _b_e_g_i_n _i_n_t_e_g_e_r zl;\n%s;\n%s\n_e_n_d;\n'
                'zproc(1, zi) _e_n_d\n' % (loop, probe))
    return ('_b_e_g_i_n _i_n_t_e_g_e_r zi; _i_n_t_e_g_e_r _p_r_o_c_e_d_u_r_e zfun(zv); _v_a_l_u_e zv; _i_n_t_e_g_e_r zv; _b_e_g_i_n zfun:=zv;\n%s;\n%s\n_e_n_d;\n'
            'zi:=zfun(1)+1 _e_n_d\n' % (loop, probe))


MODES = [('for', 'main'), ('while', 'procedure'), ('goto', 'function'), ('goto', 'block'), ('for', 'procedure'), ('while', 'main')]
EMPTY = '_b_e_g_i_n _e_n_d'


def fits(ctx, mode, k):
    t = skeleton(mode, EMPTY, 1, k)
    r = ctx.run_a60(t)
    c = crash_text(r)
    if c or r.timeout:
        raise Fail('program with an array of %d elements: %s' % (k, c or 'does not stop'), program=t)
    if r.rc == 0 and r.out != b'\n4321' or r.rc != 0 and (r.out.strip() or not r.err):
        raise Fail('program with an array of %d elements: neither runs nor stops with a report' % k, program=t, observed=r.brief())
    return r.rc == 0


def search(ctx, mode):
    """the largest array for which there is room at the probe"""
    lo = hi = 1 << 20
    step = 32
    while lo > 0 and not fits(ctx, mode, lo):
        hi = lo
        lo -= step
        step *= 4
    if lo <= 0:
        raise Fail('no room for an array at all', program=skeleton(mode, EMPTY, 1, 1))
    if lo == hi:
        while fits(ctx, mode, hi):
            lo, hi = hi, hi * 2
            if hi > 1 << 25:
                raise Fail('an array of 2^25 elements is accepted: the size of the stack is not limited', program=skeleton(mode, EMPTY, 1, hi))
    while hi - lo > 1:
        m = (lo + hi) // 2
        if fits(ctx, mode, m):
            lo = m
        else:
            hi = m
    return lo


def capacity(ctx, mode):
    """search() with its results kept beside the simulator, for the exact programs they were found with"""
    if mode not in CAP:
        key = '%s %s %s' % (os.path.basename(os.path.dirname(ctx.tools['x1algc'])), mode, hashlib.sha256(skeleton(mode, EMPTY, 1, 1).encode()).hexdigest()[:12])
        f = os.path.join(os.path.dirname(ctx.tools['x1sim']), 'capacity ' + hashlib.sha256(key.encode()).hexdigest()[:16])
        try:
            CAP[mode] = int(open(f).read())
        except (OSError, ValueError):
            CAP[mode] = search(ctx, mode)
            tmp = '%s.%d' % (f, os.getpid())
            with open(tmp, 'w') as o:
                o.write(str(CAP[mode]))
            os.rename(tmp, f)
    return CAP[mode]


def body_of(s, lab):
    k = s.draw(10)
    if k < 4:
        lab.add('state machine of jumps')
        M = Machine(s)
        b = M.build()
        lab |= M.lab
        return b, 4
    if k == 4:
        lab.add('loops')
        b = Loops(s).build()
        decls, init = [], []
        for x in b[1]:
            if x[0] == 'vars' and x[2]:                   # own variables would keep their values from pass to pass
                init += [('asg', [('var', n)], G.intx(0)) for n in x[3]]
                x = ('vars', x[1], False, x[3])
            decls.append(x)
        return ('block', decls, init + list(b[2])), 6
    lab.add('generated program')
    return G.Gen(s, **s.choice(PROFS)).program(), 8


def case_left(ctx, s):
    """nothing stays on the stack, whatever the body of a loop does"""
    lab = set()
    mode = s.choice(MODES)
    block, n = body_of(s, lab)
    text = A.Printer().program(block).rstrip()
    if 'own' in text.replace('_', ''):
        raise Discard('own variables')
    it = A.Interp(max_steps=6000, max_depth=80)
    try:
        out, err = it.run(block)
    except A.Ambiguous as e:
        raise Discard('ambiguous')
    except A.TooLong:
        raise Discard('too long')
    if err:
        raise Discard('stops with an error')
    k = capacity(ctx, mode)
    n = s.rint(1, n)
    full = s.p(12)
    t = skeleton(mode, text, n, k + full)
    r = ctx.run_a60(t)
    d = dict(program=t, body=text, expected_of_one_pass=out, observed=r.brief(), cells=k)
    c = crash_text(r)
    if c or r.timeout:
        raise Fail('program crashed: %s' % (c or 'does not stop'), **d)
    got = norm(r.out.decode('utf8', 'replace'))
    want = norm(out) * n
    if full:
        lab.add('one element too many')
        if r.rc == 0 or not r.err:
            raise Fail('an array of %d elements has room after the loop but not without it' % (k + 1), **d)
        if got.rstrip('\n') != want.rstrip('\n'):
            raise Fail('prints something else before the stack overflows: ' + diff_text(want, got), **d)
    else:
        if r.rc != 0:
            if got.rstrip('\n') == want.rstrip('\n'):
                raise Fail('after %d passes there is no room any more for an array of %d elements: something was left on the stack' % (n, k), **d)
            raise Fail('stops in pass %d of the loop: %s' % (got.count('\n') // max(1, out.count('\n')) + 1, r.err[:100].decode('utf8', 'replace')), **d)
        if got != want + '\n4321':
            raise Fail('prints something else when repeated: ' + diff_text(want + '\n4321', got), **d)
    lab.add('%s in %s' % mode)
    c = it.count
    return dict(nontrivial=c.get('goto', 0) + c.get('call', 0) + c.get('for', 0) > 0 or len(out) > 20, key=t, labels=sorted(lab), sample=dict(body=text[:1500], passes=n, cells=k))


# ------------------------------------------------------------------ depth
WORDS = set('begin end if then else for do step until while goto integer real boolean array procedure value switch label own string true false'.split())


def kw(t):
    """templates are written with the words in capitals"""
    return re.sub(r'[A-Z]{2,}', lambda m: ''.join('_' + c for c in m.group().lower()) if m.group().lower() in WORDS else m.group(), t)


def progress(n, m):
    return ''.join('%d\n' % x for x in range(n, -1, -1) if x % m == 0)


SHOW = 'IF n-n÷m×m=0 THEN BEGIN print(n); NLCR END; '


# a real element takes two cells.  Every template gives (declarations, statements, output, cells of all arrays at the bottom) for depth n, arrays of about a elements
def t_linear(s, n, a, m):
    k, c = s.rint(-9, 9), s.rint(-50, 50)
    ty = s.choice(['INTEGER', 'REAL', 'INTEGER'])
    two = a >= 4 and s.p(50)
    h = (a + 1) // 2
    e = s.choice(['f(n-1)+k', 'k+f(n-1)', '(n-n)+(k+(f(n-1)+(n-n)))', 'IF n>0 THEN f(n-1)+k ELSE 0', 'abs(f(n-1)+10000000)-10000000+k'])
    first, last = ('0,1', '1,%d' % h) if two else ('1', '%d' % a)
    return ('INTEGER PROCEDURE f(n); VALUE n; INTEGER n; BEGIN INTEGER q; %s ARRAY a[%s]; q:=3×n+1; a[%s]:=q; a[%s]:=n; ' %
            (ty, '0:1,1:%d' % h if two else '1:%d' % a, first, last) + SHOW +
            'IF n=0 THEN f:=c ELSE f:=%s; IF a[%s]≠n∨q≠3×n+1 THEN print(n,a[%s],q) END' % (e, last, last),
            'k:=%d; c:=%d; x:=f(n); print(x); NLCR' % (k, c), progress(n, m) + '%d\n' % (c + k * n), (2 if ty == 'REAL' else 1) * a * (n + 1))


def t_byname(s, n, a, m):
    """a name parameter handed down all the way, changed and read at every level"""
    if s.p(60):
        return ('PROCEDURE p(n,y); VALUE n; INTEGER n,y; BEGIN INTEGER ARRAY a[1:%d]; a[%d]:=y; y:=y+1; ' % (a, a) + SHOW +
                'IF n>0 THEN p(n-1,y); IF a[%d]≠%d-n THEN print(n,a[%d]) END' % (a, n + 7, a),
                'x:=7; p(n,x); print(x); NLCR', progress(n, m) + '%d\n' % (n + 8), a * (n + 1))
    return ('PROCEDURE p(n,y); VALUE n; INTEGER n,y; BEGIN INTEGER ARRAY a[1:%d]; a[%d]:=n; ' % (a, a) + SHOW +
            'IF n>0 THEN p(n-1,y+1) ELSE BEGIN print(y); NLCR END; IF a[%d]≠n THEN print(n,a[%d]) END' % (a, a),
            'x:=7; p(n,x); print(x); NLCR', progress(n, m) + '%d\n7\n' % (n + 7), a * (n + 1))


def t_jensen(s, n, a, m):
    """n parameters, each an expression in the one before, evaluated from the innermost level"""
    return ('REAL PROCEDURE f(n,y); VALUE n; INTEGER n; REAL y; BEGIN REAL ARRAY a[1:%d]; a[1]:=n; ' % a + SHOW +
            'f:=IF n=0 THEN y ELSE f(n-1,y+0.5); IF a[1]≠n THEN print(n,a[1]) END',
            'r:=f(n,r0); print(2×r=n+3); NLCR; r0:=100; m:=1; print(f(3,r0)); NLCR',
            progress(n, m) + '0\n' + progress(3, 1) + '101.5\n', 2 * a * (n + 1))


def t_procs(s, n, a, m):
    """a chain of procedures, each passed to the next level; the last calls all of them back"""
    return ('PROCEDURE p(n,q); VALUE n; INTEGER n; PROCEDURE q; BEGIN INTEGER l; INTEGER ARRAY a[1:%d]; '
            'PROCEDURE h(v); VALUE v; INTEGER v; BEGIN a[%d]:=a[%d]+v; IF a[%d]≠l+v THEN print(n,l); q(v+1) END; '
            'l:=5×n; a[%d]:=l; ' % (a, a, a, a, a) + SHOW + 'IF n=0 THEN h(1) ELSE p(n-1,h); IF a[%d]≤l THEN print(n) END;\n'
            'PROCEDURE last(v); VALUE v; INTEGER v; BEGIN print(v); NLCR; x:=v END' % a,
            'p(n,last); print(x+1); NLCR', progress(n, m) + '%d\n%d\n' % (n + 2, n + 3), a * (n + 1))


def t_valuearray(s, n, a, m):
    """every level has its own copy of the array"""
    return ('INTEGER PROCEDURE f(n,a); VALUE n,a; INTEGER n; INTEGER ARRAY a; BEGIN a[%d]:=a[%d]+1; ' % (a, a) + SHOW +
            'f:=IF n=0 THEN a[%d] ELSE f(n-1,a); IF a[%d]≠%d-n THEN print(n,a[%d]) END' % (a, a, n + 11, a),
            'BEGIN INTEGER ARRAY b[-1:%d]; INTEGER j; FOR j:=-1 STEP 1 UNTIL %d DO b[j]:=10; x:=f(n,b); print(x,b[%d]); NLCR END' % (a, a, a),
            progress(n, m) + '%d 10\n' % (n + 11), (a + 2) * (n + 2))


def t_thunk(s, n, a, m):
    """recursion inside the evaluation of a name parameter"""
    e = s.choice(['g(f(n-1))', 'h(f(n-1),n)+1', 'g(g(f(n-1))-1)'])
    return ('INTEGER PROCEDURE g(v); INTEGER v; g:=v+1; INTEGER PROCEDURE h(v,w); VALUE v; INTEGER v,w; h:=v+w-w; '
            'INTEGER PROCEDURE f(n); VALUE n; INTEGER n; BEGIN INTEGER ARRAY a[0:%d]; a[%d]:=n; ' % (a, a) + SHOW +
            'IF n=0 THEN f:=3 ELSE f:=%s; IF a[%d]≠n THEN print(n,a[%d]) END' % (e, a, a),
            'print(f(n)); NLCR', progress(n, m) + '%d\n' % (n + 3), (a + 1) * (n + 1))


def t_blocks(s, n, a, m):
    """the recursion happens inside inner blocks and loops with storage of their own"""
    return ('INTEGER PROCEDURE f(n); VALUE n; INTEGER n; BEGIN INTEGER q; q:=n; ' + SHOW +
            'BEGIN INTEGER ARRAY a[1:%d]; INTEGER j,z; a[1]:=n; z:=0; FOR j:=1 STEP 1 UNTIL 1 DO BEGIN REAL ARRAY b[0:j]; b[1]:=j; '
            'IF n>0 THEN z:=f(n-1) ELSE z:=2; IF b[1]≠1 THEN print(b[1]) END; q:=z+1; IF a[1]≠n THEN print(n) END; f:=q END' % a,
            'print(f(n)); NLCR', progress(n, m) + '%d\n' % (n + 3), (a + 4) * (n + 1))


def t_mutual(s, n, a, m):
    """two procedures at different levels of the text calling each other"""
    return ('PROCEDURE p(n); VALUE n; INTEGER n; BEGIN INTEGER t; INTEGER ARRAY a[1:%d]; PROCEDURE q(n); VALUE n; INTEGER n; BEGIN t:=t+1; ' % a + SHOW +
            'IF n>0 THEN p(n-1); t:=t+1 END; a[%d]:=n; t:=n; ' % a + SHOW + 'IF n>0 THEN q(n-1); IF a[%d]≠n∨n>0∧t≠n+2 THEN print(n,t) END' % a,
            'p(n); print(-7); NLCR', progress(n, m) + '-7\n', a * (n // 2 + 1))


def t_exit(s, n, a, m):
    """left from the bottom by a goto, several times: through a label handed down, a switch handed down, or a label outside"""
    how = s.draw(3)
    spec, par, go, act = [('', '', 'lout', ''), ('LABEL l; ', ',l', 'l', ',lout'), ('SWITCH l; ', ',l', 'l[2]', ',sw')][how]
    r = s.rint(1, 4)
    return ('PROCEDURE p(n%s); VALUE n; INTEGER n; %sBEGIN INTEGER ARRAY a[1:%d]; a[1]:=n; ' % (par, spec, a) + SHOW +
            'IF n=0 THEN GOTO %s ELSE p(n-1%s); print(n) END;\nSWITCH sw:=lback,lout,lback' % (go, par),
            'x:=0; lback: x:=x+1; p(n%s); print(-1); lout: print(x); NLCR; IF x<%d THEN GOTO lback' % (act, r),
            ''.join(progress(n, m) + '%d\n' % i for i in range(1, r + 1)), a * (n + 1))


TEMPLATES = [t_linear, t_linear, t_byname, t_byname, t_jensen, t_procs, t_valuearray, t_thunk, t_blocks, t_mutual, t_exit]
# more cells than any level of a template uses beside its array (name parameters are evaluated through all levels at once)
OVER = {t_jensen: 80, t_byname: 80, t_thunk: 100, t_procs: 80, t_blocks: 80}


def judge(ctx, text, out, cells, upper, cap, what, lab):
    """the results are right, or right up to a report; a report only when more than `upper` may be needed, the end only when `cells` are there"""
    r = ctx.run_a60(text)
    d = dict(program=text, expected=out, observed=r.brief(), cells=cells, capacity=cap)
    c = crash_text(r)
    if c or r.timeout:
        raise Fail('program crashed: %s' % (c or 'does not stop'), **d)
    got = r.out.decode('utf8', 'replace')
    if r.rc == 0:
        if got != out:
            raise Fail('wrong results (%s): %s' % (what, diff_text(out, got)), **d)
        if cells > cap:
            raise Fail('runs to its end (%s) although the arrays alone need %d cells of %d' % (what, cells, cap), **d)
        lab.add('runs to its end')
    else:
        if not out.startswith(got.rstrip('\n')) or not r.err:
            raise Fail('wrong results before the report (%s): %s' % (what, diff_text(out, got)), **d)
        if upper < cap:
            raise Fail('stops with a report (%s; %s), but needs at most %d cells of %d' % (r.err[:80].decode('utf8', 'replace').strip(), what, upper, cap), **d)
        lab.add('stopped')
    return r


def case_depth(ctx, s):
    lab = set()
    cap = capacity(ctx, ('for', 'main'))
    tf = s.choice(TEMPLATES)
    k = s.draw(10)
    if k == 0:
        n, a = s.rint(0, 3), s.rint(1, 5)
    elif k <= 2:
        n, a = s.rint(1, 3000), s.rint(1, 30)
    else:
        a = int(2 ** (s.rint(40, 160) / 10))          # 16 .. 65536
        f = s.rint(30, 140) if k < 7 else s.rint(88, 106)
        n = max(1, cap * f // 100 // (a + s.rint(12, 45)))
    if tf is t_byname and n > 2000:                   # every use goes through all levels
        n = 2000
        a = max(a, cap * s.rint(60, 110) // 100 // 2020)
    m = max(1, n // s.rint(1, 12)) if n > 12 else s.rint(1, 3)
    decl, stmts, out, cells = tf(s, n, a, m)
    text = kw('BEGIN INTEGER n,m,k,c,x; REAL r,r0; %s;\nn:=%d; m:=%d; r:=r0:=1.5; %s END\n' % (decl, n, m, stmts))
    lab.add(tf.__name__[2:])
    r = judge(ctx, text, out, cells, cells + OVER.get(tf, 60) * (n + 2), cap, 'depth %d' % n, lab)
    return dict(nontrivial=n > 20, key=text, labels=sorted(lab) + ['depth %s' % ('<100' if n < 100 else '<1000' if n < 1000 else '<10000' if n < 10000 else 'more')],
                sample=dict(program=text[:900], depth=n, cells=cells, rc=r.rc))


# ------------------------------------------------------------------ sizes
def case_sizes(ctx, s):
    """one array of any shape, at any place"""
    lab = set()
    cap = capacity(ctx, ('for', 'main'))
    ty = s.choice(['INTEGER', 'REAL', 'BOOLEAN'])
    nd = s.weighted([(4, 1), (4, 2), (3, 3), (2, 4), (1, 5)])
    place = s.choice(['block', 'block', 'procedure', 'value', 'outer'])
    unit = 2 if ty == 'REAL' else 1
    room = (9000 if place == 'outer' else cap // 2 if place == 'value' else cap) // unit
    k = s.draw(6)
    target = room * s.rint(80, 120) // 100 if k < 2 else int(room * 2 ** (s.rint(-40, 60) / 10)) if k < 5 else 2 ** s.rint(20, 62)
    ext, left = [], target
    for j in range(nd):
        e = left if j == nd - 1 else max(1, int(left ** (s.rint(0, 100) / 100)))
        e = min(max(1, e), 2 ** 26 if s.p(60) else 2 ** 27 - 10)
        ext.append(e)
        left = max(1, left // e)
    if s.p(50):
        ext.reverse()
    M = 2 ** 26 - 1
    bs = []
    for e in ext:
        q = s.draw(4)
        lo = 1 if q == 0 and e <= M else -(e // 2) if q == 1 else M - e + 1 if q == 2 else s.rint(-M, M - e + 1)
        bs.append((lo, lo + e - 1))
    n = 1
    for e in ext:
        n *= e
    cells = n * unit
    offset, stride = 0, unit
    for (lo, hi), e in zip(bs, ext):
        offset += abs(lo) * stride
        stride *= e
    # the distance to the element with all subscripts zero must be an integer: else a report is right
    slack = 0 if offset < 2 ** 25 else 1 << 40
    num = lambda x: str(x) if x >= 0 else '-%d' % -x
    dim = ','.join('%s:%s' % (num(a), num(b)) for a, b in bs)
    if place != 'outer' and s.p(40):
        lab.add('bounds from variables')
        dim = ','.join('%s+i:i+i+(%s)' % (num(a), num(b)) if b < M else '%s:%s' % (num(a), num(b)) for a, b in bs)
    pts = list(dict.fromkeys(tuple(s.choice([a, b, s.rint(a, b)]) for a, b in bs) for _ in range(s.rint(1, 5))))
    vals = {p: (s.choice(['_t_r_u_e', '_f_a_l_s_e']) if ty == 'BOOLEAN' else str(j + 3)) for j, p in enumerate(pts)}
    show = {'_t_r_u_e': '0', '_f_a_l_s_e': '1'}
    el = lambda nm, p: '%s[%s]' % (nm, ','.join(num(x) for x in p))
    use = 'print(111); NLCR; ' + ''.join('%s:=%s; ' % (el('a', p), vals[p]) for p in pts)
    out = '111\n'
    if place == 'value':
        read = ''.join('print(%s); NLCR; ' % el('b', p) for p in pts)
        body = 'BEGIN %s ARRAY a[%s]; %s p(a); %s END' % (ty, dim, use, ''.join('print(%s); NLCR; ' % el('a', p) for p in pts))
        decl = 'PROCEDURE p(b); VALUE b; %s ARRAY b; BEGIN %s %s END;' % (ty, read, '%s:=%s' % (el('b', pts[0]), 'TRUE' if ty == 'BOOLEAN' else '99'))
        if nd > 5:
            raise Discard('value array')
        vs = [show.get(vals[p], vals[p]) for p in pts]
        out += ''.join('%s\n' % v for v in vs + vs)
        cells *= 2
    else:
        read = ''.join('print(%s); NLCR; ' % el('a', p) for p in pts)
        out += ''.join('%s\n' % show.get(vals[p], vals[p]) for p in pts)
        blk = 'BEGIN %s ARRAY a[%s]; %s %s END' % (ty, dim, use, read)
        decl, body = '', blk
        if place == 'procedure':
            decl, body = 'PROCEDURE p(i); INTEGER i; %s;' % blk, 'p(i)'
    if place == 'outer':
        text = 'BEGIN INTEGER i; %s ARRAY a[%s]; i:=0; %s %s END' % (ty, dim, use, read)
    else:
        text = 'BEGIN INTEGER i; %s i:=0; %s END' % (decl, body)
    text = kw(text) + '\n'
    if place == 'outer':
        r = judge(ctx, text, out, cells, cells + 2600 + slack, 10165, 'array of %d cells in the outer block' % cells, lab)
    else:
        r = judge(ctx, text, out, cells, cells + 400 + slack, cap, 'array of %d cells' % cells, lab)
    if slack:
        lab.add('far from zero')
    lab |= {place, '%d dimensions' % nd, 'cells %s' % ('fit' if cells < cap else 'up to 2^26' if cells < 2 ** 26 else 'more')}
    return dict(nontrivial=cells > 1000, key=text, labels=sorted(lab), sample=dict(program=text[:700], cells=cells, rc=r.rc))


CHECK = Check('P23', [
    Sub('left', case_left, 320, 12000, 'different loop bodies that jump, call or repeat'),
    Sub('depth', case_depth, 300, 8000, 'different programs with a recursion of more than 20 levels'),
    Sub('sizes', case_sizes, 1200, 40000, 'different arrays of more than 1000 cells'),
])
