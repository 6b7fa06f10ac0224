"""Generator of well-formed Algol 60 programs (see algol.py for the syntax trees)."""
from fractions import Fraction
from . import x1num as X

NAMES = ['a', 'b', 'c', 'd', 'k', 'm', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', 'a1', 'b2', 'cc', 'd4e',
         'x9', 'abcd', 'abce', 'alpha', 'beta5', 'gamma', 'delta', 'count', 'total1', 'total2', 'theta7b',
         'veryLong1', 'veryLong2', 'Upper', 'U', 'V', 'W', 'Q1', 'Zeta', 'omega12', 'h', 'j', 'n1', 'g']

DYADIC = ['0.5', '2.5', '.25', '1.75', '3.0', '0.125', '12.5', '100.0', '7.375', '1024.5', '.0625', '63.25']


def num(n):
    return ('num', str(n), X.iv(n))


def intx(n):
    return num(n) if n >= 0 else ('neg', num(-n))


def real_lit(t):
    f = Fraction(t)
    return ('num', t, X.real_of_frac(f) if f else X.iv(0))      # a zero constant is always of type integer


class Scope:
    def __init__(self, up=None, proc_boundary=False):
        self.up = up
        self.d = {}
        self.proc = proc_boundary

    def all(self):
        seen = {}
        s = self
        while s is not None:
            for n, i in s.d.items():
                if n not in seen:
                    seen[n] = i
            s = s.up
        return seen


DEFAULT = dict(
    max_depth=3, stmts=(2, 6), expr_depth=3,
    w_asg=30, w_print=16, w_if=14, w_comp=4, w_block=8, w_for=8, w_call=0, w_goto=0, w_multi=3, w_back=0,
    procs=(0, 0), arrays=(0, 1), formals=(0, 3), p_array_outer=30,
    big=6, err=2, real=40, boolean=25, labels=0, switches=0, own=3, p_static_array=50,
    kinds=('integer', 'real', 'boolean', 'iarray', 'rarray', 'barray', 'procedure', 'iproc', 'rproc', 'label', 'switch', 'string'),
    recursion=0, jensen=0, std=8, power=5, ifexpr=8, conv_arrays=30, formal_gives_label=30,
)


class Gen:
    def __init__(self, src, **prof):
        self.s = src
        self.o = dict(DEFAULT, **prof)
        self.size = 0
        self.fresh = 0
        self.insub = 0
        self.funcs = []
        self.blocklevel = 0
        self.labn = 0

    # ------------------------------------------------------------ names
    def newname(self, sc, hide=True):
        """hide: the name may hide one of an outer block (not allowed once bodies that may use that one exist)"""
        s = self.s
        for _ in range(6):
            n = s.choice(NAMES)
            if n in sc.d:
                continue
            up = sc.all().get(n)
            # the name of a procedure is not hidden within its own body: assignments to it follow
            if up is None or (hide and up.get('callable', True)):
                return n
        self.fresh += 1
        return 'n%dz' % self.fresh

    def newlabel(self):
        self.labn += 1
        return 'L%d' % self.labn

    # ------------------------------------------------------------ literals
    def int_lit(self):
        s = self.s
        if s.p(self.o['big']):
            return num(s.choice([100, 1000, 8191, 8192, 8193, 16384, 32767, 32768, 65536, 1048576, 67108862, 67108863]))
        return num(s.rint(0, 12))

    def real_lit(self):
        return real_lit(self.s.choice(DYADIC))

    # ------------------------------------------------------------ scope queries
    def vis(self, sc, pred):
        return [(n, i) for n, i in sorted(sc.all().items()) if pred(i)]

    def readable(self, sc, t):
        """names usable as a value of type t (without arguments)"""
        return self.vis(sc, lambda i: i['k'] in ('var', 'val', 'name', 'loop') and i['t'] == t and not i.get('noread'))

    def arrays(self, sc, t):
        return self.vis(sc, lambda i: i['k'] == 'arr' and i['t'] == t)

    def functions(self, sc, t):
        return self.vis(sc, lambda i: i['k'] in ('proc', 'fproc') and i['r'] == t and i.get('callable', True))

    # ------------------------------------------------------------ expressions
    def expr(self, sc, t, d=None, pure=None):
        if d is None:
            d = self.o['expr_depth']
        self.size += 1
        return {'integer': self.iexpr, 'real': self.rexpr, 'boolean': self.bexpr}[t](sc, d, pure)

    def leaf(self, sc, t, pure):
        s = self.s
        names = self.readable(sc, t)
        if pure is not None:
            names = [(n, i) for n, i in names if i['k'] in ('var', 'val') and n not in pure]
        if names and s.p(75):
            return ('var', s.choice(names)[0])
        if t == 'integer':
            return self.int_lit()
        if t == 'real':
            return self.real_lit()
        return ('bool', s.p(50))

    def elem(self, sc, t, d, pure):
        """reference to an array element of type t, or None"""
        arrs = self.arrays(sc, t)
        if not arrs:
            return None
        n, i = self.s.choice(arrs)
        return ('sub', n, self.subscripts(sc, i, d, pure))

    def subscripts(self, sc, info, d, pure):
        s = self.s
        subs = []
        bad = s.p(self.o['err'])
        for lo, hi in info['b']:
            w = hi - lo + 1
            if bad and s.p(60):
                # far outside the whole array
                subs.append(intx(s.choice([hi + 4000, lo - 4000])))
                bad = False
                continue
            k = s.draw(4)
            if k == 0 or d <= 0 or w == 1:
                subs.append(intx(s.rint(lo, hi)))
            elif k == 3 and s.p(20):
                # a real subscript is rounded
                v = s.rint(lo, hi)
                lit = real_lit('%d.25' % v) if v >= 0 else ('neg', real_lit('%d.25' % -v))
                subs.append(lit)
            elif self.insub < 2 and s.p(30):
                # any expression, often a call, reduced into the range
                e = None
                self.insub += 1
                if pure is None and s.p(60):
                    e = self.fcall(sc, 'integer', d - 1)
                if e is None:
                    e = self.iexpr(sc, min(d - 1, 1), pure)
                self.insub -= 1
                r = ('std', 'abs', ('bin', '-', e, ('bin', '×', ('bin', '÷', e, num(w)), num(w))))
                subs.append(('bin', '+', r, intx(lo)) if lo >= 0 else ('bin', '-', r, num(-lo)))
            else:
                # reduce an arbitrary small expression into range:  lo + e - e ÷ w × w   for e >= 0
                loops = [(n, i) for n, i in self.vis(sc, lambda i: i['k'] == 'loop') if i['lo'] >= lo and i['hi'] <= hi]
                if loops and pure is None:
                    subs.append(('var', s.choice(loops)[0]))
                    continue
                names = [(n, i) for n, i in self.readable(sc, 'integer') if i['k'] != 'loop' or pure is None]
                if pure is not None:
                    names = [(n, i) for n, i in names if i['k'] in ('var', 'val') and n not in pure]
                if not names:
                    subs.append(intx(s.rint(lo, hi)))
                    continue
                v = ('var', s.choice(names)[0])
                # v - v÷w×w lies in (-w, w); its absolute value via squares is awkward, so use a conditional
                r = ('bin', '-', v, ('bin', '×', ('bin', '÷', v, num(w)), num(w)))
                e = ('if', ('bin', '<', r, num(0)), ('neg', r), r)
                subs.append(('bin', '+', e, intx(lo)) if lo >= 0 else ('bin', '-', e, num(-lo)))
        return subs

    def iexpr(self, sc, d, pure):
        s = self.s
        if d <= 0:
            return self.leaf(sc, 'integer', pure)
        k = s.weighted([(26, 'leaf'), (34, 'bin'), (7, 'neg'), (8, 'idiv'), (self.o['power'], 'pow'), (8, 'elem'),
                        (self.o['ifexpr'], 'if'), (14 if pure is None else 0, 'call'), (self.o['std'], 'std')])
        if k == 'bin':
            op = s.choice(['+', '-', '×', '+', '-'])
            return ('bin', op, self.iexpr(sc, d - 1, pure), self.iexpr(sc, d - 1, pure))
        if k == 'neg':
            return (s.choice(['neg', 'neg', 'pos']), self.iexpr(sc, d - 1, pure))
        if k == 'idiv':
            den = num(s.rint(1, 9)) if s.p(85) else self.iexpr(sc, d - 1, pure)
            if s.p(20):
                den = ('neg', den)
            return ('bin', '÷', self.iexpr(sc, d - 1, pure), den)
        if k == 'pow':
            return ('bin', '↑', self.iexpr(sc, d - 1, pure), num(s.rint(1, 5)))
        if k == 'elem':
            r = self.elem(sc, 'integer', d - 1, pure)
            if r:
                return r
        if k == 'if':
            return ('if', self.bexpr(sc, d - 1, pure), self.iexpr(sc, d - 1, pure), self.iexpr(sc, d - 1, pure))
        if k == 'call':
            r = self.fcall(sc, 'integer', d - 1)
            if r:
                return r
        if k == 'std':
            f = s.choice(['sign', 'entier'])
            return ('std', f, self.expr(sc, s.choice(['integer', 'real']), d - 1, pure))
        return self.leaf(sc, 'integer', pure)

    def rexpr(self, sc, d, pure):
        s = self.s
        if d <= 0:
            return self.leaf(sc, 'real', pure)
        k = s.weighted([(24, 'leaf'), (34, 'bin'), (6, 'neg'), (12, 'div'), (self.o['power'], 'pow'), (8, 'elem'),
                        (self.o['ifexpr'], 'if'), (14 if pure is None else 0, 'call'), (self.o['std'], 'std')])
        if k == 'bin':
            op = s.choice(['+', '-', '×', '+'])
            ta, tb = s.choice([('real', 'real'), ('real', 'integer'), ('integer', 'real')])
            return ('bin', op, self.expr(sc, ta, d - 1, pure), self.expr(sc, tb, d - 1, pure))
        if k == 'div':
            ta, tb = s.choice([('real', 'real'), ('real', 'integer'), ('integer', 'real'), ('integer', 'integer')])
            b = self.expr(sc, tb, d - 1, pure)
            if s.p(60):
                b = s.choice([num(2), num(3), num(10), real_lit('0.5'), num(7)])
            return ('bin', '/', self.expr(sc, ta, d - 1, pure), b)
        if k == 'neg':
            return (s.choice(['neg', 'neg', 'pos']), self.rexpr(sc, d - 1, pure))
        if k == 'pow':
            return ('bin', '↑', self.rexpr(sc, d - 1, pure), intx(s.rint(1, 4)) if s.p(80) else ('neg', num(s.rint(1, 3))))
        if k == 'elem':
            r = self.elem(sc, 'real', d - 1, pure)
            if r:
                return r
        if k == 'if':
            return ('if', self.bexpr(sc, d - 1, pure), self.rexpr(sc, d - 1, pure), self.rexpr(sc, d - 1, pure))
        if k == 'call':
            r = self.fcall(sc, 'real', d - 1)
            if r:
                return r
        if k == 'std':
            f = s.choice(['abs', 'abs', 'sqrt'])
            e = self.expr(sc, s.choice(['integer', 'real']), d - 1, pure)
            return ('std', f, ('std', 'abs', e) if f == 'sqrt' and s.p(90) else e)
        return self.leaf(sc, 'real', pure)

    def bexpr(self, sc, d, pure):
        s = self.s
        if d <= 0:
            return self.leaf(sc, 'boolean', pure)
        k = s.weighted([(36, 'rel'), (12, 'leaf'), (18, 'bin'), (8, 'not'), (5, 'elem'), (4, 'if'),
                        (8 if pure is None else 0, 'call')])
        if k == 'rel':
            t = s.choice(['integer', 'integer', 'real', 'mixed'])
            ta = tb = t
            if t == 'mixed':
                ta, tb = s.choice([('integer', 'real'), ('real', 'integer')])
            return ('bin', s.choice(['<', '≤', '=', '≥', '>', '≠']), self.expr(sc, ta, d - 1, pure), self.expr(sc, tb, d - 1, pure))
        if k == 'bin':
            return ('bin', s.choice(['∧', '∨', '⊃', '≡', '∧', '∨']), self.bexpr(sc, d - 1, pure), self.bexpr(sc, d - 1, pure))
        if k == 'not':
            return ('not', self.bexpr(sc, d - 1, pure))
        if k == 'elem':
            r = self.elem(sc, 'boolean', d - 1, pure)
            if r:
                return r
        if k == 'if':
            return ('if', self.bexpr(sc, d - 1, pure), self.bexpr(sc, d - 1, pure), self.bexpr(sc, d - 1, pure))
        if k == 'call':
            r = self.fcall(sc, 'boolean', d - 1)
            if r:
                return r
        return self.leaf(sc, 'boolean', pure)

    # ------------------------------------------------------------ calls
    def fcall(self, sc, t, d):
        fs = self.functions(sc, t)
        if not fs:
            return None
        n, i = self.s.choice(fs)
        acts = self.actuals(sc, i, d)
        if acts is None:
            return None
        return ('call', n, acts)

    def lvalues(self, sc, t):
        r = [('var', n) for n, i in self.vis(sc, lambda i: i['k'] in ('var', 'val', 'name') and i['t'] == t
                                             and not i.get('prot') and (i['k'] != 'name' or i.get('lv')))]
        return r

    def actuals(self, sc, info, d):
        s = self.s
        acts = []
        for p in info['params']:
            a = self.actual(sc, p, d, info)
            if a is None:
                return None
            acts.append(a)
        return acts

    def actual(self, sc, p, d, info=None):
        """p: dict(spec, val, lv, sig, b, rec)"""
        s = self.s
        sp = p['spec']
        if sp in ('integer', 'real', 'boolean'):
            if p.get('rec'):
                return ('e', num(s.rint(0, 3)))
            if p['val']:
                t = sp
                if sp != 'boolean' and s.p(25):
                    t = s.choice(['integer', 'real'])
                return ('e', self.expr(sc, t, min(d, 2)))
            if p.get('lv'):
                lv = self.lvalues(sc, sp)
                if s.p(30):
                    e = self.elem(sc, sp, 1, None)
                    if e:
                        return ('e', e)
                if not lv:
                    e = self.elem(sc, sp, 1, None)
                    return ('e', e) if e else None
                return ('e', s.choice(lv))
            return ('e', self.expr(sc, sp, min(d, 2)))
        if sp in ('iarray', 'rarray', 'barray'):
            t = {'iarray': 'integer', 'rarray': 'real', 'barray': 'boolean'}[sp]
            ts = [t]
            if p['val'] and t != 'boolean' and s.p(self.o['conv_arrays']):
                ts = ['real' if t == 'integer' else 'integer']
            c = [(n, i) for n, i in self.vis(sc, lambda i: i['k'] == 'arr' and i['t'] in ts and i['b'] == p['b'])]
            if not c:
                c = [(n, i) for n, i in self.vis(sc, lambda i: i['k'] == 'arr' and i['t'] == t and i['b'] == p['b'])]
            if not c:
                return None
            return ('a', s.choice(c)[0])
        if sp in ('procedure', 'iproc', 'rproc', 'bproc'):
            r = {'procedure': None, 'iproc': 'integer', 'rproc': 'real', 'bproc': 'boolean'}[sp]
            c = [(n, i) for n, i in self.vis(sc, lambda i: i['k'] in ('proc', 'fproc') and i['r'] == r and i.get('callable', True)
                                             and sig(i) == p['sig'])]
            if not c:
                return None
            return ('p', s.choice(c)[0])
        if sp == 'label':
            c = self.vis(sc, lambda i: i['k'] == 'label')
            return ('l', s.choice(c)[0]) if c else None
        if sp == 'switch':
            c = self.vis(sc, lambda i: i['k'] == 'switch' and i['n'] >= p['n'])
            return ('s', s.choice(c)[0]) if c else None
        if sp == 'string':
            c = self.vis(sc, lambda i: i['k'] == 'string')
            if c and s.p(40):
                return ('s', s.choice(c)[0])
            return ('t', ''.join(s.choice('abcxyzAB 0129+-(),.') for _ in range(s.rint(1, 6))))
        raise ValueError(sp)

    # ------------------------------------------------------------ declarations
    def program(self):
        self.blocklevel = 0
        return self.block(None, self.o['max_depth'], outer=True)

    def bound(self, sc, lo_hi, static):
        """bound expression with a known value"""
        v = lo_hi
        s = self.s
        if static or s.p(60):
            return ('pos', num(v)) if v >= 0 and s.p(8) else intx(v)
        a = s.rint(0, 5)
        return ('bin', '-', intx(v + a), num(a)) if s.p(50) else ('bin', '+', intx(v - a), num(a))

    def decl_arrays(self, sc, decls, inits, static):
        s = self.s
        lo, hi = self.o['arrays']
        for _ in range(s.rint(lo, hi)):
            t = s.choice(['integer', 'real', 'integer', 'boolean'])
            segs = []
            own = static is False and False
            for _ in range(1 if s.p(80) else 2):
                nd = s.weighted([(60, 1), (28, 2), (9, 3), (3, 4)])
                bs = []
                for _ in range(nd):
                    l = s.choice([1, 0, -1, -3, 2, 5, -20, 10])
                    bs.append((l, l + s.draw(5 if nd == 1 else 3)))
                names = []
                for _ in range(1 if s.p(75) else 2):
                    n = self.newname(sc)
                    sc.d[n] = dict(k='arr', t=t, b=bs)
                    names.append(n)
                segs.append((names, [(self.bound(sc, l, static), self.bound(sc, h, static)) for l, h in bs]))
                for n in names:
                    inits.append(self.init_array(sc, n, t, bs))
            decls.append(('array', t, False, segs))

    def init_array(self, sc, n, t, bs):
        """statement giving every element a value"""
        s = self.s
        total = 1
        for l, h in bs:
            total *= h - l + 1
        lv = [(x, i) for x, i in self.vis(sc, lambda i: i['k'] == 'ctl')]
        if total <= 3 or len(lv) < len(bs):
            import itertools
            sts = []
            for idx in itertools.product(*[range(l, h + 1) for l, h in bs]):
                sts.append(('asg', [('sub', n, [intx(x) for x in idx])], self.leaf0(t)))
            return ('comp', sts)
        vs = [lv[k][0] for k in range(len(bs))]
        e = ('var', vs[0])
        for v in vs[1:]:
            e = ('bin', '+', ('bin', '×', e, num(s.rint(2, 7))), ('var', v))
        if t == 'boolean':
            e = ('bin', s.choice(['<', '>', '=']), e, num(s.rint(0, 4)))
        elif t == 'real':
            e = ('bin', '/', e, num(s.choice([2, 4, 3]))) if s.p(50) else ('bin', '×', e, real_lit('2.5'))
        b = ('asg', [('sub', n, [('var', v) for v in vs])], e)
        for (l, h), v in reversed(list(zip(bs, vs))):
            b = ('for', ('var', v), [('st', intx(l), num(1), intx(h))], b)
        return b

    def leaf0(self, t):
        s = self.s
        if t == 'integer':
            e = self.int_lit()
            return ('neg', e) if s.p(25) else e
        if t == 'real':
            e = self.real_lit()
            return ('neg', e) if s.p(25) else e
        return ('bool', s.p(50))

    def block(self, up, depth, outer=False, extra=None, fname=None, ftype=None, stmts=None, proc=False):
        """returns ('block', decls, stmts)"""
        s = self.s
        o = self.o
        sc = Scope(up, proc)
        self.blocklevel += 1
        decls, inits = [], []
        static = outer
        if extra:
            sc.d.update(extra)
        # control variables for loops (never in the general pool)
        nctl = s.rint(1, 2) if o['w_for'] or o['arrays'][1] else 0
        ctl = []
        for k in range(nctl):
            self.fresh += 1
            n = s.choice(['i', 'j', 'ii', 'jj', 'index'])
            if n in sc.d:
                n = 'i%d' % self.fresh
            sc.d[n] = dict(k='ctl', t='integer')
            ctl.append(n)
        if ctl:
            decls.append(('vars', 'integer', False, ctl))
        for _ in range(s.rint(1, 3)):
            t = s.weighted([(50, 'integer'), (o['real'], 'real'), (o['boolean'], 'boolean')])
            own = (not outer) and s.p(o['own'])
            ns = []
            for _ in range(s.rint(1, 2)):
                n = self.newname(sc)
                sc.d[n] = dict(k='var', t=t)
                ns.append(n)
                if not own:
                    inits.append(('asg', [('var', n)], self.leaf0(t)))
            decls.append(('vars', t, own, ns))
        self.decl_arrays(sc, decls, inits, static)
        # labels known in advance: an exit label of the block
        exit_label = None
        late = []
        if s.p(30):
            decls = s.shuffle(decls)
        if s.p(o['labels']):
            exit_label = self.newlabel()
            sc.d[exit_label] = dict(k='label')
        extra_labels = []
        if exit_label and s.p(o['switches']):
            items = [('lab', exit_label)]
            mids = []
            for _ in range(s.rint(0, 2)):
                l = self.newlabel()
                mids.append(l)
                items.append(('lab', l))
            items = s.shuffle(items)
            if s.p(30):
                items.append(('ifd', self.bexpr(sc, 1, ()), ('lab', exit_label), items[0]))
            n = self.newname(sc, False)
            sc.d[n] = dict(k='switch', n=len(items))
            late.append(('switch', n, items))
            extra_labels = mids       # placed just before the exit label, forward only
        nproc = s.rint(*o['procs']) if depth > 0 else 0
        if not outer and nproc:
            nproc = s.draw(nproc + 1)
        pd = []
        for _ in range(nproc):
            pd.append(self.proc(sc, depth - 1))
        if len(pd) > 1:
            pd = s.shuffle(pd)
        decls += s.shuffle(late + pd) if late else pd         # one-pass compiler: variables are declared before the procedures that use them
        sts = list(inits)
        if fname:
            sts.append(('asg', [('var', fname)], self.leaf0(ftype)))
        if stmts:
            sts += stmts(sc)
        n = s.rint(*o['stmts'])
        body = [self.stmt(sc, depth, fname, ftype) for _ in range(n)]
        if s.p(o['w_back']) and depth > 0:
            body = self.backward(sc, body, decls, depth)
        sts += body
        if fname and s.p(70):
            sts.append(('asg', [('var', fname)], self.fvalue(sc, ftype)))
        for l in extra_labels:
            sts.append(('lab', l, self.trace_print(sc)))
            sc.d[l] = dict(k='deadlabel')
        if exit_label:
            sts.append(('lab', exit_label, self.trace_print(sc)))
        self.blocklevel -= 1
        return ('block', decls, sts)

    def fvalue(self, sc, t):
        """value for a function designator: must have the declared type dynamically"""
        return self.expr(sc, t, 2)

    def trace_print(self, sc):
        return ('comp', [('print', [self.expr(sc, self.s.choice(['integer', 'real', 'boolean']), 1)]), ('nlcr',)])

    def backward(self, sc, body, decls, depth):
        """k := 0; L: k := k + 1; body; if k < n then goto L"""
        s = self.s
        l = self.newlabel()
        self.fresh += 1
        k = 'kk%d' % self.fresh
        decls.insert(0, ('vars', 'integer', False, [k]))
        sc.d[k] = dict(k='hidden', t='integer')
        return ([('asg', [('var', k)], num(0)),
                 ('lab', l, ('asg', [('var', k)], ('bin', '+', ('var', k), num(1))))] + body +
                [('if', ('bin', '<', ('var', k), num(s.rint(2, 3))), ('goto', ('lab', l)), None)])

    # ------------------------------------------------------------ procedures
    def proc(self, up, depth):
        s = self.s
        o = self.o
        name = self.newname(up, False)
        r = s.weighted([(40, None), (30, 'integer'), (20, 'real'), (10, 'boolean')])
        params = []
        sc = {}
        rec = s.p(o['recursion'])
        nform = s.rint(*o['formals'])
        if rec:
            pn = 'n'
            params.append((pn, 'integer', True))
            sc[pn] = dict(k='val', t='integer', prot=True)
        pinfo = [dict(spec='integer', val=True, rec=True)] if rec else []
        for _ in range(nform):
            spec = s.weighted([(30, 'integer'), (20, 'real'), (8, 'boolean')] +
                              [(w, k) for w, k in ((9, 'iarray'), (6, 'rarray'), (3, 'barray'), (8, 'procedure'), (8, 'iproc'),
                                                   (4, 'rproc'), (6, 'label'), (3, 'switch'), (4, 'string')) if k in o['kinds']])
            pn = None
            for _ in range(8):
                c = s.choice(NAMES)
                if c not in sc and c != name:
                    pn = c
                    break
            if pn is None:
                self.fresh += 1
                pn = 'f%dq' % self.fresh
            p = dict(spec=spec, val=False)
            if spec in ('integer', 'real', 'boolean'):
                p['val'] = s.p(50)
                if p['val']:
                    sc[pn] = dict(k='val', t=spec)
                else:
                    p['lv'] = s.p(60)
                    sc[pn] = dict(k='name', t=spec, lv=p['lv'])
            elif spec in ('iarray', 'rarray', 'barray'):
                t = {'iarray': 'integer', 'rarray': 'real', 'barray': 'boolean'}[spec]
                c = self.vis(up, lambda i: i['k'] == 'arr' and (i['t'] == t))
                if not c:
                    continue
                p['b'] = s.choice(c)[1]['b']
                p['val'] = s.p(45) and len(p['b']) <= 5
                sc[pn] = dict(k='arr', t=t, b=p['b'])
            elif spec in ('procedure', 'iproc', 'rproc', 'bproc'):
                rr = {'procedure': None, 'iproc': 'integer', 'rproc': 'real', 'bproc': 'boolean'}[spec]
                c = self.vis(up, lambda i: i['k'] in ('proc', 'fproc') and i['r'] == rr)
                if not c:
                    continue
                i = s.choice(c)[1]
                p['sig'] = sig(i)
                sc[pn] = dict(k='fproc', r=rr, params=i['params'])
            elif spec == 'label':
                sc[pn] = dict(k='label')
            elif spec == 'switch':
                c = self.vis(up, lambda i: i['k'] == 'switch')
                if not c:
                    continue
                p['n'] = min(i['n'] for _, i in c)
                sc[pn] = dict(k='switch', n=p['n'])
            elif spec == 'string':
                sc[pn] = dict(k='string')
            params.append((pn, spec, p['val']))
            pinfo.append(p)
        info = dict(k='proc', r=r, params=pinfo)
        stm = None
        selfinfo = dict(info, callable=False)
        for i in sc.values():
            i['formal'] = True
        psc = Scope(up, True)
        psc.d.update(sc)
        psc.d[name] = selfinfo
        if rec:
            def stm(bsc):
                # guarded self call, arguments taken from the scope of the body
                acts = []
                for (pn, sp, v), p in zip(params, pinfo):
                    if p.get('rec'):
                        acts.append(('e', ('bin', '-', ('var', 'n'), num(1))))
                    else:
                        a = self.actual(bsc, p, 1)
                        if a is None:
                            return []
                        acts.append(a)
                if r is None or s.p(25):
                    st = ('call', name, acts)
                else:
                    tv = [n for n, i in self.vis(bsc, lambda i: i['k'] == 'var' and i['t'] == r)]
                    if tv:
                        st = ('asg', [('var', s.choice(tv))], ('call', name, acts))
                    else:
                        st = ('comp', [('print', [('call', name, acts)]), ('nlcr',)])
                return [('if', ('bin', '>', ('var', 'n'), num(0)), st, None)]
        # the body: a block, or a single statement
        if r:
            self.funcs.append((name, r, selfinfo))
        if not rec and s.p(25):
            if r:
                body = ('asg', [('var', name)], self.expr(psc, r, 2))
            else:
                body = self.stmt(psc, 0, None, None)
        else:
            body = self.block(psc, max(0, depth), fname=name if r else None, ftype=r, stmts=stm, proc=True)
        if r:
            self.funcs.pop()
        up.d[name] = info
        return ('proc', r, name, params, body)

    # ------------------------------------------------------------ statements
    def stmt(self, sc, d, fname=None, ftype=None):
        s = self.s
        o = self.o
        self.size += 1
        ws = [(o['w_print'], 'print'), (o['w_asg'], 'asg'), (o['w_multi'], 'multi'), (o['w_call'], 'call')]
        if d > 0:
            ws += [(o['w_if'], 'if'), (o['w_comp'], 'comp'), (o['w_for'], 'for'), (o['w_block'], 'block')]
        if o['w_goto']:
            ws.append((o['w_goto'], 'goto'))
        if self.funcs and not fname and s.p(40):
            # in an inner block or loop of a function, or in a procedure within it
            n, r, info = s.choice(self.funcs)
            if sc.all().get(n) is info:
                fname, ftype = n, r
                self.inner_f = getattr(self, 'inner_f', 0) + 1
        if fname:
            ws.append((4, 'fasg'))
        k = s.weighted(ws)
        if k == 'print':
            n = s.weighted([(60, 1), (30, 2), (10, 3)])
            es = [self.expr(sc, s.choice(['integer', 'real', 'integer', 'boolean'])) for _ in range(n)]
            c = self.vis(sc, lambda i: i['k'] == 'string')
            if c and s.p(40):
                return ('call', 'PRINTTEXT', [('s', s.choice(c)[0])])
            return ('comp', [('print', es), ('nlcr',)])
        if k == 'asg':
            return self.asg(sc)
        if k == 'multi':
            t = s.choice(['integer', 'real', 'boolean'])
            lv = self.lvalues(sc, t)
            if len(lv) >= 2:
                n = s.rint(2, 3)
                return ('asg', [s.choice(lv) for _ in range(n)], self.expr(sc, t))
            return self.asg(sc)
        if k == 'fasg':
            lv = self.lvalues(sc, ftype)
            if lv and s.p(30):
                # multiple assignment, to the function as well
                ts = [('var', fname)] + [s.choice(lv) for _ in range(s.rint(1, 2))]
                return ('asg', s.shuffle(ts), self.fvalue(sc, ftype))
            return ('asg', [('var', fname)], self.fvalue(sc, ftype))
        if k == 'if':
            return ('if', self.bexpr(sc, 2, None), self.stmt(sc, d - 1, fname, ftype),
                    self.stmt(sc, d - 1, fname, ftype) if s.p(55) else None)
        if k == 'comp':
            return ('comp', [self.stmt(sc, d - 1, fname, ftype) for _ in range(s.rint(1, 3))])
        if k == 'block':
            if self.blocklevel > 12:
                return self.asg(sc)
            return self.block(sc, d - 1)
        if k == 'for':
            r = self.for_(sc, d)
            if r:
                return r
            return self.asg(sc)
        if k == 'call':
            ps = self.vis(sc, lambda i: i['k'] in ('proc', 'fproc') and i.get('callable', True) and (i['r'] is None or self.s is None or True))
            ps = [(n, i) for n, i in ps if i['r'] is None or s.p(30)]
            if ps:
                n, i = s.choice(ps)
                acts = self.actuals(sc, i, 2)
                if acts is not None:
                    return ('call', n, acts)
            return self.asg(sc)
        if k == 'goto':
            g = self.goto(sc)
            if g:
                return ('if', self.bexpr(sc, 2, None), g, None)
            return self.asg(sc)
        raise ValueError(k)

    def goto(self, sc):
        s = self.s
        c = self.vis(sc, lambda i: i['k'] == 'label')
        sw = self.vis(sc, lambda i: i['k'] == 'switch')
        if sw and s.p(40):
            n, i = s.choice(sw)
            e = num(s.rint(1, i['n']))
            return ('goto', ('sw', n, e))
        if not c:
            return None
        if len(c) >= 2 and s.p(20):
            return ('goto', ('ifd', self.bexpr(sc, 1, None), ('lab', s.choice(c)[0]), ('lab', s.choice(c)[0])))
        return ('goto', ('lab', s.choice(c)[0]))

    def asg(self, sc):
        s = self.s
        t = s.weighted([(45, 'integer'), (self.o['real'], 'real'), (self.o['boolean'], 'boolean')])
        if s.p(25):
            e = self.elem(sc, t, 2, None)
            if e:
                return ('asg', [e], self.rhs(sc, t))
        lv = self.lvalues(sc, t)
        if not lv:
            return ('comp', [('print', [self.expr(sc, t)]), ('nlcr',)])
        return ('asg', [s.choice(lv)], self.rhs(sc, t))

    def rhs(self, sc, t):
        if t == 'integer' and self.s.p(15):
            t = 'real'          # transfer function on assignment
        elif t == 'real' and self.s.p(25):
            t = 'integer'
        return self.expr(sc, t)

    def for_(self, sc, d):
        s = self.s
        ctl = self.vis(sc, lambda i: i['k'] == 'ctl')
        # only a control variable of the same procedure body, and not hidden
        if not ctl:
            return None
        n, info = s.choice(ctl)
        els = []
        lo, hi = 10**9, -10**9
        for _ in range(s.weighted([(75, 1), (18, 2), (7, 3)])):
            k = s.weighted([(65, 'st'), (20, 'e'), (15, 'wh')])
            if k == 'st':
                a = s.rint(-2, 5)
                cnt = s.rint(0, 4) - (1 if s.p(10) else 0)
                step = s.choice([1, 1, 1, 2, -1, -2, 3])
                c = a + step * cnt + (s.draw(abs(step)) * (1 if step > 0 else -1))
                els.append(('st', intx(a), intx(step), self.const_expr(sc, c, n)))
                if cnt >= 0:
                    lo, hi = min(lo, a, c), max(hi, a, c)
            elif k == 'e':
                v = s.rint(-2, 8)
                els.append(('e', intx(v)))
                lo, hi = min(lo, v), max(hi, v)
            else:
                a = s.rint(0, 3)
                lim = s.rint(1, 9)
                if els and s.p(50):
                    # e.g.  1, i + 1 while i < 7
                    els.append(('e', intx(a)))
                    els.append(('wh', ('bin', '+', ('var', n), num(s.rint(1, 3))), ('bin', '<', ('var', n), num(lim))))
                    lo, hi = min(lo, a), max(hi, lim + 3)
                else:
                    bv = [x for x, i in self.vis(sc, lambda i: i['k'] == 'var' and i['t'] == 'boolean')]
                    if not bv:
                        els.append(('e', intx(a)))
                        lo, hi = min(lo, a), max(hi, a)
                    else:
                        b = s.choice(bv)
                        els.append(('wh', intx(a), ('bin', '∧', ('var', b), ('bin', '<', ('var', n), num(lim)))))
                        lo, hi = min(lo, a), max(hi, a)
                        body = ('comp', [('asg', [('var', b)], ('bool', False)), self.body(sc, n, lo, hi, d)])
                        return ('for', ('var', n), els, body)
        return ('for', ('var', n), els, self.body(sc, n, lo, hi, d))

    def body(self, sc, n, lo, hi, d):
        inner = Scope(sc)
        inner.d[n] = dict(k='loop', t='integer', lo=lo, hi=hi, prot=True)
        return self.stmt(inner, d - 1)

    def const_expr(self, sc, v, avoid):
        """an expression whose value is v on the first evaluation at least"""
        s = self.s
        if s.p(75):
            return intx(v)
        a = s.rint(0, 4)
        return ('bin', '+', intx(v - a), num(a))


def sig(i):
    """structural signature of a procedure's parameters"""
    def f(p):
        return (p['spec'], p['val'], bool(p.get('lv')), p.get('sig'), repr(p.get('b')), p.get('n'), bool(p.get('rec')))
    return (i['r'], tuple(f(p) for p in i['params']))
