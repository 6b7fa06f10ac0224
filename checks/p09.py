"""P09: arrays against a map model (the reference interpreter's dictionary of elements)"""
from checks.common import *
from fractions import Fraction

TN = {'integer': 'i', 'real': 'r', 'boolean': 'b'}
SPEC = {'integer': 'iarray', 'real': 'rarray', 'boolean': 'barray'}


def num(n):
    return G.intx(n)


class H:
    """builds one program"""

    def __init__(self, s):
        self.s = s
        self.n = 0
        self.words = 0
        self.keys = set()
        self.labels = set()

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    # -------- shapes
    def bounds(self, static):
        s = self.s
        nd = s.weighted([(40, 1), (30, 2), (14, 3), (7, 4), (5, 5), (2, 6), (2, 7), (2, 8)])
        if nd == 8:
            nd = s.rint(8, 20)
        if nd == 1 and s.p(8):
            w = s.rint(100, 900)
            widths = [w]
        else:
            cap = {1: 40, 2: 8, 3: 5, 4: 3, 5: 3}.get(nd, 2)
            widths = [s.rint(1, cap) if k < 7 else 1 for k in range(nd)]
            if nd > 7:
                widths = s.shuffle(widths)
        b = []
        for w in widths:
            k = s.draw(7)
            if k == 0:
                lo = 1
            elif k == 1:
                lo = 0
            elif k == 2:
                lo = -s.rint(1, 12)
            elif k == 3:
                lo = s.rint(2, 50)
            elif k == 4:
                lo = s.choice([1000, 8191, 32767, 32768, 99999, 1000000]) * s.choice([1, -1])
            elif k == 5:
                lo = -w - s.rint(0, 3)
            else:
                lo = -(w // 2)
            if abs(lo) > 100000:
                self.labels.add('huge bounds')
            b.append((lo, lo + w - 1))
        # documented capacity: the zero-index offset of an array is kept in 26 bits
        def off(b):
            st, o = 2, 0
            for lo, hi in b:
                o += abs(lo) * st
                st *= hi - lo + 1
            return o
        while off(b) >= (1 << 25) - 10:
            k = max(range(len(b)), key=lambda i: abs(b[i][0]))
            b[k] = (1, b[k][1] - b[k][0] + 1)
        if any(lo < 0 for lo, hi in b):
            self.labels.add('negative bounds')
        self.labels.add('dims %d' % nd)
        return b

    def bexprs(self, b, vars_):
        """bound expressions: literals, or expressions over known integer variables"""
        s = self.s
        r = []
        for lo, hi in b:
            es = []
            for v in (lo, hi):
                if vars_ and s.p(70):
                    n, val = s.choice(vars_)
                    d = v - val
                    es.append(('bin', '+', ('var', n), num(d)) if d >= 0 else ('bin', '-', ('var', n), num(-d)))
                elif v >= 0 and s.p(12):
                    self.labels.add('signed bounds')
                    es.append(('pos', num(v)) if v or s.p(50) else ('neg', num(0)))
                else:
                    es.append(num(v))
            r.append(tuple(es))
        return r

    # -------- expressions
    def value(self, t):
        s = self.s
        if t == 'boolean':
            return ('bool', s.p(50))
        if t == 'integer' and s.p(80) or t == 'real' and s.p(20):
            return num(s.rint(-999, 9999))
        return G.real_lit('%d.%s' % (s.rint(0, 500), s.choice(['5', '25', '75', '125', '0625'])))

    def subs(self, b, vec=None, ivars=()):
        s = self.s
        out = []
        if vec is None:
            vec = [s.choice([lo, hi]) if s.p(35) else s.rint(lo, hi) for lo, hi in b]
        for v in vec:
            k = s.draw(6)
            if k == 0 and abs(v) < 60000:
                q = s.choice(['.25', '.375', '.125', '.4375'])
                if v > 0 and s.p(50):
                    # rounded up
                    e = G.real_lit('%d%s' % (v - 1, {'.25': '.75', '.375': '.625', '.125': '.875', '.4375': '.5'}[q]))
                elif v >= 0:
                    e = G.real_lit('%d%s' % (v, q)) if v or True else None
                else:
                    e = ('neg', G.real_lit('%d%s' % (-v, q)))
                self.labels.add('real subscript')
                out.append(e)
            elif k in (1, 2) and ivars:
                n, val = s.choice(ivars)
                d = v - val
                out.append(('bin', '+', ('var', n), num(d)) if d >= 0 else ('bin', '-', ('var', n), num(-d)))
            else:
                out.append(num(v))
        return out

    def outside(self, b):
        """subscripts whose place lies outside the whole array"""
        s = self.s
        st, size, base = [], 1, 0
        for lo, hi in b:
            st.append(size)
            size *= hi - lo + 1
        # linear position to aim at
        lin = s.choice([-1, size, size + s.rint(1, 50), -s.rint(1, 50), size * 3, -size, 10000, 1000000, -1000000])
        vec = []
        for k in range(len(b) - 1, -1, -1):
            if k == 0:
                q, lin2 = lin, 0
            else:
                q = lin // st[k]
                lin2 = lin - q * st[k]
            vec.insert(0, b[k][0] + q)
            lin = lin2
        return vec

    # -------- statements
    def out(self, e):
        return ('comp', [('print', [e]), ('nlcr',)])

    def idxvars(self, b):
        return ['i%d' % (k + 1) for k in range(len(b))]

    def sweep(self, b, inner):
        st = inner
        order = list(range(len(b)))
        if self.s.p(50):
            order.reverse()
        for k in order:
            lo, hi = b[k]
            v = ('var', 'i%d' % (k + 1))
            if self.s.p(25):
                el = ('st', num(hi), num(-1), num(lo))
            else:
                el = ('st', num(lo), num(1), num(hi))
            st = ('for', v, [el], st)
        return st

    def code(self, b, mul, add):
        """expression over i1.. giving a value distinct for every element"""
        e = num(add)
        size = 1
        for k, (lo, hi) in enumerate(b):
            iv = ('var', 'i%d' % (k + 1))
            off = ('bin', '-', iv, num(lo)) if lo > 0 else (('bin', '+', iv, num(-lo)) if lo < 0 else iv)
            e = ('bin', '+', e, ('bin', '×', off, num(size * mul)))
            size *= hi - lo + 1
        return e

    def history(self, arrs, ivars, n, filled):
        """arrs: {name: (type, bounds)}; filled: set of names wholly initialised"""
        s = self.s
        sts = []
        known = {}
        for _ in range(n):
            a = s.choice(sorted(arrs))
            t, b = arrs[a]
            k = s.draw(10)
            if k <= 2 or a not in filled and k in (5, 6, 7):
                sb = self.subs(b, None, ivars)
                ref = ('sub', a, sb)
                sts.append(('asg', [ref], self.value(t)))
                sts.append(self.out(ref))
                self.keys.add((a, 'w', repr(sb)))
            elif k == 3:
                # fill everything
                if t == 'boolean':
                    c = self.code(b, 1, 0)
                    e = ('bin', '=', ('bin', '×', ('bin', '÷', c, num(3)), num(3)), c)
                else:
                    e = self.code(b, s.choice([1, 2, 3]), s.rint(-20, 50))
                    if t == 'real' and s.p(50):
                        e = ('bin', '/', e, num(4))
                sts.append(self.sweep(b, ('asg', [('sub', a, [('var', v) for v in self.idxvars(b)])], e)))
                filled.add(a)
                self.labels.add('sweep')
            elif k == 4:
                # two targets
                others = [x for x in sorted(arrs) if arrs[x][0] == t]
                x = s.choice(others)
                r1 = ('sub', a, self.subs(b, None, ivars))
                r2 = ('sub', x, self.subs(arrs[x][1], None, ivars))
                sts.append(('asg', [r1, r2], self.value(t)))
                sts.append(self.out(r1))
                sts.append(self.out(r2))
            elif k in (5, 6) :
                # read any elements
                for _ in range(s.rint(1, 4)):
                    sb = self.subs(b, None, ivars)
                    sts.append(self.out(('sub', a, sb)))
                    self.keys.add((a, 'r', repr(sb)))
            elif k == 7:
                # weighted checksum of everything
                el = ('sub', a, [('var', v) for v in self.idxvars(b)])
                if t == 'boolean':
                    el = ('if', el, num(1), num(0))
                w = ('var', 'wt')
                sts.append(('asg', [('var', 'sum')], num(0)))
                sts.append(('asg', [w], num(0)))
                sts.append(self.sweep(b, ('comp', [
                    ('asg', [w], ('if', ('bin', '>', w, num(30)), num(1), ('bin', '+', w, num(1)))),
                    ('asg', [('var', 'sum')], ('bin', '+', ('var', 'sum'), ('bin', '×', el, w)))])))
                sts.append(self.out(('var', 'sum')))
                self.labels.add('checksum')
            elif k == 8:
                # an element as the subscript of another
                ints = [x for x in sorted(arrs) if arrs[x][0] == 'integer']
                if ints:
                    x = s.choice(ints)
                    r1 = ('sub', x, self.subs(arrs[x][1], None, ivars))
                    vec = [s.rint(lo, hi) for lo, hi in b]
                    j = s.draw(len(b))
                    sb = self.subs(b, vec, ivars)
                    sb[j] = r1
                    sts.append(('asg', [r1], num(vec[j])))
                    ref = ('sub', a, sb)
                    if a == x:
                        sts.append(('asg', [('var', 'it')], r1))
                    sts.append(('asg', [('sub', a, self.subs(b, vec, ()))], self.value(t)) if a != x else ('nop',))
                    sts.append(self.out(ref) if a != x else self.out(r1))
                    self.labels.add('nested subscript')
            else:
                # an element in arithmetic with itself
                if t != 'boolean':
                    ref = ('sub', a, self.subs(b, None, ivars))
                    sts.append(('asg', [ref], self.value(t)))
                    sts.append(('asg', [ref], ('bin', s.choice(['+', '-', '×']), ref, num(s.rint(0, 9)))))
                    sts.append(self.out(ref))
        return [x for x in sts if x != ('nop',)]

    def declare(self, prefix, n, static, vars_, own=False):
        s = self.s
        decls, arrs = [], {}
        for _ in range(n):
            t = s.choice(['integer', 'real', 'boolean', 'integer', 'real'])
            segs = []
            for _ in range(s.weighted([(70, 1), (30, 2)])):
                b = self.bounds(static)
                size = 1
                for lo, hi in b:
                    size *= hi - lo + 1
                names = [self.name(prefix) for _ in range(s.weighted([(65, 1), (25, 2), (10, 3)]))]
                need = size * len(names) * (2 if t == 'real' else 1)
                if static and self.words + need > 5500:
                    continue
                if static:
                    self.words += need
                segs.append((names, self.bexprs(b, () if static else vars_)))
                for x in names:
                    arrs[x] = (t, b)
            if segs:
                decls.append(('array', t, own, segs) + (('',) if t == 'real' and not own and s.p(40) else ()))
        return decls, arrs

    def bad(self, arrs, ivars):
        """a statement that must be reported"""
        s = self.s
        a = s.choice(sorted(arrs))
        t, b = arrs[a]
        if s.p(75):
            sb = self.subs(b, self.outside(b), ivars)
            self.labels.add('outside')
        else:
            sb = self.subs(b, None, ivars)
            if len(sb) > 1 and s.p(50):
                sb = sb[:-1]
            else:
                sb = sb + [num(s.rint(-3, 3))] * s.rint(1, 2)
            self.labels.add('wrong number of subscripts')
        ref = ('sub', a, sb)
        return ('asg', [ref], self.value(t)) if s.p(50) else self.out(ref)

    def program(self):
        s = self.s
        ivars = []
        decls = [('vars', 'integer', False, ['i%d' % k for k in range(1, 21)] + ['wt', 'it']), ('vars', 'real', False, ['sum'])]
        body = []
        gv = [('p%d' % k, s.rint(-5, 9)) for k in range(2)]
        decls.append(('vars', 'integer', False, [n for n, v in gv]))
        guard = ['x1', 'x2']
        decls.append(('vars', 'integer', False, ['gx1']))
        d1, arrs = self.declare('a', s.rint(1, 3), True, ())
        decls += d1
        decls.append(('vars', 'real', False, ['gx2']))
        body += [('asg', [('var', n)], num(v)) for n, v in gv]
        body += [('asg', [('var', 'gx1')], num(12321)), ('asg', [('var', 'gx2')], G.real_lit('62.5'))]
        filled = set()
        err = s.p(40)
        place = s.draw(5)
        body += self.history(arrs, gv, s.rint(1, 6), filled)
        # a procedure with array parameters, called on outer arrays
        procs = []
        if arrs and s.p(60):
            a = s.choice(sorted(arrs))
            t, b = arrs[a]
            same = [x for x in sorted(arrs) if arrs[x] == (t, b)]
            np_ = s.rint(1, 3)
            params = []
            parr = {}
            acts = []
            vals = []
            for k in range(np_):
                isval = s.p(45) and len(b) <= 5
                pn = 'fa%d' % k
                pt = t
                if isval and t != 'boolean' and s.p(40):
                    pt = 'real' if t == 'integer' else 'integer'
                    self.labels.add('value array conversion')
                params.append((pn, SPEC[pt], isval))
                parr[pn] = (pt, b)
                x = s.choice(same)
                acts.append(('a', x))
                vals.append(x)
                if isval:
                    self.labels.add('value array')
            pf = set(p[0] for p in params)        # all filled: the caller fills first
            ld, larr = self.declare('l', s.rint(0, 2), False, gv)
            allarr = dict(parr)
            allarr.update(larr)
            lown, loarr = self.declare('o', s.rint(0, 1), True, (), own=True)
            if loarr:
                self.labels.add('own array')
                allarr.update(loarr)
                pf |= set(loarr)          # own arrays start as zeros
            pv = list(gv) + [('n', 2)]
            pst = self.history(allarr, pv, s.rint(2, 7), pf)
            if err and place == 3:
                pst.append(self.bad(allarr, pv))
            procs.append(('proc', None, 'pa', [('n', 'integer', True)] + params, ('block', ld + lown, pst)))
            # fill actuals
            for x in sorted(set(vals)):
                t2, b2 = arrs[x]
                e = self.code(b2, 1, s.rint(0, 9))
                if t2 == 'boolean':
                    e = ('bin', '<', e, num(5))
                body.append(self.sweep(b2, ('asg', [('sub', x, [('var', v) for v in self.idxvars(b2)])], e)))
                filled.add(x)
            for _ in range(s.rint(1, 2)):
                body.append(('call', 'pa', [('e', num(2))] + acts))
            body += self.history(arrs, gv, s.rint(1, 4), filled)
        # recursion with a local array whose bounds depend on the depth
        if s.p(35):
            self.labels.add('recursive local array')
            t = s.choice(['integer', 'real'])
            lo, w = s.rint(-3, 3), s.rint(0, 3)
            el = ('sub', 'lr', [('var', 'j')])
            lob = ('bin', '+', ('var', 'n'), num(lo)) if lo >= 0 else ('bin', '-', ('var', 'n'), num(-lo))
            hib = ('bin', '+', ('bin', '×', ('var', 'n'), num(2)), num(lo + w)) if lo + w >= 0 else ('bin', '-', ('bin', '×', ('var', 'n'), num(2)), num(-lo - w))
            body2 = [('for', ('var', 'j'), [('st', lob, num(1), hib)], ('asg', [el], ('bin', '+', ('bin', '×', ('var', 'n'), num(100)), ('var', 'j')))),
                     ('if', ('bin', '>', ('var', 'n'), num(0)), ('call', 'rec', [('e', ('bin', '-', ('var', 'n'), num(1)))]), None),
                     ('for', ('var', 'j'), [('st', lob, num(1), hib)], ('print', [el])), ('nlcr',)]
            procs.append(('proc', None, 'rec', [('n', 'integer', True)],
                          ('block', [('vars', 'integer', False, ['j']), ('array', t, False, [(['lr'], [(lob, hib)])])], body2)))
            body.append(('call', 'rec', [('e', num(s.rint(1, 4)))]))
        # an inner block with dynamic bounds
        if s.p(65):
            ld, larr = self.declare('b', s.rint(1, 3), False, gv)
            if larr:
                allarr = dict(arrs)
                allarr.update(larr)
                f2 = set(filled)
                st = self.history(allarr, gv, s.rint(2, 8), f2)
                if err and place == 4:
                    st.append(self.bad(larr, gv))
                blk = ('block', ld, st)
                if s.p(30):
                    blk = ('for', ('var', 'it'), [('st', num(1), num(1), num(s.rint(1, 3)))], blk)
                    if any('nested subscript' in self.labels for _ in (0,)):
                        blk = blk[3]
                body.append(blk)
                self.labels.add('dynamic')
        if arrs:
            body += self.history(arrs, gv, s.rint(0, 3), filled)
        body.append(('print', [('var', 'gx1'), ('var', 'gx2')] + [('var', n) for n, v in gv]))
        body.append(('nlcr',))
        if err:
            if s.p(15):
                # bounds in the wrong order
                lo = s.rint(-5, 20)
                hi = lo - s.rint(2, 9)
                t = s.choice(['integer', 'real'])
                b = self.bexprs([(lo, hi)], [gv[0]])
                if not any('var' in repr(x) for x in b):
                    b = [(('bin', '+', ('var', 'p0'), num(lo)), ('bin', '-', ('bin', '+', ('var', 'p0'), num(lo)), num(lo - hi)))]
                body.append(('block', [('array', t, False, [(['zz'], b)])], [self.out(num(1))]))
                self.labels.add('wrong bounds')
            elif arrs:
                body.append(self.bad(arrs, gv))
            body.append(self.out(num(77)))
        return ('block', decls + procs, body)


def case(ctx, s):
    h = H(s)
    block = h.program()
    it = A.Interp(max_steps=60000)
    it.max_array = 100000
    it.strict_bounds = True
    try:
        out, err = it.run(block)
    except A.Ambiguous as e:
        raise Discard('ambiguous: ' + str(e))
    except A.TooLong:
        raise Discard('too long')
    text = A.Printer().program(block)
    if len(text) > 30000:
        raise Discard('too big')
    expect_run(ctx, text, out, err)
    return dict(nontrivial=len(h.keys) > 0, key=text, labels=sorted(h.labels) + (['error ' + err] if err else []),
                sample=dict(program=text[:3000], stdout=out[:300], error=err))


def case_none(ctx, s):
    """an array one of whose upper bounds lies below the lower one"""
    lab = set()
    nd = s.weighted([(4, 1), (4, 2), (2, 3), (1, 4)])
    bad = s.draw(nd)
    bs = []
    for k in range(nd):
        lo = s.choice([1, 0, -s.rint(1, 30), s.rint(2, 900), s.rint(-60000, 60000)])
        w = s.rint(1, 6)
        if k == bad or s.p(8):
            w = s.choice([0, 0, 0, -1, -1, -s.rint(2, 40), -s.rint(1, 60000)])
        bs.append((lo, lo + w - 1))
    empty = min(hi - lo + 1 for lo, hi in bs) == 0
    lab.add('%d dimensions' % nd)
    lab.add('no element' if empty else 'less than none')
    num = lambda v: str(v) if v >= 0 else '-%d' % -v
    place = s.choice(['block', 'procedure', 'for', 'outer', 'own'])
    lab.add(place)
    ty = s.choice(['integer', 'real', 'boolean'])
    names = ['a'] + ['b'] * s.p(30)
    if s.p(30):
        names.reverse()
    static = place in ('outer', 'own')
    if static or s.p(30):
        dim = ','.join('%s:%s' % (num(a), num(b)) for a, b in bs)
        # constant bounds
        if not static:
            dim = dim.replace(':', '+z:', 1)
    else:
        dim = ','.join('%s:%s' % tuple(s.choice(['%s+z', 'z+%s', '%s-z', '%s']) % (num(v) if v >= 0 else '(%s)' % num(v)) for v in p) for p in bs)
        if 'z' not in dim:
            dim = dim.replace(':', '+z:', 1)
    more = ', c[1:3]' if s.p(30) else ''
    first = 'c[1:3], ' if s.p(20) else ''
    decl = '%s array %s%s[%s]%s' % (ty, first, ','.join(names), dim, more if not first else '')
    sub = ','.join(num(s.choice([lo, hi])) for lo, hi in bs)
    use = 'a[%s] := %s; print(a[%s]); NLCR' % (sub, 'true' if ty == 'boolean' else '5', sub)
    if place == 'outer':
        text = 'begin integer z; %s; z := 0; print(7); NLCR; %s end' % (decl, use)
    elif place == 'own':
        text = 'begin integer z; z := 0; print(7); NLCR; begin own %s; print(8); NLCR; %s end end' % (decl, use)
    elif place == 'block':
        text = 'begin integer z; z := 0; print(7); NLCR; begin %s; print(8); NLCR; %s end; print(9) end' % (decl, use)
    elif place == 'procedure':
        text = 'begin integer z; procedure p(z); value z; integer z; begin %s; print(8); NLCR; %s end; z := 0; print(7); NLCR; p(z); print(9) end' % (decl, use)
    else:
        text = 'begin integer z, k; z := 0; print(7); NLCR; for k := 1 step 1 until 3 do begin %s; print(8); NLCR; %s end; print(9) end' % (decl, use)
    text = kwtext(text) + '\n'
    r = ctx.run_a60(text)
    d = dict(program=text, observed=r.brief())
    c = crash_text(r)
    if c or r.timeout:
        raise Fail('crashed or does not stop: %s' % c, **d)
    got = r.out.decode('utf8', 'replace')
    # constant bounds may be refused by the compiler; an array of no element may be declared there as long as it is not used
    want = ['7\n'] if not static else ['', '7\n'] if place == 'outer' else ['', '7\n', '7\n8\n']
    if r.rc == 0 or not r.err or got not in want:
        raise Fail('an array with bounds %s is declared and used without a report at the right place (printed %r)' % (dim, got), **d)
    return dict(nontrivial=True, key=text, labels=sorted(lab), sample=dict(program=text))


CHECK = Check('P09', [
    Sub('histories', case, 8000, 150000, 'programs with at least one element written or read outside a sweep'),
    Sub('nonexistent', case_none, 1200, 20000, 'different arrays with an upper bound below the lower one'),
])
