"""P10: goto, labels, switches"""
from checks.common import *
from checks.common import program_case


def V(n):
    return ('var', n)


def I(n):
    return G.intx(n)


def op(o, a, b):
    return ('bin', o, a, b)


def out(*es):
    return ('comp', [('print', list(es)), ('nlcr',)])


class Machine:
    """States are labelled statements; each one logs itself, steps x and leaves in one of many ways.  The machine may sit in the
    outer block, in an inner block, or in a recursive procedure whose instances pass labels to each other."""

    def __init__(self, s):
        self.s = s
        self.lab = set()
        self.k = 0

    def idx(self, n):
        """x mod n + 1 (x >= 0)"""
        x = V('x')
        return op('+', op('-', x, op('×', op('÷', x, I(n)), I(n))), I(1))

    def cond(self):
        s = self.s
        m = s.rint(2, 5)
        x = V('x')
        return op(s.choice(['=', '<', '≠', '>']), op('-', x, op('×', op('÷', x, I(m)), I(m))), I(s.draw(m)))

    def dest(self, d=2):
        """designational expression"""
        s = self.s
        k = s.draw(8)
        if k <= 2 or d <= 0:
            return ('lab', s.choice(self.labels))
        if k <= 5 and self.switches:
            n, size = s.choice(self.switches)
            self.lab.add('switch')
            if s.p(25):
                return ('sw', n, I(s.rint(1, size)))
            return ('sw', n, self.idx(size))
        self.lab.add('conditional designator')
        return ('ifd', self.cond(), self.dest(d - 1), self.dest(d - 1))

    def leave(self, in_proc):
        """a statement that (usually) jumps"""
        s = self.s
        k = s.draw(14)
        g = ('goto', self.dest())
        self.k += 1
        if k <= 1:
            return g
        if k == 2:
            self.lab.add('out of block')
            t = 'lv%d' % self.k
            return ('block', [('vars', 'integer', False, [t]), ('array', 'integer', False, [(['la'], [(I(0), V('three'))])])],
                    [('asg', [V(t), ('sub', 'la', [I(2)])], op('+', V('x'), I(s.rint(1, 9)))), out(V(t), ('sub', 'la', [I(2)])), g])
        if k == 3:
            self.lab.add('out of loop')
            lim = s.rint(1, 4)
            return ('for', V('i'), [('st', I(1), I(1), I(6))],
                    ('comp', [out(V('i')), ('if', op('>', V('i'), I(lim)), g, None)]))
        if k == 4:
            self.lab.add('label parameter')
            return ('call', 'viaLabel', [('e', I(s.draw(4))), ('l', s.choice(self.labels))])
        if k == 5 and self.switches:
            self.lab.add('switch parameter')
            n, size = s.choice(self.switches)
            return ('call', 'viaSwitch', [('e', self.idx(size)), ('s', n)])
        if k == 6:
            self.lab.add('out of function in expression')
            f = ('call', 'fn', [('e', op('+', V('x'), I(s.draw(3)))), ('l', s.choice(self.labels))])
            e = s.choice([op('+', op('×', V('x'), I(2)), f), op('+', f, op('×', V('x'), I(2))), ('if', op('>', f, I(3)), I(1), V('x'))])
            return s.choice([out(e), ('asg', [V('y')], e), ('asg', [('sub', 'ga', [op('+', op('-', f, f), I(1))])], e),
                             ('if', op('>', e, I(40)), out(I(1)), out(I(0)))])
        if k == 7:
            self.lab.add('out of name parameter')
            f = ('call', 'fn', [('e', V('x')), ('l', s.choice(self.labels))])
            return ('call', 'byName', [('e', op('+', f, I(s.draw(5)))), ('e', I(s.draw(3)))])
        if k == 8:
            self.lab.add('procedure parameter')
            return ('call', 'viaProc', [('p', 'viaLabel'), ('e', I(s.draw(3))), ('l', s.choice(self.labels))])
        if k == 9:
            self.lab.add('out of loop controls')
            f = ('call', 'fn', [('e', V('x')), ('l', s.choice(self.labels))])
            el = s.choice([('st', I(1), f, I(6)), ('st', f, I(1), op('+', V('x'), I(2))), ('st', I(1), I(1), op('-', f, op('-', V('x'), I(2)))), ('e', f), ('wh', f, op('>', I(0), f))])
            if el[0] == 'wh' or el[0] == 'st':
                # bounded whatever the values: leave after the third pass
                body = ('comp', [('asg', [V('y')], op('+', V('y'), I(1))), ('if', op('>', V('y'), I(3)), g, None)])
                return ('comp', [('asg', [V('y')], I(0)), ('for', V('i'), [el], body)])
            return ('for', V('i'), [el], out(V('i')))
        if k == 10 and in_proc:
            self.lab.add('outer label from instance')
            return ('if', op('>', V('n'), I(0)), ('comp', [('goto', ('lab', 'flab'))]), g)
        if k == 11 and in_proc:
            self.lab.add('recursion')
            return ('if', op('<', V('n'), I(3)), ('call', 'mach', [('e', op('+', V('n'), I(1))), ('l', s.choice(self.labels))]), None)
        if k == 12:
            self.lab.add('subscript jump')
            f = ('call', 'fn', [('e', op('-', V('x'), V('x'))), ('l', s.choice(self.labels))])
            return out(('sub', 'ga', [f]))
        return ('if', self.cond(), g, None)

    def build(self):
        s = self.s
        n = s.rint(2, 6)
        self.labels = ['S%d' % i for i in range(1, n + 1)] + ['done']
        self.switches = []
        decls_sw = []
        for j in range(s.draw(3)):
            items = []
            if s.p(12):
                # a long list: subscripts of more than 5 bits
                self.lab.add('long switch')
                for _ in range(s.rint(30, 50)):
                    items.append(('lab', s.choice(self.labels)) if s.p(90) else self.dest(1))
            else:
                for _ in range(s.rint(1, 5)):
                    items.append(self.dest(1))
            nm = 'sw%d' % j
            decls_sw.append(('switch', nm, items))
            self.switches.append((nm, len(items)))
        in_proc = s.p(45)
        limit = s.rint(4, 25)
        step = [('asg', [V('cnt')], op('+', V('cnt'), I(1))),
                ('if', op('>', V('cnt'), I(limit)), ('goto', ('lab', 'done')), None)]
        m = s.choice([17, 31, 64, 101])
        a = s.rint(2, 7)
        c = s.rint(1, 30)
        sts = []
        nx = lambda: ('asg', [V('x')], op('-', op('+', op('×', V('x'), I(a)), I(c)), op('×', op('÷', op('+', op('×', V('x'), I(a)), I(c)), I(m)), I(m))))
        for i in range(1, n + 1):
            body = [('print', [I(i), V('x')] + ([V('n'), V('loc')] if in_proc and s.p(60) else [])), ('nlcr',)] + step + [nx()]
            if in_proc and s.p(50):
                body.append(('asg', [V('loc')], op('+', V('loc'), I(i))))
            for _ in range(s.rint(1, 3)):
                body.append(self.leave(in_proc))
            st = ('comp', body)
            if s.p(15):
                st = ('lab', 'T%d' % i, st)      # two labels
                self.labels.append('T%d' % i) if False else None
            sts.append(('lab', 'S%d' % i, st))
        # the helpers see x but none of the labels
        helpers = [
            ('proc', None, 'viaLabel', [('d', 'integer', True), ('lb', 'label', False)],
             ('block', [('vars', 'integer', False, ['q'])], [('asg', [V('q')], op('+', V('d'), I(1))),
              ('if', op('=', V('d'), I(0)), ('goto', ('lab', 'lb')), ('call', 'viaLabel', [('e', op('-', V('d'), I(1))), ('l', 'lb')])), out(V('q'))])),
            ('proc', None, 'viaSwitch', [('d', 'integer', False), ('ss', 'switch', False)],
             ('block', [('array', 'real', False, [(['w'], [(I(1), V('d'))])])], [('goto', ('sw', 'ss', V('d')))])),
            ('proc', 'integer', 'fn', [('d', 'integer', False), ('lb', 'label', False)],
             ('block', [('vars', 'integer', False, ['q'])],
              [('asg', [V('q')], op('-', V('d'), op('×', op('÷', V('d'), I(3)), I(3)))), ('asg', [V('fn')], op('+', V('q'), I(1))),
               ('if', op('=', V('q'), I(s.draw(3))), ('goto', ('lab', 'lb')), None)])),
            ('proc', None, 'byName', [('e', 'integer', False), ('d', 'integer', True)],
             ('block', [('vars', 'integer', False, ['q'])],
              [('if', op('>', V('d'), I(0)), ('call', 'byName', [('e', op('+', V('e'), I(1))), ('e', op('-', V('d'), I(1)))]),
                ('comp', [('asg', [V('q')], V('e')), out(V('q'), V('e'))]))])),
            ('proc', None, 'viaProc', [('pp', 'procedure', False), ('d', 'integer', True), ('lb', 'label', False)],
             ('comp', [('call', 'pp', [('e', V('d')), ('l', 'lb')])])),
        ]
        glob = [('vars', 'integer', False, ['x', 'y', 'cnt', 'i', 'three', 'g1']), ('array', 'integer', False, [(['ga'], [(I(0), I(5))])])]
        init = [('asg', [V('x')], I(s.draw(m))), ('asg', [V('y')], I(0)), ('asg', [V('cnt')], I(0)), ('asg', [V('three')], I(3)),
                ('asg', [V('g1')], I(4711))] + [('asg', [('sub', 'ga', [I(j)])], I(j * 11)) for j in range(6)]
        fin = [out(V('x'), V('cnt'), V('g1'), ('sub', 'ga', [I(3)]))]
        end = ('lab', 'done', out(I(999), V('x')))
        if in_proc:
            self.lab.add('machine in procedure')
            # exits of instance n > 0 may go to the label of the caller
            mach = ('proc', None, 'mach', [('n', 'integer', True), ('flab', 'label', False)],
                    ('block', [('vars', 'integer', False, ['loc'])] + decls_sw,
                     [('asg', [V('loc')], op('×', V('n'), I(100)))] + sts + [end, out(V('n'), V('loc'))]))
            body = init + [('call', 'mach', [('e', I(0)), ('l', 'out1')]), out(I(1)), ('lab', 'out1', out(I(2)))] + fin
            return ('block', glob + helpers + [mach], body)
        if s.p(50):
            self.lab.add('machine in inner block')
            inner = ('block', [('vars', 'integer', False, ['loc2']), ('array', 'real', False, [(['lr'], [(I(1), V('three'))])])] + decls_sw,
                     [('asg', [V('loc2')], I(5)), ('asg', [('sub', 'lr', [I(2)])], G.real_lit('2.5'))] + sts +
                     [end, out(V('loc2'), ('sub', 'lr', [I(2)]))])
            return ('block', glob + helpers, init + [inner] + fin)
        self.lab.add('machine in outer block')
        return ('block', glob + helpers + decls_sw, init + sts + [end] + fin)


def case_machine(ctx, s):
    M = Machine(s)
    block = M.build()
    it = A.Interp(max_steps=9000)
    try:
        out_, err = it.run(block)
    except A.Ambiguous as e:
        raise Discard('ambiguous: ' + str(e))
    except A.TooLong:
        raise Discard('too long')
    text = A.Printer().program(block)
    expect_run(ctx, text, out_, err)
    return dict(nontrivial=it.count.get('goto', 0) >= 3, key=text, labels=sorted(M.lab) + sorted(k for k in it.count if k.startswith('goto') or k.startswith('error')),
                sample=dict(program=text[:3500], stdout=out_[:300], error=err))


CASE = program_case(dict(procs=(1, 2), formals=(0, 3), w_call=20, labels=75, switches=55, w_goto=16, w_back=30, arrays=(0, 1),
                         kinds=('integer', 'real', 'label', 'switch', 'procedure', 'iproc'), max_depth=4), need=lambda c: c.get('goto', 0) > 0)
class Scopes:
    """the same few label, switch and procedure names declared again and again in nested blocks, loop bodies and procedures"""
    NAMES = ['a', 'b', 'l1', 'again', 'longlabelname']

    def __init__(self, s):
        self.s = s
        self.k = 0
        self.lab = set()
        self.size = 0

    def log(self):
        self.k += 1
        return ('comp', [('print', [I(self.k)]), ('nlcr',)])

    def guard(self):
        s = self.s
        m = s.rint(2, 4)
        x = V('x')
        return op('∧', op('<', x, I(40)), op(s.choice(['=', '≠', '<']), op('-', x, op('×', op('÷', x, I(m)), I(m))), I(s.draw(m))))

    def goto(self, vis, sw):
        s = self.s
        if sw and s.p(30):
            n = s.choice(sorted(sw))
            d = ('sw', n, I(s.rint(1, sw[n])))
            self.lab.add('switch')
        else:
            d = ('lab', s.choice(vis))
        return ('if', self.guard(), ('comp', [('asg', [V('x')], op('+', V('x'), I(1))), ('goto', d)]), None)

    def scope(self, d, vis, sw, procs, kind):
        """kind: block, for or proc; returns a block"""
        s = self.s
        own = []
        for _ in range(s.weighted([(2, 0), (4, 1), (3, 2), (1, 3)])):
            n = s.choice(self.NAMES)
            if n not in own:
                own.append(n)
        vis = sorted(set(vis) | set(own))
        sw, procs = {k: v for k, v in sw.items() if k not in own}, [q for q in procs if q not in own]
        decls = []
        if kind != 'for':
            if kind == 'block' or s.p(50):
                decls.append(('vars', 'integer', False, ['q']))
            if vis and s.p(40):
                n = s.choice([x for x in ['sw', 'sx', 'a'] if x not in own])
                els = [('lab', s.choice([v for v in vis if v != n])) for _ in range(s.rint(1, 3))] if [v for v in vis if v != n] else []
                if els:
                    decls.append(('switch', n, els))
                    sw[n] = len(els)
                    vis = [v for v in vis if v != n]
                    procs = [q for q in procs if q != n]
            if d > 0 and s.p(45):
                n = s.choice([x for x in ['p', 'b'] if x not in own and x not in sw and not any(x == e[1] for q in decls if q[0] == 'switch' for e in q[2])] or ['pp'])
                own2 = [v for v in vis if v != n]
                b = self.scope(d - 1, own2, {k: v for k, v in sw.items() if k != n}, [q for q in procs if q != n], 'proc')
                decls.append(('proc', None, n, [], b))
                vis = own2
                procs = procs + [n] if n not in procs else procs
                self.lab.add('procedure')
        sts = []
        todo = list(own)
        for _ in range(s.rint(2, 6)):
            self.size += 1
            k = s.draw(10)
            if k <= 2 and todo:
                st = ('lab', todo.pop(0), self.log())
            elif k <= 5 and vis:
                st = self.goto(vis, sw)
            elif k == 6 and procs:
                st = ('call', s.choice(procs), [])
            elif d > 0 and k <= 8 and self.size < 60:
                if s.p(50):
                    self.lab.add('loop body')
                    v = V('i%d' % d)
                    st = ('for', v, [('st', I(1), I(1), I(s.rint(1, 3)))] if s.p(70) else [('e', I(1)), ('e', I(2))], self.scope(d - 1, vis, sw, procs, 'for'))
                else:
                    st = self.scope(d - 1, vis, sw, procs, 'block')
            else:
                st = self.log()
            sts.append(st)
        for n in todo:
            sts.append(('lab', n, self.log()))
        sts.append(self.log())
        return ('block', decls, sts)

    def program(self):
        d = self.s.rint(2, 4)
        b = self.scope(d, [], {}, [], 'block')
        return ('block', [('vars', 'integer', False, ['x'] + ['i%d' % i for i in range(1, d + 1)])] + b[1], [('asg', [V('x')], I(0))] + b[2])


def run_case(ctx, block, steps=6000, max_array=None):
    it = A.Interp(max_steps=steps)
    if max_array:
        it.max_array = max_array
    try:
        o, err = it.run(block)
    except A.Ambiguous as e:
        raise Discard('ambiguous: ' + str(e))
    except A.TooLong:
        raise Discard('too long')
    except RecursionError:
        raise Discard('too deep')
    text = A.Printer().program(block)
    expect_run(ctx, text, o, err)
    return text, o, err, it.count


def case_scopes(ctx, s):
    S_ = Scopes(s)
    text, o, err, c = run_case(ctx, S_.program())
    return dict(nontrivial=c.get('goto', 0) >= 2, key=text, labels=sorted(S_.lab), sample=dict(program=text, stdout=o[:300], error=err))


class Abandon:
    """a loop whose passes leave blocks with large arrays, procedures, loops and expressions again and again: together they would take
    more than the whole stack, were any of it kept"""

    def __init__(self, s):
        self.s = s
        self.lab = set()
        self.n = s.rint(20, 40)
        self.cells = 1300000 // self.n + s.draw(20000)
        self.k = 0

    def arr(self, sts):
        s = self.s
        self.k += 1
        a = 'q%d' % self.k
        if s.p(70):
            bounds = [(I(1), op('+', V('m'), I(self.k)))]
        else:
            bounds = [(I(0), op('-', op('÷', V('m'), I(2)), I(1))), (I(0), I(1))]
        if s.p(50):
            sts = [('asg', [('sub', a, [I(s.rint(1, 5))] + [I(1)] * (len(bounds) - 1))], I(7))] + sts
        return ('block', [('array', 'integer', False, [([a], bounds)])], sts)

    def body(self, d, leave):
        """statements that open d more constructs and then execute leave"""
        s = self.s
        if d == 0:
            return leave
        inner = self.body(d - 1, leave)
        k = s.draw(5)
        if k == 0:
            return [self.arr(inner)]
        if k == 1:
            self.lab.add('loop')
            self.k += 1
            return [('for', V('j%d' % (self.k % 3)), [('st', I(1), I(1), I(1)), ('e', I(9))] if s.p(50) else [('e', I(1))], ('block', [], inner))]
        if k == 2:
            self.k += 1
            n = 'p%d' % self.k
            self.lab.add('procedure')
            return [('block', [('proc', None, n, [], ('block', [], inner) if s.p(50) else self.arr(inner))], [('call', n, [])])]
        if k == 3:
            self.k += 1
            n = 'p%d' % self.k
            self.lab.add('function')
            b = ('block', [('vars', 'integer', False, ['loc'])], [('asg', [V(n)], I(0))] + inner)
            use = s.choice([[('asg', [V('t')], op('+', I(1), op('×', V('t'), op('+', I(2), V(n)))))],
                            [('print', [op('+', V('t'), V(n))])], [('if', op('<', V(n), I(1)), ('asg', [V('t')], I(0)), None)]])
            return [('block', [('proc', 'integer', n, [], b)], use)]
        self.k += 1
        n = 'p%d' % self.k
        self.lab.add('name parameter')
        f = 'g%d' % self.k
        return [('block', [('proc', 'integer', f, [], ('block', [], [('asg', [V(f)], I(0))] + inner)),
                           ('proc', None, n, [('f', 'integer', False)], ('asg', [V('t')], op('+', V('f'), I(1))))],
                 [('call', n, [('e', op('+', V(f), I(1)))])])]

    def program(self):
        s = self.s
        d = s.rint(0, 4)
        k = s.draw(4)
        if k == 0:
            self.lab.add('normal end')
            leave = [('nop',)]
        elif k == 1:
            leave = [('goto', ('sw', 's', I(1)))]
        else:
            leave = [('goto', ('lab', 'next'))]
        inner = self.body(s.rint(0, 3), [self.arr(self.body(d, leave))])
        loop = [('lab', 'next', ('asg', [V('i')], op('+', V('i'), I(1)))),
                ('if', op('<', V('i'), I(self.n)), ('comp', inner + [('goto', ('lab', 'next'))]), None),
                ('print', [V('i')])]
        head = [('vars', 'integer', False, ['i', 't', 'm', 'j0', 'j1', 'j2'])]
        init = [('asg', [V('i'), V('t')], I(0)), ('asg', [V('m')], I(self.cells))]
        sw = [('switch', 's', [('lab', 'next')])] if k == 1 else []
        w = s.draw(4)
        if w == 0:
            return ('block', head + sw, init + loop)
        self.lab.add('destination in an inner block' if w < 3 else 'destination in a procedure')
        if w == 3:
            return ('block', head + [('proc', None, 'main', [('z', 'integer', s.p(50))], ('block', [('vars', 'integer', False, ['loc'])] + sw, loop))],
                    init + [('call', 'main', [('e', V('i'))])])
        return ('block', head, init + [('block', [('vars', 'integer', False, ['loc'])] + sw, loop)])


def case_abandon(ctx, s):
    P = Abandon(s)
    text, o, err, c = run_case(ctx, P.program(), 60000, max_array=1 << 20)
    return dict(nontrivial=True, key=text, labels=sorted(P.lab), sample=dict(program=text, stdout=o[:300], error=err))


CHECK = Check('P10', [
    Sub('machine', case_machine, 8000, 150000, 'state machines that made at least three jumps'),
    Sub('scopes', case_scopes, 3000, 60000, 'programs with at least two jumps, names declared in several scopes'),
    Sub('abandon', case_abandon, 130, 3000, 'different programs'),
    Sub('programs', CASE, 6000, 100000, 'generated programs that made at least one jump'),
])
