"""P11: for statements"""
from checks.common import *


def V(n):
    return ('var', n)


I = G.intx


def op(o, a, b):
    return ('bin', o, a, b)


def out(*es):
    return ('comp', [('print', list(es)), ('nlcr',)])


def dy(s):
    return G.real_lit(s.choice(['0.5', '.25', '1.5', '0.125', '2.5']))


class Loops:
    """One program of loops.  Everything the lists evaluate goes through logging functions now and then, so that the output shows
    which expression was evaluated when; a global pass counter bounds the run."""

    def __init__(self, s):
        self.s = s
        self.lab = set()
        self.tag = 0
        self.nl = 0
        self.used = []

    def f(self, t, v):
        """logging function: prints its tag, delivers v"""
        self.tag += 1
        return ('call', {'i': 'fi', 'r': 'fr', 'b': 'fb'}[t], [('e', I(self.tag)), ('e', v)])

    def small(self):
        return I(self.s.rint(-3, 7))

    def iexp(self, ctl, d=2):
        s = self.s
        k = s.draw(12)
        if k <= 3 or d == 0:
            return self.small()
        if k <= 5:
            return V(s.choice(['n', 'm', 'k9']))
        if k == 6:
            return self.f('i', self.iexp(ctl, d - 1))
        if k == 7 and ctl:
            return op(s.choice('+-'), s.choice(ctl), self.small())
        if k == 8:
            return op(s.choice('+-'), self.iexp(ctl, d - 1), self.iexp(ctl, d - 1))
        if k == 9:
            return ('if', self.bexp(ctl, d - 1), self.iexp(ctl, d - 1), self.iexp(ctl, d - 1))
        if k == 10:
            return ('sub', 'b', [I(s.rint(0, 4))])
        return ('call', 'bump', [])

    def nexp(self, ctl, real, d=2):
        s = self.s
        if not real or s.p(40):
            return self.iexp(ctl, d)
        k = s.draw(4)
        if k == 0:
            return dy(s)
        if k == 1:
            return op(s.choice('+-'), self.iexp(ctl, d - 1), dy(s))
        if k == 2:
            return V('x9')
        return self.f('r', op('+', self.iexp(ctl, 0), dy(s)))

    def bexp(self, ctl, d=1):
        s = self.s
        k = s.draw(6)
        if k == 0:
            return V('q9')
        if k == 1 and d:
            return self.f('b', self.bexp(ctl, d - 1))
        a = s.choice(ctl) if ctl and s.p(75) else self.iexp(ctl, 0)
        return op(s.choice(['<', '≤', '=', '≥', '>', '≠']), a, self.iexp([], 1) if d else self.small())

    def elements(self, v, real, n=None):
        s = self.s
        els = []
        ctl = [v]
        for _ in range(n or s.weighted([(45, 1), (30, 2), (15, 3), (10, 5)])):
            k = s.weighted([(40, 'st'), (25, 'plain'), (12, 'e'), (23, 'wh')])
            if k == 'plain':
                a = s.rint(-4, 6)
                if real and s.p(50):
                    els.append(('st', op('+', I(a), dy(s)), s.choice([dy(s), ('neg', dy(s))]), op('+', I(s.rint(-4, 6)), dy(s))))
                else:
                    els.append(('st', I(a), I(s.choice([1, 1, 2, 3, -1, -2, -1])), I(a + s.rint(-4, 6))))
                self.lab.add('constant step element')
            elif k == 'st':
                els.append(('st', self.nexp(ctl, real), self.nexp(ctl, real), self.nexp(ctl, real)))
                self.lab.add('general step element')
            elif k == 'e':
                els.append(('e', self.nexp(ctl, real)))
            else:
                nx = op(s.choice('+-'), v, I(s.rint(1, 3))) if s.p(60) else self.nexp(ctl, real)
                els.append(('wh', nx, self.bexp(ctl)))
                self.lab.add('while element')
        return els

    def control(self, depth, formal=None):
        """(variable, is real, label)"""
        s = self.s
        k = s.draw(10)
        c = [(V('i%d' % depth), False, 'simple integer'), (V('x%d' % depth), True, 'simple real'),
             (('sub', 'a', [V('s')]), False, 'element a[s]'), (('sub', 'a', [('call', 'bump', [])]), False, 'element with side effect'),
             (('sub', 'r', [V('s')]), True, 'real element'), (V('i%d' % depth), False, 'simple integer'),
             (('sub', 'a', [I(depth)]), False, 'element a[const]'), (('sub', 'a2', [V('s'), I(1)]), False, 'element of 2-dimensional'),
             (V('o%d' % (depth & 1)), False, 'own'), (V('x%d' % depth), True, 'simple real')]
        if formal and s.p(70):
            return s.choice(formal)
        return c[k]

    def readable(self, v):
        """the controlled variable for printing in the body: an element with a side effect would move on"""
        if v[0] == 'sub' and v[2][0][0] == 'call':
            return ('sub', v[1], [V('s')] + v[2][1:])
        return v

    def body(self, v, real, depth, formal):
        s = self.s
        rv = self.readable(v)
        sts = [('asg', [V('cnt')], op('+', V('cnt'), I(1))), ('if', op('>', V('cnt'), I(self.limit)), ('goto', ('lab', 'stop')), None),
               ('comp', [('print', [I(depth * 1000 + self.nl), rv]), ('nlcr',)])]
        me = self.nl
        for _ in range(s.draw(4)):
            k = s.draw(14)
            if k == 0:
                self.lab.add('body changes the controlled variable')
                sts.append(('asg', [rv], op(s.choice('+-'), rv, I(s.rint(1, 2)))))
            elif k == 1:
                self.lab.add('body changes what the list uses')
                sts.append(('asg', [V(s.choice(['n', 'm', 'k9']))], op(s.choice('+-'), V(s.choice(['n', 'm', 'k9'])), I(s.rint(0, 2)))))
            elif k == 2:
                self.lab.add('body moves the subscript')
                sts.append(('asg', [V('s')], I(s.rint(-2, 6))))
            elif k == 3:
                sts.append(('asg', [V('q9')], self.bexp([rv], 0)))
            elif k in (4, 5, 6) and depth < 3:
                self.lab.add('nested loop')
                sts.append(self.loop(depth + 1, formal))
            elif k == 7:
                self.lab.add('leaves the loop')
                l = 'out%d' % self.cur[-1]
                sts.append(('if', self.bexp([rv], 0), ('goto', ('lab', s.choice(['out%d' % j for j in self.cur]))), None))
            elif k == 8:
                self.lab.add('goto within the body')
                lb = 'cont%d' % me
                rest = [out(I(-1), rv)]
                sts += [('if', self.bexp([rv], 0), ('goto', ('lab', lb)), None)] + rest + [('lab', lb, ('nop',))]
                me = 10000 + me * 10 + len(sts)
            elif k == 9:
                self.lab.add('block body')
                t = 'loc%d' % depth
                sts.append(('block', [('vars', 'integer', False, [t]), ('array', 'integer', False, [(['w%d' % depth], [(I(0), V('two'))])])],
                            [('asg', [('sub', 'w%d' % depth, [I(1)])], V('cnt')), ('asg', [V(t)], op('+', V('n'), I(1))),
                             out(V(t), ('sub', 'w%d' % depth, [I(1)]))] + ([self.loop(depth + 1, formal)] if depth < 3 and s.p(40) else [])))
            elif k == 10 and self.procs and depth < 3:
                self.lab.add('procedure with a loop called in the body')
                sts.append(('call', 'p1', [('e', s.choice([V('j1'), ('sub', 'a', [V('s')]), V('j2')])), ('e', self.iexp([], 1)), ('e', self.iexp([], 1)),
                                           ('e', self.iexp([], 1))]))
            elif k == 11 and self.procs:
                self.lab.add('function with a loop')
                sts.append(out(('call', 'sumf', [('e', V('j3')), ('e', I(s.rint(-1, 2))), ('e', self.iexp([], 1)),
                                                 ('e', s.choice([V('j3'), op('×', V('j3'), V('j3')), ('call', 'sumf', [('e', V('j4')), ('e', I(0)), ('e', V('j3')), ('e', op('+', V('j4'), V('j3')))])]))])))
            else:
                sts.append(out(I(-2), V('n'), rv))
        if len(sts) == 3 and s.p(30):
            return ('comp', sts)
        return ('comp', sts)

    def loop(self, depth, formal=None):
        s = self.s
        self.nl += 1
        me = self.nl
        v, real, l = self.control(depth, formal)
        self.lab.add(l)
        els = self.elements(v, real)
        self.cur.append(me)
        st = ('for', v, els, self.body(v, real, depth, formal))
        self.cur.pop()
        return ('comp', [st, out(I(-3)), ('lab', 'out%d' % me, ('nop',)), ('asg', [V('s')], I(s.rint(-2, 6)))])

    def build(self):
        s = self.s
        self.limit = s.rint(6, 60)
        self.cur = []
        self.procs = False
        ints = ['i0', 'i1', 'i2', 'i3', 'n', 'm', 'k9', 's', 'cnt', 'two', 'j1', 'j2', 'j3', 'j4', 'dp']
        reals = ['x0', 'x1', 'x2', 'x3', 'x9']
        w = op('+', I(0), V('v'))
        log = lambda nm, ty: ('proc', ty, nm, [('t', 'integer', True), ('v', ty, True)],
                              ('comp', [('print', [V('t')]), ('text', ' '), ('asg', [V(nm)], V('v'))]))
        decls = [('vars', 'integer', False, ints), ('vars', 'real', False, reals), ('vars', 'boolean', False, ['q9']),
                 ('vars', 'integer', True, ['o0', 'o1']),
                 ('array', 'integer', False, [(['a'], [(I(-2), I(6))]), (['b'], [(I(0), I(4))]), (['a2'], [(I(-2), I(6)), (I(0), I(2))])]),
                 ('array', 'real', False, [(['r'], [(I(-2), I(6))])]),
                 log('fi', 'integer'), log('fr', 'real'), log('fb', 'boolean'),
                 ('proc', 'integer', 'bump', [], ('comp', [('asg', [V('s')], ('if', op('=', V('s'), I(6)), I(-2), op('+', V('s'), I(1)))),
                                                           ('asg', [V('bump')], V('s'))]))]
        body = [('asg', [V(n)], I(s.rint(-2, 4))) for n in ints if n not in ('cnt', 'two', 's')]
        body += [('asg', [V('cnt')], I(0)), ('asg', [V('two')], I(2)), ('asg', [V('s')], I(s.rint(-2, 6))), ('asg', [V('q9')], ('bool', s.p(50)))]
        body += [('asg', [V(n)], s.choice([dy(s), I(2)])) for n in reals]
        for j in range(-2, 7):
            body += [('asg', [('sub', 'a', [I(j)]), ('sub', 'r', [I(j)])], I(j + 1))]
            body += [('asg', [('sub', 'a2', [I(j), I(k)]) for k in range(3)], I(j))]
            if 0 <= j <= 4:
                body += [('asg', [('sub', 'b', [I(j)])], I(s.rint(-2, 5)))]
        formal = [(V('v'), False, 'by-name controlled variable'), (V('lo'), False, 'value parameter as controlled variable'),
                  (V('li'), False, 'local of a procedure'), (V('lx'), True, 'real local of a procedure'), (('sub', 'la', [V('v')]), False, 'local array element by name')
                  if False else (('sub', 'la', [I(1)]), False, 'element of a local array')]
        if s.p(65):
            self.procs = True
            decls.append(('proc', 'integer', 'sumf', [('v', 'integer', False), ('lo', 'integer', True), ('hi', 'integer', False), ('e', 'integer', False)],
                          ('block', [('vars', 'integer', False, ['t'])],
                           [('asg', [V('t')], I(0)),
                            ('for', V('v'), [('st', V('lo'), I(1), V('hi'))], ('comp', [
                                ('asg', [V('cnt')], op('+', V('cnt'), I(1))), ('if', op('>', V('cnt'), I(self.limit)), ('goto', ('lab', 'stop')), None),
                                ('asg', [V('t')], op('+', V('t'), V('e')))])),
                            ('asg', [V('sumf')], V('t'))])))
            # a procedure with a loop of generated form, possibly recursive
            self.procs = False
            inner = self.loop(1, formal)
            rec = s.p(40)
            loc = [('asg', [V('li')], I(3)), ('asg', [V('lx')], dy(s)), ('asg', [('sub', 'la', [I(1)])], V('n')), ('asg', [('sub', 'la', [I(0)])], I(0))]
            bd = loc + [inner]
            if rec:
                self.lab.add('recursive procedure with a loop')
                bd = loc + [('asg', [V('dp')], op('+', V('dp'), I(1))),
                            ('if', op('<', V('dp'), I(s.rint(2, 6))),
                             ('for', V(s.choice(['li', 'i3'])), [('st', I(1), I(1), I(2))], ('call', 'p1', [('e', s.choice([V('v'), V('li'), V('j1')])), ('e', V('li')), ('e', s.choice([V('st'), I(1)])), ('e', V('hi'))])), None)] + [inner]
            decls.append(('proc', None, 'p1', [('v', 'integer', False), ('lo', 'integer', True), ('st', 'integer', False), ('hi', 'integer', False)],
                          ('block', [('vars', 'integer', False, ['li']), ('vars', 'real', False, ['lx']), ('array', 'integer', False, [(['la'], [(I(0), V('two'))])])], bd)))
            self.procs = True
        for _ in range(s.rint(1, 3)):
            body.append(self.loop(0))
            if self.procs and s.p(50):
                self.lab.add('procedure with a loop called')
                body.append(('call', 'p1', [('e', s.choice([V('i0'), ('sub', 'a', [V('s')]), V('j1')])), ('e', self.iexp([], 1)), ('e', self.iexp([], 1)), ('e', self.iexp([], 1))]))
        body.append(('lab', 'stop', out(I(-9), V('n'), V('m'), V('k9'), V('two'))))
        return ('block', decls, body)


def case_lists(ctx, s):
    g = Loops(s)
    block = g.build()
    it = A.Interp(max_steps=15000, max_depth=60)
    try:
        o, err = it.run(block)
    except A.Ambiguous as e:
        raise Discard('ambiguous: ' + str(e))
    except (A.TooLong, RecursionError):
        raise Discard('too long')
    text = A.Printer().program(block)
    expect_run(ctx, text, o, err)
    n = it.count.get('for-iter', 0)
    return dict(nontrivial=n >= 3, key=text, labels=sorted(g.lab) + sorted(k for k in it.count if k.startswith('for-') or k.startswith('error')),
                sample=dict(program=text[-2500:], stdout=o[:400], error=err))


CASE = program_case(dict(procs=(0, 2), formals=(0, 3), w_call=10, w_for=40, arrays=(0, 2), max_depth=4, labels=20, w_goto=6), need=lambda c: c.get('for-iter', 0) >= 3)
CHECK = Check('P11', [
    Sub('lists', case_lists, 8000, 150000, 'programs with at least three passes of loop bodies'),
    Sub('programs', CASE, 4000, 80000, 'generated programs with at least three passes of loop bodies'),
])
