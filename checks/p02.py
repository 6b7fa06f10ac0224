"""P02: procedures"""
from checks.common import *

CASE = program_case(dict(procs=(1, 3), formals=(0, 3), w_call=22, recursion=15, labels=25, switches=30, w_goto=4, arrays=(0, 1)))


def num(n):
    return G.intx(n)


def add(a, b, o='+'):
    return ('bin', o, a, b)


def small(e, m):
    """e reduced to less than m"""
    return add(e, add(add(e, num(m), '÷'), num(m), '×'), '-')


class Nest:
    """procedures nested within each other to any depth; the actual parameters refer to variables, elements, parameters
    and functions of every level around, and inner procedures call the outer ones back"""

    def __init__(self, s, depth, plain=False):
        self.s = s
        self.plain = plain                      # no formal array or procedure is handed on
        self.depth = depth
        self.lv = [dict(v=['v0'], w=None, a=[], b=[], f=[], g=[], lab=None)]
        self.lab = set()

    def level(self):
        """the level around which is looked at: often the nearest or the outermost"""
        n = len(self.lv)
        return self.lv[self.s.choice([n - 1, n - 1, 0, max(0, n - 2), self.s.draw(n), self.s.draw(n)])]

    def var(self, assignable=False):
        s = self.s
        for _ in range(20):
            l = self.level()
            k = s.draw(6)
            if k <= 1:
                return ('var', s.choice(l['v']))
            if k == 2 and l['w']:
                return ('sub', l['w'], [num(s.draw(3)) if s.p(60) else small(('call', 'pos', [('e', self.scalar())]), 3)])
            if k == 3:
                c = [n for n, as_ in l['a'] if as_ or not assignable]
                if c:
                    self.lab.add('name parameter of an outer level')
                    return ('var', s.choice(c))
            if k == 4 and l['b']:
                return ('var', s.choice(l['b']))
            if k == 5 and not assignable:
                c = l['f'] + l['g']
                if c:
                    self.lab.add('function of an outer level')
                    return ('call', s.choice(c), [])
        return ('var', 'v0')

    def scalar(self):
        l = self.level()
        return ('var', self.s.choice(l['v'] + l['b']))

    def expr(self):
        s = self.s
        e = self.var()
        for _ in range(s.weighted([(3, 0), (4, 1), (2, 2)])):
            e = add(e, self.var() if s.p(60) else num(s.rint(1, 9)), s.choice('+-'))
        return e

    def actuals(self, params):
        r = []
        s = self.s
        for n, spec, val in params:
            if spec == 'iproc':
                c = [x for l in self.lv for x in ([] if self.plain else l['f']) + l['g']]
                r.append(('p', s.choice(c)))
            elif spec == 'iarray':
                r.append(('a', s.choice(self.arrays())))
            elif val:
                r.append(('e', small(self.expr(), 1000)))
            elif n.startswith('a'):
                r.append(('e', self.var(True)))
            else:
                r.append(('e', self.expr()))
        return r

    def arrays(self):
        return [l['w'] for l in self.lv if l['w'] and not (self.plain and l['w'][0] == 'w')]

    def change(self):
        return ('asg', [self.var(True)] + ([('var', 'v0')] if self.s.p(10) else []), small(self.expr(), 1000))

    def show(self):
        return ('comp', [('print', [self.expr() for _ in range(self.s.rint(1, 3))]), ('nlcr',)])

    def build(self, k):
        """declaration of procedure q<k>"""
        s = self.s
        params = []
        me = dict(v=[], w=None, a=[], b=[], f=[], g=[], lab=None)
        for kind in range(s.rint(0, 3)):
            j = s.draw(5)
            if j == 0:
                params.append(('a%d%d' % (k, kind), 'integer', False))
                me['a'].append((params[-1][0], True))
            elif j == 1:
                params.append(('e%d%d' % (k, kind), 'integer', False))
                me['a'].append((params[-1][0], False))
            elif j == 2:
                params.append(('b%d%d' % (k, kind), 'integer', True))
                me['b'].append(params[-1][0])
            elif j == 3 and any((not self.plain and l['f']) or l['g'] for l in self.lv):
                params.append(('f%d%d' % (k, kind), 'iproc', False))
                me['f'].append(params[-1][0])
            elif j == 4 and self.arrays():
                params.append(('w%d%d' % (k, kind), 'iarray', s.p(15)))
                me['w'] = params[-1][0]
        self.params[k] = params
        rt = 'integer' if s.p(35) else None
        self.lv.append(me)
        decls, body = [], []
        me['v'] = ['v%d' % k] + (['z%d' % k] if s.p(25) else [])
        decls.append(('vars', 'integer', False, me['v']))
        for v in me['v']:
            body.append(('asg', [('var', v)], num(10 * k + s.draw(9))))
        if me['w'] is None and s.p(40):
            me['w'] = 'x%d' % k
            decls.append(('array', 'integer', False, [(['x%d' % k], [(num(0), num(2))])]))
            body += [('asg', [('sub', 'x%d' % k, [num(i)])], num(100 * k + i)) for i in range(3)]
        if s.p(40):
            # the new function sees everything declared up to here
            e = small(self.expr(), 1000)
            gb = ('asg', [('var', 'g%d' % k)], e)
            if s.p(30):
                gb = ('comp', [self.change(), gb])
            decls.append(('proc', 'integer', 'g%d' % k, [], gb))
            me['g'].append('g%d' % k)
        for _ in range(s.rint(0, 2)):
            body.append(self.change() if s.p(60) else self.show())
        if rt:
            body.append(('asg', [('var', 'q%d' % k)], small(self.expr(), 1000)))
        self.rt[k] = rt
        if k < self.depth:
            decls.append(self.build(k + 1))
            call = self.call(k + 1)
            body.append(call)
            if k in self.targets:
                body.append(('lab', 'l%d' % k, self.show()))
            if s.p(25):
                body.append(self.change())
        else:
            for _ in range(s.rint(1, 3)):
                body.append(self.show())
            if s.p(40) and k > 1:
                # out of all the procedures inside one of them
                j = s.rint(1, k - 1)
                self.targets.add(j)
                body.append(('if', add(('var', 'cnt'), num(s.rint(0, 3)), '='), ('goto', ('lab', 'l%d' % j)), None))
                self.lab.add('jump out')
        # back to one of the procedures around
        if s.p(30 if k < self.depth else 80):
            j = s.rint(max(1, k - 5), k) if s.p(60) else s.rint(1, k)
            body.insert(s.rint(1, len(body)) if k == self.depth else len(body), ('if', add(('var', 'cnt'), num(s.rint(1, 4)), '<'), ('comp', [
                ('asg', [('var', 'cnt')], add(('var', 'cnt'), num(1))), self.call(j)]), None))
            self.lab.add('called back')
        body.append(self.show())
        self.lv.pop()
        return ('proc', rt, 'q%d' % k, params, ('block', decls, body))

    def call(self, j):
        # what the caller sees: the levels around it; the parameters belong to level j
        acts = self.actuals(self.params[j])
        if self.rt[j]:
            return ('asg', [self.var(True)], small(('call', 'q%d' % j, acts), 1000)) if self.s.p(70) else ('call', 'q%d' % j, acts)
        return ('call', 'q%d' % j, acts)

    def program(self):
        s = self.s
        self.params, self.rt, self.targets = {}, {}, set()
        pos = ('proc', 'integer', 'pos', [('u', 'integer', True)], ('asg', [('var', 'pos')], ('if', add(('var', 'u'), num(0), '<'), ('neg', ('var', 'u')), ('var', 'u'))))
        q = self.build(1)
        decls = [('vars', 'integer', False, ['v0', 'cnt']), pos, q]
        body = [('asg', [('var', 'v0')], num(s.rint(1, 9))), ('asg', [('var', 'cnt')], num(0)), self.call(1),
                ('comp', [('print', [('var', 'v0'), ('var', 'cnt')]), ('nlcr',)])]
        if s.p(40):
            body += [('asg', [('var', 'cnt')], num(1)), self.call(1), ('comp', [('print', [('var', 'v0'), ('var', 'cnt')]), ('nlcr',)])]
        return ('block', decls, body)


def case_nested(ctx, s):
    k = s.draw(10)
    depth = s.rint(2, 6) if k < 4 else s.rint(7, 14) if k < 7 else s.rint(15, 21)
    N = Nest(s, depth)
    block = N.program()
    it = A.Interp(max_steps=40000, max_depth=400)
    try:
        out, err = it.run(block)
    except A.Ambiguous as e:
        raise Discard('ambiguous: ' + str(e))
    except A.TooLong:
        raise Discard('too long')
    except RecursionError:
        raise Discard('too deep')
    text = A.Printer().program(block)
    if len(text) > 24000:
        raise Discard('too big')
    expect_run(ctx, text, out, err)
    return dict(nontrivial=len(out) > 0, key=text, labels=sorted(N.lab) + ['depth %s' % ('2-6' if depth < 7 else '7-14' if depth < 15 else '15-21')],
                sample=dict(program=text[:1500], stdout=out[:300], error=err))


CHECK = Check('P02', [
    Sub('procs', CASE, 8000, 200000, 'program prints something and calls a procedure'),
    Sub('nested', case_nested, 2500, 60000, 'procedures nested 2 to 21 deep, which print something'),
])
