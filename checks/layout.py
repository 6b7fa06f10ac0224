"""Storage layout: declarations and statements that do nothing are added to a program, so that its variables, arrays,
constants, labels and code come to lie anywhere in the store.  What the program prints must stay the same."""
from checks.common import *

KIND = ['static', 'static', 'static', 'static', 'locals', 'locals', 'locals', 'high', 'code', 'constants', 'names', 'own']


class Pad:
    def __init__(self, s, budget=3000, own=True):
        self.s = s
        self.lab = set()
        self.n = 0
        self.left = budget                      # symbols that may be added
        self.owned = 0
        self.own = s.choice([200, 1500, 3500])
        self.kinds = {s.choice(KIND) for _ in range(s.rint(1, 3))} - (set() if own else {'own'})

    def name(self):
        self.n += 1
        return 'z%dp' % self.n

    def use(self, n, each):
        n = max(0, min(n, self.left // each))
        self.left -= n * each
        return n

    def size(self):
        s = self.s
        return s.weighted([(3, 1), (3, 2), (3, 3)]), s.draw(1000)

    def vars(self, words):
        """local variables of about so many words"""
        s = self.s
        d = []
        if s.p(50):
            k = s.rint(3, 20)
            n = self.use(words // (k + 4), 4 * k + 10)
            if n:
                d.append(('array', s.choice(['integer', 'real', 'boolean']), False,
                          [([self.name() for _ in range(n)], [(G.intx(1), G.intx(1))] * k)]))
        else:
            t = s.choice(['integer', 'real', 'boolean'])
            n = self.use(words // (2 if t == 'real' else 1), 6)
            if n:
                d.append(('vars', t, False, [self.name() for _ in range(n)]))
        return d

    def dead(self):
        """statements never executed"""
        s = self.s
        st = []
        for _ in range(self.use(s.choice([5, 30, 100, 300]), 6)):
            st.append(('asg', [('var', self.v)], ('var', self.v)))
        if 'constants' in self.kinds:
            for _ in range(self.use(s.choice([5, 30, 60, 200]), 8)):
                self.lab.add('constants')
                st.append(('asg', [('var', self.v)], G.intx(s.draw(60000000)) if s.p(50) else ('num', '%d.%d' % (s.draw(10000), s.draw(10000)), None)))
        if not st:
            return []
        self.lab.add('code')
        return [('if', ('bin', '=', G.intx(0), G.intx(1)), ('comp', st), None)]

    def block(self, b, dynamic, own=True):
        s = self.s
        decls, sts = list(b[1]), list(b[2])
        add = []
        if dynamic and 'locals' in self.kinds and s.p(60):
            add += self.vars(s.choice([20, 100, 300, 600, 850, 850]))
            if add:
                self.lab.add('locals')
        if own and 'own' in self.kinds and s.p(40) and self.own > 0:
            n = s.rint(1, self.own)
            self.own -= n
            self.owned += n
            add.append(('array', 'integer', True, [([self.name()], [(G.intx(1), G.intx(n))])]))
            self.lab.add('own')
        decls = [self.decl(d) for d in decls]
        if 'names' in self.kinds and s.p(40):
            n = self.use(s.choice([3, 20, 60]), 14)
            for _ in range(n):
                decls.append(('proc', None, self.name(), [], ('asg', [('var', self.v)], G.intx(0))))
                self.lab.add('procedures')
        sts = [self.st(x) for x in sts]
        if ('code' in self.kinds or 'constants' in self.kinds) and s.p(40):
            sts = self.dead() + sts
        # the compilers want scalars before arrays, and those before procedures
        k = 0
        while k < len(decls) and decls[k][0] == 'vars':
            k += 1
        return ('block', [d for d in add if d[0] == 'vars'] + decls[:k] + [d for d in add if d[0] == 'array' and d[2]] + [d for d in add if d[0] == 'array' and not d[2]] + decls[k:], sts)

    def decl(self, d):
        if d[0] == 'proc':
            b = d[4]
            return d[:4] + (self.block(b, True, not any(q[2] and q[1].endswith('array') for q in d[3])) if b[0] == 'block' else self.st(b),) + d[5:]
        return d

    def st(self, x):
        k = x[0]
        if k == 'if':
            return ('if', x[1], self.st(x[2]), self.st(x[3]) if x[3] is not None else None)
        if k == 'comp':
            return ('comp', [self.st(y) for y in x[1]])
        if k == 'block':
            return self.block(x, True)
        if k == 'for':
            return x[:3] + (self.st(x[3]),)
        if k == 'lab':
            return ('lab', x[1], self.st(x[2]))
        return x

    def program(self, b):
        s = self.s
        self.v = self.name()
        outer = []
        high = 'high' in self.kinds
        r = self.block(b, high)
        if 'static' in self.kinds:
            room = 9600 - self.owned - len(re.sub('_.', '', A.Printer().program(r)))
            n = s.choice([s.draw(9000), s.rint(7000, 8900), 8900, s.draw(1000)])
            n = min(n, room)
            if n > 0:
                outer.append(('array', s.choice(['integer', 'boolean']), False, [([self.name()], [(G.intx(0), G.intx(n - 1))])]))
                self.lab.add('static')
        head = [('vars', 'integer', False, [self.v])]
        if high:
            self.lab.add('high')
            w = self.name()
            k = s.choice([s.draw(1000), s.rint(30000, 40000), s.rint(90000, 140000), s.draw(600000)])
            return ('block', head + outer + [('vars', 'integer', False, [w])] if s.p(50) or not outer else [('vars', 'integer', False, [w, self.v])] + outer,
                    [('asg', [('var', w)], G.intx(k)),
                     ('block', [('array', 'integer', False, [([self.name()], [(G.intx(0), ('var', w))])])], [r])])
        d = r[1]
        return ('block', head + outer + d if s.p(70) else outer + head + d, r[2])
