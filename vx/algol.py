"""Algol 60 abstract syntax, printer, and a reference interpreter written from the Revised Report
(and, for number representation, the X1 documentation).  Independent of the code under test.

Expressions (tuples):
  ('num', text, value) ('bool', b) ('var', name) ('sub', name, [e..]) ('bin', op, a, b) ('neg', a) ('pos', a)
  ('not', a) ('if', c, a, b) ('call', name, [actual..]) ('std', fname, e)
Actuals: ('e', expr) ('p', name) ('a', name) ('l', name) ('s', name) ('t', text)
Statements:
  ('asg', [target..], e) ('if', c, s, s2|None) ('comp', [stmt..]) ('block', [decl..], [stmt..])
  ('for', target, [elem..], body)   elem: ('e', x) ('st', a, b, c) ('wh', x, cond)
  ('goto', d)   d: ('lab', name) ('sw', name, e) ('ifd', c, d1, d2)
  ('lab', name, stmt) ('call', name, [actual..]) ('print', [e..]) ('nlcr',) ('text', s) ('nop',)
  ('prim', name, [e..])     other output primitives
Declarations:
  ('vars', type, own, [names]) ('array', type, own, [(names, [(lo,hi)..])])
  ('proc', rtype|None, name, [(pname, spec, isvalue)..], body) ('switch', name, [d..])
  spec: 'integer' 'real' 'boolean' 'iarray' 'rarray' 'barray' 'procedure' 'iproc' 'rproc' 'bproc' 'label' 'switch' 'string'
"""
from . import x1num as X
from .x1num import AlgolError
from math import isqrt


class Ambiguous(Exception):
    """The program met a construct whose meaning is not defined; it proves nothing and is discarded."""


class TooLong(Exception):
    pass


# ================================================================== printer
PREC = {'≡': 1, '⊃': 2, '∨': 3, '∧': 4, '¬': 5,
        '<': 6, '≤': 6, '=': 6, '≥': 6, '>': 6, '≠': 6,
        '+': 7, '-': 7, '×': 8, '/': 8, '÷': 8, '↑': 9}

OPTXT = {'↑': '|^', '≠': '|=', '≤': '_<', '≥': '_>', '≡': '_=', '⊃': '_~', '÷': '_:', '×': '*'}


class Style:
    """How basic symbols are spelled.  The default is the plain one."""

    def kw(self, w):
        return ''.join('_' + c for c in w)

    def op(self, o):
        return o

    def sym(self, s):
        return s

    def sp(self):
        return ''

    def nl(self):
        return '\n'

    def name(self, n):
        return n

    def paren(self):
        """add redundant parentheses here?"""
        return False

    def after_begin(self):
        return ''

    def after_end(self):
        return ''

    def parsep(self):
        return ', '


class Printer:
    def __init__(self, style=None):
        self.s = style or Style()

    # ---- expressions
    def e(self, x, prec=0, first=True):
        """first: a sign may stand here; prec: minimal precedence allowed without parentheses"""
        s = self.s
        k = x[0]
        if k == 'num':
            t = x[1]
            return t
        if k == 'bool':
            return s.kw('true' if x[1] else 'false')
        if k == 'var':
            r = s.name(x[1])
        elif k == 'sub':
            r = s.name(x[1]) + s.sym('[') + s.sym(',').join(s.sp() + self.e(i) for i in x[2]) + s.sym(']')
        elif k == 'call':
            r = self.callx(x)
        elif k == 'std':
            r = x[1] + s.sym('(') + self.e(x[2]) + s.sym(')')
        elif k == 'bin':
            p = PREC[x[1]]
            # left associative; relations do not chain
            la = self.e(x[2], p + 1 if p == 6 else p, first and p < 9)
            lb = self.e(x[3], p + 1, False)
            r = la + s.sp() + s.op(x[1]) + s.sp() + lb
            if p < prec or (not first and self._starts_sign(x)):
                return '(' + r + ')'
        elif k in ('neg', 'pos'):
            # sign applies to a whole term: allowed only where a simple arithmetic expression starts
            r = ('-' if k == 'neg' else '+') + s.sp() + self.e(x[1], 8, False)
            if prec > 7 or not first:
                return '(' + r + ')'
        elif k == 'not':
            r = s.op('¬') + self.e(x[1], 6, True)
            if prec > 5:
                return '(' + r + ')'
        elif k == 'if':
            r = (s.kw('if') + ' ' + self.e(x[1]) + ' ' + s.kw('then') + ' ' + self.noif(x[2]) + ' ' +
                 s.kw('else') + ' ' + self.e(x[3]))
            if prec > 0:
                return '(' + r + ')'
        else:
            raise ValueError(k)
        if s.paren():
            r = '(' + r + ')'
        return r

    def _starts_sign(self, x):
        while x[0] == 'bin' and PREC[x[1]] < 9:
            x = x[2]
        return x[0] in ('neg', 'pos')

    def noif(self, x):
        if x[0] == 'if':
            return '(' + self.e(x) + ')'
        return self.e(x)

    def act(self, a):
        if a[0] == 'e':
            return self.e(a[1])
        if a[0] == 't':
            return string_text(a[1])
        return self.s.name(a[1])

    def callx(self, x):
        s = self.s
        if not x[2]:
            return s.name(x[1])
        return s.name(x[1]) + s.sym('(') + s.sp() + s.parsep().join(self.act(a) for a in x[2]) + s.sym(')')

    # ---- statements
    def desig(self, d):
        s = self.s
        if d[0] == 'lab':
            return s.name(d[1])
        if d[0] == 'sw':
            return s.name(d[1]) + s.sym('[') + self.e(d[2]) + s.sym(']')
        inner = self.desig(d[2])
        if d[2][0] == 'ifd':
            inner = '(' + inner + ')'
        return s.kw('if') + ' ' + self.e(d[1]) + ' ' + s.kw('then') + ' ' + inner + ' ' + s.kw('else') + ' ' + self.desig(d[3])

    def st(self, x, ind=1):
        s = self.s
        k = x[0]
        if k == 'nop':
            return ''
        if k == 'asg':
            return ''.join(self.e(t) + s.sp() + s.op(':=') + s.sp() for t in x[1]) + self.e(x[2])
        if k == 'if':
            r = s.kw('if') + ' ' + self.e(x[1]) + ' ' + s.kw('then') + ' ' + self.st_then(x[2], x[3] is not None)
            if x[3] is not None:
                r += ' ' + s.kw('else') + ' ' + self.st(x[3], ind)
            return r
        if k == 'comp':
            return s.kw('begin') + s.after_begin() + ' ' + (';' + s.nl()).join(self.st(y, ind + 1) for y in x[1]) + ' ' + s.kw('end') + s.after_end()
        if k == 'block':
            return (s.kw('begin') + s.after_begin() + s.nl() + ''.join(self.decl(d) + ';' + s.nl() for d in x[1]) +
                    (';' + s.nl()).join(self.st(y, ind + 1) for y in x[2]) + s.nl() + s.kw('end') + s.after_end())
        if k == 'for':
            els = []
            for el in x[2]:
                if el[0] == 'e':
                    els.append(self.e(el[1]))
                elif el[0] == 'st':
                    els.append(self.e(el[1]) + ' ' + s.kw('step') + ' ' + self.e(el[2]) + ' ' + s.kw('until') + ' ' + self.e(el[3]))
                else:
                    els.append(self.e(el[1]) + ' ' + s.kw('while') + ' ' + self.e(el[2]))
            return (s.kw('for') + ' ' + self.e(x[1]) + s.sp() + s.op(':=') + s.sp() + (s.sym(',') + ' ').join(els) + ' ' +
                    s.kw('do') + ' ' + self.st(x[3], ind))
        if k == 'goto':
            return s.kw('goto') + ' ' + self.desig(x[1])
        if k == 'lab':
            return s.name(x[1]) + s.sym(':') + ' ' + self.st(x[2], ind)
        if k == 'call':
            return self.callx(x)
        if k == 'print':
            return 'print(' + ', '.join(self.e(y) for y in x[1]) + ')'
        if k == 'nlcr':
            return 'NLCR'
        if k == 'text':
            return 'PRINTTEXT(' + string_text(x[1]) + ')'
        if k == 'prim':
            return x[1] + ('(' + ', '.join(self.e(y) for y in x[2]) + ')' if x[2] else '')
        raise ValueError(k)

    def st_then(self, y, has_else):
        """the statement after then must be unconditional"""
        t = self.st(y)
        b = y
        while b[0] == 'lab':
            b = b[2]
        if b[0] == 'if' or (has_else and b[0] == 'for'):
            s = self.s
            return s.kw('begin') + ' ' + t + ' ' + s.kw('end')
        return t

    def decl(self, d):
        s = self.s
        k = d[0]
        if k == 'vars':
            return ((s.kw('own') + ' ' if d[2] else '') + s.kw(d[1]) + ' ' +
                    (s.sym(',') + s.sp()).join(s.name(n) for n in d[3]))
        if k == 'array':
            segs = []
            for names, bounds in d[3]:
                segs.append(s.sym(',').join(s.name(n) for n in names) + s.sym('[') +
                            s.sym(',').join(self.e(lo) + s.sym(':') + self.e(hi) for lo, hi in bounds) + s.sym(']'))
            ty = '' if d[1] == 'real' and len(d) > 4 else s.kw(d[1]) + ' '
            return (s.kw('own') + ' ' if d[2] else '') + ty + s.kw('array') + ' ' + (s.sym(',') + ' ').join(segs)
        if k == 'switch':
            return s.kw('switch') + ' ' + s.name(d[1]) + ' ' + s.op(':=') + ' ' + (s.sym(',') + ' ').join(self.desig(x) for x in d[2])
        if k == 'proc':
            r = (s.kw(d[1]) + ' ' if d[1] else '') + s.kw('procedure') + ' ' + s.name(d[2])
            if d[3]:
                r += s.sym('(') + s.parsep().join(s.name(p[0]) for p in d[3]) + s.sym(')')
            r += ';' + s.nl()
            vals = [p[0] for p in d[3] if p[2]]
            if vals:
                r += s.kw('value') + ' ' + s.sym(',').join(s.name(v) for v in vals) + ';' + s.nl()
            for p in d[3]:
                r += self.spec(p[1]) + ' ' + s.name(p[0]) + ';' + s.nl()
            return r + self.st(d[4])
        raise ValueError(k)

    def spec(self, sp):
        s = self.s
        m = {'integer': ['integer'], 'real': ['real'], 'boolean': ['boolean'],
             'iarray': ['integer', 'array'], 'rarray': ['real', 'array'], 'barray': ['boolean', 'array'],
             'procedure': ['procedure'], 'iproc': ['integer', 'procedure'], 'rproc': ['real', 'procedure'],
             'bproc': ['boolean', 'procedure'], 'label': ['label'], 'switch': ['switch'], 'string': ['string']}
        return ' '.join(s.kw(w) for w in m[sp])

    def program(self, block):
        return self.st(block) + self.s.nl()


def string_text(t):
    return '|<' + t + '|>'


# ================================================================== interpreter
class Cell:
    __slots__ = ('t', 'v')

    def __init__(self, t):
        self.t = t
        self.v = None


class Arr:
    __slots__ = ('t', 'bounds', 'strides', 'base', 'size', 'd')

    def __init__(self, t, bounds):
        self.t, self.bounds = t, bounds
        st = 1
        self.strides = []
        self.base = 0
        for lo, hi in bounds:
            self.strides.append(st)
            self.base += st * lo
            st *= hi - lo + 1
        self.size = st
        self.d = {}


class Env:
    __slots__ = ('b', 'up', 'res', 'owner', 'labels')

    def __init__(self, up):
        self.b = {}
        self.up = up
        self.res = None
        self.owner = None
        self.labels = None

    def find(self, n):
        e = self
        while e is not None:
            r = e.b.get(n)
            if r is not None:
                return r
            e = e.up
        raise KeyError(n)


class Proc:
    __slots__ = ('d', 'env')

    def __init__(self, d, env):
        self.d, self.env = d, env


class Name:
    __slots__ = ('a', 'env')     # actual, environment of the call

    def __init__(self, a, env):
        self.a, self.env = a, env


class Lab:
    __slots__ = ('name', 'env')

    def __init__(self, name, env):
        self.name, self.env = name, env


class Sw:
    __slots__ = ('items', 'env')

    def __init__(self, items, env):
        self.items, self.env = items, env


class Jump(Exception):
    def __init__(self, lab):
        self.lab = lab


TRUE, FALSE = ('i', 0), ('i', 1)
T = {'integer': 'i', 'real': 'r', 'boolean': 'b'}


class Interp:
    def __init__(self, max_steps=20000, max_depth=40, stdin=None):
        self.out = []
        self.steps = 0
        self.max_steps = max_steps
        self.depth = 0
        self.max_depth = max_depth
        self.feat = set()
        self.count = {}
        self.own = {}
        self.max_array = 3000
        self.strict_bounds = False

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            raise TooLong()

    def hit(self, f):
        self.count[f] = self.count.get(f, 0) + 1

    # ---- running
    def run(self, block):
        """returns (stdout text, error or None)"""
        try:
            self.block(block, None)
            return ''.join(self.out), None
        except AlgolError as e:
            self.hit('error:' + str(e))
            return ''.join(self.out), str(e)

    def block(self, x, up, is_body=False):
        env = Env(up)
        for d in x[1]:
            self.declare(d, env)
        env.labels = set()
        self.collect_labels(x[2], env)
        self.stmts(x[2], env)

    def collect_labels(self, sts, env):
        """labels of this block: also those inside its compound and conditional statements"""
        for s in sts:
            while s[0] == 'lab':
                env.b[s[1]] = Lab(s[1], env)
                s = s[2]
            if s[0] == 'comp':
                self.collect_labels(s[1], env)
            elif s[0] == 'if':
                self.collect_labels([y for y in s[2:4] if y], env)
            elif s[0] == 'for':
                self.collect_labels([s[3]], env)

    def stmts(self, sts, env):
        i = 0
        n = len(sts)
        while i < n:
            try:
                while i < n:
                    self.stmt(sts[i], env)
                    i += 1
            except Jump as j:
                if j.lab.env is not env:
                    raise
                k = self.find_label(sts, j.lab.name)
                if k is None:
                    raise
                i = k
                self.tick()

    def find_label(self, sts, name):
        for k, s in enumerate(sts):
            while s[0] == 'lab':
                if s[1] == name:
                    return k
                s = s[2]
        return None

    def declare(self, d, env):
        k = d[0]
        if k == 'vars':
            for n in d[3]:
                if d[2]:
                    key = (id(d), n)
                    if key not in self.own:
                        self.own[key] = Cell(T[d[1]])
                        self.own[key].v = {'i': ('i', 0), 'r': X.RZERO, 'b': TRUE}[T[d[1]]]
                    env.b[n] = self.own[key]
                else:
                    env.b[n] = Cell(T[d[1]])
        elif k == 'array':
            for names, bounds in d[3]:
                # X1 evaluates the bounds once per segment, in order
                bs = []
                for lo, hi in bounds:
                    l = self.num(lo, env)
                    h = self.num(hi, env)
                    if l[0] != 'i' or h[0] != 'i':
                        raise Ambiguous('real bound')
                    bs.append((X.word_to_int(l[1]), X.word_to_int(h[1])))
                for lo, hi in bs:
                    if hi < lo:
                        raise AlgolError('bounds') if self.strict_bounds else Ambiguous('empty array')
                for n in names:
                    a = Arr(T[d[1]], bs)
                    if a.size > self.max_array:
                        raise TooLong()
                    if d[2]:
                        key = (id(d), n)
                        a = self.own.setdefault(key, a)
                    env.b[n] = a
        elif k == 'proc':
            env.b[d[2]] = Proc(d, env)
        elif k == 'switch':
            env.b[d[1]] = Sw(d[2], env)

    # ---- statements
    def stmt(self, s, env):
        self.tick()
        k = s[0]
        if k == 'lab':
            self.stmt(s[2], env)
        elif k == 'asg':
            ts = [self.target(t, env) for t in s[1]]
            v = self.ev(s[2], env)
            for t in reversed(ts):
                self.store(t, v)
        elif k == 'if':
            if self.boolv(s[1], env):
                self.stmt(s[2], env)
            elif s[3] is not None:
                self.stmt(s[3], env)
        elif k == 'comp':
            self.stmts(s[1], env)
        elif k == 'block':
            self.block(s, env)
        elif k == 'for':
            self.for_(s, env)
        elif k == 'goto':
            self.goto(s[1], env)
        elif k == 'call' and s[1] == 'PRINTTEXT':
            self.printtext(s[2][0], env)
        elif k == 'call':
            self.call(env.find(s[1]), s[2], env, False)
        elif k == 'print':
            vs = [self.ev(e, env) for e in s[1]]
            self.out.append(' '.join(X.fmt(v) for v in vs))
        elif k == 'nlcr':
            self.out.append('\n')
        elif k == 'text':
            self.out.append(s[1])
        elif k == 'nop':
            pass
        else:
            raise ValueError(k)

    def printtext(self, a, env):
        while a[0] != 't':
            self.hit('string-formal')
            b = env.find(a[1])
            a, env = b.a, b.env
        self.out.append(a[1])

    def goto(self, d, env):
        self.tick()
        lab = self.desig(d, env)
        self.hit('goto')
        if lab.env is not env:
            self.hit('goto-nonlocal')
        raise Jump(lab)

    def desig(self, d, env):
        if d[0] == 'lab':
            b = env.find(d[1])
            while isinstance(b, Name):
                self.hit('label-formal')
                b, env = self.act_label(b)
            return b
        if d[0] == 'ifd':
            return self.desig(d[2] if self.boolv(d[1], env) else d[3], env)
        b = env.find(d[1])
        while isinstance(b, Name):
            b = b.env.find(b.a[1])
        v = self.num(d[2], env)
        if v[0] != 'i':
            raise Ambiguous('real switch index')
        i = X.word_to_int(v[1])
        if i < 1 or i > len(b.items):
            raise Ambiguous('switch index')
        self.hit('switch')
        return self.desig(b.items[i - 1], b.env)

    def act_label(self, b):
        if b.a[0] == 'd':      # designational expression as actual
            return self.desig(b.a[1], b.env), b.env
        r = b.env.find(b.a[1])
        return r, b.env

    def for_(self, s, env):
        _, tgt, elems, body = s

        def run_body():
            self.hit('for-iter')
            # a label inside the body can only be reached from within: handled by stmts of a compound body
            self.stmt(body, env)
        # X1: the controlled variable is located anew after each pass; an element that is exhausted hands
        # the location it used last to the next element
        t = None

        def loc():
            return self.target(tgt, env) if t is None else t
        for el in elems:
            if el[0] == 'e':
                t = loc()
                self.store(t, self.numv(el[1], env))
                run_body()
                t = None
                self.hit('for-expr')
            elif el[0] == 'wh':
                while True:
                    self.tick()
                    t = loc()
                    self.store(t, self.numv(el[1], env))
                    if not self.boolv(el[2], env):
                        break
                    run_body()
                    t = None
                self.hit('for-while')
            else:
                self.tick()
                t = loc()
                a = self.numv(el[1], env)
                b = self.numv(el[2], env)
                c = self.numv(el[3], env)
                n = 0
                while True:
                    self.store(t, a)
                    sg = X.word_to_int(X.sign(b)[1])
                    # the value compared with the limit is the one just computed; storing it in V may round it
                    if T_kind(t) == 'i' and a[0] == 'r' and X.frac(a).denominator != 1:
                        raise Ambiguous('rounded controlled variable')
                    d = X.cmp(a, c)
                    if d * sg > 0:
                        break
                    n += 1
                    run_body()
                    t = None
                    self.tick()
                    t = loc()
                    b = self.numv(el[2], env)
                    a = X.add(self.load(t), b)
                    c = self.numv(el[3], env)
                self.hit('for-step')
                if n == 0:
                    self.hit('for-step-empty')
        if t is None:
            # the address is computed once more before the list turns out to be exhausted
            self.target(tgt, env)

    # ---- targets: (holder, key)
    def target(self, t, env):
        if t[0] == 'sub':
            return self.element(t, env)
        n = t[1]
        e = env
        while e is not None:
            b = e.b.get(n)
            if b is not None:
                break
            e = e.up
        else:
            raise KeyError(n)
        if isinstance(b, Name):
            self.hit('assign-name')
            a = b.a
            self.enter()
            try:
                return self.target(a[1], b.env)
            finally:
                self.depth -= 1
        if isinstance(b, Cell):
            return b
        if isinstance(b, Proc):
            # function value of the innermost activation in the static chain
            e = env
            while e is not None and e.owner is not b.d:
                e = e.up
            if e is None:
                raise Ambiguous('assignment to function outside it')
            return e
        raise Ambiguous('target')

    def arr(self, name, env):
        b = env.find(name)
        while isinstance(b, Name):
            b = b.env.find(b.a[1])
        return b

    def element(self, t, env):
        a = self.arr(t[1], env)
        idx = []
        for e in t[2]:
            v = self.num(e, env)
            n = X.word_to_int(v[1]) if v[0] == 'i' else X.round_half_away(X.frac(v))
            idx.append(n)
        return self.elem_at(a, idx)

    def elem_at(self, a, idx):
        if len(idx) != len(a.bounds):
            raise AlgolError('number of subscripts') if self.strict_bounds else Ambiguous('dimensions')
        lin = sum(i * s for i, s in zip(idx, a.strides)) - a.base
        if lin < 0 or lin >= a.size:
            raise AlgolError('index')
        for i, (lo, hi) in zip(idx, a.bounds):
            if not lo <= i <= hi:
                raise Ambiguous('index outside a dimension but inside the array')
        return (a, lin)

    def store(self, t, v):
        if isinstance(t, tuple):
            a, i = t
            self.hit('store-elem')
            a.d[i] = conv(a.t, v)
        elif isinstance(t, Cell):
            t.v = conv(t.t, v)
        else:
            k = t.owner[1]
            if k is None:
                raise Ambiguous('assignment to proper procedure')
            want = 'r' if k == 'real' else 'i'
            if v[0] != want:
                raise Ambiguous('function value of other type')
            t.res = v

    def load(self, t):
        if isinstance(t, tuple):
            v = t[0].d.get(t[1])
        elif isinstance(t, Cell):
            v = t.v
        else:
            raise Ambiguous('load of function value')
        if v is None:
            raise Ambiguous('uninitialised')
        return v

    # ---- expressions
    def boolv(self, e, env):
        v = self.ev(e, env)
        return v[1] == 0

    def num(self, e, env):
        return self.ev(e, env)

    numv = num

    def enter(self):
        self.depth += 1
        if self.depth > self.max_depth:
            raise TooLong()

    def ev(self, e, env):
        self.tick()
        k = e[0]
        if k == 'num':
            return e[2]
        if k == 'bool':
            return TRUE if e[1] else FALSE
        if k == 'var':
            b = env.find(e[1])
            if isinstance(b, Cell):
                if b.v is None:
                    raise Ambiguous('uninitialised')
                return b.v
            if isinstance(b, Name):
                return self.name_value(b)
            if isinstance(b, Proc):
                return self.call(b, [], env, True)
            raise Ambiguous('value of ' + e[1])
        if k == 'sub':
            return self.load(self.element(e, env))
        if k == 'bin':
            a = self.ev(e[2], env)
            b = self.ev(e[3], env)
            return binop(e[1], a, b, self)
        if k == 'neg':
            return X.neg(self.ev(e[1], env))
        if k == 'pos':
            return self.ev(e[1], env)
        if k == 'not':
            return TRUE if self.ev(e[1], env)[1] != 0 else FALSE
        if k == 'if':
            self.hit('if-expr')
            return self.ev(e[2] if self.boolv(e[1], env) else e[3], env)
        if k == 'call':
            b = env.find(e[1])
            return self.call(b, e[2], env, True)
        if k == 'std':
            return std(e[1], self.ev(e[2], env))
        raise ValueError(k)

    def name_value(self, b):
        self.hit('name-value')
        a = b.a
        self.enter()
        try:
            if a[0] == 'e':
                return self.ev(a[1], b.env)
            if a[0] == 'p':
                return self.call(b.env.find(a[1]), [], b.env, True)
            raise Ambiguous('value of non-expression')
        finally:
            self.depth -= 1

    def call(self, b, actuals, env, want_value):
        self.tick()
        while isinstance(b, Name):
            self.hit('call-formal')
            if b.a[0] == 'e' and b.a[1][0] == 'var':
                b = b.env.find(b.a[1][1])
            elif b.a[0] == 'p':
                b = b.env.find(b.a[1])
            else:
                raise Ambiguous('call of non-procedure')
        if isinstance(b, tuple):
            raise Ambiguous('std proc')
        if not isinstance(b, Proc):
            raise Ambiguous('call of non-procedure')
        d = b.d
        if len(d[3]) != len(actuals):
            raise Ambiguous('arity')
        self.enter()
        self.hit('call')
        try:
            fr = Env(b.env)
            fr.owner = d
            names = []
            for (pn, spec, isval), a in zip(d[3], actuals):
                nm = Name(a, env)
                # pass-through of a formal keeps the original environment by itself
                names.append((pn, spec, isval, nm))
                fr.b[pn] = nm
            # value parameters are evaluated on entry, in order of the formal list
            # (an array whose elements change meanwhile has no defined value: the report gives no order)
            before = [(n[3], dict(self.arr(n[3].a[1], n[3].env).d)) for n in names if n[2] and n[1].endswith('array')]
            for late in (False, True):
                for pn, spec, isval, nm in names:
                    if isval and spec.endswith('array') == late:
                        fr.b[pn] = self.value_param(spec, nm)
                        self.hit('value-param')
            for nm, d0 in before:
                if self.arr(nm.a[1], nm.env).d != d0:
                    raise Ambiguous('order of value parameters')
            if want_value and d[1] is None:
                raise Ambiguous('value of proper procedure')
            body = d[4]
            if body[0] == 'block':
                self.block(body, fr)
            else:
                fr.labels = set()
                self.collect_labels([body], fr)
                self.stmts([body], fr)
            if want_value:
                if fr.res is None:
                    raise Ambiguous('function without value')
                return fr.res
        finally:
            self.depth -= 1

    def value_param(self, spec, nm):
        if spec in ('iarray', 'rarray', 'barray'):
            src = self.arr(nm.a[1], nm.env)
            t = {'iarray': 'i', 'rarray': 'r', 'barray': 'b'}[spec]
            a = Arr(t, src.bounds)
            self.hit('value-array')
            for i in range(src.size):
                v = src.d.get(i)
                if v is None:
                    raise Ambiguous('uninitialised')
                a.d[i] = conv(t, v)
                self.tick()
            return a
        v = self.name_value(nm)
        c = Cell(T[spec])
        c.v = conv(c.t, v)
        return c


def T_kind(t):
    if isinstance(t, tuple):
        return t[0].t
    return t.t if isinstance(t, Cell) else None


def conv(t, v):
    if t == 'i':
        return X.to_int(v)
    if t == 'r':
        return X.to_real(v)
    return v


def isqrt_real(v):
    f = X.frac(v)
    if f < 0:
        raise AlgolError('sqrt of negative')
    if f == 0:
        return X.to_real(v) if v[0] == 'r' else X.RZERO
    num, den = f.numerator, f.denominator
    # integer square root with plenty of bits; sticky bit for exactness
    sh = 150 + den.bit_length()
    if (den.bit_length() - 1) & 1:
        num *= 2
        den *= 2
    q = (num << (2 * sh)) // den
    r = isqrt(q)
    exact = r * r * den == num << (2 * sh)
    m = r * 2 + (0 if exact else 1)
    mm, e = X.rne(m, 1, 64)
    return X.encode(0, mm, e - 1 - sh)


def std(f, v):
    if f == 'abs':
        return X.absr(v)
    if f == 'sign':
        return X.sign(v)
    if f == 'entier':
        return X.entier(v)
    if f == 'sqrt':
        return isqrt_real(v)
    raise ValueError(f)


def near_tie(f):
    """is |f| so close to the middle between two 40-bit numbers that a few 64-bit roundings may decide?"""
    f = abs(f)
    m, e = X.rne(f.numerator, f.denominator, 100)
    low = m & ((1 << 60) - 1)
    half = 1 << 59
    return low != half and abs(low - half) < 1 << 46


def power(a, b):
    if b[0] != 'i':
        raise Ambiguous('real exponent')
    n = X.word_to_int(b[1])
    fa = X.frac(a)
    if n == 0:
        if fa == 0:
            raise AlgolError('0^0')
        return ('i', 1) if a[0] == 'i' else X.real_of_int(1)
    if fa == 0 and n < 0:
        raise AlgolError('division by zero')
    if a[0] == 'i' and n > 0:
        p = X.power_int(a, n)
        if p is None:
            raise AlgolError('integer overflow')
        return p
    if fa == 0:
        return X.RNEGZERO if X.is_neg(a) and n & 1 else X.RZERO
    if abs(n) > 64:
        raise Ambiguous('big exponent')
    r = fa ** abs(n)
    if n < 0:
        r = 1 / r
    if near_tie(r):
        raise Ambiguous('power near a tie')
    return X.real_of_frac(r)


def binop(op, a, b, it=None):
    if op == '+':
        return X.add(a, b)
    if op == '-':
        return X.add(a, b, True)
    if op == '×':
        return X.mul(a, b)
    if op == '/':
        return X.div(a, b)
    if op == '÷':
        return X.idiv(a, b)
    if op == '↑':
        return power(a, b)
    if op in '<≤=≥>≠':
        c = X.cmp(a, b)
        r = {'<': c < 0, '≤': c <= 0, '=': c == 0, '≥': c >= 0, '>': c > 0, '≠': c != 0}[op]
        return TRUE if r else FALSE
    x, y = a[1] == 0, b[1] == 0
    r = {'∧': x and y, '∨': x or y, '⊃': (not x) or y, '≡': x == y}[op]
    return TRUE if r else FALSE
