"""P25: machine instructions in object programs, against a model of the X1's registers"""
from checks.common import *
from checks.numgen import g_int, check_lines
from vx import obj as O

M27 = (1 << 27) - 1
SIGN = 1 << 26
VARS = 200           # addresses of variables, below the program
NV = 12


def word(fn, variant, addr):
    """function number, variants (octal digits for address modification, condition setting and reaction), address"""
    return (fn << 21) | (variant << 15) | (addr & 0x7FFF)


# name: (function, variants)
OPS = {'2A n A': (0o02 >> 0, 0o20), '3A n A': (0o03, 0o20), '6A n': (0o06, 0), '2S n': (0o12, 0), '2S n A': (0o12, 0o20), '2S n B': (0o12, 0o40),
       '6S n': (0o16, 0), '0LS Z': (0o34, 0o31), '2LS n A': (0o36, 0o20), '0B n A': (0o40, 0o20), '2B n': (0o42, 0), '2B n A': (0o42, 0o20),
       '2B n B': (0o42, 0o40), '6B n': (0o46, 0), '2T n A': (0o52, 0o20), '1P AA E': (0o67, 0o14), '1P SS E': (0o67, 0o14), '3P AA': (0o77, 0),
       '3P SS': (0o77, 0), '2A top P': (0o02, 0o44), '6A top': (0o06, 0o40), '3A type Z': (0o03, 0o50), '7P': (0o67, 0o00)}


def signed(w):
    return w if not w & SIGN else w - M27


class Reported(Exception):
    pass


class Prog:
    """a straight piece of machine code with jumps inside; simulated while it is written down"""

    def __init__(self, s):
        self.s = s
        self.at = s.choice([VARS, s.rint(140, 9000), 4096 - s.draw(12), 8192 - s.draw(12)])
        self.mem = [X.iv(g_int(s))[1] for _ in range(NV)]
        for k in range(3):
            self.mem[k] = s.rint(0, 30)               # useful as indexes and amounts
        self.code = []                                # (text, word or (opcode, target))
        self.lab = set()
        self.steps = 0

    def emit(self, name, addr, react=''):
        fn, v = OPS[name]
        v |= {'': 0, 'Y': 2, 'N': 3}[react]
        self.code.append((react, name, addr, word(fn, v, addr if isinstance(addr, int) else 0)))

    def one(self, deep=0):
        s = self.s
        react = s.choice(['', '', '', '', 'Y', 'N'])
        k = s.draw(19)
        small = s.choice([0, 1, 255, 0x7FFF, s.draw(0x8000), 1 << s.draw(15)])
        v = self.at + s.draw(NV)
        to = self.at + 3 + s.draw(NV - 3)
        amt = s.draw(28)
        if k == 0:
            self.emit('2A n A', small, react)
        elif k == 1:
            self.emit('3A n A', small, react)
        elif k == 2:
            self.emit('6A n', to, react)
        elif k in (3, 4):
            self.emit('2S n', v, react)
        elif k == 5:
            self.emit('2S n A', small, react)
        elif k == 6:
            # B is made an index first
            j = s.draw(NV)
            b = s.draw(3000)
            if s.p(50):
                self.emit('2B n A', b)
                self.emit('2S n B', self.at + j - b, react) if self.at + j - b >= 0 else self.emit('2S n A', j, react)
            else:
                self.emit('2B n', self.at + s.draw(3))
                self.emit('2S n B', self.at + NV + 40, react)        # a table of constants follows
        elif k == 7:
            self.emit('6S n', to, react)
        elif k == 8:
            n = s.choice([255, 0, small])
            if s.p(60):
                # likely equal
                self.emit('2S n A', n ^ (0 if s.p(60) else 1 << s.draw(15)), react)
            self.emit('0LS Z', n)
        elif k == 9:
            self.emit('2LS n A', s.choice([255, small, 0x7FFF]), react)
        elif k == 10:
            self.emit('2B n A', s.draw(9000))
            self.emit('0B n A', s.draw(9000), react)
        elif k == 11:
            self.emit('2B n', self.at + s.draw(3), react)
        elif k == 12:
            j, b = s.draw(3), s.draw(150)
            self.emit('2B n A', b)
            self.emit('2B n B', self.at + j - b, react)
        elif k == 13:
            self.emit('6B n', to, react)
        elif k == 14:
            self.emit('1P AA E', amt, react)
        elif k == 15:
            self.emit('1P SS E', amt | 1 << 5, react)
        elif k == 16:
            self.emit('3P AA', amt, react)
        elif k == 17:
            self.emit('3P SS', amt | 1 << 5, react)
        elif deep < 2:
            # a jump over some of them
            at = len(self.code)
            self.emit('2T n A', None, s.choice(['Y', 'N', 'Y', 'N', '']))
            for _ in range(s.rint(1, 4)):
                self.one(deep + 1)
            self.code[at] = self.code[at][:2] + (('to', len(self.code)),) + self.code[at][3:]
            self.lab.add('jump')
        elif deep == 2:
            self.emit('2A n A', small, react)

    def run(self, top, kind, first):
        """the model; returns (top, printed memory) or raises Reported"""
        mem = list(self.mem)
        table = self.table
        A = S = B = 0
        C = L = 0
        pc = 0
        lab = self.lab

        def load(a):
            if self.at <= a < self.at + NV:
                return mem[a - self.at]
            return table[a - (self.at + NV + 40)]
        while pc < len(self.code):
            react, name, addr, w = self.code[pc]
            pc += 1
            if react == 'Y' and not C or react == 'N' and C:
                lab.add('not executed')
                continue
            if react:
                lab.add('executed ' + react)
            if name == '2A n A':
                A = addr
            elif name == '3A n A':
                A = M27 - addr
            elif name == '6A n':
                mem[addr - self.at] = A
            elif name == '2S n':
                S = load(addr)
            elif name == '2S n A':
                S = addr
            elif name == '2S n B':
                S = load(addr + B)
            elif name == '6S n':
                mem[addr - self.at] = S
            elif name == '0LS Z':
                C = int(S ^ addr == 0)
                lab.add('compared %d' % C)
            elif name == '2LS n A':
                S &= addr
            elif name == '0B n A':
                B += addr
            elif name == '2B n':
                B = load(addr)
            elif name == '2B n A':
                B = addr
            elif name == '2B n B':
                B = load(addr + B)
            elif name == '6B n':
                mem[addr - self.at] = B
            elif name == '2T n A':
                pc = addr[1]
            elif name in ('1P AA E', '1P SS E'):
                n = addr & 31
                r = A if name[3] == 'A' else S
                r = (r >> n | r << (27 - n)) & M27
                sg = r >> 26
                C = int(sg == L)
                L = sg
                lab.add('shifted round %d' % C)
                if name[3] == 'A':
                    A = r
                else:
                    S = r
            elif name in ('3P AA', '3P SS'):
                n = addr & 31
                r = A if name[3] == 'A' else S
                sg = r >> 26
                for _ in range(n):
                    r = r >> 1 | sg << 26
                if name[3] == 'A':
                    A = r
                else:
                    S = r
            elif name == '2A top P':
                A = top
                L = A >> 26
                C = 1 - L
            elif name == '6A top':
                top = A
            elif name == '3A type Z':
                C = int(kind == 'i')
                A = 0
            elif name == '7P':
                raise Reported()
        return top, mem


def case(ctx, s):
    P = Prog(s)
    P.table = [X.iv(g_int(s))[1] for _ in range(31)]
    top = X.iv(g_int(s))
    kind = 'i'
    o = O.Obj()
    # variables and the table get their values
    for i, w in list(enumerate(P.mem)) + [(NV + 40 + j, w) for j, w in enumerate(P.table)]:
        o.vaddr(P.at + i).op('TIAS').take(('i', w)).op('ST')
    pre = None
    if s.p(25):
        kind = s.choice('ir')
        pre = top if kind == 'i' else X.real_of_int(X.word_to_int(top[1]))
        if kind == 'r':
            P.lab.add('real on the stack')
    # C and L come from the number on top of the stack; A, S and B are set
    o.take(top)
    P.emit('2A top P', 0o77774)
    P.emit('2S n', P.at + s.draw(NV))
    P.emit('2B n A', s.draw(500))
    for _ in range(s.rint(2, 30)):
        P.one()
    final7 = s.choice(['Y', 'N']) if s.p(12) else None
    for i, (n, a) in enumerate([('6A n', P.at + 3), ('6S n', P.at + 4), ('6B n', P.at + 5)]):
        P.emit(n, a)
    P.emit('6A top', 0o77774)
    # the condition, made visible
    P.emit('2S n A', 0)
    P.emit('2S n A', 1, 'Y')
    P.emit('6S n', P.at + 6)
    if final7:
        P.emit('7P', 0o40000, final7)
    try:
        t, mem = P.run(top[1], 'i', None)
        err = None
    except Reported:
        err = ('7P executed',)
        P.lab.add('7P')
    start = len(o.code)
    for react, name, addr, w in P.code:
        o.code.append(w)
    o.op('print', 'NLCR')
    for i in range(NV):
        o.vaddr(P.at + i).op('TIRS', 'print', 'NLCR')
    if pre is not None:
        # the type of the cell on top decides the condition
        o.take(pre)
        o.code += [word(*OPS['3A type Z'], 0o77777), word(*OPS['2A n A'], 0), word(0o02, 0o22, 1), word(0o06, 0, P.at)]
        o.op('print', 'NLCR').vaddr(P.at).op('TIRS', 'print', 'NLCR')
    o.op('STOP')
    base = min(O.START - len(o.code) - len(o.consts), 10000)
    for i, (react, name, addr, w) in enumerate(P.code):
        if isinstance(addr, tuple):
            o.code[start + i] += base + start + addr[1]
    lines = []
    listing = ['%s %s %s' % (r, n, '%d' % a if isinstance(a, int) else 'to %d' % a[1]) for r, n, a, w in P.code]
    if err is None:
        lines.append((1, [(str(signed(t)),)], ('top of stack',)))
        for i in range(NV):
            lines.append((1, [(str(signed(mem[i])),)], ('variable', i)))
        if pre is not None:
            lines.append((1, [(X.fmt(pre),)], ('the number itself',)))
            lines.append((1, [('1' if kind == 'i' else '0',)], ('the condition after 3A 32767 X0 B Z', pre)))
    check_lines(ctx.run_x1(o.text()), lines, err, o, dict(instructions=listing, variables=P.mem))
    return dict(nontrivial=len(P.code) > 12, key=tuple(listing) + tuple(P.mem), evals=len(P.code), labels=sorted(P.lab | {n for r, n, a, w in P.code}),
                sample=listing[:20])


def case_count(ctx, s):
    """4T: loops counted in M[0]; jumps back by a number of words in memory"""
    o = O.Obj()
    lines, lab = [], set()
    keys = []
    for _ in range(s.rint(1, 5)):
        n = s.choice([1, 2, 0, s.rint(0, 60), s.rint(60, 400)])
        step = s.rint(1, 50)
        b0 = s.draw(900)
        k = s.rint(1, 3)
        # M[0] := n; B := b0; loop: k times B += step; 4T loop 0 P
        o.code.append(word(*OPS['2A n A'], n))
        o.code.append(word(*OPS['6A n'], 0))
        o.code.append(word(*OPS['2B n A'], b0))
        at = len(o.code)
        for _ in range(k):
            o.code.append(word(*OPS['0B n A'], step))
        o.code.append(('4T', at))
        o.code.append(word(*OPS['6B n'], VARS))
        o.vaddr(VARS).op('TIRS', 'print', 'NLCR')
        times = max(1, n)
        o.vaddr(0).op('TIRS', 'print', 'NLCR')
        lines.append((1, [(str(b0 + times * k * step),)], ('count', n, k, step)))
        # after the last pass the count is not positive
        lines.append((1, [('0',)] if n > 0 else [('-1',)], ('M[0] after', n)))
        keys.append((n, k, step, b0))
        lab.add('count %s' % ('0' if n == 0 else '1' if n == 1 else 'more'))
        if s.p(40):
            # 2T over a piece which is reached by 1T, a jump back over M[v] words more
            m = s.rint(1, 6)
            o.vaddr(VARS + 1).op('TIAS').take(X.iv(m + 1)).op('ST')
            o.code.append(word(*OPS['2B n A'], 7))
            o.code.append(('2T', len(o.code) + m + 2))
            for i in range(m):
                o.code.append(word(*OPS['0B n A'], 1 << i))
            o.code.append(('2T', len(o.code) + 2))
            o.code.append(word(0o51, 0, VARS + 1))
            o.code.append(word(*OPS['6B n'], VARS))
            o.vaddr(VARS).op('TIRS', 'print', 'NLCR')
            lines.append((1, [(str(7 + (1 << m) - 1),)], ('back over', m)))
            lab.add('1T')
            keys.append(('1T', m, len(o.code)))
    o.op('STOP')
    base = min(O.START - len(o.code) - len(o.consts), 10000)
    o.code = [c if not isinstance(c, tuple) else word(0o54, 0o04, base + c[1]) if c[0] == '4T' else word(*OPS['2T n A'], base + c[1]) for c in o.code]
    check_lines(ctx.run_x1(o.text()), lines, None, o)
    return dict(nontrivial=True, key=tuple(keys), evals=len(lines), labels=sorted(lab), sample=[str(k) for k in keys[:4]])


CHECK = Check('P25', [
    Sub('registers', case, 8000, 200000, 'different sequences of more than 12 instructions'),
    Sub('count', case_count, 2000, 40000, 'different counts and loops'),
])
