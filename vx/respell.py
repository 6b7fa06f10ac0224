"""Tokens of Algol source texts, and random spellings of token sequences (for metamorphic checks)."""
import re

STD = set('read print TAB NLCR XEEN SPACE stop abs sign sqrt sin cos arctan ln exp entier FLOT FIXT ABSFIXT SUM PRINTTEXT EVEN RESYM '
          'PRSYM RANDOM SETRANDOM TIMEOFDAY'.split())
# symbol -> spellings
OPS = {'×': ['×', '*'], '÷': ['÷', '_:'], '↑': ['↑', '|∧'], '≥': ['≥', '_>'], '≤': ['≤', '_<'], '≠': ['≠', '|='], '⊃': ['⊃', '_¬'],
       '≡': ['≡', '_='], '⏨': ['⏨', '@']}
CANON = {t: k for k, v in OPS.items() for t in v}
TOK = re.compile(r'(?P<word>(?:_[A-Za-z])+)|(?P<open>`|\|<)|(?P<asg>:=)|(?P<id>[A-Za-z][A-Za-z0-9]*)|(?P<num>[0-9.][0-9.]*|⏨|@)|'
                 r'(?P<op>\|∧|\|=|_[<>=:¬]|[-+×*÷/↑≥≤≠⊃≡<>=¬∧∨,:;()\[\]])|(?P<ws>\s+)', re.S)


def tokens(text):
    """list of (kind, text); strings are one token (kind 'str', symbols between the outer quotes)"""
    out = []
    i = 0
    # underlining by U+0332 is turned into the plain form first
    text = re.sub('(.)\u0332', lambda m: m.group(1) if m.group(1).isspace() else '_' + m.group(1), text)
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise ValueError('no token at %r' % text[i:i + 30])
        k, t = m.lastgroup, m.group(0)
        i = m.end()
        if k == 'open':
            d, j = 1, i
            while d:
                if text.startswith('|<', j) or text[j] == '`':
                    d += 1
                    j += 1 + (text[j] == '|')
                elif text.startswith('|>', j) or text[j] == "'":
                    d -= 1
                    e = j
                    j += 1 + (text[j] == '|')
                else:
                    j += 1
            out.append(('str', text[i:e]))
            i = j
        elif k == 'word' and t == '_c_o_m_m_e_n_t':
            i = text.index(';', i) + 1
            if out and out[-1] == ('op', ';'):
                pass
        elif k == 'ws':
            pass
        elif k == 'word':
            out.append(('word', t.replace('_', '').lower()))
            if t == '_e_n_d':
                # comment after end
                m = re.compile(r';|_e_n_d|_e_l_s_e').search(text, i)
                i = m.start() if m else len(text)
        elif k == 'op':
            out.append(('op', CANON.get(t, t)))
        elif k == 'num':
            out.append(('num', CANON.get(t, t)))
        elif k == 'asg':
            out.append(('op', ':='))
        elif k in ('id', 'num') and out and out[-1][0] == 'id':
            out[-1] = ('id', out[-1][1] + t)         # layout within an identifier
        else:
            out.append((k, t))
    return out


LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def rename(s, toks, forbid=()):
    """consistent renaming; names stay different in their first nine characters"""
    names = sorted({t for k, t in toks if k == 'id' and t not in STD})
    used = {n[:9] for n in STD} | set(forbid)
    m = {}
    for n in names:
        while True:
            k = s.draw(6)
            if k == 0:
                c = s.choice(LETTERS)
            elif k == 1:
                c = ''.join([s.choice(LETTERS)] + [s.choice(LETTERS + '0123456789') for _ in range(s.draw(4))])
            elif k == 2:
                c = ''.join([s.choice(LETTERS)] + [s.choice(LETTERS + '0123456789') for _ in range(s.rint(4, 8))])
            elif k == 3:    # long, differing late
                c = s.choice(['abcd', 'Zzzz', 'a000', 'longer']) + ''.join(s.choice('abZz09') for _ in range(s.rint(1, 5)))
            elif k == 4:
                c = ''.join([s.choice(LETTERS)] + [s.choice(LETTERS + '0123456789ZZZ') for _ in range(s.rint(9, 30))])
            else:
                c = s.choice('aZ') + s.choice(['', '0', '00', '000', '0000', '00000', 'Z', 'ZZ', 'ZZZ', 'ZZZZ'])
            if c[:9] not in used:
                break
        used.add(c[:9])
        m[n] = c
    # a name may be written with other letters after the ninth in each place
    return m


class Speller:
    """writes a token sequence in a random style"""

    def __init__(self, s, comments=True):
        self.s = s
        self.comments = comments
        self.density = s.choice([0, 2, 6, 12, 30])         # of layout
        self.form = s.draw(5)                              # of word delimiters
        self.labels = set()

    def word(self, w):
        s = self.s
        if w == 'boolean' and s.draw(2):
            w = 'Boolean'
        f = self.form if self.form < 3 else s.draw(3)
        if f == 0:
            return ''.join('_' + c for c in w)
        if f == 1:
            self.labels.add('combining underline')
            return ''.join(c + '\u0332' for c in w)
        self.labels.add('mixed and repeated underlines')
        return ''.join(s.choice(['_' + c, '__' + c, c + '\u0332', '___' + c]) for c in w)

    def ws(self, must=False):
        s = self.s
        if not must and s.draw(100) >= self.density * 3:
            return ''
        return ''.join(s.choice([' ', '\n', '\t', '\r\n', '  ', ' \n ', '\n\n\n']) for _ in range(s.rint(1, 2)))

    def inner(self, t):
        """layout within identifiers and numbers"""
        s = self.s
        if self.density < 12 or len(t) < 2:
            return t
        self.labels.add('layout within names and numbers')
        return ''.join(c + (s.choice([' ', '\n', '\t']) if s.draw(8) == 0 else '') for c in t)

    COMMENT = 'abcxyz ABZ 019 . , : := + - × / ( ) [ ] ⏨ < > = ≤ ∧ ¬ @ \n \t ` \' ! # $ % & ? " { } | _ ~ ^ \\'.split(' ')
    ENDCOM = 'abcxyz ABZ 019 . , : := + - × / ( ) [ ] ⏨ < > = ≤ ∧ ¬ @ \n \t ` \' |= _<'.split(' ')
    WORDS = ['begin', 'if', 'then', 'for', 'procedure', 'own', 'goto', 'array', 'do', 'true']

    def comment(self):
        s = self.s
        self.labels.add('comment')
        body = ''.join(s.choice(self.COMMENT) + s.choice(['', '', ' ']) for _ in range(s.draw(25)))
        return self.word('comment') + s.choice([' ', ' ', '\n', '']) + (' ' if body[:1] == '_' else '') + body + ';'

    def endcomment(self):
        s = self.s
        self.labels.add('comment after end')
        r = []
        for _ in range(s.rint(1, 8)):
            k = s.draw(8)
            if k == 0:
                r.append(' ' + self.word(s.choice(self.WORDS)) + ' ')
            else:
                r.append(s.choice(self.ENDCOM) + s.choice(['', ' ']))
        return ' ' + ''.join(r) + ' '

    def write(self, toks, names=None):
        s = self.s
        out = [self.ws()]
        prev = None
        depth = 0
        for i, (k, t) in enumerate(toks):
            if k == 'word':
                x = self.word(t)
            elif k == 'id':
                n = names.get(t, t) if names else t
                if len(n) >= 9 and t not in STD and s.p(30):
                    self.labels.add('different characters after the ninth')
                    n = n[:9] + ''.join(s.choice(LETTERS + '0123456789') for _ in range(s.draw(12)))
                elif len(t) >= 9 and not names:
                    n = t
                x = self.inner(n)
            elif k == 'num':
                x = self.inner(t if t != '⏨' else s.choice(OPS['⏨']))
            elif k == 'str':
                q = s.choice([('`', "'"), ('|<', '|>')])
                x = q[0] + t + q[1]
            else:
                x = t
                if t in OPS:
                    x = s.choice(OPS[t])
                    if x[0] in '_|' and s.draw(6) == 0:
                        x = x[0] + x
                    if x != OPS[t][0]:
                        self.labels.add('digraph')
            # symbols that would run together
            must = prev == 'word' and x[:1] == '_' or prev == 'word' and k == 'word'
            if prev == 'colon' and x[:1] == '=':
                must = True
            out.append(self.ws(must))
            out.append(x)
            prev = 'word' if k == 'word' else 'colon' if t == ':' and k == 'op' else k
            if self.comments and k in ('op', 'word') and i + 1 < len(toks):
                if (t == ';' or t == 'begin') and k != 'id' and s.draw(12) == 0:
                    out.append(self.ws(t == 'begin'))
                    out.append(self.comment())
                    prev = 'op'
                elif t == 'end' and s.draw(6) == 0:
                    out.append(self.endcomment())
                    prev = 'word'
        out.append(s.choice(['', '\n', ' ', '\n\n']))
        return ''.join(out)
