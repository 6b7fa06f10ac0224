"""Builder of X1 object programs (.x1 files) from run-time operator codes (the library and object-file interface)."""

OPC = {n: int(v) for n, v in (p.split('=') for p in (
    'ETMR=8 ETMP=9 RET=12 EIS=13 TRAD=14 TRAS=15 TIAD=16 TIAS=17 TFA=18 GTA=28 SSI=29 CAC=30 TRRD=31 TRRS=32 TIRD=33 '
    'TIRS=34 TFR=35 ADRD=36 ADRS=37 ADID=38 ADIS=39 ADF=40 SURD=41 SURS=42 SUID=43 SUIS=44 SUF=45 MURD=46 MURS=47 '
    'MUID=48 MUIS=49 MUF=50 DIRD=51 DIRS=52 DIID=53 DIIS=54 DIF=55 IND=56 NEG=57 TAR=58 ADD=59 SUB=60 MUL=61 DIV=62 '
    'IDI=63 TTP=64 MOR=65 LST=66 EQU=67 MST=68 LES=69 UQU=70 NON=71 AND=72 OR=73 IMP=74 QVL=75 abs=76 sign=77 sqrt=78 '
    'sin=79 cos=80 arctan=81 ln=82 exp=83 entier=84 ST=85 STA=86 STP=87 STAP=88 SCC=89 RSF=90 ISF=91 RVA=92 IVA=93 '
    'LAP=94 VAP=95 START=96 STOP=97 TFP=98 TAS=99 read=102 print=103 TAB=104 NLCR=105 XEEN=106 SPACE=107 stop=108 '
    'FLOT=110 FIXT=111 ABSFIXT=112').split())}

START = 10165
RELOP = {'>': 'MOR', '≥': 'LST', '=': 'EQU', '≤': 'MST', '<': 'LES', '≠': 'UQU'}
BINOP = {'+': 'ADD', '-': 'SUB', '×': 'MUL', '/': 'DIV', '÷': 'IDI', '↑': 'TTP', '∧': 'AND', '∨': 'OR', '⊃': 'IMP',
         '≡': 'QVL', **RELOP}


class Obj:
    """straight-line object programs with a pool of constants"""

    def __init__(self):
        self.code = [OPC['START']]
        self.fix = []
        self.consts = []
        self.index = {}
        self.nvars = 0

    def op(self, *names):
        for n in names:
            self.code.append(OPC[n])
        return self

    def const(self, v):
        if v not in self.index:
            self.index[v] = len(self.consts)
            if v[0] == 'i':
                self.consts.append(v[1])
            else:
                self.consts += [v[1] >> 27, v[1] & 0x7FFFFFF]
        return self.index[v]

    def baddr(self, v):
        """2B addr A with the address of constant v"""
        self.fix.append((len(self.code), self.const(v)))
        self.code.append(71827456)
        return self

    def take(self, v):
        """push number v"""
        self.baddr(v)
        return self.op('TIRS' if v[0] == 'i' else 'TRRS')

    def vaddr(self, a):
        """2B addr A with a variable address (below the program)"""
        self.code.append(71827456 + a)
        return self

    def text(self):
        # Algol programs end below this address; variables start at 138
        base = START - len(self.code) - len(self.consts)
        base = min(base, 10000)
        ca = base + len(self.code)
        words = list(self.code)
        for pos, idx in self.fix:
            words[pos] += ca + idx
        words += self.consts
        lines = [' %d %d %d' % (base >> 10, base >> 5 & 31, base & 31)] * 2
        lines += ['%d %d' % (base + i, w) for i, w in enumerate(words)]
        return '\n'.join(lines) + '\n'
