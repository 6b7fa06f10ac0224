"""P18: every object program and every input is survived by the simulator"""
import random, signal
from checks.common import *
from vx import respell as R
from vx.engine import Src
from vx.obj import OPC, START
import checks.p15 as p15

FUEL = 0.4       # seconds of processor time; a program which is still going then is taken as executing (never a verdict)

FEATURES = [
    "begin integer i; real x; array a[1:5,-2:2]; integer array b[0:9]; procedure p(f, n, v); value n, v; integer n; array v; procedure f; begin integer k; for k := 1 step 1 until n do f(v[k,0]) end;"
    " procedure q(x); real x; begin print(x); NLCR end; for i := 1 step 1 until 5 do begin a[i,0] := i/4; b[i] := i end; p(q, 4, a); p(q, 2, a); print(b[3] + a[2,0] × 3, sin(a[1,0])) end",
    "begin integer i, n; real s; real procedure f(n); value n; integer n; f := if n < 2 then 1 else n × f(n-1); switch w := l1, l2, if i > 2 then l1 else l2; n := 0; l1: n := n + 1; if n > 3 then goto l3; goto w[n];"
    " l2: n := n + 2; goto l1; l3: for s := 1, 2, s × 2 while s < 40, 3 step -1 until 0 do begin print(s, f(3)); NLCR end; i := entier(s) end",
    "begin real a, b; integer k; Boolean t; own integer z; for k := 1 step 1 until 4 do begin a := read; b := read; t := a > b ∧ ¬(b = 0) ∨ a ≤ 2; if t then FLOT(8, 2, a) else FIXT(6, 3, b); ABSFIXT(3, 1, a); z := z + 1 end; print(a ↑ 2, b ↑ k, k ↑ k) end",
    "begin integer k, s; s := 0; for k := 1 step 1 until 8 do s := s + RESYM; print(s, RANDOM, EVEN(s), XEEN(5)); PRSYM(10); SPACE(3); TAB; PRINTTEXT(`ab c'); SETRANDOM(4); print(RANDOM); stop; print(XEEN(77)) end",
    "begin integer i; real procedure SIGMA(i, a, b, x); value b; integer i, a, b; real x; begin real s; s := 0; for i := a step 1 until b do s := s + x; SIGMA := s end; print(SIGMA(i, 1, 9, SIGMA(i, 1, i, 1/i)), SUM(i, 1, 5, i × i));"
    " begin array c, d[1:i], e[2:3, 2:4]; c[2] := 8; d[1] := c[2] ÷ 1; e[2,3] := c[2]; print(d[1] / e[2,3]) end end",
]
READERS = [
    "begin l: print(read); NLCR; goto l end",
    "begin integer k; l: k := RESYM; print(k); PRSYM(k); NLCR; if k ≠ 255 then goto l end",
    "begin integer k; for k := 0 step 1 until 40 do begin print(XEEN(k × 77777)); if k ÷ 3 × 3 = k then stop; NLCR end end",
    "begin real x; integer k; for k := 1 step 1 until 30 do begin x := read; FLOT(9, 2, x); print(RESYM, x ↑ 2, entier(x)); if x = 3 then stop; print(XEEN(-1)) end end",
]
_pool, _read = [], []


def compiled(ctx, t):
    r = ctx.compile(t)
    return r.out.decode().strip('\n').split('\n') if r.rc == 0 else None


def setup(ctx):
    del _pool[:], _read[:]
    for t in READERS:
        o = compiled(ctx, kwtext(t))
        if o:
            _read.append(o)
    for t in FEATURES:
        o = compiled(ctx, kwtext(t))
        if o:
            _pool.append(o)
    i = 0
    while len(_pool) < 40 and i < 120:
        i += 1
        s = Src(random.Random(i).getrandbits(60))
        try:
            t = p15.program_tokens(s, set())
        except (Discard, Stop):
            continue
        if len(t) > 700:
            continue
        sp = R.Speller(s, comments=False)
        sp.density, sp.form = 0, 0
        o = compiled(ctx, sp.write(t))
        if o and len(o) < 900:
            _pool.append(o)


OPCODES = [0, 0o0220, 0o0244, 0o0320, 0o0350, 0o0400, 0o0600, 0o0640, 0o1200, 0o1220, 0o1240, 0o1600, 0o3431, 0o3620, 0o4020, 0o4200, 0o4220, 0o4240,
           0o4600, 0o5100, 0o5220, 0o5404, 0o6700, 0o6714, 0o7700]
ADDRS = [0, 1, 2, 3, 5, 8, 32, 33, 49, 50, 51, 64, 160, 161, 162, 193, 225, 0o77771, 0o77772, 0o77773, 0o77774, 0o77775, 0o77776, 0o77777, 0o40000, START]


def operand(s, words):
    k = s.draw(4)
    if k == 0:
        return s.choice(ADDRS)
    if k == 1:
        return s.choice(words) if words else s.draw(32768)
    if k == 2:
        return s.draw(40)
    return s.draw(32768)


def anyword(s, words):
    k = s.draw(10)
    if k < 3:
        return s.choice(sorted(OPC.values()))
    if k == 3:
        return s.draw(128)
    if k < 8:
        return (s.choice(OPCODES) | (s.draw(4) if s.p(10) else 0)) << 15 | operand(s, words)
    if k == 8:
        return s.choice([0, 1, 2, (1 << 27) - 1, (1 << 26) - 1, 1 << 26, (1 << 27) - 2, (1 << 26) + 1, 1 << 25])
    return s.draw(1 << 27)


def mutate(s, lines, lab):
    lines = list(lines)
    data = [i for i, l in enumerate(lines) if re.fullmatch(r' *\d+ +\d+', l)]
    words = [int(lines[i].split()[0]) for i in data]
    if not data:
        raise Discard('no program')
    for _ in range(1 if s.p(50) else s.rint(2, 12)):
        i, k = s.choice(data), s.draw(12)
        f = lines[i].split()
        if len(f) != 2:
            continue
        a, w = int(f[0]), int(f[1])
        if k < 4:
            w = anyword(s, words)
        elif k == 4:
            w ^= 1 << s.draw(27)
        elif k == 5:
            w = (w + s.choice([-1, 1, 2, -2, 8, -8, 32, -32, 1024])) % (1 << 27)
        elif k == 6:
            w = w >> 15 << 15 | operand(s, words)
        elif k == 7:
            w = (w & 0x7FFF) | s.choice(OPCODES) << 15
        elif k == 8:
            w = int(lines[s.choice(data)].split()[-1])
        elif k == 9:
            a = operand(s, words)
        elif k == 10:
            n = s.rint(1, 8)
            lines[i:i + n] = []
            data = [x for x in range(len(lines)) if re.fullmatch(r' *\d+ +\d+', lines[x])]
            lab.add('lines left out')
            if not data:
                break
            continue
        else:
            e = [x for x, l in enumerate(lines) if re.fullmatch(r' *\d+ +\d+ +\d+', l)]
            if e:
                t = operand(s, words)
                lines[s.choice(e)] = ' %d %d %d' % (t >> 10, t >> 5 & 31, t & 31)
                lab.add('entry changed')
            continue
        lines[i] = '%d %d' % (a, w)
    return lines


def sequence(s):
    """a program of its own making: a loop-free sequence of pushes and operators, sometimes with calls and frames"""
    n = s.rint(3, 60)
    base = 9000
    words = list(range(base, base + n + 8))
    out = []
    if s.p(60):
        out.append(OPC['START'])
    while len(out) < n:
        k = s.draw(12)
        if k < 4:       # push something
            out += [(0o4220 << 15) | s.choice(words + [138, 139, 140]), s.choice([OPC['TIRS'], OPC['TRRS'], OPC['TRAS'], OPC['TIAS']])]
        elif k < 8:
            out.append(s.choice([v for v in OPC.values() if 36 <= v <= 88 or v in (99, 102, 103, 105, 106, 107, 110, 111, 112)]))
        elif k == 8:    # call
            out += [(0o0220 << 15) | s.choice([0, 1, 2, 3]), (0o4220 << 15) | s.choice(words), s.choice([8, 9])]
        elif k == 9:    # local space, blocks
            out += [(0o4220 << 15) | s.choice([0, 1, 2, 3, 31, 32]), s.choice([OPC['SCC'], OPC['GTA'], OPC['STP'], OPC['STAP']])]
        elif k == 10:
            out += [(0o1220 << 15) | s.choice([1, 2, 3, 161, 162, 193, 194, 225]),
                    s.choice([OPC[x] for x in 'TRAD TIAD TFA TRRD TIRD TFR ADRD ADID ADF SURD MUID DIRD LAP VAP RVA IVA RSF ISF'.split()])]
        else:
            out.append(anyword(s, words))
    out += [OPC['STOP']]
    data = [s.choice([0, 1, 5, (1 << 27) - 1, 0o200000000, 1 << 25, s.draw(1 << 27)]) for _ in range(6)]
    ws = out + data
    return [' %d %d %d' % (base >> 10, base >> 5 & 31, base & 31)] + ['%d %d' % (base + i, w) for i, w in enumerate(ws)]


SYMS = ['1', '23.5', '-7', '+', '.', '⏨', '⏨3', '-4⏨-7', '99999999999', '9⏨999', '1⏨616', '1⏨-617', ' ', '\n', ',', 'a', 'Z', '`', "'", '"', '1011', '0', '111111111111111111111111111', '2', '\t', '×', '≤', 'x̲', '_b']


def stdin_of(s):
    k = s.draw(4)
    if k == 0:
        return b''
    if k == 1:
        return bytes(s.draw(256) for _ in range(s.draw(60)))
    if k == 2:
        return ''.join(s.choice(SYMS) for _ in range(s.draw(50))).encode()
    return ' '.join(str(s.draw(100)) for _ in range(30)).encode() + b'\n'


def judge(r, d):
    c = crash_text(r)
    if c and r.rc not in (-signal.SIGPROF, -signal.SIGXFSZ):
        raise Fail('the simulator crashed: ' + c, **d)
    if r.rc not in (0, 1, -signal.SIGPROF, -signal.SIGXFSZ):
        raise Fail('exit status %s' % r.rc, **d)
    if r.rc == 1 and not r.err.strip():
        raise Fail('ended with an error status but without an error report', **d)


def case_object(ctx, s):
    lab = set()
    k = s.draw(5)
    if k == 0:
        lab.add('instruction sequence')
        lines = sequence(s)
    elif k == 1 and _read:
        lab.add('reading program')
        lines = s.choice(_read)
        if s.p(70):
            lines = mutate(s, lines, lab)
    else:
        if not _pool:
            raise Fail('no program compiles')
        lab.add('mutated program')
        lines = mutate(s, s.choice(_pool), lab)
    text = '\n'.join(lines) + '\n'
    inp = stdin_of(s)
    args = ['-d', '--trace=trace.out'] if s.p(8) else []
    if args:
        lab.add('traced')
    ctx.write('o.x1', text)
    d = dict(object=text, stdin=inp.decode('latin1'), args=args)
    r = ctx.exec([ctx.tools['x1sim'], *args, 'o.x1'], inp, fuel=FUEL)
    d['observed'] = r.brief()
    judge(r, d)
    lab.add({0: 'normal end', 1: 'error report'}.get(r.rc, 'still going'))
    return dict(nontrivial=len(lines) > 5, key=(text, inp), labels=sorted(lab), sample=dict(object=text[:600], stdin=inp[:100].decode('latin1'), rc=r.rc, stderr=r.err[:80].decode('utf8', 'replace')))


def case_stdin(ctx, s):
    """compiled programs that read, on any input"""
    lines = s.choice(_read)
    n = s.draw(3)
    if n == 0:
        inp = bytes(s.draw(256) for _ in range(s.draw(300)))
    else:
        inp = b''.join(s.choice(SYMS).encode() if s.p(90) else bytes([s.draw(256)]) for _ in range(s.draw(250)))
    ctx.write('o.x1', '\n'.join(lines) + '\n')
    d = dict(object='\n'.join(lines), stdin=inp.decode('latin1'))
    r = ctx.exec([ctx.tools['x1sim'], 'o.x1'], inp, fuel=3.0)
    d['observed'] = r.brief()
    judge(r, d)
    if r.rc not in (0, 1):
        raise Fail('the simulator does not come to an end at the end of its input', **d)
    return dict(nontrivial=len(inp) > 0, key=(id(lines), inp), labels=[{0: 'normal end', 1: 'error report'}.get(r.rc, 'still going')],
                sample=dict(stdin=inp[:200].decode('latin1'), rc=r.rc, out=r.out[:100].decode('utf8', 'replace')))


JUNK = ['garbage', 'x 1', '12', '1 x', 'x 1 2', '-', '*** stop 5-3 ***', '; 1', 'begin', '10048', '\x01\x02', 'é', '1.5', ', 3 4', '?']


def case_malformed(ctx, s):
    """object files that are not object files: reported, nothing is executed"""
    lines = list(s.choice(_pool))
    k = s.draw(5)
    lab = ['bad line', 'bad line', 'no entry', 'cut line', 'nothing'][k]
    name = 'o.x1'
    if k < 2:
        i = s.draw(len(lines) + 1)
        lines.insert(i, s.choice(JUNK))
        text = '\n'.join(lines) + '\n'
    elif k == 2:
        text = '\n'.join(l for l in lines if not re.fullmatch(r' *\d+ +\d+ +\d+', l)) + '\n'
    elif k == 3:
        data = [i for i, l in enumerate(lines) if re.fullmatch(r' *\d+ +\d+', l)]
        i = s.choice(data)
        text = '\n'.join(lines[:i] + [lines[i].split()[0]]) + ('\n' if s.p(50) else '')
    else:
        text = s.choice(['', '\n\n', '\n'])
        if s.p(30):
            name, lab = 'absent.x1', 'absent'
    ctx.write('o.x1', text)
    d = dict(object=text, name=name)
    r = ctx.exec([ctx.tools['x1sim'], name], b'', fuel=3.0)
    d['observed'] = r.brief()
    judge(r, d)
    if r.rc != 1:
        raise Fail('a malformed object file (%s) is not reported' % lab, **d)
    if r.out:
        raise Fail('a malformed object file (%s) is executed' % lab, **d)
    return dict(nontrivial=True, key=(text, name), labels=[lab], sample=dict(kind=lab, object=text[-120:]))


CHECK = Check('P18', [
    Sub('objects', case_object, 12000, 400000, 'different object programs with an input of more than five lines', setup=setup, flavour='san'),
    Sub('inputs', case_stdin, 2500, 60000, 'different pairs of reading program and input', setup=setup, flavour='san'),
    Sub('malformed', case_malformed, 1500, 20000, 'different malformed files', setup=setup, flavour='san'),
])
