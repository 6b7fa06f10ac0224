"""P19: library routines: encoding, linking, corruption"""
from checks.common import *
from vx import build as B
from vx.obj import OPC

TAPE = {'SUM': (0, 54), 'RESYM': (7, 7), 'PRSYM': (8, 8), 'RANDOM': (17, 7), 'SETRANDOM': (18, 8)}
INNER = {'PRINTTEXT': (1, 20, 'printtext'), 'EVEN': (2, 14, 'even'), 'TIMEOFDAY': (77, 7, 'timeofday')}
SHIPPED = ['SUM', 'RESYM', 'PRSYM', 'RANDOM', 'SETRANDOM']
USE = {'SUM': 'print(SUM(i, 1, 2, i))', 'RESYM': 'print(RESYM)', 'PRSYM': 'PRSYM(65)', 'RANDOM': 'print(RANDOM)', 'SETRANDOM': 'SETRANDOM(1)',
       'PRINTTEXT': "PRINTTEXT(`ab')", 'EVEN': 'print(EVEN(4))', 'TIMEOFDAY': 'x := TIMEOFDAY'}
A2B, A2S, A2A, A2T = 71827456, 21495808, 4718592, 88604672
SPECIAL = [21495808, 71827459, 88080386, 71827456, 4718592, 71303170, 88604673, 0, 524291, 88178690, 71827457, 1048577, 20971522, 4784128, 8388608,
           4390912, 13172736, 1572865, 524288]


def lib(name):
    return open(os.path.join(B.REPO, 'library', name)).read()


def parse_src(t):
    """words of an assembly source: offset, operation, octal word"""
    r = []
    for l in t.split('\n'):
        f = l.split()
        if not f or not re.fullmatch(r'\d+', f[0]):
            continue
        if int(f[0], 8 if f[0][0] == '0' else 10) != len(r):
            raise Fail('offsets of a library source are out of order', source=t)
        o = int(f[1])
        r.append((o, int(f[2], 8) if o < 8 else 0))
    return r


def make_item(ctx, num, words, s=None):
    out = []
    for i, (o, w) in enumerate(words):
        k = s.draw(3) if s else 0
        off = '%d' % i if k == 0 else '0%o' % i if k == 1 else '0x%x' % i
        wd = '' if o >= 8 else ' %d' % w if k == 0 else ' 0%o' % w if k == 1 else ' 0x%X' % w
        out.append(' ' * (s.draw(5) if s else 0) + off + ' ' * (1 + (s.draw(4) if s else 0)) + '%d' % o + wd + (' text' if k == 1 else ''))
        if s and s.p(3):
            out.append('; a comment line' if s.p(50) else '')
    r = ctx.exec([ctx.tools['objfile'], str(num)], '\n'.join(out) + '\n')
    if r.rc or crash_text(r):
        raise Fail('objfile rejects a routine', source='\n'.join(out), observed=r.brief())
    t = r.out.decode()
    if not re.fullmatch(r'[\d \n]+', t) or any(int(x) > 127 for x in t.split()):
        raise Fail('objfile writes something which is no tape', source='\n'.join(out), observed=r.brief())
    return t


def parse_obj(out):
    t = out.decode('utf8', 'replace')
    mem = {int(a): int(b) for a, b in re.findall(r'^ *(\d+) +(\d+) *$', t, re.M)}
    ent = [(int(a) * 32 + int(b)) * 32 + int(c) for a, b, c in re.findall(r'^ *(\d+) +(\d+) +(\d+) *$', t, re.M)]
    return ent, mem


def resolve(words, base, bases):
    r = []
    for o, w in words:
        if o >= 8:
            r.append(o)
        elif o == 0:
            r.append(w)
        elif o == 1:
            r.append(w + base)
        else:
            r.append((w & ~0x7FFF) + bases[w & 0x7FFF])
    return r


def place(mem, lo, hi, routines):
    """find the order in which the routines stand between lo and hi"""
    def fits(words, a):
        for j, (o, w) in enumerate(words):
            m = mem.get(a + j)
            if m is None:
                return False
            if o == 3:
                if m >> 15 != w >> 15:
                    return False
            elif m != resolve([(o, w)], a, None)[0]:
                return False
        return True

    def check(at):
        bases = {routines[k][0]: at[k] for k in at}
        return all(resolve(words, at[n], bases) == [mem[at[n] + j] for j in range(len(words))] for n, (_, words) in routines.items())

    def go(a, left, at):
        if a == hi:
            return at if not left and check(at) else None
        for n in sorted(left):
            words = routines[n][1]
            if a + len(words) <= hi and fits(words, a):
                r = go(a + len(words), left - {n}, {**at, n: a})
                if r is not None:
                    return r
        return None
    return go(lo, frozenset(routines), {})


def anyword(s, L, used):
    k = s.draw(10)
    if k < 4:
        return s.rint(8, 112), 0
    if k < 6:
        return 0, s.choice(SPECIAL) + s.draw(6)
    if k == 6:
        return 0, s.draw(1 << 27)
    if k == 7:
        return 0, s.choice([A2B, A2S, A2A, A2T, 0]) + s.choice([0, 1, 2, 3, 31, 32, 33, 63, 64, 1023, 1024, 32767, s.draw(32768)])
    if k == 8:
        return 1, s.choice([A2B, A2T, 88080384 + 98304, 20971520 + 4194304]) + s.draw(L)
    if used and s.p(60):
        return 3, s.choice([A2B, A2T]) + s.choice(used)
    return 0, (1 << 27) - 1 - (s.draw(1 << 26) if s.p(50) else 0)


def body(s, L, used, runnable):
    if runnable:
        off = s.draw(L)
        w = [(0, A2B + 1), (OPC['SCC'], 0), (1, A2B + off), (OPC['TIRS'], 0), (0, A2B), (OPC['STP'], 0), (OPC['RET'], 0)]
        return w + [anyword(s, L, used) for _ in range(L - len(w))], off
    if s.p(15):     # runs of equal codes, long zeros on the tape
        f = s.choice([(33, 0), (34, 0), (0, 0), (0, 1 << 26), (85, 0), (112, 0)])
        return [f if s.p(90) else anyword(s, L, used) for _ in range(L)], None
    return [anyword(s, L, used) for _ in range(L)], None


def int_of(w):
    return w if w < 1 << 26 else -((1 << 27) - 1 - w)


def case_items(ctx, s):
    names = [n for n in list(TAPE) + list(INNER) if s.p(45)]
    s.shuffle(names)
    lab = set()
    nums = [TAPE[n][0] for n in names if n in TAPE]
    items, routines, offs = {}, {}, {}
    for n in names:
        if n in TAPE:
            num, L = TAPE[n]
            words, off = body(s, L, nums, s.p(60))
            routines[n] = (num, words)
            offs[n] = off
            items[num] = words
        else:
            num, L, f = INNER[n]
            routines[n] = (num, parse_src(lib(f + '.src')))
    missing = s.choice(nums) if nums and s.p(12) else None
    wrong = s.choice(nums) if nums and missing is None and s.p(8) else None
    if missing is not None:
        lab.add('routine missing')
        del items[missing]
    if wrong is not None:
        lab.add('wrong length')
        items[wrong] = items[wrong][:-1] if s.p(50) else items[wrong] + [(12, 0)] * s.rint(1, 30)
    others = [n for n in range(51) if n not in nums]
    for _ in range(s.draw(5)):
        n = s.choice(others)
        items[n] = body(s, s.rint(1, 60) if s.p(90) else s.rint(61, 1024), [], False)[0]
        lab.add('routines not needed')
    order = sorted(items)
    s.shuffle(order)
    binary = s.p(25)
    files, cur = [], ''
    for n in order:
        cur += make_item(ctx, n, items[n], s)
        if s.p(25):
            cur += '0 ' * s.draw(6) + '\n'
        if s.p(30):
            files.append(cur)
            cur = ''
    if cur:
        files.append(cur)
    if len(files) > 1:
        lab.add('several library files')
    if s.p(25) and not files and not nums:
        files.append('')
    paths = []
    for i, t in enumerate(files):
        if binary:
            t = bytes(int(x) for x in t.split())
        elif s.p(30):
            t = t.replace('\n', ' ') + '\n'
        paths.append(ctx.write('l%d.lib' % i, t))
    if binary:
        lab.add('raw binary')
    # the program
    stm, exp, shown = [], '', []
    for n in names:
        runnable = n in TAPE and offs[n] is not None or n in ('PRINTTEXT', 'EVEN')
        if runnable:
            stm.append(USE[n] + '; NLCR')
            shown.append(n)
        else:
            stm.append('if 0 = 1 then begin %s end' % USE[n])
    hide = [n for n in TAPE if n not in names and s.p(20)]
    if hide:
        lab.add('names declared anew')
    decl = ''.join('integer %s; ' % n for n in hide)
    filler = ''.join('; x := x + %d.5' % s.draw(1000) for _ in range(s.draw(4)))
    text = kwtext('begin real x; integer i; %sx := 0%s; %s end' % (decl, filler, '; '.join(stm)))
    d = dict(program=text, libraries=files, items={str(k): ['%d %o' % w for w in v] for k, v in items.items()}, binary=binary)
    r = ctx.compile(text, libs=paths, args=('-b',) if binary else ())
    d['observed'] = r.brief()
    c = crash_text(r)
    if c:
        raise Fail('compiler crashed: ' + c, **d)
    if missing is not None or wrong is not None:
        if r.rc == 0:
            raise Fail('a routine is missing or has the wrong length, but the program is linked', **d)
        return dict(nontrivial=True, key=(text, files), labels=sorted(lab))
    if r.rc:
        raise Fail('a program with all its routines is rejected', **d)
    ent, mem = parse_obj(r.out)
    if len(ent) < 1 or not mem:
        raise Fail('no object program', **d)
    if sum(len(w) for _, w in routines.values()) != ent[0] - min(mem):
        raise Fail('not just the routines used are linked', **d)
    at = place(mem, min(mem), ent[0], routines)
    if at is None:
        raise Fail('the routines are not stored as they were written', **d)
    if s.p(30) and nums:
        # the program itself does not depend on the library
        q = ctx.compile(text)
        e2, m2 = parse_obj(q.out)
        if q.rc or e2[:1] != ent[:1] or any(m2.get(a) != v for a, v in mem.items() if a >= ent[0]):
            raise Fail('the program part differs from the one linked with the shipped library', shipped=q.brief(), **d)
    # run it: a runnable routine delivers one of its own words
    exp = ''
    for n in shown:
        if n == 'PRINTTEXT':
            exp += 'ab'
        elif n == 'EVEN':
            exp += '1'
        elif n not in ('PRSYM', 'SETRANDOM'):
            exp += str(int_of(mem[at[n] + offs[n]]))
        exp += '\n'
    q = ctx.run_x1(r.out)
    d['observed'] = q.brief()
    if q.rc or norm(q.out.decode('utf8', 'replace')) != norm(exp):
        raise Fail('the linked program prints something else: %s' % diff_text(exp, q.out.decode('utf8', 'replace')), **d)
    lab |= {'%d routines' % len(names)}
    return dict(nontrivial=len(names) > 0, key=(text, files), labels=sorted(lab), sample=dict(program=text, libraries=[f[:200] for f in files], stdout=exp))


def case_corrupt(ctx, s):
    names = [n for n in TAPE if s.p(40)] or ['RANDOM']
    text = kwtext('begin real x; integer i; if 0 = 1 then begin %s end end' % '; '.join(USE[n] for n in names))
    if s.p(50):
        order = list(SHIPPED)
        s.shuffle(order)
        t = ''.join(lib(n.lower() + '.lib') for n in order)
        if s.p(50):
            t += lib('zztail.lib')
    else:
        nums = [TAPE[n][0] for n in names]
        t = ''
        its = [(TAPE[n][0], body(s, TAPE[n][1], nums, False)[0]) for n in names] + [(n, body(s, s.rint(1, 40), [], False)[0]) for n in (3, 9, 50) if s.p(40)]
        s.shuffle(its)
        for num, w in its:
            t += make_item(ctx, num, w, s)
    good = ctx.compile(text, libs=[ctx.write('g.lib', t)])
    d = dict(program=text, library=t)
    if good.rc:
        raise Fail('a library in order is rejected', observed=good.brief(), **d)
    evals, labels = 0, set()
    for _ in range(6):
        k = s.draw(10)
        tok = re.split(r'(\s+)', t)
        idx = [i for i, x in enumerate(tok) if x.isdigit()]
        binary = s.p(20)
        strict = True
        if k < 7:
            i = s.choice(idx)
            tok[i] = str(int(tok[i]) ^ (1 << s.draw(7)))
            bad, what = ''.join(tok), 'one wrong bit'
        elif k == 7:
            if binary:
                bad = ''.join(tok[:s.choice(idx) + 1])
            else:
                bad = t[:s.draw(len(t))]
            what = 'end cut off'
        else:
            strict, what = False, 'other damage'
            i = s.choice(idx)
            m = s.draw(5)
            if m == 0:
                tok[i] = s.choice(['', '128', '-1', 'x', '99999999999', '255', '1000', '-7', '0'])
            elif m == 1:
                tok[i] = str(s.draw(128))
            elif m == 2:
                tok[i] += ' ' + str(s.draw(128))
            elif m == 3:
                j = s.choice(idx)
                tok[i], tok[j] = tok[j], tok[i]
            else:
                del tok[i:i + 2 * s.rint(1, 30)]
            bad = ''.join(tok)
        if binary:
            try:
                data = bytes(int(x) & 255 for x in bad.split())
            except ValueError:
                data = bad.encode()
        else:
            data = bad.encode()
        r = ctx.compile(text, libs=[ctx.write('b.lib', data)], args=('-b',) if binary else ())
        evals += 1
        labels.add(what)
        c = crash_text(r)
        dd = dict(d, damaged=bad, binary=binary, damage=what, observed=r.brief())
        if c:
            raise Fail('compiler crashed on a damaged library: ' + c, **dd)
        if r.timeout:
            raise Fail('compiler does not stop on a damaged library', **dd)
        if strict and r.rc == 0 and parse_obj(r.out) != parse_obj(good.out):
            raise Fail('a damaged library (%s) is accepted and gives another program' % what, **dd)
        labels.add(what + (': rejected' if r.rc else ': accepted'))
    return dict(nontrivial=True, key=(text, t, s.log[-1] if s.log else 0, tuple(s.log[-20:])), labels=sorted(labels), evals=evals,
                sample=dict(program=text, damaged=bad[:200], damage=what))


def case_shipped(ctx, s):
    """the images in the repository are those of their sources"""
    k = s.draw(3)
    if k == 0:
        n = s.choice(list(TAPE) + list(INNER))
        f, num = n.lower(), (TAPE.get(n) or INNER[n])[0]
        out = make_item(ctx, num, parse_src(lib(f + '.src')))
        if out.split() != lib(f + '.lib').split():
            raise Fail('the image of %s is not what its source gives' % n, generated=out, shipped=lib(f + '.lib'))
        return dict(nontrivial=True, key=n, labels=['image'])
    if k == 1:
        a = ' '.join(lib(n.lower() + '.lib') for n in SHIPPED).split()
        if a != lib('x1algol.lib').split():
            raise Fail('the default library is not made of its routines')
        return dict(nontrivial=True, key='x1algol.lib', labels=['default library'])
    # linked with the default library, a routine has the words of its source
    names = [n for n in list(TAPE) + list(INNER) if s.p(50)] or ['SUM']
    s.shuffle(names)
    text = kwtext('begin real x; integer i; if 0 = 1 then begin %s end end' % '; '.join(USE[n] for n in names))
    r = ctx.compile(text)
    if r.rc:
        raise Fail('rejected', program=text, observed=r.brief())
    ent, mem = parse_obj(r.out)
    rt = {n: ((TAPE.get(n) or INNER[n])[0], parse_src(lib(n.lower() + '.src'))) for n in names}
    if place(mem, min(mem), ent[0], rt) is None:
        raise Fail('the linked routines are not those of the sources', program=text, observed=r.brief())
    return dict(nontrivial=True, key=text, labels=['linked'], sample=dict(program=text))


def case_lookup(ctx, s):
    """which library is taken: one given with the program; X1ALGOL_LIB; .x1algol.lib in the home directory; lib/ and ../library/ beside the
    directory of the simulator.  An object program needs none."""
    top = ctx.path('look')
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top + '/pfx/bin')
    os.makedirs(top + '/home')
    os.makedirs(top + '/work')
    os.symlink(ctx.tools['x1sim'], top + '/pfx/bin/x1sim')
    env, lab, order = {'HOME': None, 'X1ALGOL_LIB': None}, set(), []

    def marked(path):
        v = s.draw(1 << 26)
        w = [(0, A2B + 1), (OPC['SCC'], 0), (1, A2B + 9), (OPC['TIRS'], 0), (0, A2B), (OPC['STP'], 0), (OPC['RET'], 0)]
        t = make_item(ctx, 0, w + [(0, 0)] * 2 + [(0, v)] + [(0, 0)] * 44)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, 'w').write(t)
        return v
    args = []
    if s.p(25):
        order.append(marked(top + '/work/own.lib'))
        args = ['own.lib']
        lab.add('given')
    if s.p(30):
        order.append(marked(top + '/env/a.lib'))
        env['X1ALGOL_LIB'] = top + '/env/a.lib'
        lab.add('X1ALGOL_LIB')
    if s.p(40):
        order.append(marked(top + '/home/.x1algol.lib'))
        lab.add('home')
        env['HOME'] = top + '/home'
    elif s.p(60):
        env['HOME'] = top + '/home'
    if s.p(50):
        order.append(marked(top + '/pfx/lib/x1algol.lib'))
        lab.add('lib')
    if s.p(50):
        order.append(marked(top + '/library/x1algol.lib'))
        lab.add('library')
    text = kwtext('begin integer i; print(SUM(i, 1, 2, i)) end')
    open(top + '/work/t.a60', 'w').write(text)
    sim = s.choice([top + '/pfx/bin/x1sim', '../pfx/bin/x1sim', top + '/pfx/../pfx/bin/x1sim'])
    d = dict(present=sorted(lab), environment={k: v for k, v in env.items() if v}, program=text, simulator=sim, args=args)
    r = ctx.exec([sim, 't.a60'] + args, env=env, cwd=top + '/work')
    d['observed'] = r.brief()
    if order:
        x = str(int_of(order[0]))
        if r.rc or norm(r.out.decode('utf8', 'replace').strip()) != norm(x):
            raise Fail('not the library which comes first was taken', expected=x, **d)
        for p in ('env/a.lib', 'home/.x1algol.lib', 'pfx/lib/x1algol.lib', 'library/x1algol.lib', 'work/own.lib'):
            if os.path.exists(top + '/' + p):
                os.unlink(top + '/' + p)
        q = ctx.exec([sim, 't.x1'], env=env, cwd=top + '/work')
        if q.rc or q.out != r.out:
            raise Fail('the object program does not run without the library', expected=x, again=q.brief(), **d)
    else:
        if r.rc == 0 or r.out:
            raise Fail('there is no library, but the program is run', **d)
        lab.add('none')
    return dict(nontrivial=len(order) > 1, key=(text, sim, tuple(sorted(lab)), tuple(order)), labels=sorted(lab), sample=dict(present=sorted(lab), stdout=r.out.decode('utf8', 'replace')))


W = ('x1sim', 'x1algc', 'objfile')
CHECK = Check('P19', [
    Sub('items', case_items, 6000, 150000, 'different libraries and programs using at least one routine', what=W),
    Sub('corrupt', case_corrupt, 700, 20000, 'different damaged libraries', what=W, flavour='san'),
    Sub('shipped', case_shipped, 600, 4000, 'different sets of shipped routines', what=W),
    Sub('lookup', case_lookup, 600, 10000, 'different surroundings with more than one library', what=W),
])
