"""P15: the spelling of the source text"""
import glob
from checks.common import *
from vx import respell as R, build as B
from checks.p11 import Loops

PROFILES = [dict(), dict(procs=(1, 3), formals=(0, 3), w_call=20, labels=25, switches=30, w_goto=5, arrays=(0, 2)),
            dict(procs=(0, 2), labels=60, w_goto=16, switches=40), dict(w_for=25, procs=(0, 1))]
_ex = {}


def examples():
    if not _ex:
        for f in sorted(glob.glob(os.path.join(B.REPO, 'examples', '*.a60'))):
            try:
                t = R.tokens(open(f, encoding='utf8').read())
                if len(t) < 900:
                    _ex[os.path.basename(f)] = t
            except (ValueError, IndexError, UnicodeError):
                pass
    return [_ex[k] for k in sorted(_ex)]


def program_tokens(s, lab):
    k = s.draw(12)
    if k == 11:
        ex = examples()
        if ex:
            lab.add('example of the repository')
            return s.choice(ex)
    if k == 10:
        lab.add('loops')
        text = A.Printer().program(Loops(s).build())
    else:
        text = A.Printer().program(G.Gen(s, **s.choice(PROFILES)).program())
    t = R.tokens(text)
    if len(t) > 2500:
        raise Discard('too big')
    # the generators write numbers as plain digits; add some strings and operators they do not use
    if s.p(40):
        pos = [i for i, x in enumerate(t) if x == ('word', 'end')]
        if pos:
            lab.add('string')
            i = s.choice(pos)
            st = ''.join(s.choice(['a', 'B', ' ', '  ', '\n', '\t', ';', ':', ':=', '9', '×', '≤', '(', '`q\'', '_<', '*']) for _ in range(s.draw(20)))
            t = t[:i] + [('op', ';'), ('id', 'PRINTTEXT'), ('op', '('), ('str', st), ('op', ')')] + t[i:]
    return t


def object_of(r):
    """(names with addresses, object words)"""
    t = r.out.decode('utf8', 'replace')
    names, rest = [], []
    for l in t.split('\n'):
        (names if re.match(r'\S+ +\d+ \d+ \d+$', l) and not l[:1].isspace() and re.match(r'[A-Za-z]', l) else rest).append(l)
    return names, [l for l in rest if l.strip()]


def mutate(s, t):
    """an ill-formed variant of a token sequence (strings stay whole)"""
    t = list(t)
    for _ in range(s.rint(1, 3)):
        k = s.draw(4)
        idx = [i for i, x in enumerate(t) if x[0] != 'str' and x != ('word', 'end')]
        i = s.choice(idx)
        if k == 0:
            del t[i]
        elif k == 1:
            t.insert(i, t[s.choice(idx)])
        elif k == 2:
            j = s.choice(idx)
            t[i], t[j] = t[j], t[i]
        else:
            t[i] = s.choice([('op', o) for o in ';,:()[]+×<∧¬'] + [('op', ':='), ('num', '1'), ('num', '.'), ('num', '⏨'), ('id', 'zz'), ('word', 'begin'), ('word', 'if'),
                                                                    ('word', 'then'), ('word', 'else'), ('word', 'integer'), ('word', 'procedure'), ('word', 'for'), ('word', 'do')])
    # what follows an end is a comment: only its delimiters could be read differently
    return t


def glued(t):
    """adjacent tokens that would become one token when written together"""
    for a, b in zip(t, t[1:]):
        if a[0] in ('id', 'num') and b[0] in ('id', 'num') or a == ('op', ':') and b in (('op', '='), ('op', ':=')):
            return True
    return False


def case(ctx, s):
    lab = set()
    toks = program_tokens(s, lab)
    bad = s.p(12)
    if bad:
        lab.add('ill-formed')
        toks = mutate(s, toks)
        if glued(toks):
            raise Discard('tokens run together')
    ren = not bad and s.p(50)
    names = R.rename(s, toks) if ren else None
    a = R.Speller(s, comments=not bad)
    b = R.Speller(s, comments=False)
    b.density, b.form = 0, 0
    ta = a.write(toks, names)
    tb = b.write(toks)
    if ren:
        lab.add('renamed')
    ra = ctx.compile(ta)
    how = s.draw(6) if not bad else 0
    libs = [] if how == 1 and not any(t in ('SUM', 'RESYM', 'PRSYM', 'RANDOM', 'SETRANDOM') for k, t in toks) else None
    if how == 1 and libs == []:
        lab.add('from standard input')
        rb = ctx.exec([ctx.tools['x1algc']], tb)
        ra = ctx.compile(ta, libs=[])
    elif how == 2:
        lab.add('input file without final line end')
        rb = ctx.compile(tb.rstrip('\n'))
    else:
        rb = ctx.compile(tb)
    d = dict(text_a=ta, text_b=tb, result_a=ra.brief(), result_b=rb.brief(), names=names)
    for r in (ra, rb):
        c = crash_text(r)
        if c and not bad:
            raise Fail('compiler crashed: ' + c, **d)
        if r.timeout and not bad:
            raise Fail('compiler does not stop', **d)
    if bad:
        if ra.rc != rb.rc and (ra.rc == 0 or rb.rc == 0):
            raise Fail('one spelling of an ill-formed text is accepted, the other rejected', **d)
        if ra.rc:
            return dict(nontrivial=True, key=tb, labels=sorted(lab | {'rejected'}))
    elif ra.rc or rb.rc:
        raise Fail('a spelling is rejected: %s' % (ra if ra.rc else rb).out[-200:].decode('utf8', 'replace'), **d)
    na, oa = object_of(ra)
    nb, ob = object_of(rb)
    if oa != ob:
        raise Fail('different object programs: %s' % diff_text('\n'.join(ob), '\n'.join(oa)), **d)
    if len(na) != len(nb) or [x.split()[-3:] for x in na] != [x.split()[-3:] for x in nb] or not ren and na != nb:
        raise Fail('different lists of names and addresses', **d)
    if ren:
        m = {}
        for x, y in zip(na, nb):
            if m.setdefault(y.split()[0], x.split()[0]) != x.split()[0]:
                raise Fail('one name listed as two', **d)
    return dict(nontrivial=len(oa) > 6 and ta != tb, key=(ta, tb), labels=sorted(lab | a.labels), sample=dict(text=ta[:900]))


CHECK = Check('P15', [
    Sub('spelling', case, 10000, 300000, 'pairs of different texts of one program'),
])
