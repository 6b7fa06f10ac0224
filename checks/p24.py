"""P24: conversion tools: 5-track tapes, object programs as library routines, disassembly, key words"""
from checks.common import *
from vx import build as B, respell as R
from vx.obj import OPC
from checks import p15
from checks.p19 import make_item, parse_src, parse_obj, anyword, A2B

# the prefixes of the short form of a word on a 5-track tape
SHORT = {1: 0o000000000, 2: 0o022000000, 3: 0o120000000, 4: 0o122000000, 5: 0o420000000, 6: 0o422000000, 7: 0o520000000, 8: 0o522000000,
         9: 0o520300000, 10: 0o040000000}


def script(ctx, name, args=(), text=''):
    p = os.path.join(B.REPO, 'scripts', name)
    return ctx.exec([('python3' if name.endswith('.py') else 'perl'), p] + list(args), text.encode('utf8'))


def even(bits):
    return bin(bits).count('1') & 1


# -- 5-track tapes

def five(n, v):
    return [v >> 5 * (n - 1 - i) & 31 for i in range(n)]


def tape_word(s, o, w, lab):
    """frames of one word: (opcode) or (kind, 27 bit word)"""
    if o >= 8:
        lab.add('operator')
        x = 8 << 5 | o
        return five(2, x | even(x) << 9)
    for c, p in SHORT.items():
        if w & ~0x7FFF == p and s.p(75):
            lab.add('short %d' % c)
            x = c << 17 | o << 15 | w & 0x7FFF
            return five(5, x | even(x) << 24)
    lab.add('long')
    x = o << 27 | w
    return [4 | even(x ^ 4) << 4] + five(6, x)


def tape5_words(s, L):
    r = []
    for i in range(L):
        k = s.draw(10)
        if k < 3:
            r.append((s.rint(8, 112), 0))
        elif k < 7:
            r.append((s.draw(4), s.choice(list(SHORT.values())) + s.choice([0, 1, 2, 31, 32, 1023, 1024, 0x7FFF, s.draw(1 << 15)])))
        elif k == 7:
            r.append((s.draw(4), s.draw(1 << 27)))
        elif k == 8:
            r.append((s.draw(4), 1 << s.draw(27)))
        else:
            r.append((s.draw(3), (1 << 27) - 1 - s.draw(4)))
    return r


def line5(i, o, w, bad=False):
    return '%d %d%s%s' % (i, o, '' if o >= 8 else ' %010o' % w, ' !' if bad else '')


def case_tape5(ctx, s):
    lab = set()
    tool = ctx.tools['from5track']
    k = s.draw(10)
    L = s.choice([1, 2, 31, 32, 33, 255, 256, 1023, 1024, 1025]) if k == 0 else s.rint(1, 12) if k < 5 else s.rint(1, 60)
    if k == 9 and s.p(10):
        L = s.choice([4095, 4096, 8191, 8192, 16383])
    num = s.choice([0, 1, 2, 7, 17, 31, 32, 255, 256, 511, s.draw(512)])
    words = tape5_words(s, L)
    ln = L | even(L) << 14
    mc = num | even(num) << 9
    head = [31] + five(3, ln) + five(2, mc)
    fr = [tape_word(s, o, w, lab) for o, w in words]
    how = s.draw(8)
    exp = ['Converting MCP %d, length %d' % (num, L)] + [line5(i, o, w) for i, (o, w) in enumerate(words)]
    rc, mode = 0, 'whole'
    sep = s.choice(['\n', ' ', '\n\n', ' \t'])
    lead = s.choice(['', '\n', '  '])
    if how == 0:                     # one bit of a word is misread: the word, and only that, is marked
        mode = 'misread word'
        i = s.draw(L)
        f = fr[i]
        j = s.draw(len(f))
        n = len(f)
        bits = [1, 2, 4, 8, 16]
        if n == 2:
            bits = [1, 2, 4, 16] if j == 0 else bits
        elif n == 7:                 # the first frame says which form it is
            bits = [16] if j == 0 else bits
        else:
            bits = [16, 2, 1] if j == 0 else bits
        b = s.choice(bits)
        # bits of the short code may give another code, or none
        code = n == 5 and (j == 0 and b < 16 or j == 1 and b > 2)
        g = list(f)
        g[j] ^= b
        fr[i] = g
        lines = None
    elif how == 1:                   # one bit of the head
        mode = 'misread head'
        j = s.rint(1, 5)
        head[j] ^= 1 << s.draw(5)
    elif how == 2:
        mode = 'no head'
        head[0] = s.draw(31)
    elif how == 3:
        mode = 'short tape'
    nums = head + [x for f in fr for x in f]
    if how == 3:
        nums = nums[:s.draw(len(nums))]
    text = lead + sep.join('%d' % x for x in nums) + s.choice(['', '\n', '\n0\n0\n0\n', ' 0 31'] if how != 3 else ['', '\n'])
    r = ctx.exec([tool], text)
    d = dict(tape=text, words=[line5(i, o, w) for i, (o, w) in enumerate(words)][:80], mode=mode, observed=r.brief())
    if crash_text(r) or r.timeout:
        raise Fail('from5track crashes or does not stop', **d)
    out = r.out.decode('utf8', 'replace')
    lines = out.split('\n')
    if how in (1, 2, 3):
        if how == 3 and r.rc != 0:
            # what was whole may have been written
            got = [l for l in lines if re.fullmatch(r'\d+ \d+( \d+)?( !)?', l)]
            if got != exp[1:1 + len(got)]:
                raise Fail('the words of a tape that breaks off are wrong', expected=exp, **d)
        if r.rc == 0:
            raise Fail('from5track accepts a damaged tape (%s)' % mode, **d)
        if how != 3 and any(re.match(r'\d+ \d+', l) for l in lines):
            raise Fail('from5track gives words of a tape with a damaged head', **d)
    elif how == 0:
        if r.rc and code:
            a, b = lines[:1 + i], exp[:1 + i]
            lines[1 + i] = '%d 0 !' % i
        elif r.rc:
            raise Fail('from5track rejects a tape with one misread bit in a word', **d)
        else:
            a, b = lines[:1 + i] + lines[2 + i:], exp[:1 + i] + exp[2 + i:] + ['']
        if a != b:
            raise Fail('a misread bit changes other words: %s' % diff_text('\n'.join(b), '\n'.join(a)), **d)
        if not re.fullmatch(r'%d \d+( \d+)? !' % i, lines[1 + i]):
            raise Fail('a misread bit in word %d is not marked: %r' % (i, lines[1 + i]), frames=fr[i], **d)
    else:
        if r.rc or out != '\n'.join(exp) + '\n':
            raise Fail('from5track gives other words: %s' % diff_text('\n'.join(exp) + '\n', out), **d)
        if L <= 60 and s.p(30):
            # what it writes is what objfile reads
            lab.add('through objfile')
            q = ctx.exec([ctx.tools['objfile'], str(num)], '\n'.join(lines[1:]))
            t = make_item(ctx, num, words)
            if q.rc or q.out.decode() != t:
                raise Fail('objfile makes another tape of it', through=q.brief(), direct=t, **d)
    lab.add(mode)
    return dict(nontrivial=L > 1, key=text, labels=sorted(lab), sample=dict(length=L, mode=mode, out=out[:200]))


# -- object programs and their decoding

def ptext(start, words, names):
    l = ['%s %d %d %d' % (n, a >> 10, a >> 5 & 31, a & 31) for n, a in names]
    l += [' %d %d %d' % (start >> 10, start >> 5 & 31, start & 31)] * 2
    l += ['%s%d %d' % (' ' * (i % 3), start + i, w) for i, w in enumerate(words)]
    return '\n'.join(l) + '\n'


def program_words(ctx, s, lab):
    """an object program: (base, words, text)"""
    if s.p(50):
        lab.add('compiled')
        toks = p15.program_tokens(s, set())
        if len(toks) > 900:
            raise Discard('too big')
        sp = R.Speller(s, comments=False)
        sp.density, sp.form = 0, 0
        r = ctx.compile(sp.write(toks))
        if r.rc:
            raise Discard('rejected')
        ent, mem = parse_obj(r.out)
        base = min(mem)
        if sorted(mem) != list(range(base, base + len(mem))):
            raise Fail('the object program has holes', observed=r.brief())
        return base, [mem[a] for a in sorted(mem)], r.out.decode('utf8', 'replace')
    lab.add('made up')
    L = s.rint(1, 80)
    base = s.choice([1000, 4000, 8192, 8191, 10000, s.rint(1000, 10000)])
    words = []
    for i in range(L):
        k = s.draw(5)
        words.append(s.rint(8, 112) if k == 0 else s.draw(1 << 27) if k == 1 else
                     s.choice([71827456, 21495808, 4718592, 88604672, 0o022 << 21]) + base + s.draw(L) if k == 2 else
                     s.choice([71827456, 21495808, 0]) + s.draw(base) if k == 3 else s.choice([0, 1, 7, 8, 112, 113, 32767, 32768, (1 << 27) - 1]))
    return base, words, ptext(base, words, [('P', base)] if s.p(50) else [])


def case_decode(ctx, s):
    lab = set()
    base, words, text = program_words(ctx, s, lab)
    r = script(ctx, 'decode.pl', [str(base)], text)
    d = dict(base=base, object=text, observed=r.brief())
    if r.rc or r.timeout:
        raise Fail('decode.pl fails', **d)
    out = r.out.decode('utf8', 'replace')
    src = []
    for l in out.split('\n'):
        if not l.strip():
            continue
        f = l.split()
        src.append(l)
    if len(src) != len(words):
        raise Fail('decode.pl writes %d words, the program has %d' % (len(src), len(words)), **d)
    try:
        got = parse_src(out)
    except ValueError:
        raise Fail('decode.pl writes something which is no source of a routine', **d)
    reloc = 0
    for i, ((o, w), v) in enumerate(zip(got, words)):
        back = o if o >= 8 else w if o == 0 else w + base if o == 1 else None
        if back != v:
            raise Fail('decode.pl gives word %d as %s which stands for %s, not for %d' % (i, src[i].strip(), back, v), **d)
        # a word whose address part lies in the program moves with it
        if (v & 0x7FFF) >= base:
            reloc += 1
            if o != 1:
                raise Fail('word %d (%d) refers to the program, but is given as fixed: %s' % (i, v, src[i].strip()), **d)
        elif o == 1:
            raise Fail('word %d (%d) does not refer to the program, but is given as relative: %s' % (i, v, src[i].strip()), **d)
    if s.p(40) and len(words) <= 400:
        lab.add('through objfile')
        q = ctx.exec([ctx.tools['objfile'], '5'], out)
        t = make_item(ctx, 5, got)
        if q.rc or q.out.decode() != t:
            raise Fail('objfile makes another tape of the text than of its words', through=q.brief(), direct=t, **d)
    return dict(nontrivial=reloc > 0, key=text, labels=sorted(lab), sample=dict(base=base, out=out[:200]))


def case_disasm(ctx, s):
    lab = set()
    base, words, text = program_words(ctx, s, lab)
    ctx.write('dis.txt', text)
    r = script(ctx, 'x1-disasm.py', ['dis.txt'])
    d = dict(object=text, observed=r.brief())
    if r.rc or r.timeout:
        raise Fail('x1-disasm.py fails', **d)
    got = {}
    for l in r.out.decode('utf8', 'replace').split('\n'):
        m = re.fullmatch(r'\s*([0-7]+): +([0-7]{2}) +([0-7]{2}) +([0-7]{5})\s*', l)
        if m:
            a, o, k, x = [int(y, 8) for y in m.groups()]
            if a in got:
                raise Fail('address %o is listed twice' % a, **d)
            got[a] = o << 21 | k << 15 | x
        elif l.strip():
            raise Fail('line which is no word: %r' % l, **d)
    exp = {base + i: w for i, w in enumerate(words)}
    for a in sorted(set(exp) | set(got)):
        if exp.get(a) != got.get(a):
            raise Fail('the listing has %s at %d, the program has %s' % (got.get(a), a, exp.get(a)), **d)
    return dict(nontrivial=len(words) > 3, key=text, labels=sorted(lab), sample=dict(words=len(words), out=r.out.decode()[:150]))


# -- key words

class Stropped(R.Speller):
    """key words written as _begin: one underline before the word"""

    def word(self, w):
        if self.s.p(self.mix):
            return ''.join('_' + c for c in w) if self.s.p(50) else '_' + w
        self.n += 1
        return '_' + w

    def inner(self, t):
        # the key word ends where no small letter follows
        return (' ' if t[:1].islower() else '') + R.Speller.inner(self, t)

    COMMENT = [c for c in R.Speller.COMMENT if c != '_']

    def comment(self):
        return self.word('comment') + ' ' + R.Speller.comment(self).split('comment', 1)[-1]


def case_strop(ctx, s):
    lab = set()
    toks = p15.program_tokens(s, lab)
    a = Stropped(s, comments=True)
    a.mix, a.n = s.choice([0, 0, 30]), 0
    ta = a.write(toks)
    # strings may not contain something like a stropped word, and a word ends where no small letter follows
    if any(re.search('_[a-z]', t) for k, t in toks if k == 'str') or '\u0332' in ta:
        raise Discard('underlined letters in a string')
    words = {t for k, t in toks if k == 'word'}
    for m in re.finditer('_([a-z]{2,})', ta):
        if m.group(1) not in words and m.group(1) not in ['comment'] + R.Speller.WORDS:
            raise Discard('key word runs into an identifier')
    b = R.Speller(s, comments=False)
    b.density, b.form = 0, 0
    tb = b.write(toks)
    rb = ctx.compile(tb)
    if rb.rc:
        raise Discard('rejected')
    res = {}
    for tool in ('restrop.pl', 'underline.pl'):
        r = script(ctx, tool, (), ta)
        d = dict(stropped=ta, tool=tool, result=r.out.decode('utf8', 'replace')[:3000])
        if r.rc or r.timeout:
            raise Fail('%s fails' % tool, **d)
        t = r.out.decode('utf8', 'replace')
        if t.replace('_', '').replace('\u0332', '') != ta.replace('_', '').replace('\u0332', ''):
            raise Fail('%s changes more than the underlining' % tool, **d)
        ra = ctx.compile(t)
        if ra.rc or p15.object_of(ra) != p15.object_of(rb):
            raise Fail('the text from %s is compiled differently' % tool, plain=tb, observed=ra.brief(), expected=rb.brief(), **d)
        r2 = script(ctx, tool, (), t)
        if r2.out != r.out:
            raise Fail('%s changes its own result' % tool, second=r2.brief(), **d)
    return dict(nontrivial=a.n > 3, key=ta, labels=sorted(lab), sample=dict(text=ta[:200]))


W = ('x1algc', 'objfile', 'from5track')
CHECK = Check('P24', [
    Sub('tape5', case_tape5, 6000, 150000, 'different tapes of two words or more', what=W),
    Sub('decode', case_decode, 1500, 30000, 'different object programs with a relocated word', what=W),
    Sub('disasm', case_disasm, 900, 12000, 'different object programs of more than 3 words', what=W),
    Sub('strop', case_strop, 900, 20000, 'different texts with more than 3 key words', what=W),
])
