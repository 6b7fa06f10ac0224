"""P13: strings, characters and the other output primitives; character input"""
from checks.common import *

# doc/algol-encoding.md
CODES = {}
for i, c in enumerate('0123456789abcdefghijklmnopqrstuvwxyz'):
    CODES[i] = c
for i, c in enumerate('ABCDEFGHIJKLMNOPQRSTUVWXYZ'):
    CODES[37 + i] = c
for i, c in enumerate('+-×/÷↑>≥=≤<≠¬∧∨⊃≡'):
    CODES[64 + i] = c
CODES.update({87: ',', 88: '.', 89: '⏨', 90: ':', 91: ';', 92: ':=', 93: ' ', 98: '(', 99: ')', 100: '[', 101: ']', 102: '`', 103: "'",
              118: '\t', 119: '\n', 121: '"', 122: '?'})
BOX = '⎕'
CODE_OF = {v: k for k, v in CODES.items()}
# alternative spellings of symbols: in the source text, and in the input of RESYM (which knows no digraphs)
SRC_ALT = {'×': ['*'], '÷': ['_:'], '↑': ['|∧'], '≥': ['_>'], '≤': ['_<'], '≠': ['|='], '⊃': ['_¬'], '≡': ['_='], '⏨': ['@'],
           '`': ['|<'], "'": ['|>']}
IN_ALT = {'×': ['*'], '⏨': ['@']}
PLAIN = [CODES[i] for i in list(range(10, 36)) + [93, 93, 93] + list(range(0, 10)) + list(range(37, 63))]
SPECIAL = [c for k, c in CODES.items() if k >= 64 and c not in '`\'']
IGNORED = ['!', '#', '$', '%', '&', '{', '}', '\\', '\r', '~', '\x01', '\x7f', '\x0c']


def sym_text(s, n, quotes=True, depth=0):
    """a random sequence of symbols, with properly nested quotes"""
    r = []
    mode = s.draw(4)
    while len(r) < n:
        k = s.draw(20)
        if k < (13 if mode < 2 else 4 if mode == 2 else 17):
            r.append(s.choice(PLAIN))
        elif quotes and k == 19 and depth < 3:
            r += ['`'] + sym_text(s, s.draw(max(1, min(8, n - len(r)))), quotes, depth + 1) + ["'"]
        else:
            r.append(s.choice(SPECIAL))
    return r


def fix_colon(syms):
    """':' followed by '=' is the symbol ':='"""
    r = []
    for c in syms:
        if r and r[-1] == ':' and c == '=':
            r[-1] = ':='
        else:
            r.append(c)
    return r


def spell(s, syms, alt, junk, ignored=True):
    """source text of a symbol sequence"""
    out = []
    prev = ''
    for c in syms:
        t = c
        if c in alt and s.draw(3) == 0:
            t = s.choice(alt[c])
        # a colon may not run into an equals sign that belongs to another symbol
        if junk and ignored and prev != ':' and s.draw(24) == 0:
            out.append(s.choice(IGNORED))
        out.append(t)
        prev = c
    return ''.join(out)


def case_strings(ctx, s):
    lab = set()
    decl, body, exp = [], [], []
    procs = []
    # procedures that print their string formal, directly or by passing it on
    nproc = s.draw(5)
    for i in range(nproc):
        nm = 'p%d' % i
        k = s.draw(5)
        pre = sym_text(s, s.draw(6))
        pret = spell(s, fix_colon(pre), SRC_ALT, True)
        prex = ''.join(fix_colon(pre))
        if k == 0 or not procs:
            decl.append("procedure %s(s); string s; begin PRINTTEXT(`%s'); PRINTTEXT(s) end;" % (nm, pret))
            procs.append((nm, lambda t, prex=prex: prex + t))
        elif k == 1:
            lab.add('formal passed on')
            q, f = s.choice(procs)
            decl.append("procedure %s(s); string s; begin PRINTTEXT(s); %s(s); PRINTTEXT(`%s') end;" % (nm, q, pret))
            procs.append((nm, lambda t, prex=prex, f=f: t + f(t) + prex))
        elif k == 2:
            lab.add('string and procedure passed')
            q, f = s.choice(procs)
            decl.append("procedure i%s(s, q); string s; procedure q; begin q(s); q(`%s'); q(s) end; procedure %s(s); string s; i%s(s, %s);" %
                        (nm, pret, nm, nm, q))
            procs.append((nm, lambda t, prex=prex, f=f: f(t) + f(prex) + f(t)))
        elif k == 3:
            lab.add('PRINTTEXT as actual procedure')
            decl.append("procedure i%s(s, q); string s; procedure q; q(s); procedure %s(s); string s; begin integer j; i%s(s, PRINTTEXT); for j := 1 step 1 until 2 do PRINTTEXT(s) end;" %
                        (nm, nm, nm))
            procs.append((nm, lambda t: t * 3))
        else:
            lab.add('recursive passing on')
            d = s.draw(6)
            decl.append("procedure %s(s); string s; begin procedure rr(n, s, t); value n; integer n; string s, t; if n > 0 then begin PRINTTEXT(s); rr(n - 1, t, s) end; rr(%d, s, `%s') end;" %
                        (nm, d, pret))
            procs.append((nm, lambda t, d=d, prex=prex: ''.join((t, prex)[i % 2] for i in range(d))))
    n = s.rint(1, 10)
    total = 0
    for _ in range(n):
        k = s.draw(14)
        if k <= 4:
            ln = s.weighted([(30, s.draw(5)), (50, s.draw(40)), (15, s.draw(200)), (5, s.draw(900))])
            sy = fix_colon(sym_text(s, ln))
            lab.add('length mod 3 = %d' % (len(sy) % 3))
            if len(sy) > 100:
                lab.add('long string')
            if not sy:
                lab.add('empty string')
            if '`' in sy:
                lab.add('nested quotes')
            if '\n' in sy:
                lab.add('line end in string')
            total += len(sy)
            t = spell(s, sy, SRC_ALT, True)
            x = ''.join(sy)
            if procs and s.p(50):
                q, f = s.choice(procs)
                body.append("%s(`%s')" % (q, t))
                exp.append(f(x))
            else:
                q = s.choice(["`", "|<"])
                body.append("PRINTTEXT(%s%s%s)" % (q, t, "'" if q == '`' else '|>'))
                exp.append(x)
        elif k <= 6:
            v = s.rint(-3, 30)
            body.append(s.choice(['SPACE(%d)', 'SPACE(n + (%d))', 'SPACE(%d - n)', 'SPACE(%d.25)']) % v)
            exp.append(' ' * v)
            lab.add('SPACE')
        elif k == 7:
            body.append('TAB')
            exp.append('\t')
        elif k == 8:
            body.append('NLCR')
            exp.append('\n')
        elif k <= 11:
            c = s.choice(sorted(CODES)) if s.p(90) else s.draw(128)
            body.append(s.choice(['PRSYM(%d)', 'PRSYM(n + %d)', 'PRSYM(if n = 0 then %d else 5)', 'sa[0] := %d; PRSYM(sa[0])', 'PRSYM(id(%d))']) % c)
            exp.append(CODES.get(c, BOX))
            lab.add('PRSYM')
        elif k == 12:
            c = [s.choice(sorted(CODES)) for _ in range(s.rint(1, 5))]
            body.append('pr(%s, %s)' % ('PRSYM', ', '.join(map(str, (c + c + c + c + c)[:5]))))
            exp.append(''.join(CODES[i] for i in (c + c + c + c + c)[:5]))
            lab.add('PRSYM as actual procedure')
        else:
            a, b = s.rint(1, 40), s.rint(0, 40)
            body.append('for i := %d step 1 until %d do begin PRSYM(i); SPACE(1) end' % (a, a + b))
            exp.append(''.join(CODES.get(i, BOX) + ' ' for i in range(a, a + b + 1)))
    prog = kwtext2("begin integer i, n; integer array sa[0:1]; integer procedure id(k); value k; integer k; id := k;\n"
                   "procedure pr(q, a, b, c, d, e); value a, b, c, d, e; integer a, b, c, d, e; procedure q; begin q(a); q(b); q(c); q(d); q(e) end;\n" +
                   '\n'.join(decl) + '\nn := 0;\n' + ';\n'.join(body) + '\nend\n')
    x = ''.join(exp)
    r = ctx.run_a60(prog)
    check_out(r, prog, x, None)
    return dict(nontrivial=len(x) > 3, key=(x, prog), labels=sorted(lab), sample=dict(program=prog[-1200:], stdout=x[:400]))


def kwtext2(t):
    """underline word delimiters outside of strings"""
    out, i, depth, buf = [], 0, 0, []

    def flush():
        out.append(kwtext(''.join(buf)) if depth == 0 else ''.join(buf))
        buf.clear()
    while i < len(t):
        o = '`' if t[i] == '`' else '`' if t[i:i + 2] == '|<' else "'" if t[i] == "'" else "'" if t[i:i + 2] == '|>' else None
        w = 2 if t[i] == '|' else 1
        if o == '`':
            if depth == 0:
                flush()
            depth += 1
            buf.append(t[i:i + w])
            i += w
        elif o == "'":
            buf.append(t[i:i + w])
            i += w
            if depth == 1:
                flush()
            depth -= 1
        else:
            buf.append(t[i])
            i += 1
    flush()
    return ''.join(out)


def check_out(r, prog, x, err, stdin=None, zeros=False):
    """exact comparison; zeros: the sign of a zero is left open"""
    d = dict(program=prog, expected_stdout=x, expected_error=err, observed=r.brief())
    if stdin is not None:
        d['stdin'] = repr(stdin)
    c = crash_text(r)
    if c:
        raise Fail('program crashed: %s' % c, **d)
    if r.timeout:
        raise Fail('program did not stop', **d)
    got = r.out.decode('utf8', 'replace')
    if zeros:
        got, x = norm(got), norm(x)
    if err is None and r.rc != 0:
        raise Fail('stopped with an error report (%s) where none is due' % r.err[:120].decode('utf8', 'replace'), **d)
    if err is not None and r.rc == 0:
        raise Fail('ended normally where an error is due: %s' % err, **d)
    if (got != x) if err is None else (got.rstrip('\n') != x.rstrip('\n')):
        raise Fail('prints something else: %s' % diff_text(x, got), **d)


# ------------------------------------------------------------------ RESYM
INSYMS = [c for k, c in CODES.items() if k != 92]
BADIN = ['!', '#', '$', '%', '&', '{', '}', '\\', '~', '^', '\x01', '\x0c', '\x7f', 'é', 'я', '→', '⟨', '¡', '∀', '⊂', '≢', '\x00']
BADRAW = [b'\xff', b'\x80', b'\xe2\x28\xa1', b'\xc3\x28', b'\xe2\x88\x28', b'\xf0\x9f\x98\x80', b'\xe2\x86\x90']


def input_text(s, n, bad):
    """(bytes, symbol codes, error after them?)"""
    raw, codes = b'', []
    for i in range(n):
        k = s.draw(40)
        if k == 39:
            raw += b'\r'
        elif k == 38:
            raw += s.choice([b'|', b'_'])
            codes.append(162 if raw[-1:] == b'|' else 163)
        else:
            c = s.choice(PLAIN) if k < 18 else s.choice(INSYMS)
            t = c
            if c in IN_ALT and s.p(50):
                t = IN_ALT[c][0]
            raw += t.encode()
            codes.append(CODE_OF[c])
    if bad:
        raw += s.choice([b.encode() for b in BADIN] + BADRAW)
        for _ in range(s.draw(5)):
            raw += b'x'
        return raw, codes, True
    if s.p(10):                        # a symbol cut off by the end of the input
        raw += s.choice([b'\xe2', b'\xe2\x88', b'\xc3', b'\xc2', b'\xe2\x8f', b'\xe2\x86', b'\xe2\x89', b'\xe2\x8a'])
    return raw, codes, False


def case_resym(ctx, s):
    lab = set()
    n = s.weighted([(50, s.draw(30)), (40, s.draw(150)), (10, s.draw(3000))])
    bad = s.p(20)
    raw, codes, err = input_text(s, n, bad)
    k = s.draw(6)
    head = 'begin integer c, n; integer array a[0:7]; integer procedure get; begin n := n + 1; get := RESYM end; '
    tail = ' end'
    copy = ''.join(CODES.get(c, BOX) for c in codes)
    if any(c in (162, 163) for c in codes):
        lab.add('bar or underscore')
        if k < 3:
            k += 3                     # what PRSYM writes for these parser-only symbols is not documented
    dec = '\n'.join(map(str, codes)) + '\n' if codes else ''
    if k == 0:
        prog = head + 'l: c := RESYM; if c ≠ 255 then begin PRSYM(c); goto l end' + tail
        x = copy
    elif k == 1:
        lab.add('RESYM and PRSYM passed as actuals')
        prog = head + ('procedure cp(in, out); integer procedure in; procedure out; begin integer c; l: c := in; if c ≠ 255 then begin out(c); goto l end end; '
                       'cp(%s, PRSYM)' % s.choice(['RESYM', 'get'])) + tail
        x = copy
    elif k == 2:
        lab.add('kept in an array')
        m = s.rint(1, 8)
        prog = head + ('integer i, j, k; k := %d; l: for i := 0 step 1 until k - 1 do begin a[i] := RESYM; if a[i] = 255 then goto e end; e: for j := 0 step 1 until i - 1 do PRSYM(a[j]); if i = k then goto l' % m) + tail
        prog = prog.replace('begin integer c, n;', 'begin integer c, n, i, j, k;').replace('integer i, j, k; k :=', 'k :=')
        # an error report may come after up to m - 1 unwritten symbols
        x = copy if not err else ''.join(CODES.get(c, BOX) for c in codes[:len(codes) // m * m])
    elif k == 3:
        prog = head + 'n := 0; l: c := get; if c ≠ 255 then begin print(c); NLCR; goto l end; print(n)' + tail
        x = dec + ('' if err else str(len(codes) + 1))
    elif k == 4:
        lab.add('RESYM within expressions')
        prog = head + 'n := 0; l: c := RESYM + 1000; if c ≠ 1255 then begin print(c - 1000); NLCR; n := n + 1; goto l end; print(n)' + tail
        x = dec + ('' if err else str(len(codes)))
    else:
        lab.add('beyond the end')
        extra = s.rint(1, 4)
        prog = head + 'for n := 1 step 1 until %d do begin print(RESYM); NLCR end' % (len(codes) + extra) + tail
        x = dec + ('' if err else '255\n' * extra)
    prog = kwtext(prog)
    r = ctx.run_a60(prog, raw)
    check_out(r, prog, x, 'invalid input character' if err else None, raw)
    if err:
        lab.add('invalid character')
    return dict(nontrivial=len(codes) > 2, key=(raw, prog), labels=sorted(lab), sample=dict(program=prog, stdin=repr(raw[:200]), stdout=x[:200]))


CHECK = Check('P13', [
    Sub('strings', case_strings, 12000, 250000, 'programs that write more than three characters by PRINTTEXT, PRSYM, SPACE, TAB and NLCR'),
    Sub('resym', case_resym, 8000, 150000, 'input texts with more than two symbols'),
])
