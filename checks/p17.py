"""P17: every text is compiled or rejected; exhausted tables are reported"""
from checks.common import *
from vx import respell as R
import checks.p15 as p15

M26 = 1 << 26


# ---------------------------------------------------------------- ill-formed texts (sanitizer build)

WORDS = KW + ['Boolean']
BYTES = [b'', b'\x00', b'\n', b'\r', b'\t', b' ', b'_', b'\xcc\xb2', b'|', b'`', b"'", b'"', b';', b':', b':=', b'(', b')', b'[', b']', b',', b'.',
         b'@', b'\xe2\x8f\xa8', b'\xc3', b'\xe2', b'\xff', b'\xe2\x88\xa7', b'\xc2\xac', b'99999999999999999999', b'1', b'a', b'zz9', b'+', b'-', b'*', b'/', b'=', b'<']


def word(s):
    w = s.choice(WORDS)
    return ''.join('_' + c for c in w).encode() if s.p(80) else ''.join(c + '\u0332' for c in w).encode()


def soup(s, n):
    out = []
    for _ in range(n):
        k = s.draw(6)
        out.append(word(s) + s.choice([b' ', b'', b'\n']) if k < 3 else s.choice(BYTES) if k < 5 else bytes([s.draw(256)]))
    return b''.join(out)


def garble(s, b):
    b = bytearray(b)
    for _ in range(s.rint(1, 4)):
        if not b:
            b = bytearray(b'x')
        i, k = s.draw(len(b)), s.draw(9)
        if k == 0:
            b[i] = s.draw(256)
        elif k == 1:
            del b[i:i + s.rint(1, 20)]
        elif k == 2:
            b[i:i] = s.choice(BYTES)
        elif k == 3:
            del b[i:]
        elif k == 4:
            q = s.draw(len(b))
            b[i:i] = b[q:q + s.rint(1, 60)]
        elif k == 5:
            b[i:i] = word(s)
        elif k == 6:
            b[i:i] = soup(s, s.rint(1, 6))
        elif k == 7:
            q = s.draw(len(b))
            b[i:i] = b[q:q + s.rint(1, 30)] * s.rint(2, 60)
        else:
            b[i:i] = s.choice([b')', b',', b']', b'(', b'[', b';', b':', b'_e_n_d ', b'_b_e_g_i_n ', b'_e_l_s_e ', b'+', b'-', b'_d_o ', b'),', b'];']) * s.choice([s.rint(2, 40), s.rint(40, 1000)])
    return bytes(b)


def text_of(s, lab):
    k = s.draw(10)
    if k == 0:
        lab.add('random bytes')
        return bytes(s.draw(256) for _ in range(s.draw(200)))
    if k == 1:
        lab.add('symbol soup')
        return (word(s) if s.p(50) else b'_b_e_g_i_n ') + soup(s, s.rint(1, 80))
    t = p15.program_tokens(s, set())
    if len(t) > 700:
        raise Discard('too long')
    if k < 8:
        lab.add('tokens changed')
        for _ in range(1 if s.p(60) else s.rint(2, 6)):
            t = p15.mutate(s, t)
    b = R.Speller(s, comments=s.p(20)).write(t).encode()
    if k >= 6:
        lab.add('bytes changed')
        b = garble(s, b)
    return b


def case_text(ctx, s):
    lab = set()
    text = text_of(s, lab)
    how = s.draw(8)
    if how == 0:
        lab.add('from standard input')
        r = ctx.exec([ctx.tools['x1algc']], text)
    elif how == 1:
        lab.add('listing on')
        r = ctx.compile(text, args=['-v'])
    else:
        r = ctx.compile(text)
    d = dict(text=text.decode('utf8', 'backslashreplace'), text_hex=text.hex() if len(text) < 4000 else None, how=how, result=r.brief())
    c = crash_text(r)
    if c:
        raise Fail('compiler crashed: ' + c, **d)
    if r.timeout:
        raise Fail('compiler does not stop', **d)
    if r.rc not in (0, 1):
        raise Fail('compiler ends with status %r' % r.rc, **d)
    if r.rc == 1 and not (r.out + r.err).strip():
        raise Fail('a rejected text without a message', **d)
    if r.rc == 0 and len(p15.object_of(r)[1]) < 3:
        raise Fail('an accepted text without an object program', **d)
    lab.add('accepted' if r.rc == 0 else 'rejected')
    return dict(nontrivial=len(text) > 10, key=text, labels=sorted(lab), sample=dict(text=d['text'][:600], status=r.rc))


# ---------------------------------------------------------------- programs scaled across the limits
# Each family is a function n -> (declarations, statements, output) of a program with known output.  Names start with the
# family's letter so that families can be combined in one program.

def pick(s, n, k=4):
    return sorted({0, n - 1} | {s.draw(n) for _ in range(k)})


def f_names(s, n):
    v = ['nv%d' % i for i in range(n)]
    st = ['%s := %d' % (v[i], i * 7 + 1) for i in range(n)] if s.p(50) else ['%s := %d' % (v[i], i * 7 + 1) for i in pick(s, n)]
    idx = [i for i in pick(s, n) if '%s := %d' % (v[i], i * 7 + 1) in st]
    st.append('print(%s)' % ' + '.join(v[i] for i in idx))
    decl = ['integer ' + ', '.join(v)] if s.p(50) else ['integer ' + x for x in v]
    return decl, st, '%d\n' % sum(i * 7 + 1 for i in idx)


def f_longnames(s, n):
    v = [('m' + 'abcdefghij'[i % 10] + 'abcdefghij'[i // 10 % 10] + 'abcdefghij'[i // 100 % 10] + 'abcdefghij'[i // 1000 % 10] + 'qqqq') for i in range(n)]
    idx = pick(s, n)
    return (['real ' + ', '.join(v)], ['%s := %d.5' % (v[i], i) for i in idx] + ['print(entier(%s))' % ' + '.join(v[i] for i in idx)],
            '%d\n' % int(sum(i + .5 for i in idx)))


def f_procs(s, n):
    idx = pick(s, n)
    return (['integer procedure q%d; q%d := %d' % (i, i, i + 3) for i in range(n)],
            ['print(%s)' % ' + '.join('q%d' % i for i in idx)], '%d\n' % sum(i + 3 for i in idx))


def f_consts(s, n):
    real = s.p(50)
    st, tot = ['ck := 0'], 0
    for i in range(n):
        c = 40000 + 13 * i
        tot += c
        st.append('ck := ck + %d%s' % (c, '.0' if real else ''))
    if tot >= M26 and not real:
        st = ['ck := 0'] + ['ck := %d' % (40000 + 13 * i) for i in range(n)]
        tot = 40000 + 13 * (n - 1)
    # printed piecewise: print shows a real with limited digits
    if real:
        return ['real ck'], st + ['print(entier(ck / 1000))', 'print(entier(ck - 1000 × entier(ck/1000)))'], '%d\n%d\n' % (tot // 1000, tot % 1000)
    return ['integer ck'], st + ['print(ck)'], '%d\n' % tot


def f_long(s, n):
    k = s.draw(3)
    body = ['lx := lx + 1', 'lx := lx + ly', 'if ly > 0 then lx := lx + 1 else lx := 0'][k]
    return ['integer lx, ly'], ['lx := 0', 'ly := 1'] + [body] * n + ['print(lx)'], '%d\n' % n


def f_string(s, n):
    t = ''.join('abcdefghij'[(i * 7 + i // 10) % 10] for i in range(n))
    return [], ['PRINTTEXT(`%s\')' % t, 'NLCR'], t + '\n'


def f_strings(s, n):
    return [], ['PRINTTEXT(`s%d\')' % i for i in range(n)] + ['NLCR'], ''.join('s%d' % i for i in range(n)) + '\n'


def f_blocks(s, n):
    a = s.p(30)
    st = ''
    for i in range(n):
        st += 'begin integer b%d; b%d := %d; bk := bk + b%d;\n' % (i, i, i, i) if not a else \
              'begin integer array b%d[0:1]; b%d[1] := %d; bk := bk + b%d[1];\n' % (i, i, i, i)
    return ['integer bk'], ['bk := 0', st + 'print(bk)' + ' end' * n], '%d\n' % (n * (n - 1) // 2)


def f_nestprocs(s, n):
    # each one calls the next inner one and sees all outer locals
    t = ''
    for i in range(n):
        t += 'procedure p%d(x); value x; integer x; begin integer l%d; ' % (i, i)
    # declarations come first: inner procedure, then the statements
    inner = 'pk := pk + %s' % ' + '.join('l%d' % i for i in range(n))
    t2 = ''
    for i in range(n - 1, -1, -1):
        call = inner if i == n - 1 else 'p%d(x + 1)' % (i + 1)
        t2 += (' ; ' if i < n - 1 else '') + 'l%d := x; %s end' % (i, call)
    return ['integer pk', t + t2], ['pk := 0', 'p0(5)', 'print(pk)'], '%d\n' % sum(5 + i for i in range(n))


def f_fors(s, n):
    ind = s.draw(3)
    h = ''.join('for %s := 1 do ' % ['f%d' % i, 'fa[%d]' % (i % 3), 'f%d' % i][ind] + ('begin fk := fk + 1; ' if ind == 2 else '') for i in range(n))
    body = 'fk := fk + 1' + (' end' * n if ind == 2 else '')
    d = ['integer fk', 'integer array fa[0:2]']
    if ind != 1:
        d.insert(0, 'integer ' + ', '.join('f%d' % i for i in range(n)))
    return d, ['fk := 0', h + body, 'print(fk)'], '%d\n' % (n + 1 if ind == 2 else 1)


def f_calls(s, n):
    kind = s.draw(3)
    d = ['integer procedure ci(x); %sinteger x; ci := x + 1' % ('value x; ' if kind == 0 else '')]
    if kind == 2:
        return [], ['print(%s1%s)' % ('abs(' * n, ')' * n)], '1\n'
    return d, ['print(%s1%s)' % ('ci(' * n, ')' * n)], '%d\n' % (n + 1)


def f_parens(s, n):
    k = s.draw(3)
    if k == 0:
        return ['integer ek'], ['ek := 1', 'print(%sek%s)' % ('(' * n, ')' * n)], '1\n'
    if k == 1:
        return ['integer ek'], ['ek := 1', 'print(%sek%s)' % ('1 + (' * n, ')' * n)], '%d\n' % (n + 1)
    return ['integer array ea[1:1]'], ['ea[1] := 1', 'print(%s1%s)' % ('ea[' * n, ']' * n)], '1\n'


def f_ifs(s, n):
    k = s.draw(3)
    if k == 0:
        return ['integer ik'], ['ik := %d' % n, 'print(%s 0)' % ''.join('if ik = %d then %d else ' % (i, i + 5) for i in range(1, n + 1))], '%d\n' % (n + 5)
    if k == 1:
        return ['integer ik'], ['ik := 1', ''.join('if ik < %d then ' % (i + 2) + 'begin ' for i in range(n)) + 'print(7)' + ' end' * n], '7\n'
    return ['boolean ib'], ['ib := true', 'print(%s 3 %s)' % ('if ib then (' * n, ' ) else 9' * n)], '3\n'


def f_begins(s, n):
    return [], ['begin ' * n + 'print(4)' + ' end' * n], '4\n'


def f_ops(s, n):
    k = s.draw(3)
    if k == 0:
        return ['integer oa'], ['oa := 1', 'print(%s)' % ' + '.join(['oa'] * n)], '%d\n' % n
    if k == 1:
        return ['integer oa'], ['oa := 2', 'print(oa < 3' + ' ∧ oa < 3' * n + ')'], '0\n'
    return ['integer oa'], ['oa := 2', 'print(' + '1 + 1 × (' * n + 'oa' + ')' * n + ')'], '%d\n' % (n + 2)


def f_dims(s, n):
    v = s.p(30) and n <= 5
    return (['integer array da[%s]' % ', '.join(['0:1'] * n)] if not v else ['integer array da[%s]' % ', '.join(['1:2'] * n)],
            ['da[%s] := 9' % ', '.join(['1'] * n), 'print(da[%s])' % ', '.join(['1'] * n)], '9\n')


def f_arrays(s, n):
    idx = pick(s, n)
    one = s.p(50)
    if one:
        d = ['integer array ' + ', '.join('ar%d' % i for i in range(n)) + '[1:2]']
    else:
        d = ['integer array ar%d[%d:%d]' % (i, i, i + 1) for i in range(n)]
    sub = (lambda i: 2) if one else (lambda i: i + 1)
    return d, ['ar%d[%d] := %d' % (i, sub(i), i + 1) for i in idx] + ['print(%s)' % ' + '.join('ar%d[%d]' % (i, sub(i)) for i in idx)], '%d\n' % sum(i + 1 for i in idx)


def f_bigarray(s, n):
    lo = s.choice([0, 1, -5, -n + 1])
    hi = lo + n - 1
    t = s.choice(['integer ', 'real ', ''])
    d = [t + 'array big[%d:%d]' % (lo, hi)]
    st = ['big[%d] := 3' % lo, 'big[%d] := big[%d] + %d' % (hi, lo, 1 if n > 1 else 0), 'print(big[%d])' % hi]
    if s.p(50):
        # allocated at run time
        st = ['begin %sarray big[bl:bh]; %s end' % (t, '; '.join(st))]
        return ['integer bl, bh'], ['bl := %d' % lo, 'bh := %d' % hi] + st, '4\n' if n > 1 else '3\n'
    return d, st, '4\n' if n > 1 else '3\n'


def f_formals(s, n):
    names = ['g%d' % i for i in range(n)]
    if s.p(50):
        spec = 'value %s; integer %s;' % (', '.join(names), ', '.join(names))
    else:
        spec = 'integer %s;' % ', '.join(names)
    idx = pick(s, n)
    return (['integer procedure gf(%s); %s gf := %s' % (', '.join(names), spec, ' + '.join(names[i] for i in idx))],
            ['print(gf(%s))' % ', '.join(str(i + 2) for i in range(n))], '%d\n' % sum(i + 2 for i in idx))


def f_switch(s, n):
    i = s.draw(n)
    return (['switch sw := ' + ', '.join('sl%d' % j for j in range(n))],
            ['goto sw[%d]' % (i + 1)] + ['sl%d: print(%d); goto se' % (j, j) for j in range(n)] + ['se: NLCR'], '%d\n\n' % i)


def f_forlist(s, n):
    return ['integer fi, fs'], ['fs := 0', 'for fi := %s do fs := fs + fi' % ', '.join(str(j % 50) for j in range(n)), 'print(fs)'], '%d\n' % sum(j % 50 for j in range(n))


def f_labels(s, n):
    order = s.p(50)
    st = ['lb := 0', 'goto la0']
    if order:
        st += ['la%d: lb := lb + 1; goto la%d' % (j, j + 1) for j in range(n)] + ['la%d: print(lb)' % n]
    else:
        st += ['la%d: lb := lb + 1; goto la%d' % (j, j + 1) for j in range(n - 1, -1, -1)] + ['la%d: print(lb)' % n]
        st = st[:2] + st[2:]
    return ['integer lb'], st, '%d\n' % n


def f_assigns(s, n):
    v = ['u%d' % i for i in range(min(n, 20))]
    return ['integer ' + ', '.join(v)], [' := '.join(v[i % len(v)] for i in range(n)) + ' := 17', 'print(%s)' % v[n - 1 if n <= len(v) else 0]], '17\n'


def f_locals(s, n):
    names = ['h%d' % i for i in range(n)]
    idx = pick(s, n)
    t = s.choice(['integer', 'real'])
    return (['procedure hp; begin %s %s; %s; print(entier(%s)) end' % (t, ', '.join(names), '; '.join('%s := %d' % (names[i], i) for i in idx), ' + '.join(names[i] for i in idx))],
            ['hp'], '%d\n' % sum(idx))


def f_owns(s, n):
    names = ['w%d' % i for i in range(n)]
    return (['procedure wp; begin own integer %s; w0 := w0 + 1; %s := %s + w0; print(%s) end' % (', '.join(names), names[-1], names[-1], names[-1])], ['wp', 'wp'],
            '%d\n%d\n' % ((1, 3) if n > 1 else (2, 6)))


def f_std(s, n):
    fns = ['abs(%s)', 'sign(%s)', 'entier(%s)']
    e = '4'
    for j in range(n):
        e = fns[j % 3 if j else 0] % e
    return [], ['print(%s)' % e], '4\n' if n < 2 else '1\n'


def f_number(s, n):
    d = '0' * (n - 1) + '12' if s.p(50) else None
    if d:
        return [], ['print(%s)' % d], '12\n'
    return [], ['print(entier(0.5 + 1.%s))' % ('0' * n)], '1\n'


def f_comment(s, n):
    return [], ['comment ' + 'ab c' * n + '; print(6)'], '6\n'


def f_ident(s, n):
    v = 'z' + 'y9' * n
    return ['integer ' + v], [v + ' := 8', 'print(%s)' % v], '8\n'


# name -> (family, largest n tried, n up to which rejection would be absurd, may end with an error at run time)
FAM = dict(
    names=(f_names, 4000, 60, 0), longnames=(f_longnames, 3000, 40, 0), procs=(f_procs, 2000, 40, 0), consts=(f_consts, 3000, 60, 0), long=(f_long, 4000, 150, 0),
    string=(f_string, 9000, 200, 0), strings=(f_strings, 1500, 40, 0), blocks=(f_blocks, 140, 8, 0), nestprocs=(f_nestprocs, 140, 5, 0), fors=(f_fors, 140, 6, 0),
    calls=(f_calls, 150, 6, 0), parens=(f_parens, 400, 10, 0), ifs=(f_ifs, 400, 6, 0), begins=(f_begins, 500, 20, 0), ops=(f_ops, 3000, 10, 0), dims=(f_dims, 40, 5, 1),
    arrays=(f_arrays, 1500, 20, 1), bigarray=(f_bigarray, 200000, 300, 1), formals=(f_formals, 300, 8, 1), switch=(f_switch, 800, 20, 0), forlist=(f_forlist, 1500, 40, 0),
    labels=(f_labels, 1500, 40, 0), assigns=(f_assigns, 600, 10, 0), locals=(f_locals, 900, 20, 1), owns=(f_owns, 3000, 20, 0), std=(f_std, 300, 6, 0),
    number=(f_number, 3000, 20, 0), comment=(f_comment, 20000, 500, 0), ident=(f_ident, 5000, 100, 0))


def size(s, hi):
    # log-uniform
    import math
    x = s.draw(1001) / 1000.0
    return max(1, int(round(hi ** x)))


def program_of(parts, s):
    decl, st = [], []
    # integer and array declarations before procedures and switches
    for d, _, _ in parts:
        decl += [x for x in d if not re.match(r'(integer |real )?(procedure|switch)\b', x)]
    for d, _, _ in parts:
        decl += [x for x in d if re.match(r'(integer |real )?(procedure|switch)\b', x)]
    out = ''
    for _, t, o in parts:
        st += t
        out += o
    return 'begin ' + ';\n'.join(decl + st) + '\nend\n', out


def case_capacity(ctx, s):
    k = 1 if s.p(60) else s.rint(2, 3)
    names = []
    for _ in range(k):
        f = s.choice(sorted(FAM))
        if f not in names:
            names.append(f)
    parts, lab, small, memory = [], set(), True, False
    sizes = []
    for f in names:
        fn, hi, lo, mem = FAM[f]
        n = size(s, hi)
        parts.append(fn(s, n))
        sizes.append((f, n))
        lab.add(f)
        small &= n <= lo
        memory |= bool(mem)
    if s.p(40):
        # a program of the usual kind as one more statement, before or after the others
        block = G.Gen(s, **s.choice(p15.PROFILES)).program()
        try:
            o, err = A.Interp(max_steps=4000).run(block)
        except (A.Ambiguous, A.TooLong, RecursionError):
            raise Discard('ambiguous or too long')
        if err is not None:
            raise Discard('ends with an error')
        parts.insert(s.draw(len(parts) + 1), ([], [A.Printer().program(block)], o))
        lab.add('with a generated program')
        small = False
    text, out = program_of(parts, s)
    t = kwtext(text)
    r = ctx.run_a60(t)
    d = dict(families=sizes, program=text[:3000] + ('...' + text[-1500:] if len(text) > 4500 else text[3000:]), expected=out[-500:], observed=r.brief())
    c = crash_text(r)
    if c:
        raise Fail('crashed: ' + c, **d)
    if r.timeout:
        raise Fail('does not stop', **d)
    # print adds no line end; the families write one for readability only
    got = norm(r.out.decode('utf8', 'replace')).replace('\n', '')
    out = norm(out).replace('\n', '')
    if r.rc == 0:
        lab.add('runs')
        if got != out:
            raise Fail('a program of this size prints something else: ' + diff_text(out, got), **d)
    else:
        q = ctx.compile(t)
        d['compiler'] = q.brief()
        c = crash_text(q)
        if c or q.timeout:
            raise Fail('compiler crashed or does not stop: %s' % c, **d)
        if q.rc == 0:
            lab.add('stops with an error at run time')
            if not memory or small:
                raise Fail('accepted, but ends with an error report: %s' % r.err[-200:].decode('utf8', 'replace'), **d)
            if not out.startswith(got):
                raise Fail('prints something else before the error report: ' + diff_text(out, got), **d)
        else:
            lab.add('rejected')
            if small:
                raise Fail('a small program is rejected: %s' % q.out[-200:].decode('utf8', 'replace'), **d)
            if not (q.out + q.err).strip():
                raise Fail('rejected without a message', **d)
    return dict(nontrivial=not small, key=text, labels=sorted(lab), sample=dict(families=sizes, status=r.rc))


# ---------------------------------------------------------------- undeclared identifiers, unfinished programs

def labels_of(st, out):
    """labels of the innermost block that holds this statement"""
    k = st[0]
    if k == 'lab':
        out.add(st[1])
        labels_of(st[2], out)
    elif k == 'if':
        for y in st[2:]:
            if y is not None:
                labels_of(y, out)
    elif k == 'comp':
        for y in st[1]:
            labels_of(y, out)
    elif k == 'for':
        labels_of(st[3], out)


def declared(d):
    if d[0] == 'vars':
        return set(d[3])
    if d[0] == 'array':
        return {n for names, b in d[3] for n in names}
    return {d[2]} if d[0] == 'proc' else {d[1]}


def places(st, env, out, names):
    """every statement list, with the names that are declared there"""
    k = st[0]
    if k == 'block':
        loc = set()
        for d in st[1]:
            loc |= declared(d)
        for y in st[2]:
            labels_of(y, loc)
        names |= loc
        env = env | loc
        for d in st[1]:
            if d[0] == 'proc':
                inner = {x[0] for x in d[3]}
                names |= inner
                lab = set()
                labels_of(d[4], lab)
                names |= lab
                places(d[4], env | inner | lab, out, names)
        out.append((st[2], env))
        for y in st[2]:
            places(y, env, out, names)
    elif k == 'comp':
        out.append((st[1], env))
        for y in st[1]:
            places(y, env, out, names)
    elif k == 'lab':
        places(st[2], env, out, names)
    elif k == 'if':
        for y in st[2:]:
            if y is not None:
                places(y, env, out, names)
    elif k == 'for':
        places(st[3], env, out, names)


def use(s, n):
    v, one = ('var', n), G.num(1)
    return s.choice([
        ('asg', [v], one), ('print', [v]), ('print', [('bin', '+', one, v)]), ('goto', ('lab', n)), ('call', n, [('e', one)]), ('asg', [('sub', n, [one])], one),
        ('print', [('sub', n, [one, one])]), ('print', [('std', 'abs', v)]), ('if', ('bin', '<', v, one), ('nlcr',), None), ('call', n, []),
        ('for', v, [('e', one)], ('nop',)), ('goto', ('sw', n, one)), ('print', [('call', n, [('e', one), ('e', v)])]), ('prim', 'SPACE', [v])])


def case_undeclared(ctx, s):
    lab = set()
    prof = s.choice(p15.PROFILES)
    block = G.Gen(s, **prof).program()
    if s.p(25):
        # a program that breaks off
        toks = R.tokens(A.Printer().program(block))
        n = s.draw(len(toks)) if s.p(70) else len(toks) - 1 - s.draw(min(6, len(toks)))
        sp = R.Speller(s)
        text = sp.write(toks[:n])
        lab.add('unfinished')
        what = 'the program breaks off after %d of %d symbols' % (n, len(toks))
    else:
        at, names = [], set()
        places(block, set(), at, names)
        lst, env = s.choice(at)
        short = {n[:9] for n in env} | {n[:9] for n in R.STD}
        other = sorted(n for n in names if n[:9] not in short)
        k = s.draw(3)
        n = None
        if k and other:
            n = s.choice(other)
            lab.add('declared elsewhere')
        elif k == 2 or not env:
            n = s.choice(['zzq', 'Q', 'ninechars', 'abcdefgh', 'xyz1', 'x12345678'])
            lab.add('declared nowhere')
        else:
            m = s.choice(sorted(env))
            j = s.draw(min(len(m), 9))
            n = s.choice([m[:j], m[:j] + s.choice('aZ09') + m[j + 1:], m + s.choice('aZ09'), m[:j] + s.choice('aZ09') + m[j:], m.swapcase(), s.choice('aZ') + m])
            lab.add('nearly the same name')
        if not re.fullmatch('[A-Za-z][A-Za-z0-9]*', n) or n[:9] in short:
            raise Discard('declared')
        lst.insert(s.draw(len(lst) + 1), use(s, n))
        toks = R.tokens(A.Printer().program(block))
        if len(toks) > 1500:
            raise Discard('too big')
        sp = R.Speller(s)
        if s.p(60):
            sp.density = sp.form = 0
        text = sp.write(toks)
        what = '%s is used where it is not declared' % n
    r = ctx.compile(text)
    d = dict(program=text, why=what, observed=r.brief())
    if crash_text(r) or r.timeout:
        raise Fail('compiler crashed or does not stop', **d)
    if r.rc == 0:
        raise Fail('accepted although ' + what, **d)
    if not (r.out + r.err).strip():
        raise Fail('rejected without a message', **d)
    return dict(nontrivial=len(toks) > 20, key=text, labels=sorted(lab), sample=dict(why=what, message=(r.out + r.err)[-200:].decode('utf8', 'replace')))


CHECK = Check('P17', [
    Sub('texts', case_text, 16000, 300000, 'texts of more than ten bytes, nearly all ill-formed', flavour='san', what=('x1algc',)),
    Sub('capacity', case_capacity, 6000, 100000, 'programs beyond the sizes ordinary programs have'),
    Sub('undeclared', case_undeclared, 6000, 100000, 'different programs of more than 20 symbols with an error'),
])
