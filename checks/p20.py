"""P20: the configuration a program runs in does not change what it does"""
import random, resource, signal, subprocess
from checks.common import *
from vx import build as B

PROFILES = [dict(), dict(procs=(1, 2), formals=(0, 3), w_call=20), dict(procs=(0, 2), labels=60, w_goto=16, switches=40), dict(w_for=25, procs=(0, 1))]
MARK = '<<Z>>'
DOOMS = {
    'jump to the end': 'goto zzend',
    'overflow': 'begin zzi := 67108863; zzi := zzi + 1 end',
    'subscript': 'zza[zzi + 3] := 1',
    'logarithm': 'zzr := ln(zzi - 2)',
    'end of input': 'for zzi := 1 step 1 until 100 do zzr := read',
    'recursion': 'zzp',
    'big array': 'begin integer array q[1 : zzi + 3000000]; q[1] := 1 end',
}


def lists(x, r):
    """statement lists of a program tree"""
    if isinstance(x, tuple):
        if x and x[0] == 'block':
            r.append(x[2])
        elif x and x[0] == 'comp':
            r.append(x[1])
    if isinstance(x, (tuple, list)):
        for y in x:
            lists(y, r)
    return r


def build(s, steps=700):
    """a program with a place <<doom>>, reached on a random pass, and perhaps places that read and draw random numbers"""
    block = G.Gen(s, **s.choice(PROFILES)).program()
    try:
        A.Interp(max_steps=steps).run(block)
    except A.Ambiguous as e:
        raise Discard('ambiguous: ' + str(e))
    except A.TooLong:
        raise Discard('too long')
    except RecursionError:
        raise Discard('too deep')
    ls = [l for l in lists(block, [])]
    lab = set()

    def put(what):
        l = s.choice(ls)
        l.insert(s.draw(len(l) + 1), ('call', what, []))
    if s.p(40):
        put('zzread')
        lab.add('reads')
    if s.p(25):
        put('zzrandom')
        lab.add('random numbers')
    put('zzdoom')
    t = A.Printer().program(block)
    i = t.index('_n', t.index('_b_e_g_i_n')) + 2
    pre = kwtext(' integer zzc, zzi; real zzr; integer array zza[1:3]; procedure zzp; begin integer q; q := 1; zzp; q := q + 1 end; ')
    # the declarations of arrays and variables stay in front of the first procedure
    init = 'zzc := %d; zzi := 1; ' % s.rint(1, 3)
    if not re.search(r'\bzzdoom\b', t):
        raise Discard('no place')
    inner = t[i:].rstrip()
    assert inner.endswith('_e_n_d'), inner[-20:]
    t = kwtext('begin ') + pre + init + kwtext('begin ') + inner + kwtext('; zzend: end')
    t = re.sub(r'\bzzread\b', lambda m: kwtext('begin print(read); NLCR end'), t)
    t = re.sub(r'\bzzrandom\b', lambda m: kwtext('begin print(RANDOM); NLCR end'), t)
    if len(t) > 12000:
        raise Discard('too big')
    nums = ''.join('%s%s' % (s.choice(['1', '-2', '3.5', '12345', '4', '.25']), s.choice([' ', '\n', ', '])) for _ in range(s.draw(12)))
    return t, nums, lab


def doomed(t, d):
    return re.sub(r'\bzzdoom\b', lambda m: kwtext('begin zzc := zzc - 1; if zzc = 0 then begin %s end end' % d), t)


def same(base, r, what, d, trace=False):
    dd = dict(d, configuration=what, first=base.brief(), second=r.brief())
    c = crash_text(r)
    if c:
        raise Fail('%s: crashed: %s' % (what, c), **dd)
    if r.timeout:
        raise Fail('%s: does not stop' % what, **dd)
    if r.rc != base.rc:
        raise Fail('%s: the exit status is %d instead of %d' % (what, r.rc, base.rc), **dd)
    if trace:
        it = iter(r.out)
        if not all(b in it for b in base.out):
            raise Fail('%s: the output of the program is not among the trace' % what, **dd)
    elif r.out != base.out:
        raise Fail('%s: another output: %s' % (what, diff_text(base.out.decode('utf8', 'replace'), r.out.decode('utf8', 'replace'))), **dd)


def same_report(base, r, what, d):
    if bool(r.err.strip()) != bool(base.err.strip()):
        raise Fail('%s: the error report differs' % what, configuration=what, first=base.brief(), second=r.brief(), **d)


def piped(ctx, argv, stdin, s):
    """standard input arrives in pieces through a pipe, output leaves through a pipe"""
    data = stdin.encode()
    cuts = sorted(s.draw(len(data) + 1) for _ in range(s.draw(4)))
    rd, wr = os.pipe()
    p = subprocess.Popen(argv, stdin=rd, stdout=subprocess.PIPE, stderr=open(ctx.se, 'wb+'), env=ctx.env, cwd=ctx.dir)
    os.close(rd)
    try:
        for a, b in zip([0] + cuts, cuts + [len(data)]):
            try:
                os.write(wr, data[a:b])
            except BrokenPipeError:
                pass
    finally:
        os.close(wr)
    out = p.stdout.read()
    p.wait()
    from vx.engine import Result
    return Result(p.returncode, out, open(ctx.se, 'rb').read(), False, 0)


def case_config(ctx, s):
    t, stdin, lab = build(s)
    kind = s.choice(sorted(DOOMS))
    marked = doomed(t, "PRINTTEXT(`%s'); goto zzend" % MARK)
    m = ctx.run_a60(marked, stdin)
    d = dict(program=marked, stdin=stdin, observed=m.brief())
    if m.timeout:
        raise Discard('too long')
    c = crash_text(m)
    if c:
        raise Fail('crashed: ' + c, **d)
    if m.rc and re.search(rb'compiler', m.err):
        raise Fail('program rejected', **d)
    reached = m.out.endswith(MARK.encode())
    want = m.out[:-len(MARK)] if reached else m.out
    text = doomed(t, DOOMS[kind])
    d = dict(program=text, stdin=stdin)
    base = ctx.run_a60(text, stdin)
    dd = dict(d, observed=base.brief(), ending=kind, reached=reached, marked_program=marked, marked_output=m.brief())
    c = crash_text(base)
    if c:
        raise Fail('crashed: ' + c, **dd)
    if base.timeout:
        raise Fail('does not stop', **dd)
    rc = m.rc if not reached or kind == 'jump to the end' else 1
    if reached and m.rc:
        raise Fail('the last end gives the status of an error', **dd)
    if (base.rc != 0) != (rc != 0):
        raise Fail('exit status %d where the program %s' % (base.rc, 'fails' if rc else 'runs to its end'), **dd)
    if base.out.rstrip(b'\n') != want.rstrip(b'\n'):
        raise Fail('output before the end (%s) differs: %s' % (kind, diff_text(want.decode('utf8', 'replace'), base.out.decode('utf8', 'replace'))), **dd)
    if (base.rc != 0) != bool(base.err.strip()):
        raise Fail('an error report without an error status, or the reverse', **dd)
    lab.add('ends by %s' % (kind if reached else 'error of its own' if m.rc else 'the last end'))
    obj = open(ctx.path('p.x1'), 'rb').read()
    sim, alg, libf = ctx.tools['x1sim'], ctx.tools['x1algc'], ctx.env['X1ALGOL_LIB']
    long = reached and kind in ('recursion', 'big array')
    # places for the tools and the library
    evals = 2
    for _ in range(5):
        k = s.draw(16)
        name = None
        if k == 0:
            r, name = ctx.exec([sim, 'p.x1'], stdin), 'object file'
        elif k == 1:
            o = ctx.compile(text)
            if o.rc or o.out != obj:
                raise Fail('the compiler gives another object program than within x1sim', object=obj.decode(), observed=o.brief(), **d)
            r, name = ctx.run_x1(o.out, stdin), 'object compiled separately'
        elif k == 2:
            r, name = ctx.exec([sim, 'p.a60'], stdin), 'second run'
        elif k in (3, 4) and not long:
            a = ['-d', '--trace=t.trace'] if k == 3 else ['--trace', 't.trace', '--debug']
            f = s.choice(['p.a60', 'p.x1'])
            r, name = ctx.exec([sim] + (a + [f] if s.p(50) else [f] + a), stdin), 'trace to a file (%s)' % ' '.join(a)
        elif k == 5:
            r, name = ctx.exec([sim, '--trace=t.trace', 'p.a60'], stdin), '--trace alone'
        elif k == 6 and not long:
            r, name = ctx.exec([sim, s.choice(['-d', '--debug']), s.choice(['p.a60', 'p.x1'])], stdin), 'trace to standard output'
        elif k == 7:
            r, name = ctx.exec([sim, 'p.a60', libf], stdin, env={'X1ALGOL_LIB': '/nonexistent'}), 'library given'
        elif k == 8:
            with open(os.path.join(ctx.home, '.x1algol.lib'), 'w') as f:
                f.write(open(libf).read())
            r, name = ctx.exec([sim, 'p.a60'], stdin, env={'X1ALGOL_LIB': None}), 'library in the home directory'
            os.unlink(os.path.join(ctx.home, '.x1algol.lib'))
        elif k == 9:
            for x in ('inst', 'inst/bin', 'inst/lib'):
                os.makedirs(ctx.path(x), exist_ok=True)
            ctx.write('inst/lib/x1algol.lib', open(libf).read())
            if not os.path.lexists(ctx.path('inst/bin/x1sim')):
                os.symlink(sim, ctx.path('inst/bin/x1sim'))
            r, name = ctx.exec([ctx.path('inst/bin/x1sim'), 'p.a60'], stdin, env={'X1ALGOL_LIB': None}), 'library beside the simulator'
        elif k == 10:
            n = s.choice(['a b.a60', 'x.y.a60', '-.a60', 'ä.a60', 'P' * 200 + '.a60', '.h.a60'])
            os.makedirs(ctx.path('d'), exist_ok=True)
            ctx.write('d/' + n, text)
            here = ctx.path('e')
            os.makedirs(here, exist_ok=True)
            r, name = ctx.exec([sim, '../d/' + n], stdin, cwd=here), 'another name and place'
            if not os.path.exists(os.path.join(here, n[:-4] + '.x1')):
                raise Fail('no object file %s.x1 is left' % n[:-4], observed=r.brief(), **d)
            if open(os.path.join(here, n[:-4] + '.x1'), 'rb').read() != obj:
                raise Fail('another object file', observed=r.brief(), **d)
            for x in os.listdir(here):
                os.unlink(os.path.join(here, x))
        elif k == 11:
            r, name = piped(ctx, [sim, s.choice(['p.a60', 'p.x1'])], stdin, s), 'pipes'
        elif k == 12:
            ctx.write('q.x1', obj + b'99999 1\n' * s.rint(1, 400))
            ctx.write('q.a60', text)
            r, name = ctx.exec([sim, 'q.a60'], stdin), 'old object file there'
            if open(ctx.path('q.x1'), 'rb').read() != obj:
                raise Fail('the old object file was not replaced', observed=r.brief(), **d)
        elif k == 13:
            e = s.choice([{'LC_ALL': 'C'}, {'LC_ALL': 'de_DE.UTF-8'}, {'TZ': 'Asia/Tokyo'}, {'POSIXLY_CORRECT': '1'}, {'TERM': 'dumb'}, {'HOME': None}])
            r, name = ctx.exec([sim, 'p.a60'], stdin, env=e), 'environment'
        elif k == 14:
            t2 = s.choice([text.replace('\n', '\r\n') if False else text + '\n', '\n\n' + text, text.rstrip('\n'), text + '\n\n'])
            r, name = ctx.run_a60(t2, stdin, name='z.a60'), 'empty lines around'
        elif k == 15:
            a, b = ctx.exec([alg], text), ctx.exec([alg, 'p.a60'], b'')
            if (a.rc, a.out) != (b.rc, b.out):
                raise Fail('compiling from the standard input gives something else', file=b.brief(), standard_input=a.brief(), **d)
            lab.add('source from standard input')
            continue
        if name is None:
            continue
        evals += 1
        lab.add(re.sub(r' \(.*', '', name))
        same(base, r, name, d, name == 'trace to standard output')
        same_report(base, r, name, d)
    return dict(nontrivial=len(m.out) > 0 and len(want) > 0, key=(text, stdin), labels=sorted(lab), evals=evals,
                sample=dict(program=text, stdin=stdin, stdout=base.out[:300].decode('utf8', 'replace'), rc=base.rc))


# ------------------------------------------------------------------------ faults
def fsize(n):
    def pre():
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    return pre


def closing(fds):
    def pre():
        for f in fds:
            os.close(f)
    return pre


def case_fault(ctx, s):
    """a fault at any place of compiling and running: either the same result, or an error status and no output"""
    k = s.draw(9)
    n1 = s.rint(1, 400)
    text = kwtext("begin integer i; for i := 1 step 1 until %d do begin print(%d, i, i / 7); NLCR%s end end" %
                  (s.choice([1, 3, 40, 300]), n1, ''.join('; print(%d.5 × i)' % s.draw(100) for _ in range(s.draw(20)))))
    base = ctx.run_a60(text)
    obj = open(ctx.path('p.x1'), 'rb').read()
    d = dict(program=text)
    if base.rc:
        raise Fail('program does not run', observed=base.brief(), **d)
    sim, alg, libf = ctx.tools['x1sim'], ctx.tools['x1algc'], ctx.env['X1ALGOL_LIB']
    size = len(obj)
    evals = 0
    lab = set()

    def ended(r, what, **kw):
        dd = dict(d, fault=what, observed=r.brief(), **kw)
        if r.rc is not None and r.rc < 0 or b'terminate called' in r.err:
            raise Fail('%s: killed' % what, **dd)
        if r.timeout:
            raise Fail('%s: does not stop' % what, **dd)
        return dd

    def refused(r, what, **kw):
        dd = ended(r, what, **kw)
        if r.rc == 0:
            raise Fail('%s: exit status zero' % what, **dd)
        if r.out:
            raise Fail('%s: something was run' % what, **dd)
    old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)     # a full disk is an error of write
    try:
        for _ in range(6):
            evals += 1
            if k == 0:
                lab.add('object file does not fit')
                n = s.choice([0, 1, size - 1, size, size + 1, s.draw(size)])
                ig = s.p(60)
                # the output of the program itself goes to a pipe
                p = subprocess.run([sim, 'p.a60'], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ctx.env, cwd=ctx.dir,
                                   preexec_fn=fsize(n), restore_signals=not ig)
                from vx.engine import Result
                r = Result(p.returncode, p.stdout, p.stderr, False, 0)
                if n < size:
                    refused(r, 'only %d of %d bytes of the object file can be written' % (n, size))
                else:
                    same(base, r, 'object file just fits', d)
            elif k == 1:
                lab.add('object program does not fit (compiler)')
                n = s.choice([0, 1, size - 1, size, s.draw(size)])
                ctx.write('p.a60', text)
                r = ctx.exec([alg, 'p.a60', libf], pre=fsize(n), keep=True, stdout=ctx.path('o.out'))
                ended(r, 'limit')
                if (r.rc == 0) != (n >= size):
                    raise Fail('compiler: only %d of %d bytes could be written, exit status %d' % (n, size, r.rc), observed=r.brief(), **d)
            elif k == 2:
                lab.add('output does not fit')
                L = len(base.out)
                n = s.choice([0, 1, L - 1, L, s.draw(L)])
                ctx.write('w.x1', obj)
                r = ctx.exec([sim, 'w.x1'], pre=fsize(n), keep=True, stdout=ctx.path('o.out'))
                ended(r, 'limit')
                if (r.rc == 0) != (n >= L):
                    raise Fail('only %d of %d bytes of output could be written, exit status %d' % (n, L, r.rc), observed=r.brief(), **d)
                if open(ctx.path('o.out'), 'rb').read() != base.out[:n]:
                    raise Fail('the output written is not the beginning of the output', limit=n, observed=r.brief(), **d)
            elif k == 3:
                lab.add('device full')
                if s.p(50):
                    r = ctx.exec([sim, s.choice(['p.a60', 'p.x1'])], stdout='/dev/full')
                else:
                    r = ctx.exec([alg, 'p.a60', libf], stdout='/dev/full')
                refused(r, 'device full')
            elif k == 4:
                fds = s.choice([[0], [2], [0, 2]])
                lab.add('closed descriptors')
                r = ctx.exec([sim, s.choice(['p.a60', 'p.x1'])], pre=closing(fds))
                same(base, r, 'descriptors %s closed' % fds, d)
            elif k == 5:
                lab.add('standard output closed')
                if os.path.exists(ctx.path('c.x1')):
                    os.unlink(ctx.path('c.x1'))
                ctx.write('c.a60', text)
                fds = s.choice([[1], [0, 1], [1, 2], [0, 1, 2]])
                r = ctx.exec([sim, 'c.a60'], pre=closing(fds))
                ended(r, 'descriptors %s closed' % fds)
                if not os.path.exists(ctx.path('c.x1')) or open(ctx.path('c.x1'), 'rb').read() != obj:
                    raise Fail('descriptors %s closed: the object file is not what it should be' % fds, observed=r.brief(), **d)
            elif k == 6:
                j = s.draw(7)
                lab.add('missing things')
                if j == 0:
                    r = ctx.exec([sim, 'no-such.a60'])
                elif j == 1:
                    r = ctx.exec([sim, 'no-such.x1'])
                elif j == 2:
                    os.makedirs(ctx.path('dir.a60'), exist_ok=True)
                    r = ctx.exec([sim, 'dir.a60'])
                elif j == 3:
                    os.makedirs(ctx.path('folder.x1'), exist_ok=True)
                    r = ctx.exec([sim, 'folder.x1'])
                elif j == 4:
                    os.makedirs(ctx.path('u.x1'), exist_ok=True)
                    ctx.write('u.a60', text)
                    r = ctx.exec([sim, 'u.a60'])
                elif j == 5:
                    r = ctx.exec([sim, 'p.a60'], env={'PATH': '/nonexistent'})
                else:
                    r = ctx.exec([sim, '-d', '--trace=/nonexistent/t', 'p.a60'])
                refused(r, 'missing thing %d' % j)
            elif k == 7:
                lab.add('library missing')
                t2 = kwtext("begin print(RANDOM) end")
                ctx.write('m.a60', t2)
                ctx.write('m.lib', s.choice(['', '\n', '0 0 0\n', '0\n\n']))
                j = s.draw(3)
                if j == 0:
                    r = ctx.exec([sim, 'm.a60', 'no-such.lib'])
                elif j == 1:
                    r = ctx.exec([sim, 'm.a60', 'm.lib'])
                else:
                    r = ctx.exec([sim, 'm.a60'], env={'X1ALGOL_LIB': 'no-such.lib'})
                refused(r, 'library missing')
            else:
                lab.add('compiler fails')
                os.makedirs(ctx.path('bin'), exist_ok=True)
                n = s.draw(size)
                ctx.write('part', obj[:n] if s.p(70) else obj)
                how = s.choice(['kill -9 $$', 'kill -11 $$', 'kill -6 $$', 'exit %d' % s.rint(1, 255)])
                ctx.write('bin/x1algc', '#!/bin/sh\ncat %s\n%s\n' % (ctx.path('part'), how))
                os.chmod(ctx.path('bin/x1algc'), 0o755)
                r = ctx.exec([sim, 'p.a60'], env={'PATH': ctx.path('bin') + ':/usr/bin:/bin'})
                refused(r, 'compiler ends by %s' % how)
    finally:
        signal.signal(signal.SIGXFSZ, old)
    return dict(nontrivial=True, key=(text, k, tuple(s.log[-30:])), labels=sorted(lab), evals=evals, sample=dict(program=text, faults=sorted(lab)))


# -------------------------------------------------------------------- command line
def case_argv(ctx, s):
    ctx.write('p.a60', kwtext('begin print(42) end'))
    ctx.write('p.x1', ctx.compile(kwtext('begin print(43) end')).out)
    ctx.write('r.a60', kwtext('begin integer i; i := 67108863; print(7); i := i + 1 end'))
    ctx.write('bad.a60', kwtext('begin print(42)'))
    ctx.write('e.txt', 'x')
    lib = ctx.env['X1ALGOL_LIB']
    args, files, final = [], [], None
    n = s.draw(5)
    for _ in range(n):
        k = s.draw(12)
        if k < 6:
            f = s.weighted([(30, 'p.a60'), (20, 'p.x1'), (10, 'r.a60'), (8, 'bad.a60'), (8, 'e.txt'), (8, 'none.a60'), (8, 'none.x1'), (10, lib)])
            args.append(f)
            files.append(f)
        elif k == 6:
            args += s.choice([['--trace=t'], ['--trace', 't'], ['--tr=t']])
        elif k == 7:
            args += s.choice([['-d', '--trace=t'], ['--debug', '--trace=t']])
        elif k == 8:
            args.append(s.choice(['-h', '--help']))
            final = final or 'help'
        elif k == 9:
            args.append(s.choice(['-V', '--version']))
            final = final or 'version'
        elif k == 10:
            args.append(s.choice(['-z', '--nope', '--debug=1', '--trace=/nonexistent/x']))
            final = final or 'wrong'
        else:
            args += ['--trace=t']
    r = ctx.exec([ctx.tools['x1sim'], *args])
    d = dict(arguments=args, observed=r.brief())
    c = crash_text(r)
    if c:
        raise Fail('crashed: ' + c, **d)
    if r.timeout:
        raise Fail('does not stop', **d)

    def expect(ok, out=None):
        if (r.rc == 0) != ok:
            raise Fail('exit status %d' % r.rc, expected='zero' if ok else 'not zero', **d)
        if out is not None and r.out.decode('utf8', 'replace').rstrip('\n') != out:
            raise Fail('another output', expected=out, **d)
        if ok == bool(r.err.strip()):
            raise Fail('an error report without an error, or the reverse', **d)
    if final == 'wrong':
        expect(False, '')
    elif final in ('help', 'version'):
        expect(True)
        if not r.out.strip():
            raise Fail('no answer to --%s' % final, **d)
    elif not files:
        expect(False, '')
    else:
        f, rest = files[0], files[1:]
        known = all(x == lib for x in rest) or f in ('r.a60', 'p.a60') and all(x in (lib, 'e.txt', 'p.a60', 'p.x1', 'r.a60', 'bad.a60', 'none.a60', 'none.x1') for x in rest)
        if f in ('none.a60', 'none.x1', 'e.txt', 'bad.a60', lib):
            expect(False, '')
        elif f == 'p.x1':
            expect(not rest, '' if rest else '43')
        elif f == 'p.a60':
            expect(True, '42')          # no routine needed, the libraries are not read
        else:
            expect(False, '7')
    return dict(nontrivial=True, key=tuple(args), labels=[final or 'run', '%d files' % len(files)], sample=dict(arguments=args, rc=r.rc))


CHECK = Check('P20', [
    Sub('config', case_config, 1500, 40000, 'the program prints something; different program, ending and configurations'),
    Sub('fault', case_fault, 500, 10000, 'different programs and faults'),
    Sub('argv', case_argv, 600, 10000, 'different command lines'),
])
