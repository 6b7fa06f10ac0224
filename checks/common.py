"""Shared case functions."""
import os, sys, re, shutil
from vx.engine import Fail, Discard, Sub, Check, crash_text, Stop
from vx import algol as A, gen as G, x1num as X


def diff_text(a, b):
    n = 0
    for n, (x, y) in enumerate(zip(a, b)):
        if x != y:
            break
    else:
        n = min(len(a), len(b))
    return 'expected ...%r, got ...%r (from byte %d)' % (a[max(0, n - 20):n + 40], b[max(0, n - 20):n + 40], n)


def norm(t):
    """a zero may carry a sign (the X1 has two zeros of each type); which one an expression gives is not asserted"""
    return re.sub(r'-0(?![\d.])', '0', t)


def expect_run(ctx, text, out, err, stdin=b'', r=None, what='program'):
    """run a program and compare with the reference result.  err: None or a reason; only the fact of an error report
    is compared, never its wording."""
    if r is None:
        r = ctx.run_a60(text, stdin)
    c = crash_text(r)
    d = dict(program=text, expected_stdout=out, expected_error=err, observed=r.brief())
    if stdin:
        d['stdin'] = stdin if isinstance(stdin, str) else stdin.decode('utf8', 'replace')
    if c:
        raise Fail('%s crashed: %s' % (what, c), **d)
    if r.timeout:
        raise Fail('%s did not stop' % what, **d)
    got = r.out.decode('utf8', 'replace')
    if err is None:
        if r.rc != 0:
            raise Fail('%s stopped with an error report (%s) where the reference runs to its end' %
                       (what, r.err[:120].decode('utf8', 'replace').strip()), **d)
        if norm(got) != norm(out):
            raise Fail('%s prints something else: %s' % (what, diff_text(out, got)), **d)
    else:
        if r.rc == 0:
            raise Fail('%s ran on to a normal end where the reference stops with an error (%s)' % (what, err), **d)
        if norm(got).rstrip('\n') != norm(out).rstrip('\n'):
            raise Fail('%s prints something else before the error (%s): %s' % (what, err, diff_text(out, got)), **d)
    return r


def program_case(profile, steps=6000, need=None, maxsize=900, label=None, run=expect_run):
    """differential case: generated program against the reference interpreter"""
    def case(ctx, src):
        prof = profile(src) if callable(profile) else profile
        g = G.Gen(src, **prof)
        block = g.program()
        it = A.Interp(max_steps=steps)
        try:
            out, err = it.run(block)
        except A.Ambiguous as e:
            raise Discard('ambiguous: ' + str(e))
        except A.TooLong:
            raise Discard('too long')
        except RecursionError:
            raise Discard('too deep')
        text = A.Printer().program(block)
        if len(text) > 24000:
            raise Discard('too big')
        run(ctx, text, out, err)
        c = it.count
        nt = (len(out) > 0 or err is not None) and (need is None or need(c))
        return dict(nontrivial=nt, key=text, labels=sorted(c), sample=dict(program=text, stdout=out[:400], error=err))
    return case


KW = ('begin end integer real boolean array procedure value string label switch own if then else for do step until while '
      'goto true false comment').split()


def kwtext(t):
    """underline the word delimiters of a plainly written program text"""
    return re.sub(r'\b(%s)\b' % '|'.join(KW), lambda m: ''.join('_' + c for c in m.group(0)), t)
