from checks.common import *
from checks.layout import Pad
CASE = program_case(dict(w_goto=0))
PROFILES = [dict(w_goto=0), dict(procs=(1, 3), formals=(0, 3), w_call=22, recursion=15, labels=25, switches=30, w_goto=4, arrays=(0, 2)),
            dict(procs=(0, 2), w_for=40, arrays=(0, 3), labels=30, switches=30, w_goto=8)]


def case_layout(ctx, s):
    block = G.Gen(s, **s.choice(PROFILES)).program()
    it = A.Interp(max_steps=6000)
    try:
        out, err = it.run(block)
    except A.Ambiguous as e:
        raise Discard('ambiguous: ' + str(e))
    except A.TooLong:
        raise Discard('too long')
    except RecursionError:
        raise Discard('too deep')
    P = Pad(s)
    text = A.Printer().program(P.program(block))
    if len(text) > 15000:
        raise Discard('too big')
    expect_run(ctx, text, out, err, what='program with more declarations and statements, none of them used,')
    return dict(nontrivial=bool(P.lab) and len(out) > 0, key=text, labels=sorted(P.lab), sample=dict(program=text[:2000], stdout=out[:300], error=err))


CHECK = Check('P01', [
    Sub('blocks', CASE, 8000, 200000, 'program prints something'),
    Sub('layout', case_layout, 2500, 60000, 'programs with unused declarations or statements, which print something'),
])
