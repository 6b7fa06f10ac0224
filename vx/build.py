"""Build the programs under test from /repo's current working tree.

Every object file is keyed by a hash of (compiler, flags, all source text in its directory), so a
rebuild happens exactly when something in the tree changed.  Output goes to /verif/build (git-ignored)."""
import glob, hashlib, os, subprocess, sys, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
OUT = os.environ.get('VX_BUILD', os.path.join(VERIF, 'build'))

FLAVOURS = {
    # what users run: optimised, asserts off, as in CMAKE_BUILD_TYPE=RelWithDebInfo
    'rel': dict(cc='gcc', cxx='g++', flags=['-O2', '-g1', '-DNDEBUG']),
    # same sources with run-time error detectors, asserts on
    'san': dict(cc='clang', cxx='clang++',
                flags=['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                       '-fno-omit-frame-pointer']),
}


def _files(d):
    r = []
    for root, dirs, files in os.walk(os.path.join(REPO, d)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.c', '.cc', '.cpp', '.cxx', '.h', '.hpp', '.hh', '.inc', '.def', '.pas')):
                r.append(os.path.join(root, f))
    return r


def _hash(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print('BUILD FAILED: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
        sys.exit(2)


def build(flavour='rel', what=('x1sim', 'x1algc')):
    """Return {'x1sim': path, 'x1algc': path, 'objfile': path} for the requested programs."""
    os.makedirs(OUT, exist_ok=True)
    fl = FLAVOURS[flavour]
    res = {}
    with open(os.path.join(OUT, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs = []
        for w in what:
            d = {'x1sim': 'simulator', 'x1algc': 'compiler', 'x1algol': 'compiler', 'objfile': 'library',
                 'from5track': 'library'}[w]
            text = [f + '\n' + open(f, errors='surrogateescape').read() for f in _files(d)]
            text = [t.encode(errors='surrogateescape') for t in text]
            key = _hash([w, flavour, repr(fl)] + text)
            dd = os.path.join(OUT, '%s-%s-%s' % (w, flavour, key), )
            exe = os.path.join(dd, w)
            res[w] = exe
            if os.path.exists(exe):
                continue
            os.makedirs(dd, exist_ok=True)
            jobs.append((w, dd, exe))
        if jobs:
            _clean()
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda j: _build_one(j, fl), jobs))
    return res


def _build_one(job, fl):
    w, dd, exe = job
    tmp = exe + '.tmp'
    if w == 'x1sim':
        srcs = sorted(glob.glob(os.path.join(REPO, 'simulator', '*.cpp')) +
                      glob.glob(os.path.join(REPO, 'simulator', '*.cc')))
        objs = [os.path.join(dd, os.path.basename(s) + '.o') for s in srcs]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda p: _run([fl['cxx'], '-std=c++17', *fl['flags'],
                                        '-DVERSION_STRING="verif"', '-c', p[0], '-o', p[1]]),
                        zip(srcs, objs)))
        _run([fl['cxx'], *fl['flags'], *objs, '-o', tmp])
    elif w == 'x1algc':
        srcs = sorted(glob.glob(os.path.join(REPO, 'compiler', '*.c')))
        _run([fl['cc'], '-std=gnu11', *fl['flags'], *srcs, '-lm', '-o', tmp])
    elif w == 'x1algol':
        _run(['fpc', '-Miso', '-O1', '-FE' + dd, '-o' + tmp, os.path.join(REPO, 'compiler', 'x1algol.pas')])
    else:
        _run([fl['cxx'], '-std=c++17', *fl['flags'], os.path.join(REPO, 'library', w + '.cc'),
              '-o', tmp])
    os.rename(tmp, exe)


def _clean():
    """Keep the build folder small: drop outputs that were not used for a day, beyond the last 40."""
    ds = sorted((d for d in glob.glob(os.path.join(OUT, '*-*-*')) if os.path.isdir(d)),
                key=os.path.getmtime)
    import shutil
    for d in ds[:-40]:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    t = time.time()
    for f in sys.argv[1:] or ['rel', 'san']:
        print(build(f, ('x1sim', 'x1algc', 'objfile') + (('from5track', 'x1algol') if f == 'rel' else ())))
    print('%.1f s' % (time.time() - t))
