"""A small property-based testing engine.

* A generator draws bounded integers from a `Src`; 0 is always the simplest alternative.
* A run evaluates N cases; case i of sub-check s is generated from sha256(seed, property, s, i), so a run is a
  function of VERIF_SEED and the tier only (cases are split over worker processes by index).
* A failing choice sequence is shrunk (deleting and lowering choices) and written to a replay file together
  with the concrete case; it is reported only if it fails again three times.
"""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, termios, time, traceback
import multiprocessing as mp
import resource
from collections import Counter
from . import build as B

VERIF = B.VERIF
EVID = os.environ.get('VX_EVID', os.path.join(VERIF, 'evidence'))
NPROC = int(os.environ.get('VX_JOBS', '8'))


class Stop(Exception):
    """generation gave up (too big): the case is discarded"""


class Fail(Exception):
    """the property does not hold; args[0] = message, detail = dict of what was observed"""
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Discard(Exception):
    pass


class Inconclusive(Exception):
    pass


class Src:
    def __init__(self, seed=None, replay=None, limit=20000):
        self.rng = random.Random(seed) if seed is not None else None
        self.replay = replay
        self.pos = 0
        self.log = []
        self.limit = limit

    def draw(self, n):
        """integer in [0, n)"""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        if len(self.log) > self.limit:
            raise Stop()
        return v

    # conveniences
    def rint(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def p(self, num, den=100):
        """True with probability num/den; 0 -> False"""
        return self.draw(den) >= den - num

    def weighted(self, pairs):
        """pairs of (weight, value); simplest first"""
        t = sum(w for w, _ in pairs)
        x = self.draw(t)
        for w, v in pairs:
            if x < w:
                return v
            x -= w

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def skew(self, n):
        """integer in [0,n), small ones more likely"""
        a = self.draw(n)
        return min(a, self.draw(n))


# ------------------------------------------------------------------ running programs
class Result:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'cpu', 'sig')

    def __init__(self, rc, out, err, timeout, cpu):
        self.rc, self.out, self.err, self.timeout, self.cpu = rc, out, err, timeout, cpu
        self.sig = -rc if rc is not None and rc < 0 else 0

    def brief(self):
        return {'rc': self.rc, 'stdout': self.out[:2000].decode('utf8', 'replace'),
                'stderr': self.err[:1500].decode('utf8', 'replace'), 'timeout': self.timeout}


def cpu_time(pid):
    try:
        tot = 0
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        tot += int(f[11]) + int(f[12]) + int(f[13]) + int(f[14])
        for c in open('/proc/%d/task/%d/children' % (pid, pid)).read().split():
            tot += cpu_time(int(c)) * os.sysconf('SC_CLK_TCK')
        return tot / os.sysconf('SC_CLK_TCK')
    except Exception:
        return 0.0


CPU_LIMIT = 20.0      # seconds of processor time; every generated case needs a few milliseconds
OUT_LIMIT = 64 << 20


class Ctx:
    """Per-worker context: built programs, scratch directory."""

    def __init__(self, flavour='rel', what=('x1sim', 'x1algc'), tools=None):
        self.tools = tools or B.build(flavour, what)
        self.flavour = flavour
        self.dir = tempfile.mkdtemp(prefix='vx-', dir=os.environ.get('VX_TMP', '/tmp'))
        self.home = os.path.join(self.dir, 'home')
        os.mkdir(self.home)
        self.env = {'PATH': ':'.join(sorted({os.path.dirname(p) for p in self.tools.values()})) + ':/usr/bin:/bin',
                    'HOME': self.home, 'X1ALGOL_LIB': os.path.join(B.REPO, 'library', 'x1algol.lib'),
                    'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
                    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3000:symbolize=1:'
                                    'allocator_may_return_null=1',
                    'UBSAN_OPTIONS': 'print_stacktrace=1:abort_on_error=1'}
        if os.path.exists('/usr/bin/llvm-symbolizer-18'):
            self.env['ASAN_SYMBOLIZER_PATH'] = '/usr/bin/llvm-symbolizer-18'
        self.runs = 0
        self.so = os.path.join(self.dir, '.stdout')
        self.se = os.path.join(self.dir, '.stderr')

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        with open(self.path(name), 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode('utf8'))
        return self.path(name)

    def exec(self, argv, stdin=b'', env=None, cwd=None, cpu=CPU_LIMIT, fuel=None, pre=None, stdout=None, keep=False, tty=False):
        """tty: the input comes from a terminal (line by line, then the end of file);
        pre: run in the child before the program starts; stdout: name of a file to write to instead of the usual one;
        keep: signals ignored here stay ignored in the child;
        fuel: seconds of processor time after which the program is ended by SIGPROF (the timer survives exec)"""
        self.runs += 1
        if fuel is not None:
            pre = lambda: signal.setitimer(signal.ITIMER_PROF, fuel)
        e = self.env if env is None else {k: v for k, v in dict(self.env, **env).items() if v is not None}
        fin = open(self.path('.stdin'), 'wb+')
        fin.write(stdin if isinstance(stdin, bytes) else stdin.encode('utf8'))
        fin.flush()
        fin.seek(0)
        if tty:
            fin.close()
            master, slave = os.openpty()
            a = termios.tcgetattr(slave)
            a[3] &= ~termios.ECHO
            termios.tcsetattr(slave, termios.TCSANOW, a)
            stdin = stdin if isinstance(stdin, bytes) else stdin.encode('utf8')
            assert len(stdin) < 3900 and not re.search(rb'[^\n -~\x80-\xff]', stdin)
            os.write(master, stdin + b'\x04' * 32)
            fin = open(slave, 'rb', closefd=True, buffering=0)
        fo = open(stdout or self.so, 'wb+' if stdout is None else 'wb')
        fe = open(self.se, 'wb+')
        timeout = False
        try:
            p = subprocess.Popen(argv, stdin=fin, stdout=fo, stderr=fe, env=e, cwd=cwd or self.dir,
                                 start_new_session=True, preexec_fn=pre, restore_signals=not keep)
            t0 = time.time()
            c = 0
            wait = cpu
            while True:
                try:
                    rc = p.wait(timeout=wait)
                    break
                except subprocess.TimeoutExpired:
                    c = cpu_time(p.pid)
                    if c < cpu and time.time() - t0 < 20 * cpu:
                        wait = max(1.0, (cpu - c))
                        continue
                    os.killpg(p.pid, signal.SIGKILL)
                    rc = p.wait()
                    timeout = True
                    if c < cpu:
                        raise Inconclusive('machine stalled: %s got %.1fs cpu' % (argv[0], c))
                    break
            out = b''
            if stdout is None:
                fo.seek(0)
                out = fo.read(OUT_LIMIT)
            fe.seek(0)
            err = fe.read(1 << 20)
            return Result(rc, out, err, timeout, c)
        finally:
            fin.close()
            if tty:
                os.close(master)
            fo.close()
            fe.close()

    def run_a60(self, text, stdin=b'', name='p.a60', args=()):
        self.write(name, text)
        return self.exec([self.tools['x1sim'], *args, name], stdin)

    def compile(self, text, libs=None, name='c.a60', args=()):
        self.write(name, text)
        if libs is None:
            libs = [self.env['X1ALGOL_LIB']]
        return self.exec([self.tools['x1algc'], *args, name, *libs])

    def run_x1(self, text, stdin=b'', name='o.x1', args=()):
        self.write(name, text)
        return self.exec([self.tools['x1sim'], *args, name], stdin)


def crash_text(r):
    """Text describing a crash (signal or sanitizer report), or None."""
    if r.timeout:
        return None
    if r.rc is not None and r.rc < 0:
        return 'killed by signal %d' % -r.rc
    if b'AddressSanitizer' in r.err or b'runtime error:' in r.err or b'terminate called' in r.err:
        return r.err[:600].decode('utf8', 'replace')
    return None


# ------------------------------------------------------------------ sub-checks
class Sub:
    """One sub-check: name, number of cases per tier, a case function.

    case(ctx, src) -> dict(nontrivial=<bool>, key=<hashable>, labels=[...], sample=<json>, evals=<int>)
    and raises Fail / Discard."""
    flavour = 'rel'
    what = ('x1sim', 'x1algc')

    def __init__(self, name, case, quick, thorough, rule, setup=None, flavour='rel', what=None):
        self.name, self.case, self.quick, self.thorough, self.rule = name, case, quick, thorough, rule
        self.setup = setup
        self.flavour = flavour
        if what:
            self.what = what


def case_seed(seed, prop, sub, i):
    return int.from_bytes(hashlib.sha256(('%s/%s/%s/%d' % (seed, prop, sub, i)).encode()).digest()[:8], 'big')


def known_findings():
    """known_findings.txt lines: `known: property=<id> key=<regex on signature> <text>` and `fixed: ...`"""
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                r.append((m.group(1), m.group(2), m.group(3)))
    return r


class KnownFinding(Exception):
    pass


def set_limits(flavour):
    resource.setrlimit(resource.RLIMIT_FSIZE, (OUT_LIMIT * 2, OUT_LIMIT * 2))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if flavour != 'san':
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_one(ctx, sub, src):
    """returns ('ok', info) | ('fail', Fail) | ('discard', why)"""
    try:
        info = sub.case(ctx, src)
        return 'ok', info or {}
    except (Discard, Stop) as e:
        return 'discard', str(e) or type(e).__name__
    except Fail as f:
        return 'fail', f
    except Inconclusive as e:
        return 'inconclusive', str(e)


def _worker(args):
    prop, sub, seed, ids, tools, deadline, wid = args
    set_limits(sub.flavour)
    ctx = Ctx(sub.flavour, sub.what, tools)
    st = dict(cases=0, evals=0, nontrivial=set(), labels=Counter(), discards=Counter(), samples=[],
              fails=[], errors=[], unfinished=0, runs=0, known=Counter(), inconclusive=0)
    try:
        if sub.setup:
            sub.setup(ctx)
        for n, i in enumerate(ids):
            if time.time() > deadline:
                st['unfinished'] += len(ids) - n
                break
            src = Src(case_seed(seed, prop, sub.name, i))
            try:
                kind, info = run_one(ctx, sub, src)
            except Exception:
                st['errors'].append((i, traceback.format_exc()))
                if len(st['errors']) > 3:
                    break
                continue
            st['cases'] += 1
            if kind == 'ok':
                st['evals'] += info.get('evals', 1)
                for l in info.get('labels', ()):
                    st['labels'][l] += 1
                for l in info.get('known', ()):
                    st['known'][l] += 1
                if info.get('nontrivial'):
                    k = info.get('key')
                    st['nontrivial'].add(hashlib.sha1(repr(k if k is not None else src.log).encode()).hexdigest()[:16])
                    for k2 in info.get('keys', ()):
                        st['nontrivial'].add(hashlib.sha1(repr(k2).encode()).hexdigest()[:16])
                if wid < 2 and info.get('sample') is not None and len(st['samples']) < 3 and info.get('nontrivial'):
                    st['samples'].append(info['sample'])
            elif kind == 'discard':
                st['discards'][info] += 1
            elif kind == 'inconclusive':
                st['inconclusive'] += 1
            else:
                st['evals'] += 1
                st['fails'].append((i, list(src.log), info.msg, info.detail))
                if len(st['fails']) >= 2:
                    break
        st['runs'] = ctx.runs
    finally:
        ctx.close()
    return st


def _shrink(ctx, sub, log, budget=60.0):
    """Minimise a failing choice list."""
    t0 = time.time()

    def bad(c):
        if time.time() - t0 > budget:
            return None
        s = Src(replay=c)
        try:
            k, info = run_one(ctx, sub, s)
        except Exception:
            return None
        if k == 'fail':
            return list(s.log)
        return None

    cur = list(log)
    best = bad(cur)
    if best is None:
        return cur
    cur = best
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        # delete chunks
        n = max(1, len(cur) // 2)
        while n >= 1 and time.time() - t0 < budget:
            i = 0
            while i < len(cur):
                c = cur[:i] + cur[i + n:]
                b = bad(c)
                if b is not None and (len(b), b) < (len(cur), cur):
                    cur = b
                    improved = True
                else:
                    i += n
                if time.time() - t0 > budget:
                    break
            n //= 2
        # zero chunks / lower values
        for n in (8, 4, 2, 1):
            i = 0
            while i < len(cur) and time.time() - t0 < budget:
                if any(cur[i:i + n]):
                    c = cur[:i] + [0] * len(cur[i:i + n]) + cur[i + n:]
                    b = bad(c)
                    if b is not None and (len(b), b) < (len(cur), cur):
                        cur = b
                        improved = True
                i += n
        i = 0
        while i < len(cur) and time.time() - t0 < budget:
            lo, hi = 0, cur[i]
            while lo < hi and time.time() - t0 < budget:
                mid = (lo + hi) // 2
                c = cur[:i] + [mid] + cur[i + 1:]
                b = bad(c)
                if b is not None and (len(b), b) < (len(cur), cur):
                    cur = b
                    improved = True
                    if i >= len(cur):
                        break
                    hi = min(mid, cur[i])
                else:
                    lo = mid + 1
            i += 1
    return cur


class Check:
    def __init__(self, prop, subs, assumptions=(), finding_probes=()):
        self.prop, self.subs, self.assumptions = prop, subs, list(assumptions)
        self.finding_probes = list(finding_probes)

    def main(self, tier, seed, replay=None, only=None, scale=1.0):
        if replay:
            return self.replay(replay)
        t0 = time.time()
        import glob
        for f in glob.glob(os.path.join(EVID, 'replay', self.prop + '-*.json')):
            os.unlink(f)
        cap = 780 if tier == 'quick' else 6 * 3600
        deadline = t0 + (cap if tier == 'quick' else cap)
        total = Counter()
        per = {}
        samples = []
        fails = []
        errors = []
        nontrivial = 0
        for sub in self.subs:
            if only and sub.name not in only:
                continue
            tools = B.build(sub.flavour, sub.what)
            n = max(8, int((sub.quick if tier == 'quick' else sub.thorough) * scale))
            jobs = [(self.prop, sub, seed, list(range(w, n, NPROC)), tools, deadline, w) for w in range(NPROC)]
            ts = time.time()
            res = _fork_map(_worker, jobs)
            nt = set()
            lab, dis, kn = Counter(), Counter(), Counter()
            d = Counter()
            for r in res:
                for k in ('cases', 'evals', 'unfinished', 'runs', 'inconclusive'):
                    d[k] += r[k]
                nt |= r['nontrivial']
                lab += r['labels']
                dis += r['discards']
                kn += r['known']
                errors += [(sub.name,) + e for e in r['errors']]
                fails += [(sub,) + f for f in r['fails']]
                for s in r['samples']:
                    if len([1 for x in samples if x['sub'] == sub.name]) < 3:
                        samples.append({'sub': sub.name, 'case': s})
            nontrivial += len(nt)
            total.update(d)
            per[sub.name] = dict(rule=sub.rule, flavour=sub.flavour, planned=n, evaluations=d['evals'],
                                 cases=d['cases'], distinct_nontrivial=len(nt), program_runs=d['runs'],
                                 discards=dict(dis), labels=dict(lab.most_common(60)),
                                 known_finding_hits=dict(kn), unfinished=d['unfinished'],
                                 inconclusive=d['inconclusive'], wall_s=round(time.time() - ts, 1))
            print('%s/%s: %d cases, %d evaluations, %d non-trivial, discards %s, %.1fs' %
                  (self.prop, sub.name, d['cases'], d['evals'], len(nt), dict(dis), time.time() - ts), flush=True)
        violations = []
        known = known_findings()
        seen = set()
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        for sub, i, log, msg, detail in sorted(fails, key=lambda f: (f[0].name, len(f[2]))):
            if sub.name in seen:
                continue
            tools = B.build(sub.flavour, sub.what)
            v = self._report(sub, i, log, msg, detail, seed, tools)
            if v:
                seen.add(sub.name)
                violations.append(v)
        for v in violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, v['replay']))
            print('  %s' % v['message'])
        for s, i, tb in errors[:3]:
            print('HARNESS ERROR in %s case %s:\n%s' % (s, i, tb))
        for pid, key, text in known:
            if pid == self.prop:
                hits = sum(p['known_finding_hits'].get(key, 0) for p in per.values())
                if hits:
                    print('KNOWN-FINDING: property=%s %s (met %d times)' % (pid, text, hits))
                else:
                    print('KNOWN-FINDING: property=%s %s (not met in this run)' % (pid, text))
        ev = dict(property=self.prop, tier=tier, seed=seed, level='exploration',
                  coverage=dict(evaluations=total['evals'], distinct_nontrivial=nontrivial,
                                rule='; '.join('%s: %s' % (k, v['rule']) for k, v in per.items()),
                                samples=samples[:12], cases=total['cases'], program_runs=total['runs'],
                                unfinished=total['unfinished'], inconclusive=total['inconclusive'],
                                sub_checks=per),
                  assumptions=self.assumptions, wall_s=round(time.time() - t0, 1))
        ev['violations'] = [dict(replay=v['replay'], message=v['message']) for v in violations]
        if errors:
            ev['harness_errors'] = len(errors)
        os.makedirs(EVID, exist_ok=True)
        if not only:
            with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1, ensure_ascii=False)
        if violations:
            return 1
        if errors:
            return 3
        if total['cases'] == 0 or (nontrivial == 0):
            print('nothing explored')
            return 3
        if total['unfinished']:
            print('note: %d planned cases not run (time cap)' % total['unfinished'])
        return 0

    def _report(self, sub, i, log, msg, detail, seed, tools):
        out = _fork_map(_shrink_job, [(sub, log, tools)])[0]
        if not out['confirmed']:
            print('note: %s case %d failed once (%s) but not when repeated: %s' % (sub.name, i, msg, out.get('last')))
            return None
        path = os.path.join(EVID, 'replay', '%s-%s.json' % (self.prop, sub.name))
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, sub=sub.name, seed=seed, case=i, choices=out['log'],
                           message=out['msg'], detail=out['detail'], first_message=msg), f, indent=1,
                      ensure_ascii=False, default=repr)
        return dict(replay=path, message=out['msg'])

    def replay(self, path):
        d = json.load(open(path))
        sub = [s for s in self.subs if s.name == d['sub']][0]
        tools = B.build(sub.flavour, sub.what)
        r = _fork_map(_replay_job, [(sub, d['choices'], tools)])[0]
        print(json.dumps(r, indent=1, ensure_ascii=False, default=repr))
        if r['kind'] == 'fail':
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        return 0


def _replay_job(a):
    sub, log, tools = a
    set_limits(sub.flavour)
    ctx = Ctx(sub.flavour, sub.what, tools)
    try:
        if sub.setup:
            sub.setup(ctx)
        k, info = run_one(ctx, sub, Src(replay=log))
        if k == 'fail':
            return dict(kind=k, msg=info.msg, detail=info.detail)
        return dict(kind=k, info=info)
    finally:
        ctx.close()


def _shrink_job(a):
    sub, log, tools = a
    set_limits(sub.flavour)
    ctx = Ctx(sub.flavour, sub.what, tools)
    try:
        if sub.setup:
            sub.setup(ctx)
        log2 = _shrink(ctx, sub, log)
        last = None
        for cand in (log2, log):
            oks = 0
            for _ in range(3):
                k, info = run_one(ctx, sub, Src(replay=cand))
                last = (k, info if k != 'fail' else info.msg)
                if k != 'fail':
                    break
                oks += 1
            if oks == 3:
                return dict(confirmed=True, log=cand, msg=info.msg, detail=info.detail)
        return dict(confirmed=False, last=repr(last)[:300])
    finally:
        ctx.close()


def _fork_map(fn, jobs):
    """Run fn over jobs, one forked process each; results come back pickled through files."""
    import pickle
    pids = []
    for j in jobs:
        fd, path = tempfile.mkstemp(prefix='vxr-')
        os.close(fd)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                r = ('ok', fn(j))
            except BaseException:
                r = ('err', traceback.format_exc())
            try:
                with open(path, 'wb') as f:
                    pickle.dump(r, f)
            except BaseException:
                traceback.print_exc()
                code = 1
            os._exit(code)
        pids.append((pid, path))
    res = []
    err = None
    for pid, path in pids:
        os.waitpid(pid, 0)
        try:
            with open(path, 'rb') as f:
                k, v = pickle.load(f)
        except Exception as e:
            k, v = 'err', 'worker died: %r' % e
        os.unlink(path)
        if k == 'err':
            err = v
        res.append(v)
    if err:
        print('HARNESS ERROR: %s' % err)
        sys.exit(3)
    return res
