"""Runner: generated-case search with Hypothesis over several processes, shrinking, replay files and evidence.

A property module (pbt/props/<id>.py) defines
    ID, RULE              property id; how cases are made and what makes one non-trivial
    QUICK, THOROUGH       number of generated cases per tier, over all workers
    BIG                   number of generated cases with databases of many elements (quick tier; 8 times as many in the thorough one)
    strategy(tier)        Hypothesis strategy of JSON-able cases
    run(case, st)         raises Violation (or anything else) if the property is broken; uses st.nt()/st.cls() for stats
optional: fixed(tier) -> list of deterministic cases, run first (regression seeds / exhaustive parts)
"""
import hashlib, importlib, json, os, pickle, random, select, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
CASE_TIMEOUT = 150          # s; a case normally takes milliseconds
MAX_SAMPLES = 3


class Violation(Exception):
    pass


class HarnessError(Exception):
    """a fault of the harness or its environment, never of the code under test"""


class CaseTimeout(BaseException):
    pass


def setup_path():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if VT not in sys.path:
        sys.path.append(VT)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    # compile the code under test from its current source, whatever cached bytecode lies around
    sys.dont_write_bytecode = True
    prefix, sys.pycache_prefix = sys.pycache_prefix, '/nonexistent/pycache'
    try:
        import pykeepass, pykeepass.kdbx_parsing
    finally:
        sys.pycache_prefix = prefix
    where = os.path.realpath(pykeepass.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError('pykeepass comes from %s, not from %s' % (where, REPO))


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Stats:
    def __init__(self):
        self.n = 0
        self.skipped = 0
        self.hashes = set()
        self.nontrivial = set()
        self.classes = {}
        self.samples = []
        self._nt = False

    def nt(self, cond=True):
        """mark the current case as non-trivial"""
        self._nt = self._nt or bool(cond)

    def cls(self, *names):
        for n in names:
            self.classes[n] = self.classes.get(n, 0) + 1

    def begin(self):
        self._nt = False

    def end(self, case):
        self.n += 1
        h = case_hash(case)
        self.hashes.add(h)
        if self._nt and h not in self.nontrivial:
            self.nontrivial.add(h)
            if len(self.samples) < MAX_SAMPLES or (self.n & (self.n - 1)) == 0:
                s = json.dumps(case, ensure_ascii=True, default=str)
                if len(s) < 6000:
                    self.samples = (self.samples + [case])[-MAX_SAMPLES:]

    def merge(self, o):
        self.n += o.n
        self.skipped += o.skipped
        self.hashes |= o.hashes
        self.nontrivial |= o.nontrivial
        for k, v in o.classes.items():
            self.classes[k] = self.classes.get(k, 0) + v
        self.samples = (self.samples + o.samples)[:MAX_SAMPLES]


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def case_hash(case):
    return hashlib.sha256(canon(case).encode()).digest()[:10]


# ------------------------------------------------------------------ scratch directory

_scratch = None


def scratch():
    """fresh empty directory for the current case"""
    base = _scratch or tempfile.gettempdir()
    return tempfile.mkdtemp(dir=base)


def _alarm(sig, frm):
    raise CaseTimeout()


def execute(mod, case, st):
    """run one case; returns None or a description of the violation"""
    st.begin()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(mod, 'TIMEOUT', CASE_TIMEOUT))
    try:
        try:
            mod.run(case, st)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        st.end(case)
        return None
    except (HarnessError, MemoryError):
        raise
    except CaseTimeout:
        return 'no result within %d s' % getattr(mod, 'TIMEOUT', CASE_TIMEOUT)
    except Violation as e:
        return str(e)
    except AssertionError as e:
        return 'assertion: %s\n%s' % (e, traceback.format_exc(limit=-6))
    except OSError as e:
        import errno
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM) and not getattr(mod, 'FAULTS', False):
            raise HarnessError(repr(e))
        return 'unexpected %s\n%s' % (repr(e), traceback.format_exc(limit=-8))
    except Exception as e:
        return 'unexpected %s\n%s' % (repr(e)[:600], traceback.format_exc(limit=-8))
    finally:
        _cleanup()


def _cleanup():
    if _scratch:
        for n in os.listdir(_scratch):
            p = os.path.join(_scratch, n)
            try:
                shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
            except OSError:
                pass


class _Stop(Exception):
    pass


def _worker(mod, tier, seed, n, deadline, fixed, out, cur):
    """child process: search n generated cases"""
    import hypothesis
    from hypothesis import strategies as st_
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = getattr(mod, 'SHRINK_S', 45)
    st = Stats()
    trail = []                      # everything executed in this process, for failures that need a history
    fail = {}

    def one(case):
        if time.time() > deadline and not fail:
            st.skipped += 1
            return
        with open(cur, 'w') as f:           # the parent sees from this file when a case hangs in C code
            json.dump(case, f)
        r = execute(mod, case, st)
        if r is not None:
            size = len(canon(case))
            if 'case' not in fail or size <= fail['size']:
                fail.update(case=case, msg=r, size=size, trail=list(trail[-300:]))
            fail['last'] = case
            raise Violation(r)
        trail.append(case)
        if len(trail) > 400:
            del trail[:100]

    try:
        for case in fixed:
            one(case)
        if n > 0:
            @hypothesis.settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                                 suppress_health_check=list(hypothesis.HealthCheck), print_blob=False,
                                 phases=[hypothesis.Phase.generate, hypothesis.Phase.shrink],
                                 verbosity=hypothesis.Verbosity.quiet)
            @hypothesis.seed(seed)
            @hypothesis.given(mod.strategy(tier))
            def test(case):
                # cases travel as JSON so that a replay file is exactly what ran
                one(json.loads(json.dumps(case)))
            test()
        res = ('ok', st, None)
    except Violation:
        res = ('fail', st, fail)
    except HarnessError as e:
        res = ('error', st, repr(e))
    except MemoryError as e:
        res = ('error', st, repr(e))
    except BaseException as e:
        if fail:
            res = ('fail', st, fail)
        else:
            res = ('error', st, traceback.format_exc())
    pickle.dump(res, out)
    out.flush()


def _spawn(fn):
    """fork a child running fn(file); returns (pid, fd)"""
    global _scratch
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 1
    try:
        os.close(r)
        os.setpgid(0, 0)
        _scratch = tempfile.mkdtemp(prefix='w', dir=_scratch)
        with os.fdopen(w, 'wb') as f:
            fn(f)
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        try:
            shutil.rmtree(_scratch, ignore_errors=True)
        finally:
            os._exit(code)


def _kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass


def big_cases(mod, tier, seed):
    """generated cases with databases of many elements, for modules that ask for them"""
    import hypothesis
    from . import gen
    n = getattr(mod, 'BIG', 0) * (1 if tier == 'quick' else 8)
    out = []
    if n:
        gen.BIG = True
        try:
            @hypothesis.settings(max_examples=n + 1, database=None, deadline=None, suppress_health_check=list(hypothesis.HealthCheck), phases=[hypothesis.Phase.generate], verbosity=hypothesis.Verbosity.quiet)
            @hypothesis.seed('%s/%s/big' % (mod.ID, seed))
            @hypothesis.given(mod.strategy(tier))
            def collect(case):
                out.append(json.loads(json.dumps(case)))
            collect()
        finally:
            gen.BIG = False
    return out[1:n + 1]                 # the first one is the smallest possible


def _run_sequence(mod, cases):
    """run cases in a fresh process; returns message of the first failing one or None"""
    def fn(f):
        st = Stats()
        for c in cases:
            r = execute(mod, c, st)
            if r is not None:
                pickle.dump(r, f)
                return
        pickle.dump(None, f)
    pid, fd = _spawn(fn)
    end = time.time() + _limit(mod) + 5 * len(cases)
    data = b''
    while True:
        if not select.select([fd], [], [], max(0, end - time.time()))[0]:
            _kill(pid)
            os.waitpid(pid, 0)
            os.close(fd)
            return HANG
        d = os.read(fd, 1 << 20)
        if not d:
            break
        data += d
    os.close(fd)
    os.waitpid(pid, 0)
    _kill(pid)
    if not data:
        raise HarnessError('replay process died')
    return pickle.loads(data)


HANG = 'the code under test hangs'


def _limit(mod):
    """s after which a case counts as hanging in code that signals cannot interrupt"""
    return 2 * getattr(mod, 'TIMEOUT', CASE_TIMEOUT) + 30


def _reduce_trail(mod, trail, case, budget=60):
    """fewest previous cases after which `case` fails"""
    end = time.time() + budget
    seq = list(trail)
    if _run_sequence(mod, seq + [case]) is None:
        return None
    step = max(1, len(seq) // 2)
    while seq and time.time() < end:
        i, shrunk = 0, False
        while i < len(seq) and time.time() < end:
            cand = seq[:i] + seq[i + step:]
            if _run_sequence(mod, cand + [case]) is not None:
                seq, shrunk = cand, True
            else:
                i += step
        if step == 1 and not shrunk:
            break
        step = max(1, step // 2)
    return seq


def write_replay(mod, cases, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name = '%s-%s.json' % (mod.ID, hashlib.sha256(canon(cases).encode()).hexdigest()[:12])
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        json.dump({'property': mod.ID, 'message': msg, 'cases': cases}, f, indent=1, ensure_ascii=True)
    return p


def load(prop):
    return importlib.import_module('pbt.props.' + prop.lower())


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                out.append(line.rstrip('\n'))
    return out


def main(prop, tier, seed, replay=None):
    global _scratch
    t0 = time.time()
    setup_path()
    mod = load(prop)
    _scratch = tempfile.mkdtemp(prefix='pbt-%s-' % prop)
    os.environ['TMPDIR'] = _scratch
    tempfile.tempdir = _scratch
    try:
        if replay:
            cases = json.load(open(replay))['cases']
            r = _run_sequence(mod, cases)
            if r is None:
                print('replay of %s: no violation' % replay)
                return 0
            print(r)
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        return _search(mod, prop, tier, seed, t0)
    finally:
        shutil.rmtree(_scratch, ignore_errors=True)


def _search(mod, prop, tier, seed, t0):
    total = mod.QUICK if tier == 'quick' else mod.THOROUGH
    if os.environ.get('VERIF_EXAMPLES'):
        total = int(os.environ['VERIF_EXAMPLES'])
    budget = float(os.environ.get('VERIF_BUDGET', '300' if tier == 'quick' else '3600'))
    deadline = time.time() + budget
    fixed = mod.fixed(tier) if hasattr(mod, 'fixed') else []
    big = [] if os.environ.get('VERIF_EXAMPLES') and not os.environ.get('VERIF_BIG') else big_cases(mod, tier, seed)
    nw = min(WORKERS, getattr(mod, 'WORKERS', WORKERS))
    per = [total // nw + (1 if i < total % nw else 0) for i in range(nw)]
    rng = random.Random('%s/%s' % (prop, seed))
    seeds = [rng.getrandbits(48) for _ in range(nw)]
    procs = {}
    cur = {}
    for i in range(nw):
        name = os.path.join(_scratch, 'current%d' % i)
        pid, fd = _spawn(lambda f, i=i: _worker(mod, tier, seeds[i], per[i], deadline, fixed[i::nw] + big[i::nw], f, name))
        procs[fd] = [pid, b'']
        cur[fd] = name
    st, fails, errors = Stats(), [], []
    stop_at = None
    while procs:
        if stop_at and time.time() > stop_at:
            for fd, (pid, _) in list(procs.items()):
                _kill(pid)
                os.waitpid(pid, 0)
                os.close(fd)
            procs.clear()
            break
        ready, _, _ = select.select(list(procs), [], [], 0.5)
        for fd in [] if ready else list(procs):
            if os.path.exists(cur[fd]) and time.time() - os.path.getmtime(cur[fd]) > _limit(mod):
                pid, _ = procs.pop(fd)
                _kill(pid)
                os.waitpid(pid, 0)
                os.close(fd)
                case = json.load(open(cur[fd]))
                fails.append({'case': case, 'msg': HANG, 'size': len(canon(case))})
                stop_at = stop_at or time.time() + 3
        for fd in ready:
            data = os.read(fd, 1 << 20)
            if data:
                procs[fd][1] += data
                continue
            pid, buf = procs.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            _kill(pid)
            if not buf:
                errors.append('a worker died without a result')
                continue
            kind, wst, info = pickle.loads(buf)
            st.merge(wst)
            if kind == 'fail':
                fails.append(info)
                # let others that are already shrinking finish for a short while, then stop
                stop_at = stop_at or time.time() + 3
            elif kind == 'error':
                errors.append(info)
    code, violations = 0, 0
    fails.sort(key=lambda f: f['size'])
    for f in fails:
        cases, msg = None, None
        end = time.time() + 60
        for k in range(12):             # a failure may depend on random bytes or the clock
            msg = _run_sequence(mod, [f['case']])
            if msg is not None:
                cases = [f['case']]
                break
            if k >= 2 and time.time() > end:
                break
        if cases is None and f.get('trail'):
            pre = _reduce_trail(mod, f['trail'], f['case'])
            if pre is not None:
                cases, msg = pre + [f['case']], f['msg']
        if cases is None:
            print('note: a failure did not reproduce, ignored: %s' % f['msg'][:300])
            continue
        path = write_replay(mod, cases, msg)
        print(msg)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code, violations = 1, 1
        break
    for k in known_findings(prop):
        print(k)
    if errors and not violations:
        for e in errors:
            print('HARNESS ERROR: %s' % e, file=sys.stderr)
        code = 2
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': st.n, 'distinct_cases': len(st.hashes), 'distinct_nontrivial': len(st.nontrivial),
                       'rule': mod.RULE, 'samples': st.samples, 'classes': dict(sorted(st.classes.items())),
                       'skipped_after_time_budget': st.skipped, 'workers': nw},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': violations}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print('%s: %d cases, %d distinct non-trivial, %.1f s, %s' % (prop, st.n, len(st.nontrivial), wall,
          'VIOLATED' if violations else 'error' if code else 'held'))
    return code
