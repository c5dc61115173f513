"""Driver: generates cases from VERIF_SEED, runs them on 8 workers, shrinks a failure,
replays it three times, writes the evidence file and prints VIOLATION lines.

A property module provides
    ID, RULE, LEVEL (default 'exploration'), BUILDS (default ['plain'])
    gen(rng, k, tier) -> JSON-able case (pure function of rng and k)
    check(case, sb)   -> dict(nontrivial=bool, labels=[...], evals=int); raises Violation
    fixed()           -> optional list of hand-picked regression cases
    COUNT = dict(quick=n, thorough=n); BUDGET = dict(quick=seconds, thorough=seconds)
"""
import ctypes, hashlib, importlib, json, multiprocessing as mp, os, queue, random, re, resource, shutil
import signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'props'))
import build as buildmod

NWORK = int(os.environ.get('VERIF_WORKERS', '8'))
RUN_TIMEOUT = 60


class Violation(Exception):
    pass


class Inconclusive(Exception):
    """The sandbox (not mairix) got in the way: never a violation."""


class Result:
    __slots__ = ('rc', 'out', 'err')

    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    def __repr__(self):
        return 'rc=%r out=%r err=%r' % (self.rc, self.out[:400], self.err[:400])


class Sandbox:
    """One scratch directory, emptied between cases."""

    def __init__(self, root, bins):
        self.root = root
        self.bins = bins
        self.n = 0
        self.dir = None
        self.runs = 0

    def fresh(self):
        if self.dir:
            rmtree(self.dir)
        self.n += 1
        self.dir = os.path.join(self.root, 'c%d' % self.n)
        os.mkdir(self.dir)
        return self.dir

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def write(self, rel, data, mtime=None):
        p = self.path(rel)
        if isinstance(data, str):
            data = data.encode('latin-1')
        with open(p, 'wb') as f:
            f.write(data)
        if mtime is not None:
            os.utime(p, (mtime, mtime))
        return p

    def env(self, extra=None):
        e = {'PATH': '/usr/bin:/bin', 'HOME': self.dir, 'LC_ALL': 'C', 'TZ': 'UTC',
             'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1'
                             ':detect_stack_use_after_return=0:hard_rss_limit_mb=3000',
             'MSAN_OPTIONS': 'exitcode=99:hard_rss_limit_mb=3000',
             'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99'}
        if extra:
            e.update(extra)
        return {k: v for k, v in e.items() if v is not None}

    def run(self, args, variant='plain', env=None, cwd=None, timeout=RUN_TIMEOUT, argv0=None,
            stdin=None):
        """Runs mairix; dies with Violation on a hang."""
        self.runs += 1
        argv = [self.bins[variant]] + [a if isinstance(a, bytes) else a.encode('latin-1')
                                       for a in args]
        try:
            p = subprocess.run(argv, cwd=cwd or self.dir, env=self.env(env),
                               stdin=subprocess.DEVNULL if stdin is None else None, input=stdin,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Violation('mairix did not terminate within %d s: %r' % (timeout, args))
        return Result(p.returncode, p.stdout, p.stderr)


def rmtree(d):
    def onexc(f, p, e):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            os.chmod(p, 0o700)
            f(p)
        except Exception:
            pass
    shutil.rmtree(d, onexc=onexc)


def jdump(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True)


def case_hash(case):
    return hashlib.sha256(jdump(case).encode()).hexdigest()[:16]


def unexpected(e):
    where = traceback.extract_tb(e.__traceback__)[-1]
    return 'unexpected %s in %s of %s: %s' % (type(e).__name__, where.name, os.path.basename(where.filename), traceback.format_exc(limit=-3))


def one(mod, case, sb):
    """Runs one case; returns (info, None) or (None, message)."""
    sb.fresh()
    try:
        info = mod.check(case, sb) or {}
        return info, None
    except Violation as v:
        return None, str(v)
    except Inconclusive:
        return {'inconclusive': 1}, None
    except MemoryError:
        return {'inconclusive': 1}, None
    except OSError as e:
        if e.errno in (12, 28, 24, 11):
            return {'inconclusive': 1}, None
        return None, unexpected(e)
    except Exception as e:
        return None, unexpected(e)


def drop_privileges():
    # a runaway run of a broken mairix must not take the sandbox with it
    resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        if os.getuid() == 0:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
    except OSError:
        pass


def limit_memory(bins):
    # (the sanitizers' own bookkeeping needs address space)
    if not {'asan', 'msan'} & set(bins):
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def die_with_parent():
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def hanging(msg):
    return 'did not terminate' in msg


def worker(modname, wid, nwork, seed, tier, count, deadline, root, bins, q, stop, fixed_n):
    die_with_parent()
    os.umask(0o022)
    drop_privileges()
    mod = importlib.import_module(modname)
    limit_memory(bins)
    sb = Sandbox(root, bins)
    evals = 0
    hashes = set()
    labels = {}
    samples = []
    fixed = mod.fixed() if hasattr(mod, 'fixed') else []
    idx = [('f', i) for i in range(wid, len(fixed), nwork)]
    ngen = 0
    inconc = 0
    k = wid
    try:
        while not stop.is_set():
            if idx:
                kind, i = idx.pop(0)
                case = fixed[i]
                name = 'fixed:%d' % i
            else:
                if k >= count or time.time() > deadline:
                    break
                rng = random.Random('%s:%d:%d' % (mod.ID, seed, k))
                case = mod.gen(rng, k, tier)
                name = 'gen:%d' % k
                k += nwork
            ngen += 1
            info, msg = one(mod, case, sb)
            if msg is not None:
                again = [one(mod, case, sb)[1] for i in range(2)]
                if all(m is not None for m in again):
                    q.put(('fail', wid, name, case, msg, True))
                    break
                # not on every run: mairix may depend on chance (its hash seed, addresses, time).  A
                # discrepancy is believed only when the same kind of it comes back several times.
                if not stop.is_set() and not hanging(msg):
                    again += [one(mod, case, sb)[1] for i in range(10)]
                    same = [m for m in again if m is not None and norm(m) == norm(msg)]
                    if len(same) >= 3:
                        q.put(('fail', wid, name, case, msg, False))
                        break
                q.put(('flaky', wid, {'case': name, 'message': msg[:1000], 'reproduced': sum(m is not None for m in again)}))
                continue
            inconc += info.get('inconclusive', 0)
            evals += info.get('evals', 1)
            for l in info.get('labels', ()):
                labels[l] = labels.get(l, 0) + 1
            if info.get('nontrivial'):
                keys = info.get('keys')
                if keys is None:
                    hashes.add(case_hash(case))
                else:
                    for x in keys:
                        hashes.add(hashlib.sha256(repr(x).encode()).hexdigest()[:16])
                if len(samples) < 2 and not name.startswith('fixed'):
                    samples.append(info.get('sample', case))
    except Exception:
        q.put(('error', wid, traceback.format_exc()))
    try:
        rmtree(root)
    except Exception:
        pass
    q.put(('done', wid, evals, ngen, hashes, labels, samples, sb.runs, inconc))


# --------------------------------------------------------------------- shrinking

def paths(x, pre=()):
    """All (path, value) pairs of a JSON structure, outermost first."""
    yield pre, x
    if isinstance(x, list):
        for i, v in enumerate(x):
            yield from paths(v, pre + (i,))
    elif isinstance(x, dict):
        for k in sorted(x):
            yield from paths(x[k], pre + (k,))


def put(x, path, v):
    if not path:
        return v
    if isinstance(x, list):
        y = list(x)
    else:
        y = dict(x)
    y[path[0]] = put(x[path[0]], path[1:], v)
    return y


def candidates(case, frozen, strings=True):
    for path, v in sorted(paths(case), key=lambda pv: len(pv[0])):
        if any(c in frozen for c in path):
            continue
        if isinstance(v, list) and v:
            n = len(v)
            step = n
            while step >= 1:
                for i in range(0, n, step):
                    yield put(case, path, v[:i] + v[i + step:])
                step //= 2
        elif strings and isinstance(v, str) and len(v) > 1 and not (path and path[-1] in ('k', 'op', 'kind')):
            n = len(v)
            step = n // 2
            while step >= 1 and n <= 4000:
                for i in range(0, n, step):
                    yield put(case, path, v[:i] + v[i + step:])
                step = step // 2 if n > 40 else (step // 2)
        elif isinstance(v, bool):
            if v:
                yield put(case, path, False)
        elif isinstance(v, int) and v not in (0, 1):
            for t in (0, 1, v // 2, v - 1):
                if t != v:
                    yield put(case, path, t)


def norm(m):
    """What kind of failure a message describes, without its particulars."""
    if m.startswith('unexpected '):
        return m.split(':')[0]
    m = re.sub(r"'[^']*'|\"[^\"]*\"", '', m)
    m = re.sub(r'[\[(][^\])]*[\])]', '', m)
    return re.sub(r'[0-9]+', '', m)[:45]


def shrink(mod, case, msg, sb, deadline):
    frozen = getattr(mod, 'FROZEN', ())
    valid = getattr(mod, 'valid', None)
    cur, curmsg = case, msg
    tries = 0
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for c in candidates(cur, frozen, getattr(mod, 'SHRINK_STRINGS', True)):
            if time.time() > deadline:
                break
            try:
                if valid and not valid(c):
                    continue
            except Exception:
                continue
            if len(jdump(c)) >= len(jdump(cur)):
                continue
            tries += 1
            info, m = one(mod, c, sb)
            if m is not None and norm(m) == norm(curmsg):
                cur, curmsg = c, m
                progress = True
                break
    return cur, curmsg, tries


def _shrink_proc(modname, case, msg, root, bins, deadline, q):
    die_with_parent()
    os.umask(0o022)
    drop_privileges()
    mod = importlib.import_module(modname)
    limit_memory(bins)
    sb = Sandbox(root, bins)
    fails = 0
    m = msg
    for i in range(3):
        info, m2 = one(mod, case, sb)
        if m2 is not None:
            fails += 1
            m = m2
    if fails < 3:
        q.put(('flaky', fails, case, m))
    else:
        try:
            small, sm, tries = shrink(mod, case, m, sb, deadline)
            good = all(one(mod, small, sb)[1] is not None for i in range(3))
            if not good:
                small, sm = case, m
        except Exception:
            small, sm, tries = case, m, 0
        q.put(('violation', tries, small, sm))
    rmtree(root)


def scratch():
    base = None
    for d in ('/dev/shm', tempfile.gettempdir()):
        try:
            t = tempfile.mkdtemp(prefix='vp-', dir=d)
            # must be able to execute there (workers run the copied binary)
            p = os.path.join(t, 'x')
            with open(p, 'w') as f:
                f.write('#!/bin/sh\nexit 0\n')
            os.chmod(p, 0o755)
            if subprocess.run([p]).returncode == 0:
                os.unlink(p)
                return t
        except OSError:
            pass
        if os.path.isdir(t):
            shutil.rmtree(t, ignore_errors=True)
    raise SystemExit('no scratch directory')


def subdir(root, name):
    d = os.path.join(root, name)
    os.mkdir(d)
    if os.getuid() == 0:
        try:
            os.chown(d, 65534, 65534)
        except OSError:
            pass
    return d


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)['findings'] if e['property'] == pid and e['status'] == 'known']


def run_isolated(target, args, q, timeout):
    p = mp.Process(target=target, args=args + (q,))
    p.start()
    try:
        r = q.get(timeout=timeout)
    except queue.Empty:
        r = None
    p.join(5)
    if p.is_alive():
        p.kill()
        p.join()
    return r


def main(argv):
    pid = argv[0]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    modname = pid
    mod = importlib.import_module(modname)
    bins0 = {v: buildmod.build(v) for v in getattr(mod, 'BUILDS', ['plain'])}
    root = scratch()
    os.chmod(root, 0o755)
    rc = 2
    try:
        bindir = os.path.join(root, 'bin')
        os.mkdir(bindir)
        bins = {}
        for v, p in bins0.items():
            if p is None:
                continue        # a fuzz target that does not build with this tree
            bins[v] = os.path.join(bindir, 'mairix-' + v)
            shutil.copy2(p, bins[v])
            os.chmod(bins[v], 0o755)
        rc = drive(pid, mod, modname, tier, seed, root, bins, t0, argv)
    finally:
        rmtree(root)
    return rc


def replay(path):
    with open(path) as f:
        rp = json.load(f)
    mod = importlib.import_module(rp['property'])
    bins0 = {v: buildmod.build(v) for v in getattr(mod, 'BUILDS', ['plain'])}
    root = scratch()
    os.chmod(root, 0o755)
    try:
        bins = {}
        for v, p in bins0.items():
            if p is None:
                continue
            bins[v] = os.path.join(root, 'mairix-' + v)
            shutil.copy2(p, bins[v])
            os.chmod(bins[v], 0o755)
        q = mp.Queue()
        r = run_isolated(_shrink_proc, (rp['property'], rp['case'], '', subdir(root, 'r'), bins, 0), q, 600)
        if r and r[0] == 'violation':
            print('VIOLATION property=%s replay=%s' % (rp['property'], path))
            print(r[3])
            return 1
        print('replay: property holds on this case')
        return 0
    finally:
        rmtree(root)


def drive(pid, mod, modname, tier, seed, root, bins, t0, argv):
    count = mod.COUNT[tier]
    budget = mod.BUDGET[tier]
    if '--count' in argv:
        count = int(argv[argv.index('--count') + 1])
    if '--budget' in argv:
        budget = float(argv[argv.index('--budget') + 1])
    known = load_known(pid)
    extra = {}
    if hasattr(mod, 'prepare') and '--count' not in argv:
        # a first stage of the check: finds more cases (mod.EXTRA, run first), says what it did
        extra = mod.prepare(subdir(root, 'prep'), bins, tier, seed)
    q = mp.Queue()
    stop = mp.Event()
    deadline = time.time() + budget
    fixed_n = len(mod.fixed()) if hasattr(mod, 'fixed') else 0
    procs = []
    nwork = getattr(mod, 'WORKERS', NWORK)
    for w in range(nwork):
        p = mp.Process(target=worker, args=(modname, w, nwork, seed, tier, count, deadline,
                                            subdir(root, 'w%d' % w), bins, q, stop, fixed_n))
        p.start()
        procs.append(p)
    evals = ngen = runs = inconc = 0
    hashes = set()
    labels = {}
    samples = []
    fails = []
    errors = []
    flaky = []
    done = 0
    hard = deadline + 240
    while done < nwork:
        try:
            m = q.get(timeout=5)
        except queue.Empty:
            if time.time() > hard or not any(p.is_alive() for p in procs):
                if any(not p.is_alive() and p.exitcode not in (0, None) for p in procs):
                    errors.append('a worker died')
                break
            continue
        if m[0] == 'fail':
            fails.append(m)
            stop.set()
        elif m[0] == 'flaky':
            flaky.append(m[2])
        elif m[0] == 'error':
            errors.append(m[2])
            stop.set()
        elif m[0] == 'done':
            done += 1
            evals += m[2]
            ngen += m[3]
            hashes |= m[4]
            for l, c in m[5].items():
                labels[l] = labels.get(l, 0) + c
            samples += m[6]
            runs += m[7]
            inconc += m[8]
    for p in procs:
        p.join(2)
        if p.is_alive():
            p.kill()
            p.join()
    violations = 0
    lines = []
    for i, m in enumerate(fails):
        _, wid, name, case, msg, always = m
        q2 = mp.Queue()
        sdl = time.time() + (60 if tier == 'quick' else 180)
        if not always:
            r = ('violation', 0, case, msg + ' (on some of several runs of the same case)')
        elif '--noshrink' in argv:
            r = ('violation', 0, case, msg)
        else:
            r = run_isolated(_shrink_proc, (modname, case, msg, subdir(root, 's%d' % i), bins, sdl), q2, 400)
        if r is None:
            r = ('violation', 0, case, msg + ' (shrinking timed out)')
        if r[0] == 'flaky':
            flaky.append({'case': name, 'message': r[3], 'reproduced': r[1]})
            continue
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, '%s-%s.json' % (pid, case_hash(r[2])))
        with open(rpath, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'origin': name,
                       'message': r[3], 'case': r[2]}, f, indent=1, sort_keys=True)
        violations += 1
        lines.append('VIOLATION property=%s replay=%s' % (pid, rpath))
        lines.append('  ' + r[3][:2000].replace('\n', '\n  '))
        break
    # listed findings: each must still fail in the listed way, else it is stale
    known_lines = []
    for i, e in enumerate(known):
        q2 = mp.Queue()
        r = run_isolated(_shrink_proc, (modname, e['case'], '', subdir(root, 'k%d' % i), bins, 0), q2, 400)
        if r and r[0] == 'violation':
            known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    trimmed = []
    for s in samples[:6]:
        t = jdump(s)
        trimmed.append(s if len(t) < 3000 else {'truncated_json': t[:3000]})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(hashes), 'rule': mod.RULE,
                       'samples': trimmed, 'generated_cases': ngen, 'mairix_runs': runs,
                       'planned_cases': count, 'hand_picked_cases': fixed_n,
                       'stopped_by_time_budget': ngen < count + fixed_n and not fails,
                       'inconclusive_cases': inconc,
                       'labels': dict(sorted(labels.items()))},
          'wall_s': round(time.time() - t0, 2), 'violations': violations}
    ev['coverage'].update(extra)
    if flaky:
        ev['coverage']['unreproduced'] = flaky[:20]
    if getattr(mod, 'ASSUMPTIONS', None):
        ev['assumptions'] = mod.ASSUMPTIONS
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in known_lines + lines:
        print(l)
    print('%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %d mairix runs, '
          '%.1f s, %d violation(s)%s' % (pid, tier, seed, ngen, evals, len(hashes), runs,
                                         time.time() - t0, violations,
                                         ', %d unreproduced' % len(flaky) if flaky else ''))
    if '--labels' in argv:
        print(json.dumps(labels, indent=1, sort_keys=True))
    if '--flaky' in argv:
        print(json.dumps(flaky, indent=1))
    if violations:
        return 1
    if errors:
        sys.stderr.write('\n'.join(errors))
        return 2
    return 0
