"""The database lock gives mutual exclusion and is always released."""
import os, select, signal, socket, subprocess, time
import world
from core import Violation

ID = 'C19'
BUILDS = ['plain', 'sched']
COUNT = {'quick': 14000, 'thorough': 300000}
BUDGET = {'quick': 90, 'thorough': 1500}
RULE = ('case = 1-4 mairix runs (index, purge, searches into raw, excerpt and maildir results, dump, and runs that fail after taking the '
        'lock) on one database, stopped by a preloaded shim before each file-system call on the database or its lock files and released '
        'one at a time in a generated order, with deliveries in between and hang-up, interrupt or quit signals (sometimes SIGKILL, '
        'or a lock left by someone else) at generated points; checked: intervals of database use do not overlap, refused runs never '
        'open the database and are refused only while another run is alive, results and exit statuses fit the mail, no lock file '
        'is left, the next run works. Non-trivial: two runs were alive at the same time, or a signal arrived.')
KINDS = {'index': [], 'purge': ['-p'], 'fast': ['-F', '-Q'], 'search0': ['-r', 's:even'], 'search1': ['-r', 's:odd'], 'all': ['-r', 'p:md'],
         'exc': ['-x', 's:even'], 'mf0': ['s:even'], 'mf1': ['s:odd'], 'aug': ['-a', 's:odd'], 'dump': ['-d'], 'badm': ['-r', 'ms:x'], 'badlen': ['-r', 's:' + 'a' * 40 + '='],
         'badmf': ['-o', 'no/such/dir', 's:even'], 'refuse': ['-o', 'md', 's:even'], 'none': ['-r', 's:nosuchword'],
         'baddate': ['-r', 'd:nonsense'], 'nomf': ['s:even'], 'nofold': [], 'dupbox': ['-p'], 'dupdir': ['-p'],
         'two-imap': [], 'no-imap': ['-F'], 'badbox': ['s:even'], 'mfimap': ['s:even']}
FAIL = {'badm': (2,), 'badlen': (2,), 'badmf': (2,), 'refuse': (3,), 'none': (1,), 'baddate': (2,), 'nomf': (2,),
        'nofold': (2,), 'dupbox': (1,), 'dupdir': (2,), 'two-imap': (2,), 'no-imap': (2,), 'badbox': (1, 2), 'mfimap': (0, 1, 2, 3)}
# runs with a configuration file of their own, in which these settings are left out or added
RCS = {'nomf': ('mfolder', ''), 'nofold': ('maildir', ''), 'dupbox': ('', 'mbox=box0:box0\n'), 'dupdir': ('', 'maildir=md:md\n'),
       'two-imap': ('', 'imap=INBOX\nimap_pipe=false\nimap_server=localhost\n'), 'no-imap': ('', 'imap=INBOX\nimap_pipe=false\n'),
       'badbox': ('mfolder', 'mfolder=no/such/dir/box\nmformat=mbox\n'), 'mfimap': ('', 'mfolder=x\nmformat=imap\nimap_pipe=false\n')}
SIGS = [signal.SIGINT, signal.SIGHUP, signal.SIGQUIT]


def gen(r, k, tier):
    n = r.choice([1, 2, 2, 2, 3, 3, 4])
    procs = []
    for _ in range(n):
        procs.append(r.choice(['index', 'index', 'index', 'purge', 'fast'] + sorted(KINDS)))
    case = {'n0': r.randint(1, 4), 'fresh': r.random() < .25, 'procs': procs, 'sched': [], 'acts': []}
    # bursts: mostly let one process run on for a while
    cur = r.randrange(n)
    stick = r.choice([.3, .7, .9])
    for _ in range(60):
        if r.random() > stick:
            cur = r.randrange(n)
        case['sched'].append(cur)
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        case['acts'].append([r.randrange(25), 'deliver', 0])
    if r.random() < .35:
        for _ in range(r.choice([1, 1, 2])):
            case['acts'].append([r.randrange(1, 20), 'signal', r.choice(SIGS)])
    elif r.random() < .1:
        case['acts'].append([r.randrange(1, 20), 'kill', 9])
    case['stale'] = r.choice([0] * 12 + [1, 2])
    case['nodir'] = r.random() < .03
    return case


class Proc:
    def __init__(self, i, kind, sb, w):
        self.i, self.kind = i, kind
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.sock = a
        rc = w.rc
        if kind in RCS:
            drop, more = RCS[kind]
            rc = sb.path('rc-' + kind)
            with open(rc, 'w') as f:
                f.write(''.join(l + '\n' for l in w.rc_text().splitlines() if not drop or not l.startswith(drop + '=')) + more)
        env = sb.env({'LD_PRELOAD': sb.bins['sched'], 'SCHED_FD': str(b.fileno()), 'SCHED_PREFIX': w.db})
        self.out = open(sb.path('out%d' % i), 'wb+')
        self.err = open(sb.path('err%d' % i), 'wb+')
        self.p = subprocess.Popen([sb.bins['plain'], '-f', rc] + KINDS[kind], env=env, stdin=subprocess.DEVNULL, stdout=self.out,
                                  stderr=self.err, pass_fds=[b.fileno()], cwd=sb.dir)
        b.close()
        self.req = []       # requests not yet granted
        self.done = False
        self.events = []
        self.signalled = []
        self.start = self.end = None
        sb.runs += 1

    def take(self, timeout):
        """Receives one request or notices the end; False if nothing came."""
        if not select.select([self.sock], [], [], timeout)[0]:
            return False
        try:
            m = self.sock.recv(8192)
        except ConnectionResetError:
            m = b''
        if m:
            self.req.append(m.decode('latin-1').split(' ', 1))
        else:
            self.p.wait(60)
            self.done = True
        return True

    def wait(self):
        if not self.take(60):
            raise Violation('run %r does not get on (after %r)' % (KINDS[self.kind], self.events[-1:]))

    def grant(self, t):
        op, path = self.req.pop()
        self.events.append((t, op, path))
        self.sock.send(b'g')
        self.wait()

    def sigstate(self, sig):
        try:
            with open('/proc/%d/status' % self.p.pid) as f:
                d = dict(l.rstrip('\n').split(':\t', 1) for l in f if ':\t' in l)
        except (FileNotFoundError, ProcessLookupError):
            return 'gone'
        bit = 1 << (sig - 1)
        if (int(d['SigPnd'], 16) | int(d['ShdPnd'], 16)) & bit and int(d['SigBlk'], 16) & bit:
            return 'blocked'
        if int(d['SigIgn'], 16) & bit:
            return 'ignored'
        return ''

    def signal(self, sig):
        self.p.send_signal(sig)
        self.signalled.append(sig)
        end = time.time() + 60
        n = len(self.req)
        while True:
            if self.take(.002):
                return
            st = self.sigstate(sig)
            if st in ('blocked', 'ignored'):
                return
            if time.time() > end:
                raise Violation('run %r does not react to signal %d' % (KINDS[self.kind], sig))


def check(case, sb):
    w = world.World(sb, [{'kind': 'maildir', 'name': 'md', 'msgs': []}])
    w.build()
    w.mformat = 'maildir'
    w.write_rc()
    delivered = []      # (time, path, even)

    def deliver(t):
        i = len(delivered)
        p = os.path.join(w.base, 'md', 'new', '%d.m' % i)
        w.put(p + '.tmp', b'From: a@b.c\nSubject: %s mail number%d\n\nbody\n' % ([b'even', b'odd'][i % 2], i))
        os.rename(p + '.tmp', p)
        delivered.append((t, p, i % 2))
    for _ in range(case['n0']):
        deliver(-2)
    w.put(os.path.join(w.base, 'box0'), b'')
    if not case['fresh']:
        w.index()
    if case['stale']:
        with open(w.db + '.lock', 'w') as f:
            f.write('1,otherhost,bob\n' if case['stale'] == 1 else '')
    before_db = open(w.db, 'rb').read() if os.path.exists(w.db) else None
    procs = []
    labels = set(case['procs'])
    killed = False
    try:
        for i, k in enumerate(case['procs']):
            procs.append(Proc(i, k, sb, w))
        for p in procs:
            p.wait()
        t = 0
        acts = sorted(case['acts'])
        db_exists = {}
        while not all(p.done for p in procs):
            t += 1
            while acts and acts[0][0] <= t:
                a = acts.pop(0)
                if a[1] == 'deliver':
                    deliver(t)
                    t += 1
                else:
                    c = [p for p in procs if not p.done and p.events]
                    if c:
                        p = c[(case['sched'][t % len(case['sched'])] if case['sched'] else 0) % len(c)]
                        p.signal(a[2])
                        labels.add('signal-at-' + (p.events[-1][1]))
                        if a[2] == 9:
                            killed = True
                        t += 1
                        if p.done:
                            p.end = t
            live = [p for p in procs if not p.done]
            if not live:
                break
            want = case['sched'][t] if t < len(case['sched']) else 0
            p = next((q for q in live if q.i == want), live[0])
            if p.start is None:
                p.start = t
                db_exists[p.i] = os.path.exists(w.db)
            p.grant(t)
            if p.done:
                t += 1
                p.end = t
    finally:
        for p in procs:
            if p.p.poll() is None:
                p.p.kill()
                p.p.wait()
            p.sock.close()
            p.out.seek(0)
            p.err.seek(0)
            p.o, p.e = p.out.read(), p.err.read()
            p.out.close()
            p.err.close()
            p.rc = p.p.returncode
    hist = ['%d:%s %s' % (t, case['procs'][p.i] + str(p.i), op + ' ' + os.path.basename(pa)) for p in procs for t, op, pa in p.events]
    hist = sorted(hist, key=lambda h: int(h.split(':')[0]))

    def bad(msg):
        raise Violation('%s; schedule: %s' % (msg, ', '.join(hist)))
    use = []
    for p in procs:
        p.locked = b'locked' in p.e and p.rc == 1
        db = [t for t, op, pa in p.events if pa == w.db and op in ('open', 'write', 'rename-to')]
        if p.locked:
            if db:
                bad('run %d was refused but opened the database' % p.i)
            others = [q for q in procs if q is not p and q.start is not None and q.start < p.end and (q.end is None or q.end > p.start)]
            if not others and not killed and not case['stale']:
                bad('run %d was refused though no other run was alive: %r' % (p.i, p.e))
        elif db:
            use.append((db[0], db[-1], p))
        if case['stale'] and not p.locked and not p.signalled:
            bad('run %d worked in spite of a lock held by someone else (exit status %r)' % (p.i, p.rc))
    use.sort(key=lambda u: u[:2])
    for (a, b, p), (c, d, q) in zip(use, use[1:]):
        if c < b:
            bad('runs %d and %d use the database at the same time' % (p.i, q.i))
    if not killed and not case['stale']:
        left = [x for x in os.listdir(sb.dir) if x.startswith('db.lock')]
        if left:
            bad('lock files left behind: %r' % left)
    if case['stale']:
        if (open(w.db, 'rb').read() if os.path.exists(w.db) else None) != before_db:
            bad('the database changed while locked by someone else')
    indexed = -2 if not case['fresh'] else None     # mail delivered up to this time is in the database
    nsig = 0
    for p in sorted(procs, key=lambda p: p.end if p.end is not None else 1 << 30):
        if p.locked:
            continue
        if p.signalled:
            nsig += 1
            if p.rc not in (7, 0, 1, 2, 3) and -p.rc not in p.signalled:
                bad('run %d ended with status %r after a signal: %r' % (p.i, p.rc, p.e))
            if p.kind in ('index', 'purge', 'fast') and p.rc == 0:
                indexed = max(p.start, -2 if indexed is None else indexed)
            continue
        nodb = indexed is None and p.rc == 3 and not db_exists.get(p.i)
        if p.kind in ('index', 'purge', 'fast'):
            if p.rc != 0:
                bad('run %d: indexing failed with status %r: %r' % (p.i, p.rc, p.e[:300]))
            indexed = max(p.start, -2 if indexed is None else indexed)
        elif nodb or (p.kind == 'dump' and not db_exists.get(p.i)):
            pass
        elif p.kind in FAIL:
            if p.rc not in FAIL[p.kind]:
                bad('run %d (%s) ended with status %r' % (p.i, p.kind, p.rc))
        elif p.rc not in (0, 1):
            bad('run %d (%s) ended with status %r: %r' % (p.i, p.kind, p.rc, p.e[:300]))
        elif p.kind in ('search0', 'search1', 'all'):
            got = {k[1] for k in world.parse_raw(p.o)}
            par = {'search0': [0], 'search1': [1], 'all': [0, 1]}[p.kind]
            # an index run that ended before this one started
            base = [-2] if not case['fresh'] else []
            base += [q.start for q in procs if q.kind in ('index', 'purge', 'fast') and not q.locked and q.rc == 0 and q.end <= p.start]
            must = {m for t, m, e in delivered if e in par and base and t < max(base)}
            may = {m for t, m, e in delivered if e in par and t < p.end}
            if not (must <= got <= may):
                bad('run %d (%s) lists %r' % (p.i, p.kind, sorted(got)))
    if not killed and not case['stale'] and indexed is not None:
        got = {k[1] for k in w.search(['p:md'])}
        must = {m for t, m, e in delivered if t < indexed}
        if not must <= got:
            bad('mail delivered before a successful indexing run is missing from the database: %r' % sorted(must - got))
    mfs = [u for u in use if u[2].kind in ('mf0', 'mf1')]
    augs = [u for u in use if u[2].kind == 'aug']
    if mfs and not nsig and not killed and not (augs and augs[-1][0] > mfs[-1][0]):
        par = int(mfs[-1][2].kind[2])
        d = os.path.join(w.base, 'mfolder')
        got = {os.readlink(os.path.join(d, s, x)) for s in ('new', 'cur') for x in os.listdir(os.path.join(d, s))}
        if any(e != par for t, m, e in delivered if m in got):
            bad('the result folder mixes the results of two searches')
    # the next run
    if killed or case['stale']:
        lock = os.path.exists(w.db + '.lock')
        if lock:
            r = w.mairix([])
            if r.rc == 0 or b'locked' not in r.err:
                bad('a run worked in spite of the lock: %r' % r)
        for x in os.listdir(sb.dir):
            if killed and x.startswith('db') and not x.startswith('db.lock') or x.startswith('db.lock.'):
                os.unlink(sb.path(x))
        w.index('--unlock')
    w.index()
    world.compare(w.search(['p:md']), [('file', m) for t, m, e in delivered], 'p:md afterwards')
    left = [x for x in os.listdir(sb.dir) if x.startswith('db.lock')]
    if left:
        bad('lock files left behind at last: %r' % left)
    alive = any(p is not q and p.start is not None and q.start is not None and p.start < q.start < (p.end or 0) for p in procs for q in procs)
    if any(p.locked for p in procs):
        labels.add('refused')
    return {'evals': 1 + len(procs), 'nontrivial': alive or nsig > 0, 'labels': labels, 'sample': {'procs': case['procs'], 'history': hist}}


def valid(case):
    return case['procs'] and all(p in KINDS for p in case['procs'])


FROZEN = ('procs_',)
