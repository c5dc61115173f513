"""A database that is not whole is refused, never believed."""
import os, random, signal, struct
import mail, simple, world
from core import Violation

ID = 'C23'
COUNT = {'quick': 6000, 'thorough': 150000}
BUDGET = {'quick': 150, 'thorough': 1800}
BUILDS = ['plain', 'asan', 'crash']
RULE = ('case = a mail store, indexed, and then either damage to the database file (cut to any length, grown, emptied, replaced by text, mail or '
        'noise, other magic bytes, version or byte order), or messages added and removed and an indexing or purging run that is killed or '
        'interrupted (SIGKILL, SIGINT, SIGHUP, SIGQUIT) before a generated file-system call or memory copy, counted by a preloaded '
        'shim with a dry run first. Then searches, a dump and indexing runs, with --unlock: a damaged database must be refused '
        'with a message and stay as it is; after an interruption each run either refuses it or all results are those of the whole '
        'old or the whole new index; a new database after deleting it is complete. Non-trivial: damage, or an interruption with the database open for writing.')
FROZEN = ('kind', 'name', 'fmt', 'z', 'mode', 'sig')
SHRINK_STRINGS = False
ALL = [{'k': None, 'or': [[{'n': True, 'w': 'zzz', 's': None, 'a': False}]]}]


def ids(r, h):
    if r.random() < .7:
        h.append(['Message-ID', [{'t': '<id%d@h.org>' % r.randrange(12), 'e': '', 'f': ''}]])


def gen(r, k, tier):
    folders = simple.sfolders(r, r.choice([3, 8, 30]), nmin=1, ids=ids)
    folders.append({'kind': 'mh', 'name': 'mhlast', 'msgs': [simple.smsg(r, ids=ids) for _ in range(r.randint(1, 5))]})
    names = [max(f['name'].replace(',', ' ').replace('/', ' ').split(), key=len) for f in folders]
    case = {'folders': folders, 'qs': [ALL] + [simple.rquery(r, names, maxor=2, maxand=2) for _ in range(r.randint(1, 3))],
            'mode': r.choice(['kill', 'kill', 'kill', 'cut', 'cut', 'grow', 'foreign', 'header']), 'x': r.random(), 'y': r.randrange(1 << 30),
            'v': 'asan' if r.random() < .15 else 'plain', 'opt': r.choice([[], [], ['-p'], ['-F'], ['-Q'], ['-v']])}
    if case['mode'] == 'kill':
        case['sig'] = r.choice([signal.SIGKILL] * 3 + [signal.SIGINT, signal.SIGHUP, signal.SIGQUIT])
        case['fresh'] = r.random() < .15
        case['early'] = r.random() < .15
        case['add'] = [simple.smsg(r, ids=ids) for _ in range(r.choice([0, 1, 3, 12]))]
        case['rm'] = [r.randrange(9) for _ in range(r.choice([0, 1, 1, 3]))]
    return case


def damage(case, full):
    r = random.Random(case['y'])
    m = case['mode']
    if m == 'cut':
        c = case['x']
        n = len(full)
        k = int(c * n) if r.random() < .6 else r.choice([0, 1, 3, 4, 5, 100, 159, 160, 161, n - 1, n - 2, n - 4, n // 2])
        return full[:min(k, n - 1)]
    if m == 'grow':
        return full + r.choice([b'\0', b'\xff', full[-40:], b'\0' * 4096, full, b'x' * r.randint(1, 500)])
    if m == 'foreign':
        n = r.choice([0, 1, 159, 160, 161, 400, len(full)])
        return r.choice([b'', b'From a@b Mon Jan  1 12:34:56 2001\nSubject: apple\n\nfig\n' * 9, bytes(r.randrange(256) for _ in range(n)), b'\0' * n,
                         b'MX' + b' ' * n, b'\xff' * n, full[4:], full[1:], b'\n' + full, b'#!/bin/sh\n' + full])
    b = bytearray(full)
    how = r.choice(['magic', 'version', 'order', 'swap', 'strange'])
    if how == 'magic':
        b[r.randrange(3)] ^= 1 << r.randrange(8)
    elif how == 'version':
        b[3] = (b[3] + r.choice([1, -1, 4, 100])) % 256
    elif how == 'order':
        b[4:8] = b[4:8][::-1]
    elif how == 'strange':
        b[4 + r.randrange(4)] ^= 1 << r.randrange(8)
    else:
        n = len(b) // 4 * 4
        b[4:n] = b''.join(bytes(b[i:i + 4][::-1]) for i in range(4, n, 4))
    return bytes(b)


def check(case, sb):
    w = world.World(sb, case['folders'])
    w.build()
    v = case['v']
    evals = 0
    labels = {case['mode'], v}
    old = list(w.docs)

    def run(args, **kw):
        r = w.mairix(args, variant=v, **kw)
        if r.rc < 0 or r.rc == 99 or b'Sanitizer' in r.err:
            raise Violation('mairix %r crashed on the database after %s: %r' % (args, case['mode'], r))
        return r

    def refused(r, quiet=True):
        return r.rc != 0 and bool(r.err.strip()) and not (quiet and r.out.strip())

    def locked(what):
        if os.path.exists(w.db + '.lock'):
            raise Violation('%s left its lock behind' % what)

    def state(r, q, docs):
        want = [d.key for d in docs if simple.match(q, d)]
        return r.rc == (0 if want else 1) and sorted(world.parse_raw(r.out)) == sorted(want)

    def whole(docs, what):
        for q in case['qs']:
            r = run(['-r'] + [simple.show(a) for a in q])
            if not state(r, q, docs):
                raise Violation('%s: search %r: %r' % (what, [simple.show(a) for a in q], r))

    fresh = case.get('fresh')
    if not fresh:
        r = run([])
        if r.rc:
            raise Violation('indexing failed: %r' % r)
    full = b''
    if not fresh:
        with open(w.db, 'rb') as f:
            full = f.read()

    def put(b):
        with open(w.db, 'wb') as f:
            f.write(b)
    if case['mode'] != 'kill':
        bad = damage(case, full)
        put(bad)
        opts = [['-r'] + [simple.show(a) for a in case['qs'][-1]], case['opt'], ['-x'] + [simple.show(a) for a in case['qs'][0]], ['-d'], ['-p'], []]
        for o in opts:
            r = run(o)
            evals += 1
            if not refused(r, o[:1] in (['-r'], ['-x'])):
                raise Violation('mairix %r with a database after %s (%d bytes instead of %d): %r' % (o, case['mode'], len(bad), len(full), r))
            locked('mairix %r' % o)
            with open(w.db, 'rb') as f:
                if f.read() != bad:
                    raise Violation('mairix %r refused the database and changed it' % o)
        new = old
    else:
        # ---- the change that the interrupted run is to index
        f = next(f for f in case['folders'][::-1] if f['kind'] == 'mh')
        d = os.path.join(w.base, f['name'])
        for i, e in enumerate(case['add']):
            data = w.data(e)
            p = os.path.join(d, str(700 + i))
            w.put(p, data)
            w.add_doc(e, p, data, ('file', p), set())
        files = [x for x in old if x.key[0] == 'file']
        gone = []
        for i in case['rm']:
            x = files[i % len(files)]
            if x not in gone:
                gone.append(x)
                os.unlink(world.fs(x.path))
        new = [x for x in w.docs if x not in gone]
        if not new:
            return {'evals': 0, 'nontrivial': False}
        env = {'LD_PRELOAD': sb.bins['crash'], 'CRASH_DB': w.db, 'CRASH_SIG': str(int(case['sig'])), 'CRASH_OUT': sb.path('events')}

        def crun(at):
            r = w.mairix(case['opt'], variant='plain', env=dict(env, CRASH_AT=str(at)))
            evs = None
            if os.path.exists(sb.path('events')):
                with open(sb.path('events')) as f:
                    evs = [int(x) for x in f.read().split()]
                os.unlink(sb.path('events'))
            return r, evs
        r, evs = crun(0)
        if r.rc or not evs:
            raise Violation('indexing failed: %r' % r)
        total, first = evs
        if first and not case['early']:
            at = first + 1 + int((total - first) * case['x'])
            labels.add('writing')
        else:
            at = 1 + int((first or total) * case['x'])
        if fresh:
            os.unlink(w.db)
        else:
            put(full)
        r, evs = crun(at)
        if r.rc not in (0, 7) and not (r.rc == -signal.SIGKILL and case['sig'] == signal.SIGKILL):
            raise Violation('indexing with signal %d at event %d of %d: %r' % (case['sig'], at, total, r))
        if case['sig'] != signal.SIGKILL:
            locked('an interrupted run')
        # ---- what the others make of it
        ul = ['--unlock'] if os.path.exists(w.db + '.lock') else []
        poss = {'old', 'new'}
        ref = 0
        for q in case['qs']:
            r2 = run(ul + ['-r'] + [simple.show(a) for a in q])
            ul = []
            evals += 1
            locked('a search')
            if refused(r2):
                ref += 1
                continue
            ok = {n for n, docs in (('old', old), ('new', new)) if state(r2, q, docs)}
            if fresh:
                ok.discard('old')
            poss &= ok
            if not poss or ref:
                raise Violation('after signal %d at event %d of %d, search %r gives what fits neither the old nor the new index, %d searches refused before: %r' % (
                    case['sig'], at, total, [simple.show(a) for a in q], ref, r2))
        if r.rc == 0 and (ref or 'new' not in poss):
            raise Violation('indexing succeeded, but searches do not see it')
        labels.add('refused' if ref else 'old' if 'old' in poss and 'new' not in poss else 'usable')
        r3 = run([])
        evals += 1
        locked('indexing')
        if r3.rc == 0:
            whole(new, 'indexing after an interrupted run')
        elif not refused(r3):
            raise Violation('indexing after an interrupted run: %r' % r3)
        elif not ref:
            raise Violation('indexing refuses a database that searches use: %r' % r3)
    if os.path.exists(w.db):
        os.unlink(w.db)
    r = run([])
    if r.rc:
        raise Violation('indexing anew failed: %r' % r)
    whole(new, 'indexing anew')
    return {'evals': evals + 1 + len(case['qs']), 'nontrivial': case['mode'] != 'kill' or 'writing' in labels, 'labels': labels,
            'sample': {'mode': case['mode'], 'x': case['x'], 'sig': case.get('sig'), 'queries': [[simple.show(a) for a in q] for q in case['qs']]}}


def valid(case):
    def good(q):
        return q and all(('or' not in a) or (a['or'] and all(c and all(i['w'] for i in c) for c in a['or'])) for a in q)
    return all(f['msgs'] for f in case['folders']) and any(f['kind'] == 'mh' for f in case['folders']) and case['qs'] and all(good(q) for q in case['qs'])
