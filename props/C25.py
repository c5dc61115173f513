"""A run in which a system call or an allocation fails does no lasting harm."""
import errno, os, shutil, stat
import mail, simple, world
from core import Violation

ID = 'C25'
COUNT = {'quick': 6000, 'thorough': 150000}
BUDGET = {'quick': 150, 'thorough': 1800}
BUILDS = ['plain', 'fault']
RULE = ('case = a mail store in all formats, indexed; then messages added and removed and an indexing or purging run, or a search into any kind of '
        'result folder, or a dump, in which a generated call of one class (allocation, mapping, opening, writing, creating, removing, status) '
        'or that and all later ones of the class fail with a generated error, counted by a preloaded shim with a dry run first. The run must end without a signal, '
        'leave no lock and no change in the mail; if it reports success and says nothing, its result is complete; a run that reports '
        'failure leaves a database that is the old or the new one or is refused; and when the same run is repeated without the fault the '
        'results are exact. Non-trivial: the fault was injected.')
FROZEN = ('kind', 'name', 'fmt', 'z', 'what', 'cls', 'err', 'mf')
SHRINK_STRINGS = False
ALL = [{'k': None, 'or': [[{'n': True, 'w': 'zzz', 's': None, 'a': False}]]}]
ERR = {'mem': [errno.ENOMEM], 'map': [errno.ENOMEM, errno.ENODEV], 'stat': [errno.EIO, errno.EACCES], 'write': [errno.ENOSPC, errno.EIO],
       'full': [errno.ENOSPC], 'make': [errno.ENOSPC, errno.EMFILE], 'remove': [errno.EIO, errno.EACCES], 'dir': [errno.EMFILE, errno.EIO], 'open': [errno.EMFILE, errno.EIO, errno.ENOMEM]}

SKIP = ('stat', 'dir')     # what cannot be looked at counts as not there


def ids(r, h):
    if r.random() < .7:
        h.append(['Message-ID', [{'t': '<id%d@h.org>' % r.randrange(12), 'e': '', 'f': ''}]])


def gen(r, k, tier):
    folders = simple.sfolders(r, r.choice([3, 8, 30]), nmin=1, ids=ids)
    folders.append({'kind': 'mh', 'name': 'mhlast', 'msgs': [simple.smsg(r, ids=ids) for _ in range(r.randint(1, 5))]})
    names = [max(f['name'].replace(',', ' ').replace('/', ' ').split(), key=len) for f in folders]
    what = r.choice(['index', 'index', 'index', 'search', 'search', 'dump'])
    cls = r.choice(['mem', 'map', 'open', 'make', 'write', 'full', 'stat', 'dir'] + ['remove', 'write'] * (what == 'search') if what != 'dump' else ['mem', 'map', 'open', 'stat', 'make'])
    return {'folders': folders, 'qs': [ALL] + [simple.rquery(r, names, maxor=2, maxand=2) for _ in range(r.randint(1, 2))],
            'what': what, 'cls': cls, 'err': r.choice(ERR[cls]), 'x': r.random(), 'many': r.random() < .3, 'fresh': r.random() < .2,
            'mf': r.choice(['maildir', 'mh', 'mbox', 'mbox', 'raw', 'excerpt']), 'o': r.choice([[], [], ['-t'], ['-a'], ['-H']]),
            'opt': r.choice([[], [], ['-p'], ['-F'], ['-Q'], ['-v']]),
            'add': [simple.smsg(r, ids=ids) for _ in range(r.choice([0, 1, 3, 12] if cls != 'full' else [12, 60]))], 'rm': [r.randrange(9) for _ in range(r.choice([0, 0, 1, 3]))],
            'badd': [simple.smsg(r, ids=ids) for _ in range(r.choice([0, 1, 2]))]}


def tree(root, skip=()):
    out = {}
    for d, ds, fs in os.walk(os.fsencode(root)):
        for n in ds + fs:
            p = os.path.join(d, n)
            if any(p == s or p.startswith(s + b'/') for s in skip):
                continue
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[p] = ('link', os.readlink(p))
            elif stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as f:
                    out[p] = ('file', st.st_mode, st.st_mtime_ns, f.read())
            else:
                out[p] = ('dir', st.st_mode)
    return out


def check(case, sb):
    w = world.World(sb, case['folders'])
    w.mformat = case['mf']
    w.build()
    labels = {case['what'], case['cls'], case['what'] + '-' + case['cls']}
    mf = os.path.join(w.base, 'mfolder')
    skip = [os.fsencode(mf)]
    old = list(w.docs)
    evals = 0

    def run(args, **kw):
        r = w.mairix(args, **kw)
        if r.rc < 0 or r.rc >= 90:
            raise Violation('mairix %r: %r' % (args, r))
        return r

    def locked(what):
        l = [x for x in os.listdir(os.path.dirname(w.db)) if '.lock' in x]
        if l:
            raise Violation('%s left %r behind' % (what, l))

    def state(r, q, docs):
        want = [d.key for d in docs if simple.match(q, d)]
        return r.rc == (0 if want else 1) and sorted(world.parse_raw(r.out)) == sorted(want)

    def whole(docs, what):
        for q in case['qs']:
            r = run(['-r'] + [simple.show(a) for a in q])
            if not state(r, q, docs):
                raise Violation('%s: search %r: %r' % (what, [simple.show(a) for a in q], r))

    def frun(args, at):
        env = {'LD_PRELOAD': sb.bins['fault'], 'FAULT_CLASS': case['cls'], 'FAULT_ERRNO': str(case['err']), 'FAULT_AT': str(at),
               'FAULT_MANY': str(int(case['many'])), 'FAULT_OUT': sb.path('events')}
        r = w.mairix(args, env=env)
        evs = 0
        if os.path.exists(sb.path('events')):
            with open(sb.path('events')) as f:
                evs = int(f.read())
            os.unlink(sb.path('events'))
        if r.rc < 0 or r.rc >= 90:
            raise Violation('mairix %r with call %d of class %s failing: %r' % (args, at, case['cls'], r))
        return r, evs

    def database():
        if not os.path.exists(w.db):
            return None
        with open(w.db, 'rb') as f:
            return f.read()

    fresh = case['fresh'] and case['what'] == 'index'
    if not fresh:
        r = run([])
        if r.rc:
            raise Violation('indexing failed: %r' % r)
    full = database()
    hit = False
    if case['what'] == 'index':
        f = next(f for f in case['folders'][::-1] if f['kind'] == 'mh')
        d = os.path.join(w.base, f['name'])
        for i, e in enumerate(case['add']):
            data = w.data(e)
            p = os.path.join(d, str(700 + i))
            w.put(p, data)
            w.add_doc(e, p, data, ('file', p), set())
        bf = next((f for f in case['folders'] if f['kind'] == 'mbox'), None)
        if bf and case['badd']:
            p = os.path.join(w.base, bf['name'] + ('.' + bf['z'] if bf.get('z') else ''))
            w.docs = [x for x in w.docs if x.key[:2] != ('mbox', p)]
            w.put_folder(dict(bf, msgs=bf['msgs'] + case['badd']))
            labels.add('mbox-grown')
        files = [x for x in old if x.key[0] == 'file']
        gone = []
        for i in case['rm']:
            x = files[i % len(files)]
            if x not in gone:
                gone.append(x)
                os.unlink(world.fs(x.path))
        new = [x for x in w.docs if x not in gone]
        if not new:
            return {'evals': 0, 'nontrivial': False}
        before = tree(w.base, skip)
        r, n = frun(case['opt'], 0)
        if r.rc:
            raise Violation('indexing failed: %r' % r)
        if full is None:
            os.unlink(w.db)
        else:
            with open(w.db, 'wb') as g:
                g.write(full)
        if n:
            hit = True
            at = 1 + int(n * case['x'])
            r, _ = frun(case['opt'], at)
            what = 'after an indexing run with call %d of %d of class %s failing (%s)' % (at, n, case['cls'], errno.errorcode[case['err']])
            evals += 1
            locked('an indexing run with a failing call')
            if tree(w.base, skip) != before:
                raise Violation('%s the mail is changed' % what)
            if r.rc and not r.err.strip():
                raise Violation('%s: it fails without a message: %r' % (what, r))
            silent = r.rc == 0 and not r.err.strip()
            poss, ref = {'old', 'new'}, 0
            for q in case['qs']:
                r2 = run(['-r'] + [simple.show(a) for a in q])
                evals += 1
                if r2.rc > 1 and r2.err.strip() and not r2.out.strip():
                    ref += 1
                    continue
                ok = {m for m, docs in (('old', old), ('new', new)) if state(r2, q, docs)}
                if full is None:
                    ok.discard('old')
                poss &= ok
                if r.rc and not poss or ref:
                    raise Violation('%s, search %r fits neither the old nor the new index: %r (the run: %r)' % (what, [simple.show(a) for a in q], r2, r))
                got = set(world.parse_raw(r2.out))
                can = {d.key for d in old + new if simple.match(q, d)}
                if got - can and not any(i['n'] for a in q if 'or' in a for c in a['or'] for i in c):
                    raise Violation('%s, search %r lists %r' % (what, [simple.show(a) for a in q], sorted(got - can)[:3]))
            if silent and case['cls'] not in SKIP and (ref or 'new' not in poss):
                raise Violation('%s, which says nothing and reports success, searches do not see the new index' % what)
            labels.add('refused' if ref else 'failed' if r.rc else 'silent' if silent else 'warned')
            r3 = run(case['opt'])
            evals += 1
            locked('indexing')
            if r3.rc == 0:
                whole(new, what + ', and one without')
            elif not ref:
                raise Violation('%s, indexing fails: %r' % (what, r3))
            else:
                os.unlink(w.db)
                run([])
                whole(new, what + ', and indexing anew')
    else:
        q = [simple.show(a) for a in case['qs'][-1]]
        if case['what'] == 'dump':
            args = ['-d']
        else:
            args = case['o'] + q
        before = tree(w.base, skip)

        def result(r):
            t = tree(mf) if os.path.isdir(mf) else {}
            if os.path.isfile(mf):
                with open(mf, 'rb') as f:
                    t = {b'': f.read()}
            elif t:
                t = sorted((os.path.relpath(os.path.dirname(p), os.fsencode(mf)), v if v[0] != 'file' else (v[0], v[3])) for p, v in t.items())
            return r.rc, r.out, t
        run(args)
        if os.path.exists(mf) and '-a' not in args and case['x'] * 10 % 1 < .5:
            run(['-a', 'a:fig/b:apple'])     # something to be cleared away
        keep = sb.path('keep')
        if os.path.isdir(mf):
            shutil.copytree(mf, keep, symlinks=True)
        elif os.path.exists(mf):
            shutil.copy2(mf, keep)

        def back():
            if os.path.isdir(mf):
                shutil.rmtree(mf)
            elif os.path.lexists(mf):
                os.unlink(mf)
            if os.path.isdir(keep):
                shutil.copytree(keep, mf, symlinks=True)
            elif os.path.exists(keep):
                shutil.copy2(keep, mf)
        r, n = frun(args, 0)
        want = result(r)
        if r.rc not in (0, 1):
            raise Violation('%r failed: %r' % (args, r))
        if n:
            hit = True
            at = 1 + int(n * case['x'])
            back()
            r, _ = frun(args, at)
            what = '%r with call %d of %d of class %s failing (%s)' % (args, at, n, case['cls'], errno.errorcode[case['err']])
            evals += 1
            locked(what)
            if tree(w.base, skip) != before or database() != full:
                raise Violation('%s changed the mail or the database' % what)
            if r.rc > 1 and not r.err.strip():
                raise Violation('%s fails without a message: %r' % (what, r))
            if r.rc <= 1 and not r.err.strip() and case['cls'] not in SKIP and result(r) != want:
                raise Violation('%s says nothing, but leaves %r instead of %r' % (what, result(r), want))
            labels.add('failed' if r.rc > 1 else 'silent' if not r.err.strip() else 'warned')
            if '-a' in args:
                back()
            r = run(args)
            if result(r) != want:
                raise Violation('after %s, without the fault: %r instead of %r' % (what, result(r), want))
            evals += 1
    return {'evals': evals, 'nontrivial': hit, 'labels': labels,
            'sample': {'what': case['what'], 'cls': case['cls'], 'err': case['err'], 'x': case['x']}}


def valid(case):
    def good(q):
        return q and all(('or' not in a) or (a['or'] and all(c and all(i['w'] for i in c) for c in a['or'])) for a in q)
    return all(f['msgs'] for f in case['folders']) and any(f['kind'] == 'mh' for f in case['folders']) and case['qs'] and all(good(q) for q in case['qs'])
