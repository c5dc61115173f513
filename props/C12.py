"""Results are a function of the mail: not of hash key, order, batching, options or message numbers."""
import os, random
import mail, simple, world
from core import Violation

ID = 'C12'
COUNT = {'quick': 1200, 'thorough': 16000}
BUDGET = {'quick': 80, 'thorough': 1500}
RULE = ('meta case = one store (2-250 messages), 10 queries, and 4 databases of it built with different hash keys, folder orders, '
        'directive layouts, splits into runs and options (-Q, -F, -v, nochecks); scale case = 300-40000 messages with words placed '
        'at chosen numbers, gaps of 1, 127..129, 16383..16385 and more, or 2000-60000 distinct words, optionally with deletions '
        'and a purge in between; boxes case = 130-700 small mailboxes, some vanishing and coming back; the model predicts every result. Non-trivial (per distinct query, database variant): proper '
        'non-empty subset; per word placement with a gap above 127.')
FROZEN = ('kind', 'name', 'fmt', 'z', 't')


def gen(r, k, tier):
    if k % 10 == 0:
        return gen_scale(r, k, tier)
    if k % 20 == 1:
        return gen_boxes(r)
    n = r.choice([4, 20, 60]) if k % 12 else 250
    folders = simple.sfolders(r, n)
    names = ['mail/' + f['name'] for f in folders]
    if r.random() < .3:
        # many distinct words
        for f in folders:
            for e in f['msgs'][:2]:
                e['m']['body']['text'] = ' '.join('w%x' % r.randrange(1 << 24) for _ in range(r.choice([50, 300, 1500]))) + ' apple\n'
    vs = []
    for _ in range(4):
        order = list(range(len(folders)))
        r.shuffle(order)
        vs.append({'key': r.choice([0, 1, 2, 0xffffffff, 0x80000000, r.randrange(1 << 32)]), 'order': order,
                   'lines': r.random() < .5, 'split': r.choice([0, 0, 1, 2]), 'opt': r.choice([[], ['-Q'], ['-F'], ['-v'], ['-Q', '-F', '-v']]),
                   'nochecks': r.random() < .2, 'seed': r.randrange(1 << 30), 'sopt': r.choice([[], [], ['-v'], ['-Q']])})
    return {'t': 'meta', 'folders': folders, 'q': [simple.rquery(r, names) for _ in range(10)], 'v': vs}


def gen_scale(r, k, tier):
    big = (k % 100 == 0) or (tier == 'thorough' and k % 30 == 0)
    n = r.choice([17000, 33000, 66500, 66500]) if big else r.choice([300, 700, 3000])
    words = {}
    for i in range(10):
        gap = r.choice([1, 2, 126, 127, 128, 129, 130, 255, 256, 300] + ([16382, 16383, 16384, 16385, 16386, 16511, 16512, 32767, 32768] if big else []) +
                       ([65534, 65535, 65536, 65537, 66000] * 2 if n > 66000 else []))
        p = r.choice([0, 0, 1, 127, 128, n - 1, r.randrange(n)])
        ps = []
        while p < n and len(ps) < r.choice([2, 3, 50]):
            ps.append(p)
            p += gap
            if r.random() < .3:
                gap = r.choice([1, 127, 128, 129] + ([16383, 16384] if big else []))
        words['k%dz' % i] = ps
    return {'t': 'scale', 'n': n, 'words': words, 'field': r.choice('sbtcf'), 'key': r.randrange(1 << 32),
            'vocab': r.choice([0, 0, 3]), 'kill': r.choice([None, None, [r.randrange(n // 2), r.randrange(n)]]),
            'split': r.choice([None, r.randrange(1, n)]), 'z': r.choice(['', '', 'gz'])}


def gen_boxes(r):
    n = r.choice([130, 260, 300, 700])
    rounds = [{'n': n, 'gone': [], 'opt': []}]
    for _ in range(r.choice([0, 1, 2, 3])):
        n += r.choice([0, 0, 1, 40])
        rounds.append({'n': n, 'gone': sorted(r.sample(range(n), r.choice([0, 1, 5, n // 2]))), 'opt': r.choice([[], [], ['-p'], ['-Q']])})
    return {'t': 'boxes', 'rounds': rounds, 'per': r.choice([1, 1, 3]), 'glob': r.random() < .5, 'key': r.randrange(1 << 32),
            'probe': r.randrange(1 << 30), 'mmdf': r.random() < .3}


def check_boxes(case, sb):
    """Very many mailboxes of a few messages each, some of which go and come back."""
    base = sb.path('mail')
    os.mkdir(base)
    r = random.Random(case['probe'])
    per = case['per']
    evals = 0
    keys = set()
    lost = set()
    for ri, rd in enumerate(case['rounds']):
        n = rd['n']
        gone = set(rd['gone'])
        lost |= gone
        pos = {}
        for i in range(n):
            p = os.path.join(base, 'b%d' % i)
            data, spans = world.mbox_bytes([b'Subject: box%d msg%dx%d\nMessage-ID: <%d.%d@x>\n\nbody\n' % (i, i, j, i, j) for j in range(per)],
                                           'mmdf' if case['mmdf'] else 'mbox', i)
            for j, (a, b) in enumerate(spans):
                pos[i, j] = ('mbox', p, a, b)
            if i in gone:
                if os.path.exists(p):
                    os.unlink(p)
            elif not os.path.exists(p):
                with open(p, 'wb') as f:
                    f.write(data)
        alive = [i for i in range(n) if i not in gone]
        if not alive:
            break
        with open(sb.path('rc'), 'w') as fh:
            fh.write('base=%s\ndatabase=%s\nmformat=raw\nmfolder=mf\n' % (base, sb.path('db')))
            if case['glob']:
                fh.write('mbox=b*\n')
            else:
                for i in range(0, n, 50):
                    fh.write('mbox=%s\n' % ':'.join('b%d' % j for j in range(i, min(n, i + 50))))
        res = sb.run(['-f', sb.path('rc'), '--force-hash-key-new-database', str(case['key'])] + rd['opt'], timeout=300)
        if res.rc:
            raise Violation('round %d: indexing failed: %r' % (ri, res))

        def look(args, want):
            res = sb.run(['-f', sb.path('rc'), '-r'] + args)
            world.compare(world.parse_raw(res.out), want, 'round %d (%d mailboxes): search %r' % (ri, n, args))
            if want and ri:
                keys.add((ri, n, per, tuple(args)))
        look(['p:mail'], [pos[i, j] for i in alive for j in range(per)])
        probe = set(r.sample(alive, min(4, len(alive)))) | {alive[0], alive[-1]} | set(r.sample(range(n), 2))
        for i in sorted(probe):
            ok = i not in gone
            look(['s:box%d' % i], [pos[i, j] for j in range(per)] if ok else [])
            look(['s:msg%dx%d' % (i, per - 1)], [pos[i, per - 1]] if ok else [])
            look(['p:b%d' % i, 's:msg%dx0' % i], [pos[i, 0]] if ok else [])
            look(['m:%d.0@x' % i], [pos[i, 0]] if ok else [])
            evals += 4
        # what is delivered comes from the right mailbox
        i = r.choice(alive)
        mf = sb.path('out%d' % ri)
        with open(sb.path('rc')) as fh:
            rc = fh.read().replace('mformat=raw', 'mformat=mbox')
        with open(sb.path('rc2'), 'w') as fh:
            fh.write(rc)
        res = sb.run(['-f', sb.path('rc2'), '-o', mf, 's:msg%dx%d' % (i, per - 1)])
        if not os.path.exists(mf) or open(mf, 'rb').read().count(b'msg%dx%d\n' % (i, per - 1)) != 1:
            raise Violation('round %d: the message of mailbox %d is not delivered: %r' % (ri, i, res))
    return {'evals': evals, 'nontrivial': bool(keys), 'keys': keys, 'labels': {'boxes'}, 'sample': {'rounds': [x['n'] for x in case['rounds']]}}


HDR = {'s': 'Subject', 't': 'To', 'c': 'Cc', 'f': 'From'}


def check_scale(case, sb):
    base = sb.path('mail')
    os.mkdir(base)
    n = case['n']
    at = {}
    for w, ps in case['words'].items():
        for p in ps:
            at.setdefault(p, []).append(w)
    f = case['field']
    r = random.Random(n)
    msgs = []
    for i in range(n):
        ws = ' '.join(at.get(i, ()))
        extra = ' '.join('v%x' % r.randrange(1 << 20) for _ in range(case['vocab']))
        if f == 'b':
            m = 'From: x\nSubject: id%d\n\n%s %s\n\n' % (i, ws, extra)
        else:
            m = 'X-Y: x\nMessage-ID: <m%d@x>\n%s: %s z\n\nid%d %s\n\n' % (i, HDR[f], ws, i, extra)
        msgs.append('From bob@example.com Thu Jan  1 00:00:00 1970\n' + m)
    z = case['z']
    box = os.path.join(base, 'box' + ('.' + z if z else ''))
    with open(sb.path('rc'), 'w') as fh:
        fh.write('base=%s\ndatabase=%s\nmbox=%s\nmformat=raw\nmfolder=mf\n' % (base, sb.path('db'), os.path.basename(box)))

    def run(args, want=(0,)):
        res = sb.run(['-f', sb.path('rc')] + args, timeout=300)
        if res.rc not in want:
            raise Violation('run %r failed: %r' % (args, res))
        return res

    def put(ms, mt):
        data = ''.join(ms).encode()
        with open(box, 'wb') as fh:
            fh.write(world.compress(z, data))
        os.utime(box, (mt, mt))
    opt = ['--force-hash-key-new-database', str(case['key'])]
    alive = list(range(n))
    if case['split']:
        put(msgs[:case['split']], 1000000000)
        run(opt)
    put(msgs, 1000000010)
    run(opt)

    def verify(alive):
        starts = {}
        o = 0
        for i in alive:
            starts[o + 46] = i
            o += len(msgs[i])
        gaps = set()
        pos = {i: j for j, i in enumerate(alive)}
        for w, ps in case['words'].items():
            res = run(['-r', '%s:%s' % (f, w)], (0, 1))
            got = []
            for key in world.parse_raw(res.out):
                if key[0] != 'mbox' or key[2] not in starts:
                    raise Violation('%s:%s lists %r, which is no message' % (f, w, key))
                got.append(starts[key[2]])
            want = [p for p in ps if p in pos]
            if sorted(got) != want:
                raise Violation('%s:%s: %d of %d messages; missing=%r unexpected=%r' % (
                    f, w, len(got), len(want), sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5]))
            for a, b in zip(want, want[1:]):
                if b - a > 127:
                    gaps.add((b - a, a))
        for i in (0, len(alive) // 2, len(alive) - 1):
            res = run(['-r', ('s:' if f == 'b' else 'b:') + 'id%d' % alive[i]], (0, 1))
            got = [starts.get(key[2]) for key in world.parse_raw(res.out)]
            if got != [alive[i]]:
                raise Violation('message number %d is found as %r' % (alive[i], got))
        return gaps
    keys = verify(alive)
    if case['kill']:
        a, b = sorted(case['kill'])
        alive = [i for i in alive if not a <= i < b]
        if alive:
            put([msgs[i] for i in alive], 1000000020)
            run([])
            verify(alive)
            run(['-p'])
            keys |= verify(alive)
    return {'evals': len(case['words']) + 3, 'nontrivial': bool(keys), 'keys': keys,
            'labels': {'scale', 'n>16384' if n > 16384 else 'n<=16384'},
            'sample': {'n': n, 'gaps': sorted(keys)[:6]}}


def check(case, sb):
    if case['t'] == 'scale':
        return check_scale(case, sb)
    if case['t'] == 'boxes':
        return check_boxes(case, sb)
    keys = set()
    w = None
    for vi, v in enumerate(case['v']):
        for x in os.listdir(sb.dir):
            p = sb.path(x)
            if x == 'mail' and v['split']:
                import core
                core.rmtree(p)
            elif x.startswith('db'):
                os.unlink(p)
        folders = case['folders']
        r = random.Random(v['seed'])
        opts = list(v['opt'])
        key = ['--force-hash-key-new-database', str(v['key'])]

        def rc(w, sub=None):
            out = ['base=' + w.base, 'database=' + w.db, 'mfolder=mfolder', 'mformat=raw']
            lists = {'maildir': [], 'mh': [], 'mbox': []}
            for i in v['order']:
                f = folders[i]
                lists[f['kind']].append((f['name'] + ('.' + f['z'] if f.get('z') else '')).replace(':', '\\:'))
            lines = []
            for kind, ns in lists.items():
                if v['lines']:
                    lines += ['%s=%s' % (kind, x) for x in ns]
                elif ns:
                    lines.append('%s=%s' % (kind, ':'.join(ns)))
            r.shuffle(lines)
            if v['nochecks']:
                lines.append('nochecks')
            with open(w.rc, 'w') as fh:
                fh.write('\n'.join(out + lines) + '\n')
        if v['split']:
            # the store appears folder by folder or message by message
            for step in range(v['split']):
                part = []
                for i, f in enumerate(folders):
                    if f['kind'] == 'mbox':
                        cut = len(f['msgs']) * (step + 1) // (v['split'] + 1)
                        if cut:
                            part.append(dict(f, msgs=f['msgs'][:cut], mt=1000000000 + step))
                    else:
                        part.append(dict(f, msgs=[dict(e, mt=1000000000) for e in f['msgs'][:len(f['msgs']) * (step + 1) // (v['split'] + 1)]]))
                w = world.World(sb, part).build()
                rc(w)
                if w.docs:
                    w.index(*(opts + key))
        w = world.World(sb, [dict(f, mt=1000000500, msgs=[dict(e, mt=1000000000) for e in f['msgs']]) for f in folders]).build()
        rc(w)
        w.index(*(opts + key))
        for q in case['q']:
            args = [simple.show(a) for a in q]
            res = w.mairix(['-r'] + v['sopt'] + args)
            got = [x for x in world.parse_raw(res.out) if x[0] == 'mbox' or x[1].startswith('/')]
            want = [d.key for d in w.docs if simple.match(q, d)]
            world.compare(got, want, 'search %r (hash key %d, order %r, options %r)' % (args, v['key'], v['order'], opts))
            if 0 < len(want) < len(w.docs):
                keys.add((tuple(args), vi, len(want)))
    return {'evals': len(case['q']) * len(case['v']), 'nontrivial': bool(keys), 'keys': keys, 'labels': {'meta'},
            'sample': {'variants': [{k: x for k, x in v.items() if k != 'seed'} for v in case['v']], 'messages': len(w.docs)}}


def valid(case):
    if case['t'] == 'boxes':
        return case['rounds'] and case['per'] and all(g < rd['n'] for rd in case['rounds'] for g in rd['gone'])
    if case['t'] == 'scale':
        return case['n'] > 0 and case['field'] in HDR or case['field'] == 'b'
    n = len(case['folders'])
    return n and all(f['msgs'] for f in case['folders']) and all(sorted(v['order']) == list(range(n)) for v in case['v'])
