"""z: and F: select exactly by size in bytes and by indexed flags."""
import world
from core import Violation

ID = 'C07'
COUNT = {'quick': 2600, 'thorough': 60000}
BUDGET = {'quick': 60, 'thorough': 1500}
RULE = ('case = store of 2-25 messages of chosen exact sizes (1 byte steps around each bound, up to 2 MB) and chosen flags in '
        'every storage format, plus 24 z:/F: terms and conjunctions of them; the evaluator knows size and flags by '
        'construction. Non-trivial (per distinct query): it matches a proper non-empty subset.')
FROZEN = ('kind', 'name', 'fmt', 'z', 'folders')


def rsize(r, anchors):
    c = r.random()
    if anchors and c < .5:
        return max(60, r.choice(anchors) + r.choice([-2, -1, 0, 0, 1, 2]))
    if c < .7:
        return r.choice([1, 2, 3, 10]) * 1024 + r.choice([-1, 0, 1])
    if c < .74:
        return r.choice([1 << 20, 2 << 20, 1 << 16]) + r.choice([-1, 0, 1])
    return r.randint(60, 3000)


def gen(r, k, tier):
    anchors = [r.randint(60, 5000) for _ in range(3)]
    folders = []
    for i in range(r.choice([1, 2, 3])):
        kind = r.choice(['maildir', 'maildir', 'mh', 'mbox', 'mbox'])
        f = {'kind': kind, 'name': world.fname(r, kind, i), 'msgs': []}
        if kind == 'mbox':
            f['fmt'] = r.choice(['mbox', 'mbox', 'mmdf'])
            f['z'] = r.choice(['', '', '', 'gz', 'bz2', 'xz', 'GZ'])
            f['lb'] = True
        for j in range(r.randint(1, 10)):
            e = {'size': rsize(r, anchors), 'hv': r.randrange(64)}
            if kind == 'maildir':
                if r.random() < .06:
                    e['bad'] = 1    # no mail at all, but it has a name and a size
                e['sub'] = r.choice(['new', 'cur', 'cur'])
                if r.random() < .85:
                    fl = [x for x in 'DFPRSTab' if r.random() < .4]
                    if r.random() < .3:
                        r.shuffle(fl)
                    e['suffix'] = ':2,' + ''.join(fl)
                    e['want'] = ''.join(fl)
                else:
                    e['suffix'] = r.choice(['', ',S=100', '.FRS', ':1,FRS', ',U=2:2,'])
                    e['want'] = ''
            elif kind == 'mbox':
                st = r.choice(['', 'R', 'RO', 'O', 'OR', 'NULL'])
                x = ''.join(c for c in 'ADFT' if r.random() < .4)
                e['st'], e['x'] = ('' if st == 'NULL' else st), x
                e['mflags'] = ('S' if 'R' in st else '') + ('R' if 'A' in x else '') + ('F' if 'F' in x else '')
            f['msgs'].append(e)
        folders.append(f)
    qs = []
    for _ in range(24):
        qs.append([rterm(r, anchors, folders) for _ in range(r.choice([1, 1, 1, 2]))])
    return {'folders': folders, 'q': qs}


def rbound(r, anchors, folders):
    c = r.random()
    sizes = [e['size'] for f in folders for e in f['msgs']]
    if c < .6:
        n = r.choice(sizes) + r.choice([-1, 0, 1])
    elif c < .7:
        n = r.choice(anchors)
    elif c < .85:
        return [r.choice([0, 1, 2, 3, 10, 64]), r.choice('kK')]
    elif c < .9:
        return [r.choice([0, 1, 2]), r.choice('mM')]
    else:
        n = r.choice([0, 1, 100, 999999999])
    return [n, '']


def rterm(r, anchors, folders):
    if r.random() < .55:
        a, b = rbound(r, anchors, folders), rbound(r, anchors, folders)
        return {'z': r.choice([[a, b], [a, None], [None, b], [b, a], ['', b]])}
    fl = r.sample('srf', r.randint(1, 3))
    return {'F': ''.join(r.choice(['', '-']) + (x.upper() if r.random() < .4 else x) for x in fl)}


MULT = {'': 1, 'k': 1024, 'K': 1024, 'm': 1 << 20, 'M': 1 << 20}


def show(t):
    if 'F' in t:
        return 'F:' + t['F']
    a, b = t['z']
    f = lambda x: '%d%s' % tuple(x) if x else ''
    if a == '':
        return 'z:' + f(b)
    return 'z:%s-%s' % (f(a), f(b))


def match(t, d):
    if 'F' in t:
        neg = False
        for ch in t['F']:
            if ch == '-':
                neg = True
                continue
            if (ch.upper() in d.flags) == neg:
                return False
            neg = False
        return True
    a, b = [x and x[0] * MULT[x[1]] if x else None for x in t['z']]
    if a is not None and b is not None and a > b:
        a, b = b, a
    return (a is None or d.size > a) and (b is None or d.size < b)


def make(e, inbox):
    hv = e.get('hv', 0)
    name = [lambda s: s, str.lower, str.upper][hv % 3]
    hs = ['Subject: size', 'From: a@b.c']
    if e.get('st'):
        hs.insert(hv % 3, name('Status') + [': ', ':', ':\t'][hv * 7 // 4 % 3] + e['st'])
    if e.get('x'):
        hs.insert((hv >> 2) % 3, name('X-Status') + [': ', ':', ':  '][hv * 5 // 8 % 3] + e['x'])
    if hv & 16:
        hs.append('X-Other-Status: RAF')
    h = '\n'.join(hs) + '\n'
    if e.get('bad'):
        h = 'this is not a header\n'
    body = '\n'
    if hv & 32:
        body = '\nStatus: RAF\nX-Status: RAF\n'
    pad = e['size'] - len(h) - len(body)
    if inbox:
        # an mbox message counts its terminating blank line, an MMDF one does not
        pad -= inbox == 'mbox'
    if pad > 0:
        body += ('x' * 60 + '\n') * (pad // 61) + 'y' * (pad % 61)
    if inbox and not (h + body).endswith('\n'):
        body = body[:-1] + '\n'
    return h + body


def check(case, sb):
    folders = [dict(f, msgs=[dict(e, raw=make(e, f['kind'] == 'mbox' and f['fmt'])) for e in f['msgs']]) for f in case['folders']]
    w = world.World(sb, folders).build()
    w.index()
    keys = set()
    for q in case['q']:
        args = [show(t) for t in q]
        got = w.search(args)
        want = [d.key for d in w.docs if all(match(t, d) for t in q)]
        world.compare(got, want, 'search %r' % (args,))
        if 0 < len(want) < len(w.docs):
            keys.add((tuple(args), len(want), len(w.docs)))
    return {'evals': len(case['q']), 'nontrivial': bool(keys), 'keys': keys,
            'labels': {f['kind'] for f in case['folders']},
            'sample': {'queries': [' '.join(show(t) for t in q) for q in case['q'][:5]],
                       'sizes': [d.size for d in w.docs], 'flags': [''.join(sorted(d.flags)) for d in w.docs]}}


def valid(case):
    return bool(case['folders']) and all(f['msgs'] for f in case['folders']) and all(
        q and all(('F' not in t) or t['F'].strip('-') for t in q) and all(
            'z' not in t or (len(t['z']) == 2 and all(x in (None, '') or len(x) == 2 for x in t['z'])
                             and any(t['z'])) for t in q) for q in case['q'])
