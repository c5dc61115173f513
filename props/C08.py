"""p: matches the stored location, literally and case-sensitively."""
import os, re
import world, simple, mail
from C05 import approx
from core import Violation

ID = 'C08'
COUNT = {'quick': 3000, 'thorough': 60000}
BUDGET = {'quick': 60, 'thorough': 1500}
RULE = ('case = nested folders with similar, mixed-case and non-ASCII names in every storage format and 25 path queries (fragments '
        'cut from real paths or near misses, alone, with OR/AND/NOT, with other field letters, with word terms, with -t off, and '
        'approximate text=N); the oracle tests the substring on the full path. Non-trivial (per distinct query): a proper '
        'non-empty subset matched.')
FROZEN = ('kind', 'name', 'fmt', 'z', 'folders')
COMP = ['Mail', 'mail', 'MAIL', 'inbox', 'Inbox', 'inbox2', 'in', 'box', 'a', 'aa', 'aaa', 'ab', 'a.b', 'a-b', 'x y', 'lists',
        'lists.old', 'list', 'caf\xe9', '\xff\xfe', 'new', 'cur', 'work', 'Work', 'b', 'q_1', '2001', '2001-12', 'z+z', 'o=1']


def gen(r, k, tier):
    folders = []
    used = set()
    for i in range(r.randint(1, 6)):
        comps = [r.choice(COMP) for _ in range(r.randint(1, 3))]
        name = '/'.join(comps)
        # a folder is never inside or equal to another one
        if any(u == name or u.startswith(name + '/') or name.startswith(u + '/') for u in used):
            continue
        used.add(name)
        kind = r.choice(['maildir', 'mh', 'mbox'])
        f = {'kind': kind, 'name': name, 'msgs': []}
        if kind == 'mbox':
            f['fmt'] = 'mbox'
            f['z'] = r.choice(['', '', 'gz'])
        for _ in range(r.randint(1, 4)):
            e = simple.smsg(r)
            if kind == 'maildir':
                e['sub'] = r.choice(['new', 'cur'])
                if r.random() < .5:
                    e['fname'] = '%d.%s%d' % (r.randrange(10 ** 6), r.choice(COMP), len(f['msgs']))
            f['msgs'].append(e)
        folders.append(f)
    qs = []
    paths = ['mail/' + f['name'] + {'maildir': r.choice(['/new/1', '/cur/17', ':2,'][:2]), 'mh': '/1', 'mbox': ''}[f['kind']]
             for f in folders]
    for _ in range(25):
        def frag():
            p = r.choice(paths)
            i = r.randrange(len(p))
            s = p[i:i + r.choice([1, 2, 3, 4, 6, 9, 20])]
            if r.random() < .15:
                s = ''.join(x.swapcase() if x < '\x80' else x for x in s)
            if r.random() < .1:
                s = s + r.choice('axz1')
            s = r.choice([x for x in s.split('/') if x] or ['mail'])
            s = s.replace(',', '').lstrip('~^-')[:31]
            s = re.sub('=[0-9]*$', '', s).replace('=', '') if r.random() < .7 else re.sub('=[0-9].*$|=$', '', s)
            return s or 'mail'
        c = r.random()
        if c < .15:
            q = {'ap': frag().replace('=', '') or 'x', 'n': r.choice([0, 1, 1, 2, 2, 3, 4])}
        else:
            nor = r.choice([1, 1, 1, 2, 3])
            ors = []
            for _ in range(nor):
                ors.append([{'n': r.random() < .25, 'w': frag(), 's': None, 'a': False} for _ in range(r.choice([1, 1, 2]))])
            multi = nor > 1 or any(len(x) > 1 for x in ors)
            if multi:
                for x in ors:
                    for i in x:
                        i['w'] = i['w'].replace(' ', '') or 'mail'
            q = {'k': r.choice(['p', 'p', 'p', 'p', 'ps', 'bp', 'pf']), 'or': ors}
            if r.random() < .25:
                q = [q, simple.rarg(r, paths, terms='w')]
        qs.append(q)
    return {'folders': folders, 'q': qs}


def show(q):
    if isinstance(q, list):
        return [simple.show(a) for a in q]
    if 'ap' in q:
        return ['p:%s=%s' % (q['ap'], q['n'] or '')]
    return [simple.show(q)]


def match(q, d):
    if isinstance(q, list):
        return all(simple.meaning(a, d) for a in q)
    if 'ap' in q:
        return approx(q['ap'], d.path, q['n'], False)
    return simple.meaning(q, d)


def check(case, sb):
    w = world.World(sb, case['folders']).build()
    w.index()
    keys = set()
    for q in case['q']:
        args = show(q)
        got = w.search(args)
        want = [d.key for d in w.docs if match(q, d)]
        world.compare(got, want, 'search %r' % (args,))
        if 0 < len(want) < len(w.docs):
            keys.add((tuple(args), len(want), len(w.docs)))
    return {'evals': len(case['q']), 'nontrivial': bool(keys), 'keys': keys,
            'labels': {f['kind'] for f in case['folders']},
            'sample': {'queries': [' '.join(show(q)) for q in case['q'][:5]], 'folders': [f['name'] for f in case['folders']]}}


def valid(case):
    def good(a):
        return 'or' in a and a['or'] and all(c and all(i['w'] for i in c) for c in a['or'])
    return bool(case['folders']) and all(f['msgs'] for f in case['folders']) and all(
        (isinstance(q, list) and q and all(good(a) for a in q)) or (isinstance(q, dict) and (q.get('ap') or good(q)))
        for q in case['q'])
