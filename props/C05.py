"""Substring, approximate and left-anchored word matching."""
import mail, world
from core import Violation

ID = 'C05'
COUNT = {'quick': 4000, 'thorough': 80000}
BUDGET = {'quick': 90, 'thorough': 1500}
RULE = ('case = 4-14 messages whose words are mutations of a few base words over a small alphabet, and 25 queries '
        'text=N / ^text=N; the oracle is a textbook edit-distance table (Sellers). Anchored queries with N>=1 are held '
        'to a sandwich: everything an anchored match allows must be found, nothing an unanchored match forbids may be. '
        'Non-trivial (per distinct pattern and error count): a proper non-empty subset matched.')
FROZEN = ('f',)
ASSUMPTIONS = ['^text=N with N>=1 is only required to lie between the anchored and the unanchored reading (the test '
               'suite pins a result that the strict anchored reading would reject)']


def mutate(r, w, n, alpha):
    w = list(w)
    for _ in range(n):
        c = r.random()
        i = r.randrange(len(w) + 1)
        if c < .33:
            w.insert(i, r.choice(alpha))
        elif w and c < .66:
            w[min(i, len(w) - 1)] = r.choice(alpha)
        elif len(w) > 1:
            del w[min(i, len(w) - 1)]
    return ''.join(w)


def gen(r, k, tier):
    alpha = r.choice(['ab', 'abc', 'abc1_', 'abcdefghij0123_'])
    bases = [''.join(r.choice(alpha) for _ in range(r.choice([2, 3, 5, 8, 12, 20, 31, 33, 60]))) for _ in range(r.randint(1, 4))]
    msgs = []
    for _ in range(r.randint(4, 14)):
        m = {'s': [], 'b': [], 't': []}
        for _ in range(r.choice([1, 1, 2, 3])):
            w = r.choice(bases)
            c = r.random()
            if c < .3:
                w = w[:r.randint(1, len(w))]
            elif c < .5:
                w = w[-r.randint(1, len(w)):]
            w = mutate(r, w, r.choice([0, 0, 1, 2, 4]), alpha)
            f = r.choice('ssbt')
            m[f].append(w)
        msgs.append(m)
    qs = []
    for _ in range(25):
        w = r.choice(bases)
        c = r.random()
        if c < .7:
            i = r.randrange(len(w))
            w = w[i:i + r.choice([1, 2, 3, 5, 8, 16, 31])]
        w = mutate(r, w, r.choice([0, 0, 1, 2, 3]), alpha)[:r.choice([31, 31, 31, 8, 4])]
        if r.random() < .03:
            # the longest pattern there can be, and nothing like it
            qs.append({'f': r.choice('ssbt'), 'w': (r.choice('zq') * 31)[:r.choice([31, 31, 30])], 'n': r.choice([29, 30, 31, 32, 64]), 'a': False})
            continue
        qs.append({'f': r.choice('ssbt'), 'w': mail.casemix(r, w), 'n': r.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 7, max(len(w) - 1, 0), len(w), r.randint(8, 40)]),
                   'a': r.random() < .25})
    return {'msgs': msgs, 'qs': qs}


def approx(p, t, n, anchored):
    """Is p within n edits of some substring (prefix if anchored) of t?"""
    m = len(p)
    if m <= n:
        return True
    col = list(range(m + 1))
    for j, ch in enumerate(t):
        prev = col[0]
        col[0] = j + 1 if anchored else 0
        for i in range(1, m + 1):
            cur = col[i]
            v = prev if p[i - 1] == ch else prev + 1
            if cur + 1 < v:
                v = cur + 1
            if col[i - 1] + 1 < v:
                v = col[i - 1] + 1
            col[i] = v
            prev = cur
        if col[m] <= n:
            return True
    return False


def check(case, sb):
    ent = []
    for i, m in enumerate(case['msgs']):
        raw = 'From: x\n'
        if m['t']:
            raw += 'To: ' + ' '.join(m['t']) + '\n'
        if m['s']:
            raw += 'Subject: ' + ' '.join(m['s']) + '\n'
        ent.append({'raw': raw + '\n' + ' '.join(m['b']) + '\n'})
    w = world.World(sb, [{'kind': 'mh', 'name': 'f', 'msgs': ent}]).build()
    w.index()
    keys = [d.key for d in w.docs]
    seen = set()
    labels = set()
    for q in case['qs']:
        arg = '%s:%s%s=%s' % (q['f'], '^' if q['a'] else '', q['w'], q['n'] or '')
        got = w.search([arg])
        lw = q['w'].lower()
        lo = [k for k, m in zip(keys, case['msgs']) if any(approx(lw, t, q['n'], q['a']) for t in m[q['f']])]
        if q['a'] and q['n']:
            hi = [k for k, m in zip(keys, case['msgs']) if any(approx(lw, t, q['n'], False) for t in m[q['f']])]
            if set(lo) - set(got) or set(got) - set(hi) or len(set(got)) != len(got):
                raise Violation('search %r: wrong result; missing=%r unexpected=%r' % (
                    arg, sorted(set(lo) - set(got)), sorted(set(got) - set(hi))))
        else:
            world.compare(got, lo, 'search %r' % arg)
        if 0 < len(lo) < len(keys):
            seen.add((arg.lower(), tuple(sorted(' '.join(m[q['f']]) for m in case['msgs']))))
        labels.add('n=%d%s' % (q['n'], 'a' if q['a'] else ''))
    return {'evals': len(case['qs']), 'nontrivial': bool(seen), 'keys': seen, 'labels': labels,
            'sample': {'msgs': case['msgs'][:4], 'qs': case['qs'][:4]}}


def valid(case):
    return bool(case['msgs']) and all(0 < len(q['w']) <= 31 and 0 <= q['n'] < 100 for q in case['qs']) and \
        all(x for m in case['msgs'] for f in m.values() for x in f)
