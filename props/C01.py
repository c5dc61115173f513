"""Word searches return exactly the messages containing the word in the field."""
import mail, world
from core import Violation

ID = 'C01'
BUILDS = ['plain']
COUNT = {'quick': 1600, 'thorough': 40000}
BUDGET = {'quick': 90, 'thorough': 1500}
RULE = ('case = generated mail store (maildir/MH/mbox/MMDF, compressed or not) of structured messages plus ~40 '
        'one-word queries over random field selectors; the oracle evaluates each query on the generated structure. '
        'Non-trivial: the corpus has at least 2 messages and at least one query matched a proper non-empty subset.')
FROZEN = ('k', 'sub', 'e', 'cs', 'cte', 'kind', 'name', 'fmt', 'z', 'v', 'f')


def gen(r, k, tier):
    depth = r.choice([0, 0, 1, 2, 3])
    nmax = r.choice([3, 8, 15]) if k % 50 else 150
    folders = world.rfolders(r, lambda r: mail.rmsg(r, depth), nmax)
    return {'folders': folders, 'qs': r.randrange(1 << 30), 'nq': 40}


def queries(case, docs):
    import random
    r = random.Random(case['qs'])
    toks = {f: world.all_tokens(docs, f) for f in 'bstcf'}
    every = world.all_tokens(docs)
    out = []
    for _ in range(case['nq']):
        keys = r.choice([None, None, 'b', 's', 't', 'c', 'f', 'r', 'a', 'bs', 'tc', 'tcf', 'sb', 'af', 'fb', 'ts'])
        fl = world.fields_of(keys)
        c = r.random()
        src = every if c < .5 else [t for f in fl for t in toks[f]]
        if c > .9 or not src:
            w = mail.rword(r)
        else:
            w = r.choice(src)
            if r.random() < .15 and len(w) > 1:
                w = r.choice([w[1:], w[:-1], w + 'x', w + w[-1]])
        w = mail.casemix(r, w)
        if keys is None and ':' in w or len(w) > 2000:
            continue
        if w[:1] in '-' and keys is None:
            continue
        out.append((keys, fl, w))
    return out


def check(case, sb):
    w = world.World(sb, case['folders']).build()
    w.index()
    docs = w.docs
    proper = 0
    if 'q' in case:
        qs = [(q[0], world.fields_of(q[0]), q[1]) for q in case['q']]
    else:
        qs = queries(case, docs)
    labels = set()
    for keys, fl, word in qs:
        arg = (keys + ':' if keys else '') + word
        got = w.search([arg])
        lw = word.lower()
        want = [d.key for d in docs if world.eval_word(d, fl, lambda t: t == lw)]
        try:
            world.compare(got, want, 'search %r' % arg)
        except Violation as e:
            # pin the query in the replay file
            case.pop('qs', None)
            case['q'] = [[keys, word]]
            raise
        if 0 < len(want) < len(docs):
            proper += 1
    # nothing in the corpus is missing from the index: every message is listed by path
    got = w.search(['p:mail'])
    world.compare(got, [d.key for d in docs], 'p:mail (all messages)')
    for f in case['folders']:
        labels.add(f['kind'] + ('-' + f.get('fmt', '') if f['kind'] == 'mbox' else ''))
        if f.get('z'):
            labels.add('z-' + f['z'])
    labels.add('proper' if proper else 'no-proper')
    return {'evals': len(qs) + 1, 'nontrivial': len(docs) >= 2 and proper > 0, 'labels': labels,
            'sample': {'first_query': qs[0][2] if qs else None, 'folders': case['folders'][:1]}}


def valid(case):
    return all(f['msgs'] for f in case['folders']) and bool(case['folders'])
