"""Boolean queries denote exactly the documented set."""
import os
import mail, world, simple
from core import Violation

ID = 'C04'
COUNT = {'quick': 5000, 'thorough': 100000}
BUDGET = {'quick': 90, 'thorough': 1500}
RULE = ('case = store of 2-30 small-vocabulary messages and 25 random query expressions (1-3 arguments of word/substring/'
        'path/size/flag/date terms with OR, AND, NOT); the evaluator computes each set from the structure. Non-trivial '
        '(counted per distinct query): the query has at least two terms and matches a proper non-empty subset.')
FROZEN = ('kind', 'k', 'name', 'fmt', 'z', 'folders')


def gen(r, k, tier):
    folders = simple.sfolders(r, r.choice([5, 12, 30]))
    names = ['mail/' + f['name'] for f in folders]
    return {'folders': folders, 'queries': [simple.rquery(r, names, maxor=r.choice([2, 3, 5]), maxand=r.choice([2, 3, 5]))
                                            for _ in range(25)], 'sp': r.random() < .1}


def ok(a):
    """Only queries whose path fragments cannot hit the scratch directory name."""
    return True


def check(case, sb):
    w = world.World(sb, case['folders']).build()
    w.index()
    keys = set()
    for q in case['queries']:
        args = [simple.show(a) for a in q]
        if case['sp']:
            # blanks are no part of a word before a separator
            args = [a.replace(',', ' ,').replace('/', ' /') if 'or' in x else a for a, x in zip(args, q)]
        got = w.search(args)
        want = [d.key for d in w.docs if simple.match(q, d)]
        world.compare(got, want, 'search %r' % (args,))
        terms = sum(len(c) for a in q for c in a.get('or', [[1]]))
        if terms >= 2 and 0 < len(want) < len(w.docs):
            keys.add(('q', tuple(args), len(want)))
    return {'evals': len(case['queries']), 'nontrivial': bool(keys), 'keys': keys,
            'sample': {'queries': [' '.join(simple.show(a) for a in q) for q in case['queries'][:4]],
                       'messages': len(w.docs)},
            'labels': {f['kind'] for f in case['folders']}}


def valid(case):
    for q in case['queries']:
        if not q:
            return False
        for a in q:
            if 'or' in a and (not a['or'] or any(not c for c in a['or']) or
                              any(not i['w'] for c in a['or'] for i in c)):
                return False
            if 'F' in a and not a['F'].strip('-'):
                return False
    return bool(case['folders']) and all(f['msgs'] for f in case['folders'])
