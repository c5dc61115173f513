"""--purge removes the dead messages and nothing else."""
import os, random, re
import history, simple, world
from core import Violation

ID = 'C11'
COUNT = {'quick': 1300, 'thorough': 35000}
BUDGET = {'quick': 75, 'thorough': 1500}
RULE = ('case = a store over all storage formats, a history with deletions in random positions (one, scattered, a prefix, all of an '
        'mbox, everything but one) and other changes, then a purging run; every query, thread and Message-ID search is compared before '
        'and after the purge and with the model, the purged database must hold exactly the living messages, and 1-3 further rounds '
        'on it must still agree with the model. Non-trivial (per distinct query): the purge followed changes and the query matched a '
        'proper non-empty subset.')
FROZEN = ('kind', 'name', 'fmt', 'z', 'e', 'm', 'op')


def gen(r, k, tier):
    folders = []
    for i in range(r.randint(1, 4)):
        kind = r.choice(['maildir', 'mh', 'mbox', 'mbox'])
        f = {'kind': kind, 'name': world.fname(r, kind, i)}
        if kind == 'mbox':
            f['fmt'], f['z'] = r.choice(['mbox', 'mbox', 'mmdf']), r.choice(['', '', '', 'gz'])
        folders.append(f)
    big = r.random() < .1
    first = [history.rop(r, len(folders), ['add', 'badd']) for _ in range(r.choice([4, 10, 25]) if not big else 200)]
    rounds = []
    for _ in range(r.randint(1, 3)):
        n = r.choice([1, 3, 6, 12] + [60] * big)
        kill = [history.rop(r, len(folders), r.choice([['del'], ['del', 'bdel', 'btrunc', 'bins'], ['brm', 'del'], ['bdel'],
                                                       ['bempty', 'brm', 'del', 'bdel'], ['edit', 'readd', 'move', 'flag']]))
                for _ in range(n)]
        if r.random() < .4:
            kill += [history.rop(r, len(folders)) for _ in range(3)]
        # purge in the run that notices, in a later one, or both
        rounds.append({'ops': kill, 'mode': r.choice(['after', 'after', 'with']), 'opt': r.choice([[], ['-Q'], ['-v'], ['-F']])})
        rounds.append({'ops': [history.rop(r, len(folders)) for _ in range(r.choice([0, 1, 4]))], 'mode': 'none', 'opt': []})
    return {'folders': folders, 'first': first, 'rounds': rounds, 'qs': r.randrange(1 << 30), 'nq': 6}


def answers(st, qs):
    out = []
    for q in qs:
        out.append(sorted(st.w.search([simple.show(a) for a in q])))
    return out


LOADED = re.compile(rb'Loaded (\d+) existing messages')


def check(case, sb):
    st = history.State(sb, case['folders'])
    for o in case['first']:
        st.apply(o)
    if not st.docs():
        return {}
    st.index()
    keys = set()
    labels = set()
    evals = 0
    loaded = len(st.docs())
    for ri, rd in enumerate(case['rounds']):
        for o in rd['ops']:
            st.apply(o)
        r = random.Random('%d:%d' % (case['qs'], ri))
        qs = history.queries(r, st, case['nq'])
        evals += len(qs)
        try:
            if rd['mode'] == 'with':
                if not st.index(['-p'] + [x for x in rd['opt'] if x != '-F']):
                    continue
            else:
                st.index([])
                if rd['mode'] == 'after':
                    before = answers(st, qs)
                    st.index(['-p'] + rd['opt'])
                    after = answers(st, qs)
                    for q, a, b in zip(qs, before, after):
                        if a != b:
                            raise Violation('search %r: %r before the purge, %r after it' % ([simple.show(x) for x in q], a, b))
            k2 = set()
            exact = rd['mode'] != 'none'
            history.verify(st, qs, exact, k2)
            if rd['mode'] != 'none':
                n = len(st.docs())
                rr = st.w.mairix(['-v'])
                m = LOADED.search(rr.out + rr.err)
                if m:
                    if int(m.group(1)) != n:
                        raise Violation('the purged database holds %s messages, %d exist' % (m.group(1).decode(), n))
                    if n < loaded:
                        keys |= k2
                        labels.add('purged')
                if rd['ops']:
                    keys |= k2
                loaded = n
        except Violation as v:
            raise Violation('round %d (%s): %s' % (ri, rd['mode'], v))
    return {'evals': evals, 'nontrivial': bool(keys), 'keys': keys, 'labels': labels,
            'sample': {'folders': case['folders'], 'rounds': [[o['op'] for o in rd['ops']] + [rd['mode']] for rd in case['rounds']]}}


def valid(case):
    return bool(case['folders']) and all(o['op'] for o in case['first']) and all(o['op'] for s in case['rounds'] for o in s['ops']) \
        and all(rd['mode'] in ('after', 'with', 'none') for rd in case['rounds'])
