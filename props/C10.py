"""Incremental indexing gives what indexing from scratch gives."""
import os, random
import history, simple, world
from core import Violation

ID = 'C10'
COUNT = {'quick': 1500, 'thorough': 40000}
BUDGET = {'quick': 75, 'thorough': 1500}
RULE = ('case = a store of maildir, MH, mbox, MMDF and compressed folders and a history of 2-8 rounds, each of 1-8 changes (deliver, '
        'delete, rename, re-flag, edit, re-use a name, move, touch; append, delete, insert, truncate, swap, rewrite, empty, remove and '
        're-create mboxes; times moving forwards, backwards or not at all) and an indexing run (in a fifth of the rounds after one during which some files, directories or mboxes could not be read) with random -p/-Q/-F/-v; after '
        'every run the model predicts all listings, 6 random queries, thread and Message-ID searches. Non-trivial (per '
        'distinct query after a round that changed or removed something indexed): proper non-empty subset.')
FROZEN = ('kind', 'name', 'fmt', 'z', 'e', 'm', 'op')
ASSUMPTIONS = ['a change of a file changes its mtime or its size',
               'an mbox is changed so that everything before a message still in its old place is unchanged',
               'messages are appended to mboxes whole']


def gen(r, k, tier):
    folders = []
    for i in range(r.randint(1, 4)):
        kind = r.choice(['maildir', 'mh', 'mbox', 'mbox'])
        f = {'kind': kind, 'name': world.fname(r, kind, i)}
        if kind == 'mbox':
            f['fmt'], f['z'] = r.choice(['mbox', 'mbox', 'mmdf']), r.choice(['', '', '', 'gz', 'bz2', 'xz'])
        folders.append(f)
    steps = []
    grow = ['add', 'badd', 'add', 'badd', 'bnew']
    for s in range(r.randint(2, 8 if tier == 'quick' else 14)):
        n = r.choice([1, 2, 4, 8]) if s else r.choice([2, 6, 15])
        steps.append({'ops': [history.rop(r, len(folders), grow if s == 0 else None) for _ in range(n)],
                      'hide': r.sample(range(60), r.choice([1, 3, 8])) if r.random() < .2 else [],
                      'opt': r.choice([[], [], [], ['-p'], ['-p'], ['-Q'], ['-F'], ['-v'], ['-p', '-Q'], ['-F', '-p']])})
    return {'folders': folders, 'steps': steps, 'qs': r.randrange(1 << 30), 'nq': 6}


def hide(st, which, opt):
    """An indexing run while some message files, mboxes and directories cannot be read."""
    if not which:
        return False
    all_ = sorted({rec['p'] for rec in st.files} | {os.path.dirname(rec['p']) for rec in st.files} | {st.boxpath(fi) for fi in st.boxes})
    if not all_:
        return False
    hidden = sorted({all_[i % len(all_)] for i in which}, key=len)
    modes = {p: os.stat(p).st_mode & 0o777 for p in hidden}
    try:
        for p in reversed(hidden):
            os.chmod(p, 0)
        st.w.index(*opt)
    finally:
        for p in hidden:
            os.chmod(p, modes[p])
    return True


def check(case, sb):
    st = history.State(sb, case['folders'])
    st.nopad = case.get('nopad', False)
    keys = set()
    evals = 0
    for si, s in enumerate(case['steps']):
        for o in s['ops']:
            st.apply(o)
        if not st.docs() and not os.path.exists(st.w.db):
            continue
        opt = s['opt']
        if hide(st, s.get('hide'), opt):
            opt = [o for o in opt if o != '-F']
            st.labels.add('unreadable')
        complete = st.index(opt)
        if not complete:
            st.labels.add('fast-may-miss')
            continue
        r = random.Random('%d:%d' % (case['qs'], si))
        qs = history.queries(r, st, case['nq'])
        if case.get('probe'):
            qs.append([{'k': 's', 'or': [[{'n': False, 'w': case['probe'], 's': None, 'a': False}]]}])
        evals += len(qs) + 1
        try:
            history.verify(st, qs, False, keys if si else None)
        except Violation as v:
            raise Violation('after round %d (%s): %s' % (si, ' '.join(s['opt']) or 'plain run', v))
    ops = [o['op'] for s in case['steps'] for o in s['ops']]
    return {'evals': evals, 'nontrivial': bool(keys), 'keys': keys, 'labels': st.labels | set(ops),
            'sample': {'folders': case['folders'], 'ops': [[o['op'] for o in s['ops']] + s['opt'] for s in case['steps']]}}


def valid(case):
    return bool(case['folders']) and all(o['op'] for s in case['steps'] for o in s['ops'])
