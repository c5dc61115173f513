"""-t returns exactly the connected conversations."""
import os, random
import world
from core import Violation

ID = 'C09'
COUNT = {'quick': 4500, 'thorough': 90000}
BUDGET = {'quick': 90, 'thorough': 1500}
RULE = ('case = 3-60 messages whose Message-ID/In-Reply-To/References form a random graph (chains, stars, late joins, roots never '
        'stored, lone messages; or identifiers shared by 2-4 messages with no tree at all), over all storage formats, indexed in 1-4 runs in random order, then 0-3 rounds of deletions (and runs with nothing to do) with or without purge, with 12 word queries (of messages present or gone) run with -t after the last run and some after the others; '
        'the oracle is union-find over the identifiers. Non-trivial (per distinct id graph and query): the thread closure is '
        'strictly larger than the direct matches and smaller than the store.')
FROZEN = ('kind', 'name', 'fmt', 'z')
ASSUMPTIONS = ['identifiers never differ in letter case only']


def gen(r, k, tier):
    n = r.choice([3, 5, 8, 12, 20, 60])
    nid = r.choice([n // 2 + 1, n, 2 * n, 3 * n])
    msgs = []
    nfold = r.choice([1, 2, 3])
    folders = []
    for i in range(nfold):
        kind = r.choice(['maildir', 'mh', 'mbox'])
        f = {'kind': kind, 'name': world.fname(r, kind, i)}
        if kind == 'mbox':
            f['fmt'], f['z'] = 'mbox', r.choice(['', '', 'gz'])
        folders.append(f)
    batches = r.choice([1, 1, 2, 3, 4])
    style = r.random()
    for i in range(n):
        e = {'id': i, 'f': r.randrange(nfold), 'b': r.randrange(batches), 'mid': None, 'irt': [], 'refs': [], 'v': r.randrange(64)}
        if r.random() < .9:
            e['mid'] = i if r.random() < .95 else r.randrange(nid)
        if i and r.random() < .6:
            p = i - 1 if style < .3 else r.randrange(i) if style < .8 else r.randrange(nid)
            e['irt'] = [p]
            if r.random() < .1:
                e['irt'].append(r.randrange(nid))
        if r.random() < .5:
            e['refs'] = [r.randrange(nid) for _ in range(r.choice([1, 1, 2, 4]))] if r.random() < .5 else e['irt'][:] + [
                n + 100 + r.randrange(nid)]
        if r.random() < .08:
            # an attached message has identifiers too
            e['sub'] = r.randrange(nid)
        msgs.append(e)
    if r.random() < .35:
        # no trees: identifiers shared by a few messages each, as references only
        for e in msgs:
            e['mid'] = e['id'] if r.random() < .5 else None
            e['irt'] = []
            e['refs'] = []
        for i in range(r.choice([n // 2, n * 2 // 3, n])):
            for e in r.sample(msgs, min(n, r.choice([2, 2, 2, 3, 3, 4]))):
                e['refs'].append(2 * n + i)
    r.shuffle(msgs)
    dels = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        dels.append({'ids': r.sample(range(n), r.choice([0, 1, 1, 2, n // 2])), 'purge': r.random() < .4})
    return {'dels': dels, 'folders': folders, 'msgs': msgs, 'batches': batches,
            'q': [[r.randrange(n) for _ in range(r.choice([1, 1, 1, 2, 3]))] for _ in range(12)], 'style': r.randrange(4)}


def idstr(case, i):
    return ['id%d@host.example', '%d.abc$x@h', '<'[1:] + 'm%d', 'a.%d+b-c%%d@[10.0.0.1]'][case['style']] % i


def raw(case, e):
    f = lambda l: ['<' + idstr(case, i) + '>' for i in l]
    hs = []
    v = e['v']
    if e['mid'] is not None:
        hs.append(['Message-ID', 'Message-Id', 'message-id', 'MESSAGE-ID'][v % 4] + ': ' + f([e['mid']])[0] + '\n')
    if e['irt']:
        t = ' '.join(f(e['irt']))
        if v & 4:
            t = 'Your message of "Mon" ' + t
        hs.append('In-Reply-To: ' + t + '\n')
    if e['refs']:
        sep = ['\n ', '\n\t', ' ', ''][(v >> 3) % 4]
        hs.append('References: ' + sep.join(f(e['refs'])) + '\n')
    hs.append('Subject: w%dx common\n' % e['id'])
    hs.append('From: a@b.c\n')
    random.Random(v).shuffle(hs)
    if e.get('sub') is not None:
        return ''.join(hs) + 'Content-Type: multipart/mixed; boundary=xyz\n\n--xyz\n\ntext\n--xyz\nContent-Type: message/rfc822\n\n' + \
            'Subject: attached\nMessage-ID: <%s>\n\nbody\n--xyz--\n' % idstr(case, e['sub'])
    return ''.join(hs) + '\nbody <%s>\n' % idstr(case, 0)


def closure(msgs, start):
    """ids of all messages connected to the start set by shared identifiers"""
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    for e in msgs:
        a = find(('m', e['id']))
        for i in ([e['mid']] if e['mid'] is not None else []) + e['irt'] + e['refs'] + ([e['sub']] if e.get('sub') is not None else []):
            b = find(('i', i))
            par[a] = b
            a = find(a)
    roots = {find(('m', i)) for i in start}
    return {e['id'] for e in msgs if find(('m', e['id'])) in roots}


def check(case, sb):
    bykey = {}
    keys = set()
    w = None
    evals = 0
    gone = set()        # deleted
    linking = set()     # deleted, but not purged
    steps = [{'ids': [], 'purge': False}] * case['batches'] + case.get('dels', [])
    for b, step in enumerate(steps):
        folders = []
        order = []
        for d in (w.docs if w else []):
            if d.key in bykey and bykey[d.key] in step['ids'] and os.path.exists(d.path.encode('latin-1')):
                os.unlink(d.path.encode('latin-1'))
        gone |= set(step['ids'])
        linking |= set(step['ids'])
        for fi, f in enumerate(case['folders']):
            ms = [e for e in case['msgs'] if e['f'] == fi and e['b'] <= b and e['id'] not in gone]
            if f['kind'] == 'mbox':
                ms.sort(key=lambda e: e['b'])     # later batches are appended
            if not ms and f['kind'] == 'mbox':
                continue
            folders.append(dict(f, msgs=[{'raw': raw(case, e), 'fname': '%d.x' % e['id'], 'num': e['id'] + 1, 'mt': 1000000000}
                                         for e in ms], mt=1000000000 + b))
            order += ms
        if not order:
            continue
        w = world.World(sb, folders).build()
        w.index(*(['-p'] if step['purge'] else []))
        if step['purge']:
            linking = set()
        bykey = {d.key: e['id'] for d, e in zip(w.docs, order)}
        evals += ask(case, w, bykey, case['q'] if b == len(steps) - 1 else case['q'][b % 3::4], gone, linking, b, keys)
    return {'evals': evals, 'nontrivial': bool(keys), 'keys': keys,
            'labels': ['batches=%d' % case['batches'], 'dels=%d' % len(case.get('dels', []))] + ['link' if keys else 'nolink'],
            'sample': {'msgs': case['msgs'][:6], 'batches': case['batches'], 'dels': case.get('dels'), 'q': case['q'][:3]}}


def ask(case, w, bykey, qs, gone, linking, b, keys):
    now = [e for e in case['msgs'] if e['b'] <= b]
    present = {e['id'] for e in now} - gone
    n = 0
    for q in qs:
        if not present:
            continue
        if not [i for i in q if i in present]:
            # nothing but messages that have gone, or aren't there yet
            n += 1
            got = w.search(['s:' + '/'.join('w%dx' % i for i in q)], opts=['-t'])
            if got:
                raise Violation('-t finds %r although the only matches %r do not exist' % (sorted(bykey.get(x, repr(x)) for x in got), q))
            continue
        q = [i for i in q if i in present]
        n += 1
        arg = 's:' + '/'.join('w%dx' % i for i in q)
        direct = w.search([arg])
        got = w.search([arg], opts=['-t'])
        if sorted(bykey[x] for x in direct) != sorted(set(q)):
            raise Violation('search %r finds %r' % (arg, [bykey[x] for x in direct]))
        want = closure([e for e in now if e['id'] not in gone], q)
        most = closure([e for e in now if e['id'] not in gone or e['id'] in linking], q) - gone
        g = sorted(bykey.get(x, repr(x)) for x in got)
        if len(g) != len(set(g)) or not want <= set(g) <= most:
            raise Violation('-t %r: missing messages %r, unrelated messages %r' % (
                arg, sorted(want - set(g)), sorted(set(g) - most)))
        if len(set(q)) < len(want) < len(present):
            keys.add((arg, len(want), tuple((e['mid'], tuple(e['irt']), tuple(e['refs'])) for e in case['msgs'])))
    return n


def valid(case):
    ids = [e['id'] for e in case['msgs']]
    return bool(ids) and len(set(ids)) == len(ids) and all(e['f'] < len(case['folders']) and e['b'] < case['batches'] for e in case['msgs']) \
        and 0 <= case['style'] < 4
