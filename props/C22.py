"""sort=date+ orders the results by date and changes nothing else."""
import datetime, os, re
import world, mail
from core import Violation

ID = 'C22'
COUNT = {'quick': 5000, 'thorough': 100000}
BUDGET = {'quick': 60, 'thorough': 1500}
RULE = ('case = 2-40 messages with dates 1970-2105 (ties, neighbours, far apart, missing) over all storage formats, and searches '
        'run with and without sort=date+ into raw, excerpt, MH and mbox output; the sorted output must be the same set and in '
        'non-decreasing date order. Non-trivial: the unsorted result had at least 2 distinct dates out of order.')
FROZEN = ('kind', 'name', 'fmt', 'z')
MON = mail.MONTHS


def rday(r, base):
    c = r.random()
    if c < .3:
        return base + r.randint(-3, 3)
    if c < .5:
        return r.choice([0, 1, 2, 24854, 24855, 24856, 24857, 49709, 10957, 10958, 20000])
    return r.randint(1, 49700)


def gen(r, k, tier):
    base = r.randint(1000, 40000)
    folders = []
    n = 0
    for i in range(r.choice([1, 1, 2, 3])):
        kind = r.choice(['maildir', 'mh', 'mbox'])
        f = {'kind': kind, 'name': world.fname(r, kind, i), 'msgs': []}
        if kind == 'mbox':
            f['fmt'], f['z'] = r.choice(['mbox', 'mmdf']), r.choice(['', 'gz'])
        for _ in range(r.choice([1, 3, 6, 15])):
            f['msgs'].append({'day': None if r.random() < .05 else rday(r, base), 'w': r.choice('abc'), 'id': n,
                              'th': r.randrange(4), 'v': r.randrange(4)})
            n += 1
        folders.append(f)
    return {'folders': folders, 'q': [[r.choice(['s:a', 's:a/b', 's:b', 'b:all', 's:~a']), r.random() < .2] for _ in range(3)],
            'out': r.choice(['raw', 'raw', 'excerpt', 'mh', 'mbox'])}


def raw(e):
    s = 'Subject: %s id%d\nMessage-ID: <m%d@x>\nReferences: <t%d@x>\n' % (e['w'], e['id'], e['id'], e['th'])
    if e['day'] is not None:
        d = datetime.date(1970, 1, 1) + datetime.timedelta(days=e['day'])
        t = '%d %s %d %02d:%02d:00 +0000' % (d.day, MON[d.month - 1], d.year, (e['id'] * 7) % 24, e['v'])
        s += 'Date: ' + (d.strftime('%a, ') if e['v'] & 1 else '') + t + '\n'
    return s + '\nall\n'


SUBJ = re.compile(rb'Subject: +. id(\d+)')


def run(w, case, q, extra):
    args = ['-t'] if q[1] else []
    r = w.mairix(args + [q[0]], env=extra)
    out = case['out']
    if out == 'raw':
        ids = [w.byid[k] for k in world.parse_raw(r.out)]
    elif out == 'excerpt':
        ids = [int(x) for x in SUBJ.findall(r.out)]
    else:
        mf = os.path.join(w.base, 'mfolder')
        if out == 'mh':
            names = sorted((x for x in os.listdir(mf) if x.isdigit()), key=int)
            ids = []
            for nm in names:
                with open(os.path.join(mf, nm), 'rb') as f:
                    ids.append(int(SUBJ.search(f.read()).group(1)))
        else:
            ids = []
            if os.path.exists(mf):
                with open(mf, 'rb') as f:
                    ids = [int(x) for x in SUBJ.findall(f.read())]
    if r.rc != (0 if ids else 1):
        raise Violation('exit status %r with %d results' % (r.rc, len(ids)))
    return ids


def check(case, sb):
    folders = [dict(f, msgs=[{'raw': raw(e)} for e in f['msgs']]) for f in case['folders']]
    w = world.World(sb, folders)
    w.mformat = case['out']
    w.build()
    ents = [e for f in case['folders'] for e in f['msgs']]
    w.byid = {d.key: e['id'] for d, e in zip(w.docs, ents)}
    day = {e['id']: e['day'] for e in ents}
    w.index()
    nontriv = False
    plain = [run(w, case, q, None) for q in case['q']]
    w.rc_extra = 'sort=date+\n'
    w.write_rc()
    for q, p in zip(case['q'], plain):
        s = run(w, case, q, None)
        if sorted(s) != sorted(p):
            raise Violation('search %r: sorting changes the result: %r without, %r with' % (q, sorted(p), sorted(s)))
        ds = [day[i] for i in s if day[i] is not None]
        if ds != sorted(ds):
            raise Violation('search %r (%s output): not in date order: days %r' % (q, case['out'], ds))
        # undated messages form one block at an end
        pd = [day[i] for i in p if day[i] is not None]
        if pd != sorted(pd):
            nontriv = True
        if q[0] == 'b:all' and not q[1] and len(s) != len(ents):
            raise Violation('search %r finds %d of %d messages' % (q, len(s), len(ents)))
    return {'evals': 2 * len(case['q']), 'nontrivial': nontriv, 'labels': {case['out']},
            'sample': {'days': [day[i] for i in plain[0]], 'out': case['out']}}


def valid(case):
    ids = [e['id'] for f in case['folders'] for e in f['msgs']]
    return bool(case['folders']) and all(f['msgs'] for f in case['folders']) and len(set(ids)) == len(ids) and \
        case['out'] in ('raw', 'excerpt', 'mh', 'mbox') and all(len(q) == 2 and q[0] in
            ('s:a', 's:a/b', 's:b', 'b:all', 's:~a') for q in case['q']) and all(e['w'] in 'abc' and e['w'] for f in case['folders'] for e in f['msgs'])
