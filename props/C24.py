"""--dump shows the index, and the index is exactly what the mail says."""
import os, random, re
import history, mail, simple, world
from core import Violation

ID = 'C24'
BUILDS = ['plain']
COUNT = {'quick': 8000, 'thorough': 100000}
BUDGET = {'quick': 90, 'thorough': 1500}
RULE = ('case = a generated mail store of structured messages (or a history of changes over all storage formats with 1-4 indexing runs, some of '
        'them purging), dumped with --dump after every run. The whole dump is parsed and compared with the model: the messages with their '
        'place, size, flags and thread, the mailboxes with their number of messages, and for each of the tables To, Cc, From, Subject, Body, Attachment '
        'names and Message Ids every word with the list of its messages. Non-trivial: at least 2 messages and a word that only some of them have.')
FROZEN = ('k', 'sub', 'e', 'cs', 'cte', 'kind', 'name', 'fmt', 'z', 'v', 'f', 'm', 'op')
TABLES = [('To', 't'), ('Cc', 'c'), ('From', 'f'), ('Subject', 's'), ('Body', 'b'), ('Attachment names', 'n'), ('Message Ids', None)]


def gen(r, k, tier):
    if r.random() < .5:
        depth = r.choice([0, 0, 1, 2, 3])
        nmax = r.choice([3, 8, 15]) if k % 40 else 200
        folders = world.rfolders(r, lambda r: mail.rmsg(r, depth), nmax)
        if r.random() < .3:
            folders.append({'kind': 'mbox', 'name': 'none', 'fmt': 'mbox', 'z': r.choice(['', 'gz']), 'msgs': []})
        return {'mode': 'store', 'folders': folders, 'opts': [r.choice([[], [], ['-Q'], ['-v'], ['-F']])] + [r.choice([[], ['-p']]) for _ in range(r.choice([0, 0, 1]))]}
    folders = []
    for i in range(r.randint(1, 4)):
        kind = r.choice(['maildir', 'mh', 'mbox', 'mbox'])
        f = {'kind': kind, 'name': world.fname(r, kind, i)}
        if kind == 'mbox':
            f['fmt'], f['z'] = r.choice(['mbox', 'mbox', 'mmdf']), r.choice(['', '', '', 'gz', 'xz'])
        folders.append(f)
    rounds = [{'ops': [history.rop(r, len(folders), ['add', 'badd']) for _ in range(r.choice([2, 5, 12]))], 'opt': []}]
    for _ in range(r.randint(0, 3)):
        rounds.append({'ops': [history.rop(r, len(folders)) for _ in range(r.choice([0, 1, 3, 8]))], 'opt': r.choice([[], [], ['-p'], ['-p', '-Q'], ['-v']])})
    return {'mode': 'history', 'folders': folders, 'rounds': rounds}


MSG = re.compile(rb' *(\d+): (?:(DEAD)|FILE (.*), size=(\d+), tid=(\d+)|MBOX (\d+), msg (\d+), offset=(\d+), size=(\d+), tid=(\d+))((?: (?:seen|replied|flagged))*)$', re.S)
BOX = re.compile(rb' *(\d+): (?:(dead)|(\d+) msgs in (.*))$', re.S)
WORD = re.compile(rb'Word (\d+) : <(.*)>$', re.S)


def lat(b):
    return b.decode('latin-1')


class Reader:
    def __init__(self, out):
        self.l = out.split(b'\n')
        self.i = 0

    def get(self):
        if self.i >= len(self.l):
            raise Violation('the dump ends early')
        self.i += 1
        return self.l[self.i - 1]

    def skip(self, pat):
        while True:
            l = self.get()
            m = re.match(pat, l, re.S)
            if m:
                return m


def chain(rd):
    """The words of one list, in order: [(word, [numbers])]."""
    n = int(rd.skip(rb'(\d+) entries$').group(1))
    out = []
    for k in range(n):
        l = rd.get()
        while not WORD.match(l) and l.startswith(b'Word ') and b'<' in l:
            l += b'\n' + rd.get()
        m = WORD.match(l)
        if not m or int(m.group(1)) != k:
            raise Violation('the dump has %r where word %d should be' % (l[:200], k))
        nums = []
        while rd.i < len(rd.l) and re.match(rb'[ \d]*$', rd.l[rd.i]):
            nums += [int(x) for x in rd.get().split()]
        out.append((lat(m.group(2)), nums))
    return out


def parse(out):
    rd = Reader(out)
    rd.skip(rb'Dump of ')
    n = int(rd.skip(rb'(\d+) messages$').group(1))
    msgs, boxes = [], {}
    for k in range(n):
        l = rd.get()
        m = MSG.match(l)
        if not m or int(m.group(1)) != k:
            raise Violation('the dump has %r where message %d should be' % (l[:200], k))
        fl = {{'seen': 'S', 'replied': 'R', 'flagged': 'F'}[x] for x in lat(m.group(11)).split()}
        if m.group(2):
            msgs.append(None)
        elif m.group(3) is not None:
            msgs.append([('file', lat(m.group(3))), int(m.group(4)), int(m.group(5)), fl])
        else:
            s, z = int(m.group(8)), int(m.group(9))
            msgs.append([('mbox', int(m.group(6)), s, s + z, int(m.group(7))), z, int(m.group(10)), fl])
    while True:
        l = rd.get()
        if l.startswith(b'Hash key'):
            break
        m = BOX.match(l)
        if m:
            boxes[int(m.group(1))] = None if m.group(2) else (lat(m.group(4)), int(m.group(3)))
    tabs = {}
    for name, _ in TABLES:
        rd.skip(rb'Contents of <%s> table$' % name.encode())
        if name != 'Message Ids':
            tabs[name] = chain(rd)
        else:
            rd.skip(rb'Chain 0$')
            a = chain(rd)
            rd.skip(rb'Chain 1$')
            tabs['ids'], tabs['own'] = a, chain(rd)
    return msgs, boxes, tabs


def compare(w, docs, boxpaths, first, purged, ghosts, labels, keys):
    def snap():
        with open(w.db, 'rb') as f:
            return f.read(), os.stat(w.db).st_mtime_ns
    before = snap()
    r = w.mairix([('-d', '--dump')[len(docs) % 2]])
    if r.rc != 0:
        raise Violation('dump: %r' % r)
    if snap() != before:
        raise Violation('dumping changed the database')
    msgs, boxes, tabs = parse(r.out)
    if purged and None in msgs:
        raise Violation('a dead message is in the dump of a purged database')
    bykey = {}
    for d in docs:
        bykey[d.key] = d
    num = {}
    perbox = {}
    for i, m in enumerate(msgs):
        if m is None:
            continue
        k = m[0]
        if k[0] == 'mbox':
            b = boxes.get(k[1])
            if not b:
                raise Violation('the dump puts message %d into mbox %d, which is not there' % (i, k[1]))
            perbox.setdefault(b[0], []).append((k[4], k[2]))
            k = ('mbox', b[0], k[2], k[3])
        d = bykey.get(k)
        if d is None or id(d) in num:
            raise Violation('the dump lists %r, which is %s' % (k, 'no message' if d is None else 'there twice'))
        num[id(d)] = i
        if m[1] != d.size or m[3] != set(d.flags) & set('FRS'):
            raise Violation('the dump gives %r size %d and flags %r, the message has %d and %r' % (k, m[1], m[3], d.size, d.flags))
    miss = [d.key for d in docs if id(d) not in num]
    if miss:
        raise Violation('the dump lacks %r' % miss[:4])
    have = sorted(b[0] for b in boxes.values() if b)
    # (a later run that finds only an empty mailbox new or gone has nothing to write)
    if len(set(have)) != len(have) or first and have != sorted(boxpaths):
        raise Violation('the dump has the mailboxes %r, there are %r' % (have, sorted(boxpaths)))
    for b in boxes.values():
        if b and b[1] != len(perbox.get(b[0], [])):
            raise Violation('the dump counts %d messages in %s, it has %d' % (b[1], b[0], len(perbox.get(b[0], []))))
    for p, l in perbox.items():
        if [x[0] for x in sorted(l, key=lambda x: x[1])] != list(range(len(l))):
            raise Violation('the messages of %s are numbered %r' % (p, l))
    # ---- threads
    tid = {id(d): msgs[num[id(d)]][2] for d in docs}
    lo = components(docs)
    hi = lo if purged else components(docs + ghosts)
    for i, d in enumerate(docs):
        for e in docs[:i]:
            same = tid[id(d)] == tid[id(e)]
            if same and hi[id(d)] != hi[id(e)]:
                raise Violation('%r and %r are one thread in the dump' % (d.key, e.key))
            if not same and lo[id(d)] == lo[id(e)]:
                raise Violation('%r and %r are two threads in the dump' % (d.key, e.key))
    # ---- words
    live = {i: d for d in docs for i in [num[id(d)]]}
    n = some = 0
    for name, at in TABLES[:-1] + [('ids', 'ids'), ('own', 'mid')]:
        want = {}
        for d in docs:
            for t in getattr(d, at):
                want.setdefault(t, set()).add(num[id(d)])
        got = {}
        for t, nums in tabs[name]:
            if t in got:
                raise Violation('table %s has <%s> twice' % (name, t))
            if sorted(set(nums)) != nums or (nums and nums[-1] >= len(msgs)):
                raise Violation('table %s, <%s>: the messages are %r of %d' % (name, t, nums, len(msgs)))
            if not nums and name != 'own':
                if purged:
                    raise Violation('table %s has <%s> without a message' % (name, t))
            got[t] = {x for x in nums if x in live}
            n += 1
        for t in set(got) | set(want):
            if got.get(t, set()) != want.get(t, set()):
                raise Violation('table %s, <%s>: the dump has %r, the mail %r' % (
                    name, t[:80], [live[x].key for x in got.get(t, set())][:4], [live[x].key for x in want.get(t, set())][:4]))
            if 0 < len(want.get(t, ())) < len(docs):
                some += 1
    if some and len(docs) > 1:
        keys.add((len(docs), len(msgs), n, some))
    labels.add('purged' if purged else 'run')
    if None in msgs:
        labels.add('dead')
    return n


def components(docs):
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    for d in docs:
        for t in d.ids:
            par[find(('d', id(d)))] = find(('t', t))
    return {id(d): find(('d', id(d))) for d in docs}


def check(case, sb):
    labels, keys = {case['mode']}, set()
    evals = 0
    if case['mode'] == 'store':
        w = world.World(sb, case['folders']).build()
        boxes = [os.path.join(w.base, f['name'] + ('.' + f['z'] if f.get('z') else '')) for f in case['folders'] if f['kind'] == 'mbox']
        for o in case['opts']:
            w.index(*o)
            evals += compare(w, w.docs, boxes, True, True, [], labels, keys)
    else:
        st = history.State(sb, case['folders'])
        clean = True
        for rd in case['rounds']:
            for o in rd['ops']:
                st.apply(o)
            if not st.docs() and not os.path.exists(st.w.db):
                continue
            first = not os.path.exists(st.w.db)
            if not st.index(rd['opt']) or not os.path.exists(st.w.db):
                continue
            clean = '-p' in rd['opt']
            evals += compare(st.w, st.docs(), [st.boxpath(fi) for fi in st.boxes], first, clean, st.ghosts, labels, keys)
    return {'evals': evals, 'nontrivial': bool(keys), 'keys': keys, 'labels': labels,
            'sample': {'mode': case['mode'], 'folders': [f['name'] for f in case['folders']]}}


def valid(case):
    return bool(case['folders'])
