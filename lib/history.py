"""Histories of a mail store: deliveries, deletions, renames, edits, mbox rewrites, indexing runs.

State.apply(op) changes files on disk and the model together; State.docs() is what a
database built now must contain.  Operations name their target by a number taken modulo
what exists, so that any sub-list of a history is again a history.
"""
import os
import mail, world, simple
from core import Violation

T0 = 1000000000
MBOXFMT = ('mbox', 'mmdf')


def rids(nid):
    def f(r, h):
        def one():
            return {'t': '<i%d@x.y>' % r.randrange(nid), 'e': '', 'f': ''}
        if r.random() < .8:
            h.append(['Message-ID', [one()]])
        if r.random() < .4:
            h.append(['In-Reply-To', [one()]])
        if r.random() < .3:
            h.append(['References', [one() for _ in range(r.choice([1, 2]))]])
    return f


def rmsg(r, nid=20):
    return simple.smsg(r, ids=rids(nid), att=True)


def rbox(r):
    e = rmsg(r)
    simple.rstatus(r, e)
    return e


def rop(r, nfold, weights=None):
    """One random operation."""
    ops = weights or ['add', 'add', 'add', 'del', 'del', 'flag', 'mvnew', 'edit', 'move', 'readd', 'badd', 'badd', 'bdel', 'bdel',
                      'btrunc', 'bins', 'bnew', 'bempty', 'brm', 'touch', 'btouch', 'bswap']
    op = r.choice(ops)
    o = {'op': op, 'i': r.randrange(1000)}
    if op in ('add', 'edit', 'readd'):
        o['e'] = rmsg(r)
        if r.random() < .5:
            o['sub'] = 'cur'
            o['fl'] = ''.join(x for x in 'FRS' if r.random() < .4)
        o['tm'] = r.choice(['+', '+', '=', '-'])
    elif op == 'flag':
        o['fl'] = ''.join(x for x in 'DFRST' if r.random() < .4)
    elif op in ('badd', 'bins', 'bnew'):
        o['m'] = [rbox(r) for _ in range(r.choice([1, 1, 2, 4]))]
        o['tm'] = r.choice(['+', '+', '=', '-'])
    elif op in ('bdel', 'btrunc'):
        o['n'] = r.choice([1, 1, 2, 5])
        o['tm'] = r.choice(['+', '+', '=', '-'])
    elif op == 'move':
        o['to'] = r.randrange(1000)
    return o


class State:
    """folders: [{'kind': maildir|mh|mbox, 'name', 'fmt', 'z'}]; mboxes need not exist at all times."""

    def __init__(self, sb, folders, rc_extra=''):
        self.sb = sb
        self.folders = folders
        self.w = world.World(sb, folders, rc_extra=rc_extra)
        self.files = []     # {'p': path, 'e': entry, 'fi': folder index, 'fl': flags or None, 'mt': mtime}
        self.boxes = {}     # folder index -> {'msgs': [...], 'mt': mtime}
        self.indexed = {}   # path -> (mtime, size, bytes, positions) as of the last run
        self.ghosts = []    # messages that were indexed at some time and may still link threads
        self.clock = 0
        self.serial = 0
        self.labels = set()
        for f in folders:
            p = os.path.join(self.w.base, f['name'])
            if f['kind'] == 'maildir':
                for s in ('new', 'cur', 'tmp'):
                    os.makedirs(os.path.join(p, s))
            elif f['kind'] == 'mh':
                os.makedirs(p)
                self.w.put(os.path.join(p, '.mh_sequences'), b'')
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
        self.w.write_rc()
        self.nopad = False      # set only by the listed finding
        self.pending = False    # in-place changes that a -F run may miss

    # -------------------------------------------------------------- files
    def dirs(self):
        return [i for i, f in enumerate(self.folders) if f['kind'] != 'mbox']

    def mboxen(self):
        return [i for i, f in enumerate(self.folders) if f['kind'] == 'mbox']

    def tick(self, how, old=None):
        self.clock += 1
        if how == '=' and old is not None:
            return old
        if how == '-':
            return T0 - self.clock * 10
        return T0 + self.clock * 10

    def put_file(self, rec, how='+'):
        data = self.w.data(rec['e'])
        old = self.indexed.get(rec['p'])
        mt = self.tick(how, old[0] if old else None)
        if old and (mt, len(data)) == old[:2] and data != old[2]:
            mt = self.tick('+')
        if old and old[2] != data:
            self.pending = True
        rec['mt'] = mt
        self.w.put(rec['p'], data, mt)

    def renamed(self, rec):
        """A file took a name that another message may have had."""
        old = self.indexed.get(rec['p'])
        if old and old[2] != self.w.data(rec['e']):
            if old[:2] == (rec['mt'], os.path.getsize(rec['p'])):
                rec['mt'] = self.tick('+')
                os.utime(rec['p'], (rec['mt'], rec['mt']))
            self.pending = True

    def name(self, fi, sub, fl):
        f = self.folders[fi]
        self.serial += 1
        base = os.path.join(self.w.base, f['name'])
        if f['kind'] == 'mh':
            used = {r['p'] for r in self.files}
            n = 1
            while os.path.join(base, str(n)) in used:      # lowest free number: numbers get re-used
                n += 1
            return os.path.join(base, str(n))
        nm = '%d.M%d.host' % (1700000000 + self.serial * 7919 % 1000, self.serial)
        if sub == 'cur':
            return os.path.join(base, 'cur', nm + ':2,' + (fl or ''))
        return os.path.join(base, 'new', nm)

    def flags_of(self, p, kind):
        p = os.path.basename(p)
        if kind == 'maildir' and ':2,' in p:
            return set(p.split(':2,')[1]) & set('FRS')
        return set()

    def apply(self, o):
        op, i = o['op'], o.get('i', 0)
        if op == 'add':
            ds = self.dirs()
            if not ds:
                return
            fi = ds[i % len(ds)]
            rec = {'e': o['e'], 'fi': fi, 'p': self.name(fi, o.get('sub', 'new'), o.get('fl'))}
            self.put_file(rec, o.get('tm', '+'))
            self.files.append(rec)
        elif op in ('del', 'flag', 'mvnew', 'edit', 'move', 'readd', 'touch'):
            if not self.files:
                return
            rec = self.files[i % len(self.files)]
            kind = self.folders[rec['fi']]['kind']
            if op == 'del':
                os.unlink(rec['p'])
                self.files.remove(rec)
            elif op == 'readd':
                # the name of a deleted message is re-used by another one
                os.unlink(rec['p'])
                rec['e'] = o['e']
                self.put_file(rec, o.get('tm', '+'))
            elif op == 'edit':
                rec['e'] = o['e']
                self.put_file(rec, o.get('tm', '+'))
            elif op == 'touch':
                rec['mt'] = self.tick('+')
                os.utime(rec['p'], (rec['mt'], rec['mt']))
            elif op in ('flag', 'mvnew') and kind == 'maildir':
                d, nm = os.path.split(rec['p'])
                nm = nm.split(':2,')[0]
                root = os.path.dirname(d)
                if op == 'flag':
                    np = os.path.join(root, 'cur', nm + ':2,' + o['fl'])
                else:
                    np = os.path.join(root, 'new' if d.endswith('cur') else 'cur', nm)
                if np != rec['p']:
                    os.rename(rec['p'], np)
                    rec['p'] = np
                    self.renamed(rec)
            elif op == 'move':
                ds = self.dirs()
                fi = ds[o.get('to', 0) % len(ds)]
                np = self.name(fi, 'new', None)
                os.rename(rec['p'], np)
                rec['p'], rec['fi'] = np, fi
                self.renamed(rec)
        elif op.startswith('b'):
            bs = self.mboxen()
            if not bs:
                return
            fi = bs[i % len(bs)]
            b = self.boxes.get(fi)
            k = i // max(1, len(bs))
            if op == 'brm':
                if b is not None:
                    os.unlink(self.boxpath(fi))
                    del self.boxes[fi]
                return
            if b is None:
                if op not in ('badd', 'bnew', 'bempty'):
                    return
                b = self.boxes[fi] = {'msgs': []}
            ms = b['msgs']
            if op == 'badd':
                ms += o['m']
            elif op == 'bnew':
                b['msgs'] = list(o['m'])
            elif op == 'bins':
                j = k % (len(ms) + 1)
                ms[j:j] = o['m']
            elif op == 'bdel' and ms:
                j = k % len(ms)
                del ms[j:j + o['n']]
            elif op == 'btrunc' and ms:
                del ms[max(0, len(ms) - o['n']):]
            elif op == 'bset' and ms:
                ms[k % len(ms)] = o['m'][0]
            elif op == 'bempty':
                b['msgs'] = []
            elif op == 'bswap' and len(ms) > 1:
                j = k % (len(ms) - 1)
                ms[j], ms[j + 1] = ms[j + 1], ms[j]
            self.write_box(fi, o.get('tm', '+'))

    # -------------------------------------------------------------- mboxes
    def boxpath(self, fi):
        f = self.folders[fi]
        return os.path.join(self.w.base, f['name'] + ('.' + f['z'] if f.get('z') else ''))

    def box_bytes(self, fi):
        f = self.folders[fi]
        return world.mbox_bytes([self.w.data(e) for e in self.boxes[fi]['msgs']], f.get('fmt', 'mbox'), 0)

    def write_box(self, fi, how):
        """Keeps to the documented assumption that, in a changed mbox, everything before a
        message found in its old place is unchanged (mbox.c, find_number_intact)."""
        b = self.boxes[fi]
        p = self.boxpath(fi)
        old = self.indexed.get(p)
        data, pos = self.box_bytes(fi)
        if old and not self.nopad:
            n = 0
            while n < 64:
                bad = None
                ok = [data[s:t] == old[2][s:t] for s, t in old[3]]
                if any(ok):
                    last = max(i for i, x in enumerate(ok) if x)
                    bad = next((i for i in range(last) if not ok[i]), None)
                    if bad is None and (len(pos) <= last or pos[last] != old[3][last]):
                        bad = 0     # an old message survives as a part of something else
                if bad is None:
                    break
                self.labels.add('mbox-shifted')
                # lengthen a message that changed, so that what follows moves
                j = min(bad, len(b['msgs']) - 1)
                e = dict(b['msgs'][j])
                e['m'] = dict(e['m'], extra=list(e['m'].get('extra', [])) + ['X-Pad: ' + 'q' * (n + 1)])
                b['msgs'][j] = e
                data, pos = self.box_bytes(fi)
                n += 1
        z = world.compress(self.folders[fi].get('z', ''), data)
        mt = self.tick(how, old[0] if old else None)
        if old and (mt, len(z)) == old[:2] and data != old[2]:
            mt = self.tick('+')
        b['mt'] = mt
        self.w.put(p, z, mt)

    # -------------------------------------------------------------- model
    def docs(self):
        self.w.docs = []
        for rec in self.files:
            data = self.w.data(rec['e'])
            self.w.add_doc(rec['e'], rec['p'], data, ('file', rec['p']),
                           self.flags_of(rec['p'], self.folders[rec['fi']]['kind']))
        for fi, b in self.boxes.items():
            data, pos = self.box_bytes(fi)
            p = self.boxpath(fi)
            for e, (s, t) in zip(b['msgs'], pos):
                d = self.w.add_doc(e, p, data[s:t], ('mbox', p, s, t), set(e.get('mflags', '')))
        return self.w.docs

    def index(self, opts=()):
        """Runs an indexing run; False if a -F run was entitled to miss something."""
        r = self.w.index(*opts)
        fast = '-F' in opts and self.pending
        new = {}
        for rec in self.files:
            p = rec['p']
            data = self.w.data(rec['e'])
            if fast and p in self.indexed:
                new[p] = self.indexed[p]
                continue
            new[p] = (rec['mt'], len(data), data, None)
        for fi in self.boxes:
            p = self.boxpath(fi)
            data, pos = self.box_bytes(fi)
            new[p] = (self.boxes[fi]['mt'], os.path.getsize(p), data, pos)
        # an mbox that vanished is forgotten by mairix, and so here
        self.indexed = new
        if not fast:
            self.pending = False
        docs = self.docs()
        if ('-p' in opts or '--purge' in opts) and not fast:
            self.ghosts = []
        have = {frozenset(g.ids) for g in self.ghosts}
        for d in docs:
            if len(d.ids) > 1 and frozenset(d.ids) not in have:
                have.add(frozenset(d.ids))
                self.ghosts.append(d)
        return not fast

    def all_listed(self):
        if not os.path.exists(self.w.db):
            return
        got = self.w.search(['p:' + 'mail'])
        world.compare(got, [d.key for d in self.docs()], 'p:mail (every message)')


def closure(docs, start):
    """Thread closure of the documents in start over the documents in docs, by identity."""
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    for i, d in enumerate(docs):
        a = find(('d', i))
        for t in d.ids:
            par[a] = find(('t', t))
            a = find(a)
    roots = {find(('d', i)) for i, d in enumerate(docs) if id(d) in start}
    return {id(d) for i, d in enumerate(docs) if find(('d', i)) in roots}


def queries(r, st, n, terms='wzFdp'):
    names = ['mail/' + f['name'] for f in st.folders]
    return [simple.rquery(r, names, terms=terms) for _ in range(n)]


def verify(st, qs, exact_threads, keys=None):
    """All searches agree with the model now."""
    docs = st.docs()
    if not os.path.exists(st.w.db):
        if docs:
            raise Violation('no database although there is mail')
        return
    st.all_listed()
    for q in qs:
        args = [simple.show(a) for a in q]
        want = [d for d in docs if simple.match(q, d)]
        got = st.w.search(args)
        world.compare(got, [d.key for d in want], 'search %r' % (args,))
        if keys is not None and 0 < len(want) < len(docs):
            keys.add((tuple(args), len(want), len(docs)))
        if len(args) == 1:
            got = st.w.search(args, opts=['-t'])
            lo = closure(docs, {id(d) for d in want})
            bykey = {d.key: d for d in docs}
            for k in got:
                if k not in bykey:
                    raise Violation('-t %r lists %r, which does not exist' % (args, k))
            g = {id(bykey[k]) for k in got}
            if len(g) != len(got):
                raise Violation('-t %r lists a message twice' % (args,))
            hi = lo
            if not exact_threads:
                everything = docs + st.ghosts
                hi = closure(everything, {id(d) for d in want})
            miss = [d.key for d in docs if id(d) in lo - g]
            extra = [d.key for d in docs if id(d) in g - hi]
            if miss or extra:
                raise Violation('-t %r: missing=%r unrelated=%r' % (args, miss, extra))
    # Message-ID searches
    for d in docs[:6]:
        for m in d.mid:
            got = st.w.search(['m:' + m])
            world.compare(got, [x.key for x in docs if m in x.mid], 'search m:%s' % m)
