"""The result folder holds exactly the matches, byte for byte."""
import datetime, os, re, shutil, stat
import mail, simple, world
from core import Violation

ID = 'C14'
COUNT = {'quick': 22000, 'thorough': 250000}
BUDGET = {'quick': 90, 'thorough': 1500}
RULE = ('case = a store over all storage formats and a sequence of 2-9 searches into maildir, MH, mbox, raw and excerpt results (several '
        'result folders, -a, -H, -t, -o, absolute and relative names), with deliveries, re-indexing and a mail reader renaming or '
        'deleting results in between, dangling links and files that are no messages left in result folders, and time zones; after each search the directory or file is compared entry by entry and byte by byte with the '
        'model, other result folders must be untouched. Non-trivial: some search matched a proper non-empty subset into a folder '
        'that was not empty.')
FROZEN = ('kind', 'name', 'fmt', 'z', 'e', 'op')
KEEP = ('.mh_sequences', 'notes.txt', '12a')
FMT = ['maildir', 'mh', 'mbox']


def ids(r, h):
    for n, p in (('Message-ID', .5), ('In-Reply-To', .3)):
        if r.random() < p:
            h.append([n, [{'t': '<%d@h.org>' % r.randrange(10 ** 12), 'e': '', 'f': ''}]])


def gen(r, k, tier):
    folders = simple.sfolders(r, r.choice([4, 10, 25]), ids=ids)
    for f in folders:
        if f['kind'] == 'mbox':
            f['lb'] = r.random() < .6
        for e in f['msgs']:
            if r.random() < .1:
                e['m']['body']['text'] += '\n' * r.randint(1, 3)
            if f['kind'] != 'mbox' and r.random() < .15:
                e['m']['body']['text'] = e['m']['body']['text'].rstrip('\n')
            if r.random() < .1:
                # bytes that text should not hold but does
                e['m']['body']['text'] = e['m']['body']['text'].rstrip('\n') + r.choice(['\r\n', '\r\n\r\n', '\n\0\n', ' \0', '\0\0\n\n', '\n\xff\x80\n'])
    names = ['mail/' + f['name'] for f in folders]
    steps = []
    for _ in range(r.randint(2, 9)):
        c = r.random()
        if c < .8:
            s = {'op': 'search', 'q': simple.rquery(r, names, maxor=2, maxand=2), 'mf': r.randrange(3), 'opt': []}
            if r.random() < .3:
                s['q'] = [{'k': 'p', 'or': [[{'n': False, 'w': 'mail', 's': None, 'a': False}]]}]
            if r.random() < .35:
                s['opt'].append(r.choice(['-a', '--augment']))
            if r.random() < .25:
                s['opt'].append(r.choice(['-H', '--force-hardlinks']))
            if r.random() < .1:
                s['opt'].append(r.choice(['-r', '-x', '--raw-output', '--excerpt-output']))
            if r.random() < .1:
                s['opt'].append(r.choice(['-t', '--threads']))
            s['ow'] = r.choice(['o', 'o', 'rc', 'abs', 'long'])
        elif c < .87:
            s = {'op': 'mua', 'mf': r.randrange(3), 'i': r.randrange(100)}
        elif c < .9:
            s = {'op': 'junk', 'mf': r.randrange(3), 'i': r.randrange(4)}
        elif c < .95:
            s = {'op': 'rm', 'mf': r.randrange(3), 'i': r.randrange(100)}
        else:
            s = {'op': 'deliver', 'e': simple.smsg(r, ids=ids)}
        steps.append(s)
    return {'folders': folders, 'fmts': [r.choice(FMT + ['maildir']) for _ in range(3)], 'steps': steps, 'sort': r.random() < .1,
            'tz': r.choice(['UTC', 'UTC', 'XXX-9', 'XXX-1', 'XXX+7'])}


def tree(p):
    """Everything under p: relative path -> description."""
    out = {}
    if not os.path.lexists(p):
        return out
    todo = ['']
    while todo:
        d = todo.pop()
        full = os.path.join(p, d) if d else p
        st = os.lstat(full)
        if stat.S_ISDIR(st.st_mode):
            out[d] = ('dir',)
            for x in os.listdir(full):
                todo.append(os.path.join(d, x) if d else x)
        elif stat.S_ISLNK(st.st_mode):
            out[d] = ('link', os.readlink(full))
        else:
            with open(full, 'rb') as f:
                out[d] = ('file', st.st_ino, f.read())
    return out


def copy_ok(content, d):
    pre = b'X-source-folder: ' + d.path.encode('latin-1') + b'\n'
    if not content.startswith(pre):
        return False
    body = content[len(pre):]
    return body == d.data or (d.data.endswith(b'\n\n') and body == d.data[:-1])


def identify(ent, docs, full):
    """Which documents an entry can stand for."""
    if ent[0] == 'link':
        return [d for d in docs if d.key[0] == 'file' and d.path == ent[1]]
    if ent[0] == 'file':
        out = [d for d in docs if d.key[0] == 'file' and os.stat(d.path).st_ino == ent[1]]
        return out or [d for d in docs if d.key[0] == 'mbox' and copy_ok(ent[2], d)]
    return []


def chunk(d):
    b = b'From mairix@mairix Mon Jan  1 12:34:56 1970\nX-source-folder: ' + d.path.encode('latin-1') + b'\n' + d.data
    if d.data.endswith(b'\n\n'):
        return b
    return b + (b'\n' if d.data.endswith(b'\n') else b'\n\n')


def parse_mbox(data, docs):
    """Consumes one chunk per document from data in any order; returns what is left unmatched."""
    # longest first: a message may be another one less a blank line
    left = sorted(docs, key=lambda d: -len(chunk(d)))
    while data:
        for d in left:
            c = chunk(d)
            if data.startswith(c):
                data = data[len(c):]
                left.remove(d)
                break
        else:
            return data[:200], left
    return b'', left


def hdr(d, name):
    v = [mail.segs_text(s).strip() for n, s in d.e['m']['h'] if n == name]
    return v


def excerpt_check(out, want, args):
    blocks = out.decode('latin-1').split('---------------------------------\n')
    if blocks[0].strip():
        raise Violation('excerpt of %r starts with %r' % (args, blocks[0][:100]))
    left = {}
    for d in want:
        k = d.path if d.key[0] == 'file' else 'mbox:%s [%d,%d)' % d.key[1:]
        left[k] = d
    for b in blocks[1:]:
        lines = b.rstrip('\n').split('\n')
        d = left.pop(lines[0], None)
        if d is None:
            raise Violation('excerpt of %r shows %r, not a match or shown twice' % (args, lines[0]))
        got = {}
        for l in lines[1:]:
            m = re.match(r'  (To|Cc|From|Subject|Message-ID|In-Reply-To|Date): *(.*)$', l)
            if not m:
                raise Violation('excerpt line %r' % l)
            got[m.group(1)] = m.group(2).strip()
        if getattr(d, 'noparse', False):
            if got:
                raise Violation('excerpt of %s shows %r, which is no mail' % (lines[0], got))
            continue
        for n in ('To', 'Cc', 'From', 'Subject', 'Message-ID', 'In-Reply-To'):
            v = hdr(d, n)
            if (v[0] if v else None) != got.get(n):
                raise Violation('excerpt of %s shows %s: %r, the message has %r' % (lines[0], n, got.get(n), v))
        day = datetime.date(1970, 1, 1) + datetime.timedelta(days=d.date)
        if got.get('Date') != day.strftime('%a, %d %b %Y'):
            raise Violation('excerpt of %s shows date %r, the message has %s' % (lines[0], got.get('Date'), day))
    if left:
        raise Violation('excerpt of %r lacks %r' % (args, list(left)))


class W(world.World):
    tz = 'UTC'

    def mairix(self, args, **kw):
        return world.World.mairix(self, args, env=dict({'TZ': self.tz}, **kw.pop('env', {})), **kw)

    def add_doc(self, e, *a):
        d = world.World.add_doc(self, e, *a)
        d.e = e
        return d


def check(case, sb):
    w = W(sb, case['folders'], rc_extra='sort=date+\n' if case['sort'] else '')
    w.tz = case.get('tz', 'UTC')
    w.build()
    w.index()
    ndel = 0
    nontriv = False
    labels = set()
    mfs = [os.path.join(w.base, 'mf%d' % i) for i in range(3)]
    evals = 0
    first_mt = next((f for f in case['folders'] if f['kind'] == 'mh'), None)
    for si, s in enumerate(case['steps']):
        if s['op'] == 'mua':
            # a mail reader marks a result as read
            p = mfs[s['mf']]
            if case['fmts'][s['mf']] == 'maildir' and os.path.isdir(p + '/new') and os.path.isdir(p + '/cur'):
                xs = sorted(os.listdir(os.path.join(p, 'new')))
                if xs:
                    x = xs[s['i'] % len(xs)]
                    os.rename(os.path.join(p, 'new', x), os.path.join(p, 'cur', x.split(':')[0] + ':2,S'))
            elif case['fmts'][s['mf']] == 'mh' and os.path.isdir(p):
                with open(os.path.join(p, '.mh_sequences'), 'w') as f:
                    f.write('cur: 1\n')
            continue
        if s['op'] == 'junk':
            # what earlier searches or mail readers may have left behind
            p, fmt = mfs[s['mf']], case['fmts'][s['mf']]
            if not os.path.lexists(p) and fmt != 'mbox':
                if s['i'] == 0:
                    with open(p, 'w') as f:
                        f.write('the result of a search with mformat=mbox\n')
                    continue
                os.mkdir(p)
                if fmt == 'maildir':
                    for x in ('new', 'cur', 'tmp')[s['i'] - 1:]:
                        os.mkdir(os.path.join(p, x))
            if os.path.isdir(p):
                for x in {'maildir': ['new/1.old', 'cur/2.old:2,S'], 'mh': ['7', '99']}[fmt]:
                    x = os.path.join(p, x)
                    if os.path.isdir(os.path.dirname(x)) and not os.path.lexists(x):
                        os.symlink(os.path.join(w.base, 'long-gone', '1'), x)
                if fmt == 'mh':
                    for x in KEEP:
                        with open(os.path.join(p, x), 'w') as f:
                            f.write('keep me\n')
            continue
        if s['op'] == 'rm':
            p = mfs[s['mf']]
            t = sorted(x for x, e in tree(p).items() if e[0] != 'dir' and x not in KEEP)
            if t:
                os.unlink(os.path.join(p, t[s['i'] % len(t)]) if t != [''] else p)
            continue
        if s['op'] == 'purge':
            # only in the listed finding: a message goes, and the rest are renumbered
            d = next(d for d in w.docs if d.key[0] == 'file')
            os.unlink(d.path)
            w.docs.remove(d)
            w.index('-p')
            continue
        if s['op'] == 'deliver':
            if first_mt:
                ndel += 1
                p = os.path.join(w.base, first_mt['name'], str(500 + ndel))
                data = w.data(s['e'])
                w.put(p, data)
                w.add_doc(s['e'], p, data, ('file', p), set())
                w.index()
            continue
        fmt, mf = case['fmts'][s['mf']], mfs[s['mf']]
        w.mformat = fmt if si % 2 else fmt.upper() if si % 3 == 0 else fmt
        opts = list(s['opt'])
        if s['ow'] == 'rc':
            rcx = 'mfolder=mf%d\n' % s['mf']
        else:
            rcx = 'mfolder=unused\n'
            opts += {'o': ['-o', 'mf%d' % s['mf']], 'long': ['--mfolder', 'mf%d' % s['mf']], 'abs': ['-o', mf]}[s['ow']]
        with open(w.rc, 'wb') as f:
            f.write(w.rc_text().replace('mfolder=mfolder\n', rcx).encode('latin-1'))
        args = [simple.show(a) for a in s['q']]
        want = [d for d in w.docs if simple.match(s['q'], d)]
        before = [tree(m) for m in mfs]
        r = w.mairix(opts + args)
        after = [tree(m) for m in mfs]
        evals += 1
        what = '%s (%s%s)' % (args, fmt, ' ' + ' '.join(s['opt']) if s['opt'] else '')
        if r.rc != (0 if want else 1):
            raise Violation('search %s: exit status %d with %d matches: %r' % (what, r.rc, len(want), r))
        if os.path.lexists(os.path.join(w.base, 'unused')):
            raise Violation('search %s wrote to the mfolder of the rc file although -o was given' % what)
        for i in range(3):
            if i != s['mf'] and before[i] != after[i]:
                raise Violation('search %s changed another result folder' % what)
        raw = any(o in ('-r', '--raw-output') for o in s['opt'])
        exc = any(o in ('-x', '--excerpt-output') for o in s['opt'])
        if raw or exc:
            if before != after:
                raise Violation('search %s with raw or excerpt output touched the result folder' % what)
            if raw:
                world.compare(world.parse_raw(r.out), [d.key for d in want], 'raw ' + what)
            else:
                excerpt_check(r.out, want, args)
            labels.add('raw' if raw else 'excerpt')
            continue
        m = re.search(rb'^Matched (\d+) messages$', r.out, re.M)
        if not m or int(m.group(1)) != len(want):
            raise Violation('search %s prints %r with %d matches' % (what, r.out[:100], len(want)))
        aug = any(o in ('-a', '--augment') for o in s['opt'])
        hard = any(o in ('-H', '--force-hardlinks') for o in s['opt'])
        old, new = before[s['mf']], after[s['mf']]
        labels.add(fmt + ('-aug' if aug else '') + ('-hard' if hard else ''))
        if 0 < len(want) < len(w.docs) and any(e[0] != 'dir' for e in old.values()):
            nontriv = True
        if fmt == 'mbox':
            olddata = old[''][2] if aug and '' in old else b''
            data = new[''][2] if '' in new else b''
            if not data.startswith(olddata):
                raise Violation('search %s: augmenting lost what was there' % what)
            rest, left = parse_mbox(data[len(olddata):], want)
            if rest or left:
                raise Violation('search %s: mbox result is wrong: unexpected %r, missing %r' % (what, rest, [d.key for d in left]))
            continue
        # directories
        need = {'maildir': ['', 'new', 'cur', 'tmp'], 'mh': ['']}[fmt]
        for n in need:
            if new.get(n) != ('dir',):
                raise Violation('search %s: the result folder lacks directory %r' % (what, n))
        olde = {p: e for p, e in old.items() if e[0] != 'dir' and p and p not in KEEP}
        newe = {p: e for p, e in new.items() if e[0] != 'dir' and p and p not in KEEP}
        for p in KEEP:
            if old.get(p) != new.get(p):
                raise Violation('search %s changed or removed %r, which is no message' % (what, p))
        found = {}
        for p, e in newe.items():
            full = os.path.join(mf, p)
            if aug and p in olde:
                same = identify(e, w.docs, full)
                if olde[p] != e and not (fmt == 'maildir' and set(map(id, same)) & set(map(id, identify(olde[p], w.docs, full)))):
                    raise Violation('search %s: augmenting changed entry %r' % (what, p))
                for d in same:
                    found.setdefault(id(d), []).append((p, e, False))
                continue
            cand = identify(e, want, full)
            if not cand:
                raise Violation('search %s: entry %r (%r) is no match' % (what, p, e[:2]))
            for d in cand:
                found.setdefault(id(d), []).append((p, e, True))
            d = cand[0]
            if d.key[0] == 'file' and hard != (e[0] == 'file'):
                raise Violation('search %s: entry %r is a %s' % (what, p, e[0]))
            if fmt == 'maildir':
                sub, name = p.split('/')
                fl = set(name.split(':2,')[1]) if ':2,' in name else set()
                if ':2,' in name and name.split(':2,')[1] != ''.join(sorted(fl)):
                    raise Violation('search %s: the flags of %r are not in ASCII order' % (what, name))
                ok = False
                for d in cand:
                    isnew = d.path.split('/')[-2] == 'new' if d.key[0] == 'file' else 'S' not in d.flags
                    ok = ok or (fl == d.flags and (sub == 'new') == isnew)
                if not ok:
                    raise Violation('search %s: entry %r for a message with flags %r from %s' % (what, p, sorted(d.flags), d.path))
        if aug:
            for p in olde:
                if p not in newe:
                    raise Violation('search %s: augmenting removed %r' % (what, p))
        for d in want:
            fresh = [x for x in found.get(id(d), ()) if x[2]]
            if id(d) not in found or (fmt == 'mh' and not fresh):
                raise Violation('search %s: match %r is not in the result folder' % (what, d.key))
        # messages may be equal byte for byte, so count entries as well
        nnew = len(newe) - (len([p for p in olde if p in newe]) if aug else 0)
        if nnew > len(want) or (not aug and nnew != len(want)) or (fmt == 'mh' and nnew != len(want)):
            raise Violation('search %s: %d new entries for %d matches' % (what, nnew, len(want)))
        if fmt == 'mh':
            for p in newe:
                if not p.isdigit() or p.startswith('0'):
                    raise Violation('search %s: %r is no MH message name' % (what, p))
            if not aug and sorted(map(int, newe)) != list(range(1, len(want) + 1)):
                raise Violation('search %s: MH messages are numbered %r' % (what, sorted(newe)))
    return {'evals': evals, 'nontrivial': nontriv, 'labels': labels,
            'sample': {'fmts': case['fmts'], 'steps': [(s['op'], s.get('opt'), [simple.show(a) for a in s.get('q', [])]) for s in case['steps']]}}


def valid(case):
    def good(q):
        return q and all(('or' not in a) or (a['or'] and all(c and all(i['w'] for i in c) for c in a['or'])) for a in q) \
            and all('F' not in a or a['F'].strip('-') for a in q)
    return bool(case['folders']) and all(f['msgs'] for f in case['folders']) and len(case['fmts']) == 3 and all(
        x in FMT for x in case['fmts']) and all(s['op'] != 'search' or good(s['q']) for s in case['steps'])
