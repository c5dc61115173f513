"""A mailbox that changed after it was indexed never yields wrong mail."""
import os, random
import simple, world
from core import Violation

ID = 'C16'
COUNT = {'quick': 12000, 'thorough': 300000}
BUDGET = {'quick': 150, 'thorough': 1500}
RULE = ('case = 1-3 mailboxes (mbox, MMDF, gz/bz2/xz), indexed in one or two steps, then changed behind the index (bytes flipped at message '
        'edges and inside, inserted, deleted, truncated, messages swapped, removed, appended or duplicated, file emptied, removed, made '
        'unreadable or replaced), then searched into maildir, MH, mbox and excerpt results, with and without --augment; a matched message is '
        'copied out byte for byte if the bytes at its indexed place are unchanged, and otherwise not at all, with a warning. '
        'Non-trivial: at least one matched message changed and the file is still readable.')
FROZEN = ('kind', 'name', 'fmt', 'z', 'e', 'op', 'mf')
OPS = ['flip', 'flip', 'edge', 'edge', 'ins', 'del', 'trunc', 'truncmsg', 'swap', 'drop', 'dup', 'append', 'empty', 'remove', 'unread',
       'dir', 'replace', 'grow', 'none', 'edithdr', 'swapbytes', 'fromline']


def gen(r, k, tier):
    folders = []
    for i in range(r.choice([1, 1, 2, 3])):
        f = {'kind': 'mbox', 'name': 'box%d' % i, 'fmt': r.choice(['mbox', 'mbox', 'mmdf']), 'z': r.choice(['', '', '', 'gz', 'bz2', 'xz']),
             'lb': r.random() < .6, 'msgs': []}
        for _ in range(r.choice([1, 2, 3, 5, 9])):
            e = simple.smsg(r)
            simple.rstatus(r, e)
            c = r.random()
            if c < .1:
                e['m']['body']['text'] += 'pad %d\n' % r.randrange(9) * r.choice([1, 10, 100, 9000])
            elif c < .2 and f['msgs']:
                e = f['msgs'][r.randrange(len(f['msgs']))]      # equal messages
            f['msgs'].append(e)
        f['first'] = r.choice([0, 0, 0, 1, 2])                     # messages held back for the second indexing run
        if f['first']:
            f['lb'] = True      # messages are appended whole
        folders.append(f)
    muts = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        muts.append({'i': r.randrange(3), 'op': r.choice(OPS), 's': r.randrange(1 << 30)})
    searches = []
    for _ in range(r.choice([1, 2, 3])):
        q = simple.rquery(r, ['mail/box0', 'mail/box1'], nargs=1, maxor=2, maxand=1) if r.random() < .4 else \
            [{'k': 'p', 'or': [[{'n': False, 'w': 'mail', 's': None, 'a': False}]]}]
        searches.append({'q': q, 'mf': r.choice(['maildir', 'mh', 'mbox', 'excerpt']), 'a': r.random() < .3, 't': r.random() < .1})
    return {'folders': folders, 'muts': muts, 'searches': searches, 'opt': r.choice([[], [], ['-p'], ['-v']])}


def mutate(op, seed, data, pos, fmt):
    """New content of the (uncompressed) mailbox, or None to leave the bytes alone."""
    r = random.Random(seed)
    n = len(data)
    if op == 'none' or n == 0 or not pos:
        return data
    s, e = pos[r.randrange(len(pos))]
    if op == 'flip':
        out = bytearray(data)
        for _ in range(r.choice([1, 1, 3])):
            i = r.randrange(n)
            out[i] ^= r.choice([1, 32, 128, 255])
        return bytes(out)
    if op == 'edge':
        i = r.choice([s, s + 1, e - 1, e - 2, s - 1, e, s + (e - s) // 2])
        if not 0 <= i < n:
            i = min(s, n - 1)
        out = bytearray(data)
        out[i] ^= r.choice([1, 32, 64])
        return bytes(out)
    if op == 'swapbytes' and s + 3 < min(e, n):
        e = min(e, n)
        i, j = sorted((r.randrange(s, e), r.randrange(s, e)))
        out = bytearray(data)
        out[i], out[j] = out[j], out[i]
        return bytes(out)
    if op == 'edithdr':
        return data.replace(b'Subject: ', r.choice([b'Subject:  ', b'SUBJECT: ', b'subject: ']), r.choice([1, -1]))
    if op == 'fromline':
        # only separators change, messages stay where they are
        return data.replace(b'From bob', b'From Bob') if fmt == 'mbox' else data
    if op == 'ins':
        i = r.choice([0, s, e, r.randrange(n)])
        return data[:i] + bytes(r.choice(b'ab\n ') for _ in range(r.choice([1, 2, 50]))) + data[i:]
    if op == 'del':
        i = r.choice([0, s, r.randrange(n)])
        return data[:i] + data[i + r.choice([1, 2, 50]):]
    if op == 'trunc':
        return data[:r.randrange(n)]
    if op == 'truncmsg':
        return data[:r.choice([s, e, e - 1, e - 2, s + 1, (s + e) // 2])]
    chunks = [data[a:b] for a, b in pos]
    if op in ('swap', 'drop', 'dup', 'append', 'replace'):
        if op == 'swap':
            r.shuffle(chunks)
        elif op == 'drop':
            del chunks[r.randrange(len(chunks))]
        elif op == 'dup':
            chunks.insert(r.randrange(len(chunks) + 1), r.choice(chunks))
        elif op == 'append':
            chunks.append(b'Subject: new plum\n\nfig\n\n')
        else:
            chunks = [b'Subject: other\n\nkiwi %d\n\n' % i for i in range(r.randint(1, 12))]
        out = b''
        for c in chunks:
            out += (world.MMDF + c + world.MMDF) if fmt == 'mmdf' else world.FROM_LINES[r.randrange(3)] + c
        return out
    if op == 'grow':
        return data + b'From bob@example.com Thu Jan  1 00:00:00 1970\nSubject: late\n\nlime\n'
    return data


def check(case, sb):
    base = sb.path('mail')
    os.mkdir(base)
    rc = sb.path('rc')
    names = [f['name'] + ('.' + f['z'] if f['z'] else '') for f in case['folders']]

    def write_rc(fmt):
        with open(rc, 'w') as f:
            f.write('base=%s\ndatabase=%s\nmfolder=mf\nmformat=%s\nmbox=%s\n' % (base, sb.path('db'), fmt, ':'.join(names)))

    def put(i, data, mt):
        p = os.path.join(base, names[i])
        with open(p, 'wb') as f:
            f.write(world.compress(case['folders'][i]['z'], data))
        os.utime(p, (mt, mt))
    write_rc('raw')

    def store(held):
        w = []
        for i, f in enumerate(case['folders']):
            ms = [simple.mail.render(e['m']) for e in f['msgs']]
            if held and f['first']:
                ms = ms[:max(1, len(ms) - f['first'])]
            data, pos = world.mbox_bytes(ms, f['fmt'], 0, f['lb'])
            put(i, data, 1000000 + (0 if held else 100))
            w.append((data, pos))
        return w
    if any(f['first'] for f in case['folders']):
        store(True)
        r = sb.run(['-f', rc])
        if r.rc:
            raise Violation('indexing failed: %r' % r)
    w = store(False)
    r = sb.run(['-f', rc] + case['opt'])
    if r.rc:
        raise Violation('indexing failed: %r' % r)
    docs = []
    for i, f in enumerate(case['folders']):
        data, pos = w[i]
        for e, (s, t) in zip(f['msgs'], pos):
            d = simple.mail.expect(e['m'])
            d.path = os.path.join(base, names[i])
            d.key = ('mbox', d.path, s, t)
            d.data = data[s:t]
            d.size = t - s
            d.flags = set(e.get('mflags', ''))
            d.date = e['day']
            d.fi = i
            docs.append(d)
    cur = [x[0] for x in w]
    readable = [True] * len(cur)
    for m in case['muts']:
        i = m['i'] % len(cur)
        p = os.path.join(base, names[i])
        if not readable[i]:
            continue
        if m['op'] in ('remove', 'dir', 'unread', 'empty'):
            if m['op'] == 'empty':
                open(p, 'w').close()
            elif m['op'] == 'unread':
                os.chmod(p, 0)
                if os.access(p, os.R_OK):       # running as root after all
                    continue
            else:
                os.unlink(p)
                if m['op'] == 'dir':
                    os.mkdir(p)
            cur[i] = b''
            readable[i] = False
            continue
        f = case['folders'][i]
        cur[i] = mutate(m['op'], m['s'], cur[i], w[i][1], f['fmt'])
        put(i, cur[i], 1000200)
    for d in docs:
        s, t = d.key[2:]
        d.ok = readable[d.fi] and cur[d.fi][s:t] == d.data
    labels = {m['op'] for m in case['muts']}
    nontriv = False
    evals = 0
    mfcount = {}
    mfdata = b''
    for n, s in enumerate(case['searches']):
        args = [simple.show(a) for a in s['q']]
        want = [d for d in docs if simple.match(s['q'], d)]
        good = [d for d in want if d.ok]
        bad = [d for d in want if not d.ok]
        if any(readable[d.fi] for d in bad):
            nontriv = True
        write_rc(s['mf'])
        mf = os.path.join(base, 'mf-' + s['mf'])
        opts = ['-o', mf] + (['-a'] if s['a'] else []) + (['-x'] if s['mf'] == 'excerpt' and n % 2 else [])
        r = sb.run(['-f', rc] + opts + args)
        evals += 1
        what = '%s into %s after %s' % (args, s['mf'] + (' -a' if s['a'] else ''), [m['op'] for m in case['muts']])
        labels.add(s['mf'])
        if r.rc != (0 if want else 1):
            raise Violation('search %s: exit status %d with %d matches: %r' % (what, r.rc, len(want), r))
        if bool(bad) != (b'WARNING' in r.err and b'checksum' in r.err.lower()):
            raise Violation('search %s: %d of %d matches are stale, stderr is %r' % (what, len(bad), len(want), r.err[:300]))
        if s['mf'] == 'excerpt':
            blocks = r.out.split(b'---------------------------------\n')[1:]
            for b in blocks:
                lines = b.split(b'\n')
                k = world.parse_raw(lines[0])
                d = [d for d in want if [d.key] == k]
                if not d:
                    raise Violation('search %s: excerpt of %r' % (what, lines[0]))
                shown = any(l.startswith(b'  ') for l in lines[1:])
                if shown != d[0].ok:
                    raise Violation('search %s: excerpt %s headers of %r, whose bytes are %s' % (
                        what, 'shows' if shown else 'lacks', lines[0], 'intact' if d[0].ok else 'stale'))
                if shown:
                    subj = [simple.mail.segs_text(x[1]).strip() for e in case['folders'][d[0].fi]['msgs'] for x in e['m']['h'] if x[0] == 'Subject']
                    got = [l[12:].strip().decode('latin-1') for l in lines if l.startswith(b'  Subject:')]
                    if got and got[0] not in subj:
                        raise Violation('search %s: excerpt shows subject %r' % (what, got))
            if len(blocks) != len(want):
                raise Violation('search %s: %d excerpts for %d matches' % (what, len(blocks), len(want)))
            continue
        if s['mf'] == 'mbox':
            data = b''
            if os.path.exists(mf):
                with open(mf, 'rb') as f:
                    data = f.read()
            if s['a']:
                if not data.startswith(mfdata):
                    raise Violation('search %s: augmenting lost what was there' % what)
                new = data[len(mfdata):]
            else:
                new = data
            mfdata = data
            left = sorted(good, key=lambda d: -len(d.data))
            while new:
                for d in left:
                    c = b'From mairix@mairix Mon Jan  1 12:34:56 1970\nX-source-folder: ' + d.path.encode() + b'\n' + d.data
                    c += b'' if d.data.endswith(b'\n\n') else b'\n' if d.data.endswith(b'\n') else b'\n\n'
                    if new.startswith(c):
                        new = new[len(c):]
                        left.remove(d)
                        break
                else:
                    raise Violation('search %s: the result mbox holds %r, which is no intact match' % (what, new[:200]))
            if left:
                raise Violation('search %s: intact match %r is missing' % (what, left[0].key))
            continue
        got = []
        for sub in (('new', 'cur') if s['mf'] == 'maildir' else ('',)):
            dd = os.path.join(mf, sub)
            for x in os.listdir(dd):
                with open(os.path.join(dd, x), 'rb') as f:
                    got.append(f.read())
        exp = []
        for d in good:
            b = d.data[:-1] if d.data.endswith(b'\n\n') else d.data
            exp.append(b'X-source-folder: ' + d.path.encode() + b'\n' + b)
        # a maildir entry has a name of its own per message, MH adds new ones
        old = mfcount.get(s['mf'], []) if s['a'] else []
        if s['mf'] == 'maildir' and s['a']:
            allowed = set(old) | set(exp)
            if set(got) != allowed:
                raise Violation('search %s: result folder holds %d contents, %d expected' % (what, len(set(got)), len(allowed)))
        elif sorted(got) != sorted(old + exp):
            extra = [x for x in got if x not in exp and x not in old]
            raise Violation('search %s: %d messages in the result folder, %d intact matches expected; not an intact match: %r' % (
                what, len(got), len(old + exp), extra[:1]))
        mfcount[s['mf']] = got
    return {'evals': evals, 'nontrivial': nontriv, 'labels': labels,
            'sample': {'muts': case['muts'], 'searches': [[simple.show(a) for a in s['q']] + [s['mf']] for s in case['searches']]}}


def valid(case):
    return all(f['lb'] or not f['first'] for f in case['folders']) and bool(case['folders']) and all(f['msgs'] for f in case['folders']) and all(s['q'] and all(
        'or' not in a or (a['or'] and all(c and all(i['w'] for i in c) for c in a['or'])) for a in s['q']) and all(
            'F' not in a or a['F'].strip('-') for a in s['q']) for s in case['searches'])
