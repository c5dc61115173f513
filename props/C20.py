"""IMAP mail is indexed, found and delivered like local mail."""
import os, re, shutil
import imapd, mail, simple, world
import C14
from core import Violation

ID = 'C20'
COUNT = {'quick': 4000, 'thorough': 100000}
BUDGET = {'quick': 200, 'thorough': 1800}
BUILDS = ['plain', 'asan', 'relay', 'fault']
RULE = ('case = 1-4 IMAP folders (names with spaces, quotes, colons, backslashes, non-ASCII) on a strict scripted server with a random style '
        '(login or pre-authenticated, segmentation, interleaved untagged responses, order of items, quoted strings or literals), local '
        'folders beside them, and 4-14 steps: messages added, expunged, flagged, UIDVALIDITY changed, folders created and removed, indexing '
        '(-p, -F, -Q), searches into raw, excerpt, maildir, MH, mbox and IMAP results (-a, -t, existing, full or missing IMAP '
        'mfolder, an indexed folder as mfolder), and server faults (connection dropped, login or command refused, message withheld). The oracle '
        'is a model of the server and of the index; the server keeps a log of all commands. Non-trivial: a search matched a '
        'proper non-empty subset including an IMAP message after at least one change on the server was indexed.')
FROZEN = ('kind', 'name', 'fmt', 'z', 'e', 'op')
SHRINK_STRINGS = False
NAMES = ['INBOX', 'Sent Items', 'lists/dev', 'Lists.Users', 'Work', 'q"uote', 'caf\xe9', 'a:b', 'back\\slash', 'Trash', 'Trash2', '(paren)', 'x{5}',
         "it's", '[Gmail]/All', 'A', '*star', 'per&AOk-son']
RESULTS = ['Results', 'mairix out', 'res"q', 'r\xe9s', 'r/a\\b', '{3}']


def ids(r, h):
    if r.random() < .7:
        h.append(['Message-ID', [{'t': '<id%d@h.org>' % r.randrange(12), 'e': '', 'f': ''}]])
    if r.random() < .3:
        h.append(['In-Reply-To', [{'t': '<id%d@h.org>' % r.randrange(12), 'e': '', 'f': ''}]])
    if r.random() < .2:
        h.append(['References', [{'t': ' '.join('<id%d@h.org>' % r.randrange(12) for _ in range(r.randint(1, 2))), 'e': '', 'f': ''}]])


def rmsg(r):
    e = simple.smsg(r, ids=ids, att=True)
    fl = [x for x in ('\\Seen', '\\Answered', '\\Flagged', '\\Draft', '$Junk') if r.random() < .25]
    if r.random() < .08:
        fl.append('\\Deleted')
    if r.random() < .08:
        # text without a line end, which is no mail but is delivered all the same; servers may send it as a quoted string
        e = {'m': {'h': [], 'v': 0, 'body': {'k': 'leaf', 'text': '', 'sub': 'plain', 'cte': '', 'fn': None, 'v': 0}}, 'day': 0}
        one = r.choice(['Subject: "apple" pear\\', '\\', 'a: "b\\" \\\\plum""', 'Subject: fig (x {3}', '"', 'apple', 'Subject: \t"a', 'x' * 300, '', 'ki\0wi', '\0'])
        return {'e': e, 'flags': fl, 'one': one}
    return {'e': e, 'flags': fl, 'nl': r.random() < .2, 'big': r.random() < .03}


def rstyle(r):
    s = {'seed': r.randrange(10 ** 6)}
    if r.random() < .3:
        s['chunk'] = r.choice([1, 3, 20, 1000])
    if r.random() < .1:
        s['slow'] = 1
    if r.random() < .4:
        s['noise'] = r.choice([1, 1, 2])
    for k in ('quoted', 'recent', 'gcaps', 'lcaps', 'caps', 'extra', 'order', 'unsol'):
        if r.random() < .4:
            s[k] = 1
    s['greet'] = r.choice(['', '', ' ready', ' [ALERT] x', ' [X-FOO 1 "a b"] (hi)', ' [] x', ' (CAPABILITY IMAP4rev1) x', ' CAPABILITY', ' "hello"', ''])
    if r.random() < .4:
        s['login'] = [r.choice(['bob', 'bob smith', 'b\xf6b', 'b"b', 'dom\\bob', '\x7f', 'b\\', 'bo\tb', 'b)', '*']), r.choice(['secret', 'pass word', 'p"w', 'p\\w', 'p\xe4ss', '{1}', '()', 'x' * 30, 'x' * 700, '"', '\\', 'p~', '\x7f\x80'])]
    return s


def gen(r, k, tier):
    names = r.sample(NAMES, r.randint(1, 4))
    folders = [{'name': n, 'uv': r.choice([1, 7, 1234567890, 4294967295]), 'next': r.choice([1, 1, 5, 99999]),
                'msgs': [rmsg(r) for _ in range(r.choice([0, 1, 2, 5, 9]))], 'exists': r.random() < .93} for n in names]
    if r.random() < .012:
        folders[0]['bulk'] = r.choice([1015, 1030, 1200, 2100])
        folders[0]['exists'] = True
    local = simple.sfolders(r, r.choice([2, 6]), nmin=1, ids=ids) if r.random() < .6 else []
    for f in local:
        f['name'] = f['name'].replace('/', '_')  # the omit patterns here are for the server's folders
    # blanks around separators are dropped, so none in words
    pn = [max(n.split(), key=len) for n in names] + ['%d:%d:%s' % (f['uv'], f['next'], f['name'].split()[0]) for f in folders]
    steps = [{'op': 'index', 'opt': []}]
    for _ in range(r.randint(4, 14)):
        c = r.random()
        if c < .14:
            s = {'op': 'add', 'f': r.randrange(9), 'm': rmsg(r)}
        elif c < .2:
            s = {'op': 'expunge', 'f': r.randrange(9), 'i': r.randrange(99)}
        elif c < .26:
            s = {'op': 'flag', 'f': r.randrange(9), 'i': r.randrange(99), 'fl': r.choice(['\\Deleted', '\\Deleted', '\\Seen', '\\Flagged']), 'set': r.random() < .6}
        elif c < .29:
            s = {'op': 'uv', 'f': r.randrange(9), 'renum': r.random() < .5}
        elif c < .31:
            s = {'op': 'folder', 'f': r.randrange(9)}
        elif c < .35:
            s = {'op': 'deliver', 'e': simple.smsg(r, ids=ids), 'big': r.choice([0, 0, 0, 7000, 60000])}
        elif c < .55:
            s = {'op': 'index', 'opt': r.choice([[], [], [], ['-p'], ['-F'], ['-Q'], ['-v']])}
            if r.random() < .25:
                s['fault'] = r.choice([{'drop': r.randint(1, 14)}, {'drop': r.randint(1, 14)}, {'refusecmd': r.randint(1, 14)}, {'refuse': 1}, {'nolit': 1}, {'hide': 1},
                                       {'badlogin': 1}, {'nocmd': 1}, {'cut': int(10 ** r.uniform(1, 4))}, {'cut': int(10 ** r.uniform(2, 4))},
                                       {'garble': r.choice([.1, .3, 1])}, {'garble': r.choice([.1, .3, 1])}])
        else:
            s = {'op': 'search', 'q': simple.rquery(r, pn, terms='wdp', maxor=2, maxand=2), 'out': r.choice(['raw', 'raw', 'excerpt', 'maildir', 'mh', 'mbox', 'imap', 'imap', 'imap']),
                 'opt': [o for o, p in (('-a', .4), ('-t', .25)) if r.random() < p], 'mf': r.randrange(2), 'via': r.choice(['o', 'rc'])}
            if r.random() < .35:
                s['q'] = [{'k': None, 'or': [[{'n': True, 'w': 'zzz', 's': None, 'a': False}]]}]
            if s['out'] == 'imap' and r.random() < .12:
                s['src'] = r.randrange(9)
            if r.random() < .12:
                s['fault'] = r.choice([{'drop': r.randint(1, 8)}, {'refusecmd': r.randint(1, 8)}, {'refuse': 1}, {'hide': 1}, {'cut': int(10 ** r.uniform(1, 4))}, {'garble': r.choice([.1, .3, 1])},
                                       {'garble': r.choice([.1, .3, 1])}])
        steps.append(s)
    if r.random() < .1:
        # a server that talks nonsense
        for s in steps[1:]:
            if s['op'] == 'search' and r.random() < .7 or s['op'] == 'index' and r.random() < .4:
                s['fault'] = {'garble': r.choice([.1, .3, .3, 1])} if r.random() < .8 else {'mem': int(10 ** r.uniform(.5, 4))}
                if r.random() < .3:
                    s['q'] = [{'k': None, 'or': [[{'n': True, 'w': 'zzz', 's': None, 'a': False}]]}]
        for i in range(len(steps) - 1, 0, -1):
            if steps[i]['op'] == 'index' and set(steps[i].get('fault', ())) & {'garble', 'mem'}:
                steps.insert(i + 1, {'op': 'index', 'opt': []})
    return {'folders': folders, 'local': local, 'steps': steps, 'style': rstyle(r), 'omit': r.choice(['', '', '', 'Trash', 'Trash*', '*/*:A']),
            'split': r.random() < .3, 'res': [[n, r.choice([None, 0, 0, 1, 3])] for n in r.sample(RESULTS, 2)], 'v': 'asan' if r.random() < .25 else 'plain'}


def gmatch(pats, s):
    # * in omit patterns takes any characters, / included
    return any(re.fullmatch(re.escape(p).replace('\\*', '.*'), s, re.S) for p in pats)


def threads(docs, hits):
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    for d in docs:
        a = find(('m', d.key))
        for i in d.ids:
            par[find(('i', i))] = a
            a = find(a)
    roots = {find(('m', d.key)) for d in hits}
    return [d for d in docs if find(('m', d.key)) in roots]


def idsof(e):
    out = []
    for n, s in e['m']['h']:
        if n in ('Message-ID', 'In-Reply-To', 'References'):
            out += re.findall('<[^>]*>', mail.segs_text(s))
    return out


class W(C14.W):
    rcx = ''

    def rc_text(self):
        return world.World.rc_text(self).replace('mfolder=mfolder\n', '') + self.rcx


def esc(n):
    return n.replace(':', '\\:')


def unix(s):
    return s.replace('\r\n', '\n')


def check(case, sb):
    srv = imapd.Server(sb.path('sock'))
    try:
        return check1(case, sb, srv)
    finally:
        srv.close()


def check1(case, sb, srv):
    w = W(sb, case['local'])
    w.build()
    style = case['style']
    F = srv.folders
    exp = {}                        # (folder, uv, uid) -> message structure

    def put(f, m):
        data = mail.render(m['e']['m'])
        if m.get('big'):
            data += b'. . . . .\n' * 6000
        data = data.decode('latin-1')
        if 'one' in m:
            data = m['one']
        elif not m.get('nl'):
            data = data.replace('\n', '\r\n')
        g = F[f]
        x = {'uid': g['next'], 'data': data, 'flags': list(m['flags']), 'e': m['e'], **({'one': m['one']} if 'one' in m else {})}
        g['next'] += 1
        g['msgs'].append(x)

    order = [f['name'] for f in case['folders']]
    for f in case['folders']:
        F[f['name']] = {'uv': f['uv'], 'next': f['next'], 'msgs': []}
        for m in f['msgs']:
            put(f['name'], m)
        for i in range(f.get('bulk', 0)):
            put(f['name'], {'e': {'m': {'h': [['Subject', [{'t': 'bulk b%d' % i, 'e': '', 'f': ''}]]], 'v': 0, 'body': {'k': 'leaf', 'text': '', 'sub': 'plain', 'cte': '', 'fn': None, 'v': 0}}, 'day': 0}, 'flags': []})
    gone = {}
    for f in case['folders']:
        if not f['exists']:
            gone[f['name']] = F.pop(f['name'])
    for n, k in case['res']:
        if k is not None:
            F[n] = {'uv': 3, 'next': 1 + k, 'msgs': [{'uid': i + 1, 'data': 'Subject: junk %d\r\n\r\nold\r\n' % i, 'flags': ['\\Seen']} for i in range(k)]}
    omit = [p for p in case['omit'].split(':') if p]
    listed = [n for n in order if not gmatch(omit, n)]

    def write_rc(fmt='raw', mf='unused', fault=None):
        w.mformat = fmt
        x = ['mfolder=' + mf]
        if fault and 'nocmd' in fault:
            x.append('imap_pipe=exit 1')
        else:
            x.append('imap_pipe=exec %s %s' % (sb.bins['relay'], srv.path))
        if case['split']:
            x += ['imap=' + esc(n) for n in order]
        else:
            x.append('IMAP=' + ':'.join(esc(n) for n in order))
        if style.get('login'):
            u, p = style['login']
            x += ['imap_username=' + u, 'imap_password=' + ('wrong' if fault and 'badlogin' in fault else p)]
        if case['omit']:
            x.append('omit=' + case['omit'])
        w.rcx = '\n'.join(x) + '\n'
        w.write_rc()
        srv.style = dict(style)
        for k, v in (fault or {}).items():
            if k == 'hide':
                v = [m['uid'] for f in F.values() for m in f['msgs']][::2]
            srv.style[k] = v

    def run(args, **kw):
        del srv.log[:]
        n = srv.sessions
        v = case['v']
        if 'mem' in srv.style:
            v = 'plain'
            kw['env'] = {'LD_PRELOAD': sb.bins['fault'], 'FAULT_CLASS': 'mem', 'FAULT_ERRNO': '12', 'FAULT_AT': str(srv.style['mem']), 'FAULT_MANY': str(srv.style['mem'] % 2)}
        r = w.mairix(args, variant=v, **kw)
        srv.settle()
        if r.rc < 0 or r.rc == 99 or b'Sanitizer' in r.err:
            raise Violation('mairix %r crashed: %r' % (args, r))
        if os.path.exists(w.db + '.lock'):
            raise Violation('mairix %r left its lock behind: %r' % (args, r))
        if srv.error:
            raise RuntimeError(srv.error)
        return r

    def snapshot(skip=()):
        return {n: (f['uv'], f['next'], [(m['uid'], m['data'], list(m['flags'])) for m in f['msgs']]) for n, f in F.items() if n not in skip}

    def watch(before, mf, what):
        after = snapshot((mf,))
        for n in sorted(set(before) | set(after)):
            if n != mf and before.get(n) != after.get(n):
                raise Violation('%s changed the IMAP folder %r' % (what, n))
        for l in srv.log:
            if ('garble' in srv.style or 'mem' in srv.style) and ('bad' in l or l['sel'] is None):
                continue                # answers to nonsense
            if 'bad' in l:
                raise Violation('%s sent the server %r' % (what, l['bad']))
            if l['cmd'] in ('STORE', 'UID STORE', 'EXPUNGE', 'CLOSE') and l['sel'] != mf:
                raise Violation('%s sent %s %r in folder %r' % (what, l['cmd'], l['args'], l['sel']))
            if l['cmd'] in ('SELECT', 'CREATE', 'APPEND', 'DELETE', 'RENAME') and imapd.name(l['args'][0]) != mf:
                raise Violation('%s sent %s for folder %r' % (what, l['cmd'], l['args'][0]))
            if l['cmd'] == 'UID COPY' and imapd.name(l['args'][1]) != mf:
                raise Violation('%s copied to folder %r' % (what, l['args'][1]))

    idx = {}                        # pseudo path -> doc
    evals = 0
    nontriv = False
    labels = set([case['v']])
    ndel = 0
    stale = False                   # indexed at least once
    unsure = False                  # the last indexing run met a fault
    changed = False
    died = False
    first_mh = next((f for f in case['local'] if f['kind'] == 'mh'), None)
    for d in w.docs:
        d.ids = idsof(d.e)
    locs = []
    oldbox = []
    for si, s in enumerate(case['steps']):
        op = s['op']
        if op in ('add', 'expunge', 'flag', 'uv', 'folder'):
            n = order[s['f'] % len(order)]
            if op == 'folder':
                if n in F:
                    gone[n] = F.pop(n)
                else:
                    F[n] = gone.pop(n)
                changed = True
                continue
            if n not in F:
                continue
            g = F[n]
            changed = True
            if op == 'add':
                put(n, s['m'])
            elif op == 'uv':
                g['uv'] = g['uv'] % 4000000000 + 1
                if s['renum']:
                    for i, m in enumerate(g['msgs']):
                        m['uid'] = i + 1
                    g['next'] = len(g['msgs']) + 1
            elif g['msgs']:
                m = g['msgs'][s['i'] % len(g['msgs'])]
                if op == 'expunge':
                    g['msgs'].remove(m)
                elif s['set'] and s['fl'] not in m['flags']:
                    m['flags'].append(s['fl'])
                elif not s['set'] and s['fl'] in m['flags']:
                    m['flags'].remove(s['fl'])
            continue
        if op == 'deliver':
            if first_mh:
                ndel += 1
                p = os.path.join(w.base, first_mh['name'], str(500 + ndel))
                data = w.data(s['e']) + b'. . . .\n' * s.get('big', 0)
                w.put(p, data)
                w.add_doc(s['e'], p, data, ('file', p), set()).ids = idsof(s['e'])
            continue
        fault = s.get('fault')
        if fault and 'badlogin' in fault and not style.get('login'):
            fault = None
        if op == 'index':
            write_rc(fault=fault)
            before = snapshot()
            dbb = open(w.db, 'rb').read() if os.path.exists(w.db) else None
            r = run(s['opt'])
            evals += 1
            watch(before, None, 'indexing %r' % s['opt'])
            if fault:
                labels.add('fault-' + list(fault)[0])
                if 'garble' in fault or 'mem' in fault:
                    # who knows what was indexed; start anew
                    if r.rc not in (0, 1, 2, 3):
                        raise Violation('indexing with %r: exit status %r' % (fault, r))
                    if os.path.exists(w.db):
                        os.unlink(w.db)
                    idx, stale, died = {}, False, False
                    continue
                if r.rc not in (0, 1, 2):
                    raise Violation('indexing with %r: exit status %r' % (fault, r))
                if ('refuse' in fault or 'nolit' in fault or 'badlogin' in fault or 'nocmd' in fault):
                    if r.rc == 0:
                        raise Violation('indexing without the server (%r) reports success: %r' % (fault, r))
                    now = open(w.db, 'rb').read() if os.path.exists(w.db) else None
                    if now != dbb:
                        raise Violation('indexing without the server (%r) changed the database' % fault)
                else:
                    unsure = died = True
                continue
            if r.rc != 0:
                raise Violation('indexing failed: %r' % r)
            unsure = False
            before_idx = idx
            idx = {}
            for n in listed:
                if n in F:
                    for m in F[n]['msgs']:
                        if '\\Deleted' not in m['flags']:
                            d = mail.expect(m['e']['m'])
                            d.path = '%d:%d:%s' % (F[n]['uv'], m['uid'], n)
                            d.key = ('file', d.path)
                            d.e = m['e']
                            d.ids = idsof(d.e)
                            d.date = m['e'].get('day')
                            d.data = m['data']
                            d.where = (n, F[n]['uv'], m['uid'])
                            d.flags = set()
                            d.noparse = bool(m.get('one')) and '\0' not in m['one']
                            d.nul = '\0' in m.get('one', '')
                            idx[d.path] = d
            # deleted messages may still hold a thread together
            died = died or set(before_idx) - set(idx)
            locs = list(w.docs)
            stale = True
            continue
        # search
        if unsure or not stale or not os.path.exists(w.db):
            continue
        docs = list(idx.values()) + locs
        sopt = [o for o in s['opt'] if o != '-t' or not died]
        want = [d for d in docs if simple.match(s['q'], d)]
        if '-t' in sopt:
            want = threads(docs, want)
        args = [simple.show(a) for a in s['q']]
        out = s['out']
        src = None
        if out == 'imap':
            mf = case['res'][s['mf']][0]
            if 'src' in s:
                mf = src = order[s['src'] % len(order)]
                if mf not in listed:
                    src = None          # omitted, so it is free for results
                    labels.add('into-omitted')
                elif mf == 'INBOX' and si % 2:
                    mf = 'Inbox'
        else:
            mf = '%s/mf-%s%d' % (sb.dir, out, s['mf'])
        opts = list(sopt)
        if s['via'] == 'o':
            opts += ['-o', mf]
        write_rc(out, mf if s['via'] == 'rc' else 'unused', fault)
        before = snapshot()
        what = 'search %r into %s %r' % (opts + args, out, mf)
        tb = C14.tree(mf) if out in ('maildir', 'mh', 'mbox') else {}
        r = run(opts + args)
        evals += 1
        if src:
            labels.add('into-indexed')
            watch(before, None, what)
            if r.rc != 3 and not (r.rc == 2 and 'mem' in (fault or {})):
                raise Violation('%s was not refused: %r' % (what, r))
            continue
        watch(before, mf if out == 'imap' else None, what)
        if fault and ('garble' in fault or 'mem' in fault):
            labels.add('searchfault-' + list(fault)[0])
            if r.rc not in (0, 1, 2, 3):
                raise Violation('%s with %r: exit status %r' % (what, fault, r))
            # the result folder may hold anything now; a local one is removed, an IMAP one emptied
            if out == 'imap' and mf in F:
                F[mf]['msgs'] = []
            elif out in ('maildir', 'mh', 'mbox'):
                shutil.rmtree(mf, ignore_errors=True)
                if os.path.exists(mf):
                    os.unlink(mf)
            continue
        if fault:
            labels.add('searchfault-' + list(fault)[0])
        if r.rc != (0 if want else 1):
            raise Violation('%s: exit status %r with %d matches' % (what, r, len(want)))
        im = [d for d in want if hasattr(d, 'where')]
        if im and len(want) < len(docs) and changed:
            nontriv = True
        labels.add(out)
        if out == 'raw':
            world.compare(world.parse_raw(r.out), [d.key for d in want], what)
            continue
        alive = []
        for d in want:
            if hasattr(d, 'where'):
                n, uv, uid = d.where
                if n not in F or F[n]['uv'] != uv or not any(m['uid'] == uid for m in F[n]['msgs']):
                    continue
            alive.append(d)
        if out == 'excerpt':
            if not fault and len(alive) == len(want) and not any(getattr(d, 'nul', 0) for d in want):
                C14.excerpt_check(r.out, want, args)
            continue
        m = re.search(rb'^Matched (\d+) messages$', r.out, re.M)
        if not m or int(m.group(1)) != len(want):
            raise Violation('%s prints %r with %d matches' % (what, r.out[:100], len(want)))
        aug = '-a' in sopt
        if out == 'imap':
            old = [(unix(d), sorted(f)) for _, d, f in before[mf][2]] if mf in before and aug else []
            if not aug and mf in before and before[mf][2]:
                labels.add('cleared')
            if mf not in before:
                labels.add('created')
            if mf not in F:
                if alive and not fault:
                    raise Violation('%s: the folder does not exist afterwards' % what)
                continue
            got = [(unix(x['data']), sorted(x['flags'])) for x in F[mf]['msgs']]
            exp = list(old)
            for d in alive:
                if hasattr(d, 'where'):
                    n, uv, uid = d.where
                    x = next(x for x in F[n]['msgs'] if x['uid'] == uid)
                    exp.append((unix(x['data']), sorted(x['flags'])))
                else:
                    fl = [{'S': '\\Seen', 'R': '\\Answered', 'F': '\\Flagged'}[c] for c in d.flags]
                    exp.append((unix(d.data.decode('latin-1')), sorted(fl)))
            if fault:
                # what the server withheld may be missing, and a refused deletion leaves the old messages
                was = [(x, sorted(f)) for x, f in [(unix(d), f) for _, d, f in before[mf][2]]] if mf in before else []
                pool = exp if aug else exp + was + [(x, sorted(f + ['\\Deleted'])) for x, f in was]
                for x in got:
                    if x not in pool:
                        raise Violation('%s with %r: the folder holds %r, which is no match' % (what, fault, x))
                    pool.remove(x)
                continue
            if sorted(got) != sorted(exp):
                miss = [x for x in exp if x not in got]
                ext = [x for x in got if x not in exp]
                raise Violation('%s: the folder holds %d messages, not %d; missing %r, unexpected %r' % (what, len(got), len(exp), miss[:2], ext[:2]))
            continue
        ta = C14.tree(mf)
        if out == 'mbox':
            old = tb[''][2] if aug and '' in tb else b''
            data = ta[''][2] if '' in ta else b''
            if not data.startswith(old):
                raise Violation('%s: augmenting lost what was there' % what)
            data = data[len(old):]
            left = []
            for d in alive:
                if hasattr(d, 'where'):
                    left.append(b'From mairix@mairix Mon Jan  1 12:34:56 1970\n' + d.data.encode('latin-1') + b'\n')
                else:
                    left.append(C14.chunk(d))
            left.sort(key=len, reverse=True)
            while data:
                for c in left:
                    if data.startswith(c):
                        data = data[len(c):]
                        left.remove(c)
                        break
                else:
                    raise Violation('%s: the mbox holds %r where no match is due' % (what, data[:200]))
            if fault:
                left = [C14.chunk(d) for d in alive if not hasattr(d, 'where') and C14.chunk(d) in left]
            if left:
                raise Violation('%s: the mbox lacks %r' % (what, left[0][:200]))
            continue
        newe = {p: e for p, e in ta.items() if e[0] != 'dir' and not p.endswith('.mh_sequences')}
        olde = {p: e for p, e in tb.items() if e[0] != 'dir' and not p.endswith('.mh_sequences')}
        if aug:
            for p in olde:
                if p not in newe:
                    raise Violation('%s: augmenting removed %r' % (what, p))
        pool = list(alive)
        for p in sorted(newe):
            e = newe[p]
            if aug and olde.get(p) == e:
                continue
            hit = None
            for d in pool:
                if hasattr(d, 'where'):
                    ok = e[0] == 'file' and e[2] == d.data.encode('latin-1')
                elif d.key[0] == 'file':
                    ok = e[0] == 'link' and e[1] == d.path
                else:
                    ok = e[0] == 'file' and C14.copy_ok(e[2], d)
                if ok:
                    hit = d
                    break
            if hit is None:
                if aug and out == 'maildir':
                    continue            # known finding of C14: names may collide after a purge
                raise Violation('%s: entry %r (%r) is no match' % (what, p, e[:2]))
            pool.remove(hit)
        if fault:
            pool = [d for d in pool if not hasattr(d, 'where')]
        if pool and not (aug and out == 'maildir'):
            raise Violation('%s: %r is not in the result folder' % (what, pool[0].key))
    return {'evals': evals, 'nontrivial': nontriv, 'labels': labels,
            'sample': {'folders': [(f['name'], len(f['msgs'])) for f in case['folders']], 'style': style,
                       'steps': [(s['op'], s.get('out'), s.get('opt'), s.get('fault'), [simple.show(a) for a in s.get('q', [])]) for s in case['steps']]}}


def valid(case):
    def good(q):
        return q and all(('or' not in a) or (a['or'] and all(c and all(i['w'] for i in c) for c in a['or'])) for a in q)
    return bool(case['folders']) and all(f['msgs'] for f in case['local']) and len(case['res']) == 2 and case['steps'] and all(
        s['op'] != 'search' or good(s['q']) for s in case['steps']) and case['steps'][0]['op'] == 'index'
