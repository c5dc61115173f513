"""Configuration is read as documented."""
import os, random, re, stat
import world
from core import Violation

ID = 'C21'
COUNT = {'quick': 16000, 'thorough': 400000}
BUDGET = {'quick': 150, 'thorough': 1500}
RULE = ('case = an rc file with the documented directives in random order, letter case, indentation, with comments, blank and very long lines, '
        'lists split over lines, values spelled through ~/, $VAR and ${VAR} (set and unset), at $HOME/.mairixrc or given by -f/--rcfile, '
        'MAIRIX_* variables, -o/-r/-x/-H options and a working directory; or the same with a required setting missing or a bad option. '
        'After an indexing run and a few searches exactly the expected database, result folder and messages exist, and nothing '
        'else changed. Non-trivial: an environment override, expansion or error is involved.')
FROZEN = ('d', 'err', 'rcmode')
SHRINK_STRINGS = False
MD = ['md1', 'md2', 'sub/md3', 'co:lon', 'a b', '~/td']
MH = ['mh1', 'mh2']
MB = ['box1', 'box2', 'linkbox']
FMTS = ['maildir', 'mh', 'mbox', 'raw', 'excerpt']
ERRS = ['nobase', 'nodb', 'nofolders', 'nomfolder', 'norc', 'badopt', 'noarg-f', 'noarg-o', 'bothimap', 'badhash', 'dbdir', 'nosearchdb', 'nohome']


def rlist(r, names):
    return r.sample(names, r.randint(1, len(names)))


def gen(r, k, tier):
    lines = []

    def add(d, v=None):
        lines.append({'d': d, 'v': v})
    base = r.choice(['@/b1', '@/b2', '@/home/b3'])
    if r.random() < .15:
        add('base', r.choice(['@/b1', '@/b2', '@/nowhere']))    # a later line wins
    add('base', base)
    add('database', r.choice(['@/db', '@/home/.db', '@/dir/data base', 'rel.db', './rel.db']))
    if r.random() < .9:
        add('mfolder', r.choice(['mf', 'm f', '@/mfabs', './mfdot', 'sub/mf', '.mfhid', '..mf', '~mf']))
    if r.random() < .85:
        add('mformat', r.choice(FMTS))
        if r.random() < .1:
            add('mformat', r.choice(FMTS))
    for d, names, p in (('maildir', MD, .8), ('mh', MH, .6), ('mbox', MB, .6)):
        if r.random() < p:
            for _ in range(r.choice([1, 1, 2])):
                add(d, None)
                lines[-1]['l'] = [('abs2/' if r.random() < .1 else '') + x for x in rlist(r, names)]
    seen = set()
    for l in lines:         # no folder twice
        if 'l' in l:
            l['l'] = [x for x in l['l'] if not ((l['d'], x) in seen or seen.add((l['d'], x)))]
        if (l.get('l') or [''])[0] == '~/td':       # at the start of a value it would mean the home directory
            l['l'] = l['l'][1:] + ['~/td'] if len(l['l']) > 1 else []
    lines = [l for l in lines if l.get('l') != []]
    if not any('l' in l for l in lines):
        lines.append({'d': 'maildir', 'v': None, 'l': ['md1']})
    if r.random() < .15:
        lines.append({'d': 'omit', 'v': r.choice(['md1', 'mh*', 'box?', '**2', 'sub/*'])})
    if r.random() < .3:
        lines.append({'d': 'nochecks', 'v': None})
    if r.random() < .3:
        lines.append({'d': 'follow_mbox_symlinks', 'v': None})
    if r.random() < .2:
        lines.append({'d': 'sort', 'v': 'date+'})
    # the order of lines for different settings does not matter
    other = [l for l in lines if l['d'] != 'base']
    bases = [l for l in lines if l['d'] == 'base']
    # (of two lines for the same setting the later one wins)
    r.shuffle(other)
    pos = sorted(r.randrange(len(other) + 1) for _ in bases)
    for p, b in reversed(list(zip(pos, bases))):
        other.insert(p, b)
    env = {}
    if r.random() < .4:
        for v, vals in (('MAIRIX_FOLDER_BASE', ['@/b1', '@/b2']), ('MAIRIX_MAILDIR_FOLDERS', ['md1', 'md2:sub/md3', 'co\\:lon']),
                        ('MAIRIX_MH_FOLDERS', ['mh1', 'mh2:mh1']), ('MAIRIX_MBOXEN', ['box1', 'box2:box1']),
                        ('MAIRIX_MFOLDER', ['envmf', '@/envmf']), ('MAIRIX_DATABASE', ['@/envdb', 'env.db'])):
            if r.random() < .35:
                env[v] = r.choice(vals)
    searches = []
    for _ in range(r.choice([1, 2, 3])):
        s = {'o': r.choice([None, None, None, 'omf', '@/omf', './omf']), 'f': r.choice(['', '', '', '-r', '-x', '--raw-output']),
             'q': r.choice(['s:common', 's:word1', 's:word2', 's:nosuch']), 'H': r.random() < .15, 'long': r.random() < .3,
             'v': r.random() < .1, 'dd': r.random() < .12}
        searches.append(s)
    return {'lines': other, 'env': env, 'rcmode': r.choice(['f', 'f', 'rcfile', 'home', 'home']), 'cwd': r.choice(['@', '@/cw', '@/home']),
            'seed': r.randrange(1 << 30), 'plain': r.random() < .2, 'searches': searches,
            'err': r.choice(ERRS) if r.random() < .2 else '', 'iopt': r.choice([[], [], ['-v'], ['-Q'], ['--verbose', '-p'], ['-F']])}


def spell(r, v, home, env, plain):
    """A way of writing the value v in the rc file."""
    if plain:
        return v
    out = ''
    if v.startswith(home + '/') and r.random() < .5:
        if r.random() < .6:
            out, v = '~/', v[len(home) + 1:]
        else:
            out, v = r.choice(['$HOME', '${HOME}']), v[len(home):]
    n = r.choice([0, 0, 1, 2])
    for _ in range(n):
        if not v:
            break
        i = r.randrange(len(v))
        j = min(len(v), i + r.choice([1, 2, 4, 12, 200]))
        if re.search(r'[$~{}]', v[i:j]) or ':' in v[i:j]:
            continue
        name = r.choice(['FOO', 'A_1', 'x9', '_u', 'LONG_NAME_OF_A_VARIABLE', 'B']) + str(len(env))
        env[name] = v[i:j]
        nxt = v[j:j + 1]
        ref = '${' + name + '}' if re.match('[A-Za-z0-9_]', nxt) or r.random() < .5 else '$' + name
        out += v[:i] + ref
        v = v[j:]
    if r.random() < .15:
        out += r.choice(['${NOT_SET}', '${}']) if v[:1].isalnum() or v[:1] == '_' else r.choice(['$NOT_SET', '${NOT_SET}'])
    if out == '' and v.startswith('~'):
        return v
    return out + v


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds + fs:
            p = os.path.join(d, x)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[p] = ('l', os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[p] = ('d',)
            else:
                with open(p, 'rb') as f:
                    out[p] = ('f', f.read())
    return out


def check(case, sb):
    root = sb.dir
    home = root + '/home'
    docs = {}       # (base, kind, name) -> (key, data, subject words)
    for d in ('home', 'b1', 'b2', 'home/b3', 'dir', 'cw', 'out', 'abs2'):
        os.mkdir(root + '/' + d)

    def put(p, data):
        with open(p, 'wb') as f:
            f.write(data)
    n = 0
    for b in ('b1', 'b2', 'home/b3', 'abs2'):
        B = root + '/' + b
        os.mkdir(B + '/sub')
        for name in MD:
            n += 1
            for s in ('new', 'cur', 'tmp'):
                os.makedirs(B + '/' + name + '/' + s)
            data = b'Subject: common word%d\nDate: %d Jan 2001 00:00:00 +0000\n\nx\n' % (n % 3, 1 + n % 28)
            p = B + '/' + name + '/new/1.2.h'
            put(p, data)
            docs[B, 'maildir', name] = (('file', p), data, n % 3, 1 + n % 28)
        for name in MH:
            n += 1
            os.mkdir(B + '/' + name)
            put(B + '/' + name + '/.mh_sequences', b'')
            data = b'Subject: common word%d\nDate: %d Jan 2001 00:00:00 +0000\n\nx\n' % (n % 3, 1 + n % 28)
            p = B + '/' + name + '/7'
            put(p, data)
            docs[B, 'mh', name] = (('file', p), data, n % 3, 1 + n % 28)
        for name in MB:
            n += 1
            data = b'Subject: common word%d\nDate: %d Jan 2001 00:00:00 +0000\n\nx\n\n' % (n % 3, 1 + n % 28)
            sep = b'From bob@example.com Thu Jan  1 00:00:00 1970\n'
            p = B + '/' + name
            if name == 'linkbox':
                put(root + '/out/%d' % n, sep + data)
                os.symlink(root + '/out/%d' % n, p)
            else:
                put(p, sep + data)
            docs[B, 'mbox', name] = (('mbox', p, len(sep), len(sep) + len(data)), data, n % 3, 1 + n % 28)
    r = random.Random(case['seed'])
    env = {'HOME': home}
    cwd = case['cwd'].replace('@', root)

    def real(v):
        return v.replace('@', root) if v.startswith('@') else v
    # ---- the rc file
    text = []

    def cmt():
        """A comment at the end of the line."""
        if case['plain'] or r.random() > .12:
            return ''
        return r.choice('#!;%') + r.choice([' a comment', 'x', '', ':md2', ' # more', '=raw', ' $HOME ${B', ' ~/', '\\:x'])
    cfg = {'maildir': [], 'mh': [], 'mbox': [], 'omit': [], 'mformat': 'maildir'}
    err = case['err']
    skip = {'nobase': ['base'], 'nodb': ['database'], 'nofolders': ['maildir', 'mh', 'mbox'], 'nomfolder': ['mfolder']}.get(err, [])
    for l in case['lines']:
        d = l['d']
        if d in skip:
            continue
        if 'l' in l:
            ents = [root + '/' + x if x.startswith('abs2/') else x for x in l['l']]
            cfg[d] += ents
            v = ':'.join(x.replace(':', '\\:') for x in ents)
        elif d == 'omit':
            v = l['v']
            cfg['omit'].append(v)
        elif l['v'] is None:
            v = None
            cfg[d] = True
        else:
            v = real(l['v'])
            cfg[d] = v
        c = r.random()
        if d in ('maildir', 'mh') and not case['plain'] and r.random() < .06:
            d = {'maildir': 'folders', 'mh': 'mh_folders'}[d]       # the old names
        dd = d if c < .7 or case['plain'] else d.upper() if c < .85 else d.capitalize()
        if not case['plain'] and r.random() < .2:
            text.append(r.choice(['', '   ', '\t', 'colour=red', 'Folders', 'mh', 'mbox box1', '=', 'a', '\0x', '~/', 'maildir\t', 'folder=md1', 'xbase=/nowhere',
                                  'Folders', 'mh_folder=mh1', 'sort=date', 'SORT=size+', '# comment', '#base=/nowhere', '  # mfolder=zzz', '#' * 4000, '#maildir=md1:md2', '! x']))
        ind = r.choice(['', '', '', ' ', '\t', '    ']) if not case['plain'] else ''
        if d == 'mformat':
            v = v if r.random() < .6 else v.upper() if r.random() < .5 else v.capitalize()
        if d == 'sort':
            text.append(ind + dd + '=' + r.choice(['date+', 'date+', 'Date+', 'DATE+']) + cmt())
        elif v is None:
            text.append(ind + dd + cmt())
        else:
            cm = cmt()
            sv = spell(r, v, home, env, case['plain'])
            if 'l' in l and r.random() < .05 and not case['plain']:
                # a line close to the longest that is read (entries that do not exist are only warned about)
                k = 4085 - len(ind + dd + '=' + sv + cm)
                while k > 8:
                    sv += ':nosuch'
                    k -= 7
            text.append(ind + dd + '=' + sv + cm)
    if not case['plain'] and r.random() < .1:
        text.append(r.choice(['folders', 'Folders', 'colour', '\0']))
    data = '\n'.join(text) + ('\n' if r.random() < .9 else '')
    if case['rcmode'] == 'home':
        rcp = home + '/.mairixrc'
        args = []
        if r.random() < .5:
            put(root + '/decoy', b'base=/nowhere\n')
    else:
        rcp = root + '/my rc'
        args = [{'f': '-f', 'rcfile': '--rcfile'}[case['rcmode']], rcp]
        put(home + '/.mairixrc', b'base=/nowhere\ndatabase=' + home.encode() + b'/wrongdb\nmaildir=md1\n')
    if err != 'norc':
        put(rcp, data.encode('latin-1'))
    elif case['rcmode'] == 'home' and os.path.exists(rcp):
        os.unlink(rcp)
    mxenv = {k: real(v) for k, v in case['env'].items() if not (
        (err == 'nobase' and k == 'MAIRIX_FOLDER_BASE') or (err == 'nodb' and k == 'MAIRIX_DATABASE') or
        (err == 'nomfolder' and k == 'MAIRIX_MFOLDER') or (err == 'nofolders' and k in (
            'MAIRIX_MAILDIR_FOLDERS', 'MAIRIX_MH_FOLDERS', 'MAIRIX_MBOXEN')))}
    env.update(mxenv)
    # ---- the effective configuration
    base = mxenv.get('MAIRIX_FOLDER_BASE', cfg.get('base'))
    dbp = mxenv.get('MAIRIX_DATABASE', cfg.get('database'))
    for e, d in (('MAIRIX_MAILDIR_FOLDERS', 'maildir'), ('MAIRIX_MH_FOLDERS', 'mh'), ('MAIRIX_MBOXEN', 'mbox')):
        if e in mxenv:
            cfg[d] = [x.replace('\\:', ':') for x in re.split(r'(?<!\\):', mxenv[e])]
    sel = {}
    import C17
    om = [C17.to_re(o) for o in cfg['omit']]
    for d in ('maildir', 'mh', 'mbox'):
        for x in cfg[d]:
            B, nm = (root + '/abs2', x[len(root) + 6:]) if x.startswith(root + '/abs2/') else (base, x)
            if any(o.match(x) for o in om):
                continue
            if (B, d, nm) not in docs or (nm == 'linkbox' and not cfg.get('follow_mbox_symlinks')):
                continue
            sel[B, d, nm] = docs[B, d, nm]
    before = snapshot(root)
    labels = {case['rcmode']}

    def run(a, stdin=None):
        return sb.run(args + a, env=env, cwd=cwd)

    def unchanged(what, res):
        if res.rc == 0 or res.rc < 0:
            raise Violation('%s: exit status %d: %r' % (what, res.rc, res))
        if not (res.err or res.out):
            raise Violation('%s: nothing is reported' % what)
        after = snapshot(root)
        if after != before:
            diff = [p for p in set(before) | set(after) if before.get(p) != after.get(p)]
            raise Violation('%s: changed %r' % (what, diff[:3]))
        return {'evals': 1, 'nontrivial': True, 'labels': labels | {'err-' + err}}
    if err in ('nobase', 'nodb', 'norc', 'nofolders'):
        return unchanged(err, run(list(case['iopt'])))
    if err == 'nohome':
        # the home directory comes from the user database then, and nobody has no rc file there
        env['HOME'] = None
        return unchanged(err, sb.run(list(case['iopt']) + r.choice([[], ['s:common']]), env=env, cwd=cwd))
    if err == 'badopt':
        return unchanged(err, run([r.choice(['--nosuch', '-z', '-rx', '--fast', '-'])] + r.choice([[], ['s:common']])))
    if err == 'noarg-f':
        return unchanged(err, sb.run(list(case['iopt']) + [r.choice(['-f', '--rcfile'])], env=env, cwd=cwd))
    if err == 'noarg-o':
        return unchanged(err, run([r.choice(['-o', '--mfolder'])]))
    if err == 'badhash':
        return unchanged(err, run(['--force-hash-key-new-database'] + r.choice([[], ['abc']])))
    if err == 'bothimap':
        with open(rcp, 'ab') as f:
            f.write(b'\nimap_pipe=true\nimap_server=localhost\n')
        before = snapshot(root)
        return unchanged(err, run([]))
    if err == 'dbdir':
        p = os.path.join(cwd, dbp)
        os.mkdir(p)
        before = snapshot(root)
        return unchanged(err, run([]))
    if err == 'nosearchdb':
        return unchanged(err, run(['-r', 's:common']))
    if not sel:
        return {'evals': 0, 'nontrivial': False}
    # ---- indexing
    what = 'with rc %r, env %r' % ('\n'.join(t for t in text if not t.startswith('#'))[:700], mxenv)
    res = run(list(case['iopt']))
    if res.rc:
        raise Violation('indexing %s failed: %r' % (what, res))
    db = os.path.normpath(os.path.join(cwd, dbp))
    after = snapshot(root)
    new = [p for p in after if before.get(p) != after[p]] + [p for p in before if p not in after]
    if new != [db]:
        raise Violation('indexing %s wrote %r, not %r' % (what, new[:4], db))
    evals = 1
    if err == 'nomfolder':
        before = after
        f = cfg['mformat']
        if f in ('raw', 'excerpt'):
            res = run(['s:common'])
            if res.rc:
                raise Violation('search %s without mfolder: %r' % (what, res))
            return {'evals': 2, 'nontrivial': True, 'labels': labels | {'raw-without-mfolder'}}
        return unchanged(err, run(['s:common']))
    for s in case['searches']:
        prev = snapshot(root)
        a = []
        mf = mxenv.get('MAIRIX_MFOLDER', cfg.get('mfolder'))
        if s['o']:
            mf = real(s['o'])
            a += ['--mfolder' if s['long'] else '-o', mf]
        fmt = cfg['mformat']
        if s['f']:
            a.append(s['f'])
            fmt = 'excerpt' if s['f'] == '-x' else 'raw'
        if s['H']:
            a.append('-H')
        if s['v']:
            a.append('-v')
        if mf is None and fmt not in ('raw', 'excerpt'):
            continue
        res = run(a + (['--'] if s.get('dd') else []) + [s['q']])
        w = s['q'][2:]
        want = {k: v for k, v in sel.items() if w == 'common' or w == 'word%d' % v[2]}
        evals += 1
        wh = 'search %s %s' % (a + [s['q']], what)
        if res.rc != (0 if want else 1):
            raise Violation('%s: exit status %d, %d matches expected: %r' % (wh, res.rc, len(want), res))
        now = snapshot(root)
        changed = {p for p in set(prev) | set(now) if prev.get(p) != now.get(p)}
        keys = sorted(v[0] for v in want.values())
        labels.add(fmt)
        if fmt in ('raw', 'excerpt'):
            if changed:
                raise Violation('%s changed %r' % (wh, sorted(changed)[:3]))
            lines = [l for l in res.out.split(b'\n') if l.startswith((b'/', b'mbox:'))]
            got = world.parse_raw(b'\n'.join(lines))
            if sorted(got) != keys:
                raise Violation('%s lists %r, not %r' % (wh, got[:5], keys[:5]))
            if (b'\n  Subject:' in res.out) != (fmt == 'excerpt' and bool(want)):
                raise Violation('%s: output is not in %s form: %r' % (wh, fmt, res.out[:200]))
            if cfg.get('sort'):
                ds = [next(v[3] for v in want.values() if v[0] == g) for g in got]
                if ds != sorted(ds):
                    raise Violation('%s: not sorted by date' % wh)
            continue
        full = mf if mf.startswith('/') else os.path.join(cwd, mf) if mf.startswith('./') else base + '/' + mf
        full = os.path.normpath(full)
        bad = [p for p in changed if p != full and not p.startswith(full + '/')]
        if bad:
            raise Violation('%s changed %r, outside %r' % (wh, sorted(bad)[:3], full))
        ents = {p[len(full):]: x for p, x in now.items() if p.startswith(full + '/') or p == full}
        if fmt == 'mbox':
            if ents.get('', 'x')[0] != 'f' or ents[''][1].count(b'From mairix@mairix ') != len(want):
                raise Violation('%s: result mbox %r is wrong' % (wh, full))
        else:
            need = {'maildir': ['', '/new', '/cur', '/tmp'], 'mh': ['']}[fmt]
            if any(ents.get(x) != ('d',) for x in need):
                raise Violation('%s: no %s folder at %r' % (wh, fmt, full))
            got = [x for p, x in ents.items() if x[0] != 'd' and (fmt == 'maildir' or re.match(r'/\d+$', p))]
            if len(got) != len(want):
                raise Violation('%s: %d messages in %r, not %d' % (wh, len(got), full, len(want)))
            links = sorted(x[1] for x in got if x[0] == 'l')
            exp = [] if s['H'] else sorted(v[0][1] for v in want.values() if v[0][0] == 'file')
            if links != exp:
                raise Violation('%s: links to %r, not %r' % (wh, links[:3], exp[:3]))
        # start each search afresh, so that formats do not get in each other's way
        for p in sorted((p for p in now if p == full or p.startswith(full + '/')), key=len, reverse=True):
            if now[p][0] == 'd':
                os.rmdir(p)
            else:
                os.unlink(p)
    return {'evals': evals, 'nontrivial': bool(mxenv) or len(env) > 1, 'labels': labels | ({'env'} if mxenv else set()) | (
        {'expansion'} if len(env) > 1 + len(mxenv) else set()), 'sample': {'rc': text, 'env': env, 'searches': case['searches']}}


def valid(case):
    ds = [l['d'] for l in case['lines']]
    return ('base' in ds and 'database' in ds and any('l' in l for l in case['lines']) and all('l' not in l or l['l'] and l['l'][0] != '~/td' for l in case['lines'])
            and all(v for v in case['env'].values()))
