"""The user's mail is never modified."""
import os, random, signal, stat, subprocess, time
import simple, world
from core import Violation

ID = 'C15'
COUNT = {'quick': 14000, 'thorough': 120000}
BUDGET = {'quick': 120, 'thorough': 1500}
RULE = ('case = a store over all formats (folders given literally, by wildcard or by recursion, reached directly or through links), '
        'result folders in and outside base, and 3-9 runs: indexing, purging, dumping, searches into every format with '
        '-a/-H/-t, failing runs, runs killed at a random moment, changes of the mail, -a after purges renumbered the messages, and searches whose result folder is an '
        'indexed folder under some spelling (relative, absolute, ./, .., doubled and trailing slashes, symlink). Everything in the scratch '
        'directory except the database, lock and result folder (type, mode, bytes, mtime, link target) must be the same after '
        'each run; a refused search must change nothing at all. Non-trivial: a search wrote into a result folder that held links '
        'from an earlier one, or was refused.')
FROZEN = ('kind', 'name', 'fmt', 'z', 'e', 'op')
SHRINK_STRINGS = False
FMT = ['maildir', 'mh', 'mbox']
SUB = {'maildir': 'imd', 'mh': 'imh', 'mbox': 'imb'}


def gen(r, k, tier):
    folders = simple.sfolders(r, r.choice([3, 8, 16]), zs=('', '', '', 'gz', 'bz2', 'xz'))
    style = r.choice(['lit', 'lit', 'glob', 'rec', 'abs'])
    for i, f in enumerate(folders):
        f['name'] = '%s/%s%d' % (SUB[f['kind']], {'maildir': 'md', 'mh': 'Mh', 'mbox': 'box'}[f['kind']], i)
    steps = [{'op': 'index', 'opt': []}]
    names = [f['name'] for f in folders]
    for _ in range(r.randint(3, 9)):
        c = r.random()
        if c < .1:
            s = {'op': 'index', 'opt': r.choice([[], ['-p'], ['-F'], ['-v'], ['-Q']])}
        elif c < .2:
            s = {'op': 'change', 'i': r.randrange(1000), 'how': r.choice(['del', 'add', 'edit'])}
        elif c < .25:
            s = {'op': 'run', 'args': r.choice([['-d'], ['-V'], ['-h'], ['--bogus'], ['-o'], ['m:x', 'ms:x'], ['s:abcdefghijklmnopqrstuvwxyzabcdefghijk='],
                                                ['d:nonsense'], ['-o', 'no/such/dir/mf', 'p:mail'], ['k:foo'], ['z:x']])}
        else:
            s = {'op': 'search', 'fmt': r.choice(FMT + ['raw', 'excerpt']), 'mf': r.randrange(3),
                 'opt': [o for o, p in (('-a', .45), ('-H', .35), ('-t', .2), ('-v', .05)) if r.random() < p],
                 'q': r.choice([['p:mail'], ['p:mail'], [r.choice(['apple', 'pear', 'plum', 'fig', 'bob', 'org'])], ['~zzz'], ['nosuchword']])}
            if r.random() < .25:
                s['bad'] = {'f': r.randrange(100), 'sp': r.choice(['rel', 'abs', 'dot', 'dotdot', 'slash', 'dbl', 'link', 'twice']),
                            'via': r.choice(['o', 'rc', 'env'])}
        if s['op'] in ('index', 'search', 'run') and r.random() < .07:
            s['kill'] = [r.choice([1, 2, 3, 9, 9, 15]), r.random() * .006]
        steps.append(s)
    if r.random() < .25:
        # after a purge, the names of earlier results may mean other messages
        a = {'op': 'search', 'fmt': r.choice(['maildir', 'maildir', 'mh']), 'mf': r.randrange(3), 'opt': r.choice([['-a'], ['-a'], ['-H', '-a']]), 'q': ['p:mail']}
        steps += [a] + [{'op': 'change', 'i': r.randrange(1000), 'how': 'del'} for _ in range(r.choice([1, 2, 4]))] + [
            {'op': 'index', 'opt': ['-p']}, dict(a)]
    return {'folders': folders, 'style': style, 'steps': steps, 'mfdir': r.choice(['', '', 'res', 'imd', 'imh', 'imb']), 'ro': r.random() < .15, 'links': r.random() < .2}


def snap(root, skip):
    out = {}
    todo = [root]
    while todo:
        d = todo.pop()
        for n in os.listdir(d):
            p = os.path.join(d, n)
            if p in skip or any(p.startswith(s + '.lock') for s in skip):
                continue
            st = os.lstat(p)
            if stat.S_ISDIR(st.st_mode):
                out[p] = ('dir', st.st_mode)
                todo.append(p)
            elif stat.S_ISLNK(st.st_mode):
                out[p] = ('link', os.readlink(p))
            else:
                with open(p, 'rb') as f:
                    out[p] = ('file', st.st_ino, st.st_mode, st.st_mtime_ns, f.read())
    return out


def differ(a, b):
    out = []
    for p in sorted(set(a) | set(b)):
        if a.get(p) != b.get(p):
            out.append((p, 'created' if p not in a else 'deleted' if p not in b else 'changed from %.80r to %.80r' % (a[p][-1], b[p][-1])))
    return out[:4]


class W(world.World):
    style = 'lit'
    mf = 'mf0'
    extra = ''

    def rc_text(self):
        out = ['base=' + self.base, 'database=' + self.db, 'mfolder=' + self.mf, 'mformat=' + self.mformat]
        for kind in ('maildir', 'mh', 'mbox'):
            names = [f['name'] + ('.' + f['z'] if f.get('z') else '') for f in self.folders if f['kind'] == kind]
            if not names:
                continue
            if self.style == 'glob':
                v = SUB[kind] + '/*'
            elif self.style == 'rec':
                v = SUB[kind] + '...'
            elif self.style == 'abs':
                v = ':'.join(os.path.join(self.base, n) for n in names)
            else:
                v = ':'.join(names)
            out.append(kind + '=' + v)
        return '\n'.join(out) + '\n' + self.extra


def check(case, sb):
    w = W(sb, case['folders'])
    w.style = case['style']
    w.build()
    mfdir = case['mfdir']
    os.makedirs(os.path.join(w.base, 'res'), exist_ok=True)
    for d in SUB.values():
        os.makedirs(os.path.join(w.base, d), exist_ok=True)
    mfrel = [(mfdir + '/' if mfdir else '') + 'mf%d' % i for i in range(3)]
    # where wildcards or recursion would take in the result folders, they are omitted
    w.extra = 'omit=imd/mf*:imh/mf*:imb/mf*\n' + ('follow_mbox_symlinks\n' if case['links'] else '')
    mfs = [os.path.join(w.base, m) for m in mfrel]
    os.mkdir(sb.path('alias'))
    tmpdir = sb.path('tmp')
    os.mkdir(tmpdir)
    if case['links']:
        f = case['folders'][0]
        n = f['name'] + ('.' + f['z'] if f.get('z') else '')
        real = os.path.join(w.base, n)
        os.makedirs(sb.path('elsewhere'))
        os.rename(real, sb.path('elsewhere/real'))
        os.symlink(sb.path('elsewhere/real'), real)
        if f.get('z') or case['style'] == 'rec':
            os.unlink(real)
            os.rename(sb.path('elsewhere/real'), real)
    if case['ro']:
        for root, ds, fsn in os.walk(w.base):
            for x in fsn:
                os.chmod(os.path.join(root, x), 0o400)
    nontriv = False
    labels = set()
    evals = 0
    n = 0
    for si, s in enumerate(case['steps']):
        if s['op'] == 'change':
            allf = sorted(os.path.join(d, x) for d, _, xs in os.walk(w.base) for x in xs if '/mf' not in d and '/mf' not in x and not x.startswith('.'))
            allf = [p for p in allf if '/imd/' in p or '/imh/' in p]
            if not allf:
                continue
            p = allf[s['i'] % len(allf)]
            if s['how'] == 'del':
                os.unlink(p)
            elif s['how'] == 'edit':
                os.chmod(p, 0o600)
                with open(p, 'ab') as f:
                    f.write(b'more kiwi\n')
            else:
                n += 1
                d = os.path.dirname(p)
                w.put(os.path.join(d, str(7000 + n)), b'From: bob@x.org\nSubject: fresh apple\n\nbody\n')
            continue
        opts = []
        refused = False
        env = {'TMPDIR': tmpdir}
        allowed = [w.db]
        if s['op'] == 'search':
            w.mformat = s['fmt']
            opts = list(s['opt'])
            bad = s.get('bad')
            if bad:
                f = case['folders'][bad['f'] % len(case['folders'])]
                nm = f['name'] + ('.' + f['z'] if f.get('z') else '')
                full = os.path.join(w.base, nm)
                isdir = os.path.isdir(full)
                t = {'rel': nm, 'abs': full, 'dot': './' + nm, 'dotdot': 'imd/../' + nm, 'dbl': nm.replace('/', '//'),
                     'slash': nm + '/' if isdir else nm, 'link': sb.path('alias/l%d' % si), 'twice': '../mail/' + nm}[bad['sp']]
                if bad['sp'] == 'link':
                    os.symlink(full, t)
                if bad['via'] == 'o':
                    opts += ['-o', t]
                elif bad['via'] == 'rc':
                    w.mf = t
                else:
                    env['MAIRIX_MFOLDER'] = t
                refused = s['fmt'] in FMT
                labels.add('refused-' + bad['sp'] if refused else 'bad-raw')
                allowed = []
            else:
                w.mf = mfrel[s['mf']]
                if s['fmt'] in FMT:
                    allowed = [mfs[s['mf']]]
                else:
                    allowed = []
                labels.add(s['fmt'] + ('-a' if '-a' in opts else '') + ('-H' if '-H' in opts else ''))
            args = opts + s['q']
        elif s['op'] == 'index':
            args = s['opt']
        else:
            args = s['args']
            w.mformat = 'maildir'
            w.mf = mfrel[0]
            allowed = [mfs[0]]
        w.write_rc()
        links = False
        if s['op'] == 'search' and allowed and os.path.isdir(allowed[0]):
            links = any(os.path.islink(os.path.join(d, x)) or os.lstat(os.path.join(d, x)).st_nlink > 1
                        for d, _, xs in os.walk(allowed[0]) for x in xs)
        skip = set(allowed) | {w.db + '.lock'}
        if w.db not in allowed:
            skip = set(allowed)
        before = snap(sb.dir, skip)
        if s.get('kill'):
            sig, delay = s['kill']
            p = subprocess.Popen([sb.bins['plain'], '-f', w.rc] + args, cwd=w.base, env=sb.env(env), stdin=subprocess.DEVNULL,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            time.sleep(delay)
            p.send_signal(sig)
            p.wait(60)
            rc = None
            labels.add('killed')
            for x in os.listdir(sb.dir):
                if x.startswith('db.lock'):
                    os.unlink(sb.path(x))
        else:
            r = w.mairix(args, cwd=w.base, env=env)
            rc = r.rc
        after = snap(sb.dir, skip)
        evals += 1
        if before != after:
            raise Violation('%s of %r (%s, result folder %s) changed %r' % (s['op'], args, w.mformat, w.mf, differ(before, after)))
        if rc is not None and refused and rc != 3 and os.path.exists(full):
            raise Violation('search into indexed folder %r (%s) was not refused: exit status %r' % (t, s['fmt'], rc))
        if rc is not None and s['op'] == 'search' and not refused and rc not in (0, 1) and os.path.exists(w.db):
            raise Violation('search %r into %s failed: %r' % (args, w.mf, r))
        if s['op'] == 'index' and rc not in (0, None):
            raise Violation('indexing failed: %r' % r)
        if s.get('kill') and s['op'] == 'index':
            # a database cut short is not at issue here
            if os.path.exists(w.db):
                os.unlink(w.db)
            w.mformat = 'maildir'
            w.index()
        nontriv = nontriv or links or refused
    return {'evals': evals, 'nontrivial': nontriv, 'labels': labels,
            'sample': {'style': case['style'], 'steps': [(s['op'], s.get('fmt'), s.get('opt'), s.get('bad')) for s in case['steps']]}}


def valid(case):
    return bool(case['folders']) and all(f['msgs'] for f in case['folders']) and case['steps'] and case['steps'][0]['op'] == 'index'
