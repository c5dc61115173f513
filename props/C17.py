"""Exactly the configured folders, and exactly their messages, are indexed."""
import os, re
import world
from core import Violation

ID = 'C17'
COUNT = {'quick': 40000, 'thorough': 600000}
BUDGET = {'quick': 150, 'thorough': 1500}
RULE = ('case = a directory tree of maildirs, almost-maildirs, MH folders with every marker, mailboxes, other files, plain directories and '
        'symbolic links, nested to depth 4, under names with colons, dots, brackets, stars and 1-45 characters, and one or two rc files in '
        'turn on the same database with lists of literal, wildcard and recursive entries (relative or absolute) and omit patterns with * and '
        '** cut from real paths; the indexed messages must be exactly those of an independent expansion. Non-trivial: some folder of a '
        'listed kind is selected, another is not, and a wildcard, recursion or omit is used.')
FROZEN = ('k', 'mark')
SHRINK_STRINGS = False
NAMES = ['a', 'b', 'foo', 'foobar', 'fooquux', 'bar', 'Bar', 'x.y', '.Sub', '.Sub.deep', 'lists', 'lists-2', 'spam', 'spam2005', 'inbox',
         'we:ird', 'br[ack]et', 'st*r', 'q?q', 'sp ace', 'zzz', 'new2', 'arch-1', 'arch-2', 'A', 'caf\xe9', ']x', 'c-d', 'back\\slash',
         'averyveryverylongfoldernamebeyond31chars', 'averyveryverylongfoldernamebeyond32charsx', 'foo', 'b', 'cur2', 'newer', 'tmp2', 'temp', 'current', 'Cur']
MARKS = ['.xmhcache', '.mh_sequences', '.sylpheed_cache', '.sylpheed_mark', '.claws_cache', '.claws_mark', '.marks', '.overview', 'cmeta',
         'summary', '.mew-summary', 'index']
KINDS = ['dir', 'dir', 'maildir', 'maildir', 'half', 'mh', 'mh', 'nomh', 'mbox', 'mbox', 'mbox', 'junk', 'linkf', 'linkd', 'mmdf', 'dangle']


def rtree(r, depth, n):
    out = []
    used = set()
    for _ in range(n):
        nm = r.choice(NAMES)
        if nm in used:
            continue
        used.add(nm)
        k = r.choice(KINDS)
        x = {'n': nm, 'k': k, 's': r.randrange(1 << 16)}
        if k in ('dir', 'maildir', 'half', 'mh', 'nomh', 'linkd'):
            x['ch'] = rtree(r, depth - 1, r.choice([0, 1, 2, 4])) if depth > 0 else []
            if k == 'mh':
                x['mark'] = r.choice(MARKS)
        out.append(x)
    return out


def walk(tree, pre=''):
    for x in tree:
        yield pre + x['n'], x
        if 'ch' in x:
            yield from walk(x['ch'], pre + x['n'] + '/')


def wildify(r, s, stars=False):
    """A glob pattern cut from the name s."""
    out = ''
    i = 0
    while i < len(s):
        c = r.random()
        ch = s[i]
        if c < .12:
            out += '*' if not (stars and r.random() < .4) else '**'
            i += r.choice([0, 1, 2, 5, 40])
            continue
        if c < .2:
            out += '?'
        elif c < .3 and ch not in '/[]-\\:':
            o = ord(ch)
            cl = r.choice(['[' + ch + ']', '[x' + ch + 'y]', '[' + ch + '-]', '[]' + ch + ']', '[' + chr(max(48, o - 2)) + '-' + ch + ']' if
                           o < 127 and o >= 50 and chr(o - 2) not in '[]-:;%' else '[' + ch + 'z]', '[a-z0-9]', '[A-F]',
                           '[-' + ch + ']', '[^' + ch + ']', '[-' + ch + 'b-d]', '[]-' + ch + ']' if o > 93 else '[' + ch + 'q-]',
                           '[' + chr(o + 2) + '-' + ch + ']' if o < 121 and o >= 48 and chr(o + 2) not in '[]-:;%#!' else '[' + ch + 'A-F]'])
            out += cl
        elif ch in '[?*':
            out += '?'
        else:
            out += ch
        i += 1
    if not out or r.random() < .1:
        out += '*'
    return out.replace('***', '**')


def rentry(r, paths):
    p = r.choice(paths) if paths and r.random() < .93 else 'nosuch/thing'
    c = r.random()
    d, _, last = p.rpartition('/')
    pre = d + '/' if d else ''
    if c < .3:
        e = p
    elif c < .45:
        e = p + '...'
    elif c < .7:
        e = pre + wildify(r, last)
    elif c < .85:
        e = pre + wildify(r, last) + '...'
    elif c < .92:
        e = pre + '*' + r.choice(['', '...'])
    else:
        e = '*' + r.choice(['', '...', 'a...', '[a-f]*...'])
    if is_wild(last) and not is_wild(e.rpartition('/')[2]):
        pass
    return {'e': e, 'abs': r.random() < .1}


def romit(r, paths):
    p = r.choice(paths) if paths else 'a'
    c = r.random()
    if c < .2:
        return re.sub(r'[\[*?]', '?', p)
    if c < .7:
        return wildify(r, p, True)
    return r.choice(['**spam**', '*', '**/b', 'foo*', 'lists**', '**2005', '*/foo', '*/*', 'a/**', '**.Sub*', '?', '**[0-9]'])


def gen(r, k, tier):
    tree = rtree(r, r.choice([1, 2, 3, 4]), r.choice([2, 4, 7]))
    paths = [p for p, _ in walk(tree)]
    confs = []
    for _ in range(r.choice([1, 1, 1, 2])):
        c = {}
        for kind, p in (('maildir', .75), ('mh', .6), ('mbox', .75)):
            if r.random() < p:
                c[kind] = [rentry(r, paths) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < .06:
            c = {r.choice(['maildir', 'mh', 'mbox']): [{'e': '...', 'abs': False}]}
        elif r.random() < .5:
            c['omit'] = [romit(r, paths) for _ in range(r.choice([1, 1, 2, 4]))]
        c['follow'] = r.random() < .3
        c['multi'] = r.random() < .3
        c['opt'] = r.choice([[], [], [], ['-p'], ['-F'], ['-Q']])
        confs.append(c)
    return {'tree': tree, 'confs': confs, 'ctl': r.choice(['control', 'zcontrol', 'mailcontrol'])}


def is_wild(s):
    return any(ch in s for ch in '[*?')


def to_re(pat):
    """The glob language of the manual page, as a regular expression."""
    out = ''
    i = 0
    while i < len(pat):
        ch = pat[i]
        if ch == '*':
            if pat[i:i + 2] == '**':
                out += '.*'
                i += 1
            else:
                out += '[^/]*'
        elif ch == '?':
            out += '.'
        elif ch == '[':
            j = pat.find(']', i + 2)
            body = pat[i + 1:j]
            s = set()
            q = 0
            while q < len(body):
                if q + 2 < len(body) and body[q + 1] == '-':
                    lo, hi = sorted((ord(body[q]), ord(body[q + 2])))
                    s |= {chr(x) for x in range(lo, hi + 1)}
                    q += 3
                else:
                    s.add(body[q])
                    q += 1
            out += '(?:' + '|'.join(re.escape(x) for x in sorted(s)) + ')'
            i = j
        else:
            out += re.escape(ch)
        i += 1
    return re.compile(out + r'\Z', re.S)


class Amb(Exception):
    pass


class FS:
    def __init__(self, sb, tree):
        self.sb = sb
        self.base = sb.path('mail')
        self.out = sb.path('outside')
        os.mkdir(self.base)
        os.mkdir(self.out)
        self.n = 0
        self.info = {}      # path below base -> (kind, node, children)
        self.make(tree, self.base, '')

    def w(self, p, data):
        with open(world.fs(p), 'wb') as f:
            f.write(data)

    def msg(self):
        self.n += 1
        return b'Subject: m%d\n\nbody\n' % self.n

    def make(self, tree, d, rel):
        for x in tree:
            p = d + '/' + x['n']
            rp = rel + x['n']
            k, s = x['k'], x['s']
            kids = []
            files = []      # ('file', suffix) or mailbox positions
            if k == 'linkd':
                self.n += 1
                t = self.out + '/d%d' % self.n
                os.mkdir(t)
                os.symlink(t, world.fs(p))
            elif k in ('dir', 'maildir', 'half', 'mh', 'nomh'):
                os.mkdir(world.fs(p))
            if k in ('maildir', 'half'):
                subs = ['new', 'cur', 'tmp']
                if k == 'half':
                    del subs[s % 3]
                for i, sd in enumerate(subs):
                    os.mkdir(world.fs(p + '/' + sd))
                    for j in range(x.get('many', (s >> (3 + 2 * i)) % 3)):
                        nm = '17%d.M%d.host' % (self.n, j) + (':2,S' if sd == 'cur' else '')
                        self.w(p + '/' + sd + '/' + nm, self.msg())
                        if sd != 'tmp':
                            files.append('/' + sd + '/' + nm)
                if s & 1024:
                    self.w(p + '/notes', b'Subject: no message\n\nx\n')
                if s & 2048 and k == 'maildir':
                    # a message that is a link into another folder
                    t = self.out + '/lm%d' % self.n
                    self.w(t, self.msg())
                    os.symlink(t, world.fs(p + '/new/link.1.host'))
                    files.append('/new/link.1.host')
            if k in ('mh', 'nomh'):
                if k == 'mh':
                    self.w(p + '/' + x['mark'], b'')
                for j in range(x.get('many', s % 4)):
                    nm = str([1, 2, 10, 99999][j] if j < 4 else 1000 + j) + ('.' if s & 256 and j % 2 else '')
                    self.w(p + '/' + nm, self.msg())
                    files.append('/' + nm)
                if s & 512:
                    for bad in ('12a', ',3', '.7', '4..', '+5', 'x1', '1_', '-1', '#9'):
                        self.w(p + '/' + bad, b'Subject: not a message\n\nx\n')
            if k in ('mbox', 'mmdf', 'linkf'):
                data, pos = world.mbox_bytes([self.msg() for _ in range(1 + s % 2)], 'mmdf' if k == 'mmdf' else 'mbox', s % 5)
                if k == 'linkf':
                    self.n += 1
                    self.w(self.out + '/f%d' % self.n, data)
                    os.symlink(self.out + '/f%d' % self.n, world.fs(p))
                else:
                    self.w(p, data)
                files = pos
            if k == 'junk':
                self.w(p, [b'', b'Subject: hello\n\nFrom nobody\n', b'\0\1\2', b'From\n'][s % 4])
            if k == 'dangle':
                os.symlink(self.out + '/nowhere', world.fs(p))
            if 'ch' in x:
                kids = [c['n'] for c in x['ch']]
                self.make(x['ch'], p, rp + '/')
            self.info[rp] = (k, files, kids)

    def expand(self, kind, c):
        """Set and list of (spelled folder path, kind, files)."""
        om = [to_re(o) for o in c.get('omit', ())]
        res = []

        def omitted(rel, ab):
            name = self.base + '/' + rel if ab else rel
            return any(o.match(name) for o in om)

        def is_kind(rel):
            k = self.info[rel][0]
            if kind == 'maildir':
                return k == 'maildir'
            if kind == 'mh':
                # an MH marker is a regular file, whatever put it there
                return k == 'mh' or any(m in [x for x in self.info[rel][2] if self.info[rel + '/' + x][0] in
                                        ('mbox', 'mmdf', 'junk', 'linkf')] for m in MARKS)
            return k in ('mbox', 'mmdf', 'junk', 'linkf')

        def shallow(rel, ab):
            self.seen.append((kind, rel))
            if is_kind(rel) and not omitted(rel, ab):
                k = self.info[rel][0]
                if kind == 'mbox' and (k == 'junk' or k == 'linkf' and not c['follow']):
                    return
                res.append((rel, kind, self.info[rel][1], self.base_form))

        def deep(rel, ab):
            shallow(rel, ab)
            for n in self.info[rel][2]:
                ch = rel + '/' + n
                if self.info[ch][0] == 'dangle' or omitted(ch, ab):
                    continue
                deep(ch, ab)
        for it in c.get(kind, ()):
            e = it['e']
            rec = e.endswith('...')
            self.base_form = e == '...'
            if rec:
                e = e[:-3]
            d, _, last = e.rpartition('/')
            if e == '':
                for n in [p for p in self.info if '/' not in p]:
                    if self.info[n][0] != 'dangle':
                        deep(n, False)
                continue
            if is_wild(last):
                rx = to_re(last)
                if d and d not in self.info:
                    continue
                kids = self.info[d][2] if d else [p for p in self.info if '/' not in p]
                for n in kids:
                    ch = d + '/' + n if d else n
                    if self.info[ch][0] == 'dangle' or not rx.match(n) or omitted(ch, it['abs']):
                        continue
                    (deep if rec else shallow)(ch, it['abs'])
                # wildcards are matched against everything there, the folder's own files too
                if kind == 'mbox' and d and self.info[d][0] in ('maildir', 'mh', 'half', 'nomh'):
                    raise Amb()
            else:
                if e not in self.info or self.info[e][0] == 'dangle':
                    continue
                if rec and omitted(e, it['abs']):
                    raise Amb()         # the manual does not say whether what lies below goes too
                (deep if rec else shallow)(e, it['abs'])
        return res


def esc(s):
    return s.replace(':', '\\:')


def check(case, sb):
    fs = FS(sb, case['tree'])
    ctl = sb.path(case.get('ctl', 'control'))
    os.mkdir(ctl)
    fs.w(ctl + '/.mh_sequences', b'')
    fs.w(ctl + '/1', b'Subject: control\n\nx\n')
    labels = set()
    nontriv = False
    evals = 0
    for c in case['confs']:
        rc = ['base=' + fs.base, 'database=' + sb.path('db'), 'mfolder=' + sb.path('result'), 'mformat=raw', 'mh=' + ctl]
        if c['follow']:
            rc.append('follow_mbox_symlinks')
        for kind in ('maildir', 'mh', 'mbox', 'omit'):
            if c.get(kind):
                es = [esc(x) if kind == 'omit' else esc((fs.base + '/' if x['abs'] else '') + x['e']) for x in c[kind]]
                rc += [kind + '=' + x for x in es] if c['multi'] else [kind + '=' + ':'.join(es)]
        with open(sb.path('rc'), 'wb') as f:
            f.write(('\n'.join(rc) + '\n').encode('latin-1'))
        r = sb.run(['-f', sb.path('rc')] + c['opt'])
        try:
            if any(to_re(o).match(ctl) for o in c.get('omit', ())):
                raise Amb()
            fs.seen = []
            sel = [x for k in ('maildir', 'mh', 'mbox') for x in fs.expand(k, c)]
        except Amb:
            if r.rc not in (0, 1, 2):
                raise Violation('indexing failed: %r' % r)
            if r.rc:
                break
            continue
        want = {('file', ctl + '/1')}
        dup = False
        must = set()
        spelled = set()
        for rel, kind, files, bf in sel:
            p = fs.base + '/' + rel
            for f in files:
                key = ('mbox', p) + tuple(f) if kind == 'mbox' else ('file', p + f)
                if key in want:
                    dup = True
                want.add(key)
                if not bf:
                    if key in spelled:
                        must.add(key[0])
                    spelled.add(key)
        dup = dup or len(set(fs.seen)) < len(fs.seen)
        evals += 1
        if dup:
            labels.add('overlap')
            if r.rc not in (0, 1, 2):
                raise Violation('indexing failed: %r' % r)
            if must and r.rc != (2 if 'file' in must else 1) and r.rc != (1 if 'mbox' in must else 2):
                raise Violation('the same %s is selected twice with %s, but the exit status is %d: %r' % (sorted(must), rc[4:], r.rc, r))
            if r.rc:
                break
        elif r.rc:
            raise Violation('indexing failed: %r with %s' % (r, rc[4:]))
        g = sb.run(['-f', sb.path('rc'), '-r', 'p:vp-'])
        if g.rc:
            raise Violation('search failed: %r' % g)
        got = world.parse_raw(re.sub(rb'/+', b'/', g.out))
        world.compare(got, want, 'folder lists %s' % rc[4:])
        wild = any('...' in x['e'] or is_wild(x['e']) for k in ('maildir', 'mh', 'mbox') for x in c.get(k, ())) or c.get('omit')
        nsel = len({x[0] for x in sel})
        total = sum(1 for k, f, _ in fs.info.values() if k in ('maildir', 'mh', 'mbox', 'mmdf'))
        if wild and 0 < nsel < total:
            nontriv = True
        labels |= {k for k in ('maildir', 'mh', 'mbox', 'omit') if c.get(k)}
        if any(x['e'] == '...' for k in ('maildir', 'mh', 'mbox') for x in c.get(k, ())):
            labels.add('base...')
    return {'evals': evals, 'nontrivial': nontriv, 'labels': labels, 'sample': case['confs']}


def valid(case):
    return bool(case['confs'])


def fixed():
    def mb(n):
        return {'n': n, 'k': 'mbox', 's': 0}
    tree = [{'n': 'bulk', 'k': 'dir', 's': 0, 'ch': [mb('spam'), mb('spam2005'), mb('ham'),
                                                    {'n': 'a_long_directory_name', 'k': 'dir', 's': 0, 'ch': [
                                                        mb('another_long_name'), mb('another_long_name2')]}]}]
    big = [{'n': 'big', 'k': 'maildir', 's': 0, 'many': 1100}, {'n': 'mh', 'k': 'mh', 's': 0, 'many': 2100, 'mark': 'cmeta'}]
    out = [{'tree': big, 'confs': [{'maildir': [{'e': 'big', 'abs': False}], 'mh': [{'e': 'm*', 'abs': False}], 'follow': False,
                                    'multi': False, 'opt': []}]}]
    return out + [{'tree': tree, 'confs': [{'mbox': [{'e': 'bulk...', 'abs': False}], 'omit': [o], 'follow': False, 'multi': False,
                                            'opt': []}]}
            for o in ('bulk/spam*', 'bulk/spam**', 'bulk/a_long_directory_name/another_long_name', '**name2', 'bulk/*/another*')]
