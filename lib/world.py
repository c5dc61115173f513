"""Mail stores on disk, the mairixrc, running mairix, and the reference evaluator."""
import bz2, gzip, io, lzma, os, re
import mail
from core import Violation

FROM_LINES = [b'From bob@example.com Thu Jan  1 00:00:00 1970\n',
              b'From alice@a-b.net Mon Mar 12 10:45:11 2001\n',
              b'From MAILER-DAEMON Sat Feb 29 23:59:59 2020\n',
              b'From x Wed Dec 31 09:08:07 1997\n',
              b'From bob Wed Dec 31 09:08:07 1997 +0100\n']
MMDF = b'\1\1\1\1\n'


def compress(kind, data):
    kind = kind.lower()
    if kind == 'gz':
        b = io.BytesIO()
        with gzip.GzipFile(fileobj=b, mode='wb', mtime=0) as g:
            g.write(data)
        return b.getvalue()
    if kind == 'bz2':
        return bz2.compress(data)
    if kind == 'xz':
        return lzma.compress(data)
    return data


def mbox_bytes(msgs, fmt='mbox', fl=0, last_blank=True):
    """Returns (bytes, [(start, end)]) of the messages as mairix reports them."""
    out = b''
    pos = []
    for i, m in enumerate(msgs):
        if fmt == 'mmdf':
            out += MMDF
            s = len(out)
            out += m
            if not m.endswith(b'\n'):
                out += b'\n'
            pos.append((s, len(out)))
            out += MMDF
        else:
            out += FROM_LINES[(i + fl) % len(FROM_LINES)]
            s = len(out)
            out += m
            if not m.endswith(b'\n'):
                out += b'\n'
            if i < len(msgs) - 1 or last_blank:
                out += b'\n'
            pos.append((s, len(out)))
    return out, pos


def fs(p):
    """Path strings hold bytes as latin-1."""
    return p.encode('latin-1') if isinstance(p, str) else p


class World:
    """folders: list of {'kind': maildir|mh|mbox, 'name':, 'fmt': mbox|mmdf, 'z': ''|gz|bz2|xz,
    'msgs': [{'m': msg structure, 'sub': new|cur, 'flags': 'FRS', 'mt': mtime}]}"""

    def __init__(self, sb, folders=(), base='mail', rc_extra='', db='db'):
        self.sb = sb
        self.base = sb.path(base)
        if not os.path.isdir(self.base):
            os.makedirs(self.base)
        self.db = sb.path(db)
        self.rc = sb.path('rc')
        self.folders = folders
        self.rc_extra = rc_extra
        self.docs = []
        self.mformat = 'raw'

    def build(self):
        for f in self.folders:
            self.put_folder(f)
        self.write_rc()
        return self

    def put_folder(self, f):
        kind = f['kind']
        p = os.path.join(self.base, f['name'])
        if kind == 'maildir':
            for s in ('new', 'cur', 'tmp'):
                os.makedirs(fs(os.path.join(p, s)), exist_ok=True)
            for i, e in enumerate(f['msgs']):
                data = self.data(e)
                name = e.get('fname') or '17%08d.M%d_%d.host' % (i, i, i)
                if 'suffix' in e:
                    sub = e.get('sub', 'new')
                    name += e['suffix']
                elif e.get('sub', 'new') == 'cur' or e.get('flags'):
                    sub = 'cur'
                    name += ':2,' + e.get('flags', '')
                else:
                    sub = 'new'
                fp = os.path.join(p, sub, name)
                self.put(fp, data, e.get('mt'))
                self.add_doc(e, fp, data, ('file', fp), set(e.get('want', e.get('flags', ''))) & set('FRS'))
        elif kind == 'mh':
            os.makedirs(fs(p), exist_ok=True)
            self.put(os.path.join(p, f.get('marker', '.mh_sequences')), b'')
            for i, e in enumerate(f['msgs']):
                data = self.data(e)
                fp = os.path.join(p, str(e.get('num', i + 1)))
                self.put(fp, data, e.get('mt'))
                self.add_doc(e, fp, data, ('file', fp), set())
        elif kind == 'mbox':
            z = f.get('z', '')
            datas = [self.data(e) for e in f['msgs']]
            data, pos = mbox_bytes(datas, f.get('fmt', 'mbox'), f.get('fl', 0), f.get('lb', True))
            fp = os.path.join(self.base, f['name'] + ('.' + z if z else ''))
            os.makedirs(fs(os.path.dirname(fp)), exist_ok=True)
            self.put(fp, compress(z, data), f.get('mt'))
            for e, (s, t), dd in zip(f['msgs'], pos, datas):
                self.add_doc(e, fp, dd, ('mbox', fp, s, t), set(e.get('mflags', '')))
                self.docs[-1].size = t - s
                self.docs[-1].data = data[s:t]
        else:
            raise ValueError(kind)

    def data(self, e):
        if 'raw' in e:
            return e['raw'].encode('latin-1')
        d = mail.render(e['m'])
        if e.get('crlf'):
            d = d.replace(b'\n', b'\r\n')
        return d

    def put(self, fp, data, mt=None):
        with open(fs(fp), 'wb') as fh:
            fh.write(data)
        if mt is not None:
            os.utime(fs(fp), (mt, mt))

    def add_doc(self, e, fp, data, key, flags):
        d = mail.expect(e['m']) if 'm' in e else mail.Doc()
        d.key = key
        d.path = fp
        d.size = len(data)
        d.data = data
        d.flags = flags
        d.date = e.get('day')
        self.docs.append(d)
        return d

    def rc_text(self):
        out = ['base=' + self.base, 'database=' + self.db, 'mfolder=mfolder', 'mformat=' + self.mformat]
        for kind, kw in (('maildir', 'maildir'), ('mh', 'mh'), ('mbox', 'mbox')):
            names = [f['name'] + ('.' + f['z'] if f.get('z') else '') for f in self.folders if f['kind'] == kind]
            if names:
                out.append(kw + '=' + ':'.join(n.replace(':', '\\:') for n in names))
        return '\n'.join(out) + '\n' + self.rc_extra

    def write_rc(self):
        with open(self.rc, 'wb') as f:
            f.write(self.rc_text().encode('latin-1'))

    def mairix(self, args, **kw):
        return self.sb.run(['-f', self.rc] + list(args), **kw)

    def index(self, *args, **kw):
        r = self.mairix(list(args), **kw)
        if r.rc != 0:
            raise Violation('indexing failed: %r' % r)
        return r

    def search(self, args, opts=(), **kw):
        """Keys of the matched messages, in the order given, by raw output."""
        r = self.mairix(['-r'] + list(opts) + ['--'] * 0 + list(args), **kw)
        keys = parse_raw(r.out)
        if r.rc != (0 if keys else 1):
            raise Violation('search %r: exit status %r with %d matches: %r' % (args, r.rc, len(keys), r))
        return keys


RAWMBOX = re.compile(rb'^mbox:(.*) \[(-?\d+),(-?\d+)\)$', re.S)


def parse_raw(out):
    keys = []
    for line in out.split(b'\n'):
        if not line:
            continue
        m = RAWMBOX.match(line)
        if m:
            keys.append(('mbox', m.group(1).decode('latin-1'), int(m.group(2)), int(m.group(3))))
        else:
            keys.append(('file', line.decode('latin-1')))
    return keys


def compare(got, want, what):
    g, w = sorted(got), sorted(want)
    if g != w:
        extra = [x for x in g if x not in w]
        missing = [x for x in w if x not in g]
        dup = sorted({x for x in g if g.count(x) > 1})
        raise Violation('%s: wrong result; missing=%r unexpected=%r duplicated=%r' %
                        (what, missing[:5], extra[:5], dup[:3]))


# --------------------------------------------------------------- word queries

FIELDS = {'b': 'b', 's': 's', 't': 't', 'c': 'c', 'f': 'f', 'r': 'tc', 'a': 'tcf', 'n': 'n'}


def fields_of(keys):
    if keys is None:
        return 'bstcf'
    out = ''
    for k in keys:
        out += FIELDS[k]
    return ''.join(sorted(set(out)))


def eval_word(doc, fields, pred):
    return any(pred(t) for f in fields for t in getattr(doc, f))


def all_tokens(docs, fields='bstcf'):
    s = set()
    for d in docs:
        for f in fields:
            s |= getattr(d, f)
    return sorted(s)


def fname(r, kind, i):
    """A folder name: mostly plain, sometimes with what could be mistaken for something else."""
    plain = {'maildir': 'md', 'mh': 'Mh', 'mbox': 'box'}[kind] + str(i)
    if r.random() < .75:
        return plain
    return r.choice(['new/' + plain, 'cur/' + plain, 'a:2,S/' + plain, plain + ':2,F', 'My Mail/' + plain, plain + '.gz.d', '.h/' + plain,
                     'a/b/c/' + plain, 'tmp/new/' + plain, 'Caps/' + plain + ' x', plain + '-1+2@x', '12/' + plain, 'new' + plain, 'currently/' + plain])


def rfolders(r, mk, nmax=10, kinds=('maildir', 'mh', 'mbox'), nmin=1, zs=('', '', '', '', 'gz', 'bz2', 'xz', 'GZ', 'Bz2', 'XZ')):
    """A random set of folders holding mk(r) messages."""
    n = r.randint(nmin, nmax)
    folders = []
    left = n
    i = 0
    while left > 0:
        k = r.choice(kinds)
        take = min(left, r.choice([1, 2, 3, 5, 8, n]))
        f = {'kind': k, 'name': fname(r, k, i), 'msgs': []}
        if k == 'mbox':
            f['fmt'] = r.choice(['mbox', 'mbox', 'mbox', 'mmdf'])
            f['z'] = r.choice(zs)
            f['fl'] = r.randrange(5)
        for _ in range(take):
            e = {'m': mk(r)}
            if k == 'maildir':
                if r.random() < .5:
                    e['sub'] = 'cur'
                    e['flags'] = ''.join(x for x in 'FRST' if r.random() < .4)
                if r.random() < .1:
                    e['crlf'] = 1
            f['msgs'].append(e)
        folders.append(f)
        left -= take
        i += 1
    return folders
