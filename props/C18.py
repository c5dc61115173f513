"""No content of mail or mailboxes, and no query, crashes mairix."""
import os, random, re, shutil, subprocess
import core, mail, world, simple
from core import Violation

ID = 'C18'
BUILDS = ['asan', 'msan', 'fuzz-msg', 'fuzz-mbox']
COUNT = {'quick': 5000, 'thorough': 200000}
BUDGET = {'quick': 170, 'thorough': 3000}
RULE = ('case = 3-24 hostile inputs (generated messages mutated at byte, line and token level, spliced and truncated; headers, MIME '
        'parameters, encoded words, transfer encodings and boundaries of extreme or broken form; binary noise; damaged gzip/bzip2/xz '
        'data; broken mboxes) in maildir, MH, mbox and MMDF folders between healthy messages, run through indexing, searches in every output '
        'format, dump, change, re-indexing and purge with an ASan+UBSan or MSan build. Every run must end with a documented status and no '
        'sanitizer report, and every healthy message must be found throughout. Before that, libFuzzer targets (fuzz/msg.c, fuzz/mbox.c) fuzz the message parser and the mailbox splitter in memory with coverage '
        'feedback; what they find becomes a case like the others, and only a failure of the program itself counts. Non-trivial: at least one mutated or broken input.')
FROZEN = ('where', 'variant', 'fmt')

HDRS = ['Content-Type', 'Content-Transfer-Encoding', 'Content-Disposition', 'Subject', 'From', 'To', 'Cc', 'Date', 'Message-ID',
        'References', 'In-Reply-To', 'Status', 'X-Status', 'MIME-Version', 'X-Foo']
TOKENS = ['\n', '\r\n', '\r', '\0', '\n\n', ': ', ':', ';', '"', '\\', '=', '=?', '?=', '?', '=?utf-8?q?', '=?utf-8?B?', '=?x?b?QUJD?=', '=\n', '=3D',
          '=4', "''", "utf-8''", "*", '*0=', '*0*=', '*1=', '*1*=', '*00=', '*01*=', '*99999999999=', '*-1=', '%41', '%', '%4', '--', '\n--', '\n--x\n', '\n--x--\n', '\n--X\n',
          'boundary=', 'boundary="x"', 'boundary=""', 'boundary=x', 'filename=', 'filename="', 'filename*=', "filename*0*=utf-8'en'a", 'name=', '<', '>', '</', '<!--', '-->', '<p', '&amp;',
          'begin 644 x\n', '\nend\n', 'M' + 'A' * 60, '`\n', '#', ' ', '\t', '(', ')', '(((', ',', '/', '@', '<a@b>', 'From ', '\nFrom ', '\n>From ',
          '\nFrom bob@example.com Thu Jan  1 00:00:00 1970\n', '\1\1\1\1\n', '\n\1\1\1\1\n', 'Subject:', '\n ', '\n\t', '\xff', '\x80', '\xe4', 'A' * 300,
          'text/plain', 'text/html', 'multipart/mixed', 'message/rfc822', 'base64', 'quoted-printable', 'x-uuencode', '7bit', 'attachment', 'inline',
          '99999999999999999999', '-1', '0', '2147483648', '31 Dec 9999999999 ', '0 Jan 0 ', '1 Feb 70 x', 'Mon, ']


def hdr_value(r, name):
    c = r.random()
    if name == 'Content-Type':
        v = r.choice(['multipart/mixed', 'multipart/alternative', 'text/plain', 'text/html', 'message/rfc822', 'image/png', 'text', 'multipart', '/', 'text/', '/plain', ''])
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            v += r.choice(['; ', ';', ' ;\n\t', ';;', ' ']) + r.choice([
                'boundary=x', 'boundary="x"', 'boundary=""', 'boundary', 'boundary=', 'BOUNDARY=x', 'boundary="' + 'b' * r.choice([1, 69, 70, 71, 300, 2000]) + '"',
                'boundary=\\x', 'boundary="a\\"b"', 'name=foo.txt', 'name="a b', "name*=utf-8''f%41o", "name*0=a; name*1=b", "name*1=b; name*0*=x'y'%61", 'charset="us-ascii"',
                "name*0*=utf-8''a; name*2=c", 'name*=x', "name*='", "name*=''", 'name*0*', '=x', '"x"=y', 'a=b=c', 'x*=1', 'x*9999999999999=1', "x*0*='"])
        return v
    if name == 'Content-Transfer-Encoding':
        return r.choice(['base64', 'BASE64', 'quoted-printable', 'x-uuencode', '7bit', '8bit', 'binary', 'nosuch', '', '"base64"', 'base64;', ';', '=', '\\'])
    if name == 'Content-Disposition':
        return r.choice(['attachment', 'inline', '', 'attachment; filename', 'attachment; filename=', 'attachment; filename="', 'attachment; filename=x y z',
                         'attachment; filename="' + 'n' * r.choice([1, 255, 4096, 70000]) + '"', "attachment; filename*=utf-8''%", "attachment; filename*=%%%",
                         "attachment; filename*=''%4", 'attachment; filename*0=a; filename*1=b; filename*0=c', "attachment; filename*0*=a'b'c; filename*1*=%41",
                         'attachment filename=x', '; filename=x', 'attachment; =; ;', 'attachment; filename*' + '1' * r.choice([1, 5, 20, 400]) + '=x'])
    if name == 'Date':
        return r.choice(['Mon, 1 Jan 2001 00:00:00 +0000', '32 Jan 2001', '0 Jan 2001 x', '99999999999 Jan 2001 x', '1 Jan 99999999999999 x', '1 Jan 1 x', '1', '1 ', '1 J', '1 Jan', '1 Jan ',
                         ',', ',,,', '', '1 Foo 2001', '1 Jan 1969 00:00', '1 Jan 3000 00:00', '1 Jan 2147485547 x', '1 Jan 2147483647 x', '31 Feb 2001 x', '-1 Jan 2001 x', '1 Dec 101 x'])
    if name in ('Message-ID', 'References', 'In-Reply-To'):
        return ' '.join(r.choice(['<a@b>', '<', '>', '<>', '<a', 'a>', '<a@b><c@d>', '<a b@c>', '<<a@b>>', '<' + 'i' * r.choice([1, 100, 5000]) + '@x>', '"<q@r>"', '(x)', 'foo']) for _ in range(r.choice([0, 1, 1, 2, 5, 60])))
    if name in ('Status', 'X-Status'):
        return r.choice(['RO', 'AF', 'RAF' * 100, '', '\xff'])
    v = ''
    for _ in range(r.choice([0, 1, 2, 6])):
        v += r.choice(['=?utf-8?q?a_b?=', '=?utf-8?Q?=', '=?utf-8?b?YWJj?=', '=?utf-8?b?YW?=', '=?utf-8?b?====?=', '=?x?b?', '=?x?', '=?', '=?x?z?abc?=', '=?x?bb?abc?=', '=?x?q?=4?=', '=?x?q?=?=',
                       '=?x?q?a=?=', '=?x?q?==?=', '=????=', '=?x?b?\xff\xfe?=', 'word', ' ', '\n ', '\n\t', '"', 'bob@example.com', '<bob@example.com>', '\xe4\xf6', 'w' * r.choice([30, 300, 70000]), '?=', ', ', '=?x?q?' + 'a' * 300])
    return v


def body(r, depth=0):
    c = r.random()
    if c < .25:
        return ''.join(r.choice(TOKENS + ['word ', 'line\n']) for _ in range(r.randint(0, 30)))
    if c < .4:
        return ''.join(chr(r.randrange(256)) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 7, 60, 500])))
    if c < .5:
        return ''.join(r.choice('ABCDwxyz0189+/=\n\r =') for _ in range(r.choice([1, 2, 3, 4, 5, 75, 77, 600])))
    if c < .6:
        n = r.choice([0, 1, 2, 3, 10, 45, 63, 64, 90])
        return r.choice(['begin 644 f\n', 'begin ', 'begin', '', 'xbegin 644 f\n', 'begin 644 f']) + ''.join(
            chr(32 + r.randrange(66)) + ''.join(chr(32 + r.randrange(65)) for _ in range(n)) + r.choice(['\n', '\r\n', '']) for _ in range(r.randint(0, 4))) + r.choice(['', '`\nend\n', 'end\n'])
    if c < .72:
        return ''.join(r.choice(['=\n', '=', '=4', '=41', '=\r\n', '= \n', '= x', 'abc', '\n', '=G1', '==', '=\t\n', '\0']) for _ in range(r.randint(0, 20)))
    if c < .82:
        return ''.join(r.choice(['<', '>', '<p>', '<a href="', '">', 'word', '<!-- ', ' -->', '\n', '&', '<' * 50, '<script>', '</']) for _ in range(r.randint(0, 30)))
    parts = ''
    b = r.choice(['x', 'x', 'x', 'bb', ''])
    for _ in range(r.randint(0, 4)):
        parts += r.choice(['--', '--', '--', '-', '\n--', ' --']) + b + r.choice(['\n', '\n', '\r\n', '--\n', '--', ' \n', 'y\n', ''])
        if depth < 4:
            parts += message(r, depth + 1) if r.random() < .6 else body(r, depth + 1)
        parts += r.choice(['\n', '\n', '', '\n\n', '\r\n'])
    return parts + r.choice(['--x--\n', '--x--', '--x-', '--x', '--', '', '\n--x--\n'])


def message(r, depth=0):
    out = ''
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        n = r.choice(HDRS)
        nn = n if r.random() < .7 else n.upper() if r.random() < .5 else n.lower()
        out += nn + r.choice([': ', ': ', ': ', ':', ':\n ', ' :', '']) + hdr_value(r, n) + r.choice(['\n', '\n', '\n', '\n', '\r\n', ''])
    out += r.choice(['\n', '\n', '\n', '\n', '\r\n', '', ' \n'])
    return out + body(r, depth)


def mutate(r, s, others):
    for _ in range(r.choice([1, 1, 2, 4, 8, 20])):
        n = len(s)
        c = r.randrange(9)
        i = r.randrange(n + 1)
        if c == 0:
            s = s[:i] + r.choice(TOKENS) + s[i:]
        elif c == 1:
            s = s[:i] + s[i + r.choice([1, 1, 2, 10, 100]):]
        elif c == 2:
            s = s[:i] + chr(r.randrange(256)) + s[i + 1:]
        elif c == 3 and r.random() < .4:
            s = s[:i]
        elif c == 4:
            j = r.randrange(n + 1)
            s = s[:i] + s[min(i, j):max(i, j)][:3000] + s[i:]
        elif c == 5 and others:
            o = r.choice(others)
            j = r.randrange(len(o) + 1)
            s = s[:i] + o[j:j + r.choice([5, 50, 500])] + s[i:]
        elif c == 6:
            ls = s.split('\n')
            a = r.randrange(len(ls))
            b = r.randrange(len(ls))
            ls[a], ls[b] = ls[b], ls[a]
            s = '\n'.join(ls)
        elif c == 7:
            ls = s.split('\n')
            a = r.randrange(len(ls))
            ls[a:a + 1] = [ls[a]] * r.choice([0, 2, 3, 40]) if len(ls[a]) < 200 else []
            s = '\n'.join(ls)
        elif c == 8 and n:
            i = min(i, n - 1)
            s = s[:i] + s[i] * r.choice([2, 16, 256, 5000]) + s[i + 1:]
        if len(s) > 300000:
            s = s[:300000]
    return s


def nested(r):
    """Structure nested deeply."""
    n = r.choice([3, 20, 100, 400, 400, 30000])
    c = r.random()
    if c < .5:
        return 'Content-Type: message/rfc822\n\n' * n + 'Subject: inner\n\nbody\n'
    if c < .75:
        out = ''
        for i in range(n):
            out += 'Content-Type: multipart/mixed; boundary="b%d"\n\n--b%d\n' % (i, i)
        return out + '\ntext\n' + (''.join('--b%d--\n' % i for i in reversed(range(n))) if r.random() < .6 else '')
    n = min(n, 400)
    return 'Subject: ' + '(' * n * 50 + '\nContent-Type: text/plain' + '; a=b' * n + '\nReferences:' + ' <x@y>' * n + '\n\n' + '<' * n * 100


def hostile(r, pool):
    c = r.random()
    if c < .35:
        return message(r)
    if c < .6:
        m = mail.render(mail.rmsg(r, 2)).decode('latin-1')
        pool.append(m)
        return mutate(r, m, pool)
    if c < .8:
        return mutate(r, message(r), pool)
    if c < .85:
        return nested(r)
    if c < .9:
        return ''.join(chr(r.randrange(256)) for _ in range(r.choice([0, 1, 2, 30, 1000])))
    if c < .95:
        return ''.join(r.choice(TOKENS) for _ in range(r.randint(0, 80)))
    # sizes around pages and buffers, without a final newline
    n = r.choice([4095, 4096, 4097, 8192, 65536, 20000])
    h = 'Subject: page\n\n'
    if r.random() < .3:
        return ('Subject: ' + 'y ' * n)[:n]
    if r.random() < .3:
        h = 'Content-Type: multipart/mixed; boundary=x\n\n--x\n'
    return (h + 'z ' * n)[:n - r.choice([0, 0, 5])] + r.choice(['', '', '\n--x', '\n--x-', '=', '<', '=\n'])[:5]


QT = ['s:', 'b:', 't:', 'c:', 'f:', 'a:', 'r:', 'm:', 'n:', 'd:', 'z:', 'p:', 'F:', 'tcf:', ':', '/', ',', '~', '^', '=', '=1', '=9', '=99999999999', '-', 'word', 'a', 'x' * 31, 'x' * 32, 'x' * 33, 'x' * 300,
      '1', '20010101', '2001', 'jan', '1w', '1y-', '-1d', '99999999999999999999', '10k', '10m-', 's', '-s', 'fr', '\xe4', '\xff', ' ', '.', '@', 'foo@bar.com', '%', '*', '[', '\\', '~~', '^^', '0', '1jan70', '31feb', '010170']


def rquery(r):
    return [''.join(r.choice(QT) for _ in range(r.randint(1, 6))) for _ in range(r.choice([1, 1, 2, 4]))]


def gen(r, k, tier):
    pool = []
    items = []
    for _ in range(r.choice([3, 6, 12, 24])):
        c = r.random()
        h = hostile(r, pool)
        if c < .5:
            e = {'where': 'md', 'b': h, 'suffix': r.choice(['', '', '', ':2,S', ':2,', ':2,FRSTDP', ':1,x', ':2', '.gz', '.xz', '.bz2'])}
        elif c < .6:
            e = {'where': 'mh', 'b': h}
        elif c < .85:
            # a mailbox
            t = r.choice(['mbox', 'mbox', 'mmdf', 'raw', 'raw'])
            if t == 'raw':
                e = {'where': 'mbox', 'b': h}
            else:
                ms = [hostile(r, pool) for _ in range(r.randint(1, 4))]
                sep = 'From bob@example.com Thu Jan  1 00:00:00 1970\n'
                s = ''.join((sep + m + '\n') if t == 'mbox' else ('\1\1\1\1\n' + m + '\n\1\1\1\1\n') for m in ms)
                e = {'where': 'mbox', 'b': mutate(r, s, pool) if r.random() < .5 else s}
        else:
            z = r.choice(['gz', 'bz2', 'xz'])
            d = world.compress(z, ('From bob@example.com Thu Jan  1 00:00:00 1970\n' + h).encode('latin-1') if r.random() < .8 else b'').decode('latin-1')
            c = r.random()
            if c < .3:
                d = d[:r.randrange(len(d) + 1)]
            elif c < .6:
                for _ in range(r.choice([1, 3, 10])):
                    i = r.randrange(len(d) + 1)
                    d = d[:i] + chr(r.randrange(256)) + d[i + 1:]
            elif c < .7:
                d += r.choice(['\0' * 10, 'junk', d])
            elif c < .8:
                d = h
            e = {'where': z, 'b': d}
        if r.random() < .3:
            e['b2'] = mutate(r, e['b'], pool)
        elif r.random() < .15:
            e['b2'] = None
        items.append(e)
    return {'items': items, 'variant': 'asan' if r.random() < .75 else 'msan', 'v': r.random() < .3, 'nohealth': r.random() < .1,
            'queries': [rquery(r) for _ in range(r.choice([1, 2, 4]))], 'fmt': r.choice(['maildir', 'mh', 'mbox']),
            't': r.random() < .3, 'seed': r.randrange(1 << 30)}


def bulk(n, seed):
    """A mailbox of n small messages whose words recur at gaps of every magnitude."""
    r = random.Random(seed)
    out = []
    due = {i: r.randrange(n) for i in range(300)}
    at = {}
    for w, i in due.items():
        at.setdefault(i, []).append(w)
    for i in range(n):
        ws = at.pop(i, [])
        for w in ws:
            at.setdefault(i + r.choice([1, 1, 2, 3, 5, 50, 127, 128, 129, 200] + [n // 2, n - i - 1] * (r.random() < .1)), []).append(w)
        out.append('From bob@example.com Thu Jan  1 00:00:00 1970\nSubject: q%d %s\nMessage-ID: <%d@x>\nReferences: <t%d@x>\n\nx\n\n' % (
            i % 7, ' '.join('w%d' % w for w in ws), i, r.choice([0, 1, r.randrange(300)])))
    return ''.join(out)


EXTRA = []


def found(target, b):
    """The case that shows to the real program what a fuzz target stumbled on, in every form in which memory is laid out differently."""
    b = b.decode('latin-1')
    sep = 'From bob@example.com Thu Jan  1 00:00:00 1970\n'
    if target == 'fuzz-mbox':
        items = [{'where': 'mbox', 'b': b}, {'where': 'gz', 'b': world.compress('gz', b.encode('latin-1')).decode('latin-1')}]
        items.append({'where': 'mbox', 'b': sep + 'X-Pad: ' + 'x' * (-(len(b) + len(sep) + 9) % 4096) + '\n\n' + b})
    else:
        items = [{'where': 'md', 'b': b, 'suffix': ''}, {'where': 'md', 'b': 'X-Pad: ' + 'x' * (-(len(b) + 8) % 4096) + '\n' + b, 'suffix': ''},
                 {'where': 'gz', 'b': world.compress('gz', (sep + b).encode('latin-1')).decode('latin-1')}]
    return {'items': items, 'variant': 'asan', 'v': False, 'nohealth': False, 'queries': [['s:q1']], 'fmt': 'mh', 't': False, 'seed': 1}


def prepare(root, bins, tier, seed):
    """Coverage-guided fuzzing of the parsers in memory; what it finds has to be confirmed by the program itself."""
    del EXTRA[:]
    r = random.Random('fuzz:%d' % seed)
    procs = []
    info = {}
    secs = {'quick': 30, 'thorough': 900}[tier]
    for t in ('fuzz-msg', 'fuzz-mbox'):
        if t not in bins:
            info[t] = 'does not build with this tree; left out'
            continue
        d = os.path.join(root, t)
        for x in ('corpus', 'found', 'tmp'):
            os.makedirs(os.path.join(d, x))
        pool = []
        for i in range(300):
            if t == 'fuzz-msg':
                b = hostile(r, pool)
            else:
                b = ''.join('From bob@example.com Thu Jan  1 00:00:00 1970\n' + hostile(r, pool) + '\n' for _ in range(r.randint(1, 3)))
                if r.random() < .2:
                    b = b.replace('From bob@example.com Thu Jan  1 00:00:00 1970\n', '\1\1\1\1\n')
            with open(os.path.join(d, 'corpus', 's%d' % i), 'wb') as f:
                f.write(b.encode('latin-1')[:4000])
        for p, _, _ in os.walk(d):
            os.chmod(p, 0o777)
        cmd = [bins[t], '-fork=4', '-ignore_crashes=1', '-ignore_timeouts=1', '-ignore_ooms=1', '-detect_leaks=0', '-max_len=4096', '-timeout=20',
               '-rss_limit_mb=3000', '-max_total_time=%d' % secs, '-seed=%d' % (seed * 10 + 1), '-dict=' + os.path.join(d, 'dict'),
               '-artifact_prefix=' + os.path.join(d, 'found') + '/', os.path.join(d, 'corpus')]
        shutil.copy(os.path.join(core.VERIF, 'fuzz', 'dict'), os.path.join(d, 'dict'))
        out = open(os.path.join(d, 'out'), 'wb')
        procs.append((t, d, subprocess.Popen(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=out, stderr=out, start_new_session=True,
                                             env={'TMPDIR': os.path.join(d, 'tmp'), 'PATH': '/usr/bin:/bin', 'ASAN_OPTIONS': 'detect_leaks=0', 'TZ': 'UTC'},
                                             preexec_fn=core.drop_privileges)))
    for t, d, p in procs:
        try:
            p.wait(secs + 60)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        with open(os.path.join(d, 'out'), 'rb') as f:
            l = [x for x in f.read().decode('latin-1').split('\n') if x.startswith('#')]
        arts = sorted(x for x in os.listdir(os.path.join(d, 'found')) if x.startswith(('crash-', 'timeout-')))
        info[t] = {'last_line': l[-1][:200] if l else '', 'candidates': len(arts)}
        for a in sorted(arts, key=lambda a: os.path.getsize(os.path.join(d, 'found', a)))[:16]:
            with open(os.path.join(d, 'found', a), 'rb') as f:
                EXTRA.append(found(t, f.read()))
    return {'coverage_guided': info}


def fixed():
    def c(n, fmt):
        return {'items': [{'where': 'mbox', 'b': 'junk\n', 'bulk': n}], 'variant': 'asan', 'v': False, 'nohealth': False,
                'queries': [['s:w1,w2'], ['s:q1']], 'fmt': fmt, 't': False, 'seed': n}
    return EXTRA + [c(700, 'mh'), c(1500, 'maildir'), c(17500, 'mbox')]


MARK = b'Sanitizer'


def check(case, sb):
    variant = case['variant']
    env = {'TMPDIR': sb.dir}
    base = sb.path('mail')
    for d in ('md/new', 'md/cur', 'md/tmp', 'mh'):
        os.makedirs(base + '/' + d)
    open(base + '/mh/.mh_sequences', 'w').close()

    def put(p, s):
        with open(p, 'wb') as f:
            f.write(s.encode('latin-1') if isinstance(s, str) else s)
    boxes = []
    paths = []
    healthy = []

    def hmsg(i):
        return (b'From: good%d@example.com\nTo: someone%d@example.org\nSubject: healthy subj%dz\nDate: Mon, 1 Jan 2001 00:00:00 +0000\n'
                b'Message-ID: <h%d@healthy>\n\nbody bodyof%dz\n' % (i, i, i, i, i))
    n = 0
    nh = 0
    hw = {0: ('file', base + '/md/new/9.z')}
    put(base + '/md/new/9.z', hmsg(0))
    for e in case['items']:
        n += 1
        w = e['where']
        if w == 'md':
            p = base + '/md/' + ('cur' if e['suffix'].startswith(':') else 'new') + '/1%04d.h' % n + e['suffix']
        elif w == 'mh':
            p = base + '/mh/%d' % n
        else:
            p = base + '/box%d' % n + ('' if w == 'mbox' else '.' + w)
            boxes.append('box%d' % n + ('' if w == 'mbox' else '.' + w))
        put(p, bulk(e['bulk'], e['bulk']) if 'bulk' in e else e['b'])
        paths.append(p)
        if case['nohealth']:
            continue
        nh += 1
        if w == 'mh':
            # numbers leave room between the hostile ones
            hp = base + '/mh/%d' % (1000 + n)
            put(hp, hmsg(nh))
            key = ('file', hp)
        elif w == 'md':
            hp = base + '/md/new/1%04d.z' % n
            put(hp, hmsg(nh))
            key = ('file', hp)
        else:
            hp = base + '/hbox%d' % n + ('' if w == 'mbox' else '.' + w)
            sep = world.FROM_LINES[0]
            put(hp, world.compress('' if w == 'mbox' else w, sep + hmsg(nh) + b'\n'))
            boxes.append(os.path.basename(hp))
            key = ('mbox', hp, len(sep), len(sep) + len(hmsg(nh)) + 1)
        hw[nh] = key
    rc = 'base=%s\ndatabase=%s\nmaildir=md\nmh=mh\nmfolder=%s\nmformat=%s\n' % (base, sb.path('db'), sb.path('mf'), case['fmt'])
    for b in boxes:
        if variant == 'msan' and b.endswith(('.gz', '.bz2', '.xz')):
            continue
        rc += 'mbox=%s\n' % b
    put(sb.path('rc'), rc)
    runs = [0]

    def run(args, ok, what):
        runs[0] += 1
        r = sb.run(['-f', sb.path('rc')] + args, variant=variant, env=env)
        if MARK in r.err or b'runtime error:' in r.err:
            i = min(x for x in (r.err.find(MARK), r.err.find(b'runtime error:')) if x >= 0)
            raise Violation('%s: memory error or undefined behaviour: %s' % (what, r.err[max(0, i - 100):i + 1500].decode('latin-1')))
        if r.rc < 0:
            raise Violation('%s: killed by signal %d: %r' % (what, -r.rc, r.err[-300:]))
        if r.rc not in ok:
            raise Violation('%s: exit status %d: %r' % (what, r.rc, r.err[-300:]))
        return r
    v = ['-v'] if case['v'] else []
    rr = random.Random(case['seed'])

    def healthcheck(what):
        want = sorted(k for k in hw.values() if not (variant == 'msan' and k[1].endswith(('.gz', '.bz2', '.xz'))))
        r = run(['-r', 's:healthy', 'b:body', 'f:example'], (0, 1), what + ': search')
        got = [k for k in world.parse_raw(r.out)]
        miss = [k for k in want if k not in got]
        if miss:
            raise Violation('%s: healthy messages not found: %r' % (what, miss[:3]))
        if want:
            i = rr.choice(sorted(hw))
            k = hw[i]
            if k in want:
                for q in ('s:subj%dz' % i, 'b:bodyof%dz' % i, 'm:h%d@healthy' % i):
                    r = run(['-r', q], (0, 1), what + ': search')
                    if k not in world.parse_raw(r.out):
                        raise Violation('%s: healthy message %r not found by %s' % (what, k, q))
    run(v, (0,), 'indexing')
    healthcheck('after indexing')
    # every message file is listed, even if nothing in it could be read
    r = run(['-r', 'p:mail'], (0, 1), 'path search')
    got = {k[1] for k in world.parse_raw(r.out)}
    for p, e in zip(paths, case['items']):
        if e['where'] in ('md', 'mh') and e['b'] and p not in got:
            raise Violation('message file %r is not listed by its path' % p)
    t = ['-t'] if case['t'] else []
    run(['-x'] + t + ['p:%s' % os.path.basename(base)], (0, 1), 'excerpt of everything')
    run(t + ['p:%s' % os.path.basename(base)], (0, 1), 'search into %s' % case['fmt'])
    run(['-d'], (0,), 'dump')
    for q in case['queries']:
        run(['-r'] + t + (['--'] if False else []) + q, (0, 1, 2, 3), 'query %r' % q)
    # change, remove, index again
    for p, e in zip(paths, case['items']):
        if 'b2' in e:
            if e['b2'] is None:
                os.unlink(p)
            else:
                put(p, e['b2'])
                os.utime(p, (1000000000, 1000000000))
    run(v, (0,), 'indexing changes')
    healthcheck('after the second indexing run')
    run(['-x', 'p:%s' % os.path.basename(base)], (0, 1), 'excerpt of everything')
    run(['-p'] + v, (0,), 'purge')
    healthcheck('after the purge')
    run(['-d'], (0,), 'dump')
    return {'evals': runs[0], 'nontrivial': True, 'labels': {variant, case['fmt']} | {e['where'] for e in case['items']},
            'sample': {'items': [{k: (v[:200] if isinstance(v, str) else v) for k, v in e.items()} for e in case['items'][:2]]}}


def valid(case):
    return all(isinstance(e.get('b'), str) for e in case['items']) and all(all(q) and q for q in case['queries'])
