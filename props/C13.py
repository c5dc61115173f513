"""Mailbox files are split into exactly their messages."""
import os, random
import world
from core import Violation

ID = 'C13'
COUNT = {'quick': 9000, 'thorough': 200000}
BUDGET = {'quick': 60, 'thorough': 1500}
RULE = ('case = an mbox (every documented separator form), CRLF mbox or MMDF file, plain or gz/bz2/xz, of 0-25 messages whose bodies hold '
        'quoted, near-miss and other-format separator lines, blank-line runs, missing final newlines, and MIME parts containing whole '
        'valid separator lines; the reported byte ranges and a unique first and last word per message must match the construction. '
        'Non-trivial: at least 2 messages and at least one misleading line.')
FROZEN = ('fmt', 'z')
SHRINK_STRINGS = False
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MONS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
ADDR = ['', 'bob', 'bob@example.com', '<bob@example.com>', '-', 'MAILER-DAEMON', 'a.b+c-d_e@x-y.z.org', '"bob smith"@example.com',
        'root@[10.0.0.1]', 'x!y!z', '@relay.org:bob@x.org', "o'neil@x.ie", '<bob>', '+', 'a@b', '<bob@x>']
ZONE = ['', '', '', 'PST', '+0100', '-0800', 'GMT', 'MET DST', 'Z']


def rsep(r):
    """A valid separator line, without its line end."""
    a = r.choice(ADDR)
    if r.random() < .15:
        d = '%s, %d %s %s %02d:%02d:%02d %s' % (r.choice(DAYS), r.randint(1, 31), r.choice(MONS), r.choice(['2021', '1999', '04']),
                                             r.randrange(24), r.randrange(60), r.randrange(60), r.choice(['PST', '+0200', 'GMT']))
    else:
        day = r.randint(1, 31)
        t = '%02d:%02d' % (r.randrange(24), r.randrange(60))
        if r.random() < .85:
            t += ':%02d' % r.randrange(61)
        z = r.choice(ZONE)
        y = str(r.choice([1970, 1999, 2001, 2021, 2038, 1001]))
        d = '%s %s %s %s %s' % (r.choice(DAYS), r.choice(MONS), r.choice(['%d', '%2d', '%02d']) % day, t,
                             y if not z else (z + ' ' + y if r.random() < .6 else y + ' ' + z))
        if r.random() < .1:
            d += r.choice([' remote from host.example', '  '])
    sp = r.choice([' ', ' ', '  ', '\t'])
    return 'From ' + a + sp + d


def nearly(r):
    """A separator line with one thing wrong."""
    a, d, m = r.choice(['bob', 'bob@example.com', '<bob@x>', '-', '']), r.choice(DAYS), r.choice(MONS)
    day, h, mi, s, y = '%02d' % r.randint(1, 31), '%02d' % r.randrange(24), '%02d' % r.randrange(60), '%02d' % r.randrange(60), '2021'
    old = r.random() < .3
    sec = r.random() < .7
    f = ['a', 'd', 'm', 'day', 'h', 'mi', 's', 'y', 'colon', 'gap'] + (['comma'] * 2 if old else [])
    c = r.choice(f)
    colon, comma = ':', ','
    if c == 'a':
        a = r.choice(['bob smith', '<bob', 'bob>', '"bob', 'bob@', '<bob@x', 'bob@x@y z', 'bob,', 'and then', '<>'])
    elif c in 'dm':
        x = r.choice([str.lower, str.upper, lambda x: x[:2], lambda x: x + 'x', lambda x: x[:2] + '3', lambda x: x + '.', lambda x: ''])
        d, m = (x(d), m) if c == 'd' else (d, x(m))
    elif c == 'day':
        day = r.choice(['123', 'x', '1x', '', '1st', '-1', '1.'])
    elif c == 'h':
        h = r.choice(['1', '001', 'x1', ''])
    elif c == 'mi':
        mi = r.choice(['1', '001', '1x', ''])
    elif c == 's':
        sec, s = True, r.choice(['1', '001', 'x1', '', '1x'])
    elif c == 'y':
        y = r.choice(['021', '21' if not old else '2', '', 'x021', '2O21'])
    elif c == 'colon':
        colon = r.choice(['.', ';', ' '])
    elif c == 'comma':
        comma = r.choice(['', '.', ' ,', ',x'])
    t = h + colon + mi + (colon + s if sec else '')
    w = [d + comma, day, m, y, t, r.choice(['PST', '+0200'])] if old else [d, m, day, t, y]
    w = [x for x in w if x]
    i = r.randrange(len(w) - 1) if c == 'gap' else -1
    g = r.choice(['-', ',', '/'] if old and i == 3 else ['', '-', ',', '/'])
    return 'From ' + (a + ' ' if a else '') + ''.join(x + ('' if j == len(w) - 1 else g if j == i else ' ') for j, x in enumerate(w))


def rfake(r, fmt):
    """A line that must not separate."""
    if r.random() < .3:
        return nearly(r)
    good = rsep(r)
    c = r.randrange(21)
    d, m = r.choice(DAYS), r.choice(MONS)
    if c == 0:
        return '>' + good
    if c == 1:
        return ' ' + good
    if c == 2:
        return 'f' + good[1:]
    if c == 3:
        return 'From here to eternity'
    if c == 4:
        return 'From'
    if c == 5:
        return 'From '
    if c == 6:
        return 'x ' + good
    if c == 7:
        return 'From bob %s %s 12 2001' % (d, m)
    if c == 8:
        return 'From bob %s %s 12 10:11:12 PST' % (d, m)
    if c == 9:
        return 'From bob %s %s 12 1:11:12 2001' % (d.lower(), m)
    if c == 10:
        return 'From bob %s %s 123 10:11:12 2001' % (d, m)
    if c == 11:
        return 'From bob smith %s %s 12 10:11:12 2001' % (d.lower(), m)
    if c == 12:
        return 'From bob %s %s 12 10:11:12 201' % (d, m)
    if c == 13:
        return 'FROM bob %s %s 12 10:11:12 2001' % (d, m)
    if c == 14:
        return 'From: bob %s %s 12 10:11:12 2001' % (d, m)
    if c == 15:
        return '\1\1\1\1' if fmt != 'mmdf' else '\1\1\1'
    if c == 18:
        return r.choice(['\1\1\1\1\1', '\1\1\1\1\1\1\1\1', '\1\1\1\1 '])
    if c == 19:
        return r.choice(['x\1\1\1\1', ' \1\1\1\1', '\1\1 \1\1', '\1\1\1 \1'])
    if c == 20:
        return r.choice(['Fro', 'FFrom bob %s %s 12 10:11:12 2001' % (d, m), 'Fr', 'From\t' + good[5:], '-' + good, '|From ' + good])
    if c == 16:
        return '\1\1\1\1x' if fmt == 'mmdf' else '\1\1\1'
    return 'From bob@example.com%s %s 12 10:11:12 2001' % (d, m)


def rlines(r, fmt, n):
    out = []
    for _ in range(n):
        c = r.random()
        if c < .35:
            out.append(rfake(r, fmt))
        elif c < .5:
            out.append('')
        elif c < .6 and fmt == 'mmdf':
            out.append(rsep(r))
        else:
            out.append('text line %d' % r.randrange(100))
    return out


def gen(r, k, tier):
    case = rbox(r, r.choice([0, 1, 2, 3, 6, 25]))
    case['extra'] = r.random() < .2
    case['more'] = [rbox(r, r.choice([1, 2, 3])) for _ in range(r.choice([0, 0, 0, 1, 2, 4]))]
    return case


def rbox(r, n):
    fmt = r.choice(['mbox', 'mbox', 'mbox', 'crlf', 'mmdf'])
    msgs = []
    for i in range(n):
        m = {'sep': rsep(r), 'lines': rlines(r, fmt, r.choice([0, 1, 3, 8])), 'mime': None, 'eol': True,
             'blank': r.choice([1, 1, 1, 0, 2, 5])}
        if r.random() < .3:
            # whole mailbox fragments inside a MIME part
            inner = []
            for _ in range(r.choice([1, 1, 2, 4])):
                inner += rlines(r, fmt, 2)
                if fmt == 'mmdf':
                    inner.append(rsep(r))
                else:
                    inner += r.choice([[''], []]) + [rsep(r), 'Subject: inner', '', 'inner text']
            m['mime'] = {'lines': inner, 'b': r.choice(['bb', '----=_Part_1', 'From']), 'pos': r.choice([0, 1]), 'two': r.random() < .3}
            if r.random() < .15:
                # the end of the multipart is missing: the message ends at the next separator
                m['mime'] = {'lines': rlines(r, fmt, 2), 'b': 'open', 'pos': 0, 'two': False, 'open': True}
        elif r.random() < .06:
            m['tiny'] = r.choice(['', '\n', 'x\n', '\n\n', 'x', 'word', 'a:\n', '\nx\n'])
        msgs.append(m)
    if msgs and r.random() < .3:
        msgs[-1]['eol'] = False
    return {'fmt': fmt, 'z': r.choice(['', '', '', '', 'gz', 'bz2', 'xz', 'GZ', 'BZ2', 'Xz']), 'msgs': msgs, 'last_sep': r.random() < .85}


def fixed():
    big = {'sep': 'From bob Mon Mar 15 14:36:40 2021', 'lines': ['From nothing %d' % (i % 10) for i in range(600000)], 'mime': None,
           'eol': True, 'blank': 1}
    small = dict(big, lines=['a'])
    op = dict(small, mime={'lines': [], 'b': 'open', 'pos': 0, 'two': False, 'open': True})
    emb = dict(small, mime={'lines': ['From bob Mon Mar 15 14:36:40 2021', 'Subject: inner', ''] * 90, 'b': 'emb', 'pos': 0, 'two': False})
    return [{'fmt': f, 'z': z, 'msgs': [small, big, small], 'last_sep': True, 'extra': False} for f, z in
            (('mbox', 'gz'), ('mbox', 'bz2'), ('mbox', 'xz'), ('mmdf', 'gz'), ('mbox', ''))] + [
            {'fmt': f, 'z': '', 'msgs': [small, op] + [small] * 150 + [emb, small], 'last_sep': True, 'extra': False}
            for f in ('mbox', 'crlf', 'mmdf')]


def body(m, i):
    if m.get('tiny') is not None:
        return None
    ls = ['Subject: first%dx' % i, 'From: a@b.c']
    mm = m['mime']
    if mm:
        ls += ['MIME-Version: 1.0', 'Content-Type: multipart/mixed; boundary="%s"' % mm['b'], '']
        ls += ['preamble', '--' + mm['b']]
        part = ['Content-Type: text/plain', ''] + mm['lines']
        other = ['', 'other part']
        for p in ([part, other] if mm['pos'] == 0 else [other, part]):
            ls += p + ['--' + mm['b']]
        if mm['two']:
            ls += ['Content-Type: message/rfc822', '', 'Subject: attached', ''] + mm['lines'] + ['--' + mm['b']]
        if mm.get('open'):
            return ls + ['', 'last%dx' % i]
        ls += ['', 'last%dx' % i, '--' + mm['b'] + '--']
        ls += [l for l in m['lines'] if 1]
    else:
        ls += [''] + m['lines'] + ['last%dx' % i]
    return ls


def make(case, base=0):
    nl = '\r\n' if case['fmt'] == 'crlf' else '\n'
    out = ''
    pos = []
    n = len(case['msgs'])
    for i, m in enumerate(case['msgs']):
        ls = body(m, base + i)
        tiny = ls is None
        if tiny:
            txt = m['tiny'].replace('\n', nl)
            if not (i == n - 1 and not case['last_sep'] if case['fmt'] == 'mmdf' else i == n - 1) and txt and not txt.endswith(nl):
                txt += nl
            if i == n - 1 and not txt and not (case['fmt'] == 'mmdf' and case['last_sep']):
                txt = nl
            if n == 1 and case['fmt'] == 'mmdf':
                # (a file of ten bytes or less is not taken for MMDF)
                txt = 'word word' + nl
        else:
            txt = nl.join(ls) + nl
        if case['fmt'] == 'mmdf':
            if i == n - 1 and not m['eol'] and not case['last_sep'] and not tiny:
                txt = txt[:-len(nl)]
            out += '\1\1\1\1\n'
            pos.append((len(out), len(out) + len(txt)))
            out += txt
            if i < n - 1 or case['last_sep']:
                out += '\1\1\1\1\n'
        else:
            out += m['sep'] + nl
            txt += nl * (0 if tiny else m['blank'])
            if i == n - 1 and not m['eol'] and not tiny:
                while txt.endswith(nl):
                    txt = txt[:-len(nl)]
            pos.append((len(out), len(out) + len(txt)))
            out += txt
    return out.encode('latin-1'), pos


def check(case, sb):
    base = sb.path('mail')
    os.mkdir(base)
    rc = 'base=%s\ndatabase=%s\nmfolder=m\nmformat=raw\n' % (base, sb.path('db'))
    all_pos = []
    flat = [m for b in [case] + case.get('more', []) for m in b['msgs']]
    for b, box in enumerate([case] + case.get('more', [])):
        data, pos = make(box, len(all_pos))
        z = box['z']
        name = 'box%d' % b + ('.' + z if z else '')
        with open(os.path.join(base, name), 'wb') as f:
            f.write(world.compress(z, data))
        rc += 'mbox=%s\n' % name
        all_pos += [(os.path.join(base, name), s, e) for s, e in pos]
    pos = all_pos
    mh = os.path.join(base, 'mh')
    os.mkdir(mh)
    for nm, t in (('.mh_sequences', b''), ('1', b'Subject: control\n\nx\n')):
        with open(os.path.join(mh, nm), 'wb') as f:
            f.write(t)
    rc += 'mh=mh\n'
    if case['extra']:
        # a file without separators is no mailbox and contributes nothing
        with open(os.path.join(base, 'notes'), 'wb') as f:
            f.write(b'Subject: nothing\n\nFrom here on there is no mail\n')
        rc += 'mbox=notes\n'
    with open(sb.path('rc'), 'w') as f:
        f.write(rc)
    r = sb.run(['-f', sb.path('rc')])
    if r.rc != 0:
        raise Violation('indexing failed: %r' % r)

    def search(q):
        r = sb.run(['-f', sb.path('rc'), '-r', q])
        if r.rc not in (0, 1):
            raise Violation('search failed: %r' % r)
        return [x[1:] for x in world.parse_raw(r.out) if x[0] == 'mbox'], [x for x in world.parse_raw(r.out) if x[0] == 'file']
    got, other = search('p:mail')
    if len(other) != 1:
        raise Violation('the other folder lists %r' % other)
    if sorted(got) != sorted(pos):
        raise Violation('%s files split at %r, their messages are at %r' % ([b['fmt'] for b in [case] + case.get('more', [])],
                        [x for x in sorted(got) if x not in pos][:30], [x for x in pos if x not in got][:30]))
    for i, p in list(enumerate(pos))[:8] + list(enumerate(pos))[8:][-4:]:
        m = flat[i]
        if m.get('tiny') is not None or (m['mime'] or {}).get('open'):
            continue
        for q in ('s:first%dx' % i, 'b:last%dx' % i):
            got, _ = search(q)
            if got != [p]:
                raise Violation('%s finds %r, not message %d at %r' % (q, got, i, p))
    mis = any(m['lines'] or m['mime'] for b in [case] + case.get('more', []) for m in b['msgs'])
    return {'nontrivial': len(pos) >= 2 and mis, 'evals': 1 + 2 * min(8, len(pos)),
            'labels': {case['fmt'], case['z'] or 'plain'} | ({'mime'} if any(m['mime'] for m in case['msgs']) else set()),
            'sample': {'fmt': case['fmt'], 'head': make(case)[0][:600].decode('latin-1')}}


def valid(case):
    return all(c['fmt'] in ('mbox', 'crlf', 'mmdf') and all(m['sep'].startswith('From ') for m in c['msgs']) and all(
        not m['mime'] or m['mime']['b'] for m in c['msgs']) for c in [case] + case.get('more', []))
