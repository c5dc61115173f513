"""n: finds exactly the named attachments, m: exactly the Message-ID."""
import random, re
import mail, world
from core import Violation

ID = 'C03'
COUNT = {'quick': 6000, 'thorough': 60000}
BUDGET = {'quick': 60, 'thorough': 1500}
RULE = ('case = store of messages with 0-4 attachments whose file names are written in one of 9 parameter syntaxes and '
        'with Message-ID/In-Reply-To/References drawn from a small pool; queries n:name, n:part=, m:id. Non-trivial: '
        'some n: and some m: query matched a proper non-empty subset of the messages.')
FROZEN = ('k', 'form', 'kind', 'disp')
NCH = "abcdefgXYZ0123456789._-+()!#$@{}&;:[]*?'<>|"
OCH = NCH + '"\\\x80\x9f\xa9\xb7\xd7\xf7\xbf'
FORMS = ['quoted', 'token', 'cont', 'contq', 'cset', 'csetcont', 'ctname', 'ctnamecont', 'upper', 'mixedcont', 'spaces', 'both', 'both', 'csetmix', 'bothcont']


def rfn(r):
    c = r.random()
    if c < .35:
        return r.choice(['report.pdf', 'Report.PDF', 'report', 'photo_1.jpg', 'photo_10.jpg', 'notes.txt', 'x', 'a.b.c',
                         'inv-2024.doc', 'my file.txt', 'my  file.txt', 'file.tar.gz', 'README'])
    n = r.choice([1, 2, 3, 5, 8, 12, 20, 31, 32, 40, 80])
    ch = NCH if r.random() < .7 else OCH
    s = ''.join(r.choice(ch + '   ' if n > 3 else ch) for _ in range(n)).strip()
    return s or 'z'


def qs(s, v):
    """As a quoted string, some characters of it as quoted-pairs without need."""
    w = v * 7919 >> 3
    return '"' + ''.join('\\' + c if c in '"\\' or w & 15 == 0 and (i * 5 + w) % 7 == 0 and not c.isalnum() else c for i, c in enumerate(s)) + '"'


def enc(s, v):
    out = ''
    for i, ch in enumerate(s):
        if not ch.isalnum() and not (ch in '._-+' and v & 2) or (v and (i * 7 + v) % 5 == 0):
            out += ('%%%02X' if v & 1 else '%%%02x') % ord(ch)
        else:
            out += ch
    return out


def split(r, s, n):
    n = min(n, len(s))
    cuts = sorted(r.sample(range(1, len(s)), n - 1)) if n > 1 else []
    return [s[a:b] for a, b in zip([0] + cuts, cuts + [len(s)])]


def ratt(r):
    fn = rfn(r)
    form = r.choice(FORMS)
    if form in ('token', 'mixedcont') and not re.match(r'^[A-Za-z0-9._+\-]+$', fn):
        form = 'quoted'
    a = {'fn': fn, 'form': form, 'disp': r.choice(['attachment', 'attachment', 'attachment', 'ATTACHMENT', 'inline']),
         'v': r.randrange(64), 'ct': r.choice(['application/pdf', 'text/plain', 'image/jpeg', 'text/html', 'application/octet-stream'])}
    if form in ('cont', 'contq', 'csetcont', 'ctnamecont', 'mixedcont', 'csetmix', 'bothcont'):
        a['parts'] = split(r, fn, r.choice([2, 2, 3, 4, 8, 13]))
    if r.random() < .5:
        a['other'] = r.choice(['size=1234', 'creation-date="Mon, 1 Jan 2001"', 'x-foo=bar', 'handling=optional', 'filenote*0=zz', 'x-filename="zz"'])
    return a


def render_att(a):
    f = a['form']
    v = a['v']
    fn = a['fn']
    sep = [';\n\t', '; ', ' ; ', ';'][v & 1 | v >> 2 & 2]
    ct = a['ct']
    cd = a['disp']
    pre = sep + a['other'] if a.get('other') and v & 2 else ''
    post = sep + a['other'] if a.get('other') and not v & 2 else ''
    if f == 'quoted':
        cd += pre + sep + 'filename=' + qs(fn, v) + post
        if v & 4:
            ct += sep + 'name="zzdecoy.%d"' % v
    elif f == 'token':
        cd += pre + sep + 'filename=%s' % fn + post
    elif f == 'spaces':
        cd += pre + sep + 'filename=  ' + qs(fn, v) + ' ' + post
    elif f == 'upper':
        cd += pre + sep + 'FileName=' + qs(fn, v) + post
    elif f == 'cont' or f == 'contq':
        for i, p in enumerate(a['parts']):
            cd += sep + 'filename*%d=%s' % (i, qs(p, v))
        cd += post
    elif f == 'mixedcont':
        for i, p in enumerate(a['parts']):
            cd += sep + ('filename*%d=%s' if i % 2 else 'filename*%d="%s"') % (i, p)
    elif f == 'cset':
        cd += pre + sep + "filename*=%s''%s" % (['utf-8', 'ISO-8859-1', '', 'us-ascii'][v % 4], enc(fn, v)) + post
    elif f == 'both':
        x = ["filename*=utf-8''" + enc(fn, v), 'filename=' + qs(fn, v)]
        if v & 2:
            x.reverse()
        cd += pre + sep + x[0] + sep + x[1]
    elif f == 'csetcont':
        for i, p in enumerate(a['parts']):
            if i == 0:
                cd += sep + "filename*0*=utf-8''" + enc(p, v)
            else:
                cd += sep + 'filename*%d*=%s' % (i, enc(p, v))
    elif f == 'csetmix':
        # only some sections are percent-encoded
        for i, p in enumerate(a['parts']):
            if i == 0:
                cd += sep + "filename*0*=utf-8''" + enc(p, v)
            else:
                cd += sep + ('filename*%d*=%s' % (i, enc(p, v)) if (v >> (i % 5)) & 1 else 'filename*%d=%s' % (i, qs(p, v)))
    elif f == 'bothcont':
        x = ''
        for i, p in enumerate(a['parts']):
            if v & 4:
                x += sep + ("filename*0*=utf-8''" + enc(p, v) if i == 0 else 'filename*%d*=%s' % (i, enc(p, v)))
            else:
                x += sep + 'filename*%d=%s' % (i, qs(p, v))
        pl = sep + 'filename=' + qs(fn, v)
        cd += x + pl if v & 8 else pl + x
    elif f == 'ctname':
        ct += sep + ['name', 'Name', 'NAME', 'name'][v >> 2 & 3] + '=' + qs(fn, v)
    elif f == 'ctnamecont':
        for i, p in enumerate(a['parts']):
            ct += sep + 'name*%d=%s' % (i, qs(p, v))
    w = v * 7919
    if w >> 4 & 7 == 0:
        eq = [' = ', '= ', ' =', '\t='][w >> 7 & 3]
        cd, ct = [re.sub(r'(?i)(;\s*(?:file)?name[0-9*]*)=', lambda m: m.group(1) + eq, x) for x in (cd, ct)]
    if w >> 9 & 7 == 0:
        cd += [';', '; x-y=""', '; x-y=', '; x-y=""; x-z="a"'][w >> 12 & 3]
    elif w >> 9 & 7 == 1 and f.startswith('ctname'):
        cd += ['; filename=""', '; filename='][w >> 12 & 1]
    elif w >> 9 & 7 == 2 and 'name' not in ct:
        ct += ['; name=""', '; name=', '; charset=""; name="zzdecoy"'][(w >> 12) % 3]
    h = ['Content-Type: ' + ct, 'Content-Disposition: ' + cd, 'Content-Transfer-Encoding: base64']
    if v & 32:
        h = h[1:] + h[:1]
    if v & 8:
        h.reverse()
    if v & 16:
        h = [x.replace('Content-', 'content-', 1) for x in h]
    return '\n'.join(h) + '\n\nYWJj\n'


def rmsg(r, pool):
    m = {'atts': [ratt(r) for _ in range(r.choice([0, 1, 1, 2, 4]))], 'body': mail.rword(r), 'nest': r.random() < .15}
    if r.random() < .9:
        m['mid'] = r.choice(pool)
    if r.random() < .4:
        m['irt'] = r.choice(pool)
    if r.random() < .4:
        m['refs'] = [r.choice(pool) for _ in range(r.randint(1, 3))]
    m['v'] = r.randrange(16)
    if len(m['atts']) == 1 and r.random() < .3:
        m['top'] = r.choice([1, 2])  # the whole message is the attachment
        m['nest'] = False
    elif m['atts'] and r.random() < .2:
        # a message attached to it
        m['sub'] = {'atts': [ratt(r) for _ in range(r.choice([0, 1, 2]))], 'body': mail.rword(r), 'nest': False, 'v': r.randrange(16)}
        if r.random() < .8:
            m['sub']['mid'] = r.choice(pool)
        if r.random() < .4:
            m['sub']['refs'] = [r.choice(pool)]
    return m


def all_atts(m):
    return m['atts'] + (all_atts(m['sub']) if m.get('sub') else [])


def mids(m):
    return {m['mid'].lower()} if 'mid' in m else set()


def render(m):
    h = ['From: a@b', 'Subject: s']
    v = m['v']
    if 'mid' in m:
        h.insert(v % 3, ('Message-ID: <%s>' if v & 4 else 'Message-Id: <%s>') % m['mid'])
    if 'irt' in m:
        h.append('In-Reply-To: <%s>' % m['irt'])
    if 'refs' in m:
        h.append('References: ' + ('\n\t' if v & 8 else ' ').join('<%s>' % x for x in m['refs']))
    if m.get('top') and len(m['atts']) == 1:
        a, b = render_att(m['atts'][0]).split('\n\n', 1)
        h = h + [a] if m['top'] == 1 else [a] + h
        return '\n'.join(h) + '\n\n' + b
    if not m['atts'] and not m['nest'] and not m.get('sub'):
        return '\n'.join(h) + '\n\n' + m['body'] + '\n'
    inner = '--BB\n\n' + m['body'] + '\n' + ''.join('--BB\n' + render_att(a) for a in m['atts'])
    if m.get('sub'):
        inner += '--BB\nContent-Type: %s\n\n' % ['message/rfc822', 'Message/RFC822'][v & 1] + render(m['sub']).replace('BB', 'CC')
    inner += '--BB--\n'
    if m['nest']:
        inner = '--AA\nContent-Type: multipart/mixed; boundary=BB\n\n' + inner + '--AA--\n'
        h.append('Content-Type: multipart/mixed; boundary="AA"')
    else:
        h.append('Content-Type: multipart/mixed; boundary="BB"')
    return '\n'.join(h) + '\n\n' + inner


def rid(r):
    if r.random() < .5:
        return '%s%d@host.example' % (r.choice(['id', 'ID', 'x.']), r.randrange(6))
    return ''.join(r.choice('abcXYZ0123.$%-_+!') for _ in range(r.randint(1, 60))) + '@' + r.choice(mail.HOSTS)


def gen(r, k, tier):
    pool = [rid(r) for _ in range(r.randint(2, 8))]
    if r.random() < .5:
        pool.append(pool[0] + 'x')
        pool.append(pool[0][1:])
    msgs = [{'m': rmsg(r, pool)} for _ in range(r.randint(2, 8))]
    fns = [a['fn'] for e in msgs for a in all_atts(e['m'])]
    nq = []
    for _ in range(10):
        if not fns:
            break
        f = r.choice(fns)
        c = r.random()
        if c < .5:
            q = mail.casemix(r, f)
        elif c < .6:
            q = r.choice([f[:-1], f[1:], f + 'x', f + ' x'])
        else:
            i = r.randrange(len(f))
            q = f[i:i + r.randint(1, 31)]
            q = mail.casemix(r, q).lstrip('^~ ') + '='
        q = q.lstrip('^~')
        if q.strip() == '' or q[:-1].strip() == '' or q != q.strip() or q.rstrip('=') != q.rstrip('=').strip():
            continue
        nq.append(q)
    return {'msgs': msgs, 'mbox': r.random() < .3, 'nq': nq,
            'mq': [mail.casemix(r, x) for x in pool] + [pool[0][:-1], pool[-1] + 'z']}


def check(case, sb):
    ent = [{'raw': render(e['m'])} for e in case['msgs']]
    f = {'kind': 'mbox' if case['mbox'] else 'maildir', 'name': 'f', 'msgs': ent}
    w = world.World(sb, [f]).build()
    w.index()
    keys = [d.key for d in w.docs]
    names = [{a['fn'].lower() for a in all_atts(e['m']) if a['disp'].lower() == 'attachment'} for e in case['msgs']]
    ids = [mids(e['m']) | (mids(e['m']['sub']) if e['m'].get('sub') else set()) for e in case['msgs']]
    np = mp = 0
    for q in case['nq']:
        got = w.search(['n:' + q])
        if q.endswith('='):
            t = q[:-1].lower()
            want = [k for k, n in zip(keys, names) if any(t in x for x in n)]
        else:
            want = [k for k, n in zip(keys, names) if q.lower() in n]
        world.compare(got, want, 'search %r' % ('n:' + q))
        np += 0 < len(want) < len(keys)
    for q in case['mq']:
        got = w.search(['m:' + q])
        want = [k for k, i in zip(keys, ids) if q.lower() in i]
        world.compare(got, want, 'search %r' % ('m:' + q))
        mp += 0 < len(want) < len(keys)
    # the file name is not body text
    got = w.search(['zzdecoy'])
    world.compare(got, [], "search 'zzdecoy'")
    labels = {'form-' + a['form'] for e in case['msgs'] for a in e['m']['atts']} | {x for e in case['msgs'] for x in ('top', 'sub') if e['m'].get(x)}
    return {'evals': len(case['nq']) + len(case['mq']) + 1, 'nontrivial': np > 0 and mp > 0, 'labels': labels}


def valid(case):
    for e in case['msgs']:
        for a in all_atts(e['m']):
            if not a['fn'] or 'parts' in a and ''.join(a['parts']) != a['fn']:
                return False
        if any('mid' in x and '@' not in x['mid'] for x in (e['m'], e['m'].get('sub') or {})):
            return False
    return bool(case['msgs']) and all(q.strip('= ') for q in case['nq']) and all(case['mq'])
