"""The encoding of a text never changes what a search finds."""
import random
import mail, world
from core import Violation

ID = 'C02'
COUNT = {'quick': 2800, 'thorough': 40000}
BUDGET = {'quick': 60, 'thorough': 1500}
RULE = ('case = 2-5 logical messages (texts of To, Cc, From, Subject, body), each written 5-9 times into the store in '
        'different encodings (transfer encoding, RFC 2047, folding, header case, CRLF, multipart/attached-message '
        'nesting, HTML); all writings of one message must match every query alike, and as the text says. Non-trivial: '
        'a query matched a proper subset of the logical messages and the case has encoded bodies and encoded headers.')
FROZEN = ('lm', 'm', 'q')  # a writing and its logical text must stay in step


def gtext(r, high=True):
    """A body text that every transfer encoding can carry."""
    n = r.choice([1, 1, 2, 4, 10, 25])
    lines = []
    for _ in range(n):
        l = mail.rtext(r, 1, r.choice([2, 6, 14]))
        if high and r.random() < .15 and l:
            i = r.randrange(len(l))
            l = l[:i] + r.choice(mail.HIGH) + l[i:]
        l = l.replace('<', '(').replace('>', ')').replace('&', '+')
        if l.startswith('From '):
            l = 'x' + l
        if l.startswith('--'):
            l = '+' + l[2:]
        if r.random() < .1:
            l += r.choice([' ', '\t', '  '])
        lines.append(l)
    return '\n'.join(lines) + ('\n' if r.random() < .8 else '')


def variant(r, lm, plain):
    """One writing of a logical message."""
    def hsegs(t):
        if plain:
            return [{'t': t, 'e': '', 'f': ''}]
        out = []
        ws = t.split(' ')
        i = 0
        while i < len(ws):
            n = r.randint(1, 3)
            chunk = ' '.join(ws[i:i + n])
            i += n
            if r.random() < .5 and '<' not in chunk and '@' not in chunk and len(chunk) < 300:
                out += mail.split_enc(r, {'t': chunk, 'e': r.choice('QB'), 'v': r.randrange(4),
                                          'cs': r.choice(['utf-8', 'ISO-8859-15', 'UTF-8', 'iso-2022-jp', 'x']),
                                          'f': r.choice(['', '', ' ', '\t'])})
            else:
                out.append({'t': chunk, 'e': '', 'f': r.choice(['', '', ' ', '\t', '   '])})
        return out
    h = []
    for name in ('Subject', 'From', 'To', 'Cc'):
        if lm.get(name):
            h.append([name, hsegs(lm[name])])
    if not plain:
        r.shuffle(h)
    text = lm['body']
    if plain:
        body = {'k': 'leaf', 'sub': 'plain', 'cte': '', 'text': text, 'v': 0, 'fn': None}
    else:
        body = leaf(r, text)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            body = wrap(r, body)
    return {'h': h, 'v': 0 if plain else r.randrange(1 << 16), 'body': body}


def leaf(r, text):
    sub = r.choice(['plain', 'plain', 'plain', 'html', 'none'])
    if sub == 'html':
        # white space and tags both separate words
        out = ''
        for ch in text:
            out += ch
            if ch in ' \n' and r.random() < .15:
                out += r.choice(['<b>', '</p>', '<br/>', '<a href="http://zzhref.example/qqurl">', '<!-- zzcomment -->',
                                 '<div\nclass="zzclass">'])
        text = out
    cte = r.choice(['', '7bit', '8bit', 'binary', 'quoted-printable', 'quoted-printable', 'quoted-printable', 'base64',
                    'base64', 'base64', 'x-uuencode'])
    return {'k': 'leaf', 'sub': sub, 'cte': cte, 'text': text, 'v': r.randrange(1 << 16), 'fn': None}


def bounds(p):
    if p['k'] == 'multi':
        return [p['b']] + [b for s in p['parts'] for b in bounds(s)]
    if p['k'] == 'rfc822':
        return bounds(p['m']['body'])
    return []


def decoys(p):
    if p['k'] == 'multi':
        return p.get('dec', []) + [d for s in p['parts'] for d in decoys(s)]
    if p['k'] == 'rfc822':
        return decoys(p['m']['body'])
    return []


def decoy(r, b):
    """A line that is not the boundary line, whatever it looks like."""
    return r.choice(['x--' + b, ' --' + b, '--' + b + 'x', '--' + b + '-', '--' + b + '-x', 'x--' + b + '--', '-' + b, '- --' + b + '--',
                     '>--' + b, b, '--' + b[:-1] + '~'])


def junk(r, dec=()):
    """A part that must contribute nothing."""
    t = 'zzjunk zzbinary ' + mail.rtext(r, 1, 4).replace('--', '+') + '\n'
    for d in dec:
        t += d + '\n' + r.choice(['\nzzjunk\n', 'zzjunk\n', 'X: y\n\nzzjunk\n', ''])
    if dec:
        return {'k': 'leaf', 'sub': r.choice(['octet', 'other', 'calendar']), 'cte': r.choice(['', '7bit', '8bit']), 'text': t,
                'v': r.randrange(1 << 16), 'fn': None}
    return {'k': 'leaf', 'sub': r.choice(['octet', 'other', 'calendar']), 'cte': r.choice(['', 'base64', 'quoted-printable']),
            'text': t, 'v': r.randrange(1 << 16), 'fn': None}


def wrap(r, p):
    inner = bounds(p)
    if r.random() < .2:
        return {'k': 'rfc822', 'cte': r.choice(['', '7bit', '8bit']), 'v': r.randrange(1 << 16),
                'm': {'h': [[r.choice(['X-Foo', 'Received']), [{'t': 'zzhdr', 'e': '', 'f': ''}]]], 'v': r.randrange(1 << 16),
                      'body': p}}
    b = mail.rboundary(r, ())
    if inner and r.random() < .5:
        # a boundary that is a prefix or an extension of an inner one
        c = r.choice(inner)
        b = r.choice([c[:-1] or 'zb', c + 'x', c[:max(1, len(c) // 2)]])[:68].rstrip(' ')
    old = decoys(p)
    while b in inner or not b or any(d.startswith('--' + b) for d in old):
        b += 'q'
    dec = []
    if r.random() < .3:
        dec = [decoy(r, r.choice([b, b, r.choice(inner + [b])])) for _ in range(r.choice([1, 1, 3]))]
        dec = [d for d in dec if not any(d == '--' + x or d.startswith('--' + x + '--') for x in inner + [b])]
    parts = [p]
    if dec or r.random() < .5:
        parts.insert(r.randrange(2), junk(r, dec))
    return {'k': 'multi', 'sub': r.choice(['mixed', 'alternative', 'related', 'MIXED', 'signed', 'digest2']), 'b': b,
            'parts': parts, 'pre': r.choice(['', 'zzpreamble\n', '\n', '\nzzpreamble\n', 'X: y\n\nzzpreamble\n']),
            'post': r.choice(['', '\n', 'zzepilogue\n', '\nzzepilogue\n']), 'v': r.randrange(1 << 16), 'dec': dec}


def hdr(r):
    t = mail.rtext(r, 1, 6)
    return t.replace('  ', ' ').replace('<', '(').replace('>', ')').replace('\t', ' ').strip()


def gen(r, k, tier):
    n = r.randint(2, 5)
    nv = r.randint(5, 9)
    msgs = []
    for i in range(n):
        lm = {'body': gtext(r)}
        if r.random() < .8:
            lm['Subject'] = hdr(r)
        for nm in ('From', 'To', 'Cc'):
            if r.random() < .6:
                lm[nm] = ' '.join([mail.rname(r), '<' + mail.raddr(r) + '>'] * r.choice([1, 1, 2]))
        if len(lm) == 1:
            lm['Subject'] = hdr(r) or 'x'
        vs = []
        for j in range(nv):
            e = {'m': variant(r, lm, j == 0)}
            if j and r.random() < .2:
                e['crlf'] = 1
            vs.append(e)
        msgs.append({'lm': lm, 'vs': vs})
    return {'msgs': msgs, 'qs': r.randrange(1 << 30), 'mbox': r.random() < .25}


def check(case, sb):
    folders = []
    for i, m in enumerate(case['msgs']):
        if case['mbox']:
            folders.append({'kind': 'mbox', 'name': 'b%d' % i, 'msgs': [e for e in m['vs'] if not e.get('crlf')]})
        else:
            folders.append({'kind': 'maildir', 'name': 'm%d' % i, 'msgs': m['vs']})
    w = world.World(sb, folders).build()
    w.index()
    toks = []
    keys = []
    pos = 0
    for m, f in zip(case['msgs'], folders):
        lm = m['lm']
        d = mail.Doc()
        d.s = mail.words(lm.get('Subject', ''))
        for a, nm in (('t', 'To'), ('c', 'Cc'), ('f', 'From')):
            t = lm.get(nm, '')
            setattr(d, a, mail.words(t) | mail.addrs(t))
        d.b = mail.words(lm['body'])
        toks.append(d)
        keys.append([x.key for x in w.docs[pos:pos + len(f['msgs'])]])
        pos += len(f['msgs'])
    r = random.Random(case['qs'])
    if 'q' in case:
        qs = case['q']
    else:
        every = world.all_tokens(toks)
        qs = []
        for _ in range(30):
            fl = r.choice(['b', 'b', 'b', 's', 't', 'c', 'f', 'a', None])
            src = world.all_tokens(toks, world.fields_of(fl))
            if not src:
                continue
            t = r.choice(src)
            if r.random() < .1:
                t = r.choice(every)
            if t.startswith('-') and fl is None or len(t) > 1500:
                continue
            qs.append([fl, t])
        qs += [[None, t] for t in ('zzjunk', 'zzbinary', 'zzpreamble', 'zzepilogue', 'zzhdr', 'zzfrom', 'zzhref', 'zzcomment', 'zzclass')]
    proper = 0
    for fl, t in qs:
        fs = world.fields_of(fl)
        arg = (fl + ':' if fl else '') + t
        got = set(w.search([arg]))
        nmatch = 0
        for d, ks in zip(toks, keys):
            want = world.eval_word(d, fs, lambda x: x == t)
            nmatch += want
            bad = [k for k in ks if (k in got) != want]
            if bad:
                case.pop('q', None)
                case['q'] = [[fl, t]]
                raise Violation('search %r: of the writings of one message containing it (%s), %d of %d are %s: %r' % (
                    arg, want, len(bad), len(ks), 'missed' if want else 'found', bad[:3]))
        if 0 < nmatch < len(toks):
            proper += 1
    labels = set()
    enc_b = enc_h = 0
    for m in case['msgs']:
        for e in m['vs']:
            p = e['m']['body']
            while p['k'] != 'leaf':
                labels.add(p['k'])
                p = p['m']['body'] if p['k'] == 'rfc822' else [
                    x for x in p['parts'] if x['k'] != 'leaf' or x['sub'] not in ('octet', 'other', 'calendar')][0]
            labels.add('cte-' + p['cte'])
            labels.add('sub-' + p['sub'])
            enc_b += p['cte'] in ('quoted-printable', 'base64', 'x-uuencode')
            enc_h += any(s['e'] for h in e['m']['h'] for s in h[1])
    return {'evals': len(qs), 'nontrivial': proper > 0 and enc_b > 0 and enc_h > 0, 'labels': labels,
            'sample': {'logical': case['msgs'][0]['lm'], 'writing': case['msgs'][0]['vs'][-1]}}


def valid(case):
    return all(m['vs'] and m['lm'].get('body') is not None for m in case['msgs']) and 'fixed' not in case and \
        all(segs for m in case['msgs'] for e in m['vs'] for n, segs in e['m']['h'])
