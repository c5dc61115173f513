"""Messages by construction.

A message is a JSON structure saying which text goes in which field and how it is
encoded; render() turns it into bytes, expect() into what a search must see.  The
expectation is computed from the structure, never by parsing the bytes.
Strings hold bytes as latin-1.
"""
import base64, binascii, re

WORD = re.compile('[A-Za-z0-9_]+')
ADDR = re.compile(r'[A-Za-z0-9_+\-.@]+')


def words(s):
    return {w.lower() for w in WORD.findall(s)}


def addrs(s):
    return {w.lower() for w in ADDR.findall(s)}


# ------------------------------------------------------------------ generators

POOL = ['apple', 'apples', 'pineapple', 'grape', 'grapes', 'bear', 'bears', 'bearing', 'tree',
        'trees', 'street', 'x', 'y', 'a1', 'a2', '42', '1999', 'foo', 'foobar', 'bar', 'barfoo',
        'snake_case', '_lead', 'trail_', 'mixed9', 'z', 'of', 'the', 'invoice', 'invoices',
        'meeting', 'greetings', 'meet', 'budget2024', 'id_77', 'zebra', 'zeb', 'bra', 'content',
        'subject', 'date', 'to', 'cc', 'begin', 'end', 'mime', 'text', 'plain', 'html', 'q', 'b']
HOSTS = ['example.com', 'mail.example.org', 'a-b.net', 'x.y.z.co', 'host', 'sub.domain-9.info']


def rword(r):
    c = r.random()
    if c < 0.72:
        return r.choice(POOL)
    if c < 0.90:
        return ''.join(r.choice('abcdefghijklmnopqrstuvwxyz0123456789_') for _ in range(r.randint(1, 12)))
    if c < 0.97:
        w = r.choice(POOL)
        i = r.randrange(len(w) + 1)
        return w[:i] + r.choice('abcxyz019_') + w[i:]
    n = r.choice([30, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 300, 1000])
    ch = r.choice('abcdefgh')
    return (ch * n)[:n - 2] + r.choice('xyz') + r.choice('123')


def casemix(r, w):
    c = r.random()
    if c < 0.5:
        return w
    if c < 0.7:
        return w.upper()
    if c < 0.85:
        return w.capitalize()
    return ''.join(x.upper() if r.random() < .5 else x for x in w)


def raddr(r):
    u = r.choice(['bob', 'alice', 'bob.smith', 'a+tag', 'first_last', 'x-y', 'bob-smith', 'carol9',
                  'sales', 'foo', 'bear'])
    return casemix(r, u) + '@' + r.choice(HOSTS)


def rname(r):
    return ' '.join(casemix(r, rword(r)) for _ in range(r.randint(1, 3)))


SEPS = [' ', ' ', ' ', ' ', ' ', ', ', '. ', '; ', '! ', ' - ', '/', '(', ') ', '"', "'", ': ',
        '\t', '*', '#', '%', '&', '[', '] ', '{', '}', '|', '\\', '~', '`', '$', '^', '?', '=', '@',
        '.', '-', '+', ',']


def rtext(r, lo=1, hi=8):
    """One line of words and separators (no '<', '>' and no '=?')."""
    out = []
    for _ in range(r.randint(lo, hi)):
        out.append(casemix(r, rword(r)))
        out.append(r.choice(SEPS))
    s = ''.join(out).strip('\t ')
    s = s.replace('=?', '= ?').replace('?=', '? =')
    return s


HIGH = ['\xe9', '\xfc', '\xdf', '\xc3', '\xa9', '\xff', '\xa0', '\xb5']


def rsubject(r):
    """List of header segments."""
    segs = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        segs += split_enc(r, rseg(r, rtext(r, 1, 5)))
    return segs


def split_enc(r, seg, p=.3):
    """Sometimes an encoded word becomes several adjacent ones, cut anywhere."""
    if not seg['e'] or r.random() > p or len(seg['t']) < 2:
        return [seg]
    cuts = sorted(r.sample(range(1, len(seg['t'])), min(len(seg['t']) - 1, r.choice([1, 1, 2, 4]))))
    out = []
    for a, b in zip([0] + cuts, cuts + [len(seg['t'])]):
        out.append(dict(seg, t=seg['t'][a:b], e=r.choice('QB'), v=r.randrange(4), pl=int(a == 0), pr=int(b == len(seg['t'])),
                        f=seg['f'] if not a else r.choice(['', ' ', '\t', '  '])))
    return out


def rseg(r, t, penc=0.3):
    c = r.random()
    if c < penc and len(t) < 400:
        e = r.choice('QB')
        if r.random() < .4 and t:
            i = r.randrange(len(t))
            t = t[:i] + r.choice(HIGH) + t[i:]
        return {'t': t, 'e': e, 'cs': r.choice(['utf-8', 'ISO-8859-1', 'us-ascii', 'UTF-8', 'windows-1252', 'koi8-r']),
                'v': r.randrange(4), 'f': r.choice(['', '', ' ', '\t'])}
    return {'t': t, 'e': '', 'f': r.choice(['', '', '', ' ', '\t', '  '])}


def raddrlist(r):
    segs = []
    n = r.choice([1, 1, 1, 2, 3])
    for i in range(n):
        last = ',' if i < n - 1 else ''
        c = r.random()
        if c < .35:
            segs.append({'t': raddr(r) + last, 'e': '', 'f': r.choice(['', '', ' ', '\t'])})
        elif c < .7:
            segs.append(rseg(r, rname(r), .35))
            segs.append({'t': '<' + raddr(r) + '>' + last, 'e': '', 'f': r.choice(['', '', ' ', '\t'])})
        elif c < .85:
            segs.append({'t': '"' + rname(r) + '" <' + raddr(r) + '>' + last, 'e': '', 'f': ''})
        else:
            segs.append({'t': raddr(r) + ' (' + rname(r) + ')' + last, 'e': '', 'f': r.choice(['', ' '])})
    return segs


def rbody_lines(r, n=None, allow_high=True):
    n = r.choice([0, 1, 1, 2, 3, 5, 8]) if n is None else n
    lines = []
    for _ in range(n):
        c = r.random()
        if c < .08:
            lines.append('')
        else:
            l = rtext(r, 1, 9)
            if allow_high and r.random() < .1 and l:
                i = r.randrange(len(l))
                l = l[:i] + r.choice(HIGH) + l[i:]
            if r.random() < .05:
                l = '>' + l
            if l.startswith('From '):
                l = 'x' + l
            if l.startswith('--'):
                l = '-' + l[2:]
            lines.append(l)
    return lines


def rleaf(r, deep=False):
    c = r.random()
    lines = rbody_lines(r)
    text = '\n'.join(lines) + ('\n' if lines and r.random() < .9 else '')
    if c < .55:
        sub = 'plain'
    elif c < .72:
        sub = 'html'
        text = rhtml(r)
    elif c < .82:
        sub = 'none'
    elif c < .9:
        sub = 'octet'
    elif c < .95:
        sub = 'other'
    else:
        sub = 'calendar'
    cte = r.choice(['', '', '7bit', '8bit', 'binary', 'quoted-printable', 'quoted-printable',
                    'base64', 'base64', 'x-uuencode'])
    p = {'k': 'leaf', 'sub': sub, 'cte': cte, 'text': text, 'v': r.randrange(1 << 16), 'fn': None}
    if sub != 'none' and r.random() < .25:
        p['fn'] = r.choice(['report.pdf', 'Photo_1.JPG', 'notes', 'a b c.txt', 'invoice-2024.doc', 'x']) \
            if r.random() < .6 else rword(r)[:40] + '.' + r.choice(['txt', 'c', 'tar.gz'])
        p['disp'] = r.choice(['attachment', 'attachment', 'inline', 'Attachment'])
    return p


def rhtml(r):
    out = []
    for _ in range(r.choice([1, 2, 4, 8])):
        c = r.random()
        if c < .3:
            out.append('<%s>' % r.choice(['b', '/b', 'br/', 'p class="%s"' % rword(r)[:30], 'a href="http://%s/%s"' % (
                r.choice(HOSTS), rword(r)[:30]), '/a', '!-- %s --' % rword(r)[:30], 'img\nsrc=%s' % rword(r)[:30]]))
        else:
            out.append(rtext(r, 1, 4))
            if r.random() < .5:
                out.append(r.choice([' ', '\n']))
    return ''.join(out) + '\n'


BCH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'()+_,./:=?"


def rboundary(r, outer=()):
    c = r.random()
    if outer and c < .3:
        return (outer[-1] + r.choice(['x', 'aa', '.1']))[:68]
    if c < .5:
        return '----=_NextPart_%03d_%04X' % (r.randrange(1000), r.randrange(65536))
    if c < .7:
        return 'b%d' % r.randrange(10)
    if c < .8:
        return ('=_' * 40)[:r.randint(3, 66)] + '%02d' % r.randrange(100)
    n = r.choice([1, 2, 5, 20, 60, 68])
    s = ''.join(r.choice(BCH) for _ in range(n))
    return s


def rpart(r, depth, outer=()):
    c = r.random()
    if depth <= 0 or c < .55:
        return rleaf(r)
    if c < .85:
        b = rboundary(r, outer)
        while b in outer:
            b = b + 'q'
        return {'k': 'multi', 'sub': r.choice(['mixed', 'alternative', 'related', 'Mixed', 'signed']), 'b': b,
                'parts': [rpart(r, depth - 1, outer + (b,)) for _ in range(r.choice([1, 1, 2, 2, 3]))],
                'pre': r.choice(['', '', 'This is a %s preamble.\n', '\n%s\n', 'X: y\n\n%s\n']).replace('%s', rword(r)[:20]),
                'post': r.choice(['', '', '\n', 'epilogue %s\n', '\n%s\n']).replace('%s', rword(r)[:20]), 'v': r.randrange(1 << 16)}
    return {'k': 'rfc822', 'm': rmsg(r, depth - 1, outer), 'cte': r.choice(['', '7bit', '8bit']),
            'v': r.randrange(1 << 16)}


MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def rmsgid(r):
    if r.random() < .7:
        return 'id%d@host.example' % r.randrange(12)
    return ''.join(r.choice('abcABC0123.$%-_+') for _ in range(r.randint(1, 30))) + '@' + r.choice(HOSTS)


def rmsg(r, depth=2, outer=()):
    h = []
    if r.random() < .85:
        h.append(['Subject', rsubject(r)])
    if r.random() < .9:
        h.append(['From', raddrlist(r)])
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        h.append(['To', raddrlist(r)])
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        h.append(['Cc', raddrlist(r)])
    if r.random() < .7:
        h.append(['Message-ID', [{'t': '<' + rmsgid(r) + '>', 'e': '', 'f': r.choice(['', '', ' '])}]])
    if r.random() < .3:
        h.append(['In-Reply-To', [{'t': '<' + rmsgid(r) + '>', 'e': '', 'f': ''}]])
    if r.random() < .3:
        h.append(['References', [{'t': '<' + rmsgid(r) + '>', 'e': '', 'f': r.choice(['', ' ', '\t'])}
                                 for _ in range(r.randint(1, 4))]])
    # headers that mairix does not index
    for _ in range(r.choice([0, 0, 1, 2])):
        h.append([r.choice(['X-Subject', 'Bcc', 'Reply-To', 'Received', 'X-To', 'Resent-To', 'Comments',
                            'List-Id', 'Keywords', 'Sender', 'X-Mailer', 'Tox', 'Ccc']),
                  [{'t': rtext(r, 1, 4), 'e': '', 'f': ''}]])
    r.shuffle(h)
    if not h:
        h.append(['From', raddrlist(r)])
    # an unindexed header on top so that the first line is never a continuation
    m = {'h': h, 'v': r.randrange(1 << 16), 'body': rpart(r, depth, outer)}
    return m


# -------------------------------------------------------------------- rendering

def fold_seg(seg):
    t = seg['t'].encode('latin-1')
    if not seg['e']:
        return t
    v = seg.get('v', 0)
    cs = seg.get('cs', 'utf-8').encode()
    # an encoded word carries its own leading and trailing space, unless it continues
    # or is continued by another one (white space between encoded words is no text)
    data = (b' ' if seg.get('pl', 1) else b'') + t + (b' ' if seg.get('pr', 1) else b'')
    if seg['e'] == 'B':
        return b'=?' + cs + b'?' + (b'B' if v & 1 else b'b') + b'?' + base64.b64encode(data) + b'?='
    out = b''
    for i, ch in enumerate(data):
        c = bytes([ch])
        if c == b' ':
            out += b'_' if (v & 2 or i % 2) else b'=20'
        elif c.isalnum() and ch < 128 and not (v & 1 and (i * 7 + v) % 5 == 0):
            out += c
        else:
            out += (b'=%02X' if v & 1 else b'=%02x') % ch
    return b'=?' + cs + b'?' + (b'Q' if v & 1 else b'q') + b'?' + out + b'?='


NAMEFORMS = [lambda n: n, lambda n: n, lambda n: n.lower(), lambda n: n.upper()]


def render_header(name, segs, v=0):
    out = NAMEFORMS[v % 4](name).encode() + b':'
    first = True
    for s in segs:
        f = s.get('f', '')
        if f and (not first):
            out += b'\n' + f.encode()
        elif not first:
            out += b' '
        else:
            out += [b' ', b' ', b' ', b'', b'\t', b'  ', b' ', b''][(v >> 3) % 8]
        out += fold_seg(s)
        first = False
    return out + [b'', b'', b'', b' ', b'\t', b'', b'', b''][(v >> 6) % 8] + b'\n'


def segs_text(segs):
    out = ''
    last = ''
    for s in segs:
        if not (last and s['e']):
            out += ' '
        out += (' ' * s.get('pl', 1) + s['t'] + ' ' * s.get('pr', 1)) if s['e'] else s['t']
        last = s['e']
    return out


def encode_qp(data, v):
    out = []
    line = b''
    n = len(data)
    i = 0
    width = 20 + v % 57
    for i, ch in enumerate(data):
        c = bytes([ch])
        if c == b'\n':
            # trailing white space must be protected
            if line.endswith((b' ', b'\t')):
                line = line[:-1] + b'=%02X' % line[-1]
            out.append(line + b'\n')
            line = b''
            continue
        if ch > 126 or ch < 32 and c != b'\t' or c == b'=' or (v & 1 and (i * 31 + v) % 7 == 0) \
                or (line == b'' and c in (b'.', b'-', b'F')):
            tok = (b'=%02X' if v & 2 else b'=%02x') % ch
        else:
            tok = c
        if len(line) + len(tok) > width - 1:
            out.append(line + b'=' + (b' \t' if v & 4 and (v & 8) else b'') + b'\n')
            line = b''
            if tok in (b'.', b'-', b'F'):
                tok = b'=%02X' % ch
        line += tok
    if line.endswith((b' ', b'\t')):
        line = line[:-1] + b'=%02X' % line[-1]
    out.append(line)
    return b''.join(out)


def encode_b64(data, v):
    s = base64.b64encode(data)
    w = [76, 76, 60, 72, 4, 77][v % 6]
    lines = [s[i:i + w] for i in range(0, len(s), w)]
    return b'\n'.join(lines) + (b'\n' if lines else b'')


def encode_uu(data, v):
    out = b'begin 644 %s\n' % [b'x', b'file.txt', b'a b'][v % 3]
    for i in range(0, len(data), 45):
        out += binascii.b2a_uu(data[i:i + 45], backtick=bool(v & 8))
    return out + (b'`\n' if v & 8 else b' \n') + b'end\n'


SUBTYPES = {'plain': ['text/plain', 'Text/Plain', 'text/plain; charset=us-ascii', 'TEXT/PLAIN; charset="utf-8"; format=flowed'],
            'html': ['text/html', 'text/HTML; charset=utf-8', 'Text/Html; charset=iso-8859-1', 'text/html; charset=', 'text/html;', 'text/html ; charset="" ; x=y'],
            'octet': ['application/octet-stream', 'image/png', 'application/pdf', 'image/gif; x-y=', 'audio/x-wav;'],
            'other': ['text/x-patch', 'text/css', 'text/x-vcard; charset=utf-8'],
            'calendar': ['text/calendar; method=REQUEST', 'application/x-foo']}
TOKEN_OK = re.compile(r"^[A-Za-z0-9_.\-]+$")


def quote_if_needed(s, force=False):
    if TOKEN_OK.match(s) and not force:
        return s
    return '"' + s + '"'


def ct_name(v):
    return [b'Content-Type', b'content-type', b'Content-type', b'CONTENT-TYPE'][v % 4]


def part_headers_body(p):
    """(list of header lines, body bytes) of a body part."""
    v = p.get('v', 0)
    k = p['k']
    if k == 'leaf':
        lines = []
        text = p['text'].encode('latin-1')
        if p['sub'] != 'none':
            opts = SUBTYPES[p['sub']]
            lines.append(ct_name(v) + b': ' + opts[(v >> 2) % len(opts)].encode() + b'\n')
        cte = p['cte']
        if cte:
            nm = [cte, cte, cte.upper(), cte.capitalize()][(v >> 4) % 4]
            if v & 0xc00 == 0xc00:
                nm = {'7bit': ['7-bit', '7 bit'], '8bit': ['8 bit', '8-bit']}.get(cte, [nm + ' ', nm])[v >> 9 & 1]
            lines.append(b'Content-Transfer-Encoding: ' + nm.encode() + b'\n')
        if p.get('fn') is not None:
            fn = quote_if_needed(p['fn'], bool(v & 64))
            sep = '; ' if v & 128 else ';\n\t'
            lines.append(('Content-Disposition: %s%sfilename=%s\n' % (p['disp'], sep, fn)).encode('latin-1'))
        if v & 256 and len(lines) > 1:
            lines.reverse()
        if cte == 'quoted-printable':
            text = encode_qp(text, v)
        elif cte == 'base64':
            text = encode_b64(text, v)
        elif cte == 'x-uuencode':
            text = encode_uu(text, v)
        return lines, text
    if k == 'multi':
        b = p['b']
        q = quote_if_needed(b, bool(v & 1))
        sep = '; ' if v & 2 else ';\n '
        bn = ['boundary', 'Boundary', 'BOUNDARY', 'boundary'][(v >> 2) % 4]
        # (other bits of v were taken before these forms came)
        eq = ['=', '=', '=', '=', '=', ' = ', '= ', ' ='][v * 7919 >> 5 & 7]
        more = ['', '', '', '', '; charset=""', '; x-y=', ';', '; x-y=""; x-z='][v * 7919 >> 9 & 7]
        if v & 8 and more[-1:] == '"':
            sep, more = more + sep, ''
        lines = [ct_name(v >> 4) + (': multipart/%s%s%s%s%s%s\n' % (p['sub'], sep, bn, eq, q, more)).encode('latin-1')]
        if v & 512:
            lines.append(b'Content-Transfer-Encoding: 8bit\n')
        out = p['pre'].encode('latin-1')
        bb = b.encode('latin-1')
        for sub in p['parts']:
            hl, body = part_headers_body(sub)
            out += b'--' + bb + b'\n' + b''.join(hl) + b'\n' + body
            if not body.endswith(b'\n') or v & 1024:
                out += b'\n'
        out += b'--' + bb + b'--' + (b'\n' if p['post'] or not v & 2048 else b'')
        out += p['post'].encode('latin-1')
        return lines, out
    if k == 'rfc822':
        lines = [ct_name(v) + b': ' + [b'message/rfc822', b'Message/RFC822', b'message/rfc822; name="zz"', b'MESSAGE/rfc822',
                                       b'message/rfc822'][(v >> 3) % 5] + b'\n']
        if p['cte']:
            lines.append(b'Content-Transfer-Encoding: ' + p['cte'].encode() + b'\n')
        return lines, render(p['m'])
    raise ValueError(k)


def render(m):
    hl, body = part_headers_body(m['body'])
    out = [render_header(n, segs, m['v'] + i * 5 + len(n)) for i, (n, segs) in enumerate(m['h'])]
    if m.get('date'):
        out.insert(m['v'] % (len(out) + 1), b'Date: ' + m['date'].encode('latin-1') + b'\n')
    for x in m.get('extra', ()):
        out.append(x.encode('latin-1') + b'\n')
    # MIME headers go at a position that depends on v
    if m['v'] & 1:
        allh = out + hl
    else:
        allh = hl + out
    if hl and m['v'] & 2:
        allh = [b'MIME-Version: 1.0\n'] + allh
    if m['v'] & 0x3c == 0x14:
        # left by an mbox or UUCP system; not a header
        allh.insert(m['v'] >> 8 & 3, [b'>From zzfrom@x.org Mon Jan  1 00:00:00 2001\n', b'From zznobody\n'][m['v'] >> 7 & 1])
    return b''.join(allh) + b'\n' + body


# ------------------------------------------------------------------ expectation

class Doc:
    # plain attributes: t c f s b n mid ids size flags date key path data

    def __init__(self):
        self.t, self.c, self.f, self.s, self.b, self.n = (set() for _ in range(6))
        self.mid, self.ids = set(), set()


def strip_tags(s):
    return re.sub('<[^>]*>?', ' ', s)


def part_expect(p, d):
    k = p['k']
    if k == 'leaf':
        if p['sub'] in ('plain', 'none'):
            d.b |= words(p['text'])
        elif p['sub'] == 'html':
            d.b |= words(strip_tags(p['text']))
        if p.get('fn') is not None and p['disp'].lower() == 'attachment':
            d.n.add(p['fn'].lower())
    elif k == 'multi':
        for s in p['parts']:
            part_expect(s, d)
    elif k == 'rfc822':
        expect(p['m'], d)


def expect(m, d=None):
    d = d or Doc()
    seen = set()
    for n, segs in m['h']:
        t = segs_text(segs)
        l = n.lower()
        if l == 'to':
            d.t |= words(t) | addrs(t)
        elif l == 'cc':
            d.c |= words(t) | addrs(t)
        elif l in seen:
            continue
        elif l == 'from':
            d.f |= words(t) | addrs(t)
        elif l == 'subject':
            d.s |= words(t)
        elif l in ('message-id', 'in-reply-to', 'references'):
            ids = {x.lower() for x in re.findall('<([^>]*)>', t)}
            d.ids |= ids
            if l == 'message-id':
                d.mid |= ids
        seen.add(l)
    part_expect(m['body'], d)
    return d
