"""Small-vocabulary messages and random query expressions with their meaning."""
import datetime, re
import mail, world

VOC = ['apple', 'pear', 'plum', 'fig', 'kiwi', 'lime', 'appletree', 'a1', 'x', 'snake_case', 'xylophone_concert99']
PEOPLE = ['bob', 'alice', 'carol', 'dave']
EPOCH = datetime.date(1970, 1, 1)


def smsg(r, voc=VOC, dates=True, ids=None, att=False):
    def ws(lo, hi):
        return ' '.join(mail.casemix(r, r.choice(voc)) for _ in range(r.randint(lo, hi)))
    h = []
    if r.random() < .9:
        h.append(['Subject', [{'t': ws(0, 3) or 'fig', 'e': '', 'f': ''}]])
    for nm, p in (('From', .9), ('To', .8), ('Cc', .5)):
        if r.random() < p:
            t = r.choice(PEOPLE) + '@' + r.choice(['example.com', 'x.org'])
            if r.random() < .4:
                t = ws(1, 2) + ' <' + t + '>'
            h.append([nm, [{'t': t, 'e': '', 'f': ''}]])
    if not h:
        h.append(['Subject', [{'t': ws(1, 2), 'e': '', 'f': ''}]])
    if ids:
        ids(r, h)
    m = {'h': h, 'v': 0, 'body': {'k': 'leaf', 'sub': 'plain', 'cte': '', 'v': 0, 'fn': None,
                                  'text': ws(0, 4) + '\n' + r.choice(['', '.' * r.randint(1, 300) + '\n'])}}
    if att and r.random() < .25:
        m['body'] = {'k': 'multi', 'sub': 'mixed', 'b': 'BOUND%d' % r.randrange(100), 'pre': '', 'post': '', 'v': 1,
                     'parts': [m['body'], {'k': 'leaf', 'sub': 'octet', 'cte': 'base64', 'text': 'data', 'v': 0,
                                           'fn': r.choice(voc), 'disp': 'attachment'}]}
    e = {'m': m}
    if dates:
        day = datetime.date(2000, 1, 1) + datetime.timedelta(days=r.randint(0, 60))
        m['date'] = day.strftime('%a, %d %b %Y 12:00:00 +0000')
        e['day'] = (day - EPOCH).days
    return e


def rstatus(r, e):
    """Flags for an mbox message."""
    fl = ''
    st = x = ''
    if r.random() < .5:
        st += 'R'
        fl += 'S'
    if r.random() < .5:
        st += 'O'
    if r.random() < .3:
        x += 'A'
        fl += 'R'
    if r.random() < .3:
        x += 'F'
        fl += 'F'
    ex = []
    if st:
        ex.append('Status: ' + st)
    if x:
        ex.append('X-Status: ' + x)
    e['m']['extra'] = ex
    e['mflags'] = fl


def sfolders(r, nmax=20, nmin=2, kinds=('maildir', 'mh', 'mbox'), zs=('', '', '', 'gz', 'bz2', 'xz', 'Gz', 'BZ2', 'xZ'), ids=None, voc=VOC):
    n = r.randint(nmin, nmax)
    folders = []
    i = 0
    while n > 0:
        k = r.choice(kinds)
        take = min(n, r.choice([1, 2, 4, 7, 20]))
        f = {'kind': k, 'name': world.fname(r, k, i), 'msgs': []}
        if k == 'mbox':
            f['fmt'] = r.choice(['mbox', 'mbox', 'mmdf'])
            f['z'] = r.choice(zs)
        for _ in range(take):
            e = smsg(r, voc, ids=ids)
            if k == 'maildir' and r.random() < .6:
                e['sub'] = 'cur'
                e['flags'] = ''.join(x for x in 'FRST' if r.random() < .4)
            elif k == 'mbox':
                rstatus(r, e)
            f['msgs'].append(e)
        folders.append(f)
        n -= take
        i += 1
    return folders


# ------------------------------------------------------------------ queries
# arg = {'k': keys or None, 'or': [[item, ...], ...]}, item = {'n': bool, 'w': word, 's': None|int, 'a': anchored}
# or {'z': [lo, hi]} | {'F': 'sr-f'} | {'d': [a, b]} (days since epoch)

def rquery(r, docs_names, nargs=None, terms='wzFdp', maxor=3, maxand=3):
    return [rarg(r, docs_names, terms, maxor, maxand) for _ in range(nargs or r.choice([1, 1, 2, 2, 3]))]


def rarg(r, names, terms='wzFdp', maxor=3, maxand=3):
    c = r.random()
    if c < .08 and 'z' in terms:
        a, b = r.randint(0, 900), r.randint(0, 900)
        return {'z': r.choice([[a, b], [a, None], [None, b]])}
    if c < .16 and 'F' in terms:
        return {'F': ''.join(r.choice(['', '-']) + x for x in r.sample('srf', r.randint(1, 3)))}
    if c < .24 and 'd' in terms:
        a, b = 10957 + r.randint(-5, 65), 10957 + r.randint(-5, 65)
        return {'d': [a, b]}
    keys = r.choice([None, None, 'b', 's', 't', 'c', 'f', 'r', 'a', 'bs', 'tcf', 'sf', 'bsa', 'n', 'ns', 'b', 's'])
    if r.random() < .2:
        # any letters in any order
        keys = ''.join(r.sample('bstcfran' + ('p' if 'p' in terms else ''), r.randint(2, 5)))
    elif c < .36 and 'p' in terms:
        keys = r.choice(['p', 'p', 'ps', 'bp'])
    ors = []
    for _ in range(r.choice([1, 1, 2, maxor])):
        ands = []
        for _ in range(r.choice([1, 1, 2, maxand])):
            w = r.choice(VOC + PEOPLE + ['org', 'bob@x.org', 'zzz'])
            it = {'n': r.random() < .3, 'w': mail.casemix(r, w), 's': None, 'a': False}
            if keys and 'p' in keys and r.random() < .8:
                nm = r.choice(names)
                i = r.randrange(len(nm))
                it['w'] = re.split('[/ ,]', nm[i:i + r.randint(1, 6)])[-1] or nm[:2]
            elif r.random() < .3:
                i = r.randrange(len(w))
                it['w'] = mail.casemix(r, w[i:i + r.randint(1, 6)])
                it['s'] = 0
                it['a'] = r.random() < .3
            ands.append(it)
        ors.append(ands)
    return {'k': keys, 'or': ors}


def day_str(d):
    return (EPOCH + datetime.timedelta(days=d)).strftime('%Y%m%d')


def show(arg):
    if 'z' in arg:
        a, b = arg['z']
        return 'z:%s-%s' % ('' if a is None else a, '' if b is None else b)
    if 'F' in arg:
        return 'F:' + arg['F']
    if 'd' in arg:
        return 'd:%s-%s' % (day_str(arg['d'][0]), day_str(arg['d'][1]))
    s = (arg['k'] + ':') if arg['k'] else ''
    return s + '/'.join(','.join(('~' if i['n'] else '') + ('^' if i['a'] else '') + i['w'] +
                                 ('' if i['s'] is None else '=' + (str(i['s']) if i['s'] else '')) for i in c) for c in arg['or'])


FIELDS = {'b': 'b', 's': 's', 't': 't', 'c': 'c', 'f': 'f', 'r': 'tc', 'a': 'tcf', 'n': 'n', 'p': ''}


def meaning(arg, doc):
    if 'z' in arg:
        a, b = arg['z']
        if a is not None and b is not None and a > b:
            a, b = b, a
        return (a is None or doc.size > a) and (b is None or doc.size < b)
    if 'F' in arg:
        neg = False
        ok = True
        for ch in arg['F']:
            if ch == '-':
                neg = True
                continue
            ok = ok and ((ch.upper() in doc.flags) != neg)
            neg = False
        return ok
    if 'd' in arg:
        a, b = sorted(arg['d'])
        return a < doc.date <= b
    fields = ''.join(FIELDS[k] for k in arg['k']) if arg['k'] else 'bstcf'
    for conj in arg['or']:
        ok = True
        for i in conj:
            w = i['w'].lower()
            if i['s'] is None:
                p = lambda t: t == w
            elif i['a']:
                p = lambda t: t.startswith(w)
            else:
                p = lambda t: w in t
            h = any(p(t) for f in fields for t in getattr(doc, f))
            if arg['k'] and 'p' in arg['k']:
                h = h or (doc.path.startswith(i['w']) if i['a'] else i['w'] in doc.path)
            if h == i['n']:
                ok = False
                break
        if ok:
            return True
    return False


def match(query, doc):
    return all(meaning(a, doc) for a in query)
