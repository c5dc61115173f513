"""Date expressions select exactly the days they denote."""
import calendar, datetime, os, time
import world
from core import Violation

ID = 'C06'
BUILDS = ['plain', 'faketime']
COUNT = {'quick': 3500, 'thorough': 60000}
BUDGET = {'quick': 60, 'thorough': 1500}
RULE = ('case = a current time (1975-2098, fixed-offset or daylight-saving zone), 20 date expressions of every documented form, single, '
        'open and closed ranges in either order, and messages dated on and around every interval end, with Date headers in '
        'several forms. Oracle: calendar arithmetic; interval = (first day, last day]. Non-trivial (per distinct '
        'expression and day of the current time): a proper non-empty subset of the messages matched.')
ASSUMPTIONS = ['in zones with daylight saving the first day of an interval is left out of the comparison', 'otherwise the first day of an interval is excluded, as the test suite pins']
FROZEN = ()
D = datetime.date
MON = ['jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct', 'nov', 'dec']
DST = ['EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'AEST-10AEDT,M10.1.0,M4.1.0/3', '<-03>3<-02>,M3.5.0/-2,M10.5.0/-1', 'GMT0BST,M3.5.0/1,M10.5.0']
LO, HI = D(1970, 2, 1), D(2099, 12, 31)
FIRST, LAST = D(1001, 1, 1), D(9998, 12, 31)


class Bad(Exception):
    pass


def mk(y, m, d):
    try:
        return D(y, m, d)
    except ValueError:
        raise Bad()


def yr(v):
    return v if v >= 1000 else (2000 + v if v < 70 else 1900 + v)


def term(e, ref, now, is_end):
    """The day an expression stands for: [form, numbers...]."""
    f = e[0]
    if f == 'rel':
        n, u = e[1], e[2]
        return now - datetime.timedelta(days=n * {'d': 1, 'w': 7, 'm': 30, 'y': 365}[u])
    if f == 'D':
        y, m = ref.year, ref.month
        if e[1] > ref.day:
            m -= 1
            if m == 0:
                y, m = y - 1, 12
        return mk(y, m, e[1])
    if f == 'Y':
        y = yr(e[1])
        return D(y, 12, 31) if is_end else D(y, 1, 1)
    if f == 'N':
        return mk(yr(e[1]), e[2], e[3])
    if f == 'M':
        y = ref.year - (e[1] > ref.month)
        return D(y, e[1], calendar.monthrange(y, e[1])[1] if is_end else 1)
    if f in ('DM', 'MD'):
        m, d = e[1], e[2]
        y = ref.year - ((ref.month, ref.day) < (m, d))
        return mk(y, m, d)
    if f in ('DMY', 'YMD'):
        return mk(yr(e[1]), e[2], e[3])
    if f in ('MY', 'YM'):
        y = yr(e[1])
        return D(y, e[2], calendar.monthrange(y, e[2])[1] if is_end else 1)
    raise ValueError(f)


def show_y(y):
    return '%04d' % y if y >= 1000 else '%02d' % y


def show(e, c=0):
    f = e[0]
    mn = lambda m: [MON[m - 1], MON[m - 1].upper(), MON[m - 1].capitalize()][c % 3]
    if f == 'rel':
        return '%d%s' % (e[1], e[2])
    if f == 'D':
        return '%d' % e[1]
    if f == 'Y':
        return show_y(e[1])
    if f == 'N':
        return show_y(e[1]) + '%02d%02d' % (e[2], e[3])
    if f == 'M':
        return mn(e[1])
    if f == 'DM':
        return '%d%s' % (e[2], mn(e[1]))
    if f == 'MD':
        return '%s%d' % (mn(e[1]), e[2])
    if f == 'DMY':
        return '%d%s%s' % (e[3], mn(e[2]), show_y(e[1]))
    if f == 'YMD':
        return '%s%s%d' % (show_y(e[1]), mn(e[2]), e[3])
    if f == 'MY':
        return mn(e[2]) + show_y(e[1])
    if f == 'YM':
        return show_y(e[1]) + mn(e[2])


def ryear(r, now, six=False):
    y = now.year - r.choice([0, 0, 0, 1, 1, 2, 5, 20]) if r.random() < .8 else r.randint(1972, 2098)
    if r.random() < .03:
        y = r.choice([1970, 1971, 2068, 2069, 2070, 1999, 2000])
    y = min(max(y, 1970), 2098)
    if r.random() < .04:
        y = r.choice([r.randint(1001, 1969), r.randint(2100, 9998), 1969, 1968, 1901, 1902, 1900, 2106, 2107, 2100, 2038, 2037])
    y2 = y % 100
    if r.random() < .5 and yr(y2) == y and (six or y2 < 10 or y2 >= 32):
        return y2
    return y


def rterm(r, now):
    f = r.choice(['rel', 'rel', 'D', 'Y', 'N', 'N', 'M', 'DM', 'MD', 'DMY', 'YMD', 'MY', 'YM'])
    m = r.choice([now.month, now.month % 12 + 1, (now.month - 2) % 12 + 1, r.randint(1, 12)])
    d = r.choice([1, now.day, min(now.day + 1, 31), max(1, now.day - 1), 28, 29, 30, 31, r.randint(1, 31)])
    if f == 'rel':
        u = r.choice('dwmy')
        if r.random() < .12:
            return ['rel', r.choice([{'d': 24855, 'w': 3550, 'm': 828, 'y': 68}[u] + r.randint(-2, 3), r.randint(1, {'d': 40000, 'w': 6000, 'm': 1400, 'y': 110}[u])]), u]
        return ['rel', r.randint(0, {'d': 800, 'w': 200, 'm': 60, 'y': 10}[u]) if r.random() < .5 else r.randint(0, 5), u]
    if f == 'D':
        return ['D', d]
    if f == 'Y':
        return ['Y', ryear(r, now)]
    if f == 'N':
        return ['N', ryear(r, now, True), m, d]
    if f == 'M':
        return ['M', m]
    if f in ('DM', 'MD'):
        return [f, m, d]
    if f in ('DMY', 'YMD'):
        return [f, ryear(r, now), m, d]
    return [f, ryear(r, now), m]


def interval(q, now):
    """(first, last) or None ends; first excluded, last included."""
    a, b = q['a'], q['b']
    if q['k'] == 'single':
        s, e = term(a, now, now, False), term(a, now, now, True)
    else:
        e = term(b, now, now, True) if b else None
        s = term(a, e or now, now, False) if a else None
    if s and e and s > e:
        s, e = e, s
    for x in (s, e):
        if x and not (FIRST <= x <= LAST):
            raise Bad()
    return s, e


def showq(q):
    if q['k'] == 'single':
        return 'd:' + show(q['a'], q['c'])
    return 'd:' + (show(q['a'], q['c']) if q['a'] else '') + '-' + (show(q['b'], q['c'] + 1) if q['b'] else '')


def gen(r, k, tier):
    now = D(1975, 1, 1) + datetime.timedelta(days=r.randint(0, 45000))
    c = r.random()
    if c < .25:
        now = now.replace(day=calendar.monthrange(now.year, now.month)[1])
    elif c < .4:
        now = now.replace(day=1)
    elif c < .5:
        now = now.replace(month=r.choice([1, 12, 2]), day=r.choice([1, 28]))
    tod = r.choice([1, 43200, 86399, r.randint(1, 86399)])
    qs = []
    days = set()
    while len(qs) < 20:
        kind = r.choice(['single', 'single', 'range', 'range', 'open'])
        q = {'k': kind, 'a': rterm(r, now), 'b': rterm(r, now), 'c': r.randrange(3)}
        if kind == 'single':
            q['b'] = None
        elif kind == 'open':
            q[r.choice('ab')] = None
        try:
            s, e = interval(q, now)
        except (Bad, OverflowError):
            continue
        qs.append(q)
        for x in (s, e):
            if x:
                for o in (-1, 0, 1):
                    d = x + datetime.timedelta(days=o)
                    if LO <= d <= HI and r.random() < .7:
                        days.add(d)
    for _ in range(5):
        days.add(now - datetime.timedelta(days=r.randint(0, 1200)))
    for _ in range(2):
        days.add(D(r.choice([1970, 1971, 1999, 2000, 2068, 2069, 2070]), r.randint(2, 12), r.randint(1, 28)))
    msgs = [{'d': [d.year, d.month, d.day], 'v': r.randrange(1 << 16)} for d in sorted(days) if d >= LO]
    r.shuffle(msgs)
    off = r.choice([0, 0, 5, -8, 12, -11])
    if r.random() < .3:
        # daylight saving: the time of day away from midnight
        off, tod = r.choice(DST), r.randint(7200, 79200)
    return {'now': [now.year, now.month, now.day], 'tod': tod, 'off': off, 'qs': qs, 'msgs': msgs}


def date_header(e):
    y, m, d = e['d']
    v = e['v']
    wd = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun'][D(y, m, d).weekday()]
    s = (wd + ', ') if v & 1 else ((wd + ',') if v & 2 else '')
    s += ('%02d' if v & 4 else '%d') % d
    s += ' ' + [MON[m - 1].capitalize(), MON[m - 1].capitalize(), MON[m - 1], MON[m - 1].upper()][(v >> 3) & 3]
    ys = '%04d' % y
    if v & 32 and yr(y % 100) == y:
        ys = '%02d' % (y % 100)
    s += (' ' if v & 64 else '  ') + ys
    s += ' %02d:%02d:%02d' % ((v >> 7) % 24, (v >> 3) % 60, v % 60) if v & 128 else ' %d:%02d' % (v % 24, v % 60)
    s += ['', ' +0000', ' GMT', ' -0800', ' +1200', ' (EST)', ' EST', ' +0530', ' +0000 (a, 2 Feb 1995 1:2)', ' -0500 (EST, New York)'][
        (v >> 8) % (10 if v & 3 else 8)]
    if v & 3 and v >> 8 & 0x39 == 9:
        s = s.replace(',', ',\n\t', 1)
    return s


def check(case, sb):
    ent = []
    for i, e in enumerate(case['msgs']):
        nm = ['Date', 'date', 'DATE', 'Date'][(e['v'] >> 12) & 3]
        raw = 'From: x\n%s:%s%s\nSubject: s\n\nb\n' % (nm, [' ', '\t', ' ', ''][(e['v'] >> 11) & 3], date_header(e))
        if e['v'] & 0x60 == 0x60:
            # other headers with dates
            raw = ['Delivery-', 'Resent-', 'X-', 'Date-Sent: x\nExpiry-'][e['v'] & 3] + 'Date: Tue, 3 Feb 1998 10:00:00 +0000\n' + raw
        ent.append({'raw': raw})
    f = {'kind': 'mh', 'name': 'f', 'msgs': ent}
    w = world.World(sb, [f]).build()
    off = case['off']
    now = D(*case['now'])
    dst = isinstance(off, str)
    if dst:
        old = os.environ.get('TZ')
        os.environ['TZ'] = off
        time.tzset()
        secs = int(time.mktime((now.year, now.month, now.day, 0, 0, case['tod'], 0, 0, -1)))
        os.environ.pop('TZ')
        if old is not None:
            os.environ['TZ'] = old
        time.tzset()
    else:
        secs = calendar.timegm(now.timetuple()) + case['tod'] - off * 3600
    env = {'LD_PRELOAD': sb.bins['faketime'], 'FAKE_NOW': str(secs), 'TZ': 'UTC' if not off else off if dst else 'XXX%+d' % -off}
    w.index(env=env)
    keys = [d.key for d in w.docs]
    days = [D(*e['d']) for e in case['msgs']]
    seen = set()
    labels = set()
    for q in case['qs']:
        s, e = interval(q, now)
        arg = showq(q)
        got = w.search([arg], env=env)
        names = [x[1].rsplit('/', 1)[1] for x in got]
        if dst and s:
            # in such a zone the first day is taken or left with the season
            drop = {k[1].rsplit('/', 1)[1] for k, d in zip(keys, days) if d == s}
            names = [x for x in names if x not in drop]
        want = [k for k, d in zip(keys, days) if (not s or d > s) and (not e or d <= e)]
        world.compare(names, [x[1].rsplit('/', 1)[1] for x in want],
                      'now %s, search %r = days after %s to %s' % (now, arg, s, e))
        if 0 < len(want) < len(keys):
            seen.add((arg.lower(), str(now)))
        for x in (q['a'], q['b']):
            if x:
                labels.add(q['k'] + '-' + x[0])
    return {'evals': len(case['qs']), 'nontrivial': bool(seen), 'keys': seen, 'labels': labels,
            'sample': {'now': case['now'], 'queries': [showq(q) for q in case['qs'][:6]], 'dates': [date_header(e) for e in case['msgs'][:4]]}}


def valid(case):
    now = D(*case['now'])
    for q in case['qs']:
        interval(q, now)
        if q['k'] != 'single' and not q['a'] and not q['b']:
            return False
        if q['k'] == 'single' and q['b']:
            return False
        for x in (q['a'], q['b']):
            if x and x[0] in ('DM', 'MD', 'D') and x[-1] == 0:
                return False
            if x and x[0] in ('Y', 'N', 'DMY', 'YMD', 'MY', 'YM') and (100 <= x[1] < 1000 or x[0] != 'N' and 10 <= x[1] < 32):
                return False
    for e in case['msgs']:
        D(*e['d'])
        if D(*e['d']) < LO or e['d'][0] > 2099:
            return False
    return bool(case['msgs']) and 1 <= case['tod'] < 86400 and 1971 <= now.year < 2100 and (case['off'] in DST and 7200 <= case['tod'] <= 79200 or not isinstance(case['off'], str) and abs(case['off']) < 13)
