"""A small IMAP server for one client at a time, in a thread of the test.

Server(path) listens on a Unix socket; lib/relay.c, as mairix's imap_pipe, connects to it.
folders = {name: {'uv': n, 'next': n, 'msgs': [{'uid': n, 'data': s, 'flags': [...]}]}}, strings
holding bytes as latin-1; style = choices a server is free to make, and faults; log = one entry per
command.  The server is strict: whatever is not valid in a command ends in log as {'bad': ...}.
"""
import os, random, re, socket, threading, time

NEVER = object()


class Closed(Exception):
    pass


def tokens(raw):
    """Atoms are str, strings ('s', str), lists lists; None if malformed."""
    out = [[]]
    i = 0
    while i < len(raw):
        c = raw[i:i + 1]
        if c in b' \r\n':
            i += 1
        elif c == b'(':
            out.append([])
            i += 1
        elif c == b')':
            if len(out) < 2:
                return None
            x = out.pop()
            out[-1].append(x)
            i += 1
        elif c == b'"':
            s = b''
            i += 1
            while raw[i:i + 1] != b'"':
                if i >= len(raw) or raw[i] in b'\r\n':
                    return None
                if raw[i:i + 1] == b'\\':
                    i += 1
                    if raw[i:i + 1] not in (b'"', b'\\'):
                        return None
                if raw[i] >= 128 or raw[i] == 0:
                    return None         # not allowed in a quoted string
                s += raw[i:i + 1]
                i += 1
            i += 1
            out[-1].append(('s', s.decode('latin-1')))
        elif c == b'{':
            m = re.match(rb'\{(\d+)\+?\}\r\n', raw[i:])
            if not m:
                return None
            i += m.end()
            n = int(m.group(1))
            out[-1].append(('s', raw[i:i + n].decode('latin-1')))
            i += n
        else:
            m = re.match(rb'[^ ()\r\n"{]+', raw[i:])
            out[-1].append(m.group().decode('latin-1'))
            i += m.end()
    return out[0] if len(out) == 1 else None


def name(t):
    s = t[1] if isinstance(t, tuple) else t if isinstance(t, str) else ''
    return 'INBOX' if s.upper() == 'INBOX' else s


class Server:
    def __init__(self, path):
        self.path = path
        self.folders = {}
        self.style = {}
        self.log = []
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sock.bind(path)
        self.sock.listen(5)
        self.busy = threading.Lock()
        self.sessions = 0
        self.error = None
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def close(self):
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()
        self.thread.join(10)

    def settle(self):
        """Waits until the last session has ended."""
        with self.busy:
            pass

    def loop(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            with self.busy:
                self.sessions += 1
                s = Session(self, c)
                try:
                    s.run()
                except (Closed, OSError):
                    pass
                except Exception as e:
                    self.error = repr(e)
                    self.log.append({'bad': 'server error %r' % e})
                finally:
                    try:
                        s.inp.close()
                        c.close()
                    except OSError:
                        pass


class Session:
    def __init__(self, srv, c):
        self.srv = srv
        self.c = c
        self.inp = c.makefile('rb')
        self.F = srv.folders
        self.style = srv.style
        self.r = random.Random(srv.style.get('seed', 0))
        self.selected = None
        self.writable = False
        self.ncmd = 0
        self.sent = 0

    def send(self, b):
        if isinstance(b, str):
            b = b.encode('latin-1')
        if self.style.get('garble'):
            b = self.garble(b)
            self.c.settimeout(.3)       # the client may now wait for something that never comes
        if self.style.get('cut'):
            left = self.style['cut'] - self.sent
            self.sent += len(b)
            if len(b) > left:
                self.c.sendall(b[:left])
                raise Closed
        k = self.style.get('chunk')
        if k:
            while b:                    # the client must cope with any segmentation
                n = self.r.randint(1, k) if len(b) < 4000 else len(b) // 2
                self.c.sendall(b[:n])
                b = b[n:]
        else:
            self.c.sendall(b)

    def garble(self, b):
        r = self.r
        if r.random() > self.style['garble']:
            return b
        b = bytearray(b)
        for _ in range(r.choice([1, 1, 1, 2, 5])):
            i = r.randrange(len(b) + 1)
            if r.random() < .5:         # where the syntax is
                c = [m.start() for m in re.finditer(rb'[()"{}\[\]*+ \r\n]|\d+', bytes(b))]
                i = r.choice(c) if c else i
            c = r.random()
            if c < .3:
                del b[i:i + r.choice([1, 1, 1, 2, 10])]
            elif c < .7:
                b[i:i] = r.choice([b'(', b')', b'"', b'{', b'}', b'{5}', b'{5}\r\n', b'{0}\r\n', b'{99999999999999999999}\r\n', b'{4294967295}\r\n', b'{2147483647}\r\n',
                                   b'{-1}\r\n', b'[', b']', b'\\', b'\r\n', b'\n', b'\r', b' ', b'\0', b'*', b'* ', b'+ \r\n', b'+', b'NIL', b'()', b'((((((((', b'"\\',
                                   b'999999999999', b'-1', b'\xff', b'x' * r.choice([20, 2000, 70000]), b'* BYE\r\n', b'* 1 FETCH (UID 1 FLAGS (', b'* 1 FETCH (UID NIL FLAGS NIL)\r\n',
                                   b'* 1 FETCH (UID "1" FLAGS "\\Deleted" BODY[] NIL)\r\n', b'* 1 FETCH NIL\r\n', b'* 1 FETCH\r\n', b'* 1 FETCH ()\r\n', b'* 1 FETCH (UID)\r\n',
                                   b'* 1 FETCH (BODY[])\r\n', b'* SEARCH\r\n', b'* OK [UIDVALIDITY]\r\n', b'* OK [UIDVALIDITY (1)]\r\n', b'* CAPABILITY\r\n', b'* CAPABILITY (LITERAL+)\r\n',
                                   b'(' * 5000, b')' * 30])
            elif c < .8:
                j = r.randrange(len(b) + 1)
                b[i:i] = b[min(i, j):max(i, j)][:5000]
            elif i < len(b):
                b[i] = r.choice([r.randrange(256), b[i] ^ 32, 0, 10])
        return bytes(b)

    def readcmd(self):
        raw = b''
        if self.style.get('slow'):
            time.sleep(.01)
        while True:
            l = self.inp.readline()
            if not l or not l.endswith(b'\n'):
                raise Closed
            raw += l
            m = re.search(rb'\{(\d+)(\+?)\}\r?\n$', l)
            if not m:
                return raw
            if not m.group(2):
                self.send('+ go ahead\r\n')
            n = int(m.group(1))
            if self.style.get('slow') and n > 100000:
                time.sleep(.03)
            b = self.inp.read(n)
            if len(b) < n:
                raise Closed
            raw += b

    def noise(self):
        if self.style.get('noise') and self.r.random() < .4:
            self.send(self.r.choice(['* OK still here\r\n', '* OK [ALERT] maintenance tonight (maybe)\r\n', '* 0 RECENT\r\n',
                                     '* FLAGS (\\Seen \\Answered \\Flagged \\Deleted)\r\n', '* OK [PERMANENTFLAGS ()] none\r\n',
                                     '* SEARCH 1\r\n', '* LIST () "/" blurdybloop\r\n', '* LIST (\\HasNoChildren) "/" "we\\"ird\\\\ (x"\r\n',
                                     '* LIST () "/" {9}\r\nfo(b"r)\r\n\r\n', '* LIST () NIL {0}\r\n\r\n', '* STATUS "x\\\\" (MESSAGES 1)\r\n', '* OK (smile :-(\r\n',
                                     '* OK one "quote only\r\n', '* OK :-) a]b)c\r\n', '* OK {3} new messages arrived since the last login\r\n', '* OK {300} kB left\r\n',
                                     '* OK [X-CODE (a "b]" c) 12] text [more] t7 OK done\r\n', '* OK ' + 'long' * 400 + '\r\n', '* NO Disk is almost full\r\n',
                                     '* OK [UNSEEN 12] "' + 'quoted\\"' * 30 + '" x\r\n', '* BAD You should not (see this)\r\n', '* ESEARCH (TAG "t1") UID\r\n',
                                     '* ENABLED\r\n', '* VANISHED (EARLIER) 41,43:116\r\n', '* OK\r\n',
                                     '* OK [\r\n', '* OK [ALERT "\r\n', '* THREAD (2)(3 6 (4 23)(44 7 96))\r\n', '* QUOTA "" (STORAGE 10 512)\r\n'] +
                                    (['* SEARCH\r\n'] if self.style['noise'] > 1 else [])))

    def literal(self, s):
        if not re.search('[\r\n\x80-\xff\0]', s) and self.style.get('quoted'):
            return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
        return '{%d}\r\n' % len(s) + s

    def flags(self, m):
        return '(' + ' '.join(m['flags'] + (['\\Recent'] if self.style.get('recent') else [])) + ')'

    def run(self):
        st, F = self.style, self.F
        if st.get('refuse'):
            self.send('* BYE go away\r\n')
            return
        caps = ['IMAP4rev1', 'UIDPLUS', 'AUTH=PLAIN'] + ([] if st.get('nolit') else ['LITERAL+']) + (
            ['IDLE', 'NAMESPACE', 'X-MANY', 'AUTH=CRAM-MD5', 'QUOTA=' + 'x' * 60] if st.get('caps') else [])
        self.r.shuffle(caps)
        caps = 'CAPABILITY ' + ' '.join(caps)
        login = st.get('login')
        self.send('* %s %s hello (there) [x] server ready\r\n' % ('OK' if login else 'PREAUTH', '[' + caps + ']' if st.get('gcaps') else 'IMAP4rev1')
                  if st.get('gcaps') or not st.get('greet') else '* %s%s\r\n' % ('OK' if login else 'PREAUTH', st['greet']))
        authed = not login
        while True:
            raw = self.readcmd()
            self.ncmd += 1
            t = tokens(raw)
            if t is None or len(t) < 2 or not isinstance(t[0], str) or not isinstance(t[1], str):
                self.srv.log.append({'bad': raw.decode('latin-1')[:300]})
                self.send('* BAD cannot parse that\r\n' if not t or not isinstance(t[0], str) else '%s BAD cannot parse that\r\n' % t[0])
                continue
            tag, cmd, args = t[0], t[1].upper(), t[2:]
            if cmd == 'UID' and args and isinstance(args[0], str):
                cmd, args = 'UID ' + args[0].upper(), args[1:]
            self.srv.log.append({'cmd': cmd, 'args': args if cmd != 'APPEND' else args[:1], 'sel': self.selected, 'rw': self.writable})
            if st.get('drop') == self.ncmd:
                return
            self.noise()

            def ok(x='done'):
                self.send('%s OK %s\r\n' % (tag, x))

            def no(x='failed'):
                self.send('%s NO %s\r\n' % (tag, x))
            if st.get('refusecmd') == self.ncmd:
                no('[UNAVAILABLE] try again later')
                if cmd in ('SELECT', 'EXAMINE'):
                    self.selected = None
                continue
            try:
                h = getattr(self, 'do_' + cmd.replace(' ', '_').lower(), None)
                if cmd == 'CAPABILITY':
                    self.send('* ' + caps + '\r\n')
                    ok()
                elif cmd == 'LOGIN':
                    if [a[1] if isinstance(a, tuple) else a for a in args] == login:
                        authed = True
                        ok(('[' + caps + '] ' if st.get('lcaps') else '') + 'welcome')
                    else:
                        no('wrong password')
                elif cmd == 'LOGOUT':
                    self.send('* BYE see you\r\n')
                    ok()
                    return
                elif cmd == 'NOOP':
                    ok()
                elif not authed or h is None:
                    self.srv.log.append({'bad': cmd + ' is unknown or not allowed here'})
                    self.send('%s BAD unknown command or wrong state\r\n' % tag)
                else:
                    h(args, ok, no, tag)
            except (IndexError, ValueError, AttributeError, TypeError, KeyError) as e:
                self.srv.log.append({'bad': '%s %r: %r' % (cmd, args, e)})
                self.send('%s BAD wrong arguments\r\n' % tag)

    def bad(self, what, tag):
        self.srv.log.append({'bad': what})
        self.send('%s BAD %s\r\n' % (tag, what))

    def do_select(self, args, ok, no, tag, writable=True):
        n = name(args[0])
        self.selected = None            # a failed SELECT leaves nothing selected
        if n not in self.F or n in self.style.get('nofolders', []):
            return no('[NONEXISTENT] no such mailbox')
        self.selected, self.writable = n, writable
        f = self.F[n]
        x = ['* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft)\r\n', '* %d EXISTS\r\n' % len(f['msgs']), '* 0 RECENT\r\n',
             '* OK [UIDVALIDITY %d] UIDs valid\r\n' % f['uv'], '* OK [UIDNEXT %d] Predicted next UID\r\n' % f['next']]
        self.r.shuffle(x)
        self.send(''.join(x))
        ok('[READ-WRITE] selected' if writable else '[READ-ONLY] examined')

    def do_examine(self, args, ok, no, tag):
        self.do_select(args, ok, no, tag, False)

    def do_uid_fetch(self, args, ok, no, tag):
        if self.selected is None:
            return self.bad('FETCH without a selected mailbox', tag)
        st = self.style
        f = self.F[self.selected]
        sset, items = args[0], args[1:]
        items = [i.upper() for i in (items[0] if isinstance(items[0], list) else items)]
        want = None
        if sset != '1:*':
            want = set()
            for x in sset.split(','):
                a, _, b = x.partition(':')
                for m in f['msgs']:
                    if (b and int(a) <= m['uid'] and (b == '*' or m['uid'] <= int(b))) or (not b and m['uid'] == int(a)):
                        want.add(m['uid'])
        out = []
        for k, m in enumerate(f['msgs']):
            if want is None or m['uid'] in want:
                at = ['UID %d' % m['uid']]
                if 'FLAGS' in items or st.get('extra'):
                    at.append('FLAGS ' + self.flags(m))
                if st.get('extra'):
                    at.append('RFC822.SIZE %d' % len(m['data']))
                    at.append('INTERNALDATE "01-Jan-2001 00:00:00 +0000"')
                body = False
                for it in ('BODY.PEEK[]', 'BODY[]', 'RFC822'):
                    if it in items:
                        body = True
                        at.append((it if it == 'RFC822' else 'BODY[]') + ' ' + self.literal(m['data']))
                        if it != 'BODY.PEEK[]' and self.writable and '\\Seen' not in m['flags']:
                            m['flags'].append('\\Seen')
                if st.get('order'):
                    self.r.shuffle(at)
                if body and m['uid'] in st.get('hide', []):
                    continue
                out.append('* %d FETCH (%s)\r\n' % (k + 1, ' '.join(at)))
            elif st.get('unsol') and self.r.random() < .2:
                out.append('* %d FETCH (FLAGS %s)\r\n' % (k + 1, self.flags(m)))
        if st.get('order') and sset == '1:*':
            self.r.shuffle(out)
        self.send(''.join(out))
        ok('FETCH completed')

    def do_fetch(self, args, ok, no, tag):
        self.bad('FETCH by number is not supported', tag)

    def do_store(self, args, ok, no, tag, uid=False):
        if self.selected is None:
            return self.bad('STORE without a selected mailbox', tag)
        f = self.F[self.selected]
        if not self.writable:
            return no('read-only')
        if not f['msgs'] and not uid:
            return self.send('%s BAD no such messages\r\n' % tag)
        fl = args[2] if isinstance(args[2], list) else [args[2]]
        for k, m in enumerate(f['msgs']):
            if args[0] == '1:*' or args[0] == str(m['uid'] if uid else k + 1):
                for x in fl:
                    if args[1].startswith('+') and x not in m['flags']:
                        m['flags'].append(x)
                if 'SILENT' not in args[1].upper():
                    self.send('* %d FETCH (FLAGS %s)\r\n' % (k + 1, self.flags(m)))
        ok()

    def do_uid_store(self, args, ok, no, tag):
        self.do_store(args, ok, no, tag, True)

    def do_expunge(self, args, ok, no, tag):
        if self.selected is None:
            return self.bad('EXPUNGE without a selected mailbox', tag)
        if not self.writable:
            return no('read-only')
        f = self.F[self.selected]
        k = 0
        while k < len(f['msgs']):
            if '\\Deleted' in f['msgs'][k]['flags']:
                del f['msgs'][k]
                self.send('* %d EXPUNGE\r\n' % (k + 1))
            else:
                k += 1
        ok()

    def do_uid_copy(self, args, ok, no, tag):
        if self.selected is None:
            return self.bad('COPY without a selected mailbox', tag)
        d = name(args[1])
        if d not in self.F:
            return no('[TRYCREATE] no such mailbox')
        for m in list(self.F[self.selected]['msgs']):
            if args[0] == str(m['uid']):
                self.F[d]['msgs'].append({'uid': self.F[d]['next'], 'data': m['data'], 'flags': list(m['flags'])})
                self.F[d]['next'] += 1
        ok('[COPYUID 1 1 1] done')

    def do_append(self, args, ok, no, tag):
        d = name(args[0])
        data = args[-1]
        if not isinstance(data, tuple) or len(args) < 2:
            return self.bad('APPEND without a message', tag)
        if d not in self.F:
            return no('[TRYCREATE] no such mailbox')
        fl = next((a for a in args[1:] if isinstance(a, list)), [])
        self.F[d]['msgs'].append({'uid': self.F[d]['next'], 'data': data[1], 'flags': list(fl)})
        self.F[d]['next'] += 1
        if self.selected == d:
            self.send('* %d EXISTS\r\n' % len(self.F[d]['msgs']))
        ok()

    def do_create(self, args, ok, no, tag):
        d = name(args[0])
        if d in self.F:
            return no('exists')
        self.F[d] = {'uv': 77, 'next': 1, 'msgs': []}
        ok()

    def do_close(self, args, ok, no, tag):
        self.selected = None
        ok()
