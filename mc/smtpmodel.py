"""In-memory SMTP servers (RFC 5321 subset). Every command is an environment choice point.
0 = accept. connect: 1 refused 2 timeout 3 banner 554. Others: 1 refused (5xx) 2 transient/421-less (4xx)
3 connection lost before the effect. RCPT 550 refuses that recipient only."""
import socket
from mc import net


class Session(object):
    def __init__(self, idx):
        self.idx = idx
        self.mail = None
        self.rcpts = []        # accepted
        self.refused = []
        self.messages = []     # (sender, rcpts, text) accepted
        self.complete = False


class Servers(object):
    def __init__(self, ch, hosts):
        self.ch = ch
        self.hosts = list(hosts)
        self.sessions = []
        self.commands = 0
        net.clear()
        for i, h in enumerate(self.hosts):
            net.route(h, 25, lambda host, port, i=i: self.connect(i, host))
        socket.getfqdn = lambda name='': 'client.model'

    @property
    def accepted(self):
        return [(s.idx,) + m for s in self.sessions for m in s.messages]

    def connect(self, i, host):
        ses = Session(i)
        self.sessions.append(ses)
        c = self.ch.choose(4, 'connect %s' % host)
        if c == 1:
            raise ConnectionRefusedError(111, 'Connection refused')
        if c == 2:
            raise socket.timeout('timed out')
        s = net.FakeSocket(_Conn(self, ses), host)
        if c == 3:
            s.reply('554 no service')
            s.drop()
        else:
            s.reply('220 %s ready' % host)
        return s


class _Conn(object):
    def __init__(self, owner, ses):
        self.o, self.ses = owner, ses
        self.helo = False
        self.data = None

    def line(self, s, raw):
        o, ses = self.o, self.ses
        if self.data is not None:
            if raw == b'.\r\n':
                text, self.data = b''.join(self.data), None
                c = o.ch.choose(4, 'end of data')
                if c == 0:
                    ses.messages.append((ses.mail, list(ses.rcpts), text))
                    ses.complete = not ses.refused
                    s.reply('250 queued')
                elif c == 3:
                    s.drop()
                else:
                    s.reply(('', '554 rejected', '451 try later')[c])
                ses.mail, ses.rcpts, ses.refused = None, [], []
            else:
                self.data.append(raw[1:] if raw.startswith(b'..') else raw)
            return
        text = raw.rstrip(b'\r\n').decode('utf-8', 'surrogateescape')
        verb = text.split(' ')[0].split(':')[0].upper()
        o.commands += 1
        c = o.ch.choose(3 if verb == 'RSET' else 4, text[:30])
        if c == 3:
            s.drop()
            return
        if verb == 'RCPT' and c in (1, 2):
            ses.refused.append(self.addr(text))
        if c:
            s.reply(('', '550 refused', '450 try later')[c])
            return
        if verb in ('HELO', 'EHLO'):
            self.helo = True
            s.reply('250 hello')
        elif verb == 'QUIT':
            s.reply('221 bye')
            s.drop()
        elif verb == 'RSET':
            ses.mail, ses.rcpts, ses.refused = None, [], []
            s.reply('250 ok')
        elif verb == 'NOOP':
            s.reply('250 ok')
        elif not self.helo:
            s.reply('503 polite people say HELO first')
        elif verb == 'MAIL':
            ses.mail, ses.rcpts, ses.refused = self.addr(text), [], []
            s.reply('250 ok')
        elif verb == 'RCPT':
            if ses.mail is None:
                s.reply('503 MAIL first')
            elif not self.addr(text):
                s.reply('553 no recipient')
                ses.refused.append('')
            else:
                ses.rcpts.append(self.addr(text))
                s.reply('250 ok')
        elif verb == 'DATA':
            if not ses.rcpts:
                s.reply('503 RCPT first')
            else:
                self.data = []
                s.reply('354 go on')
        else:
            s.reply('502 not implemented')

    @staticmethod
    def addr(text):
        a = text.partition(':')[2].strip()
        if a.startswith('<'):
            return a[1:a.index('>')]
        return a.split(' ')[0]
