"""In-memory FTP server. Every command is an environment choice point:
0 do it, 1 permanent refusal, 2 transient refusal, 3 connection lost before the effect,
STOR: 4 half the data then 552, 5 half the data then connection lost; RNTO/MKD/CWD: 4 done but reply lost."""
import posixpath
import socket
from mc import net


class Data(object):
    family = socket.AF_INET

    def __init__(self, srv):
        self.srv = srv
        self.chunks = []
        self.done = False

    def sendall(self, b, flags=0):
        if self.srv.data_broken:
            raise BrokenPipeError(32, 'Broken pipe')
        self.srv.stor_data(self, bytes(b))

    def send(self, b, flags=0):
        self.sendall(b)
        return len(b)

    def recv(self, n):
        return b''

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def shutdown(self, how):
        pass

    def makefile(self, *a, **k):
        class F(object):
            def readline(self, n=-1): return ''
            def read(self, n=-1): return b''
            def close(self): pass
            def __enter__(self): return self
            def __exit__(self, *a): pass
        return F()

    def close(self):
        if not self.done:
            self.done = True
            self.srv.data_closed(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FTPServer(object):
    def __init__(self, ch, files=(), dirs=(), login=('anonymous', None), monitor=None):
        self.ch = ch
        self.files = dict(files)
        self.dirs = {'/'} | set(dirs)
        for f in self.files:
            self._adddirs(posixpath.dirname(f))
        for d in list(self.dirs):
            self._adddirs(d)
        self.login = login
        self.monitor = monitor
        self.commands = []
        self.sessions = 0
        self.open_sessions = 0

    def _adddirs(self, d):
        while d not in ('', '/'):
            self.dirs.add(d)
            d = posixpath.dirname(d)

    def attach(self, host):
        net.route(host, 21, self.connect)
        net.route('10.0.0.1', None, self.dataconn)

    # -- connections
    def connect(self, host, port):
        self.sessions += 1
        c = self.ch.choose(4, 'connect')
        if c == 1:
            raise ConnectionRefusedError(111, 'Connection refused')
        if c == 3:
            raise socket.timeout('timed out')
        s = net.FakeSocket(self, host)
        self.cwd, self.user, self.auth, self.rnfr = '/', None, False, None
        self.pending = None
        self.data_broken = False
        self.half = False
        self.dropafter = False
        self.ctl = s
        if c == 2:
            s.reply('421 too many users')
            s.drop()
        else:
            s.reply('220 ready')
        return s

    def dataconn(self, host, port):
        return Data(self)

    def path(self, p):
        return posixpath.normpath(posixpath.join(self.cwd, p)).replace('//', '/')

    def event(self, what, path):
        if self.monitor:
            self.monitor(self, what, path)

    # -- commands
    def line(self, s, raw):
        text = raw.rstrip(b'\r\n').decode('utf-8', 'surrogateescape')
        cmd, _, arg = text.partition(' ')
        cmd = cmd.upper()
        self.commands.append(text)
        n = {'STOR': 6, 'RNTO': 5, 'MKD': 5, 'CWD': 5}.get(cmd, 4)
        if cmd == 'PASV' or cmd == 'TYPE' or cmd == 'EPSV':
            n = 2
        c = self.ch.choose(n, text if len(text) < 40 else cmd)
        if c == 1:
            s.reply('530 refused' if cmd in ('USER', 'PASS') else '550 refused')
            return
        if c == 2:
            s.reply('451 try later')
            return
        if c == 3:
            s.drop()
            return
        h = getattr(self, 'do_' + cmd, None)
        if h is None:
            s.reply('502 not implemented')
            return
        if cmd not in ('USER', 'PASS', 'QUIT', 'FEAT', 'NOOP') and not self.auth:
            s.reply('530 not logged in')
            return
        if cmd == 'STOR':
            h(s, arg, c)
            return
        if c == 4:
            q = list(s.out)
            h(s, arg)
            s.out.clear()
            s.out.extend(q)
            s.drop()
            return
        h(s, arg)

    def do_USER(self, s, arg):
        self.user = arg
        if self.login[1] is None and arg == 'anonymous' or self.login[1] is not None:
            s.reply('331 password')
        else:
            s.reply('530 unknown')

    def do_PASS(self, s, arg):
        if self.user == self.login[0] and (self.login[1] is None or self.login[1] == arg):
            self.auth = True
            s.reply('230 ok')
        else:
            s.reply('530 bad login')

    def do_TYPE(self, s, arg):
        s.reply('200 ok')

    def do_NOOP(self, s, arg):
        s.reply('200 ok')

    def do_FEAT(self, s, arg):
        s.reply('211 none')

    def do_PWD(self, s, arg):
        s.reply('257 "%s"' % self.cwd)

    def do_CWD(self, s, arg):
        p = self.path(arg)
        if p in self.dirs:
            self.cwd = p
            s.reply('250 ok')
        else:
            s.reply('550 no such directory')

    def do_CDUP(self, s, arg):
        self.do_CWD(s, '..')

    def do_MKD(self, s, arg):
        p = self.path(arg)
        if p in self.dirs or p in self.files or posixpath.dirname(p) not in self.dirs:
            s.reply('550 cannot create')
        else:
            self.dirs.add(p)
            s.reply('257 "%s"' % p)

    def do_PASV(self, s, arg):
        s.reply('227 Entering Passive Mode (10,0,0,1,200,10)')

    def do_EPSV(self, s, arg):
        s.reply('229 Entering Extended Passive Mode (|||51210|)')

    def do_SIZE(self, s, arg):
        p = self.path(arg)
        s.reply('213 %d' % len(self.files[p]) if p in self.files else '550 none')

    def do_DELE(self, s, arg):
        p = self.path(arg)
        if p in self.files:
            self.event('delete', p)
            del self.files[p]
            s.reply('250 ok')
        else:
            s.reply('550 none')

    def do_NLST(self, s, arg):
        s.reply('150 here')
        s.reply('226 done')
    do_LIST = do_NLST

    def do_RNFR(self, s, arg):
        p = self.path(arg)
        if p in self.files or p in self.dirs:
            self.rnfr = p
            s.reply('350 go on')
        else:
            s.reply('550 none')

    def do_RNTO(self, s, arg):
        p = self.path(arg)
        if self.rnfr is None:
            s.reply('503 RNFR first')
        elif p in self.dirs or posixpath.dirname(p) not in self.dirs or self.rnfr not in self.files:
            s.reply('553 cannot rename')
        else:
            data = self.files.pop(self.rnfr)
            self.files[p] = data
            self.event('rename', p)
            s.reply('250 renamed')
        self.rnfr = None

    def do_STOR(self, s, arg, c=0):
        p = self.path(arg)
        if p in self.dirs or posixpath.dirname(p) not in self.dirs:
            s.reply('553 cannot store')
            return
        self.files[p] = b''
        self.event('store', p)
        self.pending = p
        self.received = []
        self.stormode = c
        self.data_broken = False
        s.reply('150 send')

    def stor_data(self, conn, b):
        if self.stormode in (4, 5):
            self.received.append(b[:len(b) // 2])
            self.data_broken = self.stormode == 5
            self.files[self.pending] = b''.join(self.received)
            return
        self.received.append(b)
        self.files[self.pending] = b''.join(self.received)

    def data_closed(self, conn):
        if self.pending is None:
            return
        self.event('stored', self.pending)
        self.pending = None
        if self.stormode == 4:
            self.ctl.reply('552 disk full')
        elif self.stormode == 5:
            self.ctl.drop()
        else:
            self.ctl.reply('226 complete')

    def do_QUIT(self, s, arg):
        s.reply('221 bye')
        s.drop()
