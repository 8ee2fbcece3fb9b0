"""In-process network: socket.create_connection() is routed to scripted servers by (host, port).
The code under test keeps its own ftplib / smtplib; nothing touches a real network."""
import collections
import socket

_routes = {}
_real = socket.create_connection


def _fake_create_connection(address, *a, **kw):
    host, port = address[0], int(address[1])
    h = _routes.get((host, port)) or _routes.get((host, None)) or _routes.get((None, None))
    if h is None:
        raise ConnectionRefusedError(111, 'no route in the model to %s:%s' % (host, port))
    return h(host, port)


def install():
    socket.create_connection = _fake_create_connection


def clear():
    _routes.clear()


def route(host, port, handler):
    _routes[(host, port)] = handler


class Reader(object):
    """file-like view of the bytes queued by the server"""

    def __init__(self, sock, text):
        self.sock, self.text = sock, text

    def readline(self, limit=-1):
        q = self.sock.out
        if not q:
            if self.sock.server_closed:
                return '' if self.text else b''
            raise socket.timeout('model: peer is silent')
        line = q.popleft()
        return line.decode('latin-1') if self.text else line

    def read(self, n=-1):
        return self.readline()

    def close(self):
        pass


class FakeSocket(object):
    """Line-oriented control connection. server.line(sock, bytes) is called for each full line
    (or server.data for raw mode) and answers with sock.reply()."""
    family = socket.AF_INET

    def __init__(self, server, host):
        self.server, self.host = server, host
        self.out = collections.deque()
        self.buf = b''
        self.server_closed = False
        self.client_closed = False

    def reply(self, text):
        for line in text.split('\n'):
            self.out.append(line.encode('latin-1') + b'\r\n')

    def drop(self):
        self.server_closed = True

    def sendall(self, data, flags=0):
        if self.server_closed:
            raise BrokenPipeError(32, 'Broken pipe')
        if isinstance(data, str):
            raise TypeError('str to socket')
        self.buf += bytes(data)
        while True:
            i = self.buf.find(b'\n')
            if i < 0:
                break
            line, self.buf = self.buf[:i + 1], self.buf[i + 1:]
            self.server.line(self, line)
            if self.server_closed:
                self.buf = b''
                break

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def makefile(self, mode='r', *a, **kw):
        return Reader(self, 'b' not in mode)

    def recv(self, n):
        return Reader(self, False).readline()

    def getpeername(self):
        return ('10.0.0.1', 21)

    def getsockname(self):
        return ('10.0.0.2', 50000)

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def setsockopt(self, *a):
        pass

    def shutdown(self, how):
        pass

    def close(self):
        self.client_closed = True

    def fileno(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
