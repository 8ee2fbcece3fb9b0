"""In-process SSH host. Commands run in a real /bin/sh inside a scratch directory (as the unprivileged
worker), scp speaks the scp1 wire protocol against a sink/source implemented here.
Import this module before impactutils.transfer: it replaces paramiko.SSHClient."""
import io
import os
import shlex
import socket
import subprocess
import paramiko

CURRENT = None


class Remote(object):
    """root: scratch directory standing for the remote file system (absolute remote paths are used as
    they are, so they must lie below root); home: cwd of remote commands."""

    def __init__(self, ch, home, monitor=None, host='ssh.model', key=None, user=None):
        self.ch, self.home, self.monitor = ch, home, monitor
        self.host, self.key, self.user = host, key, user
        self.events = 0
        self.faults = 0
        self.log = []

    def event(self, what, path=None):
        self.events += 1
        self.log.append((what, path))
        if self.monitor:
            self.monitor(what, path)


class _Stream(io.BytesIO):
    def __init__(self, proc, which):
        super().__init__()
        self._proc, self._which = proc, which
        self.channel = proc

    def _fill(self):
        self._proc.run()
        if not getattr(self, '_filled', False):
            self._filled = True
            super().write(self._proc.out if self._which == 1 else self._proc.err)
            self.seek(0)

    def read(self, n=-1):
        self._fill()
        return super().read(n)

    def readline(self, *a):
        self._fill()
        return super().readline(*a)

    def readlines(self, *a):
        self._fill()
        return super().readlines(*a)

    def __iter__(self):
        self._fill()
        return super().__iter__()

    def flush(self):
        pass


class _Proc(object):
    """one remote command; runs when started (default) or when somebody waits for it"""

    def __init__(self, remote, cmd, mode):
        self.remote, self.cmd, self.mode = remote, cmd, mode
        self.done = False

    def run(self):
        if self.done:
            return
        self.done = True
        if self.mode == 2:
            self.out, self.err, self.rc = b'', b'sh: Permission denied\n', 1
            return
        p = subprocess.Popen(['/bin/sh', '-c', self.cmd], cwd=self.remote.home, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, close_fds=False,
                             env={'PATH': '/usr/bin:/bin', 'HOME': self.remote.home, 'LC_ALL': 'C.UTF-8'})
        self.out, self.err = p.communicate()
        self.rc = p.returncode
        self.remote.event('exec', self.cmd)

    # paramiko channel interface
    def recv_exit_status(self):
        self.run()
        return self.rc

    def exit_status_ready(self):
        self.run()
        return True

    @property
    def exit_status(self):
        self.run()
        return self.rc

    def settimeout(self, t):
        pass

    def shutdown_write(self):
        pass

    def close(self):
        pass


class FakeSSHClient(object):
    def __init__(self):
        self.remote = CURRENT
        self.connected = False
        self.pending = []

    def load_system_host_keys(self, *a):
        pass

    load_host_keys = load_system_host_keys

    def set_missing_host_key_policy(self, p):
        pass

    def connect(self, hostname, port=22, username=None, password=None, pkey=None, key_filename=None, **kw):
        r = self.remote
        c = r.ch.choose(2, 'connect')
        if c:
            r.faults += 1
            raise paramiko.ssh_exception.NoValidConnectionsError({('10.0.0.1', 22): OSError('refused')})
        if hostname != r.host or r.key is not None and key_filename != r.key or \
                r.user is not None and username != r.user:
            raise paramiko.AuthenticationException('Authentication failed for %s@%s' % (username, hostname))
        self.connected = True

    def _need(self):
        if not self.connected:
            raise paramiko.SSHException('SSH session not active')

    def get_transport(self):
        return Transport(self)

    def exec_command(self, command, *a, **kw):
        self._need()
        r = self.remote
        c = r.ch.choose(4, 'exec ' + command[:50])
        if c >= 2:
            r.faults += 1
        if c == 3:
            self.connected = False
            raise paramiko.SSHException('SSH session not active')
        p = _Proc(r, command, c)
        if c != 1:
            p.run()
        else:
            self.pending.append(p)
        return io.BytesIO(), _Stream(p, 1), _Stream(p, 2)

    def close(self):
        for p in self.pending:
            p.run()
        self.connected = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Transport(object):
    def __init__(self, client):
        self.client = client

    def open_session(self, *a, **kw):
        self.client._need()
        return SinkChannel(self.client.remote)

    def is_active(self):
        return self.client.connected


class SourceChannel(object):
    """remote end of `scp -f` (the far side sends). tree: {absolute path: (mode, mtime, atime, bytes or dict of
    name -> same tuple)}. Lock-step: every record waits for the client's acknowledgement byte.
    chunk(n) tells how many bytes the next recv may return at most."""
    LINE_FAULTS = ['error', 'close', 'timeout', 'fatal', 'garbage', 'empty', 'dotdot', 'slash', 'badmode', 'badsize', 'dot']

    def __init__(self, remote, tree, chunk=None):
        self.remote, self.tree, self.chunk = remote, tree, chunk
        self.closed = False
        self.out = b''
        self.dead = False
        self.timeout = False
        self.gen = None
        self.sent = 0

    def settimeout(self, t):
        pass

    def exec_command(self, cmd):
        if isinstance(cmd, str):
            cmd = cmd.encode()
        argv = shlex.split(cmd.decode('utf-8', 'surrogateescape'))
        assert argv[0] == 'scp', argv
        i = argv.index('-f')
        self.opts = argv[1:i]
        self.gen = self._source(argv[i + 1:])

    def _line(self, line, named=False):
        n = len(self.LINE_FAULTS) if named else 7 if line[:1] == b'T' else 5
        c = self.remote.ch.choose(n + 1, line[:30].decode('utf-8', 'replace'))
        if c == 0:
            return line
        f = self.LINE_FAULTS[c - 1]
        if line[:1] == b'T' and c > 5:
            self.remote.faults += 1
            self.remote.events += 1
            return [b'Tnow 0 then 0\n', b'T1000000000\n'][c - 6]
        self.remote.faults += 1
        self.remote.events += 1
        if f == 'error':
            return b'\x01scp: error\n'
        if f == 'fatal':
            return b'\x02scp: fatal\n'
        if f == 'garbage':
            return b'Zwhat is this\n'
        if f == 'close':
            self.dead = True
            return b''
        if f == 'timeout':
            self.timeout = True
            return b''
        p = line.rstrip(b'\n').split(b' ', 2)
        if f == 'empty':
            p[2] = b''
        elif f == 'dotdot':
            p[2] = b'..' if line[:1] == b'D' else b'../escaped'
        elif f == 'dot':
            p[2] = b'.'
        elif f == 'slash':
            p[2] = b'sub/escaped'
        elif f == 'badmode':
            p[0] = line[:1] + b'rw-'
        elif f == 'badsize':
            p[1] = b'x' if line[:1] == b'C' else b''
            if line[:1] == b'D':
                return b'D\n'
        return b' '.join(p) + b'\n'

    def _source(self, paths):
        for path in paths:
            node = self.tree.get(path)
            if node is None:
                self.remote.faults += 1
                yield b'\x01scp: %s: No such file or directory\n' % path.encode()
                continue
            yield from self._node(os.path.basename(path.rstrip('/')), node, True)
        if self.remote.ch.choose(2, 'end'):
            self.remote.faults += 1
            yield b'E\n'

    def _node(self, name, node, top=False):
        mode, mtime, atime, body = node
        if isinstance(body, dict) and '-r' not in self.opts:
            self.remote.faults += 1
            yield b'\x01scp: %s: not a regular file\n' % name.encode()
            return
        if '-p' in self.opts:
            yield self._line(b'T%d 0 %d 0\n' % (mtime, atime))
        if isinstance(body, dict):
            yield self._line(b'D%04o 0 %s\n' % (mode, name.encode()), True)
            for k in sorted(body):
                yield from self._node(k, body[k])
            yield self._line(b'E\n')
        else:
            yield self._line(b'C%04o %d %s\n' % (mode, len(body), name.encode()), True)
            c = self.remote.ch.choose(6, 'data of ' + name)
            self.remote.faults += 1 if c else 0
            if c == 0:
                yield body + b'\x00'
            elif c == 1:      # read error at the far end: padded data, error status
                yield body[:len(body) // 2].ljust(len(body), b'\0') + b'\x01scp: read error\n'
            elif c == 2:      # lost in the middle
                self.dead = True
                yield body[:len(body) // 2]
            elif c == 3:
                self.timeout = True
                yield body[:len(body) // 2]
            elif c == 4:      # data complete, status lost
                self.dead = True
                yield body
            elif c == 5:
                self.timeout = True
                yield body

    def send(self, data):
        self.sendall(data)
        return len(data)

    def sendall(self, data):
        if isinstance(data, str):
            data = data.encode()
        self.remote.events += 1
        if self.dead or self.closed:
            raise socket.error('Socket is closed')
        if data[:1] != b'\x00':
            self.gen = iter(())
            self.finished = True
            return
        for _ in data:
            if self.timeout or self.dead:
                return
            try:
                self.out += next(self.gen)
            except StopIteration:
                self.dead = True

    def recv(self, n):
        if self.out:
            if self.chunk:
                n = max(1, min(n, self.chunk(n)))
            if self.out[:1] in b'CDTEZ\x01\x02' and self.out.endswith(b'\n') and self.out.count(b'\n') == 1 and self.chunk is not None \
                    and len(self.out) <= 1024 and not getattr(self, 'split_lines', False):
                n = len(self.out)     # control records arrive in one piece
            r, self.out = self.out[:n], self.out[n:]
            return r
        if self.timeout:
            raise socket.timeout()
        if self.dead or self.closed:
            return b''
        raise socket.timeout('model: peer has nothing to say')

    def recv_stderr_ready(self):
        return False

    def recv_stderr(self, n):
        return b''

    def exit_status_ready(self):
        return self.dead

    def recv_exit_status(self):
        if self.remote.faults:
            return 1 if self.out or not self.dead else -1
        return 0

    def close(self):
        self.closed = True


class SinkChannel(object):
    """remote end of `scp -t` (the far side receives)."""

    def __init__(self, remote):
        self.remote = remote
        self.out = b''
        self.closed = False
        self.dead = False
        self.timeout = False
        self.state = 'cmd'
        self.buf = b''
        self.dirs = []
        self.times = None
        self.dirtimes = {}

    def settimeout(self, t):
        pass

    def _ack(self, label, spoil=None):
        """environment choice at every acknowledgement"""
        c = self.remote.ch.choose(6, label)
        if c:
            self.remote.faults += 1
            if spoil:
                spoil()
        if c == 0:
            self.out += b'\x00'
        elif c == 1:
            self.out += b'\x01scp: error\n'
        elif c == 2:
            self.dead = True
        elif c == 3:
            self.timeout = True
        elif c == 4:
            self.out += b'\x02scp: fatal\n'
        elif c == 5:
            self.out += b'?what\n'
        return c == 0

    def exec_command(self, cmd):
        if isinstance(cmd, str):
            cmd = cmd.encode()
        argv = shlex.split(cmd.decode('utf-8', 'surrogateescape'))
        assert argv[0] == 'scp' and '-t' in argv, argv
        self.recursive = '-r' in argv
        t = argv[-1] if argv[-1] != '-t' else '.'
        if t.startswith('~'):
            t = self.remote.home + t[1:]
        self.target = os.path.join(self.remote.home, t)
        self.targetisdir = os.path.isdir(self.target)
        self.dirs = [self.target]
        self.first = True
        self.state = 'line'
        if not os.path.isdir(os.path.dirname(self.target)):
            self.out += b'\x01scp: %s: No such file or directory\n' % self.target.encode()
            self.state = 'refused'
            return
        self._ack('scp -t')

    def _name(self, name):
        if len(self.dirs) == 1 and not self.targetisdir:
            return self.target
        return os.path.join(self.dirs[-1], name)

    def sendall(self, data):
        if self.dead or self.closed:
            raise socket.error('Socket is closed')
        if isinstance(data, str):
            data = data.encode()
        self.buf += data
        while self.buf and not (self.dead or self.timeout):
            if self.state == 'line':
                i = self.buf.find(b'\n')
                if i < 0:
                    return
                line, self.buf = self.buf[:i], self.buf[i + 1:]
                self._line(line)
            elif self.state == 'data':
                if self.fresh:
                    self.fresh = False
                    if self.remote.ch.choose(2, 'connection while data are sent'):
                        self.remote.faults += 1
                        self.f.write(self.buf[:self.left // 2])
                        self.f.close()
                        self.dead = True
                        raise socket.error('Socket is closed')
                take = self.buf[:self.left]
                self.buf = self.buf[len(take):]
                self.f.write(take)
                self.left -= len(take)
                if self.left == 0:
                    self.state = 'eof'
            elif self.state == 'eof':
                st, self.buf = self.buf[:1], self.buf[1:]
                self.f.close()
                self.state = 'line'
                os.chmod(self.path, self.mode)
                if self.times:
                    os.utime(self.path, self.times)
                    self.times = None
                if st != b'\x00':
                    self.out += b'\x01scp: protocol error\n'
                    self.state = 'refused'
                    return
                self.remote.event('scp', self.path)

                def spoil(path=self.path):
                    with open(path, 'r+b') as f:
                        f.truncate(self.size // 2)
                self._ack('scp data', spoil)
            else:
                self.buf = b''
                return
            if self.state == 'data' and self.left == 0:
                self.state = 'eof'

    def send(self, data):
        self.sendall(data)
        return len(data)

    def _line(self, line):
        kind = line[:1]
        try:
            if kind == b'C':
                mode, size, name = line[1:].split(b' ', 2)
                name = name.decode('utf-8', 'surrogateescape')
                if not name or '/' in name or name in ('.', '..'):
                    raise ValueError('unexpected filename: %s' % name)
                self.path = self._name(name)
                self.mode, self.size = int(mode, 8), int(size)
                if os.path.isdir(self.path):
                    raise OSError('%s: Is a directory' % self.path)
                self.remote.event('open', self.path)
                self.f = open(self.path, 'wb')
                self.left = self.size
                self.state = 'data' if self.left else 'eof'
                self.fresh = bool(self.left)
                if not self._ack('scp C'):
                    self.f.close()
                    self.state = 'refused'
            elif kind == b'D':
                if not self.recursive:
                    raise ValueError('received directory without -r')
                mode, size, name = line[1:].split(b' ', 2)
                name = name.decode('utf-8', 'surrogateescape')
                if not name or '/' in name or name in ('.', '..'):
                    raise ValueError('unexpected filename: %s' % name)
                p = self._name(name)
                if not os.path.isdir(p):
                    os.mkdir(p)
                os.chmod(p, int(mode, 8) | 0o700)
                if self.times:
                    self.dirtimes[p] = self.times
                    self.times = None
                self.dirs.append(p)
                self._ack('scp D')
            elif kind == b'E':
                if len(self.dirs) < 2:
                    raise ValueError('unbalanced E')
                p = self.dirs.pop()
                if p in self.dirtimes:
                    os.utime(p, self.dirtimes.pop(p))
                self._ack('scp E')
            elif kind == b'T':
                m, _, a, _ = line[1:].split(b' ')
                self.times = (int(a), int(m))
                self._ack('scp T')
            else:
                raise ValueError('protocol error: %r' % line)
        except (OSError, ValueError) as e:
            self.out += b'\x01scp: ' + str(e).encode() + b'\n'
            self.state = 'refused'

    def recv(self, n):
        if self.out:
            r, self.out = self.out[:n], self.out[n:]
            return r
        if self.timeout:
            raise socket.timeout()
        if self.dead or self.closed:
            return b''
        raise socket.timeout('model: peer has nothing to say')

    def recv_stderr_ready(self):
        return False

    def recv_stderr(self, n):
        return b''

    def shutdown_write(self):
        pass

    def recv_exit_status(self):
        return 0

    def close(self):
        self.closed = True


paramiko.SSHClient = FakeSSHClient
paramiko.client.SSHClient = FakeSSHClient
