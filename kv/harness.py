"""Raw clients, scripted servers and devices on the deterministic loop (worker side)."""
import socket

from kv.core import check, Violation


class Raw(object):
    """A raw byte-level TCP peer; nothing happens behind its back."""

    def __init__(self, port=None, sock=None):
        if sock is None:
            sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            sock.connect(('127.0.0.1', port))
        self.sock = sock
        self.sock.setblocking(False)
        self.buf = b''
        self.raw = b''
        self.eof = False
        self.reset = False
        self.closed = False

    def send(self, data):
        """Send everything, or return the number of bytes the kernel took."""
        n = 0
        while n < len(data):
            try:
                n += self.sock.send(data[n:])
            except BlockingIOError:
                break
            except OSError:
                self.reset = True
                break
        return n

    def pump(self):
        while not self.eof and not self.closed:
            try:
                d = self.sock.recv(65536)
            except BlockingIOError:
                break
            except OSError:
                self.eof = self.reset = True
                break
            if not d:
                self.eof = True
                break
            self.buf += d
            self.raw += d

    def lines(self):
        """Whole lines received since the last call (terminator removed)."""
        self.pump()
        if b'\n' not in self.buf:
            return []
        whole, self.buf = self.buf.rsplit(b'\n', 1)
        return whole.split(b'\n')

    def msgs(self):
        return [parse(ln) for ln in self.lines() if ln]

    def close(self):
        if not self.closed:
            self.closed = True
            self.sock.close()

    def half_close(self):
        try:
            self.sock.shutdown(socket.SHUT_WR)
        except OSError:
            pass


UN = {ord('\\'): b'\\', ord('_'): b' ', ord('0'): b'\0', ord('n'): b'\n', ord('r'): b'\r', ord('e'): b'\x1b',
      ord('t'): b'\t', ord('@'): b''}
ESC = {v[0]: b'\\' + bytes([k]) for k, v in UN.items() if v}


class M(object):
    """A received message, parsed independently of katcp."""
    __slots__ = ('t', 'name', 'mid', 'args', 'line')

    def __init__(self, t, name, mid, args, line=b''):
        self.t, self.name, self.mid, self.args, self.line = t, name, mid, args, line

    def key(self):
        return (self.t, self.name, self.mid, tuple(self.args))

    def __eq__(self, o):
        return isinstance(o, M) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'M(%s%s%s %r)' % (self.t, self.name, '' if self.mid is None else '[%s]' % self.mid, self.args)


def parse(line):
    from kv.props.c02 import ref_parse
    r = ref_parse(line)
    if r is None:
        raise Violation('malformed-line', 'peer received %r' % line)
    t, name, mid, args = r
    return M('?!#'[t], name, None if mid is None else mid.decode('ascii'), list(args), line)


def fmt(t, name, mid=None, args=()):
    """Independent wire formatter."""
    out = t.encode() + name.encode('latin-1')
    if mid is not None:
        out += b'[' + str(mid).encode() + b']'
    for a in args:
        if not isinstance(a, bytes):
            a = str(a).encode('utf-8')
        out += b' ' + (b''.join(ESC.get(c, bytes([c])) for c in a) or b'\\@')
    return out


def start_device(env, dev):
    """Put a device server on the environment's loop and start it."""
    import katcp
    if not isinstance(dev, katcp.AsyncDeviceServer):   # that one takes the current loop
        dev.set_ioloop(env.loop)
    dev.start()
    env.settle()
    check(dev.running(), 'device-not-running')
    return dev.bind_address[1]


def accept(lsock):
    """Accept one pending connection of a scripted server, or None."""
    try:
        conn, _ = lsock.accept()
    except BlockingIOError:
        return None
    return Raw(sock=conn)


def listen(port=0):
    s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    s.bind(('127.0.0.1', port))
    s.listen(5)
    s.setblocking(False)
    return s


def no_loop_errors(env, sig='loop-error'):
    check(not env.loop.errors, sig, lambda: env.loop.errors[0][-1500:])
