"""Deterministic single-process network, clock and I/O loop (PyPy worker side).

* VSocket stands in for AF_INET stream sockets: the same API, backed by AF_UNIX
  sockets in the abstract namespace of this process, so that delivery of data,
  EOF and connection refusals is synchronous and no TCP port is ever used.
* Clock is a virtual clock; while it is active time.time() returns its value.
* VLoop is a stock tornado PollIOLoop whose poll() never sleeps: when no file
  descriptor is ready it moves the virtual clock to the next deadline instead.
"""
import errno
import itertools
import os
import select
import socket as _socket
import time as _time

_real_socket = _socket.socket
_real_time = _time.time


class Stuck(Exception):
    """The loop did not become quiescent within the iteration budget."""


class _Net(object):
    def __init__(self):
        self.active = False
        self.next_port = itertools.cycle(range(20001, 65000))
        self.open = set()
        self.token = None
        self.sndbuf = None          # send buffer of accepted connections

    def path(self, port):
        # (the abstract names are shared with processes of other pid namespaces)
        if self.token is None or self.token[0] != os.getpid():
            self.token = os.getpid(), os.urandom(5).hex()
        return '\0kv-%d-%s-%d' % (self.token + (port,))


NET = _Net()


def _addr_from_path(path):
    if isinstance(path, bytes):
        path = path.decode('latin-1')
    try:
        return ('127.0.0.1', int(path.rsplit('-', 1)[1]))
    except Exception:
        return ('127.0.0.1', 0)


class VSocket(_real_socket):
    """AF_INET SOCK_STREAM look-alike over abstract AF_UNIX sockets."""

    def __init__(self, family=_socket.AF_INET, type=_socket.SOCK_STREAM, proto=0, fileno=None):
        self._v = False
        if family in (-1, _socket.AF_INET) and fileno is None and NET.active \
                and (type == -1 or type & _socket.SOCK_STREAM):
            self._v = True
            _real_socket.__init__(self, _socket.AF_UNIX, _socket.SOCK_STREAM, 0)
            NET.open.add(self)
        else:
            _real_socket.__init__(self, family, type, proto, fileno)
        self._vaddr = None

    def close(self):
        NET.open.discard(self)
        return _real_socket.close(self)

    def bind(self, address):
        if not self._v:
            return _real_socket.bind(self, address)
        port = address[1] or next(NET.next_port)
        _real_socket.bind(self, NET.path(port))
        self._vaddr = ('127.0.0.1', port)

    def listen(self, backlog=128):
        if not self._v:
            return _real_socket.listen(self, backlog)
        return _real_socket.listen(self, 1024)

    def connect(self, address):
        if not self._v:
            return _real_socket.connect(self, address)
        if self._vaddr is None:
            self.bind(('127.0.0.1', 0))
        try:
            return _real_socket.connect(self, NET.path(address[1]))
        except OSError as e:
            if e.errno in (errno.ENOENT, errno.ECONNREFUSED):
                raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
            raise

    def connect_ex(self, address):
        try:
            self.connect(address)
            return 0
        except OSError as e:
            return e.errno

    def accept(self):
        if not self._v:
            return _real_socket.accept(self)
        fd, path = self._accept()
        conn = VSocket.__new__(VSocket)
        conn._v = False
        _real_socket.__init__(conn, _socket.AF_UNIX, _socket.SOCK_STREAM, 0, fileno=fd)
        conn._v = True
        conn._vaddr = self._vaddr
        if NET.sndbuf:
            _real_socket.setsockopt(conn, _socket.SOL_SOCKET, _socket.SO_SNDBUF, NET.sndbuf)
        NET.open.add(conn)
        if _socket.getdefaulttimeout() is None and self.gettimeout():
            conn.setblocking(True)
        return conn, _addr_from_path(path)

    def getsockname(self):
        if not self._v:
            return _real_socket.getsockname(self)
        if self.fileno() == -1:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        return self._vaddr or ('0.0.0.0', 0)

    def getpeername(self):
        if not self._v:
            return _real_socket.getpeername(self)
        return _addr_from_path(_real_socket.getpeername(self))

    def setsockopt(self, level, *args):
        if self._v and level != _socket.SOL_SOCKET:
            return None
        return _real_socket.setsockopt(self, level, *args)


class Clock(object):
    BASE = float(2 ** 20)

    def __init__(self):
        self.now = self.BASE
        self.active = False

    def time(self):
        return self.now if self.active else _real_time()


CLOCK = Clock()


def install():
    """Replace socket.socket and time.time for this process."""
    _socket.socket = VSocket
    _time.time = CLOCK.time


class VPoll(object):
    MAX_POLLS = 200000

    def __init__(self):
        self._poll = select.poll()
        self._mask = {}
        self.loop = None
        self.target = None
        self.polls = 0

    def register(self, fd, events):
        self._poll.register(fd, self._conv(events))
        self._mask[fd] = events

    def modify(self, fd, events):
        self._poll.modify(fd, self._conv(events))
        self._mask[fd] = events

    def unregister(self, fd):
        self._mask.pop(fd, None)
        self._poll.unregister(fd)

    def close(self):
        pass

    @staticmethod
    def _conv(events):
        # tornado's constants equal the epoll constants, which equal poll's
        ev = 0
        if events & 0x001:
            ev |= select.POLLIN
        if events & 0x004:
            ev |= select.POLLOUT
        return ev

    def poll(self, timeout):
        self.polls += 1
        if self.polls > self.MAX_POLLS:
            self.loop._kv_stuck = True
            self.loop.stop()
            return []
        out = []
        for fd, ev in self._poll.poll(0):
            o = 0
            if ev & select.POLLIN:
                o |= 0x001
            if ev & select.POLLOUT:
                o |= 0x004
            if ev & select.POLLERR:
                o |= 0x008
            if ev & select.POLLHUP:
                # a TCP FIN is plain readability; poll() reports HUP unasked
                o |= 0x001 & self._mask.get(fd, 0)
            if ev & select.POLLNVAL:
                # closed without being removed: tornado's epoll would never report it
                try:
                    self._poll.unregister(fd)
                except Exception:
                    pass
                continue
            if o:
                out.append((fd, o))
        if out or timeout == 0:
            return out
        # idle: advance virtual time
        clock = CLOCK
        nxt = clock.now + timeout
        live = [t for t in self.loop._timeouts if t.callback is not None]
        if live:
            nxt = min(t.deadline for t in live)
        else:
            nxt = None
        if nxt is None or (self.target is not None and nxt > self.target):
            if self.target is not None and self.target > clock.now:
                clock.now = self.target
            self.loop.stop()
        elif nxt > clock.now:
            clock.now = nxt
        return []


def make_loop():
    import tornado.ioloop

    class VLoop(tornado.ioloop.PollIOLoop):
        def initialize(self, **kwargs):
            impl = VPoll()
            self.errors = []
            self._kv_stuck = False
            super(VLoop, self).initialize(impl=impl, time_func=CLOCK.time, make_current=False)
            impl.loop = self

        def _setup_logging(self):
            pass

        def handle_callback_exception(self, callback):
            import sys
            import traceback
            self.errors.append(''.join(traceback.format_exception(*sys.exc_info())))

        def run_to(self, target):
            """Run until quiescent and the virtual clock has reached target."""
            self._impl.target = target
            self._impl.polls = 0
            self.start()
            if self._kv_stuck:
                raise Stuck('event loop does not become idle')

        def advance(self, dt):
            self.run_to(CLOCK.now + dt)

        def settle(self):
            self.run_to(CLOCK.now)

    return VLoop()


class Env(object):
    """One deterministic world: virtual net, clock and loop.  Use as context manager."""

    def __enter__(self):
        import tornado.ioloop
        CLOCK.now = Clock.BASE
        CLOCK.active = True
        NET.active = True
        NET.sndbuf = None
        self.loop = make_loop()
        self._old = getattr(tornado.ioloop.IOLoop._current, 'instance', None)
        self.loop.make_current()
        return self

    def __exit__(self, *exc):
        import tornado.ioloop
        try:
            for s in list(NET.open):
                try:
                    s.close()
                except Exception:
                    pass
            NET.open.clear()
            try:
                self.loop.close()
            except Exception:
                pass
        finally:
            tornado.ioloop.IOLoop._current.instance = self._old
            CLOCK.active = False
            NET.active = False
        return False

    @property
    def now(self):
        return CLOCK.now

    def advance(self, dt):
        self.loop.advance(dt)

    def settle(self):
        self.loop.settle()

    def tick(self, io=True):
        """One callback phase, optionally followed by one I/O phase and another callback phase."""
        loop = self.loop
        loop._impl.target = CLOCK.now
        loop._impl.polls = 0
        if io:
            loop.add_callback(lambda: loop.add_callback(loop.stop))
        else:
            loop.add_callback(loop.stop)
        loop.start()

    def live_timeouts(self):
        return [t for t in self.loop._timeouts if t.callback is not None]

    def run_sync(self, fn, timeout=1e6):
        """Run fn() (maybe returning a future) on the loop; virtual time passes as needed."""
        import tornado.gen
        box = []

        def go():
            try:
                f = tornado.gen.maybe_future(fn())
            except Exception:
                import sys
                f = tornado.gen.Future()
                f.set_exc_info(sys.exc_info())
            box.append(f)
        self.loop.add_callback(go)
        self.loop.settle()
        end = CLOCK.now + timeout
        while not box[0].done() and CLOCK.now < end:
            live = [t.deadline for t in self.loop._timeouts if t.callback is not None]
            if not live:
                break
            self.loop.run_to(min(max(min(live), CLOCK.now), end))
        if not box[0].done():
            raise Stuck('operation never completed')
        return box[0].result()
