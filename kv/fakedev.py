"""A scripted KATCP device living on the deterministic loop (written from the protocol, not from katcp's server)."""
import re

from kv.harness import Raw, fmt, listen, parse

GREET = {
    '5.1': [('version-connect', 'katcp-protocol', '5.1-IMT')],
    '5.1-IMTB': [('version-connect', 'katcp-protocol', '5.1-IMTB')],
    '5.0': [('version-connect', 'katcp-protocol', '5.0-IM'), ('version-connect', 'katcp-library', 'fake-1')],
    '5.0-M': [('version-connect', 'katcp-protocol', '5.0-M')],
    '4.0': [('version', 'fake-1.0'), ('build-state', 'fake-1.0')],
}


class Conn(object):
    def __init__(self, raw):
        self.raw = raw
        self.strategies = {}          # sensor name -> (strategy, params...)
        self.open = True
        self.busy = 0


class FakeDevice(object):
    """requests: name -> description; hints: name -> seconds; sensors: name -> dict(desc, units, type, params, reading)"""

    def __init__(self, env, ver='5.1', port=0):
        self.env, self.loop, self.ver = env, env.loop, ver
        self.requests, self.hints, self.sensors = {}, {}, {}
        self.conns = []
        self.accepted = 0
        self.faults = {}              # request name -> list of behaviours for its next occurrences
        self.log = []                 # (time, connection number, message)
        self.fail_args = {}           # request name -> reply arguments
        self.l = None
        self.port = port
        self.hold = []
        self.on_request = None
        self.suffix = []              # appended to the replies of plain requests
        self.zero_hints = False       # lists the requests without hint too, with hint 0
        self.serial = False           # answer requests with ids in order too

    # -- life
    @property
    def is_up(self):
        return self.l is not None

    def up(self):
        if self.l is None:
            self.l = listen(self.port)
            self.port = self.l.getsockname()[1]
            self.loop.add_handler(self.l.fileno(), self._accept, self.loop.READ)

    def down(self, drop=True):
        if self.l is not None:
            self._accept()
            self.loop.remove_handler(self.l.fileno())
            self.l.close()
            self.l = None
        if drop:
            self.drop()

    def drop(self):
        for c in self.live():
            self._close(c)

    def live(self):
        return [c for c in self.conns if c.open]

    def _accept(self, *_):
        while self.l is not None:
            try:
                s, _a = self.l.accept()
            except BlockingIOError:
                return
            c = Conn(Raw(sock=s))
            self.conns.append(c)
            self.accepted += 1
            self.loop.add_handler(s.fileno(), lambda fd, ev, c=c: self._read(c), self.loop.READ)
            for g in GREET[self.ver]:
                self.send(c, '#', g[0], None, g[1:])

    def _close(self, c):
        if c.open:
            c.open = False
            self.loop.remove_handler(c.raw.sock.fileno())
            c.raw.close()

    def send(self, c, t, name, mid=None, args=()):
        if c.open:
            c.raw.send(fmt(t, name, mid, args) + b'\n')

    def sendraw(self, data):
        for c in self.live():
            c.raw.send(data)

    def inform_all(self, name, *args):
        for c in self.live():
            self.send(c, '#', name, None, args)

    def changed(self):
        self.inform_all('interface-changed' if not self.ver.startswith('4') else 'device-changed')

    # -- requests
    def _read(self, c):
        msgs = c.raw.msgs()
        for m in msgs:
            if c.open:
                self.log.append((self.env.now, self.conns.index(c), m))
                self._request(c, m)
        if c.raw.eof:
            self._close(c)

    def _request(self, c, m):
        if m.t != '?':
            return
        if self.on_request is not None:
            self.on_request(m)
        q = self.faults.get(m.name)
        fault = q.pop(0) if q else None
        if fault == 'stall':
            if m.mid is None:   # nothing sensible can follow on a connection without ids
                self._close(c)
            return
        if fault == 'drop':
            self._close(c)
            return
        if fault == 'fail':
            self.send(c, '!', m.name, m.mid, ['fail', 'injected failure'])
            return
        delay = fault if isinstance(fault, (int, float)) else 0
        if delay:
            fault = None
        if m.mid is None:       # without ids the answers must come in order
            if c.busy - self.env.now > 1:
                delay = 0       # ... and before anybody gives up on one
            t = max(self.env.now, c.busy) + min(delay, 0.25)
            delay, c.busy = t - self.env.now, t
        elif self.serial:
            t = max(self.env.now + delay, c.busy)
            delay, c.busy = t - self.env.now, t
        if delay > 0:
            self.loop.call_at(self.env.now + delay, self._answer, c, m, fault)
            return
        self._answer(c, m, fault)

    def _answer(self, c, m, fault):
        if not c.open:
            return
        h = getattr(self, 'do_' + m.name.replace('-', '_'), None)
        if h is not None and (m.name in self.requests or m.name in ('help', 'sensor-list', 'sensor-sampling', 'sensor-value', 'request-timeout-hint')):
            informs, reply = h(c, m)
        elif m.name in self.requests:
            informs, reply = [[b'i%d' % k] + list(m.args) for k in range(len(m.args) % 3)], self.fail_args.get(m.name) or ['ok'] + list(m.args) + self.suffix
        else:
            informs, reply = [], ['invalid', 'unknown request']
        n = len(informs)
        if fault == 'dropmid':
            for i in informs[:n // 2 + 1]:
                self.send(c, '#', m.name, m.mid, i)
            self._close(c)
            return
        for i in informs:
            self.send(c, '#', m.name, m.mid, i)
        self.send(c, '!', m.name, m.mid, reply)

    def _select(self, m, table, what):
        if not m.args:
            return sorted(table), None
        n = m.args[0].decode()
        if len(n) > 2 and n[0] == n[-1] == '/':
            return sorted(x for x in table if re.search(n[1:-1], x)), None
        if n not in table:
            return None, ['fail', 'Unknown %s.' % what]
        return [n], None

    def do_help(self, c, m):
        names, err = self._select(m, self.requests, 'request method')
        if err:
            return [], err
        return [[n, self.requests[n]] for n in names], ['ok', len(names)]

    def do_request_timeout_hint(self, c, m):
        names, err = self._select(m, self.requests, 'request method')
        if err:
            return [], err
        names = [n for n in names if m.args or self.hints.get(n) or self.zero_hints]
        return [[n, self.hints.get(n, 0)] for n in names], ['ok', len(names)]

    def do_sensor_list(self, c, m):
        names, err = self._select(m, self.sensors, 'sensor name')
        if err:
            return [], err
        s = self.sensors
        return [[n, s[n]['desc'], s[n]['units'], s[n]['type']] + list(s[n]['params']) for n in names], ['ok', len(names)]

    def _ts(self, t):
        return '%.6f' % t if not self.ver.startswith('4') else '%d' % int(t * 1000)

    def do_sensor_value(self, c, m):
        names, err = self._select(m, self.sensors, 'sensor name')
        if err:
            return [], err
        return [[self._ts(self.sensors[n]['reading'][0]), '1', n] + list(self.sensors[n]['reading'][1:]) for n in names], ['ok', len(names)]

    def do_sensor_sampling(self, c, m):
        if not m.args:
            return [], ['fail', 'No sensor name given.']
        names = m.args[0].decode().split(',')
        for n in names:
            if n not in self.sensors:
                return [], ['fail', 'Unknown sensor name: %s.' % n]
            if self.sensors[n]['type'] == 'integer' and m.args[1:2] and m.args[1].startswith(b'differential') and not re.match(rb'[1-9][0-9]*$', m.args[2]):
                return [], ['fail', 'The difference must be a positive integer.']
        if len(m.args) > 1:
            for n in names:
                st = tuple(m.args[1:])
                if st[0] == b'none':
                    c.strategies.pop(n, None)
                else:
                    c.strategies[n] = st
                    self.status(c, n)
        return [], ['ok'] + [m.args[0]] + (list(m.args[1:]) or list(c.strategies.get(names[0], (b'none',))))

    # -- sensors
    def status(self, c, name):
        r = self.sensors[name]['reading']
        self.send(c, '#', 'sensor-status', None, [self._ts(r[0]), '1', name] + list(r[1:]))

    def update(self, name, status, value):
        """New reading, sent to every connection that samples the sensor."""
        self.sensors[name]['reading'] = (self.env.now, status, value)
        for c in self.live():
            if name in c.strategies:
                self.status(c, name)

    def remove_sensor(self, name):
        del self.sensors[name]
        for c in self.conns:
            c.strategies.pop(name, None)

    def close(self):
        self.down()
