"""S05: threaded and single-threaded servers give clients the same answers; messages from threads arrive whole (real threads)."""
ID = 'S05'
CASES = {'quick': 1200, 'thorough': 40000}
HISTORY = ('steps', 'apps', 'clients')
CASE_TIMEOUT = 120
REPLAY_TRIES = 12
RULE = ('a differential case counts when it runs more than one client, has pipelined requests, and includes both an asynchronous or '
        'failing handler and one that affects other clients; a storm case counts when two application threads and two clients were '
        'active at once and a sampled sensor was set or a client came or went meanwhile')

HANG = 12.0
# the first time a reply stays away a process waits for it much longer: a schedule that loses a request need not come again
LONG_HANG = 45.0
TRUST_MARK = '[nothing came for %g s]' % LONG_HANG
sure = []
PRIV = ['echo', 'typed', 'fail', 'crash', 'none', 'informs', 'coro', 'conc', 'later', 'nap', 'help', 'helpx', 'slist', 'slistre',
        'svalue', 'svaluex', 'versions', 'watchdog', 'unknown', 'bad', 'inform', 'reply', 'empty', 'sub', 'query', 'hint', 'nomid', 'text', 'whole']
PUB = ['set', 'setmany', 'mass', 'log', 'level', 'add', 'remove', 'clear', 'clients', 'restart', 'direct']


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    priv = st.tuples(st.sampled_from(PRIV), st.integers(0, 5), st.sampled_from(['', 'a', 'a b', '\xff', '\\', '/s/', 's0', 's1,s0', '-3', 'auto']))
    anyr = st.tuples(gens.weighted((2, st.sampled_from(PRIV)), (3, st.sampled_from(PUB)), (2, st.sampled_from(['sub', 'set', 'setmany', 'mass', 'coro']))),
                     st.integers(0, 5), st.sampled_from(['', 'a', 'a b', '\xff', 's0', 'event', 'none']))
    step = gens.weighted((3, st.tuples(st.just('solo'), st.integers(0, 2), st.lists(anyr, min_size=1, max_size=6))),
                         (2, st.tuples(st.just('par'), st.lists(st.lists(priv, max_size=5), min_size=2, max_size=3))))
    diff = st.fixed_dictionaries({'k': st.just('diff'), 'mode': st.sampled_from(['own-ts', 'own-ht', 'own-plain', 'loop-ts', 'loop-ht', 'own-ht', 'loop-ht']),
                                  'clients': st.integers(1, 3), 'steps': gens.oplist(step, 1, 6),
                                  'end': st.sampled_from(['stop', 'halt', 'stop', 'close']), 'again': st.booleans(),
                                  'fuzz': gens.weighted((2, st.just(0)), (1, st.just(0.01))), 'seed': st.integers(0, 10 ** 6)})
    aop = gens.weighted((4, st.just('mass')), (5, st.just('set')), (1, st.just('log')), (1, st.just('addrm')), (2, st.just('direct')), (1, st.just('wait')))
    cop = gens.weighted((2, st.just('req')), (4, st.just('sub')), (4, st.just('unsub')), (3, st.just('clist')), (1, st.just('slist')),
                        (1, st.just('svalue')), (2, st.just('drop')), (1, st.just('nap')))
    storm = st.fixed_dictionaries({
        'k': st.just('storm'), 'mode': st.sampled_from(['own-ts', 'own-ht', 'loop-ts', 'loop-ht']),
        'apps': st.lists(st.lists(aop, min_size=1, max_size=10), min_size=1, max_size=3), 'rounds': st.integers(1, 6),
        'clients': st.lists(st.lists(st.tuples(cop, st.integers(0, 2)), min_size=1, max_size=8), min_size=1, max_size=4),
        'end': gens.weighted((3, st.just('calm')), (2, st.just('midway'))), 'again': st.booleans(),
        'fuzz': gens.weighted((1, st.just(0)), (3, st.sampled_from([0.02, 0.1, 0.3]))), 'seed': st.integers(0, 10 ** 6)})
    gate = st.fixed_dictionaries({'k': st.just('gate'), 'mode': st.sampled_from(['own-ts', 'own-ht', 'loop-ts', 'loop-ht']),
                                  'where': st.sampled_from(['attach', 'cancel', 'clients', 'many']), 'strategy': st.sampled_from(['auto', 'event']),
                                  'sets': st.integers(1, 3)})
    return gens.weighted((6, diff), (6, storm), (1, gate))


def device_class():
    import time
    from katcp import DeviceServer, Sensor, Message, ProtocolFlags, AsyncReply
    from katcp.core import FailReply
    from katcp.kattypes import request, return_reply, Int, Str, concurrent_reply
    from concurrent.futures import Future
    from tornado import gen
    from tornado.gen import chain_future

    class Device(DeviceServer):
        VERSION_INFO = ('dev', 1, 0)
        BUILD_INFO = ('dev', 1, 0, '')
        PROTOCOL_INFO = ProtocolFlags(5, 1, [ProtocolFlags.MULTI_CLIENT, ProtocolFlags.MESSAGE_IDS, ProtocolFlags.REQUEST_TIMEOUT_HINTS])

        def setup_sensors(self):
            self.registered = {}
            for i in range(3):
                s = Sensor.integer('s%d' % i, 'd', 'u')
                s.set(1.0, Sensor.NOMINAL, 0)
                self.add_sensor(s)

        def put(self, i, v):
            self.get_sensor('s%d' % i).set(2.0 + v, Sensor.NOMINAL, v)

        def in_loop(self, fn):
            f = Future()
            self.ioloop.add_callback(lambda: chain_future(fn(), f))
            return f

        def request_echo(self, req, msg):
            """H."""
            return req.make_reply('ok', *msg.arguments)

        @request(Int(), Str(default='d'))
        @return_reply(Int(), Str())
        def request_typed(self, req, i, s):
            """H."""
            return 'ok', i + 1, s

        def request_fail(self, req, msg):
            """H."""
            raise FailReply('no %d' % len(msg.arguments))

        def request_crash(self, req, msg):
            """H."""
            req.inform('before')
            raise ValueError('boom')

        def request_none(self, req, msg):
            """H."""

        def request_informs(self, req, msg):
            """H."""
            for i in range(int(msg.arguments[0])):
                req.inform(str(i), *msg.arguments)
            return req.make_reply('ok', msg.arguments[0])

        def request_coro(self, req, msg):
            """H."""
            req.inform('start')

            @gen.coroutine
            def work():
                req.inform('in loop')
                yield gen.sleep(0.001 * int(msg.arguments[0]))
                if msg.arguments[0] == b'2':
                    raise FailReply('two')
                if msg.arguments[0] == b'3':
                    raise ValueError('three')
                req.inform('end')
                raise gen.Return(req.make_reply('ok', *msg.arguments))
            return self.in_loop(work)

        @concurrent_reply
        def request_conc(self, req, msg):
            """H."""
            @gen.coroutine
            def work():
                yield gen.sleep(0.001 * int(msg.arguments[0]))
                raise gen.Return(req.make_reply('ok', *msg.arguments))
            return self.in_loop(work)

        def request_later(self, req, msg):
            """H."""
            self.ioloop.add_callback(lambda: self.ioloop.call_later(0.001 * int(msg.arguments[0]), lambda: req.reply('ok', *msg.arguments)))
            raise AsyncReply()

        def request_nap(self, req, msg):
            """H."""
            time.sleep(0.001 * int(msg.arguments[0]))
            return req.make_reply('ok')

        def request_set(self, req, msg):
            """H."""
            self.put(int(msg.arguments[0]) % 3, int(msg.arguments[1]))
            return req.make_reply('ok')

        def request_setmany(self, req, msg):
            """H."""
            for v in range(3):
                self.put(int(msg.arguments[0]) % 3, v)
                req.inform(v)
            return req.make_reply('ok')

        def request_mass(self, req, msg):
            """H."""
            req.mass_inform(Message.inform('mass', *msg.arguments))
            self.mass_inform(Message.inform('mass2', *msg.arguments))
            return req.make_reply('ok')

        def request_direct(self, req, msg):
            """H."""
            req.client_connection.inform(Message.inform('direct', *msg.arguments))
            return req.make_reply('ok')

        def request_log(self, req, msg):
            """H."""
            self.log.error('logged %d' % len(msg.arguments))
            self.log.warn('warned')
            self.log.info('told')
            return req.make_reply('ok')

        def request_add(self, req, msg):
            """H."""
            name = 'x' + msg.arguments[0].decode()
            s = Sensor.integer(name, 'd', 'u')
            s.set(1.0, Sensor.NOMINAL, 0)
            self.add_sensor(s)
            self.mass_inform(Message.inform('interface-changed', 'sensor', name))
            return req.make_reply('ok')

        def request_remove(self, req, msg):
            """H."""
            self.remove_sensor('x' + msg.arguments[0].decode())
            return req.make_reply('ok')

        def request_register(self, req, msg):
            """H."""
            self.registered[msg.arguments[0]] = req.client_connection
            return req.make_reply('ok')

    return Device


class Host(object):
    """A device started in one of the concurrency modes."""

    def __init__(self, mode, cls=None):
        import threading
        self.th = threading
        self.base = set(threading.enumerate())
        self.mode = mode
        self.lt = None
        where, how = mode.split('-')
        self.dev = (cls or device_class())('127.0.0.1', 0)
        self.dev.set_concurrency_options(thread_safe=how != 'plain', handler_thread=how == 'ht')
        if where == 'loop':
            from kv.props.u02 import LoopThread
            self.lt = LoopThread()
            self.dev.set_ioloop(self.lt.loop)
        self.dev.setDaemon(True)
        self.start()

    def start(self):
        from kv.core import check
        self.dev.start(timeout=HANG)
        check(self.dev.running() and self.dev.wait_running(HANG), 'start-fails', 'device not running after start(timeout)')
        self.port = self.dev.bind_address[1]

    def stop(self, call=True):
        """Stop, wait for it, and see that it has stopped."""
        from kv.core import check
        from kv.props.u02 import guarded
        if call:
            fin, fut, e = guarded(lambda: self.dev.stop())
            check(fin, 'stop-hangs', 'stop() did not return')
            check(e is None, 'stop-raised', repr(e))
            try:
                fut.result(HANG)
            except Exception as e:
                check(False, 'stop-incomplete', 'the future of stop() gave %r' % (e,))
        fin, _, e = guarded(lambda: self.dev.join(HANG))
        check(fin, 'join-hangs', 'join(timeout) did not return')
        check(e is None, 'join-raised', repr(e))
        check(not self.dev.running(), 'stop-incomplete', 'device still running after stop and join')
        left = [t for t in self.th.enumerate() if t not in self.base and (self.lt is None or t is not self.lt.t)
                and 'guarded' not in repr(t) and not getattr(t, 'kv_client', False)]
        import time
        end = time.time() + HANG
        while left and time.time() < end and any(t.is_alive() for t in left):
            time.sleep(0.002)
        check(not any(t.is_alive() for t in left), 'threads-left', 'threads running after stop and join: %r' % left)

    def close(self):
        if self.lt is not None:
            self.lt.end()


class Cl(object):
    """A blocking raw client."""

    def __init__(self, port):
        import socket
        self.s = socket.create_connection(('127.0.0.1', port), timeout=HANG)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.addr = '%s:%s' % self.s.getsockname()
        self.buf = b''
        self.log = []
        self.eof = False
        self.done = set()       # mids replied
        self.n = 0

    def send(self, data):
        try:
            self.s.sendall(data)
            return True
        except OSError:
            return False

    def take(self, timeout):
        """Read once; False at the end of the stream."""
        from kv.harness import parse
        import socket
        self.s.settimeout(timeout)
        try:
            d = self.s.recv(65536)
        except socket.timeout:
            return None
        except OSError:
            d = b''
        if not d:
            self.eof = True
            return False
        self.buf += d
        *whole, self.buf = self.buf.split(b'\n')
        for ln in whole:
            if not ln:
                continue      # flushing a connection that closes writes an empty line
            m = parse(ln)
            self.log.append(m)
            if m.t == '!' and m.mid is not None:
                self.done.add(m.mid)
        return True

    def until(self, mids, timeout=HANG):
        """Read until all these requests are replied to; False when the stream ended first."""
        import time
        end = time.time() + timeout
        want = set(mids)
        while not want <= self.done:
            left = end - time.time()
            if left <= 0:
                if timeout >= HANG and not sure:
                    timeout, end = 0, end + LONG_HANG - HANG
                    continue
                if not timeout:
                    sure.append(1)
                return None
            if self.take(left) is False:
                return want <= self.done
        return True

    def ask(self, text, timeout=HANG):
        self.n += 1
        mid = '7%06d' % self.n
        name, _, rest = text.partition(' ')
        if not self.send(('?%s[%s]%s\n' % (name, mid, ' ' + rest if rest else '')).encode('latin-1')):
            self.until([mid], timeout)
            return mid if mid in self.done else None
        r = self.until([mid], timeout)
        return mid if r else (None if r is False else False)

    def drain(self):
        import time
        end = time.time() + HANG
        while not self.eof and time.time() < end:
            self.take(max(0.01, end - time.time()))
        return self.eof

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass


def esc(s):
    return (s.replace('\\', '\\\\').replace(' ', '\\_') or '\\@')


def wire(c, kind, n, text, mid):
    """One request as bytes, and the message id its reply will have (None: no reply)."""
    e = esc(text)
    plain = {'echo': 'echo %s %d' % (e, n), 'typed': 'typed %d' % n if n % 2 else 'typed %s %s' % (e, e), 'fail': 'fail', 'crash': 'crash', 'none': 'none',
             'informs': 'informs %d' % n, 'coro': 'coro %d' % n, 'conc': 'conc %d' % n, 'later': 'later %d' % n, 'nap': 'nap %d' % (n % 3),
             'help': 'help', 'helpx': 'help %s' % ('echo' if n % 2 else e), 'slist': 'sensor-list', 'slistre': 'sensor-list /s/' if n % 2 else 'sensor-list %s' % e,
             'svalue': 'sensor-value', 'svaluex': 'sensor-value %s' % e, 'versions': 'version-list', 'watchdog': 'watchdog',
             'unknown': 'nonesuch %s' % e, 'query': 'sensor-sampling s%d' % (n % 3), 'hint': 'request-timeout-hint',
             'sub': 'sensor-sampling s%d %s' % (n % 3, ['auto', 'event', 'none', 'differential 2', 'auto 3', 'event-rate 0 1000'][(n + len(text)) % 6]),
             'set': 'set %d %d' % (n, len(text) + n), 'setmany': 'setmany %d' % n, 'mass': 'mass %s' % e, 'log': 'log',
             'level': 'log-level %s' % ['info', 'error', 'off', 'warn', 'huh', ''][n], 'add': 'add %d' % (n % 3), 'remove': 'remove %d' % (n % 3),
             'clear': 'sensor-sampling-clear', 'clients': 'client-list', 'restart': 'restart', 'direct': 'direct %s' % e,
             'text': 'sensor-sampling %s %s' % (e, e), 'whole': 'sensor-sampling'}
    if kind in plain:
        name, _, rest = plain[kind].partition(' ')
        return ('?%s[%s]%s\n' % (name, mid, ' ' + rest if rest else '')).encode('latin-1'), mid
    return {'bad': b'?bad\\name x\n' if n % 2 else b'garbage\n', 'inform': b'#some-inform 1\n', 'reply': b'!some-reply[3] ok\n',
            'empty': b'\n\r\n', 'nomid': b'?echo x\n'}[kind], None


def norm(m, names):
    a = [x.decode('latin-1') for x in m.args]
    if m.name == 'log' and m.t == '#':
        a = [a[0], 'TS'] + a[2:]
    if m.name == 'client-list' and m.t == '#':
        a = [names.get(x, 'unknown client') for x in a]
    a = [x if 'Traceback' not in x else 'TB ' + x.strip().splitlines()[-1] for x in a]
    return (m.t, m.name, m.mid, tuple(a))


def play(case, mode, ctx):
    """Run the history in one mode; what each client received, step by step."""
    from kv.core import check
    host = Host(mode)
    out = []
    try:
        cls = [Cl(host.port) for _ in range(case['clients'])]
        names = {}
        for i, c in enumerate(cls):
            names[c.addr] = 'client %d' % i
            check(c.ask('watchdog'), 'request-unanswered', 'mode %s: no reply to a first ?watchdog' % mode)
        marks = [0] * len(cls)
        count = 0

        def collect(tag, loose, order):
            """Barrier, then what every client received since the last one."""
            for i in order + [j for j in range(len(cls)) if j not in order]:
                check(cls[i].ask('watchdog'), 'request-unanswered', 'mode %s: no reply to ?watchdog of client %d after %r' % (mode, i, tag))
            for i in order:          # the barrier of an active client covers what it caused elsewhere; again for what that caused
                check(cls[i].ask('watchdog'), 'request-unanswered', 'mode %s client %d' % (mode, i))
            res = []
            for i, c in enumerate(cls):
                msgs = c.log[marks[i]:]
                marks[i] = len(c.log)
                seq, late, group = [], [], []
                for m in msgs:
                    x = norm(m, names)
                    if m.name == 'client-list' and m.t == '#':
                        group.append(x)
                        continue
                    if group:
                        seq += sorted(group)
                        group = []
                    (late if m.mid in loose else seq).append(x)
                res.append((seq + sorted(group), sorted(late)))
            out.append((tag, res))
        collect('greeting', (), [])
        for step in case['steps']:
            groups = [(step[1] % len(cls), step[2])] if step[0] == 'solo' else [(i, g) for i, g in enumerate(step[1]) if i < len(cls)]
            loose, wait = set(), {}
            for i, g in groups:
                data = b''
                for kind, n, text in g:
                    count += 1
                    ctx.tag(kind)
                    w, mid = wire(i, kind, n, text, str(count))
                    data += w
                    if mid is not None:
                        wait.setdefault(i, []).append(mid)
                        if kind in ('conc', 'later'):
                            loose.add(mid)
                cls[i].send(data)
            for i, mids in wait.items():
                r = cls[i].until(mids)
                check(r, 'request-unanswered', 'mode %s: client %d got no reply to requests %r of step %r' % (
                    mode, i, [x for x in mids if x not in cls[i].done], step))
            collect(step, loose, [i for i, _ in groups])
        if case['end'] == 'halt':
            check(cls[0].ask('halt'), 'request-unanswered', 'mode %s: no reply to ?halt' % mode)
        if case['end'] == 'close':
            for c in cls:
                c.close()
        else:
            if case['end'] == 'stop':
                host.stop()
            for i, c in enumerate(cls):
                check(c.drain(), 'connection-survives-stop', 'mode %s: client %d is still connected after %s' % (mode, i, case['end']))
                check(not c.buf, 'torn-message', repr(c.buf))
            out.append(('end', [[norm(m, names) for m in c.log[marks[i]:]] for i, c in enumerate(cls)]))
        if case['end'] != 'stop':
            host.stop(call=case['end'] != 'halt')
        for c in cls:
            c.close()
        if case['again']:
            ctx.tag('restart')
            host.start()
            c = Cl(host.port)
            check(c.ask('echo again'), 'request-unanswered', 'mode %s: no reply after a restart' % mode)
            out.append(('again', [norm(m, names) for m in c.log]))
            c.close()
            host.stop()
        return out
    finally:
        host.close()


def diff(case, ctx):
    from kv.core import check
    from kv.sched import Fuzz
    ref = play(case, 'loop-plain', ctx)
    with Fuzz(case['seed'], case['fuzz'], ['server', 'sampling', 'core', 'ioloop_manager']) as fz:
        got = play(case, case['mode'], ctx)
    if fz.naps:
        ctx.tag('fuzzed')
    ctx.tag(case['mode'], case['end'])
    for (tag, a), (_, b) in zip(ref, got):
        check(a == b, 'answers-differ', lambda: 'step %r:\n  on the loop:      %r\n  as %s: %r' % (tag, a, case['mode'], b))
    kinds = [k for s in case['steps'] for k in ([x[0] for x in s[2]] if s[0] == 'solo' else [x[0] for g in s[1] for x in g])]
    ctx.nt(case['clients'] > 1 and any(k in PUB for k in kinds) and
           any(k in ('coro', 'conc', 'later', 'fail', 'crash', 'none', 'bad') for k in kinds) and len(kinds) > len(case['steps']))


def storm(case, ctx):
    from kv.core import check
    from kv.sched import Fuzz
    import threading
    import time
    from katcp import Message, Sensor
    napps = len(case['apps'])
    fz = Fuzz(case['seed'], case['fuzz'], ['server', 'sampling', 'core', 'ioloop_manager'])
    if case['seed'] % 2:
        with fz:                 # the threads of the device are delayed too
            fz.left = 10 ** 9
            host = Host(case['mode'])
        fz.left = 300
    else:
        host = Host(case['mode'])
    dev = host.dev
    sessions = []
    probs = []
    try:
        first = []
        for i in range(len(case['clients'])):
            c = Cl(host.port)
            check(c.ask('register %d' % i), 'request-unanswered', 'register')
            first.append(c)
        go = threading.Event()
        halted = threading.Event()
        ticks = [0] * napps
        vals = [0] * napps
        directs = {}

        def app(t):
            go.wait()
            for r in range(case['rounds']):
                for op in case['apps'][t]:
                    if op == 'mass':
                        dev.mass_inform(Message.inform('tick', t, ticks[t]))
                        ticks[t] += 1
                    elif op == 'set':
                        vals[t] += 1
                        dev.put(t, vals[t])
                    elif op == 'log':
                        dev.log.error('from %d' % t)
                    elif op == 'addrm':
                        s = Sensor.integer('y%d' % t, 'd', 'u')
                        dev.add_sensor(s)
                        try:
                            dev.remove_sensor(s)
                        except (AttributeError, RuntimeError):
                            if not halted.is_set():
                                raise
                    elif op == 'direct':
                        i = r % len(first)
                        k = directs.get((t, i), 0)
                        directs[t, i] = k + 1
                        dev.registered[str(i).encode()].inform(Message.inform('direct', t, k))
                    else:
                        time.sleep(0.001)

        def client(i):
            c = first[i]
            ses = {'c': c, 'i': i, 'first': True, 'subs': [], 'whole': False}
            sessions.append(ses)
            go.wait()
            open_ = {}

            def need(mid, what):
                if mid:
                    return True
                if not c.eof and not halted.is_set():
                    probs.append(('request-unanswered', 'client %d: no reply to ?%s' % (i, what)))
                return False
            for op, n in case['clients'][i]:
                n %= napps
                if op == 'req':
                    mids = []
                    data = b''
                    for k in range(4):
                        c.n += 1
                        mids.append('7%06d' % c.n)
                        data += b'?echo[%s] a%d\n' % (mids[-1].encode(), k)
                    if not c.send(data) or not c.until(mids):
                        if not need(None, 'echo'):
                            break
                elif op == 'sub':
                    if n in open_:
                        continue
                    ep = {'n': n, 'from': len(c.log), 'to': None, 'reply': None}
                    if not need(c.ask('sensor-sampling s%d %s' % (n, 'auto' if len(ses['subs']) % 2 else 'event')), 'sensor-sampling'):
                        break
                    ep['reply'] = len(c.log)
                    open_[n] = ep
                    ses['subs'].append(ep)
                elif op == 'unsub':
                    if n not in open_:
                        continue
                    mid = c.ask('sensor-sampling s%d none' % n)
                    if not need(mid, 'sensor-sampling'):
                        break
                    open_.pop(n)['to'] = [j for j, m in enumerate(c.log) if m.t == '!' and m.mid == mid][0]
                elif op in ('clist', 'slist', 'svalue'):
                    name = {'clist': 'client-list', 'slist': 'sensor-list', 'svalue': 'sensor-value'}[op]
                    mid = c.ask(name)
                    if not need(mid, name):
                        break
                    rep = [m for m in c.log if m.t == '!' and m.mid == mid][0]
                    inf = [m for m in c.log if m.t == '#' and m.mid == mid]
                    if rep.args[0] != b'ok' or int(rep.args[1]) != len(inf):
                        probs.append(('listing-inconsistent', '?%s with %d informs was answered %r' % (name, len(inf), rep.args)))
                elif op == 'drop':
                    if not ses['first'] or i % 2:
                        c.close()
                        try:
                            c = Cl(host.port)
                        except OSError:
                            if not halted.is_set():
                                probs.append(('connection-refused', 'client %d' % i))
                            ses = None
                            break
                        ses = {'c': c, 'i': i, 'first': False, 'subs': [], 'whole': False}
                        sessions.append(ses)
                        open_ = {}
                elif op == 'nap':
                    time.sleep(0.002)
            if ses is not None:
                ses['whole'] = True       # still open

        errs = []

        def guard(fn, arg):
            def run():
                try:
                    fn(arg)
                except Exception as e:
                    import traceback
                    errs.append((fn.__name__, e, traceback.format_exc()))
            return run
        with fz:
            ts = [threading.Thread(target=guard(app, t)) for t in range(napps)] + [
                threading.Thread(target=guard(client, i)) for i in range(len(first))]
            for t in ts:
                t.daemon = t.kv_client = True
                t.start()
            go.set()
            if case['end'] == 'midway':
                time.sleep(0.001 * (case['seed'] % 12))
                halted.set()
                host.stop()
            end = time.time() + HANG * 2
            for t in ts:
                t.join(max(0.01, end - time.time()))
            check(not any(t.is_alive() for t in ts), 'sender-hangs', 'a thread sending informs, setting sensors or using a client is still running (%s)' % case['end'])
        for name, e, tb in errs:
            check(name != 'app', 'sender-raised', 'in an application thread: %s' % tb)
            raise e
        for sig, msg in probs:
            check(False, sig, msg)
        calm = case['end'] == 'calm'
        if calm:
            for ses in sessions:
                if ses['whole']:
                    check(ses['c'].ask('watchdog'), 'request-unanswered', 'after the storm')
                    check(ses['c'].ask('watchdog'), 'request-unanswered', 'after the storm')
            host.stop()
        active = 0
        for ses in sessions:
            c = ses['c']
            if ses['whole']:
                check(c.drain(), 'connection-survives-stop')
                check(not c.buf, 'torn-message', repr(c.buf))
                if calm:
                    check(c.log and c.log[-1].name == 'disconnect', 'no-disconnect', lambda: repr(c.log[-1:]))
            mids = [m.mid for m in c.log if m.t == '!']
            check(len(mids) == len(set(mids)), 'reply-twice', lambda: repr(mids))
            for t in range(napps):
                seq = [int(m.args[1]) for m in c.log if m.t == '#' and m.name == 'tick' and m.args[0] == b'%d' % t]
                active += bool(seq)
                check(seq == list(range(seq[0], seq[0] + len(seq))) if seq else True, 'informs-lost-or-reordered',
                      lambda: 'thread %d sent 0..%d in order, client %d got %r' % (t, ticks[t] - 1, ses['i'], seq))
                if ses['first']:
                    check(not seq or seq[0] == 0, 'informs-lost-or-reordered', lambda: 'first received is %d' % seq[0])
                if ses['whole'] and calm:
                    check(not ticks[t] or not ses['first'] or len(seq) == ticks[t], 'informs-lost-or-reordered',
                          lambda: 'thread %d sent %d, client %d got %r' % (t, ticks[t], ses['i'], seq))
                dseq = [int(m.args[1]) for m in c.log if m.t == '#' and m.name == 'direct' and m.args[0] == b'%d' % t]
                check(dseq == list(range(len(dseq))), 'informs-lost-or-reordered', lambda: 'to one client: %r' % dseq)
                check(ses['first'] or not dseq, 'inform-misdelivered', lambda: repr(dseq))
                if ses['first'] and ses['whole'] and calm:
                    check(len(dseq) == directs.get((t, ses['i']), 0), 'informs-lost-or-reordered', lambda: '%r of %r' % (dseq, directs))
            stat = [(j, int(m.args[2][1:]), int(m.args[4])) for j, m in enumerate(c.log) if m.t == '#' and m.name == 'sensor-status']
            for ep in ses['subs']:
                to = ep['to'] if ep['to'] is not None else len(c.log)
                seq = [v for j, s, v in stat if s == ep['n'] and ep['from'] <= j < to]
                where = lambda: 'client %d sampling s%d: got %r (set to 1..%d)' % (ses['i'], ep['n'], seq, vals[ep['n']])
                check(seq, 'no-initial-update', where)
                rest = seq[1:]
                check(all(y == x + 1 for x, y in zip(rest, rest[1:])) and (not rest or seq[0] >= rest[0] - 1), 'updates-lost-or-reordered', where)
                if calm and ses['whole'] and ep['to'] is None:
                    check(seq[-1] == vals[ep['n']], 'last-update-lost', where)
                if ep['to'] is not None:
                    nxt = [e['from'] for e in ses['subs'] if e['n'] == ep['n'] and e['from'] > ep['from']]
                    late = [v for j, s, v in stat if s == ep['n'] and j > ep['to'] and (not nxt or j < nxt[0])]
                    check(not late, 'update-after-cancel', lambda: 'client %d: %r after sampling of s%d was set to none' % (ses['i'], late, ep['n']))
        ctx.tag(case['mode'], 'storm-' + case['end'])
        if fz.naps:
            ctx.tag('fuzzed')
        ops = [op for a in case['apps'] for op in a]
        ctx.nt(napps > 1 and len(first) > 1 and active > 0 and ('set' in ops and any(s['subs'] for s in sessions) or any(not s['first'] for s in sessions)))
        if case['again']:
            host.start()
            c = Cl(host.port)
            check(c.ask('echo again'), 'request-unanswered', 'no reply after a restart')
            c.close()
            host.stop()
    finally:
        fz.left = 0
        for ses in sessions:
            ses['c'].close()
        host.close()


def gate(case, ctx):
    """Particular schedules, arranged: the sensor or the connection calls back at the moment that matters."""
    from kv.core import check
    import threading
    from katcp import Sensor
    where = case['where']
    ctx.tag('gate-' + where)

    class Gated(Sensor):
        """Lets another thread set it in the middle of a read() of the loop."""
        hook = None

        def read(self):
            r = super(Gated, self).read()
            h, self.hook = self.hook, None
            if h:
                h()
            return r

        def detach(self, observer):
            h, self.on_detach = getattr(self, 'on_detach', None), None
            if h:
                h()
            super(Gated, self).detach(observer)

    host = Host(case['mode'])
    dev = host.dev
    try:
        c = Cl(host.port)
        check(c.ask('watchdog'), 'request-unanswered')
        s = Gated(Sensor.INTEGER, 'g', 'd', 'u')
        s.set(1.0, Sensor.NOMINAL, 0)
        dev.add_sensor(s)

        def setter():
            for v in range(1, case['sets'] + 1):
                s.set(1.0 + v, Sensor.NOMINAL, v)

        def in_thread():
            t = threading.Thread(target=setter)
            t.start()
            t.join(HANG)
        if where == 'attach':
            s.hook = in_thread
            check(c.ask('sensor-sampling g %s' % case['strategy']), 'request-unanswered')
            for _ in range(3):
                check(c.ask('watchdog'), 'request-unanswered')
            got = [int(m.args[4]) for m in c.log if m.name == 'sensor-status']
            check(got and got[-1] == case['sets'], 'last-update-lost', 'sensor set to 1..%d by a thread while its sampling began, the client got %r' % (case['sets'], got))
            ctx.nt()
        elif where == 'cancel':
            check(c.ask('sensor-sampling g %s' % case['strategy']), 'request-unanswered')
            check(c.ask('watchdog'), 'request-unanswered')
            s.on_detach = in_thread
            mid = c.ask('sensor-sampling g none')
            check(mid, 'request-unanswered')
            for _ in range(3):
                check(c.ask('watchdog'), 'request-unanswered')
            at = [j for j, m in enumerate(c.log) if m.t == '!' and m.mid == mid][0]
            late = [int(m.args[4]) for m in c.log[at:] if m.name == 'sensor-status']
            check(not late, 'update-after-cancel', 'sensor set by a thread while its sampling was cancelled: updates %r after the reply' % late)
            ctx.nt()
        elif where == 'clients':
            # a client comes while the list is being sent
            more = []
            conns = [c]
            for i in range(2):
                conns.append(Cl(host.port))
                check(conns[-1].ask('watchdog'), 'request-unanswered')
            import katcp.server
            conncls = katcp.server.ClientConnection
            orig = conncls.address
            ident = []
            got = threading.Event()
            dev.ioloop.add_callback(lambda: (ident.append(threading.current_thread()), got.set()))
            got.wait(HANG)
            main = [True]

            def slow(conn):
                if main and threading.current_thread() not in ident:
                    main.pop()
                    n = Cl(host.port)
                    more.append(n)
                    n.take(HANG)
                return orig.fget(conn)
            conncls.address = property(slow)
            try:
                mid = c.ask('client-list')
            finally:
                conncls.address = orig
            check(mid, 'request-unanswered')
            rep = [m for m in c.log if m.t == '!' and m.mid == mid][0]
            inf = [m for m in c.log if m.t == '#' and m.mid == mid]
            check(rep.args[0] == b'ok' and int(rep.args[1]) == len(inf), 'listing-inconsistent',
                  'a client connected during ?client-list: %d informs, answered %r' % (len(inf), rep.args[:2]))
            ctx.nt(bool(more))
            for x in conns[1:] + more:
                x.close()
        elif where == 'many':
            cls = []
            for _ in range(320):
                cls.append(Cl(host.port))
                cls[-1].take(HANG)       # the greeting: the backlog of the server is short
            c.send(b'?nap[1] 60\n')
            for x in cls:
                x.send(b'?echo[1] x\n')
            for x in [c] + cls:
                check(x.until(['1']), 'request-unanswered', 'one request on each of 320 connections, all at once: one is not answered')
            for x in cls:
                x.close()
            ctx.nt()
        c.close()
        host.stop()
    finally:
        host.close()


def run(case, ctx):
    from kv.core import Violation
    try:
        {'diff': diff, 'storm': storm, 'gate': gate}[case['k']](case, ctx)
    except Violation as v:
        if sure and v.sig == 'request-unanswered':
            raise Violation(v.sig, '%s %s' % (TRUST_MARK, v.msg))
        raise
