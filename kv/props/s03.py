"""S03: connection life cycle - greeting, broadcast, disconnect and stop are clean."""
ID = 'S03'
CASES = {'quick': 1500, 'thorough': 40000}
RULE = ('a case counts when a client was lost (closed, cut off for an over-long line or for not reading) while another one stayed '
        'connected and received a broadcast afterwards')
MAX = 8192


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    c = st.integers(0, 3)
    size = st.one_of(st.integers(0, 40), st.sampled_from([100, 1000, 3000]))
    op = gens.weighted(
        (4, st.tuples(st.just('open'), c)),
        (2, st.tuples(st.just('close'), c)),
        (1, st.tuples(st.just('halfclose'), c)),
        (4, st.tuples(st.just('cast'), size, gens.bytestr(4))),
        (2, st.tuples(st.just('one'), c, size)),
        (3, st.tuples(st.just('req'), c, st.booleans())),
        (2, st.tuples(st.just('partial'), c, st.integers(1, 60))),
        (1, st.tuples(st.just('overlong'), c, st.booleans())),
        (1, st.tuples(st.just('long'), c, st.integers(1, MAX // 2))),
        (2, st.tuples(st.just('pause'), c)),
        (1, st.tuples(st.just('backlog'), c)),
        (1, st.tuples(st.just('resume'), c)),
        (1, st.tuples(st.just('flood'), st.sampled_from([False, True, 'pairs', 'pairs']))),
        (1, st.tuples(st.just('list'), c)),
        (1, st.tuples(st.just('stop'), st.booleans(), st.sampled_from([None, None, 0, 1, 2, 3]), st.booleans(),
                      st.sampled_from([None, 0, 1, 2, 3]))),
        (1, st.tuples(st.just('restart'), c, st.booleans())),
        (1, st.tuples(st.just('shout'), c, size)),
        (1, st.tuples(st.just('kick'), c)),
        (1, st.tuples(st.just('openbad'), c)),
        (1, st.tuples(st.just('tick'), st.integers(1, 3), st.booleans())),
        (2, st.tuples(st.just('settle'))))
    return st.fixed_dictionaries({'v4': st.booleans(), 'mode': st.sampled_from(['async', 'loop']), 'ops': gens.oplist(op, 3, 25),
                                  'init': st.integers(0, 3), 'slow': st.sampled_from([False, False, True]), 'small': st.sampled_from([True, True, True, False])})


def run(case, ctx):
    import queue
    import katcp
    import tornado.gen
    from katcp import Message, ProtocolFlags
    from katcp.server import KATCPServer
    from kv import harness as H
    from kv.core import b, check, equal
    from kv.vnet import NET, Env
    base = katcp.AsyncDeviceServer if case['mode'] == 'async' else katcp.DeviceServer
    major = 4 if case['v4'] else 5
    gone, arrived = [], []

    def on_client_disconnect(self, conn, msg, valid):
        gone.append(conn)
        return base.on_client_disconnect(self, conn, msg, valid)

    state = {'bad': False}

    @tornado.gen.coroutine
    def on_client_connect(self, conn):
        arrived.append(conn)
        yield tornado.gen.maybe_future(base.on_client_connect(self, conn))
        if state['bad']:
            raise RuntimeError('not you')
        if case['slow']:
            yield tornado.gen.sleep(0.5)

    def request_shout(self, req, msg):
        """Broadcast."""
        req.mass_inform(Message.inform('note', *msg.arguments))
        return req.make_reply('ok')

    def request_echo(self, req, msg):
        """Echo."""
        return req.make_reply('ok', *msg.arguments)
    Dev = type(base)('Dev', (base,), {'PROTOCOL_INFO': ProtocolFlags(major, 0, [b'M']), 'setup_sensors': lambda self: None,
                                      'VERSION_INFO': ('dev', 3, 1), 'BUILD_INFO': ('dev', 3, 1, 'rc2'),
                                      'on_client_disconnect': on_client_disconnect, 'request_echo': request_echo, 'request_shout': request_shout,
                                      'on_client_connect': on_client_connect})
    greeting = [('#', 'version', None, (b'dev-3.1',)), ('#', 'build-state', None, (b'dev-3.1rc2',))] if major == 4 else [
        ('#', 'version-connect', None, (b'katcp-protocol', b'5.0-M')), ('#', 'version-connect', None, None),
        ('#', 'version-connect', None, (b'katcp-device', b'dev-3.1', b'dev-3.1rc2'))]

    class C(object):
        """Model of one connection: what it must still receive."""
        def __init__(self, raw):
            self.raw, self.want, self.paused, self.unread, self.part, self.dying = raw, [], False, 0, b'', None
            self.conn = None

        def expect(self, key, size=0):
            self.want.append(key)
            if self.paused:
                self.unread += size + 60
    old = KATCPServer.MAX_MSG_SIZE, KATCPServer.MAX_WRITE_BUFFER_SIZE
    KATCPServer.MAX_MSG_SIZE, KATCPServer.MAX_WRITE_BUFFER_SIZE = MAX, 2 * MAX
    seq = [0]
    lost = served = False
    try:
        with Env() as env:
            NET.sndbuf = 4096 if case['small'] else None
            dev = Dev('127.0.0.1', 0)
            if case['mode'] != 'async':
                dev.set_concurrency_options(thread_safe=True, handler_thread=False)
            port = H.start_device(env, dev)
            cs = [None] * 4

            def leftovers():
                # nothing is kept for clients that are gone (where the device keeps such things is its own business)
                for o in (dev, getattr(dev, '_server', None)):
                    for a in ('_client_conns', '_strategies', '_connections'):
                        check(not getattr(o, a, None), 'clients-left', lambda: '%s %r' % (a, getattr(o, a)))
                equal(set(arrived), set(gone), 'disconnect-not-notified')

            def live():
                return [c for c in cs if c is not None]

            def quiet(*extra):
                """Until nothing moves; those who read do so all the time."""
                n = -1
                while n:
                    env.settle()
                    n = 0
                    for c in live() + list(extra):
                        if not c.paused and not c.raw.closed:
                            k = len(c.raw.raw)
                            c.raw.pump()
                            n += len(c.raw.raw) - k

            def read(c, maybe_late=False):
                """Everything received is what was expected, in order."""
                got = c.raw.msgs()
                for m in got:
                    if maybe_late and c.want and m.key() == ('#', 'note', None, (b'late',)):
                        continue
                    check(c.want, 'unexpected-message', lambda: '%r' % (m.key(),))
                    w = c.want.pop(0)
                    if w[3] is None:
                        check((m.t, m.name, m.mid) == w[:3], 'message-order', lambda: '%r want %r' % (m, w))
                    else:
                        check(m.key() == w, 'message-order', lambda: '%r want %r' % (m.key(), w))

            def settle():
                quiet()
                for i, c in enumerate(cs):
                    if c is None or c.paused:
                        continue
                    read(c)
                    if c.dying:
                        c.raw.pump()
                        check(c.raw.eof, 'not-cut-off', c.dying)
                        drop(i)
                    else:
                        check(not c.raw.eof, 'connection-lost')
                        check(not c.want, 'message-missing', lambda: '%r' % (c.want,))
                        check(not c.raw.buf, 'partial-line', lambda: '%r' % c.raw.buf)

            def settle_end(c):
                """A connection that ends in good order."""
                quiet(c)
                read(c)
                c.raw.pump()
                check(not c.want, 'message-missing', lambda: '%r' % (c.want,))
                check(c.raw.eof and not c.raw.buf, 'connection-open')
                c.raw.close()
                quiet()

            def conn_of(c):
                addr = '127.0.0.1:%d' % c.raw.sock.getsockname()[1]
                conn = [x for x in arrived if x.address == addr and x not in gone]
                equal(len(conn), 1, 'client-not-registered-once')
                return conn[0]

            def drop(i):
                cs[i].raw.close()
                cs[i] = None

            def members():
                """The device's own list of clients is the list of connected ones."""
                quiet()
                c = [x for x in live() if not x.paused and not x.dying]
                if not c:
                    return
                c = c[0]
                settle()
                if c.part:
                    c.raw.send(b' x\n')
                    c.expect(('!', 'echo', None, None))
                    c.part = b''
                    settle()
                c.raw.send(b'?client-list\n')
                quiet()
                got = c.raw.msgs()
                want = sorted(('127.0.0.1:%d' % x.raw.sock.getsockname()[1]).encode() for x in live() if not x.dying)
                maybe = sorted(('127.0.0.1:%d' % x.raw.sock.getsockname()[1]).encode() for x in live() if x.dying)
                check(got and got[-1].key() == ('!', 'client-list', None, (b'ok', b'%d' % (len(got) - 1))), 'client-list-reply', got)
                listed = sorted(m.args[0] for m in got[:-1])
                check([x for x in listed if x not in maybe] == want and len(listed) == len(set(listed)), 'client-list',
                      lambda: '%r want %r' % (listed, want))

            def connect(i):
                c = cs[i] = C(H.Raw(port))
                quiet()
                c.want = list(greeting)
                settle()
                if case['slow']:
                    # connected, though the device is not ready for requests yet
                    cast(3, b'early')
                    settle()
                    env.advance(1)
                    settle()
                c.conn = True

            def backlog(c):
                c.paused = True
                for _ in range(3):
                    cast(2500, b'')

            def cast(size, arg):
                seq[0] += 1
                args = (b'%d' % seq[0], arg, b'x' * size)
                if any(x.paused and x.unread + size + 60 > MAX for x in live()):
                    return False
                quiet()        # who is connected is only defined once earlier closes were noticed
                dev.mass_inform(Message.inform('note', *args))
                for x in live():
                    if not x.dying:
                        x.expect(('#', 'note', None, args), size)
                return True
            for i in range(case['init']):
                connect(i)
            for op in case['ops']:
                k = op[0]
                mine = ('close', 'halfclose', 'one', 'req', 'partial', 'overlong', 'long', 'pause', 'resume', 'shout', 'kick', 'restart',
                        'backlog')
                c = cs[op[1]] if k in mine or k == 'openbad' else None
                if c is None and k in mine:
                    continue
                if c is not None and c.dying and k != 'resume':
                    continue
                if k == 'open':
                    if cs[op[1]] is None:
                        settle()
                        connect(op[1])
                elif k in ('close', 'halfclose'):
                    if k == 'close':
                        c.raw.close()
                        cs[op[1]] = None
                    else:
                        # the server treats end of input as a disconnect
                        settle()
                        c.raw.half_close()
                        quiet()
                        if not c.paused:
                            read(c)
                            c.raw.pump()
                            check(c.raw.eof, 'half-closed-connection-not-closed')
                        c.raw.close()
                        cs[op[1]] = None
                    lost = lost or bool(live())
                elif k == 'cast':
                    if cast(op[1], b(op[2])):
                        served = served or lost and any(not x.dying for x in live())
                elif k == 'shout':
                    if c.part or any(x.paused and x.unread + op[2] + 100 > MAX for x in live()):
                        continue
                    quiet()
                    args = (b'%d' % (seq[0] + 1), b'!' * op[2])
                    seq[0] += 1
                    c.raw.send(H.fmt('?', 'shout', seq[0], args) + b'\n')
                    for x in live():
                        if not x.dying:
                            x.expect(('#', 'note', None, args), op[2])
                    c.expect(('!', 'shout', '%d' % seq[0], (b'ok',)), 20)
                    quiet()
                    ctx.tag('shout')
                elif k == 'kick':
                    settle()
                    if c.paused:
                        continue
                    conn_of(c).disconnect('out you go')
                    c.expect(('#', 'disconnect', None, (b'out you go',)))
                    settle_end(c)
                    cs[op[1]] = None
                    lost = lost or bool(live())
                    ctx.tag('kicked')
                elif k == 'openbad':
                    settle()
                    if c is not None or case['slow']:
                        continue
                    state['bad'] = True
                    c = C(H.Raw(port))
                    quiet(c)
                    state['bad'] = False
                    c.want = list(greeting) + [('#', 'log', None, None)]
                    settle_end(c)
                    ctx.tag('refused')
                elif k == 'restart':
                    settle()
                    if c.part or c.paused:
                        continue
                    q = queue.Queue() if op[2] else None
                    dev.set_restart_queue(q)
                    c.raw.send(b'?restart[5]\n')
                    quiet()
                    got = c.raw.msgs()
                    check(len(got) == 1 and got[0].key()[:3] == ('!', 'restart', '5'), 'restart-reply', got)
                    if q is None:
                        check(got[0].args[0] == b'fail' and len(got[0].args) == 2, 'restart-reply', got)
                    else:
                        equal(got[0].args, [b'ok'], 'restart-reply')
                        check(q.qsize() == 1 and q.get() is dev and dev.running(), 'restart-queue')
                elif k == 'one':
                    quiet()
                    conn = conn_of(c)
                    if c.paused and c.unread + op[2] + 60 > MAX:
                        continue
                    seq[0] += 1
                    args = (b'%d' % seq[0], b'y' * op[2])
                    conn.inform(Message.inform('only', *args))
                    c.expect(('#', 'only', None, args), op[2])
                elif k == 'req':
                    if c.part:
                        settle()
                        c.raw.send(b' x\n')
                        c.part = b''
                        c.expect(('!', 'echo', None, None), 100)
                    else:
                        seq[0] += 1
                        quiet()
                        c.raw.send(b'?echo[%d] a\n' % seq[0] if op[2] else b'?no-such[%d]\n' % seq[0])
                        c.expect(('!', 'echo', '%d' % seq[0], (b'ok', b'a')) if op[2] else ('!', 'no-such', '%d' % seq[0], None), 20)
                    quiet()
                elif k == 'partial':
                    if not c.part:
                        c.part = (b'?echo ' + b'p' * 60)[:max(6, op[2])]
                        c.raw.send(c.part)
                elif k == 'long':
                    if not c.part and not (c.paused and c.unread + op[2] + 60 > MAX):
                        quiet()
                        c.raw.send(b'?echo ' + b'q' * op[2] + b'\n')
                        c.expect(('!', 'echo', None, (b'ok', b'q' * op[2])), op[2])
                        quiet()
                elif k == 'overlong':
                    quiet()
                    for _ in range(6):
                        c.raw.send(b'z' * (MAX // 2))
                        if op[2]:
                            quiet()
                    c.dying = 'overlong'
                    lost = True
                    ctx.tag('overlong')
                elif k == 'pause':
                    settle()
                    c.paused = True
                elif k == 'backlog':
                    settle()
                    backlog(c)
                elif k == 'resume':
                    c.paused = False
                    c.unread = 0
                    if c.dying:
                        settle_dying(env, c, read)
                        drop(op[1])
                    else:
                        settle()
                elif k == 'flood':
                    settle()
                    if len(live()) > 1 and not any(x.paused for x in live()):
                        live()[0].paused = True     # the first to connect stops reading
                    slow = [x for x in live() if x.paused and not x.dying]
                    if not slow:
                        continue
                    for j in range(30 if case['small'] else 120):
                        for rep in range(2 if op[1] == 'pairs' else 1):
                            seq[0] += 1
                            args = (b'%d' % seq[0], b'f' * 6000)
                            dev.mass_inform(Message.inform('note', *args))
                            for x in live():
                                if not x.dying and not x.paused:
                                    x.expect(('#', 'note', None, args))
                        if op[1] is True:
                            settle()
                        else:
                            quiet()
                            for x in live():
                                if not x.paused and not x.dying:
                                    read(x)
                    for x in slow:
                        x.dying = 'not reading'
                    lost = lost or len(live()) > len(slow)
                    settle()
                    ctx.tag('flood')
                    members()
                elif k == 'list':
                    members()
                elif k == 'tick':
                    for _ in range(op[1]):
                        env.tick(op[2])
                elif k == 'settle':
                    settle()
                elif k == 'stop':
                    settle()
                    if op[4] is not None and cs[op[4]] is not None and not (cs[op[4]].paused or cs[op[4]].dying):
                        backlog(cs[op[4]])
                    asker = cs[op[2]] if op[2] is not None else None
                    if asker is not None and not (asker.part or asker.paused or asker.dying):
                        asker.raw.send(b'?halt[77]\n')
                        asker.expect(('!', 'halt', '77', (b'ok',)))
                        ctx.tag('halt')
                    else:
                        dev.stop()
                    if op[3]:
                        # a broadcast after the farewell reaches nobody
                        env.tick()
                        env.loop.add_callback(lambda: dev.mass_inform(Message.inform('note', 'late')) and None)
                        env.tick()
                        env.loop.add_callback(lambda: [x.inform(Message.inform('note', 'late')) for x in arrived if x not in gone] and None)
                    if op[1]:
                        # those that catch up at once get all that was due to them
                        for c in live():
                            if c.paused and c.unread and not c.dying:
                                ctx.tag('late-reader')
                            c.paused = c.paused and bool(c.dying)
                        quiet()
                    # slow clients may use up the time allowed for saying goodbye
                    env.advance(10)
                    check(not dev.running(), 'stop-incomplete')
                    ctx.tag('farewell-drained' if op[1] else 'farewell')
                    for i, c in enumerate(cs):
                        if c is None:
                            continue
                        if c.dying:
                            settle_dying(env, c, read)
                        elif not c.paused or op[1]:
                            c.want.append(('#', 'disconnect', None, None))
                            read(c, maybe_late=op[3])
                            c.raw.pump()
                            check(not c.want, 'disconnect-inform-missing', lambda: '%r' % (c.want,))
                            check(c.raw.eof and not c.raw.buf, 'connection-open-after-stop')
                        else:
                            c.want.append(('#', 'disconnect', None, None))
                            for m in c.raw.msgs():
                                if op[3] and c.want and m.key() == ('#', 'note', None, (b'late',)):
                                    continue
                                check(c.want and m.key()[:2] == c.want.pop(0)[:2], 'message-order', m)
                            c.raw.pump()
                            check(c.raw.eof, 'connection-open-after-stop')
                        drop(i)
                    try:
                        H.Raw(port)
                        check(False, 'listening-after-stop')
                    except ConnectionRefusedError:
                        pass
                    leftovers()
                    dev.start()
                    quiet()
                    check(dev.running(), 'restart')
                    equal(dev.bind_address[1], port, 'restart-port')
                    ctx.tag('stopped')
            settle()
            members()
            # everybody leaves: one disconnect notification per connection, nothing left behind
            for c in live():
                c.raw.close()
            env.advance(10)
            equal(len(gone), len(set(gone)), 'disconnect-notified-twice')
            leftovers()
            H.no_loop_errors(env)
    finally:
        KATCPServer.MAX_MSG_SIZE, KATCPServer.MAX_WRITE_BUFFER_SIZE = old
    ctx.nt(lost and served)
    ctx.tag(case['mode'])


def settle_dying(env, c, read):
    """A connection the server cut off: a prefix of what was due, then end of stream."""
    from kv.core import check
    env.settle()
    if c.dying == 'overlong':
        read(c)
    else:
        for m in c.raw.msgs():
            if c.want and m.key() == c.want[0][:3] + (c.want[0][3] or tuple(m.args),):
                c.want.pop(0)
            else:
                check(m.t == '#' and m.name in ('note', 'disconnect'), 'unexpected-message', m)
    c.raw.pump()
    check(c.raw.eof, 'not-cut-off', c.dying)
