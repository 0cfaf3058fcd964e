"""A02: the client tracks connection and protocol state, dispatches messages and reconnects."""
ID = 'A02'
CASES = {'quick': 5000, 'thorough': 150000}
HISTORY = ('ops',)
RULE = ('a case counts when the connection was lost at least once and re-established, protocol information was received, and a line '
        'cut into segments or a malformed line was followed by a message that was dispatched')

VERS = ['5.0-IM', '5.0-IM', '5.0-IM', '5.1-IMTB', '5.0-M', '5.0', '5.0-I', '4.0-M', '4.0-I', '6.2-IZ', '3.9', 'x', '', '5', '5.0x', '5.0-IT', '-5.0-I', '5.0\n-I']
GARBAGE = [b'', b' ', b'foo', b'!', b'?', b'#', b'!foo[x] ok', b'!foo \\q', b'\xff\xfe', b'!f\xff[1] ok', b'#foo[1', b'!1foo', b'#a\x00', b'#info a\x00b',
           b'?foo[0] a', b'%foo', b'#foo\\_', b'!foo[9999999999999] \xff', b'\x1b[0m']


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    msg = st.tuples(st.sampled_from(['?', '!', '#', '#']), st.sampled_from(['foo', 'foo-bar', 'other', 'boom', 'none', 'version-x', 'slow', 'slow-boom']),
                    st.one_of(st.none(), st.integers(1, 40)), st.lists(gens.bytestr(4), max_size=3))
    cut = st.lists(st.integers(0, 40), max_size=4)
    op = gens.weighted(
        (6, st.tuples(st.just('msg'), st.lists(msg, min_size=1, max_size=4), cut)),
        (3, st.tuples(st.just('wait'), st.sampled_from(['connected', 'protocol', 'running']), st.sampled_from([None, 0.25, 1.0, 3.0]))),
        (4, st.tuples(st.just('greet'), st.sampled_from(VERS))),
        (1, st.tuples(st.just('v4'), st.sampled_from(['version', 'build-state']))),
        (1, st.tuples(st.just('vc'), st.sampled_from([[], ['katcp-protocol'], ['katcp-library', 'a-1'], ['katcp-device', 'b-2', 'c'], ['katcp-device', 'b-2', 'c', 'd e', ''], ['Katcp-protocol', '4.0']]))),
        (1, st.tuples(st.just('burst'), st.integers(2, 40))),
        (3, st.tuples(st.just('garbage'), st.one_of(st.sampled_from(range(len(GARBAGE))), gens.bytestr(8)))),
        (4, st.tuples(st.just('req'), gens.weighted((4, st.none()), (1, st.just(True)), (1, st.just(False))))),
        (3, st.tuples(st.just('drop'), st.booleans(), st.integers(0, 2))),
        (2, st.tuples(st.just('down'))), (3, st.tuples(st.just('up'))),
        (4, st.tuples(st.just('advance'), st.sampled_from([0.25, 0.5, 1.0, 2.0, 5.0, 30.0]))),
        (2, st.tuples(st.just('disconnect'), st.integers(0, 2))),
        (1, st.tuples(st.just('stop'), st.integers(0, 6))), (2, st.tuples(st.just('start'), st.integers(0, 6))),
        (2, st.tuples(st.just('tick'), st.integers(1, 4))))
    return st.fixed_dictionaries({
        'cls': st.sampled_from(['device', 'async']),
        'preset': gens.weighted((4, st.none()), (1, st.sampled_from(['5.0-IM', '4.0-M', '5.0']))),
        'auto': gens.weighted((5, st.just(True)), (1, st.just(False))),
        'up': gens.weighted((4, st.just(True)), (1, st.just(False))),
        'busy': gens.weighted((3, st.just(0)), (1, st.just(0.02))),          # seconds a handler takes
        'notify': gens.weighted((5, st.none()), (1, st.integers(0, 3))),     # which notification raises
        'ops': gens.oplist(op, 3, 26)})


def ref_version(text):
    """(major, minor, flags), with (0, 0) for anything that is no version; None when the version does not support the flags."""
    import re
    t = text[:-1] if text.endswith('\n') else text
    m = re.match(r'^([0-9]+)\.([0-9]+)(?:-([^\n]*))?$', t)
    if not m or text.endswith('\n'):
        return (0, 0, frozenset())
    major, minor, fl = int(m.group(1)), int(m.group(2)), frozenset(m.group(3) or '')
    if 'I' in fl and major < 5 or ('T' in fl or 'B' in fl) and (major, minor) < (5, 1):
        return None
    return (major, minor, fl)


def run(case, ctx):
    import logging
    from tornado import gen
    from katcp import client as kc, Message, ProtocolFlags
    from kv import vnet
    from tornado.gen import TimeoutError
    from kv.core import check, equal, b
    from kv.harness import M, parse, fmt, accept, listen
    from kv.props.c02 import ref_parse
    logger = logging.getLogger('kv.a02')
    logger.disabled = True
    TYPES = {Message.REQUEST: '?', Message.REPLY: '!', Message.INFORM: '#'}
    with vnet.Env() as env:
        got, notes = [], []
        base = kc.DeviceClient if case['cls'] == 'device' else kc.AsyncClient

        def rec(how):
            def f(self, msg):
                """X."""
                got.append((how, TYPES[msg.mtype], msg.name, None if msg.mid is None else msg.mid.decode(), tuple(msg.arguments)))
                vnet.CLOCK.now += case['busy']
                if msg.name == 'boom':
                    raise ValueError('handler')
                if how == 'request_foo':
                    # (the reply goes out with the id of the request whatever the handler gave it)
                    return Message.reply('foo', 'ok', *msg.arguments, mid='77' if len(msg.arguments) == 2 else None)
                if how == 'request_foo_bar':
                    return Message.reply('foo-bar', 'fail', 'x')
            return f
        ns = {'__module__': __name__, '__doc__': 'C.'}
        for t in ('inform', 'reply', 'request'):
            for n in ('foo', 'foo_bar', 'boom', 'none'):
                if (t, n) != ('reply', 'none'):
                    ns['%s_%s' % (t, n)] = rec('%s_%s' % (t, n))
            ns['unhandled_' + t] = rec('unhandled_' + t)

        def notify_connected(self, c):
            notes.append(c)
            equal(self.is_connected(), c, 'notify-state')
            if case['notify'] is not None and len(notes) - 1 == case['notify']:
                raise RuntimeError('notify')
        ns['notify_connected'] = notify_connected

        def rec_slow(how):
            @gen.coroutine
            def f(self, msg):
                """X."""
                for _ in range(1 + len(msg.arguments)):
                    yield gen.moment
                got.append((how, TYPES[msg.mtype], msg.name, None if msg.mid is None else msg.mid.decode(), tuple(msg.arguments)))
                if msg.name == 'slow-boom':
                    raise ValueError('handler')
            return f
        for t in ('inform', 'reply', 'request'):
            for n in ('slow', 'slow_boom'):
                ns['%s_%s' % (t, n)] = rec_slow('%s_%s' % (t, n))
        Client = type(base)('Client', (base,), ns)

        S = {'l': None, 'port': None, 'conns': [], 'up': False}

        def up():
            if not S['up']:
                if S['port'] is None:
                    S['l'] = listen()
                    S['port'] = S['l'].getsockname()[1]
                else:
                    S['l'] = listen(S['port'])
                S['up'] = True

        def collect():
            while S['up']:
                c = accept(S['l'])
                if c is None:
                    return
                S['conns'].append(c)

        def down():
            if S['up']:
                collect()
                S['l'].close()
                S['up'] = False
        up()
        cl = Client('127.0.0.1', S['port'], logger=logger, auto_reconnect=case['auto'])
        if not case['up']:
            down()
        cl.set_ioloop(env.loop)
        preset = None
        if case['preset'] is not None:
            preset = ref_version(case['preset'])
            cl.preset_protocol_flags(ProtocolFlags.parse_version(case['preset'].encode()))
        st = {'running': True, 'flags': preset, 'disgust': False, 'lossless': True, 'stable': env.now, 'stops': 0}
        cl.start()
        hits = set()
        waits = []
        mids = set()

        def live():
            for c in S['conns']:
                c.pump()
            return [c for c in S['conns'] if not c.eof and not c.closed]

        def flags_now():
            f = cl.protocol_flags
            if f is None:
                return None
            return (f.major, f.minor, frozenset(bytes(x).decode('latin-1') if not isinstance(x, int) else chr(x) for x in f.flags))

        def loop_errors():
            errs = [e for e in env.loop.errors if not ('Failed to connect' in e and not case['auto'])]
            check(not errs, 'loop-error', lambda: errs[0][-1200:])

        def verify():
            """At a quiescent point."""
            loop_errors()
            collect()
            n = live()
            check(len(n) <= 1, 'two-connections', lambda: '%d open connections' % len(n))
            equal(cl.is_connected(), len(n) == 1, 'is-connected')
            check(all(x is (i % 2 == 0) for i, x in enumerate(notes)), 'notify-alternate', lambda: repr(notes))
            # (a connection completed by a client stopped meanwhile is closed unannounced)
            check(len(S['conns']) - st['stops'] <= sum(notes) <= len(S['conns']), 'notify-count', lambda: '%r for %d connections' % (notes, len(S['conns'])))
            equal(bool(notes) and notes[-1], cl.is_connected(), 'notify-last', lambda: repr(notes))
            if case['notify'] is not None and len(notes) == case['notify'] + 1:
                check(not notes[-1], 'kept-after-notify-failed', lambda: repr(notes))
            now = {'connected': cl.is_connected(), 'protocol': cl.protocol_flags is not None, 'running': cl.running()}
            for w in list(waits):
                w['orphan'] = w['orphan'] or not cl.running()
                if not w['orphan'] and (w['to'] is None or env.now < w['t0'] + w['to']):
                    w['may'] = w['may'] or now[w['what']]
                if w['f'].done():
                    waits.remove(w)
                    if w['f'].exception() is None:
                        check(w['orphan'] or w['may'] or now[w['what']] or w['what'] == 'connected' and len(notes) > w['notes'], 'wait-too-early', lambda: repr(w))
                        hits.add('waited')
                    else:
                        check(isinstance(w['f'].exception(), TimeoutError) and w['to'] is not None and env.now >= w['t0'] + w['to'] - 1e-9,
                              'wait-failed', lambda: '%r %r' % (w, w['f'].exception()))
                        check(not w['may'], 'wait-missed', lambda: repr(w))
                else:
                    check(not w['may'], 'wait-hangs', lambda: repr(w))
                    check(w['to'] is None or env.now <= w['t0'] + w['to'], 'wait-outlives-timeout', lambda: '%r at %r' % (w, env.now))
            if not st['running']:
                check(not cl.is_connected() and not cl.running(), 'not-stopped', lambda: 'connected %r running %r' % (cl.is_connected(), cl.running()))
            if st['disgust'] is False and cl.is_connected():
                equal(flags_now(), st['flags'], 'protocol-flags')
                f = st['flags']
                if f is not None:
                    want = 1.5 if f[0] >= 5 else 1500.0 if f[0] == 4 else 1500
                    equal(cl.convert_seconds(1.5), want, 'convert-seconds')
                    equal(cl.convert_seconds(0.0078125), 0.0078125 if f[0] >= 5 else 7.8125 if f[0] == 4 else 7, 'convert-seconds')
            if len(notes) >= 3 and notes[2]:
                hits.add('re')

        def settled():
            env.settle()
            if not st['lossless']:
                del got[:]           # messages in flight when the connection went away may or may not have been handled
                st['lossless'] = True
                for c in live():
                    c.msgs()
            check(not got, 'unexpected-dispatch', lambda: repr(got))
            verify()

        def current():
            settled()
            n = live()
            return n[0] if n else None

        def expect(c, lines):
            """The dispatches and answers for lines received on connection c."""
            out, back = [], []
            for ln in lines:
                p = ref_parse(ln)
                if p is None:
                    continue
                m = parse(ln)
                kind = {'?': 'request', '!': 'reply', '#': 'inform'}[m.t]
                if m.t == '#' and m.name in ('version-connect', 'version', 'build-state'):
                    f = None
                    if m.name != 'version-connect':
                        f = (4, 0, frozenset())
                    elif len(m.args) >= 2:
                        if m.args[0] == b'katcp-protocol':
                            f = ref_version(m.args[1].decode('latin-1'))
                        vers[m.args[0].decode()] = tuple(a.decode() for a in m.args[1:])
                    if f is not None:
                        hits.add('proto')
                        if st['flags'] is None:
                            st['flags'] = f
                        elif st['flags'] != f and preset is None:
                            st['disgust'] = True
                            return out, back
                    continue
                n = m.name.replace('-', '_')
                how = '%s_%s' % (kind, n) if n in ('foo', 'foo_bar', 'boom', 'none', 'slow', 'slow_boom') and (kind, n) != ('reply', 'none') else 'unhandled_' + kind
                out.append((how, m.t, m.name, m.mid, tuple(m.args)))
                if how == 'request_foo':
                    back.append(('!', 'foo', m.mid, (b'ok',) + tuple(m.args)))
                elif how == 'request_foo_bar':
                    back.append(('!', 'foo-bar', m.mid, (b'fail', b'x')))
            return out, back
        vers = {}

        def talk(lines, cut=()):
            c = current()
            if c is None:
                return
            data = b''.join(ln + b'\n' for ln in lines)
            want, back = expect(c, [x for ln in lines for x in ln.replace(b'\r', b'\n').split(b'\n') if x])
            pos = sorted(set(k % (len(data) + 1) for k in cut))
            for s, e in zip([0] + pos, pos + [len(data)]):
                c.send(data[s:e])
                env.settle()
            env.settle()
            equal(got, want, 'dispatch', lambda: repr(lines))
            del got[:]
            if want and (pos or 'bad' in hits):
                hits.add('seg')
            if st['disgust']:
                check(not cl.is_connected() and not live(), 'inconsistent-version-kept')
                return
            equal([m.key() for m in c.msgs()], back, 'client-reply')
            check(cl.is_connected(), 'connection-lost', lambda: repr(lines))
            verify()
            equal(dict(cl.versions), vers, 'versions')

        def lost():
            st['lossless'] = False
            st['stable'] = env.now

        for o in case['ops']:
            op = o[0]
            ctx.tag(op)
            if st['disgust']:
                break
            if op == 'wait':
                settled()
                if st['running'] and cl.running():
                    f = getattr(cl, 'until_' + o[1])(timeout=o[2])
                    f.add_done_callback(lambda f: f.exception())
                    waits.append({'what': o[1], 'to': o[2], 't0': env.now, 'f': f, 'may': False, 'orphan': False, 'notes': len(notes)})
                    settled()
                continue
            if op == 'tick':
                for _ in range(o[1]):
                    env.tick()
                st['lossless'] = False
                continue
            if op == 'msg':
                talk([fmt(t, name, mid, [b(a) for a in args]) for t, name, mid, args in o[1]
                      if case['cls'] == 'device' or t == '?' or 'slow' not in name], o[2])
            elif op == 'burst':
                c = current()
                if c is None:
                    continue
                ran = []
                poll = env.loop._impl.poll

                def poll2(t):
                    ran.append(env.now)
                    return poll(t)
                env.loop._impl.poll = poll2
                try:
                    talk([fmt('#', 'foo', None, [str(k)]) for k in range(o[1])])
                finally:
                    env.loop._impl.poll = poll
                # what a server sends at once does not keep the loop from everything else
                gap = max([y - x for x, y in zip(ran, ran[1:])] + [0])
                check(gap <= 0.2, 'loop-starved', lambda: '%r s without the loop doing anything else; %d messages at once' % (gap, o[1]))
                if case['busy']:
                    hits.add('busy')
            elif op == 'greet':
                talk([fmt('#', 'version-connect', None, ['katcp-protocol', o[1]])])
            elif op == 'v4':
                talk([fmt('#', o[1], None, ['x-1.0'])])
            elif op == 'vc':
                talk([fmt('#', 'version-connect', None, o[1])])
            elif op == 'garbage':
                g = GARBAGE[o[1]] if isinstance(o[1], int) else b(o[1])
                if b'version' in g or b'build' in g:
                    continue
                talk([g])
                hits.add('bad')
            elif op == 'req':
                c = current()
                if not st['running'] or c is None:
                    continue
                ids = st['flags'] is not None and 'I' in st['flags'][2]
                use = ids if o[1] is None else o[1]
                m = Message.request('q', 'x')
                try:
                    mid = cl.request(m, use_mid=o[1])
                except kc.KatcpVersionError:
                    check(use and not ids, 'refused')
                    env.settle()
                    equal(c.msgs(), [], 'sent')
                    continue
                check(ids or not use, 'id-not-refused')
                env.settle()
                out = c.msgs()
                equal(len(out), 1, 'sent')
                equal((out[0].t, out[0].name, out[0].args), ('?', 'q', [b'x']), 'sent')
                equal(out[0].mid is not None, bool(use), 'mid-used')
                check(mid not in mids, 'mid-reused')
                mids.add(mid)
                if use:
                    equal(out[0].mid, mid.decode(), 'mid-sent')
            elif op == 'drop':
                env.settle()
                collect()
                for c in live():
                    if o[1]:
                        c.send(b'#foo late\n!foo ok')
                    c.close()
                    lost()
                for _ in range(o[2]):
                    env.tick()
            elif op == 'down':
                down()
                st['stable'] = env.now
            elif op == 'up':
                if not S['up']:
                    up()
                    st['stable'] = env.now
            elif op == 'disconnect':
                if st['running']:
                    if cl.is_connected():
                        lost()
                    cl.disconnect()
                    for _ in range(o[1]):
                        env.tick()
            elif op == 'stop':
                for _ in range(o[1]):
                    env.tick()
                if st['running']:
                    lost()
                    st['running'] = False
                    st['stops'] += 1
                    cl.stop()
                    for w in waits:            # waits belong to one run of the client
                        w['orphan'] = True
                    settled()
                    check(env.run_sync(lambda: cl.until_stopped(timeout=50)) is True, 'until-stopped')
                    settled()
            elif op == 'start':
                if not st['running']:
                    settled()
                    env.advance(1)
                    st['running'] = True
                    st['flags'] = preset
                    st['stable'] = env.now
                    vers.clear()
                    cl.start()
                    st['lossless'] = False
                    for _ in range(o[1]):
                        env.tick()
            elif op == 'advance':
                if o[1] < 5:
                    env.advance(o[1])
                    continue
                settled()
                t0 = st['stable'] = env.now
                # a notification that raises makes the client disconnect and try again
                env.advance(o[1])
                settled()
                if st['running'] and S['up'] and case['auto']:
                    check(cl.is_connected(), 'no-reconnect', lambda: 'server up since %r, now %r' % (t0, env.now))
                if not S['up'] and not live():
                    check(not cl.is_connected(), 'connected-to-nothing')
                if not case['auto'] and len(S['conns']) >= 1 and not live():
                    check(not cl.is_connected(), 'connected-to-nothing')
            if not case['auto'] and any(c.eof or c.closed for c in S['conns']):
                # nothing ever brings it back
                n = len(S['conns'])
                env.advance(3)
                st['lossless'] = False
                settled()
                equal(len(S['conns']), n, 'reconnected-without-auto')
                check(not cl.is_connected(), 'stays-disconnected')
                break
        if st['disgust']:
            n = len(S['conns'])
            env.advance(10)
            collect()
            equal(len(S['conns']), n, 'reconnected-after-inconsistent-version')
            check(not cl.is_connected() and notes[-1] is False, 'connected-after-inconsistent-version')
            hits.add('disgust')
        elif st['running']:
            settled()
            cl.stop()
            st['running'] = False
            st['stops'] += 1
            st['lossless'] = False
            settled()
            env.advance(5)
            settled()
        if {'re', 'proto', 'seg'} <= hits:
            ctx.nt()
        for h in hits:
            ctx.tag('hit:' + h)
