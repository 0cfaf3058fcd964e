"""C03: server framing is independent of segmentation; bad lines are isolated."""
ID = 'C03'
CASES = {'quick': 2500, 'thorough': 60000}
RULE = ('a case counts when some line is split over segments (or two lines share one), a malformed line precedes a valid '
        'request on the same connection and at least two clients are connected or a non-UTF-8 byte is present')


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    from kv.props import c02
    goodarg = st.text(st.one_of(st.characters(min_codepoint=33, max_codepoint=255).filter(lambda c: c != '\\'),
                                st.sampled_from('abc019')), min_size=1, max_size=5)
    arg = st.one_of(goodarg, st.sampled_from(['\\@', '\\n', '\\r', 'a\\_b', '\\\\', '\\0', '\\e', '\xff\xfe', '\xc3\xa9', '\xc3']))
    mid = st.one_of(st.just(''), st.integers(0, 10 ** 6).map(lambda i: '[%d]' % i), st.just('[007]'))
    req = st.tuples(st.sampled_from(['?echo', '?echo', '?echo', '?late', '?boom', '?fail', '?nosuch', '?watchdog', '#echo', '!echo', '#seen',
                                     '#oops', '!oops']),
                    mid, st.lists(arg, max_size=3)).map(lambda t: t[0] + t[1] + ''.join(' ' + a for a in t[2]))
    bad = st.one_of(st.sampled_from(['x', '?', '?1a', '?a\\', '?echo a\\x', '?echo[x] 1', '?echo\x00', '?echo a\x1bb', '?\xe9',
                                     '\xff', '?echo[1', ' ?echo', '\t', '?echo[1]x']),
                    gens.bytestr(10).map(lambda s: s.replace('\n', '').replace('\r', '')))
    line = gens.weighted((6, req), (3, bad), (1, st.just('')))
    term = st.sampled_from(['\n', '\n', '\r', '\r\n', '\n\r', '\n\n', '\r\r'])
    stream = st.lists(st.tuples(line, term).map(''.join), min_size=1, max_size=8).flatmap(
        lambda ls: st.tuples(st.just(''.join(ls)), st.one_of(st.just(''), req)).map(''.join))
    # events: (client, number of bytes to send next, settle after?)
    ev = st.tuples(st.integers(0, 2), st.one_of(st.integers(1, 6), st.integers(1, 40), st.just(1000)), st.booleans())
    return st.fixed_dictionaries({
        's': st.lists(stream, min_size=1, max_size=3),
        'ev': st.lists(ev, max_size=25),
        'byte': st.integers(0, 7),   # 0: send everything byte by byte
        'v4': st.booleans(),
    })


def run(case, ctx):
    import re
    import katcp
    from tornado import gen
    from kv import harness as H
    from kv.core import b, check, equal
    from kv.vnet import Env
    from kv.props.c02 import ref_parse
    from katcp import Message, ProtocolFlags
    streams = [b(s) for s in case['s']]
    seen, opened = [], []

    class Dev(katcp.AsyncDeviceServer):
        PROTOCOL_INFO = ProtocolFlags(4, 0, set([b'M'])) if case['v4'] else ProtocolFlags(5, 0, set([b'M', b'I']))

        def setup_sensors(self):
            pass

        def request_echo(self, req, msg):
            """Echo."""
            seen.append((req.client_connection, bytes(msg)))
            return req.make_reply('ok', *msg.arguments)

        def request_late(self, req, msg):
            """Answer a bit later."""
            seen.append((req.client_connection, bytes(msg)))

            @gen.coroutine
            def go():
                yield gen.sleep(0.01)
                raise gen.Return(Message.reply('late', 'ok', *msg.arguments))
            return go()

        def request_boom(self, req, msg):
            """Raise."""
            seen.append((req.client_connection, bytes(msg)))
            raise RuntimeError('boom %r' % (msg.arguments,))

        def request_fail(self, req, msg):
            """Fail."""
            seen.append((req.client_connection, bytes(msg)))
            raise katcp.FailReply('no')

        def on_client_connect(self, conn):
            opened.append(conn)
            return super(Dev, self).on_client_connect(conn)

        def inform_seen(self, conn, msg):
            '''Seen.'''
            seen.append((conn, bytes(msg)))

        def inform_oops(self, conn, msg):
            '''Oops.'''
            raise ValueError('oops')

        def reply_oops(self, conn, msg):
            '''Oops.'''
            raise ValueError('oops')

    with Env() as env:
        dev = Dev('127.0.0.1', 0)
        port = H.start_device(env, dev)
        clients = []
        for _ in streams:
            clients.append(H.Raw(port))
            env.settle()
        conns = {}
        for c in clients:
            got = c.msgs()
            check(len(got) == (2 if case['v4'] else 3), 'greeting', got)
        order = sorted(opened, key=lambda x: int(x.address.split(':')[1]))
        for i, cc in enumerate(order):
            conns[cc] = i
        pos = [0] * len(streams)
        events = list(case['ev'])
        split = False
        sent_lines = [0] * len(streams)
        for ci, n, settle in events:
            ci %= len(streams)
            if case['byte'] == 0:
                n, settle = 1, True
            chunk = streams[ci][pos[ci]:pos[ci] + n]
            if chunk and (chunk[-1:] not in b'\n\r' or chunk.count(b'\n') + chunk.count(b'\r') > 1):
                split = True
            clients[ci].send(chunk)
            pos[ci] += len(chunk)
            if settle:
                env.settle()
        for ci, s in enumerate(streams):
            if case['byte'] == 0:
                split = True
                for k in range(pos[ci], len(s)):
                    clients[ci].send(s[k:k + 1])
                    env.settle()
            else:
                clients[ci].send(s[pos[ci]:])
                env.settle()
        env.advance(5)
        H.no_loop_errors(env)
        nonutf = False
        badthen = False
        for ci, s in enumerate(streams):
            want, handled = [], []
            lines = re.split(b'[\r\n]', s)[:-1]
            hadbad = False
            for ln in lines:
                if not ln:
                    continue
                r = ref_parse(ln)
                if r is None:
                    want.append(('log',))
                    hadbad = True
                    ctx.tag('bad-line')
                    continue
                t, name, mid, args = r
                if any(x > 127 for a in args for x in a):
                    nonutf = True
                    ctx.tag('high-bytes')
                if hadbad and t == 0:
                    badthen = True
                mid = None if mid is None else mid.decode()
                if t == 0:
                    if name in ('echo', 'late'):
                        want.append(('!', name, mid, [b'ok'] + args))
                    elif name == 'boom':
                        want.append(('!', name, mid, [b'fail', None]))
                    elif name == 'fail':
                        want.append(('!', name, mid, [b'fail', b'no']))
                    elif name == 'watchdog':
                        want.append(('!', name, mid, [b'ok']))
                    else:
                        want.append(('!', name, mid, [b'invalid', b'Unknown request.']))
                if (t == 0 and name in ('echo', 'late', 'boom', 'fail')) or (t == 1 + 1 and name == 'seen'):
                    handled.append((t, name, mid, args))
            c = clients[ci]
            got = c.msgs()
            check(not c.eof and not c.buf, 'connection-ended', lambda: repr((c.eof, c.buf, s)))
            ok = len(got) == len(want)
            for g, w in zip(got, want):
                if w == ('log',):
                    ok = ok and (g.t, g.name, g.mid) == ('#', 'log', None) and len(g.args) == 4 and \
                        g.args[0] == b'error' and g.args[2] == b'root'
                else:
                    wargs = w[3]
                    if len(wargs) == 2 and wargs[1] is None:
                        ok = ok and len(g.args) == 2 and g.args[0] == b'fail'
                        if w[1] == 'boom':
                            ok = ok and b'boom' in g.args[1]
                        wargs = g.args
                    ok = ok and (g.t, g.name, g.mid, g.args) == (w[0], w[1], w[2], wargs)
            check(ok, 'answers', lambda: 'client %d sent %r\n want %r\n got %r' % (ci, s, want, got))
            mine = [ref_parse(m) for cc, m in seen if conns[cc] == ci]
            mine = [(t, n, None if m is None else m.decode(), a) for t, n, m, a in mine]
            equal(mine, handled, 'handled', lambda: repr(s))
        ctx.nt(split and badthen and (len(streams) > 1 or nonutf))
        for n, f in (('split', split), ('bad-then-request', badthen), ('multi-client', len(streams) > 1),
                     ('byte-by-byte', case['byte'] == 0)):
            if f:
                ctx.tag(n)
