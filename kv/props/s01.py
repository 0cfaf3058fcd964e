"""S01: every request gets exactly one reply with its own name and id; informs belong to it and precede it."""
ID = 'S01'
CASES = {'quick': 5000, 'thorough': 50000}
RULE = ('a case counts when a request is pipelined behind one still being served on the same connection, two connections are '
        'served at once, and at least one handler raises or returns an invalid result')

SYNC = ['ok', 'failreply', 'exc', 'failmsg', 'none', 'wrongname', 'reqmsg', 'str', 'rr-ok', 'rr-fail', 'rr-bad', 'rr-short', 'asyncreply']


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    prog = st.fixed_dictionaries({
        'kind': gens.weighted((3, st.just('sync')), (3, st.just('coro')), (2, st.just('future'))),
        'out': st.sampled_from(SYNC),
        'conc': st.booleans(),
        'pre': st.integers(0, 2),        # informs sent right away
        'post': st.integers(0, 2),       # informs sent just before the answer (asynchronous kinds)
        'delay': st.sampled_from([0, 0, 1, 2, 5, 9]),
        'text': st.one_of(st.sampled_from(['', 'x', 'a b', '\n', '\xe9', '\u20ac', '%s', '{0}']), st.text(max_size=4)),
        'double': st.booleans(),
        # the message ids of replies and informs the handler makes itself: none, some other one, or one object for all replies
        'own': st.sampled_from([None, None, None, 'preset', 'shared']),
        # through the request object, or through the server with the request object or the connection
        'via': gens.weighted((4, st.just(0)), (1, st.just(1)), (1, st.just(2))),
    })
    req = st.tuples(st.integers(0, 2), st.integers(0, 8), st.one_of(st.none(), st.integers(0, 5), st.integers(0, 10 ** 9)),
                    st.lists(gens.bytestr(4), max_size=2))
    op = gens.weighted((8, st.tuples(st.just('req'), req)), (3, st.tuples(st.just('run'), st.sampled_from([0, 0, 1, 3, 10]))),
                       (1, st.tuples(st.just('close'), st.integers(0, 2))))
    return st.fixed_dictionaries({
        'progs': st.lists(prog, min_size=1, max_size=7),
        'mode': st.sampled_from(['async', 'loop', 'base']),
        'clients': st.integers(1, 3),
        'ops': st.lists(op, min_size=1, max_size=20),
        'v4': st.booleans(),
        'flush': st.booleans(),
    })


def build(progs, base, info, log):
    """A device class whose requests h0..hN follow the programs."""
    import katcp
    from katcp import Message, FailReply, AsyncReply
    from katcp.kattypes import concurrent_reply, return_reply, Str
    from tornado import gen
    from tornado.concurrent import Future
    ns = {'PROTOCOL_INFO': info, '__module__': __name__}
    state = {'tick': 0.01}
    keep, shared = [], {}

    def finish(p, name, req, msg):
        """What the handler finally returns or raises."""
        out, text = p['out'], p['text']
        own = p.get('own')
        if own == 'shared' and out in ('ok', 'failmsg'):
            key = (name, out)
            if key not in shared:
                shared[key] = Message.reply(name, 'ok' if out == 'ok' else 'fail', text)
            return shared[key]
        if own == 'preset' and out in ('ok', 'failmsg'):
            return Message.reply(name, *((['ok'] + msg.arguments) if out == 'ok' else ['fail', text]), mid=31337)
        if out == 'ok':
            return req.make_reply('ok', *msg.arguments)
        if out == 'failmsg':
            return req.make_reply('fail', text)
        if out == 'failreply':
            raise FailReply(text)
        if out == 'exc':
            raise ValueError(text)
        if out == 'none':
            return None
        if out == 'wrongname':
            return Message.reply('other', 'ok')
        if out == 'reqmsg':
            return Message.request(name, 'ok')
        if out == 'str':
            return 'ok'
        if out == 'rr-ok':
            return ('ok', text)
        if out == 'rr-fail':
            return ('fail', text)
        if out == 'rr-bad':
            return ('what', text)
        if out == 'rr-short':
            return ('ok',)
        raise AssertionError(out)

    def send(self, p, name, req, msg, *args):
        via = p.get('via', 0)
        if via:
            self.reply_inform(req if via == 1 else req.client_connection, Message.inform(name, *args, mid=31337 if p.get('own') == 'preset' else None), msg)
        else:
            req.inform(*args)

    def answer_async(self, p, name, req, msg):
        send(self, p, name, req, msg, 'post')
        via = p.get('via', 0)
        if via:
            self.reply(req if via == 1 else req.client_connection, Message.reply(name, 'ok', *msg.arguments, mid=31337 if p.get('own') == 'preset' else None), msg)
            log.append(('answered', id(req)))
            return
        if p['text'] == 'x':
            req.reply_with_message(Message.reply(name, 'ok', *msg.arguments))
        else:
            req.reply('ok', *msg.arguments)
        if p['double']:
            for f in (lambda: req.reply('ok', 'again'), lambda: req.inform('again'),
                      lambda: req.reply_with_message(Message.reply(name, 'ok', 'again'))):
                try:
                    f()
                except RuntimeError:
                    continue
                log.append(('double-accepted', name))
        log.append(('answered', id(req)))

    for i, p in enumerate(progs):
        name = 'h%d' % i

        def make(p=p, name=name):
            def start(self, req, msg):
                keep.append(req)
                log.append(('start', req.client_connection, bytes(msg), id(req)))
                for k in range(p['pre']):
                    send(self, p, name, req, msg, 'pre', k)

            def end(req):
                log.append(('end', req.client_connection, id(req)))

            if p['out'] == 'asyncreply' and p['kind'] in ('sync', 'future'):
                def handler(self, req, msg):
                    """H."""
                    start(self, req, msg)
                    self.ioloop.call_later(p['delay'] * state['tick'], answer_async, self, p, name, req, msg)
                    end(req)
                    raise AsyncReply()
            elif p['kind'] == 'sync':
                def handler(self, req, msg):
                    """H."""
                    start(self, req, msg)
                    try:
                        return finish(p, name, req, msg)
                    finally:
                        end(req)
            elif p['kind'] == 'coro':
                @gen.coroutine
                def handler(self, req, msg):
                    """H."""
                    start(self, req, msg)
                    if p['delay']:
                        yield gen.sleep(p['delay'] * state['tick'])
                    for k in range(p['post']):
                        send(self, p, name, req, msg, 'post', k)
                    if p['out'] == 'asyncreply':
                        answer_async(self, p, name, req, msg)
                        end(req)
                        raise AsyncReply()
                    end(req)
                    raise gen.Return(finish(p, name, req, msg))
            else:
                def handler(self, req, msg):
                    """H."""
                    start(self, req, msg)
                    f = Future()

                    def go():
                        for k in range(p['post']):
                            send(self, p, name, req, msg, 'post', k)
                        end(req)
                        try:
                            f.set_result(finish(p, name, req, msg))
                        except Exception as e:
                            f.set_exception(e)
                    if p['delay']:
                        self.ioloop.call_later(p['delay'] * state['tick'], go)
                    else:
                        go()
                    return f
            handler.__name__ = 'request_' + name
            if p['out'].startswith('rr-'):
                if p['conc']:
                    handler = concurrent_reply(handler)
                handler = return_reply(Str())(handler)
            elif p['conc']:
                handler = concurrent_reply(handler)
            return handler
        ns['request_' + name] = make()
    ns['setup_sensors'] = lambda self: None
    return type(base)('Dev', (base,), ns)


def run(case, ctx):
    import katcp
    from kv import harness as H
    from kv.core import b, check, equal
    from kv.vnet import Env
    from katcp import ProtocolFlags
    progs = case['progs']
    info = ProtocolFlags(4, 0, set([b'M'])) if case['v4'] else ProtocolFlags(5, 0, set([b'M', b'I']))
    log = []
    with Env() as env:
        base = katcp.AsyncDeviceServer if case['mode'] == 'async' else katcp.DeviceServer
        opened = []

        class Dev(build(progs, base, info, log)):
            def on_client_connect(self, conn):
                opened.append(conn)
                return super(Dev, self).on_client_connect(conn)
        dev = Dev('127.0.0.1', 0)
        if case['mode'] != 'async':
            dev.set_concurrency_options(thread_safe=case['mode'] == 'loop', handler_thread=False)
        port = H.start_device(env, dev)
        clients, conns = [], {}
        for i in range(case['clients']):
            clients.append(H.Raw(port))
            env.settle()
            clients[-1].msgs()
            new = [c for c in opened if c not in conns]
            check(len(new) == 1, 'client-conn', new)
            conns[new[0]] = i
        sent = [[] for _ in clients]
        got = [[] for _ in clients]
        closed = set()
        for op, a in case['ops']:
            if op == 'req':
                ci, pi, mid, args = a
                ci %= len(clients)
                if ci in closed:
                    continue
                name = 'h%d' % (pi % len(progs)) if pi < 7 else 'help'
                if pi == 7:
                    name = 'nosuch'
                args = [b(x) for x in args]
                if pi == 8:
                    args = [b'no-such-request']
                clients[ci].send(H.fmt('?', name, mid, args) + b'\n')
                sent[ci].append((name, None if mid is None else str(mid), args, env.now))
                if case['flush']:
                    env.settle()
            elif op == 'run':
                env.advance(a * 0.01)
            elif op == 'close' and len(clients) - len(closed) > 1:
                ci = a % len(clients)
                if ci not in closed:
                    clients[ci].close()
                    closed.add(ci)
                    ctx.tag('closed-midway')
        env.advance(100)
        for i, c in enumerate(clients):
            if i not in closed:
                got[i] = c.msgs()
                check(not c.eof, 'connection-lost')
        H.no_loop_errors(env)
        check(not [x for x in log if x[0] == 'double-accepted'], 'double-reply', log)
        bad = pipelined = False
        for ci in range(len(clients)):
            if ci in closed:
                continue
            # which handlers ran, in order, once each
            starts = [H.parse(x[2]) for x in log if x[0] == 'start' and conns[x[1]] == ci]
            want = [('?', n, m, tuple(a)) for n, m, a, _ in sent[ci] if n[1:].isdigit() and int(n[1:]) < len(progs)]
            equal([s.key() for s in starts], want, 'handler-calls')
            # a handler that is not concurrent is finished before the next one starts
            running = {}
            for x in log:
                if x[0] == 'start' and conns[x[1]] == ci:
                    p = progs[int(H.parse(x[2]).name[1:])]
                    block = [m for m, c in running.values() if not c]
                    check(not block, 'overlap', lambda: 'client %d: %r started before %r ended' % (ci, x[2], block))
                    running[x[3]] = (x[2], p['conc'] and p['kind'] != 'sync')
                elif x[0] == 'end' and conns[x[1]] == ci:
                    running.pop(x[2], None)
            # match replies
            rest = list(got[ci])
            for name, mid, args, t in sent[ci]:
                p = progs[int(name[1:])] if name[1:].isdigit() and int(name[1:]) < len(progs) else None
                w = expect(p, name, args)
                idx = [k for k, g in enumerate(rest) if g.t == '!' and g.name == name and g.mid == mid and match(g, w)]
                check(idx, 'no-reply', lambda: 'client %d %s[%s] want %r in %r (program %r)' % (ci, name, mid, w, got[ci], p))
                rest.pop(idx[0])
                if p is not None and w[0] != b'ok':
                    bad = True
            extra = [g for g in rest if g.t == '!']
            check(not extra, 'extra-reply', extra)
            check(all(g.t == '#' and g.name[1:].isdigit() for g in rest), 'foreign-message', rest)
            # informs: right number per (name, mid), and each one before the last reply of that key
            for key in set((n, m) for n, m, _, _ in sent[ci]):
                n, m = key
                p = progs[int(n[1:])] if n[1:].isdigit() and int(n[1:]) < len(progs) else None
                count = sum(1 for x in sent[ci] if x[:2] == key)
                per = 0
                if p is not None:
                    per = p['pre'] + (p['post'] if p['kind'] != 'sync' and not (
                        p['kind'] == 'future' and p['out'] == 'asyncreply') else 0) + (p['out'] == 'asyncreply')
                seq = [g.t for g in got[ci] if (g.name, g.mid) == key]
                equal(seq.count('#'), per * count, 'informs', lambda: '%r %r' % (key, p))
                if count == 1:
                    equal(seq, ['#'] * per + ['!'], 'inform-after-reply', lambda: '%r' % (key,))
                else:
                    k = 0
                    for j, t in enumerate(seq):
                        if t == '!':
                            k += 1
                            check(seq[:j].count('#') >= per * k, 'inform-after-reply', lambda: '%r %r' % (key, seq))
            # replies of non-concurrent requests come in the order of the requests
            order = []
            for name, mid, args, t in sent[ci]:
                p = progs[int(name[1:])] if name[1:].isdigit() and int(name[1:]) < len(progs) else None
                if p is None or not (p['conc'] or p['out'] == 'asyncreply'):
                    order.append((name, mid))
            keys = set(order)
            equal([(g.name, g.mid) for g in got[ci] if g.t == '!' and (g.name, g.mid) in keys], order, 'reply-order')
            for (n1, m1, a1, t1) in sent[ci]:
                p = progs[int(n1[1:])] if n1[1:].isdigit() and int(n1[1:]) < len(progs) else None
                if p and p['kind'] != 'sync' and p['delay'] and [x for x in sent[ci] if x[3] < t1 + p['delay'] * .01 and x[3] >= t1]:
                    pipelined = True
        ctx.nt(pipelined and bad and sum(1 for s in sent if s) > 1)
        ctx.tag(case['mode'])
        for i, p in enumerate(progs):
            if any(x[0] == 'start' and H.parse(x[2]).name == 'h%d' % i for x in log):
                ctx.tag('%s/%s' % (p['kind'], p['out']))


def expect(p, name, args):
    if p is None:
        if name == 'help':
            return [b'fail', None]
        return [b'invalid', b'Unknown request.']
    out, text = p['out'], p['text'].encode('utf-8')
    if out == 'ok' and p.get('own') == 'shared':
        return [b'ok', text]
    if out in ('ok', 'asyncreply'):
        return [b'ok'] + args
    if out in ('failmsg', 'failreply', 'rr-fail'):
        return [b'fail', text]
    if out == 'rr-ok':
        return [b'ok', text]
    return [b'fail', None]


def match(g, w):
    if w[-1] is None:
        return len(g.args) == 2 and g.args[0] == w[0]
    return g.args == w
