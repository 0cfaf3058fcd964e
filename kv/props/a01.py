"""A01: every client request completes exactly once, with its own reply and informs."""
ID = 'A01'
CASES = {'quick': 4000, 'thorough': 120000}
HISTORY = ('ops',)
RULE = ('a case counts when two requests of one name were outstanding at once, one of them was answered, and another completed by '
        'timeout, disconnect or stop or a reply or inform belonging to no outstanding request was received')

NAMES = ['foo', 'bar', 'foo-bar']


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    req = st.fixed_dictionaries({
        'name': st.sampled_from([0, 0, 0, 1, 2]),
        'kind': gens.weighted((4, st.just('future')), (3, st.just('cb')), (1, st.just('noinf')), (1, st.just('nocb'))),
        'timeout': st.sampled_from([None, None, None, 0.5, 0.5, 1.0, 1.0, 2.0, 0]),
        'use_mid': gens.weighted((5, st.none()), (1, st.just(True)), (1, st.just(False))),
        'own': gens.weighted((6, st.none()), (1, st.integers(1000, 1003))),
        'data': st.booleans(),
        'raises': gens.weighted((7, st.just(False)), (1, st.just(True))),
        'chain': gens.weighted((6, st.just(False)), (1, st.just(True))),
        'arg': gens.bytestr(3),
    })
    # a server message: aimed at the k-th request seen on this connection (newest first), with a deviation
    how = gens.weighted((8, st.just('right')), (1, st.just('nomid')), (1, st.just('wrongmid')), (1, st.just('othername')),
                        (1, st.just('addmid')))
    srv = st.tuples(st.sampled_from(['!', '!', '#']), st.integers(0, 4), how,
                    gens.weighted((5, st.just(False)), (1, st.just(True))), st.sampled_from(['ok', 'fail', 'x']), gens.bytestr(3))
    op = gens.weighted(
        (7, st.tuples(st.just('req'), req)),
        (9, st.tuples(st.just('srv'), srv)),
        (3, st.tuples(st.just('sync'), st.none())),
        (3, st.tuples(st.just('advance'), st.sampled_from([0.25, 0.5, 1.0, 2.0, 6.0]))),
        (1, st.tuples(st.just('garbage'), st.sampled_from(['', ' ', '!', '!foo[x] ok', '?foo[1]', '!foo \\q', '\xff\xfe', '!f\xff[1] ok', '#', '!foo[1', '#foo[0] a']))),
        (1, st.tuples(st.just('close'), st.just(0))),
        (1, st.tuples(st.just('disconnect'), st.just(0))),
        (1, st.tuples(st.just('stop'), st.booleans())))
    return st.fixed_dictionaries({
        'ver': gens.weighted((5, st.just('v5')), (2, st.just('v5-noid')), (2, st.just('v4')), (1, st.just('preset')), (1, st.just('none'))),
        'timeout': st.sampled_from([5.0, 1.0, None]),
        'ops': gens.oplist(op, 3, 30)})


GREET = {'v5': [b'#version-connect katcp-protocol 5.0-IM'], 'v5-noid': [b'#version-connect katcp-protocol 5.0-M'],
         'v4': [b'#version x-1.0', b'#build-state x-1.0'], 'preset': [], 'none': []}


class R(object):
    """One request as the model sees it."""

    def __init__(self, n, name, mid, informs_to, chain):
        self.n, self.name, self.mid = n, name, mid      # mid: what was sent (str) or None
        self.informs_to = informs_to
        self.chain = chain
        self.informs = []
        self.done = None            # ('reply', M) | ('fail',)
        self.deadline = None
        self.got = []               # (reply, informs so far) actually delivered
        self.got_informs = []


def run(case, ctx):
    import logging
    from katcp import client as kc, Message, ProtocolFlags
    from kv import vnet
    from kv.core import check, equal, b
    from kv.harness import Raw, M, parse, fmt, accept, listen
    ids = case['ver'] in ('v5', 'preset')
    log = logging.getLogger('kv.a01')
    log.disabled = True
    with vnet.Env() as env:
        lsock = listen()
        port = lsock.getsockname()[1]
        stray = []

        class Client(kc.AsyncClient):
            def unhandled_inform(self, msg):
                stray.append(msg)

            def unhandled_reply(self, msg):
                stray.append(msg)
        cl = Client('127.0.0.1', port, timeout=case['timeout'], logger=log)
        cl.set_ioloop(env.loop)
        if case['ver'] == 'preset':
            cl.preset_protocol_flags(ProtocolFlags(5, 0, [ProtocolFlags.MESSAGE_IDS, ProtocolFlags.MULTI_CLIENT]))
        cl.start()
        env.settle()
        S = {'conn': None, 'stopped': False, 'seen': [], 'mids': set()}
        reqs, order, want_stray, queue = [], [], [], []
        wanted_lines = []
        base = [0]

        def attach():
            c = accept(lsock)
            if c is not None:
                S['conn'], S['seen'], S['mids'] = c, [], set()
                for ln in GREET[case['ver']]:
                    c.send(ln + b'\n')
                    m = parse(ln)
                    if m.name not in ('version-connect', 'version', 'build-state'):
                        want_stray.append(m)
                env.settle()
        attach()
        check(S['conn'] is not None and cl.is_connected(), 'not-connected')

        def same(msg, m):
            return ({Message.REQUEST: '?', Message.REPLY: '!', Message.INFORM: '#'}[msg.mtype], msg.name,
                    None if msg.mid is None else msg.mid.decode(), list(msg.arguments)) == (m.t, m.name, m.mid, list(m.args))

        def issue(spec, chained=False):
            """Issue on the real client and in the model."""
            n = len(reqs)
            name = NAMES[spec['name']]
            own = spec['own']
            if own is not None and any(r.done is None and r.mid == str(own) for r in reqs):
                own = None                         # one id at a time
            use = ids if spec['use_mid'] is None else spec['use_mid']
            r = R(n, name, None, spec['kind'] in ('future', 'cb'), spec['chain'] and not chained)
            r.spec = spec
            r.kind = spec['kind']
            r.sent_mid = own is not None or use
            reqs.append(r)
            msg = Message.request(name, b(spec['arg']), b'%d' % n, mid=None if own is None else b'%d' % own)
            to = spec['timeout'] if spec['timeout'] is not None else case['timeout']
            r.deadline = None if to is None else env.now + to
            # model: refused at once?
            connected = S['conn'] is not None
            r.refused = (r.sent_mid and not ids) or not connected
            if not r.refused:
                wanted_lines.append((name, [b(spec['arg']), b'%d' % n], own if own is not None else (use or None), r))
                order.append(r)

            def reply_cb(m, *ud):
                check(ud == (('u', n) if spec['data'] else ()), 'user-data', repr(ud))
                r.got.append((m, list(r.got_informs)))
                if r.chain:
                    r.chain = False
                    r.chained = issue(dict(spec, chain=False, own=None, kind='cb', timeout=spec['timeout'] or None), True)
                if spec['raises']:
                    raise RuntimeError('callback')

            def inform_cb(m, *ud):
                check(ud == (('u', n) if spec['data'] else ()), 'user-data', repr(ud))
                r.got_informs.append(m)
                if spec['raises']:
                    raise RuntimeError('callback')
            kw = {'timeout': spec['timeout'], 'use_mid': spec['use_mid']}
            if r.refused:
                r.done = ('fail',)
            if spec['kind'] == 'future':
                f = cl.future_request(msg, **kw)

                def done(f):
                    m, inf = f.result()
                    r.got_informs = inf
                    r.got.append((m, list(inf)))
                f.add_done_callback(done)
            else:
                if spec['data']:
                    kw['user_data'] = ('u', n)
                if spec['kind'] != 'nocb':
                    kw['reply_cb'] = reply_cb
                if spec['kind'] == 'cb':
                    kw['inform_cb'] = inform_cb
                cl.callback_request(msg, **kw)
            if msg.mid is not None:
                r.mid = msg.mid.decode()
            check((msg.mid is not None) == bool(r.sent_mid), 'mid-assigned', lambda: '%r %r' % (msg.mid, spec))
            if r.mid is not None and own is None:
                check(r.mid not in S['mids'], 'mid-reused', r.mid)
            if r.mid is not None:
                S['mids'].add(r.mid)
            return r

        def finish(r, how):
            r.done = how
            if r in order:
                order.remove(r)

        def process(m):
            """The model receives one server message."""
            if m.t == '?':
                return
            cand = None
            if m.mid is not None:
                hit = [r for r in order if r.mid == m.mid]
            else:
                hit = [r for r in order if r.mid is None and r.name == m.name]
            cand = hit[0] if hit else None
            if m.t == '!':
                if cand is None:
                    base[0] += 1
                    want_stray.append(m)
                else:
                    if cand.kind == 'nocb':
                        want_stray.append(m)
                    finish(cand, ('reply', m))
            else:
                if cand is None or not cand.informs_to:
                    if cand is None:
                        base[0] += 1
                    want_stray.append(m)
                else:
                    cand.informs.append(m)

        def fail_all(pred=lambda r: True):
            for r in list(order):
                if pred(r):
                    finish(r, ('fail',))
                    hits.add('failed')
        hits = set()

        def verify():
            if env.loop.errors:
                check(False, 'loop-error', env.loop.errors[0][-1200:])
            # bytes sent
            if S['conn'] is not None:
                got = S['conn'].msgs()
                for m in got:
                    check(wanted_lines, 'unexpected-request', lambda: repr(m))
                    name, args, mid, r = wanted_lines.pop(0)
                    equal((m.t, m.name, list(m.args)), ('?', name, args), 'request-sent')
                    equal(m.mid, r.mid, 'request-mid')
                    S['seen'].append(r)
                check(not wanted_lines, 'request-not-sent', lambda: repr([w[:3] for w in wanted_lines]))
            for r in reqs:
                d = lambda: 'request %d %s[%s]: model %r, delivered %r, informs %r' % (r.n, r.name, r.mid, r.done, r.got, r.got_informs)
                if r.kind == 'nocb':
                    continue
                if r.done is None:
                    check(not r.got, 'early-completion', d)
                else:
                    check(len(r.got) == 1, 'completed-%d-times' % min(len(r.got), 2), d)
                    msg, inf = r.got[0]
                    if r.done[0] == 'reply':
                        check(same(msg, r.done[1]), 'wrong-reply', d)
                    else:
                        check(msg.mtype == Message.REPLY and msg.name == r.name and not msg.reply_ok() and
                              msg.arguments[:1] == [b'fail'] and len(msg.arguments) == 2, 'failure-reply', d)
                        if r.mid is not None:
                            check(msg.mid is not None and msg.mid.decode() == r.mid, 'failure-reply-id', d)
                    equal(len(r.got_informs), len(inf), 'inform-after-reply', d)
                if r.kind == 'future' and r.done is None:
                    continue
                check(len(r.got_informs) == len(r.informs) and all(same(x, y) for x, y in zip(r.got_informs, r.informs)), 'informs', d)
            # everything else goes to the general handlers
            real = [m for m in stray if not (m.mtype == Message.REPLY and m.arguments[:1] == [b'fail'] and len(m.arguments) == 2
                                             and b'onnected' in m.arguments[1] or b'not supported' in b''.join(m.arguments))]
            check(len(real) == len(want_stray) and all(same(x, y) for x, y in zip(real, want_stray)), 'general-handlers',
                  lambda: 'got %r expected %r' % (real, want_stray))

        def flush():
            """Deliver what the server queued (and perhaps its close) and compare."""
            c = S['conn']
            todo = queue[:]
            del queue[:]
            for line, m in todo:
                if c is None:
                    break
                c.send(line + b'\n')
                if m is not None:
                    chains = any(r.chain for r in order)
                    process(m)
                    if chains:         # a request issued from the callback comes before what the server sends next
                        env.settle()
            env.settle()
            verify()

        for op, a in case['ops']:
            ctx.tag(op)
            if op == 'req':
                flush()          # server messages queued before belong before this request
                r = issue(a)
                if sum(1 for x in order if x.name == r.name) >= 2:
                    hits.add('two')
                if a['timeout'] == 0:      # gives up at the next opportunity
                    env.settle()
                    fail_all(lambda r: r.deadline is not None and r.deadline <= env.now)
                    env.settle()
                    verify()
            elif op == 'srv':
                if S['conn'] is None:
                    continue
                t, k, how, raw, status, arg = a
                env.settle()
                verify()
                seen = S['seen']
                if not seen:
                    continue
                r = seen[-1 - k % len(seen)]
                name, mid = r.name, r.mid
                if how == 'nomid':
                    mid = None
                elif how == 'wrongmid':
                    mid = '987654'
                elif how == 'othername':
                    name = NAMES[(NAMES.index(name) + 1) % 3]
                elif how == 'addmid' and mid is None:
                    mid = '500001'
                args = ([status.encode()] if t == '!' else []) + [b(arg)]
                m = M(t, name, mid, args)
                queue.append((fmt(t, name, mid, args), m))
                if not raw:
                    flush()
                if r.done and r.done[0] == 'reply':
                    hits.add('answered')
            elif op == 'sync':
                flush()
            elif op == 'garbage':
                if S['conn'] is None:
                    continue
                from kv.props.c02 import ref_parse
                line = a.encode('latin-1')
                p = ref_parse(line)
                queue.append((line, parse(line) if p is not None else None))
            elif op == 'advance':
                flush()
                end = env.now + a
                while True:
                    ds = [r.deadline for r in order if r.deadline is not None and r.deadline <= end]
                    if not ds:
                        break
                    d = min(ds)
                    env.advance(d - env.now)
                    fail_all(lambda r: r.deadline is not None and r.deadline <= d)
                    env.settle()
                    if S['conn'] is None and not S['stopped']:
                        attach()
                    verify()
                env.advance(end - env.now)
                if S['conn'] is None and not S['stopped']:
                    attach()
                verify()
            elif op == 'close':
                if S['conn'] is None:
                    continue
                flush()
                S['conn'].close()
                S['conn'] = None
                fail_all()
                env.settle()
                verify()
            elif op == 'disconnect':
                flush()
                cl.disconnect()
                if S['conn'] is not None:
                    S['conn'].close()
                S['conn'] = None
                fail_all()
                env.settle()
                verify()
            elif op == 'stop':
                if a and len(queue) == 0 and not S['stopped']:
                    S['stopped'] = True
                    flush()
                    cl.stop()
                    S['conn'] = None
                    fail_all()
                    env.settle()
                    verify()
        flush()
        n_before = len(order)
        if not S['stopped']:
            cl.stop()
            if S['conn'] is not None:
                S['conn'].close()
            S['conn'] = None
            fail_all()
            env.settle()
            verify()
        check(not cl.running() and not cl.is_connected(), 'not-stopped')
        env.advance(20)
        verify()
        if base[0]:
            hits.add('foreign')
        if {'two', 'answered'} <= hits and hits & {'failed', 'foreign'}:
            ctx.nt()
