"""F01: a fake client is to the program what a real one connected to such a device is."""
ID = 'F01'
CASES = {'quick': 2000, 'thorough': 40000}
HISTORY = ('ops',)
RULE = ('a case counts when sensors and handlers were both added after the first sync, a sensor was redefined or a handler replaced, a request reached '
        'a fake handler and another one failed')

KINDS = ['echo', 'typed', 'coro', 'raise', 'rfail', 'bare']
RNAMES = ['r1', 'r-2', 'do-this-now', 'xY', 'a-request-x']


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens, ksensors
    sens = ksensors.specs(name=st.sampled_from(['a', 'a.b', 'c-d', 'e_f', 'items', 'zz.1']))
    child = st.integers(0, 1)
    arg = gens.weighted((3, gens.bytestr(5)), (2, st.integers(-10, 200)))
    rname = st.sampled_from(RNAMES)
    op = gens.weighted(
        (3, st.tuples(st.just('sensors'), child, st.lists(st.tuples(sens, st.booleans()), min_size=1, max_size=3), st.booleans())),
        (1, st.tuples(st.just('badsensor'), child, sens, st.sampled_from(['type', 'params']))),
        (3, st.tuples(st.just('handlers'), child, st.lists(st.tuples(rname, st.sampled_from(KINDS)), min_size=1, max_size=3), st.booleans(), st.booleans())),
        (1, st.tuples(st.just('nodoc'), child, rname)),
        (5, st.tuples(st.just('req'), child, rname, st.lists(arg, max_size=3), st.one_of(st.none(), st.none(), st.integers(1, 9999), st.just(False)))),
        (3, st.tuples(st.just('ask'), child, st.sampled_from(['help', 'sensor-list']), st.one_of(st.none(), st.integers(0, 8)), st.booleans())),
        (1, st.tuples(st.just('many'), child, rname, st.lists(st.integers(1, 6), min_size=2, max_size=4))),
        (1, st.tuples(st.just('advance'), st.sampled_from([0.05, 0.5, 2]))))
    return st.fixed_dictionaries({'mode': st.sampled_from(['ic', 'res', 'res', 'cont']), 'ops': gens.oplist(op, 3, 16),
                                  'early': st.booleans()})


def run(case, ctx):
    from katcp import fake_clients as fc
    made, factory = [], fc.fake_inspecting_client_factory

    def keep(*a, **k):
        out = factory(*a, **k)
        made.append(out[0])
        return out
    fc.fake_inspecting_client_factory = keep
    try:
        run_case(case, ctx, made)
    finally:
        fc.fake_inspecting_client_factory = factory


def run_case(case, ctx, made):
    from katcp import Message, Sensor, fake_clients as fc, kattypes as kt, resource_client as rc
    from katcp.core import FailReply
    from katcp.inspecting_client import InspectingClientAsync
    from kv import ktypes, ksensors
    from kv.core import b, check, equal
    from kv.props.r01 import esc, quiet_logs
    from kv.vnet import Env
    from tornado import gen
    lg = quiet_logs()
    mode = case['mode']
    nch = 2 if mode == 'cont' else 1
    hits = set()
    with Env() as env:
        calls = []

        def handler(name, kind, method):
            doc = 'Handler %s %s.' % (name, kind)

            def echo(req, msg):
                calls.append((name, list(msg.arguments), msg.mid))
                req.inform()
                for i, a in enumerate(msg.arguments):
                    req.inform(a, i)
                return req.make_reply('ok', *reversed(msg.arguments))

            @gen.coroutine
            def coro(req, msg):
                calls.append((name, list(msg.arguments), msg.mid))
                req.inform('begin')
                yield gen.sleep(len(msg.arguments[0]) * .1 if msg.arguments else 0)
                req.inform('end', *msg.arguments[:1])
                raise gen.Return(req.make_reply('ok', *msg.arguments))

            def failing(req, msg):
                calls.append((name, list(msg.arguments), msg.mid))
                req.inform('so far')
                raise FailReply('out of %d' % len(msg.arguments))

            def rfail(req, msg):
                calls.append((name, list(msg.arguments), msg.mid))
                return Message.reply_to_request(msg, 'fail', 'no', *msg.arguments)

            def bare(req, msg):
                calls.append((name, list(msg.arguments), msg.mid))
                return Message.reply(msg.name, 'ok', mid='77')     # (the id is the caller's, whatever this says)
            if kind == 'typed':
                def typed(self, req, i, s):
                    calls.append((name, [i, s], req.msg.mid))
                    req.inform(i + 1)
                    return ('ok', i * 2, s + '!')
                typed.__name__ = 'request_' + name.replace('-', '_')
                typed.__doc__ = doc
                typed = kt.request(kt.Int(min=0), kt.Str(default='dflt'))(kt.return_reply(kt.Int(), kt.Str())(typed))
                if method:
                    return typed
                m = type('H', (object,), {'f': typed})().f

                def f(req, msg):
                    return m(req, msg)
                f.__doc__ = doc
                return f
            body = {'echo': echo, 'coro': coro, 'raise': failing, 'rfail': rfail, 'bare': bare}[kind]
            if method:
                def f(self, req, msg):
                    return body(req, msg)
            else:
                def f(req, msg):
                    return body(req, msg)
            f.__doc__ = doc
            return f

        def expected(name, kind, args):
            """(what the handler is called with, informs, reply arguments)"""
            if kind == 'echo':
                return args, [[]] + [[a, b'%d' % i] for i, a in enumerate(args)], [b'ok'] + args[::-1]
            if kind == 'coro':
                return args, [[b'begin'], [b'end'] + args[:1]], [b'ok'] + args
            if kind == 'raise':
                return args, [[b'so far']], [b'fail', b'out of %d' % len(args)]
            if kind == 'rfail':
                return args, [], [b'fail', b'no'] + args
            if kind == 'bare':
                return args, [], [b'ok']
            try:
                _, i = ktypes.ref_decode({'k': 'int'}, args[0], 5)
                s = args[1].decode('utf-8') if len(args) > 1 else 'dflt'
            except (ValueError, IndexError):
                return None, [], None
            if i < 0 or len(args) > 2:
                return None, [], None
            return [i, s], [[b'%d' % (i + 1)]], [b'ok', b'%d' % (i * 2), (s + '!').encode('utf-8')]

        # the objects under test
        if mode == 'ic':
            ic, man = fc.fake_inspecting_client_factory(InspectingClientAsync, {}, 'nowhere', 1, ioloop=env.loop, logger=lg)
            env.loop.add_callback(ic.connect)
        elif mode == 'res':
            r, man = fc.fake_KATCP_client_resource_factory(
                rc.KATCPClientResource, {}, dict(name='res', description='d', address=('nowhere', 1), controlled=True), logger=lg)
            r.set_ioloop(env.loop)
            for f in (lambda: man.add_sensors({}), lambda: man.add_request_handlers_dict({}), lambda: man.fake_sensor_infos):
                try:
                    f()
                except RuntimeError:
                    continue
                check(False, 'managed-before-start')
            env.loop.add_callback(r.start)
        else:
            r, man = fc.fake_KATCP_client_resource_container_factory(
                rc.KATCPClientResourceContainer, {},
                dict(name='top', description='d', clients={'one': dict(address=('nowhere', 1), controlled=True),
                                                           'num-2': dict(address=('nowhere', 2), controlled=True)}), logger=lg)
            r.set_ioloop(env.loop)
            env.loop.add_callback(r.start)
        if not case['early']:
            env.advance(2)
        else:
            env.settle()
        CH = ['one', 'num_2']
        pre = (lambda j, n: CH[j] + '_' + esc(n)) if mode == 'cont' else (lambda j, n: esc(n))
        sensors = [{}, {}]
        handlers = [{}, {}]

        def manage(j, what, *a):
            if mode == 'cont':
                return getattr(man, what)(CH[j], *a)
            return getattr(man, what)(*a)

        def client(j):
            if mode == 'ic':
                return ic
            return made[j]

        def raw(x):
            return x if isinstance(x, bytes) else x.encode('utf-8') if isinstance(x, str) else b'%d' % x if isinstance(x, int) else repr(x).encode()

        def verify():
            check(not env.loop.errors, 'loop-error', lambda: env.loop.errors[0][-1500:])
            env.advance(2)
            check(all(x.synced for x in ([ic] if mode == 'ic' else r.children.values() if mode == 'cont' else [r])), 'not-synced')
            if mode == 'ic':
                equal(set(ic.sensors), set(sensors[0]), 'sensors')
                equal(set(ic.requests), set(handlers[0]) | {'help', 'sensor-list'}, 'requests')
            else:
                equal(set(dict.keys(r.sensor)), set(pre(j, n) for j in range(nch) for n in sensors[j]), 'sensors')
                equal(set(dict.keys(r.req)), set(pre(j, n) for j in range(nch) for n in set(handlers[j]) | {'help', 'sensor-list'}), 'requests')
            for j in range(nch):
                equal(set(client(j).sensors), set(sensors[j]), 'child-sensors')
                for n, info in sensors[j].items():
                    s = env.run_sync(lambda: client(j).future_get_sensor(n)) if mode == 'ic' else r.sensor[pre(j, n)]
                    t = info['t']
                    equal((s.name, s.description, s.units, s.type),
                          (n, info['desc'] or '', info['units'], t), 'sensor')
                    if mode == 'ic':
                        equal(list(s.params), list(info['params'] or []), 'sensor-params')
                for n, kind in handlers[j].items():
                    o = env.run_sync(lambda: ic.future_get_request(n)) if mode == 'ic' else r.req[pre(j, n)]
                    equal((o.name, o.description), (n, 'Handler %s %s.' % (n, kind)), 'request')

        def request(j, n, args, mid=None):
            kw = {} if mid is None else {'use_mid': False} if mid is False else {'mid': mid}
            if mode == 'ic' or esc(n) not in [esc(x) for x in list(handlers[j]) + ['help', 'sensor-list']]:
                return client(j).simple_request(n, *args, **kw)
            return r.req[pre(j, n)](*args, **kw)

        def answer(res):
            if isinstance(res, tuple):
                return res
            equal(bool(res), res.reply.reply_ok(), 'succeeded')
            return res.reply, res.informs

        def compare(res, n, informs, reply, mid):
            rep, infs = answer(res)
            ids = set([rep.mid] + [i.mid for i in infs])
            check(len(ids) == 1 and (None not in ids if mid is None else ids == {None if mid is False else b'%d' % mid}), 'message-ids', lambda: '%r want %r' % (ids, mid))
            check(rep.mtype == Message.REPLY and rep.name == n, 'reply-name', lambda: str(rep))
            check(all(i.mtype == Message.INFORM and i.name == n for i in infs), 'inform-name', lambda: str(infs))
            equal([list(i.arguments) for i in infs], informs, 'informs', lambda: 'request %r' % n)
            if reply is None:
                check(rep.arguments[0] == b'fail' and len(rep.arguments) == 2, 'fail-reply', lambda: str(rep))
                hits.add('failed')
            else:
                equal(list(rep.arguments), reply, 'reply', lambda: 'request %r' % n)
                hits.add('answered' if reply[0] == b'ok' else 'failed')
        for op in case['ops']:
            k = op[0]
            ctx.tag(k)
            j = op[1] % nch if k != 'advance' else 0
            if k == 'sensors':
                infos = {}
                for s, asbytes in op[2]:
                    ps = list(s['params'] or [])
                    if s['t'] == 'discrete' and asbytes:
                        ps = [p.encode('utf-8') for p in ps]
                    if s['name'] in sensors[j]:
                        hits.add('redefined')
                    infos[s['name']] = tuple([(s['desc'] or '').encode('utf-8') if asbytes else s['desc'] or '', s['units'],
                                              s['t']] + ps)
                    sensors[j][s['name']] = s
                manage(j, 'add_sensors', infos)
                hits.add('sensors')
                if mode != 'cont' and op[3]:
                    equal(set(man.fake_sensor_infos), set(sensors[0]), 'fake-sensor-infos')
            elif k == 'badsensor':
                s = op[2]
                info = (s['desc'] or '', s['units'], 'no-such') if op[3] == 'type' else (s['desc'] or '', s['units'], 'integer', 'x', 'y')
                try:
                    manage(j, 'add_sensors', {'ok': ('d', '', 'boolean'), s['name']: info})
                    check(False, 'bad-sensor-accepted', lambda: repr(info))
                except (ValueError, KeyError, TypeError):
                    pass
            elif k == 'handlers':
                d = {}
                for n, kind in op[2]:
                    d[n] = kind
                for n, kind in d.items():
                    if n in handlers[j]:
                        hits.add('redefined')
                    handlers[j][n] = kind
                if op[3]:
                    obj = type('Handlers', (object,), dict([('request_' + n.replace('-', '_'), handler(n, kind, True)) for n, kind in d.items()],
                                                           helper=lambda self: None, request_data=7))()
                    manage(j, 'add_request_handlers_object', obj)
                else:
                    manage(j, 'add_request_handlers_dict', dict((n, handler(n, kind, False)) for n, kind in d.items()))
                hits.add('handlers')
            elif k == 'nodoc':
                try:
                    manage(j, 'add_request_handlers_dict', {op[2]: lambda req, msg: None})
                    check(False, 'handler-without-documentation-accepted')
                except AssertionError:
                    pass
            elif k == 'advance':
                env.advance(op[1])
                continue
            elif k == 'req':
                verify()
                n, args, mid = op[2], [b(a) if isinstance(a, str) else a for a in op[3]], op[4]
                rawargs = [raw(a) for a in args]
                del calls[:]
                fut = []
                res = env.run_sync(lambda: request(j, n, args, mid))
                if n not in handlers[j]:
                    # anything the fake does not know succeeds
                    compare(res, n, [], [b'ok'], mid)
                    equal(calls, [], 'handler-called')
                    continue
                kind = handlers[j][n]
                got, infs, rep = expected(n, kind, rawargs)
                compare(res, n, infs, rep, mid)
                equal([c[:2] for c in calls], [] if got is None else [(n, got)], 'handler-calls')
                if mid and calls:
                    equal(calls[0][2], b'%d' % mid, 'handler-mid')
                ctx.tag(kind)
            elif k == 'ask':
                verify()
                what = op[2]
                known = sorted(set(handlers[j]) | {'help', 'sensor-list'}) if what == 'help' else sorted(sensors[j])
                arg = None if op[3] is None else (known + ['absent'])[op[3] % (len(known) + 1)]
                res = env.run_sync(lambda: request(j, what, [] if arg is None else [arg.encode() if op[4] else arg]))
                rep, infs = answer(res)
                if arg == 'absent':
                    compare(res, what, [], None, None)
                    continue
                names = known if arg is None else [arg]
                equal(list(rep.arguments), [b'ok', b'%d' % len(names)], 'built-in-reply', lambda: '%s %r' % (what, arg))
                equal(sorted(i.arguments[0] for i in infs), sorted(n.encode() for n in names), 'built-in-informs')
                if arg is None:
                    compare(res, what, [list(i.arguments) for i in infs], list(rep.arguments), None)
                for i in infs:
                    n = i.arguments[0].decode()
                    if what == 'help' and n in handlers[j]:
                        equal(i.arguments[1], ('Handler %s %s.' % (n, handlers[j][n])).encode(), 'help-text')
                    elif what == 'sensor-list':
                        s = sensors[j][n]
                        equal(i.arguments[1:4], [(s['desc'] or '').encode('utf-8'), s['units'].encode('utf-8'), s['t'].encode()], 'listed-sensor')
            elif k == 'many':
                # several requests at the same time do not get into each other's way
                verify()
                n = op[2]
                lens = op[3]
                futs = [request(j, n, [b'x' * m]) for m in lens]
                env.advance(2)
                for m, f in zip(lens, futs):
                    check(f.done(), 'request-unanswered')
                    if n not in handlers[j]:
                        compare(f.result(), n, [], [b'ok'], None)
                    else:
                        _, infs, rep = expected(n, handlers[j][n], [b'x' * m])
                        compare(f.result(), n, infs, rep, None)
        verify()
        env.loop.add_callback((ic if mode == 'ic' else r).stop)
        env.advance(1)
    ctx.nt({'sensors', 'handlers', 'redefined', 'answered', 'failed'} <= hits)
    ctx.tag(mode)
