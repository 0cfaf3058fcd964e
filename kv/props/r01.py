"""R01: a resource client exposes exactly the permitted requests and all sensors."""
ID = 'R01'
CASES = {'quick': 2500, 'thorough': 80000}
HISTORY = ('ops',)
RULE = ('a case counts when the resource synced at least three times, an item was added, one removed and one modified, the lists excluded one '
        'request and allowed another one of the device, and a request was answered by the device')

SENSORS = ['a', 'b', 'a.b', 'c-d', 'e_f', 'items', 'agg_x']
REQS = ['r1', 'r2', 'r-3', 'r-4-b', 'get', 'update', 'xY']


def edits():
    from hypothesis import strategies as st
    return st.one_of(
        st.tuples(st.just('s'), st.sampled_from(SENSORS), st.one_of(st.none(), st.integers(0, 11), st.integers(0, 11))),
        st.tuples(st.just('r'), st.sampled_from(REQS), st.one_of(st.none(), st.integers(0, 3), st.integers(0, 3))),
        st.tuples(st.just('h'), st.sampled_from(REQS), st.sampled_from([0, 2, 7.5, 0.25])))


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    eds = st.lists(edits(), min_size=1, max_size=4)
    alias = st.sampled_from(REQS + ['r_3', 'r-4_b', 'r_4_b', 'xy', 'help', 'sensor-list', 'sensor_list', 'absent'])
    lst = gens.weighted((1, st.none()), (1, st.just([])), (4, st.lists(alias, min_size=1, max_size=6)))
    arg = st.one_of(gens.bytestr(5), st.integers(-10, 10))
    op = gens.weighted(
        (5, st.tuples(st.just('change'), eds)),
        (4, st.tuples(st.just('req'), st.integers(-2, len(REQS) + 1), st.lists(arg, max_size=4), st.sampled_from([None, None, 1.0]),
                      st.sampled_from([None, None, None, 'fail', 'stall', 'drop', 0.5]), st.sampled_from([None, None, None, 9001, True, False]))),
        (1, st.tuples(st.just('active'), st.booleans())),
        (1, st.tuples(st.just('fault'), st.sampled_from(['help', 'sensor-list', 'request-timeout-hint']), st.sampled_from(['fail', 'drop', 'dropmid', 0.5]))),
        (1, st.tuples(st.just('drop'))), (1, st.tuples(st.just('down'))), (2, st.tuples(st.just('up'))),
        (1, st.tuples(st.just('restart'), eds)),
        (2, st.tuples(st.just('advance'), st.sampled_from([0.25, 1.0, 4.0]))),
        (3, st.tuples(st.just('sync'))))
    return st.fixed_dictionaries({
        'ver': st.sampled_from(['5.1', '5.1', '5.0', '4.0']),
        'init': gens.weighted((1, st.lists(edits(), max_size=6)),
                              (4, st.lists(edits(), max_size=8).map(lambda e: [['r', n, 0] for n in REQS] + [['s', n, 0] for n in SENSORS[::2]] + e))),
        'controlled': gens.weighted((2, st.just(True)), (1, st.just(False)), (1, st.none())),
        'allowed': lst, 'excluded': lst,
        'dummy': gens.weighted((5, st.just(False)), (1, st.just(True))),
        'ops': gens.oplist(op, 3, 18)})


def esc(n):
    return n.replace('.', '_').replace('-', '_')


def quiet_logs():
    import logging
    for n in ('katcp', 'katcp.resource_client', 'katcp.resource', 'katcp.core', 'katcp.inspect_client', 'katcp.client', 'tornado', 'tornado.application'):
        logging.getLogger(n).disabled = True
    lg = logging.getLogger('kv.rc')
    lg.disabled = True
    return lg


def new_resource(env, dev, spec, name='res', parent=None):
    from katcp import resource_client as rc
    lg = quiet_logs()
    dev.up()
    spec = dict(spec, name=name, address=('127.0.0.1', dev.port))
    r = rc.KATCPClientResource(spec, parent=parent, logger=lg)
    r.set_ioloop(env.loop)
    tune(r, lg)
    return r


def tune(r, lg):
    """Shorter resync delays than the defaults (the attributes are there for that)."""
    orig = r.inspecting_client_factory

    def factory(host, port, ioloop_set_to):
        ic = orig(host, port, ioloop_set_to)
        ic.initial_resync_timeout, ic.max_resync_timeout, ic.sync_timeout = 1, 8, 4
        ic._logger = ic.katcp_client._logger = lg
        return ic
    r.inspecting_client_factory = factory


def permitted(case, reqs):
    allowed = set(esc(x) for x in case['allowed'] or ())
    excluded = set(esc(x) for x in case['excluded'] or ())
    return set(n for n in reqs if esc(n) not in excluded and (case['controlled'] or esc(n) in allowed))


def run(case, ctx):
    from katcp import resource
    from kv import vnet
    from kv.core import b, check, equal
    from kv.props.i01 import apply_edits, make_device, want_r, want_s
    hits = set()
    with vnet.Env() as env:
        dev = make_device(env, case['ver'], case['init'])
        spec = {}
        if case['controlled'] is not None:
            spec['controlled'] = case['controlled']
        if case['allowed'] is not None:
            spec['always_allowed_requests'] = case['allowed']
        if case['excluded'] is not None:
            spec['always_excluded_requests'] = case['excluded']
        if case['dummy']:
            spec['dummy_unknown_requests'] = True
        r = new_resource(env, dev, spec)
        env.loop.add_callback(r.start)
        stale = [False]

        def model_check():
            want = permitted(case, dev.requests)
            if want != set(dev.requests) and want:
                hits.add('some')
            equal(set(dict.keys(r.req)), set(esc(n) for n in want), 'requests', lambda: 'device %r spec %r' % (sorted(dev.requests), spec))
            equal(set(dict.keys(r.sensor)), set(esc(n) for n in dev.sensors), 'sensors')
            for n in want:
                o = r.req[esc(n)]
                equal((o.name, o.description, o.timeout_hint), want_r(dev, n), 'request')
                check(getattr(r.req, esc(n)) is o, 'request-attr')
                equal(o.is_active(), active[0], 'is-active')
            for n in dev.sensors:
                o = r.sensor[esc(n)]
                w = want_s(dev, n)
                equal((o.name, o.description, o.units, o.type), w[:4], 'sensor')
                equal(o.normalised_name, esc(n), 'normalised-name')
                equal(o.parent_name, 'res', 'parent-name')
                check(getattr(r.sensor, esc(n)) is o, 'sensor-attr')
            if case['dummy']:
                o = r.req.no_such_request
                check(o is not None, 'dummy')
                dict.pop(r.req, 'no_such_request', None)

        active = [True]
        syncs = []

        def watch():
            f = r.until_synced()
            f.add_done_callback(lambda f: (syncs.append((r.synced, set(dict.keys(r.sensor)), set(esc(x) for x in dev.sensors), stale[0])),
                                           r.until_not_synced().add_done_callback(lambda f: watch())))
        watch()

        def verify(must=False):
            check(not env.loop.errors, 'loop-error', lambda: env.loop.errors[0][-1500:])
            for s in syncs:
                if s[0] and not s[3]:
                    equal(s[1], s[2], 'sensors-when-synced')
            if must:
                check(r.synced, 'not-synced', lambda: r.state)
            if r.synced:
                equal(r.state, 'synced', 'state')
                check(r.is_connected() and len(dev.live()) == 1, 'synced-without-connection')
                if not stale[0]:
                    model_check()

        def resync():
            dev.faults.clear()
            dev.up()
            env.advance(40)
            stale[0] = False
            verify(True)

        nsync = 0
        for o in case['ops']:
            op = o[0]
            ctx.tag(op)
            if op == 'change':
                if apply_edits(dev, o[1], hits):
                    dev.changed()
                    stale[0] = True
                    env.settle()
                    stale[0] = bool(dev.faults.get('help') or dev.faults.get('sensor-list'))
            elif op == 'fault':
                dev.faults.setdefault(o[1], []).append(o[2])
                stale[0] = True
                dev.changed()
            elif op == 'drop':
                dev.drop()
            elif op == 'down':
                dev.down()
            elif op == 'up':
                dev.up()
            elif op == 'restart':
                dev.down()
                env.settle()
                apply_edits(dev, o[1], hits)
                dev.up()
            elif op == 'active':
                r.set_active(o[1])
                active[0] = o[1]
                equal(r.is_active(), o[1], 'resource-active')
            elif op == 'advance':
                env.advance(o[1])
            elif op == 'sync':
                resync()
                nsync += 1
                continue
            elif op == 'req':
                if not r.synced or stale[0]:
                    resync()
                can = sorted(permitted(case, dev.requests) - {'help', 'request-timeout-hint'})
                cannot = sorted(set(REQS + ['sensor-list', 'absent']) - set(can))
                n = can[o[1] % len(can)] if can and o[1] >= 0 else cannot[o[1] % len(cannot)]
                if n not in permitted(case, dev.requests):
                    check(esc(n) not in dict.keys(r.req), 'forbidden-request')
                    if case['dummy']:
                        seen = len(dev.log)
                        req = r.req[esc(n)]
                        if active[0]:
                            rep = env.run_sync(lambda: req(*o[2]))
                            check(rep.succeeded, 'dummy-fails')
                        env.settle()
                        equal(len(dev.log), seen, 'dummy-sent')
                        dict.pop(r.req, esc(n), None)
                    continue
                args = [b(a) if isinstance(a, str) else a for a in o[2]]
                raw = [a if isinstance(a, bytes) else str(a).encode() for a in args]
                if n == 'sensor-list':
                    args = raw = []
                kw = {} if o[3] is None else {'timeout': o[3]}
                ids = not case['ver'].startswith('4')
                if o[5] is False or o[5] and ids:
                    kw['use_mid' if isinstance(o[5], bool) else 'mid'] = o[5]
                req = r.req[esc(n)]
                seen = len(dev.log)
                t0 = env.now
                if not active[0]:
                    try:
                        req(*args, **kw)
                    except resource.KATCPResourceInactive:
                        pass
                    else:
                        check(False, 'inactive-request-sent')
                    env.settle()
                    equal(len(dev.log), seen, 'inactive-sent')
                    continue
                limit = o[3] if o[3] is not None else want_r(dev, n)[2] or 5.0
                fault = o[4]
                if fault == 0.5 and limit < 0.5 and (not ids or o[5] is False):
                    fault = None            # a late reply without id could be taken for that to the next request
                if fault:
                    dev.faults.setdefault(n, []).append(fault)
                rep = env.run_sync(lambda: req(*args, **kw), 100)
                t1 = env.now
                dev.faults.pop(n, None)
                mine = [x[2] for x in dev.log[seen:] if x[2].name == n]
                equal([list(x.args) for x in mine], [raw], 'request-arguments')
                equal([x.mid for x in mine], [None if not ids or o[5] is False else '9001' if o[5] == 9001 and o[5] is not True else mine[0].mid or 'an id'], 'request-id')
                ok = not fault or fault == 0.5 and limit > 0.5
                if fault == 'stall' and mine[0].mid is not None:
                    check(abs(t1 - t0 - limit) < 1e-3, 'timeout', lambda: 'after %r, limit %r' % (t1 - t0, limit))
                equal(rep.succeeded, ok, 'succeeded')
                equal(bool(rep), ok, 'truth')
                if ok:
                    if n == 'sensor-list':
                        inf = [[x, dev.sensors[x]['desc']] for x in sorted(dev.sensors)]
                        equal([[y.decode() for y in x.arguments[:2]] for x in rep.informs], inf, 'reply-informs')
                    else:
                        equal(list(rep.reply.arguments), [b'ok'] + raw, 'reply')
                        equal([list(x.arguments) for x in rep.informs], [[b'i%d' % k] + raw for k in range(len(raw) % 3)], 'reply-informs')
                    equal(rep.messages, [rep.reply] + rep.informs, 'messages')
                    hits.add('answered')
            env.settle()
            verify()
        resync()
        ctx.tag(*('hit-' + h for h in hits))
        ctx.tag('syncs-%d' % min(3, len(syncs)))
        if sum(1 for s in syncs if s[0]) >= 2 and {'added', 'removed', 'modified', 'answered', 'some'} <= hits:
            ctx.nt()
        r.stop()
        env.settle()
        env.advance(20)
        check(not r.synced and not r.is_connected(), 'synced-after-stop')
        check(not dev.live(), 'connected-after-stop')
        dev.close()
