"""I01: a synced inspecting client's model equals the device's requests and sensors."""
ID = 'I01'
CASES = {'quick': 2000, 'thorough': 60000}
HISTORY = ('ops',)
RULE = ('a case counts when the client synced at least three times, the interface changed with an item added, one removed and one '
        'modified, and an inspection failed or the connection was lost')

SENSORS = ['a', 'b', 'a.b', 'c-d', 'e_f']
REQS = ['help', 'sensor-list', 'r1', 'r2', 'r-3']
STYPES = [('integer', ['-5', '5']), ('float', []), ('boolean', []), ('discrete', ['on', 'off']), ('string', []), ('integer', []), ('discrete', ['off', '', 'on'])]


def sensor(v, now=1.0):
    t, p = STYPES[v % len(STYPES)]
    return {'desc': 'desc %d' % (v // 3), 'units': ['', 'm', '\u00b0C'][v % 3], 'type': t, 'params': p,
            'reading': (now, 'nominal', {'integer': '1', 'float': '1.5', 'boolean': '1', 'discrete': 'on', 'string': 'x'}[t])}


def edits():
    from hypothesis import strategies as st
    return st.one_of(
        st.tuples(st.just('s'), st.sampled_from(SENSORS), st.one_of(st.none(), st.integers(0, 13))),
        st.tuples(st.just('s'), st.sampled_from(SENSORS), st.integers(0, 13)),
        st.tuples(st.just('r'), st.sampled_from(REQS[2:]), st.one_of(st.none(), st.integers(0, 3))),
        st.tuples(st.just('h'), st.sampled_from(REQS[2:]), st.sampled_from([0, 0, 2, 7.5, 0.25])))


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    eds = st.lists(edits(), min_size=1, max_size=4)
    fault = st.tuples(st.just('fault'), st.sampled_from(['help', 'sensor-list', 'sensor-list', 'request-timeout-hint', 'request-timeout-hint']),
                      st.lists(st.sampled_from(['fail', 'drop', 'dropmid', 'stall', 0.5, 2.0]), min_size=1, max_size=2))
    op = gens.weighted(
        (6, st.tuples(st.just('change'), eds, st.booleans())),
        (2, fault), (1, st.tuples(st.just('drop'))), (1, st.tuples(st.just('down'))), (2, st.tuples(st.just('up'))),
        (1, st.tuples(st.just('restart'), eds)),
        (3, st.tuples(st.just('advance'), st.sampled_from([0.125, 0.5, 1.0, 2.0, 5.0]))),
        (1, st.tuples(st.just('tick'), st.integers(1, 3))),
        (2, st.tuples(st.just('lookup'), st.sampled_from(['future_get_sensor', 'future_check_sensor']), st.sampled_from(SENSORS))),
        (2, st.tuples(st.just('lookup'), st.sampled_from(['future_get_request', 'future_check_request']), st.sampled_from(REQS[2:] + ['help']))),
        (1, st.tuples(st.just('update'), st.sampled_from(SENSORS))),
        (1, st.tuples(st.just('inspect'), st.sampled_from(['s', 'r']), st.one_of(st.none(), st.integers(0, 4)), st.lists(edits(), max_size=3))),
        (3, st.tuples(st.just('sync'))))
    return st.fixed_dictionaries({
        'ver': st.sampled_from(['5.1', '5.1', '5.0', '5.0-M', '4.0']),
        'init': st.lists(edits(), max_size=8),
        'slow': gens.weighted((4, st.just(0)), (1, st.just(0.25)), (1, st.just(2.0))),     # how long the state callback takes
        'slowsync': gens.weighted((4, st.just(0)), (1, st.just(2.0))),
        'zero': gens.weighted((2, st.just(False)), (1, st.just(True))),
        'up': gens.weighted((5, st.just(True)), (1, st.just(False))),
        'first': gens.weighted((6, st.just(True)), (1, st.just(False))),     # inspect the device as soon as connected
        'ops': gens.oplist(op, 3, 20)})


def apply_edits(dev, eds, hits=None):
    n = 0
    for k, name, v in eds:
        if k == 's':
            old = dev.sensors.get(name)
            if v is None:
                if old is not None:
                    dev.remove_sensor(name)
                    kind = 'removed'
                else:
                    continue
            else:
                new = sensor(v)
                if old is not None and all(old[x] == new[x] for x in ('desc', 'units', 'type', 'params')):
                    continue
                kind = 'added' if old is None else 'modified'
                if old is not None:
                    dev.remove_sensor(name)
                dev.sensors[name] = new
        elif k == 'r':
            old = dev.requests.get(name)
            if v is None:
                if old is None:
                    continue
                del dev.requests[name]
                dev.hints.pop(name, None)
                kind = 'removed'
            else:
                new = 'help text %d' % v
                if old == new:
                    continue
                dev.requests[name] = new
                kind = 'added' if old is None else 'modified'
        else:
            if name not in dev.requests or dev.hints.get(name, 0) == v:
                continue
            dev.hints[name] = v
            kind = 'modified'
        n += 1
        if hits is not None:
            hits.add(kind)
    return n


def make_device(env, ver, init):
    from kv.fakedev import FakeDevice
    dev = FakeDevice(env, ver)
    for r in REQS[:2]:
        dev.requests[r] = 'std'
    if ver.startswith('5.1'):
        dev.requests['request-timeout-hint'] = 'std'
    apply_edits(dev, init)
    return dev


def s_info(obj):
    from katcp import Sensor
    return (obj.name, obj.description, obj.units, obj.stype, [p.decode() for p in map(lambda x: x if isinstance(x, bytes) else str(x).encode(), obj.params)])


def want_s(dev, n):
    s = dev.sensors[n]
    return (n, s['desc'], s['units'], s['type'], list(s['params']))


def want_r(dev, n):
    hint = dev.hints.get(n) or None if dev.ver.startswith('5.1') else None
    return (n, dev.requests[n], hint)


def new_client(env, dev, cls=None, first=True):
    import logging
    from katcp.inspecting_client import InspectingClientAsync
    lg = logging.getLogger('kv.ic')
    lg.disabled = True
    logging.getLogger('katcp').disabled = True
    for n in ('tornado', 'tornado.application', 'katcp.core', 'katcp.inspect_client', 'katcp.client'):
        logging.getLogger(n).disabled = True

    class IC(cls or InspectingClientAsync):
        initial_resync_timeout = 1
        max_resync_timeout = 8
        sync_timeout = 4
    dev.up()
    ic = IC('127.0.0.1', dev.port, ioloop=env.loop, logger=lg, **({} if first else {'initial_inspection': False}))
    return ic


def run(case, ctx):
    from kv import vnet
    from kv.core import check, equal
    from tornado import gen
    hits = set()
    with vnet.Env() as env:
        dev = make_device(env, case['ver'], case['init'])
        dev.zero_hints = case['zero']
        history = []                # (connections accepted, model) of the device

        def model():
            return {'sensors': dict((n, want_s(dev, n)) for n in dev.sensors), 'requests': dict((n, want_r(dev, n)) for n in dev.requests)}

        def snap():
            history.append((dev.accepted, model()))
        snap()
        orig_greet = dev.send

        def send(c, t, name, mid=None, args=()):
            if history[-1][0] != dev.accepted:      # what the device is as the connection begins
                snap()
            orig_greet(c, t, name, mid, args)
        dev.send = send
        ic = new_client(env, dev, first=case['first'])
        if not case['up']:
            dev.down()
        ann = {'sensors': {}, 'requests': {}}       # the model as announced, with what the objects said when announced
        states = []
        blind = [not case['first']]
        busy = [False]              # the user is busy with the news that the client is synced
        problems = []

        @gen.coroutine
        def state_cb(state, changes):
            states.append(state)
            if state.synced and not (state.connected and state.data_synced) or state.data_synced and not state.connected:
                problems.append('bad state %r' % (state,))
            if changes is not None:
                if not (state.data_synced and state.model_changed):
                    problems.append('changes %r with state %r' % (changes, state))
                for kind, get, info in (('requests', ic.future_get_request, lambda o: (o.name, o.description, o.timeout_hint)),
                                        ('sensors', ic.future_get_sensor, s_info)):
                    ch = changes.get(kind)
                    if ch is None:
                        continue
                    m = ann[kind]
                    added, removed = set(ch.added), set(ch.removed)
                    if not (added or removed):
                        problems.append('empty %s changes' % kind)
                    if not removed <= set(m):
                        problems.append('%s removed but not there: %r' % (kind, removed - set(m)))
                    for n in removed:
                        m.pop(n, None)
                    if added & set(m):
                        problems.append('%s added but there already: %r' % (kind, added & set(m)))
                    for n in added:
                        try:
                            o = yield get(n)
                            m[n] = info(o) if o is not None else None
                        except Exception as e:
                            problems.append('lookup of %s %r: %r' % (kind, n, e))
                            m[n] = None
            elif state.model_changed:
                problems.append('model changed without changes')
            if state.synced and not blind[0]:
                now = [m for k, m in history if k == dev.accepted]
                for kind in ann:
                    for n in set(ann[kind]).union(*[m[kind] for m in now]):
                        have, could = ann[kind].get(n), [m[kind].get(n) for m in now]
                        ok = have in could
                        if kind == 'requests' and have is not None and not ok:      # help and hint are asked for separately
                            ok = have[1] in [x[1] for x in could if x] and have[2] in [None] + [x[2] for x in could if x]
                        if not ok:
                            problems.append('synced, but %s %r was never %r on this connection: %r' % (kind, n, have, could))
            if case['slow'] and changes is not None:
                yield gen.sleep(case['slow'])
            if case['slowsync'] and state.synced:
                busy[0] = True
                yield gen.sleep(case['slowsync'])
                busy[0] = False
        ic.set_state_callback(state_cb)

        @gen.coroutine
        def lookup(method, name):
            try:
                o = yield getattr(ic, method)(name)
            except Exception:
                return          # may fail when the connection does
            if method.startswith('future_get') and o is not None and o.name != name:
                problems.append('lookup of %r returned %r' % (name, o.name))
        env.loop.add_callback(ic.connect)
        if blind[0]:
            # the first time it connects it takes the device as it is
            dev.up()
            env.advance(1 + case['slow'] + case['slowsync'])
            check(ic.synced and not dev.log and not ic.sensors and not ic.requests, 'inspected-unasked', lambda: '%r %r' % (ic.state, [x[2] for x in dev.log]))
            blind[0] = False
            dev.changed()
            env.advance(4 + case['slow'] + case['slowsync'])
            check(ic.synced, 'not-synced')
        pure = [True]               # no lookups, and no inspection takes any time

        def verify(must=False):
            check(not env.loop.errors, 'loop-error', lambda: env.loop.errors[0][-1500:])
            check(not problems, 'announcement', lambda: problems[0])
            if must:
                check(ic.synced, 'not-synced', lambda: 'state %r, connected %r, device log tail %r' % (ic.state, ic.connected, [x[2] for x in dev.log[-4:]]))
            if pure[0] and not busy[0] and not ic.state.data_synced:
                # a failed or unfinished inspection leaves the model as it was
                equal(set(ic.sensors), set(ann['sensors']), 'sensors-after-failure')
                equal(set(ic.requests), set(ann['requests']), 'requests-after-failure')
            if ic.synced and not busy[0]:
                equal(len(dev.live()), 1, 'synced-without-connection')
                equal(set(ic.sensors), set(dev.sensors), 'sensors')
                equal(set(ic.requests), set(dev.requests), 'requests')
                equal(ann['sensors'], dict((n, want_s(dev, n)) for n in dev.sensors), 'announced-sensors')
                equal(ann['requests'], dict((n, want_r(dev, n)) for n in dev.requests), 'announced-requests')

        def inspect(k, i, eds):
            """One call of inspect_sensors or inspect_requests."""
            if not ic.synced or any(dev.faults.values()) or case['slow'] or case['slowsync'] or not pure[0]:
                return
            kind, names = ('sensors', SENSORS) if k == 's' else ('requests', REQS)
            name = None if i is None else names[i]
            before = model()[kind]
            apply_edits(dev, eds, hits)
            snap()
            after = model()[kind]
            ch = set(n for n in set(before) | set(after) if before.get(n) != after.get(n))
            if name is not None:
                ch &= set([name])
            res = env.run_sync(lambda: (ic.inspect_sensors if k == 's' else ic.inspect_requests)(name))
            if not ch:
                check(res is None, 'inspect-result', lambda: '%r' % (res,))
            else:
                check(res is not None, 'inspect-result', lambda: 'nothing for %r' % (ch,))
                equal((set(res.added), set(res.removed)), (ch & set(after), ch & set(before)), 'inspect-result', lambda: '%s %r' % (kind, name))
            equal(set(ic.sensors if k == 's' else ic.requests), set(before) - (ch - set(after)) | (ch & set(after)), 'inspect-model')
            dev.changed()
            env.settle()
            verify(True)

        def resync():
            for q in dev.faults.values():
                if any(q):
                    hits.add('bad')
            dev.faults.clear()
            pure[0] = False
            dev.up()
            env.advance(40)
            verify(True)
            pure[0] = True
            # what lookups return now
            for n in sorted(dev.sensors):
                equal(s_info(env.run_sync(lambda: ic.future_get_sensor(n))), want_s(dev, n), 'sensor-object')
                s1, s2 = [env.run_sync(lambda: ic.future_get_sensor(n, u)) for u in (None, True)]
                check(s1 is s2, 'sensor-object-changes', n)
            for n in sorted(dev.requests):
                o = env.run_sync(lambda: ic.future_get_request(n))
                equal((o.name, o.description, o.timeout_hint), want_r(dev, n), 'request-object')
                r2 = env.run_sync(lambda: ic.future_get_request(n, True))
                check(r2 is o, 'request-object-changes', n)
            verify(True)

        syncs = [0]
        for o in case['ops']:
            op = o[0]
            ctx.tag(op)
            if op == 'change':
                if apply_edits(dev, o[1], hits):
                    snap()
                    dev.changed()
                    if o[2]:
                        dev.changed()
            elif op == 'fault':
                if o[1] == 'request-timeout-hint' and 'fail' in o[2] and apply_edits(dev, [('r', REQS[2], 0), ('h', REQS[2], 7.5)], hits):
                    snap()
                dev.faults.setdefault(o[1], []).extend(o[2])
                if any(x not in ('fail', 'drop', 'dropmid') for x in o[2]):
                    pure[0] = False
                if dev.live():
                    dev.changed()
            elif op == 'drop':
                dev.drop()
                hits.add('bad')
            elif op == 'down':
                dev.down()
                hits.add('bad')
            elif op == 'up':
                dev.up()
            elif op == 'restart':
                dev.down()
                apply_edits(dev, o[1], hits)
                dev.up()
                snap()
                hits.add('bad')
            elif op == 'advance':
                env.advance(o[1])
            elif op == 'tick':
                for _ in range(o[1]):
                    env.tick()
                continue
            elif op == 'inspect':
                inspect(o[1], o[2], o[3])
            elif op == 'lookup':
                pure[0] = False
                env.loop.add_callback(lookup, o[1], o[2])
                if len(o[2]) % 2:
                    env.tick()
                    continue
            elif op == 'update':
                # also for a sensor that the client does not know yet
                pure[0] = False
                if o[1] in dev.sensors:
                    for c in dev.live():
                        dev.status(c, o[1])
            elif op == 'sync':
                resync()
                syncs[0] += 1
                continue
            if op != 'advance':
                env.settle()
            verify()
        resync()
        if sum(1 for s in states if s.synced) >= 3 and {'added', 'removed', 'modified', 'bad'} <= hits:
            ctx.nt()
        ic.stop()
        env.settle()
        env.advance(30)
        check(not problems, 'announcement', lambda: problems[0])
        check(not ic.is_connected() and not ic.synced, 'synced-after-stop')
        dev.close()
