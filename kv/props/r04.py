"""R04: a container is the exact union of its children."""
ID = 'R04'
CASES = {'quick': 1500, 'thorough': 60000}
HISTORY = ('ops',)
RULE = ('a case counts when the container had at least two children, a sensor appeared after the start, one disappeared, and a strategy or listener was set by '
        'name or filter with an effect')

CHILDREN = ['a', 'a-1', 'a.2', 'b_c', 'ab', 'items']
SENSORS = ['x', 'y', 'x.y', 'x-z', 'x-agg_y', 'agg_', 'get', 'a_x', 'b-c.x']
REQS = ['go', 'x-y', 'items', 'agg_r']
FILTERS = ['', 'x', '^a', '^a_', '_x$', 'x.y', '^agg', 'a_1|b_c', '[0-9]', 'ab_.*y', 'nothing', '^x', r'\.', '-']
STRATS = ['event', 'period 4', 'event-rate 1 10', 'none']
STATUS = ['', '', 'nominal', 'warn', 'nominal|warn', 'nom', '^(warn|error)$', 'r', '[nw]a', 'unknown']


def edits():
    from hypothesis import strategies as st
    return st.one_of(st.tuples(st.just('s'), st.sampled_from(SENSORS), st.one_of(st.none(), st.integers(0, 4))),
                     st.tuples(st.just('r'), st.sampled_from(REQS), st.booleans()))


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    c, s = st.integers(0, 4), st.sampled_from(SENSORS)
    eds = st.lists(edits(), min_size=1, max_size=5)
    op = gens.weighted(
        (5, st.tuples(st.just('change'), c, eds, st.sampled_from([0, 0, 0.5]), st.integers(0, 3))),
        (3, st.tuples(st.just('flap'), st.integers(0, 9), st.sampled_from([0, 0.5]))),
        (1, st.tuples(st.just('add'), st.sampled_from(CHILDREN), eds)),
        (1, st.tuples(st.just('drop'), c)), (1, st.tuples(st.just('restart'), c, eds)),
        (4, st.tuples(st.just('strat'), c, s, st.booleans(), st.sampled_from(STRATS))),
        (2, st.tuples(st.just('strats'), st.sampled_from(FILTERS), st.sampled_from(STRATS))),
        (1, st.tuples(st.just('gstrat'), st.lists(c, min_size=1, max_size=3, unique=True), s, st.booleans(), st.sampled_from(STRATS))),
        (4, st.tuples(st.just('listen'), c, s, st.booleans(), st.integers(0, 1))),
        (5, st.tuples(st.just('update'), c, s, st.integers(0, 2), st.sampled_from(['nominal', 'warn', 'error']))),
        (4, st.tuples(st.just('list'), st.integers(-1, 4), st.sampled_from(FILTERS), st.booleans(), st.sampled_from(STATUS), st.booleans(), st.booleans(), st.booleans())),
        (1, st.tuples(st.just('active'), st.booleans())),
        (2, st.tuples(st.just('advance'), st.sampled_from([0.25, 1.0]))),
        (2, st.tuples(st.just('sync'))))
    return st.fixed_dictionaries({
        'ver': st.sampled_from(['5.1', '5.0']),
        'children': st.lists(st.tuples(st.sampled_from(CHILDREN), st.lists(edits(), max_size=8)), min_size=1, max_size=4, unique_by=lambda x: x[0]),
        'badstop': gens.weighted((4, st.none()), (1, st.integers(0, 3))),
        'gaze': st.sampled_from([False, False, True]),
        'access': st.lists(st.integers(0, 3), min_size=3, max_size=8),
        'ops': gens.oplist(op, 4, 20)})


def run(case, ctx):
    import re
    from katcp import resource_client as rc
    from kv import vnet
    from kv.core import check, equal
    from kv.fakedev import FakeDevice
    from kv.props.i01 import sensor as mk_sensor
    from kv.props.i02 import decode
    from kv.props.r01 import esc, quiet_logs, tune
    hits = set()
    lg = quiet_logs()
    with vnet.Env() as env:
        devs, names = [], []
        strat, listen = {}, {}
        got = []

        def edit(i, eds):
            d = devs[i]
            n = 0
            for k, nm, v in eds:
                if k == 's':
                    if nm == 'agg_':
                        nm = 'agg_%d' % i
                    if v is None and nm in d.sensors:
                        d.remove_sensor(nm)
                        n += 1
                        hits.add('gone')
                    elif v is not None and nm not in d.sensors:
                        d.sensors[nm] = mk_sensor(v)
                        n += 1
                        if d.accepted:
                            hits.add('new')
                elif v and nm not in d.requests:
                    d.requests[nm] = 'help'
                    n += 1
                elif not v and nm in d.requests:
                    del d.requests[nm]
                    n += 1
            return n

        def new_dev(nm, eds):
            d = FakeDevice(env, case['ver'])
            d.serial = True
            for q in ('help', 'sensor-list', 'request-timeout-hint'):
                d.requests[q] = 'std'
            devs.append(d)
            names.append(nm)
            edit(len(devs) - 1, eds)
            d.up()
            return d

        class Container(rc.KATCPClientResourceContainer):
            def client_resource_factory(self, spec, parent, logger):
                r = super(Container, self).client_resource_factory(spec, parent, logger)
                tune(r, lg)
                return r
        clients = {}
        for nm, eds in case['children']:
            d = new_dev(nm, eds)
            clients[nm] = {'address': ('127.0.0.1', d.port), 'controlled': True}
        top = Container({'name': 'top', 'clients': clients, 'description': 'all'}, logger=lg)
        top.set_ioloop(env.loop)
        env.loop.add_callback(top.start)
        if case['gaze']:
            # somebody looks at the container all the time
            run_callback = env.loop._run_callback

            def gaze(callback):
                run_callback(callback)
                len(top.sensor), len(top.req)
            env.loop._run_callback = gaze
        nacc = [0]
        active = [True]

        def res(i):
            return top.children[esc(names[i])]

        def ident(i, nm):
            e = esc(nm)
            return e if e.startswith('agg_') else esc(names[i]) + '_' + e

        def union(attr):
            out = {}
            for i in range(len(names)):
                for e, o in dict.items(getattr(res(i), attr)):
                    out[ident(i, e)] = o
            return out

        def consistent(mask=None):
            """What is seen now is the union of what the children show."""
            if mask is None:
                mask = case['access'][nacc[0] % len(case['access'])]
                nacc[0] += 1
            for attr in (('sensor', 'req') if mask & 1 else ('req', 'sensor'))[:1 + (mask >> 1)]:
                want, have = union(attr), getattr(top, attr)
                equal(set(dict.keys(have)), set(want), 'union-' + attr)
                for k in want:
                    check(have[k] is want[k], 'union-object', lambda: '%s %r' % (attr, k))
                    check(getattr(have, k) is want[k], 'union-attribute')

        def errors():
            check(not env.loop.errors, 'loop-error', lambda: env.loop.errors[0][-1500:])

        def quiesce():
            for d in devs:
                d.faults.clear()
                d.up()
            env.advance(40)
            errors()
            check(set(dict.keys(top.children)) == set(esc(x) for x in names), 'children')
            check(top.is_connected(), 'connected')
            for i, d in enumerate(devs):
                r = res(i)
                check(r.synced, 'not-synced', lambda: r.state)
                equal(set(dict.keys(r.sensor)), set(esc(x) for x in d.sensors), 'child-sensors')
            want = set(ident(i, nm) for i, d in enumerate(devs) for nm in d.sensors)
            wreq = set(ident(i, nm) for i, d in enumerate(devs) for nm in d.requests)
            for attr, w in (('sensor', want), ('req', wreq)):
                equal(set(dict.keys(getattr(top, attr))), w, 'container-' + attr)
            check(top.sensors is top.sensor or set(dict.keys(top.sensors)) == want, 'sensors')
            consistent(2)
            for i, d in enumerate(devs):
                c, = d.live()
                for nm in d.sensors:
                    have = c.strategies.get(nm)
                    have = 'none' if have is None else ' '.join(x.decode() for x in have)
                    equal(have, strat.get((i, nm), 'none'), 'strategy', lambda: 'child %r sensor %r' % (names[i], nm))
                    o = top.sensor[ident(i, nm)]
                    equal((o.name, o.parent_name, ' '.join(o.sampling_strategy)), (nm, names[i], have), 'sensor')
                    for k in range(2):
                        equal(o.is_listener(L[k]), (i, nm, k) in listen, 'is-listener', lambda: '%r %r %d' % (names[i], nm, k))
                for nm in d.requests:
                    o = top.req[ident(i, nm)]
                    equal((o.name, o.is_active()), (nm, active[0]), 'request')

        class Listener(object):
            def __init__(self, k):
                self.k = k

            def __call__(self, sensor, reading):
                got.append((self.k, sensor.parent_name, sensor.name, reading.timestamp, reading.status, reading.value))
        L = [Listener(0), Listener(1)]
        watch = []

        def watch_sync():
            top.until_synced().add_done_callback(lambda f: watch.append([res(i).synced for i in range(len(names))]))
        watch_sync()
        consistent()
        quiesce()
        check(watch and all(watch[0]), 'until-synced', lambda: repr(watch))

        def full(nm, i):
            return 'agg_%d' % i if nm == 'agg_' else nm

        def name_of(i, nm, raw):
            if nm.startswith('agg_'):
                return nm if raw else esc(nm)
            return names[i] + '.' + nm if raw else ident(i, nm)

        for o in case['ops']:
            op = o[0]
            ctx.tag(op)
            if op in ('strat', 'strats', 'gstrat', 'listen', 'update', 'list'):
                quiesce()
            i = o[1] % len(names) if op in ('change', 'drop', 'restart', 'strat', 'listen', 'update') else None
            if op == 'change':
                if o[3]:
                    devs[i].faults.setdefault('sensor-sampling', []).extend([o[3]] * 2)
                if edit(i, o[2]):
                    devs[i].changed()
                    for _ in range(o[4] * 3):
                        env.tick()
                        consistent()
            elif op == 'flap':          # a sensor goes and comes back
                have = sorted((j, nm) for j, d in enumerate(devs) for nm in d.sensors)
                have = [x for x in have if strat.get(x, 'none') != 'none'] or have
                if not have:
                    continue
                j, nm = have[o[1] % len(have)]
                old = devs[j].sensors[nm]
                for step in range(2):
                    if step == 0:
                        devs[j].remove_sensor(nm)
                    else:
                        devs[j].sensors[nm] = old
                        if o[2]:
                            devs[j].faults.setdefault('sensor-sampling', []).append(o[2])
                    devs[j].changed()
                    for _ in range(24):
                        env.tick()
                        consistent()
                    env.advance(0.25)
                    consistent()
                hits.update(['gone', 'new'])
            elif op == 'add':
                if o[1] in names or len(names) >= 5:
                    continue
                d = new_dev(o[1], o[2])
                r = top.add_child_resource_client(o[1], {'address': ('127.0.0.1', d.port), 'controlled': True})
                check(r is res(len(names) - 1), 'added-child')
                if not active[0]:
                    r.set_active(False)
                hits.add('new')
            elif op == 'drop':
                f = top.until_not_synced()
                devs[i].drop()
                env.settle()
                check(f.done(), 'until-not-synced')
            elif op == 'restart':
                devs[i].down()
                env.settle()
                edit(i, o[2])
                devs[i].up()
            elif op == 'active':
                top.set_active(o[1])
                active[0] = o[1]
            elif op == 'strat':
                nm = full(o[2], i)
                r = env.run_sync(lambda: top.set_sampling_strategy(name_of(i, nm, o[3]), o[4]))
                if nm in devs[i].sensors:
                    strat[i, nm] = o[4]
                    hits.add('effect')
                    equal(dict((k, list(v)) for k, v in r.items()), {names[i]: [esc(nm)]}, 'strategy-result')
                else:
                    equal(dict(r), {}, 'strategy-result')
                quiesce()
            elif op == 'strats':
                r = env.run_sync(lambda: top.set_sampling_strategies(o[1], o[2]))
                w = {}
                for j, d in enumerate(devs):
                    for nm in d.sensors:
                        if re.search(o[1], ident(j, nm)):
                            strat[j, nm] = o[2]
                            w.setdefault(names[j], set()).add(esc(nm))
                            hits.add('effect')
                equal(dict((k, set(v)) for k, v in r.items()), w, 'strategies-result')
                quiesce()
            elif op == 'gstrat':
                mem = sorted(set(x % len(names) for x in o[1]))
                if o[3] and o[2] == 'agg_':
                    continue
                g = rc.ClientGroup('g', [res(x) for x in mem])
                if o[3]:
                    env.run_sync(lambda: g.set_sampling_strategy(o[2], o[4]))
                else:
                    env.run_sync(lambda: g.set_sampling_strategies('^' + esc(o[2]), o[4]))
                for x in mem:
                    for nm in ([o[2]] if o[3] else [s for s in devs[x].sensors if esc(s).startswith(esc(o[2]))]):
                        strat[x, nm] = o[4]
                quiesce()
            elif op == 'listen':
                nm = full(o[2], i)
                r = env.run_sync(lambda: top.set_sensor_listener(name_of(i, nm, o[3]), L[o[4]]))
                if nm in devs[i].sensors:
                    listen[i, nm, o[4]] = 1
                    hits.add('effect')
                    equal(dict((k, list(v)) for k, v in r.items()), {names[i]: [esc(nm)]}, 'listener-result')
                else:
                    equal(dict(r), {}, 'listener-result')
            elif op == 'update':
                nm = full(o[2], i)
                if nm not in devs[i].sensors:
                    continue
                t = devs[i].sensors[nm]['type']
                raw = {'integer': ['3', '-2', '0'], 'float': ['0.5', '1', '2'], 'boolean': ['1', '0', '1'], 'discrete': ['on', 'off', 'on'], 'string': ['u', 'v', 'w']}[t][o[3]]
                del got[:]
                devs[i].update(nm, o[4], raw)
                env.settle()
                w = []
                if strat.get((i, nm), 'none') != 'none':
                    w = [(k, names[i], nm, o[4], decode(t, raw)) for k in range(2) if (i, nm, k) in listen]
                equal(sorted(x[:3] + x[4:] for x in got), sorted(w), 'listener-calls')
            elif op == 'list':
                lvl = o[1] if 0 <= o[1] < len(names) else None
                owner = top if lvl is None else res(lvl)
                if o[7]:
                    hits.add('refresh')
                    for d in devs:              # readings nobody was told of
                        for nm in sorted(d.sensors)[::2]:
                            d.sensors[nm]['reading'] = (env.now, 'warn', d.sensors[nm]['reading'][2])
                r = env.run_sync(lambda: owner.list_sensors(filter=o[2], strategy=o[3], status=o[4], use_python_identifiers=o[5], tuple=o[6], refresh=o[7]))
                w = []
                for j, d in enumerate(devs):
                    if lvl is not None and j != lvl:
                        continue
                    for nm, sd in d.sensors.items():
                        pid = ident(j, nm) if lvl is None else esc(nm)
                        obj = top.sensor[ident(j, nm)]
                        rd = obj.reading
                        if o[7] and re.search(o[2], pid if o[5] else nm) and not (o[3] and strat.get((j, nm), 'none') == 'none'):
                            equal((rd.status, rd.value), (sd['reading'][1], decode(sd['type'], sd['reading'][2])), 'refreshed')
                        if not re.search(o[2], pid if o[5] else nm) or (o[3] and strat.get((j, nm), 'none') == 'none') or (o[4] and not re.search(o[4], rd.status)):
                            continue
                        pre = '' if lvl is not None or nm.startswith('agg_') else names[j] + '.'
                        if o[6]:
                            w.append((pid, (pre + nm, rd.value, rd.timestamp, sd['type'], sd['units'], rd.received_timestamp, rd.status, obj.sampling_strategy)))
                        else:
                            w.append((pid, (obj, pre + nm, pid, sd['desc'], sd['type'], sd['units'], rd)))
                w = [x[1] for x in sorted(w, key=lambda x: x[0])]
                if not o[6]:
                    r = [(x.object, x.name, x.python_identifier, x.description, x.type, x.units, x.reading) for x in r]
                equal([tuple(x) for x in r], w, 'listing')
                if 0 < len(w) < sum(len(d.sensors) for d in devs):
                    hits.add('some')
            elif op == 'advance':
                env.advance(o[1])
            elif op == 'sync':
                quiesce()
            env.settle()
            errors()
            consistent()
        quiesce()
        if len(names) > 1 and {'new', 'gone', 'effect'} <= hits:
            ctx.nt()
        bad = case['badstop']
        if bad is not None:             # one child cannot be stopped; the others are all the same
            bad %= len(names)
            stop = res(bad).stop

            def fails():
                raise RuntimeError('stop')
            res(bad).stop = fails
        top.stop()
        env.settle()
        env.advance(20)
        if bad is not None:
            check(not any(d.live() for j, d in enumerate(devs) if j != bad), 'connected-after-stop')
            stop()
            env.settle()
            env.advance(20)
        check(not any(d.live() for d in devs), 'connected-after-stop')
        for d in devs:
            d.close()
