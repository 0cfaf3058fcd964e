"""R03: group requests and waits succeed exactly when the quorum does."""
ID = 'R03'
CASES = {'quick': 2500, 'thorough': 80000}
HISTORY = ('ops',)
RULE = ('a case counts when a group of at least two members was waited for with a member satisfying the condition later than the start, or a request to '
        'a group of at least two members had different outcomes')

MEMBERS = ['m0', 'm-1', 'm.2', 'm_3']
GROUPS = ['g', 'g-2', 'h.x']
REQS = ['go', 'get', 'x-y', 'clear', 'items']
CONDS = [('value', 0), ('value', 1), ('value', 2), ('ge', 1), ('ge', 2), ('status', 'warn'), ('ts', 3), ('value', None)]


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    m = st.integers(0, 3)
    val = st.integers(0, 3)
    stat = st.sampled_from(['nominal', 'nominal', 'warn', 'error', 'unknown'])
    cond = st.one_of(st.sampled_from(CONDS), st.sampled_from(CONDS[1:5]))
    timeout = st.sampled_from([0, 0.375, 0.625, 1.125, 1.125, 2.125])
    grace = st.sampled_from([0, None, 0.1875, 0.4375, 1.0625, 1.0625])
    quorum = st.one_of(st.none(), st.integers(0, 5), st.sampled_from([0.0, 0.25, 0.5, 0.75, 1.0]), st.sampled_from([1, 2, 1.5, 0.5]))
    fault = st.sampled_from([None, None, None, 'fail', 'stall', 'drop', 0.5, 'dropmid'])
    op = gens.weighted(
        (4, st.tuples(st.just('greq'), st.integers(0, 2), st.sampled_from(REQS), st.integers(0, 3), st.lists(fault, min_size=4, max_size=4), st.sampled_from([None, 1.0]))),
        (3, st.tuples(st.just('gwait'), st.integers(0, 2), cond, timeout, quorum, grace)),
        (2, st.tuples(st.just('rwait'), m, cond, st.one_of(timeout, st.none()), st.booleans())),
        (2, st.tuples(st.just('swait'), m, st.one_of(cond, st.tuples(st.just('raise'), val)), st.one_of(timeout, st.none()), st.lists(st.tuples(val, stat), max_size=3))),
        (8, st.tuples(st.just('upd'), m, val, stat)),
        (1, st.tuples(st.just('strat'), m, st.booleans())),
        (2, st.tuples(st.just('req'), m, st.sampled_from(REQS), st.booleans())),
        (1, st.tuples(st.just('drop'), m)),
        (1, st.tuples(st.just('active'), m, st.booleans())),
        (1, st.tuples(st.just('addgroup'), st.integers(0, 2), st.lists(m, min_size=1, max_size=4, unique=True))),
        (6, st.tuples(st.just('advance'), st.sampled_from([1, 1, 2, 3, 8]))),
        (1, st.tuples(st.just('sync'))))
    return st.fixed_dictionaries({
        'n': st.sampled_from([1, 2, 3, 3, 4, 4]),
        'ver': st.sampled_from(['5.1', '5.0', '4.0']),
        'reqs': st.lists(st.lists(st.booleans(), min_size=5, max_size=5), min_size=4, max_size=4),
        'nosensor': gens.weighted((4, st.none()), (1, m)),
        'nostrat': gens.weighted((4, st.none()), (1, m)),
        'groups': st.lists(st.lists(m, min_size=1, max_size=4, unique=True), min_size=1, max_size=3),
        'ops': gens.oplist(op, 4, 24)})


def run(case, ctx):
    from katcp import resource, resource_client as rc
    from kv import vnet
    from kv.core import check, equal
    from kv.fakedev import FakeDevice
    from kv.props.r01 import esc, quiet_logs, tune
    from tornado import gen
    import math
    hits = set()
    lg = quiet_logs()
    n = case['n']
    names = MEMBERS[:n]
    with vnet.Env() as env:
        devs = []
        for i in range(n):
            dev = FakeDevice(env, case['ver'])
            dev.serial = True
            dev.suffix = ['from-%d' % i]
            for q in ('help', 'sensor-list', 'request-timeout-hint'):
                dev.requests[q] = 'std'
            for j, q in enumerate(REQS):
                if case['reqs'][i][j]:
                    dev.requests[q] = 'help %d %s' % (i, q)
            if case['nosensor'] != i:
                dev.sensors['s'] = {'desc': 'd', 'units': '', 'type': 'integer', 'params': [], 'reading': (1.0, 'unknown', '9')}
            dev.up()
            devs.append(dev)

        class Container(rc.KATCPClientResourceContainer):
            def client_resource_factory(self, spec, parent, logger):
                r = super(Container, self).client_resource_factory(spec, parent, logger)
                tune(r, lg)
                return r
        gdef = {}
        for k, g in enumerate(case['groups']):
            mem = [i for i in g if i < n] or [0]
            gdef[GROUPS[k]] = mem
        spec = {'name': 'top', 'clients': dict((nm, {'address': ('127.0.0.1', devs[i].port), 'controlled': True}) for i, nm in enumerate(names)),
                'groups': dict((g, [names[i] for i in mem]) for g, mem in gdef.items())}
        top = Container(spec, logger=lg)
        top.set_ioloop(env.loop)
        res = [top.children[esc(nm)] for nm in names]
        seen = [[] for _ in range(n)]       # readings received by each member
        problems = []
        strat = [case['nostrat'] != i for i in range(n)]

        def recorder(i):
            return lambda sensor, reading: seen[i].append((env.now, reading))
        for i, r in enumerate(res):
            r.set_sensor_listener('s', recorder(i))
            if strat[i]:
                r.set_sampling_strategy('s', 'event')
        env.loop.add_callback(top.start)
        held = {}

        def group(k):
            g = GROUPS[k % len(GROUPS)]
            if g not in gdef:
                g = sorted(gdef)[k % len(gdef)]
            obj = top.groups[esc(g)]
            held.setdefault(g, obj)
            return g, obj

        def quiesce():
            for d in devs:
                d.faults.clear()
                d.up()
            env.advance(40)
            check(not env.loop.errors, 'loop-error', lambda: env.loop.errors[0][-1500:])
            for r in res:
                check(r.synced, 'not-synced', lambda: r.state)
        quiesce()
        serial = [0]
        waits, greqs = [], []
        active = [True] * n
        nrec = [0]

        def start(record, call):
            """Start call() on the loop; fills in result or error and time when done."""
            record['t0'] = env.now

            def go():
                try:
                    f = gen.convert_yielded(call())
                except Exception as e:
                    record['error'], record['done'] = e, env.now
                    return

                def fin(f):
                    record['done'] = env.now
                    if f.exception() is not None:
                        record['error'] = f.exception()
                    else:
                        record['result'] = f.result()
                f.add_done_callback(fin)
            env.loop.add_callback(go)

        def condition(c, record):
            if c[0] == 'value' and record['plain']:
                return c[1]

            def cond(reading):
                if 'done' in record and env.now > record.get('quiet', record['done']) + 1e-6:
                    problems.append('condition of %r called after it ended' % (record,))
                return int(holds(c, reading))
            return cond

        def holds(c, reading):
            if c[0] == 'value':
                return reading.value == c[1]
            if c[0] == 'ge':
                return reading.value is not None and reading.value >= c[1]
            if c[0] == 'status':
                return reading.status == c[1]
            if c[0] == 'ts':
                return reading.timestamp > 0 and int(reading.timestamp) % c[1] == 0
            if reading.value == c[1]:
                raise ZeroDivisionError('condition')
            return False

        def first(i, w):
            """When the condition first held for a reading of member i since the wait started."""
            cur, later = w['start'][i]
            for t, rd in [(w['t0'], cur)] + seen[i][later:]:
                if w['timeout'] is not None and t > w['t0'] + w['timeout'] + 2:
                    break
                try:
                    if holds(w['cond'], rd):
                        return t
                except ZeroDivisionError:
                    return -t
            return None

        def err_expected(w):
            return [i for i in w['members'] if not w['has'][i] or not w['strat'][i]]

        def judge(w):
            w['judged'] = True
            info = lambda: 'wait %r, readings %r' % (w, [[(t - w['t0'], rd.value, rd.status) for t, rd in seen[i][w['start'][i][1]:]] for i in w['members']])
            if w['level'] == 'group' and isinstance(w['quorum'], float) and w['quorum'] > 1:
                check(isinstance(w.get('error'), TypeError), 'quorum-type', info)
                return
            if err_expected(w):
                check(isinstance(w.get('error'), resource.KATCPSensorError), 'sensor-error', info)
                return
            T = w['timeout']
            if w['level'] != 'group':
                i = w['members'][0]
                s = first(i, w)
                bad, s = s is not None and s < 0, s and abs(s)
                if s is not None and (T is None or s < w['t0'] + T or s == w['t0']):
                    if bad:
                        check(isinstance(w.get('error'), ZeroDivisionError), 'condition-error', info)
                        return
                    check('error' not in w and w.get('result') is True, 'wait-fails', info)
                    check(abs(w['done'] - s) < 1e-6, 'wait-time', info)
                    hits.add('single')
                elif T is None:
                    check('done' not in w, 'wait-ended', info)
                else:
                    if w['level'] == 'sensor':
                        check(isinstance(w.get('error'), gen.TimeoutError), 'wait-succeeds', info)
                    else:
                        check('error' not in w and w['result'] is False, 'wait-succeeds', info)
                    check(abs(w['done'] - w['t0'] - T) < 1e-6, 'timeout-time', info)
                return
            check('error' not in w, 'group-wait-error', info)
            k = len(w['members'])
            q = w['quorum']
            q = k if q is None else int(math.ceil(q * k)) if isinstance(q, float) else q
            grace = min(w['grace'] or 0, T / 2.)
            init = T - grace
            s = dict((i, first(i, w)) for i in w['members'])
            ends = sorted(min(x if x is not None else 1e9, w['t0'] + init) for x in s.values())
            tq = w['t0'] if q == 0 else ends[min(q, k) - 1]
            ok = dict((names[i], s[i] is not None and s[i] <= tq + grace) for i in w['members'])
            equal(dict(w['result']), ok, 'group-wait', info)
            equal(bool(w['result']), sum(ok.values()) >= q, 'group-wait-truth', info)
            left = [x for x in s.values() if x is None or x > tq]
            end = max([tq] + [tq + grace if x is None else min(x, tq + grace) for x in left])
            check(abs(w['done'] - end) < 1e-6, 'group-wait-time', lambda: 'want %r %s' % (end - w['t0'], info()))
            if k > 1:
                if any(x is not None and w['t0'] < x < tq + grace for x in s.values()):
                    hits.add('late')
                hits.add('gwait')

        def overdue():
            for w in waits:
                if not w.get('judged') and w['timeout'] is not None and env.now > w['t0'] + w['timeout'] + 0.01:
                    check('done' in w, 'wait-hangs', lambda: '%r' % (w,))
                    judge(w)
            for g in greqs:
                if not g.get('judged') and env.now > g['t0'] + 6:
                    check('done' in g, 'request-hangs', lambda: '%r' % (g,))
                    judge_req(g)

        def judge_req(g):
            g['judged'] = True
            info = lambda: '%r' % (g,)
            if any(g['inactive'][i] and g['has'][i] for i in g['members']):
                check(isinstance(g.get('error'), resource.KATCPResourceInactive), 'inactive-request', info)
                return
            check('error' not in g, 'group-request-error', info)
            r = g['result']
            equal(set(r), set(names[i] for i in g['members']), 'group-result-keys', info)
            outcomes = set()
            for i in g['members']:
                got = r[names[i]]
                sent = [x[2] for x in devs[i].log if x[2].name == g['req'] and x[2].args[:1] == [g['args'][0]]]
                if not g['has'][i]:
                    check(got is None, 'reply-without-request', info)
                    check(not sent, 'sent-without-request', info)
                    outcomes.add(None)
                    continue
                check(isinstance(got, resource.KATCPReply), 'reply-type', info)
                equal(len(sent), 1 if g['up'][i] else 0, 'sent-count', lambda: 'member %d %r' % (i, g))
                fault = g['faults'][i]
                bad = not g['up'][i] or fault in ('fail', 'stall', 'drop', 'dropmid')
                equal(got.succeeded, not bad, 'member-outcome', lambda: 'member %d %r' % (i, g))
                outcomes.add(got.succeeded)
                if not bad:
                    equal(list(got.reply.arguments), [b'ok'] + g['args'] + [b'from-%d' % i], 'member-reply')
                    equal([list(x.arguments) for x in got.informs], [[b'i%d' % k] + g['args'] for k in range(len(g['args']) % 3)], 'member-informs')
                    equal(list(sent[0].args), g['args'], 'member-arguments')
            want = all(r[names[i]] is not None and r[names[i]].succeeded for i in g['members'])
            equal(bool(r), want, 'group-truth', info)
            equal(r.succeeded, want, 'group-succeeded', info)
            if len(outcomes) > 1:
                hits.add('mixed')

        def group_reqs():
            for g, mem in gdef.items():
                want = set(esc(q) for i in mem for q in devs[i].requests)
                for obj in (top.groups[esc(g)], held.get(g)):
                    if obj is not None:
                        equal(set(dict.keys(obj.req)), want, 'group-requests', lambda: 'group %r' % g)
                        equal([c.name for c in obj], [names[i] for i in mem], 'group-members')
                        equal(len(obj), len(mem), 'group-length')
                        check(obj[len(mem) - 1] is res[mem[-1]], 'group-item')
                        for q in want:
                            equal(esc(obj.req[q].name), q, 'group-request-name')

        def new_wait(level, members, c, timeout, **kw):
            w = dict(kw, level=level, members=members, cond=c, timeout=timeout, strat=list(strat), has=[bool(d.sensors) for d in devs],
                     start=[(res[i].sensor['s'].reading if 's' in res[i].sensor else None, len(seen[i])) for i in range(n)])
            waits.append(w)
            return w

        for o in case['ops']:
            op = o[0]
            ctx.tag(op)
            if op in ('rwait', 'swait', 'upd', 'strat', 'req', 'drop', 'active') and o[1] >= n:
                continue
            if op == 'greq':
                gname, obj = group(o[1])
                mem = gdef[gname]
                q = o[2]
                if not any(q in devs[i].requests for i in mem):
                    check(esc(q) not in dict.keys(obj.req), 'no-such-group-request')
                    continue
                pending = [g for g in greqs if not g.get('judged') and 'done' not in g]
                if pending and any(any(f) for f in [o[4]] + [g['faults'] for g in pending]):
                    env.advance(7)      # a fault may affect other requests on the connection
                    overdue()
                serial[0] += 1
                args = [b'#%d' % serial[0]] + [b'x'] * o[3]
                up = [bool(d.live()) and res[i].is_connected() for i, d in enumerate(devs)]
                has = [q in d.requests for d in devs]
                faults = [o[4][i] if has[i] and i in mem and up[i] and active[i] else None for i in range(n)]
                if any(active[i] is False and has[i] for i in mem):
                    faults = [None] * n
                for i in range(n):
                    if faults[i]:
                        devs[i].faults.setdefault(q, []).append(faults[i])
                g = {'group': gname, 'members': list(mem), 'req': q, 'args': args, 'up': up, 'has': has, 'faults': faults, 'inactive': [not a for a in active]}
                greqs.append(g)
                kw = {} if o[5] is None else {'timeout': o[5]}
                start(g, lambda: obj.req[esc(q)](*args, **kw))
            elif op == 'gwait':
                gname, obj = group(o[1])
                w = new_wait('group', list(gdef[gname]), o[2], o[3], quorum=o[4], grace=o[5], plain=len(waits) % 2)
                w['quiet'] = env.now + o[3]
                start(w, lambda: obj.wait('s', condition(o[2], w), timeout=o[3], quorum=o[4], max_grace_period=o[5]))
            elif op == 'rwait':
                w = new_wait('resource', [o[1]], o[2], o[3], plain=o[4])
                start(w, lambda: res[o[1]].wait('s', condition(o[2], w), o[3]))
            elif op == 'swait':
                if 's' not in res[o[1]].sensor:
                    continue
                obj = res[o[1]].sensor['s']
                w = new_wait('sensor', [o[1]], o[2], o[3], plain=False)

                def go(o=o, obj=obj, w=w):
                    f = obj.wait(condition(o[2], w), o[3])
                    for v, st in o[4]:
                        from katcp import Sensor
                        obj.set_value(v, Sensor.STATUS_NAMES[st.encode()] if st.encode() in Sensor.STATUS_NAMES else Sensor.STATUS_NAMES[st])
                    return f
                start(w, go)
            elif op == 'upd':
                if devs[o[1]].sensors:
                    devs[o[1]].update('s', o[3], str(o[2]))
            elif op == 'strat':
                quiesce()
                overdue()
                res[o[1]].set_sampling_strategy('s', 'event' if o[2] else 'none')
                strat[o[1]] = o[2]
                quiesce()
            elif op == 'req':
                d = devs[o[1]]
                if (o[2] in d.requests) != o[3]:
                    overdue()
                    if any(not g.get('judged') for g in greqs):
                        env.advance(7)
                        overdue()
                    if o[3]:
                        d.requests[o[2]] = 'help %d' % o[1]
                    else:
                        del d.requests[o[2]]
                    d.changed()
                    quiesce()
            elif op == 'drop':
                if any(not g.get('judged') for g in greqs):
                    env.advance(7)
                    overdue()
                devs[o[1]].drop()
            elif op == 'active':
                res[o[1]].set_active(o[2])
                active[o[1]] = o[2]
            elif op == 'addgroup':
                g = GROUPS[o[1]]
                if g in gdef:
                    continue
                mem = [i for i in o[2] if i < n] or [0]
                gdef[g] = mem
                top.add_group(g, [names[i] for i in mem])
            elif op == 'advance':
                for _ in range(o[1]):
                    env.advance(0.25)
            elif op == 'sync':
                env.advance(7)
                quiesce()
                group_reqs()
            env.settle()
            env.advance(2.0 ** -12)         # so that nothing coincides with a timeout
            check(not problems, 'called-after-end', lambda: problems[0])
            check(not env.loop.errors, 'loop-error', lambda: env.loop.errors[0][-1500:])
            if all(r.synced for r in res) and op in ('req', 'addgroup', 'drop'):
                group_reqs()
            overdue()
        env.advance(8)
        overdue()
        quiesce()
        overdue()
        group_reqs()
        for i, d in enumerate(devs):      # nobody listens any more
            if d.sensors:
                d.update('s', 'nominal', '3')
        env.settle()
        for w in waits:
            if not w.get('judged'):
                judge(w)
        check(not problems, 'called-after-end', lambda: problems[0])
        check(not env.loop.errors, 'loop-error', lambda: env.loop.errors[0][-1500:])
        ctx.tag(*('hit-' + h for h in hits))
        if {'late', 'gwait'} <= hits or 'mixed' in hits:
            ctx.nt()
        top.stop()
        env.settle()
        for d in devs:
            d.close()
