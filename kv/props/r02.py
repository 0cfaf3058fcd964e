"""R02: sampling strategies and listeners persist across reconnects and late sensors."""
ID = 'R02'
CASES = {'quick': 2500, 'thorough': 80000}
HISTORY = ('ops',)
RULE = ('a case counts when a strategy was set, later the connection was lost or a sensor changed, and after the following synchronisation a listener that '
        'was set before that was called')

NAMES = ['a', 'b', 'a.b', 'c-d']
STRATS = [('event', 0), ('period 2', 0), (('period', 2.5), 0), ('event-rate 0.5 5', 0), (['event-rate', 1, '3'], 0), ('differential 2', 1), (('differential', 3), 1),
          ('none', 0), ('auto', 0), (('differential-rate', 2, 1, 5), 1)]


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    nm, i = st.sampled_from(['a', 'a', 'a.b', 'a.b', 'a', 'b', 'c-d']), st.integers(0, 9)
    sens = st.tuples(st.just('s'), nm, st.one_of(st.none(), st.sampled_from([0, 3, 6, 1]), st.sampled_from([0, 5, 2])))
    eds = st.lists(sens, min_size=1, max_size=3)
    op = gens.weighted(
        (4, st.tuples(st.just('set'), nm, i, st.booleans())),
        (2, st.tuples(st.just('sset'), nm, i, st.sampled_from(['set_sampling_strategy', 'set_strategy']))),
        (1, st.tuples(st.just('setall'), st.sampled_from(['', 'a', '^a$', '_']), i)),
        (2, st.tuples(st.just('sdrop'), nm, st.booleans())),
        (3, st.tuples(st.just('listen'), nm, st.integers(0, 2), st.booleans())),
        (2, st.tuples(st.just('unlisten'), nm, st.integers(0, 2))),
        (6, st.tuples(st.just('update'), nm, st.sampled_from(['nominal', 'warn', 'error']), st.integers(0, 2), st.sampled_from([0, 0, 1]))),
        (1, st.tuples(st.just('poll'), nm, st.sampled_from(['get_reading', 'get_value', 'get_status']), st.sampled_from([None, None, 'fail', 'drop']))),
        (3, st.tuples(st.just('change'), eds)),
        (2, st.tuples(st.just('drop'))), (1, st.tuples(st.just('down'))), (1, st.tuples(st.just('up'))),
        (1, st.tuples(st.just('restart'), eds)),
        (1, st.tuples(st.just('slow'), st.lists(st.sampled_from([0.5, 1.0]), min_size=1, max_size=3))),
        (2, st.tuples(st.just('advance'), st.sampled_from([0.25, 0.75, 4.0]))),
        (2, st.tuples(st.just('tick'), st.integers(1, 3))),
        (3, st.tuples(st.just('sync'))))
    few = st.lists(op, max_size=3)

    @st.composite
    def story(draw):
        # a strategy and a listener, trouble, a synchronisation, readings - with anything in between
        name, lst, k = draw(nm), draw(st.booleans()), draw(st.integers(0, 2))
        upd = st.tuples(st.just('update'), st.just(name), st.sampled_from(['nominal', 'warn', 'error']), st.integers(0, 2), st.sampled_from([0, 0, 1]))
        begin = [('change', [('s', name, 0)]), ('sync',), ('set', name, draw(i), draw(st.booleans())), ('listen', name, k, True)]
        ops = draw(st.permutations(begin)) + draw(few)
        for _ in range(draw(st.integers(1, 2))):
            ops += [draw(st.one_of(st.just(('drop',)), st.tuples(st.just('restart'), eds), st.tuples(st.just('change'), eds)))] + draw(few) + [('sync',)]
            ops += [draw(upd)] + draw(few) + [draw(upd), ('sync',)]
        return ops
    return st.fixed_dictionaries({
        'ver': st.sampled_from(['5.1', '5.0', '4.0']),
        'init': st.lists(sens, max_size=5),
        'ops': st.one_of(gens.oplist(op, 4, 24), gens.oplist(op, 4, 24), story())})


def norm(strat):
    parts = strat.split(' ') if isinstance(strat, str) else list(strat)
    return (parts[0],) + tuple(float(p) for p in parts[1:])


def run(case, ctx):
    import re
    from kv import vnet
    from kv.core import check, equal
    from kv.props.i01 import make_device, apply_edits, want_s
    from kv.props.i02 import VALS, decode
    from kv.props.r01 import esc, new_resource
    import katcp
    from katcp.resource import KATCPSensorError
    hits = set()
    with vnet.Env() as env:
        dev = make_device(env, case['ver'], case['init'])
        dev.serial = True
        r = new_resource(env, dev, {})
        want = {}               # sensor name -> strategy as given
        dropped = {}            # sensor name -> number of accepted connections when dropped
        started = [0]
        n = [0]
        held, lost_from = set(), 0
        sent = []               # [name, status, value, timestamp, mandatory] of every reading sent on a connection
        calls = {}              # (name, listener) -> list of (sent index bounds..)
        regs = {}               # (name, k) -> {'persist': bool, 'obj': sensor object or None, 'since': index into sent, 'on': bool}
        dirty = set()
        objs = {}

        class L(object):
            def __init__(self, name, k):
                self.name, self.k = name, k

            def __call__(self, sensor, reading):
                if sensor.name != self.name or tuple(sensor.reading) != tuple(reading):
                    problems.append((self.name, sensor.name, sensor.reading, reading))
                if abs(reading.received_timestamp - env.now) > 1e-6:    # when it arrived, whatever the device's clock says
                    problems.append((self.name, 'received at', reading.received_timestamp, 'now', env.now))
                got.append((self.name, self.k, sensor, reading))
                if self.k == 2 or reading.istatus == 3:
                    raise ValueError('listener trouble')       # of no concern to the others
        listeners = dict(((nm, k), L(nm, k)) for nm in NAMES for k in range(3))
        got, problems = [], []

        orig_status = dev.status

        def status(c, name):
            rd = dev.sensors[name]['reading']
            if c.open:
                sent.append([name, rd[1], rd[2], rd[0], name not in dirty, dev.sensors[name]['type']])
            orig_status(c, name)
        dev.status = status
        orig_value = dev.do_sensor_value

        def sensor_value(c, m):
            inf, rep = orig_value(c, m)
            for x in inf:
                nm = x[2]
                rd = dev.sensors[nm]['reading']
                sent.append([nm, rd[1], rd[2], rd[0], name_ok(nm), dev.sensors[nm]['type']])
            return inf, rep
        dev.do_sensor_value = sensor_value

        def name_ok(nm):
            return nm not in dirty

        def stamp():
            n[0] += 1
            return 1000 + n[0] * 0.25
        for nm in dev.sensors:
            dev.sensors[nm]['reading'] = (stamp(),) + dev.sensors[nm]['reading'][1:]
        env.loop.add_callback(r.start)
        if case['ops'] and case['ops'][0][0] == 'down':
            dev.down()
        env.settle()

        def optional(names=None):
            for s in sent:
                if names is None or s[0] in names:
                    s[4] = False

        def edit(eds):
            before = dict((x, want_s(dev, x)) for x in dev.sensors)
            if not apply_edits(dev, eds):
                return False
            for x in set(before) | set(dev.sensors):
                if before.get(x) != (want_s(dev, x) if x in dev.sensors else None):
                    dirty.add(x)
                    epoch[x] = epoch.get(x, 0) + 1
                    if x in dev.sensors:
                        dev.sensors[x]['reading'] = (stamp(),) + dev.sensors[x]['reading'][1:]
            optional(dirty)
            return True

        def check_calls(nm, k, reg, final):
            # the calls must be an order-preserving selection of the sent readings with every mandatory one in it
            mine = [g[3] for g in got[reg['gfrom']:] if g[0] == nm and g[1] == k]
            exp = [s[:4] + [s[4] and final and j >= reg['must']] + s[5:] for j, s in enumerate(sent) if s[0] == nm and j >= reg['since']]
            states = {0}
            for s in exp:
                new = set() if s[4] else set(states)
                new.update(i + 1 for i in states if i < len(mine) and same(s, mine[i]))
                states = new
            check(len(mine) in states, 'listener-calls', lambda: 'listener %d of %r: sent %r calls %r' % (k, nm, exp, [tuple(x) for x in mine]))

        def same(s, rd):
            if abs(s[3] - rd.timestamp) > 1e-6 or s[1] != rd.status:
                return False
            return not s[4] or rd.value == decode(s[5], s[2])

        def unreg(nm, k):
            reg = regs.pop((nm, k), None)
            quiet_from[nm, k] = len(got)
            if reg:
                check_calls(nm, k, reg, False)

        def quiesce():
            dev.faults.clear()
            dev.up()
            env.advance(40)
            check(not env.loop.errors, 'loop-error', lambda: env.loop.errors[0][-1500:])
            check(r.synced, 'not-synced', lambda: r.state)
            equal(set(dict.keys(r.sensor)), set(esc(x) for x in dev.sensors), 'sensors')
            c, = dev.live()
            for nm in dev.sensors:
                have = c.strategies.get(nm)
                have = ('none',) if have is None else norm([x.decode() for x in have])
                obj = r.sensor[esc(nm)]
                if nm in want:
                    equal(have, norm(want[nm]), 'strategy-on-device', lambda: 'sensor %r' % nm)
                    equal(norm(obj.sampling_strategy), norm(want[nm]), 'sampling-strategy')
                else:
                    equal(tuple(obj.sampling_strategy), ('none',), 'sampling-strategy-dropped')
                    if dropped.get(nm) and dropped[nm] != (dev.accepted, epoch.get(nm, 0)):
                        equal(have, ('none',), 'dropped-strategy-applied')
                    elif nm not in dropped:
                        equal(have, ('none',), 'strategy-never-set')
                last = [s for s in sent if s[0] == nm][-1:]
                if last and last[0][4] and last[0][3] == dev.sensors[nm]['reading'][0] and (have != ('none',)):
                    rd = obj.reading
                    check(same(last[0][:4] + [True] + last[0][5:], rd), 'cached-reading', lambda: '%r sent %r' % (rd, last[0]))
                    equal(obj.value, rd.value, 'value')
                    equal(obj.status, rd.status, 'status')
                    for k in range(3):
                        reg = regs.get((nm, k))
                        if reg is None:
                            continue
                        check(obj.is_listener(listeners[nm, k]) or not reg['persist'], 'not-registered', lambda: '%r %d' % (nm, k))
            for nm in dev.sensors:
                for k in range(3):
                    reg = regs.get((nm, k))
                    obj = r.sensor[esc(nm)]
                    check(obj.is_listener(listeners[nm, k]) == bool(reg and (reg['persist'] or reg['obj'] is obj)), 'is-listener',
                          lambda: '%r %d reg %r is %r' % (nm, k, reg, obj.is_listener(listeners[nm, k])))
            for (nm, k), reg in list(regs.items()):
                if not reg['persist'] and r.sensor.get(esc(nm)) is not reg['obj']:
                    unreg(nm, k)
                    continue
                check_calls(nm, k, reg, True)
            for f, how, exp in rets:
                check(f.done(), 'call-hangs', how)
                res = f.result()
                if how == 'sset':       # (success, strategy or error)
                    check(len(res) == 2 and (res[0] is False or res[0] is True and norm(res[1]) == exp), 'result-' + how, lambda: '%r want %r' % (res, exp))
                    if res[0]:
                        hits.add('ok-result')
                else:
                    equal(res, exp, 'result-' + how)
            del rets[:]
            dirty.clear()
            for reg in regs.values():
                reg['since'], reg['gfrom'] = len(sent), len(got)
            hits.add('q')

        rets, filters = [], []      # results of the calls; filters given to set_sampling_strategies
        epoch = {}
        quiet_from = dict((key, 0) for key in listeners)

        def no_stray(upto=None):
            check(not problems, 'listener-arguments', lambda: repr(problems[0]))
            for key in listeners:
                if key not in regs:
                    stray = [g for g in got[quiet_from[key]:] if (g[0], g[1]) == key]
                    check(not stray, 'called-after-removal', lambda: '%r called with %r' % (key, stray[0][3]))

        for o in case['ops']:
            op = o[0]
            ctx.tag(op)
            if op in ('set', 'sset'):
                nm, strat = o[1], STRATS[o[2]][0]
                obj = r.sensor.get(esc(nm))
                if op == 'set':
                    if nm in want:
                        hits.add('replaced')
                    hits.add('present' if obj is not None else 'absent')
                    want[nm] = strat
                    dropped.pop(nm, None)
                    rets.append((r.set_sampling_strategy(nm if o[3] else esc(nm), strat), 'set', {esc(nm): strat} if obj is not None else {}))
                elif obj is not None and obj.name == nm:
                    if nm in want:
                        hits.add('replaced')
                    want[nm] = strat
                    dropped.pop(nm, None)
                    if o[3] == 'set_strategy':
                        parts = strat.split(' ') if isinstance(strat, str) else list(strat)
                        f = obj.set_strategy(parts[0], parts[1:] or None)
                    else:
                        f = obj.set_sampling_strategy(strat)
                    rets.append((f, 'sset', norm(strat)))
            elif op == 'setall':
                strat = STRATS[o[2]][0]
                filters.append((o[1], strat, set(r.sensor[e].name for e in dict.keys(r.sensor))))
                for e in list(dict.keys(r.sensor)):
                    if re.search(o[1], e):
                        nm = r.sensor[e].name
                        want[nm] = strat
                        dropped.pop(nm, None)
                rets.append((r.set_sampling_strategies(o[1], strat), 'setall',
                             dict((e, strat) for e in dict.keys(r.sensor) if re.search(o[1], e))))
                env.settle()
                if any(dev.faults.values()) or not r.synced:
                    quiesce()
            elif op == 'sdrop':
                nm = o[1]
                obj = r.sensor.get(esc(nm))
                if o[2] or obj is None:
                    r.drop_sampling_strategy(nm)
                else:
                    obj.drop_sampling_strategy()
                if nm in want:
                    hits.add('replaced')
                want.pop(nm, None)
                seen = len(dev.log)
                env.settle()
                if len(dev.log) > seen or any(c.busy > env.now for c in dev.live()):
                    dropped[nm] = None          # a strategy that was on its way may still arrive
                else:
                    dropped[nm] = (dev.accepted, epoch.get(nm, 0))
            elif op == 'listen':
                nm, k = o[1], o[2]
                obj = r.sensor.get(esc(nm))
                if (nm, k) in regs:
                    continue
                if o[3]:
                    rets.append((r.set_sensor_listener(nm, listeners[nm, k]), 'listen', {esc(nm): listeners[nm, k]} if obj is not None else {}))
                elif obj is not None:
                    if k == 1:
                        # the later of two registrations of the same listener counts
                        obj.register_listener(listeners[nm, k], reading=False)
                    obj.register_listener(listeners[nm, k], reading=True)
                else:
                    continue
                regs[nm, k] = {'persist': o[3], 'obj': obj, 'since': 0, 'gfrom': len(got), 'must': len(sent)}
            elif op == 'unlisten':
                nm, k = o[1], o[2]
                obj = r.sensor.get(esc(nm))
                if obj is None or (nm, k) not in regs:
                    continue
                if regs[nm, k]['obj'] is None and not regs[nm, k]['persist']:
                    continue
                if not obj.is_listener(listeners[nm, k]):
                    continue
                obj.unregister_listener(listeners[nm, k])
                unreg(nm, k)
                hits.add('unlisten')
            elif op == 'update':
                nm = o[1]
                if nm in dev.sensors:
                    t = stamp() + (1e7 + env.now // 1 if len(o) > 4 and o[4] else 0)
                    st = dev.sensors[nm]['type']
                    raw = VALS[st][o[3] % len(VALS[st])]
                    dev.sensors[nm]['reading'] = (t, o[2], raw)
                    for c in dev.live():
                        if nm in c.strategies:
                            dev.status(c, nm)
            elif op == 'poll':
                nm = o[1]
                if not r.synced or dirty or any(dev.faults.values()) or nm not in dev.sensors:
                    continue
                obj = r.sensor[esc(nm)]
                if len(o) > 3 and o[3]:
                    dev.faults['sensor-value'] = [o[3]]
                    try:
                        res = env.run_sync(lambda: getattr(obj, o[2])())
                    except KATCPSensorError:
                        res = 'refused'
                    if not dev.faults.pop('sensor-value'):
                        equal(res, 'refused', 'poll-refused', lambda: o[2])
                        hits.add('poll-refused')
                    if o[3] == 'drop':
                        optional()
                        env.settle()
                    continue
                res = env.run_sync(lambda: getattr(obj, o[2])())
                rd = dev.sensors[nm]['reading']
                v = decode(dev.sensors[nm]['type'], rd[2])
                if o[2] == 'get_reading':
                    equal((round(res.timestamp, 6), res.status, res.value), (rd[0], rd[1], v), 'poll')
                else:
                    equal(res, v if o[2] == 'get_value' else rd[1], 'poll')
            elif op == 'change':
                if edit(o[1]):
                    dev.changed()
                    hits.add('event')
            elif op == 'restart':
                dev.down()
                env.settle()
                edit(o[1])
                optional()
                dev.up()
                hits.add('event')
            elif op == 'drop':
                dev.drop()
                optional()
                hits.add('event')
            elif op == 'down':
                dev.down()
                optional()
            elif op == 'up':
                dev.up()
            elif op == 'slow':
                dev.faults.setdefault('sensor-sampling', []).extend(o[1])
            elif op == 'advance':
                env.advance(o[1])
            elif op == 'tick':
                for _ in range(o[1]):
                    env.tick()
                continue
            elif op == 'sync':
                quiesce()
                no_stray()
                if any((g[0], g[1]) in held for g in got[lost_from:]):
                    hits.add('called')
                continue
            if op not in ('set', 'sset', 'sdrop', 'change'):
                env.settle()
            if op in ('drop', 'restart', 'change'):
                held.update(key for key in regs if regs[key]['persist'] and key[0] in want)
                lost_from = len(got)
            no_stray()
        quiesce()
        no_stray()
        if any((g[0], g[1]) in held for g in got[lost_from:]) or 'called' in hits:
            ctx.nt()
        c, = dev.live()
        missed = [(f, nm) for f, strat, seen in filters for nm in dev.sensors
                  if nm not in seen and nm not in want and nm not in dropped and norm(strat) != ('none',) and re.search(f, esc(nm)) and nm not in c.strategies]
        r.stop()
        env.settle()
        dev.close()
        check(not missed, 'filter-unseen', lambda: repr(missed))
