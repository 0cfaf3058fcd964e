"""N03: sampling ends when it is cleared, replaced, or the sensor or client goes; others go on unaffected."""
ID = 'N03'
CASES = {'quick': 3000, 'thorough': 80000}
RULE = ('a case counts when a strategy of one client ended (cleared, replaced, sensor removed or disconnect) while another one on the same '
        'sensor or of the same client went on and a sensor was updated afterwards')


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    strat = st.sampled_from([['auto'], ['event'], ['period', '0.5'], ['period', '2'], ['event-rate', '0', '1.500000125'], ['event-rate', '0', '3'],
                             ['differential', '1'], ['differential-rate', '1', '0', '2'], ['none'], ['none'], ['bogus'], ['period', '0'],
                             ['event-rate', '1', '4']])
    cl, se = st.integers(0, 2), st.integers(0, 3)
    names = st.lists(se, min_size=1, max_size=3)
    op = gens.weighted(
        (8, st.tuples(st.just('sample'), cl, se.map(lambda x: [x]), strat)),
        (2, st.tuples(st.just('sample'), cl, names, strat)),
        (2, st.tuples(st.just('clear'), cl)),
        (2, st.tuples(st.just('race'), cl, se, strat, st.sampled_from(['close', 'clear', 'remove', 'remove', 'replace']), st.integers(0, 4),
                      st.booleans())),
        (2, st.tuples(st.just('query'), cl, se)),
        (2, st.tuples(st.just('cross'), cl, se, st.sampled_from(['none', 'clear', 'remove']))),
        (4, st.tuples(st.just('set'), se)),
        (2, st.tuples(st.just('remove'), se)),
        (2, st.tuples(st.just('add'), se, st.booleans())),
        (1, st.tuples(st.just('close'), cl, st.booleans())),
        (1, st.tuples(st.just('open'), cl)),
        (2, st.tuples(st.just('tick'), st.integers(1, 3), st.booleans())),
        (3, st.tuples(st.just('settle'))),
        (2, st.tuples(st.just('run'), st.integers(1, 6))))
    return st.fixed_dictionaries({'bulk': st.booleans(), 'mode': st.sampled_from(['async', 'loop']),
                                  'init': st.lists(st.tuples(st.integers(0, 1), se, st.sampled_from(
                                      [['auto'], ['event'], ['period', '0.5'], ['event-rate', '0', '1.5'], ['event-rate', '0', '3']])),
                                      max_size=6),
                                  'ops': gens.oplist(op, 3, 30)})


TIMED = ('period', 'event-rate', 'differential-rate')
OBSERVING = ('auto', 'event', 'event-rate', 'differential', 'differential-rate')


def run(case, ctx):
    import threading
    import katcp
    from katcp import ProtocolFlags, Sensor
    from kv import harness as H
    from kv.core import check, equal
    from kv.vnet import Env
    bulk = case['bulk']

    class TSensor(Sensor):
        """Counts observers through the public attach/detach."""
        def __init__(self, *a, **k):
            self.watchers = []
            Sensor.__init__(self, *a, **k)

        def attach(self, o):
            if o not in self.watchers:
                self.watchers.append(o)
            Sensor.attach(self, o)

        def detach(self, o):
            if o in self.watchers:
                self.watchers.remove(o)
            Sensor.detach(self, o)

    NAMES = ['s0', 's1', 's2', 'str']
    counter = [0]

    class Door(object):
        inner = None

        def update(self, sensor, reading):
            if self.inner:
                self.inner.update(sensor, reading)

    def mk(i):
        s = TSensor(Sensor.STRING, 'str', 'd', '') if i == 3 else TSensor(Sensor.INTEGER, NAMES[i], 'd', '')
        s.gate = Door()
        Sensor.attach(s, s.gate)
        return s

    class Dev(katcp.AsyncDeviceServer if case['mode'] == 'async' else katcp.DeviceServer):
        PROTOCOL_INFO = ProtocolFlags(5, 1, [b'M', b'I'] + ([b'B'] if bulk else []))

        def setup_sensors(self):
            pass

    class Client(object):
        def __init__(self):
            self.raw, self.pend, self.state, self.reps = None, [], {}, []
            self.got = []       # informs (sensor name, value) since the last look
    with Env() as env:
        dev = Dev('127.0.0.1', 0)
        if case['mode'] != 'async':
            dev.set_concurrency_options(thread_safe=True, handler_thread=False)
        port = H.start_device(env, dev)
        sensors = [mk(i) for i in range(4)]
        present = [True] * 4
        everything = list(sensors)
        for s in sensors:
            dev.add_sensor(s)
        cls = [Client() for _ in range(3)]
        ended = survived_then_set = 0
        dirty = set()       # sensors removed or added since the last settle: outcome of requests is read from replies only

        def connect(c):
            c.raw = H.Raw(port)
            env.settle()
            c.raw.msgs()
            c.pend, c.state, c.got = [], {}, []
        for c in cls[:2]:
            connect(c)

        def collect(c):
            """Process what the client received: replies in request order update the model."""
            for m in c.raw.msgs():
                if m.t == '#':
                    check(m.name == 'sensor-status', 'foreign-inform', m)
                    c.got.append((m.args[2].decode(), m.args[4]))
                    continue
                check(c.pend, 'unexpected-reply', m)
                kind, idx, st = c.pend.pop(0)
                check(m.name == {'clear': 'sensor-sampling-clear'}.get(kind, 'sensor-sampling'), 'reply-order', m)
                ok = m.args[0] == b'ok'
                if kind == 'clear':
                    check(ok, 'clear-failed', m)
                    c.state = {}
                elif kind == 'query':
                    i = idx[0]
                    if i not in dirty:
                        check(ok == present[i], 'query-outcome', m)
                        if ok:
                            want = c.state.get(i, ['none'])
                            equal([a.decode() for a in m.args[1:3]] + [float(x) for x in m.args[3:]],
                                  [NAMES[i], want[0]] + [float(x) for x in want[1:]], 'query')
                elif kind == 'sample':
                    if not dirty & set(idx):
                        valid = all(present[i] for i in idx) and st != ['bogus'] and st != ['period', '0'] and \
                            not (st[0].startswith('differential') and 3 in idx) and (bulk or len(idx) == 1)
                        check(ok == valid, 'sampling-outcome', lambda: '%r %r %r' % (m, idx, st))
                    if ok:
                        equal([a.decode() for a in m.args[1:3]] + [float(x) for x in m.args[3:]],
                              [','.join(NAMES[i] for i in idx), st[0]] + [float(x) for x in st[1:]], 'sampling-reply')
                        for i in idx:
                            if st == ['none']:
                                c.state.pop(i, None)
                            elif present[i]:
                                c.state[i] = st

        def settle():
            env.settle()
            for c in cls:
                if c.raw:
                    collect(c)
                    check(not c.pend, 'no-reply', c.pend)
            if dirty:
                for c in cls:
                    # sensors that came or went while requests were under way: the device tells which strategy is in force
                    for i in sorted(dirty):
                        if not present[i]:
                            c.state.pop(i, None)
                        elif c.raw:
                            c.raw.send(H.fmt('?', 'sensor-sampling', None, [NAMES[i]]) + b'\n')
                            env.settle()
                            for m in c.raw.msgs():
                                if m.t == '!':
                                    check(m.args[0] == b'ok', 'query-outcome', m)
                                    c.state.pop(i, None)
                                    if m.args[2] != b'none':
                                        c.state[i] = [a.decode() for a in m.args[2:]]
                                else:
                                    c.got.append((m.args[2].decode(), m.args[4]))
                dirty.clear()
            observers()

        def observers():
            for s in everything:
                i = NAMES.index(s.name)
                want = 0
                if s is sensors[i] and present[i]:
                    want = sum(1 for c in cls if c.raw and i in c.state and c.state[i][0] in OBSERVING)
                equal(len(s.watchers), want, 'observers-attached', lambda: '%s %r' % (s.name, [c.state for c in cls]))
            if not any(v[0] in TIMED for c in cls if c.raw for v in c.state.values()):
                left = env.live_timeouts()
                check(not left, 'timers-left', lambda: repr([t.callback for t in left]))

        def fresh():
            for c in cls:
                c.got = []
        ops = [['sample', c, [i], st] for c, i, st in case['init']] + [['settle']]
        for op in case['ops']:
            if op[0] == 'race':
                _, c, i, st, how, ticks, io = op
                end = {'close': ['close', c, False], 'clear': ['clear', c], 'remove': ['remove', i], 'replace': ['sample', c, [i], ['none']]}[how]
                ops += [['sample', c, [i], st], ['tick', ticks, io], end]
                ctx.tag('race-' + how)
            else:
                ops.append(op)
        for op in ops:
            k = op[0]
            if k == 'sample':
                c = cls[op[1]]
                if c.raw:
                    c.raw.send(H.fmt('?', 'sensor-sampling', None, [','.join(NAMES[i] for i in op[2])] + list(op[3])) + b'\n')
                    c.pend.append(('sample', list(op[2]), list(op[3])))
                    for i in op[2]:
                        if i in c.state and any(x is not c and x.raw and x.state for x in cls):
                            ended += 1
            elif k == 'clear':
                c = cls[op[1]]
                if c.raw:
                    c.raw.send(b'?sensor-sampling-clear\n')
                    c.pend.append(('clear', None, None))
                    ended += bool(c.state)
            elif k == 'query':
                c = cls[op[1]]
                if c.raw:
                    c.raw.send(H.fmt('?', 'sensor-sampling', None, [NAMES[op[2]]]) + b'\n')
                    c.pend.append(('query', [op[2]], None))
            elif k == 'cross':
                # another thread sets the sensor while the strategy is being ended
                c, i, how = cls[op[1]], op[2], op[3]
                settle()
                st = c.state.get(i)
                if not (c.raw and present[i] and st and st[0] in OBSERVING):
                    continue
                fresh()
                counter[0] += 10
                v = 'x%d' % counter[0] if i == 3 else counter[0]

                inside, go = threading.Event(), threading.Event()

                class Gate(object):
                    def update(self, sensor, reading):
                        if threading.current_thread() is t:
                            inside.set()
                            go.wait(5)
                t = threading.Thread(target=sensors[i].set_value, args=(v,))
                sensors[i].gate.inner = Gate()
                t.start()
                check(inside.wait(5), 'observer-not-called', '')
                if how == 'none':
                    c.state.pop(i)
                    c.raw.send(H.fmt('?', 'sensor-sampling', None, [NAMES[i], 'none']) + b'\n')
                elif how == 'clear':
                    c.state = {}
                    c.raw.send(b'?sensor-sampling-clear\n')
                else:
                    dev.remove_sensor(sensors[i])
                    present[i] = False
                    for x in cls:
                        x.state.pop(i, None)
                env.settle()
                ctx.tag('cross-' + how)
                if how != 'remove':
                    ms = [m for m in c.raw.msgs() if m.t == '!']
                    check(len(ms) == 1 and ms[0].args[0] == b'ok', 'end-failed', ms)
                else:
                    for x in cls:
                        if x.raw:
                            x.raw.msgs()
                go.set()
                t.join()
                sensors[i].gate.inner = None
                env.settle()
                for x in cls:
                    if x.raw and (x is c or how == 'remove'):
                        for m in x.raw.msgs():
                            check(m.t == '#' and m.args[2].decode() != NAMES[i], 'update-after-end',
                                  lambda: 'being set by another thread as the strategy ended (%s): %r' % (how, m))
            elif k == 'tick':
                for _ in range(op[1]):
                    env.tick(op[2])
            elif k == 'settle':
                settle()
            elif k == 'remove':
                i = op[1]
                if present[i]:
                    dev.remove_sensor(sensors[i] if op[1] % 2 else NAMES[i])
                    present[i] = False
                    ended += any(i in c.state for c in cls)
                    dirty.add(i)
            elif k == 'add':
                i = op[1]
                if not present[i]:
                    if op[2]:
                        sensors[i] = mk(i)
                        everything.append(sensors[i])
                    dev.add_sensor(sensors[i])
                    present[i] = True
                    dirty.add(i)
            elif k == 'close':
                c = cls[op[1]]
                if c.raw and sum(1 for x in cls if x.raw) > 1:
                    if op[2]:
                        settle()
                    c.raw.close()
                    ended += bool(c.state)
                    c.raw = None
                    c.state, c.pend = {}, []
                    ctx.tag('disconnect')
            elif k == 'open':
                c = cls[op[1]]
                if not c.raw:
                    settle()
                    connect(c)
            elif k == 'set':
                settle()
                fresh()
                i = op[1]
                counter[0] += 10
                v = counter[0]
                sensors[i].set_value('x%d' % v if i == 3 else v)
                settle()
                for j, c in enumerate(cls):
                    if not c.raw:
                        continue
                    st = c.state.get(i) if present[i] else None
                    mine = [x for x in c.got if x[0] == NAMES[i]]
                    rest = [x for x in c.got if x[0] != NAMES[i]]
                    check(not rest, 'update-of-other-sensor', rest)
                    if st is None or st[0] == 'period':
                        check(not mine, 'update-after-end', lambda: 'client %d strategy %r got %r' % (j, st, mine))
                    elif st == ['event-rate', '1', '4']:
                        check(len(mine) <= 1, 'update-count', mine)
                    else:
                        check(len(mine) == 1 and mine[0][1] == ('x%d' % v if i == 3 else '%d' % v).encode(), 'update-count',
                              lambda: 'client %d strategy %r got %r' % (j, st, mine))
                        if ended:
                            survived_then_set += 1
            elif k == 'run':
                settle()
                fresh()
                env.advance(op[1] * 0.5)
                settle()
                for j, c in enumerate(cls):
                    if not c.raw:
                        continue
                    for i, n in enumerate(NAMES):
                        mine = [x for x in c.got if x[0] == n]
                        st = c.state.get(i) if present[i] else None
                        if st is None or st[0] not in TIMED:
                            check(not mine, 'update-after-end', lambda: 'client %d sensor %s strategy %r got %r' % (j, n, st, mine))
                        else:
                            p = float(st[-1])
                            check(len(mine) >= int(op[1] * 0.5 / p), 'update-missing', lambda: 'client %d sensor %s %r got %r' % (j, n, st, mine))
                            if st[0] == 'period':
                                check(len(mine) <= op[1] * 0.5 / p + 1, 'update-surplus', lambda: 'client %d sensor %s %r got %r' % (j, n, st, mine))
        settle()
        # everything ends: nothing may stay attached or scheduled
        for c in cls:
            if c.raw:
                c.raw.close()
                c.raw = None
        env.advance(20)
        observers()
        H.no_loop_errors(env)
        ctx.nt(ended and survived_then_set)
        ctx.tag('bulk' if bulk else 'plain')
