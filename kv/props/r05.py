"""R05: state reports and waits of resources, containers and groups tell the truth."""
ID = 'R05'
CASES = {'quick': 1200, 'thorough': 60000}
HISTORY = ('ops',)
RULE = ('a case counts when a wait was pending while the state changed to something else than awaited, one completed later on, and one timed out or a '
        'monitor called back at least three times')

STATES = ['disconnected', 'syncing', 'synced']


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    i = st.integers(0, 2)
    tmo = st.sampled_from([None, None, 0.25, 1.0, 3.0, 10.0])
    s = st.integers(0, 2)
    wait = st.one_of(
        st.tuples(st.just('wait'), st.just('res'), i, st.sampled_from(['state', 'state', 'synced', 'not_synced', 'connected']), s, tmo),
        st.tuples(st.just('wait'), st.just('cont'), i, st.sampled_from(['any', 'any', 'all', 'synced', 'synced', 'not_synced']), s, tmo),
        st.tuples(st.just('wait'), st.just('ic'), i, st.sampled_from(['connected', 'synced', 'not_synced', 'data_synced', 'state']), s, tmo))
    op = gens.weighted(
        (8, wait), (2, st.tuples(st.just('monitor'), i, st.booleans())), (1, st.tuples(st.just('unmonitor'), i)),
        (3, st.tuples(st.just('change'), i)), (2, st.tuples(st.just('drop'), i)), (2, st.tuples(st.just('down'), i)), (4, st.tuples(st.just('up'), i)),
        (2, st.tuples(st.just('fault'), i, st.sampled_from(['help', 'sensor-list']), st.sampled_from(['fail', 'drop', 'stall', 0.5, 2.0]))),
        (1, st.tuples(st.just('stop'), i)), (1, st.tuples(st.just('add'))), (1, st.tuples(st.just('pace'), i)), (1, st.tuples(st.just('group'), i)),
        (4, st.tuples(st.just('advance'), st.sampled_from([0, 0.25, 0.5, 1.0, 4.0, 12.0]))))
    return st.fixed_dictionaries({
        'ver': st.sampled_from(['5.1', '5.1', '5.0', '4.0']), 'n': st.integers(1, 3), 'up': st.lists(gens.weighted((3, st.just(True)), (1, st.just(False))), min_size=3, max_size=3),
        'delay': st.sampled_from([0.5, 0.5, 2.0, 0.1]),
        'ops': gens.oplist(op, 6, 24)})


class Watch(object):
    """The history of one thing's state, sampled at every iteration of the loop."""

    def __init__(self, env, get):
        self.env, self.get = env, get
        self.hist = []              # (sample number, time, state)

    def sample(self, n):
        v = self.get()
        if not self.hist or self.hist[-1][2] != v:
            self.hist.append((n, self.env.now, v))


def run(case, ctx):
    from katcp import resource_client as rc
    from katcp.core import AsyncEvent
    from tornado.gen import TimeoutError
    from kv import vnet
    from kv.core import check, equal
    from kv.fakedev import FakeDevice
    from kv.props.i01 import make_device
    from kv.props.r01 import quiet_logs, tune
    hits = set()
    lg = quiet_logs()
    with vnet.Env() as env:
        devs, ress, ics, watches = [], [], [], []
        stopped = {}
        cont = [None]
        count = [0]

        def sample():
            count[0] += 1
            for w in watches:
                w.sample(count[0])
        poll = env.loop._impl.poll

        def poll2(t):
            sample()
            return poll(t)
        env.loop._impl.poll = poll2

        class Cont(rc.KATCPClientResourceContainer):
            def client_resource_factory(self, res_spec, parent, logger):
                r = super(Cont, self).client_resource_factory(res_spec, parent, logger)
                tune(r, lg)
                orig = r.inspecting_client_factory

                def factory(*a):
                    ic = orig(*a)
                    ics.append(ic)
                    return ic
                r.inspecting_client_factory = factory
                ress.append(r)
                return r

        def new_dev(k, up):
            dev = make_device(env, case['ver'], [['s', 'a', 0]] * (k % 2))
            dev.up()
            if not up:
                dev.down()
            devs.append(dev)
            return dict(address=('127.0.0.1', dev.port), controlled=True, auto_reconnect_delay=case['delay'])
        specs = {}
        for k in range(case['n']):
            specs['c%d' % k] = new_dev(k, case['up'][k])
        # the order of the resources need not be that of the devices
        c = cont[0] = Cont({'name': 'top', 'clients': specs, 'groups': {'g': sorted(specs)}}, logger=lg)
        c.set_ioloop(env.loop)
        byname = {r.name: r for r in ress}
        ress[:] = [byname['c%d' % k] for k in range(case['n'])]
        rw = [Watch(env, lambda r=r: r.state) for r in ress]
        watches.extend(rw)
        cw = Watch(env, lambda: tuple(r.state for r in ress))
        watches.append(cw)
        sample()
        equal([w.hist[-1][2] for w in rw], ['disconnected'] * case['n'], 'initial-state')
        env.loop.add_callback(c.start)
        # the clients exist once started
        env.tick(False)
        ics.sort(key=lambda ic: ress.index([r for r in ress if r.address[1] == ic.bind_address[1]][0]))
        iw = [Watch(env, lambda ic=ic: (ic.state.connected, ic.state.synced, ic.state.data_synced)) for ic in ics]
        watches.extend(iw)
        sample()
        waits, monitors = [], []
        groups = {'g': ['c%d' % k for k in range(case['n'])]}

        def any_of(states):
            return lambda v: v in states

        def begin(o):
            _, what, i, kind, s, tmo = o
            i %= len(ress)
            state = STATES[s]
            if what == 'res':
                r = ress[i]
                w = rw[i]
                fn, cond = {'state': (lambda: r.until_state(state, timeout=tmo), any_of([state])),
                            'synced': (lambda: r.until_synced(tmo), any_of(['synced'])),
                            'not_synced': (lambda: r.until_not_synced(timeout=tmo), any_of(['disconnected', 'syncing'])),
                            'connected': (lambda: r.wait_connected(tmo), any_of(['syncing', 'synced']))}[kind]
            elif what == 'cont':
                w = cw
                fn, cond = {'any': (lambda: c.until_any_child_in_state(state, tmo), lambda v: state in v),
                            'all': (lambda: c.until_all_children_in_state(state, tmo), lambda v: set(v) == {state}),
                            'synced': (lambda: c.until_synced(tmo), lambda v: set(v) == {'synced'}),
                            'not_synced': (lambda: c.until_not_synced(tmo), lambda v: set(v) != {'synced'})}[kind]
            else:
                ic = ics[i]
                w = iw[i]
                fn, cond = {'connected': (lambda: ic.until_connected(tmo), None),
                            'synced': (lambda: ic.until_synced(tmo), lambda v: v[1]),
                            'not_synced': (lambda: ic.until_not_synced(tmo), lambda v: not v[1]),
                            'data_synced': (lambda: ic.until_data_synced(tmo), lambda v: v[2]),
                            'state': (lambda: ic.until_state(ic.state, tmo), lambda v: True)}[kind]
            sample()
            m = {'what': '%s %s' % (o[1:], ress[i].name), 'w': w, 'from': count[0], 't0': env.now, 'tmo': tmo, 'cond': cond, 'end': None, 'kids': len(ress)}
            f = fn()

            def done(f):
                sample()
                m['end'] = (count[0], env.now, f.exception())
            if f.done():
                done(f)
            else:
                f.add_done_callback(done)
            waits.append(m)

        def held(m):
            """The first time the awaited condition held since the wait began, by the samples."""
            w, prev = m['w'], None
            for k, (n, t, v) in enumerate(w.hist):
                last = k + 1 == len(w.hist)
                until = count[0] + 1 if last else w.hist[k + 1][0]
                if until > m['from'] and m['cond'](v if m['w'] is not cw else v[:m['kids']] if m['what'].find("'any'") < 0 else v[:m['kids']]):
                    return (max(n, m['from']), max(t, m['t0']))
            return None

        def verify(m):
            if m['cond'] is None:
                if m['end'] and m['end'][2] is not None:
                    check(isinstance(m['end'][2], TimeoutError) and m['tmo'] is not None and abs(m['end'][1] - m['t0'] - m['tmo']) < 1e-6, 'wait-raised', lambda: repr(m))
                return
            h = held(m)
            dead = None if m['tmo'] is None else m['t0'] + m['tmo']
            where = lambda: '%s begun at %.3f, condition held at %r, ended %r\nstates: %r' % (
                m['what'], m['t0'] - vnet.Clock.BASE, h, m['end'], [(round(t - vnet.Clock.BASE, 3), v) for n, t, v in m['w'].hist][-20:])
            if h and (dead is None or h[1] < dead - 1e-6):
                check(m['end'] is not None, 'wait-not-woken', where)
                check(m['end'][2] is None, 'wait-raised', where)
                check(abs(m['end'][1] - h[1]) < 1e-6, 'wait-late', where)
                check(m['end'][0] >= h[0], 'wait-early', where)
                if h[0] > m['from']:
                    hits.add('woken')
                    if any(m['from'] < n < h[0] for n, t, v in m['w'].hist):
                        hits.add('passed')
            elif m['end'] is not None:
                if h and abs(h[1] - dead) <= 1e-6 and m['end'][2] is None:
                    return
                check(m['end'][2] is not None, 'wait-early', where)
                check(isinstance(m['end'][2], TimeoutError), 'wait-raised', where)
                check(abs(m['end'][1] - dead) < 1e-6, 'wait-timeout', where)
                hits.add('timeout')
            else:
                check(dead is None or env.now < dead + 1e-6, 'wait-no-timeout', where)
                if any(n > m['from'] for n, t, v in m['w'].hist):
                    hits.add('passed')

        def settled():
            check(not env.loop.errors, 'loop-error', lambda: env.loop.errors[0][-1500:])
            for i, r in enumerate(ress):
                equal(r.synced, r.state == 'synced', 'synced', r.name)
                equal(r.is_connected(), r.state != 'disconnected', 'is-connected', r.name)
                if r.state == 'synced':
                    check(len(devs[i].live()) == 1, 'synced-without-connection', r.name)
                    check(ics[i].synced and ics[i].state.synced and ics[i].connected and ics[i].is_connected(), 'client-state', lambda: repr(ics[i].state))
                if i in stopped:
                    check(not devs[i].live(), 'connected-after-stop', r.name)
                equal(ics[i].synced, r.state == 'synced', 'client-synced', lambda: '%s: %s, its client: %r' % (r.name, r.state, ics[i].state))
            equal(c.is_connected(), all(r.state != 'disconnected' for r in ress), 'container-connected')
            for g, members in groups.items():
                equal(c.groups[g].is_connected(), all(r.state != 'disconnected' for r in ress if r.name in members), 'group-connected', g)
            for m in waits:
                verify(m)
            for mo in monitors:
                want = [False, True]
                calls = mo['calls']
                equal(calls, [bool(k % 2) for k in range(len(calls))], 'monitor-sequence', mo['what'])
                if mo['frozen'] is not None:
                    equal(len(calls), mo['frozen'], 'monitor-after-exit', mo['what'])
                elif not mo['grown']:
                    now = mo['get']()
                    equal(calls[-1:], [now], 'monitor-last', lambda: '%s: %r' % (mo['what'], calls))
                if len(calls) >= 3:
                    hits.add('monitor')

        def all_synced():
            return all(r.state == 'synced' for r in ress)

        for o in case['ops']:
            op = o[0]
            ctx.tag(op)
            i = o[1] % len(ress) if len(o) > 1 and op not in ('wait', 'advance') else 0
            if op == 'wait':
                ctx.tag(o[1] + '-' + o[3])
                env.loop.add_callback(begin, o)
                env.settle()
            elif op == 'monitor':
                mo = {'calls': [], 'exit': AsyncEvent(), 'frozen': None, 'grown': False, 'of': c if o[2] else ress[i], 'what': 'monitor of %s' % ('container' if o[2] else ress[i].name),
                      'get': all_synced if o[2] else (lambda r=ress[i]: r.synced)}
                args = (c if o[2] else ress[i], mo['calls'].append) + ((mo['exit'],) if len(monitors) % 3 else ())
                if len(args) < 3:
                    mo['exit'] = None
                env.loop.add_callback(rc.monitor_resource_sync_state, *args)
                monitors.append(mo)
            elif op == 'unmonitor':
                ms = [m for m in monitors if m['exit'] is not None and m['frozen'] is None]
                if ms:
                    m = ms[i % len(ms)]

                    def leave(m=m):
                        m['frozen'] = len(m['calls'])
                        m['exit'].set()
                    env.loop.add_callback(leave)
                    env.settle()
            elif op == 'change':
                d = devs[i]
                d.requests['n%d' % len(d.requests)] = 'std'
                d.changed()
            elif op == 'drop':
                devs[i].drop()
            elif op == 'down':
                devs[i].down()
            elif op == 'up':
                devs[i].up()
            elif op == 'fault':
                devs[i].faults.setdefault(o[2], []).append(o[3])
                devs[i].changed()
            elif op == 'stop' and i not in stopped:
                r = ress[i]
                box = []
                env.loop.add_callback(lambda: box.extend((r.until_stopped(), c.until_stopped(timeout=5))))
                env.settle()
                f, fs = box
                check(not f.done(), 'stopped-early', r.name)
                equal(set(fs), {x.name for x in ress}, 'container-until-stopped')
                env.loop.add_callback(r.stop)
                # a client that waits to reconnect ends once it has waited
                env.advance(0 if ics[i].connected else case['delay'] + 0.1)
                stopped[i] = True
                check(f.done() and f.exception() is None, 'not-stopped', r.name)
                check(fs[r.name].done() and fs[r.name].exception() is None, 'not-stopped', 'by the container: ' + r.name)
                for k, x in enumerate(ress):
                    if k not in stopped:
                        check(not fs[x.name].done(), 'stopped-early', x.name)
                        fs[x.name].add_done_callback(lambda f: f.exception())
            elif op == 'add' and len(ress) < 4 and not stopped:
                k = len(ress)
                spec = new_dev(k, True)
                env.loop.add_callback(c.add_child_resource_client, 'c%d' % k, spec)
                env.tick(False)
                equal(len(ress), k + 1, 'added-child')
                equal((ress[k].name, ress[k].parent), ('c%d' % k, c), 'added-child')
                ww = Watch(env, lambda r=ress[k]: r.state)
                rw.append(ww)
                ic = ics[k]
                wi = Watch(env, lambda ic=ic: (ic.state.connected, ic.state.synced, ic.state.data_synced))
                iw.append(wi)
                watches.extend([ww, wi])
                # waits on the container that began with fewer children are not judged
                for m in waits:
                    if m['w'] is cw and m['end'] is None:
                        m['cond'] = None
                for mo in monitors:
                    # nor is the last call of a monitor, which waits in turn for one and the other
                    mo['grown'] = mo['of'] is c
            elif op == 'pace' and i not in stopped:
                # the configured delay passes before a client connects again
                r, d = ress[i], devs[i]
                d.faults.clear()
                d.up()
                env.advance(20)
                equal(r.state, 'synced', 'state-when-up', r.name)
                d.drop()
                acc = d.accepted
                delay = case['delay']
                env.advance(delay * 0.9)
                equal(d.accepted, acc, 'reconnects-early', r.name)
                check(not r.is_connected() and not r.synced, 'connected-after-drop', r.name)
                env.advance(delay * 0.2)
                equal(d.accepted, acc + 1, 'reconnects-late', r.name)
                check(r.is_connected(), 'is-connected', 'after the reconnect: ' + r.name)
            elif op == 'group':
                members = ['c%d' % k for k in range(len(ress)) if (i + 1) & (1 << k)] or ['c0']
                c.add_group('g%d-x' % i, members)
                equal([(x.name, [y.name for y in x.clients]) for x in [c.groups['g%d_x' % i]]], [('g%d-x' % i, members)], 'group')
                groups['g%d_x' % i] = members
            elif op == 'advance':
                env.advance(o[1])
            env.settle()
            settled()
        # let everything come up
        for d in devs:
            d.faults.clear()
            d.up()
        env.advance(60)
        settled()
        for i, r in enumerate(ress):
            if i not in stopped:
                equal(r.state, 'synced', 'state-when-up', r.name)
        for d in devs:
            d.down()
        env.advance(40)
        settled()
        for r in ress:
            equal(r.state, 'disconnected', 'state-when-down', r.name)
        env.loop.add_callback(c.stop)
        env.advance(case['delay'] + 0.1)
        box = []
        env.loop.add_callback(lambda: box.append(c.until_stopped(timeout=1)))
        env.settle()
        fs = box[0]
        check(all(f.done() and f.exception() is None for f in fs.values()), 'not-stopped', 'the container')
        ctx.tag(*('hit-' + h for h in hits))
        ctx.nt({'woken', 'passed'} <= hits and hits & {'timeout', 'monitor'})
