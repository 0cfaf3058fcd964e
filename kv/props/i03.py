"""I03: resync back-off stays within its bounds, grows on failure and resets on success."""
ID = 'I03'
CASES = {'quick': 5000, 'thorough': 150000}
HISTORY = ('ops',)
RULE = ('a case counts when the back-off object saw two failures, a success and another failure, or when a client failed to inspect twice in a row, '
        'then synced, then failed again')


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    t = st.one_of(st.sampled_from([0, 1, 5, 0.25, 90, 1e-6, 1e6]), st.floats(0, 1000, allow_nan=False))
    fac = st.one_of(st.sampled_from([3, 2, 1.5, 10, 1.001]), st.floats(1.0000001, 50, allow_nan=False))
    r = st.one_of(st.sampled_from([0, 1, 0.95, 0.5]), st.floats(0, 1, allow_nan=False))
    bad = st.one_of(st.none(), st.none(), st.sampled_from([('delay_initial', -1), ('delay_initial', 1e9), ('delay_max', -1e-9), ('randomicity', -0.01),
                                                           ('randomicity', 1.01), ('exp_fac', 1), ('exp_fac', 0.5), ('exp_fac', -2)]))
    obj = st.fixed_dictionaries({
        'kind': st.just('obj'), 'init': t, 'span': t, 'fac': fac, 'r': r, 'bad': bad, 'default': st.integers(0, 7).map(lambda x: x == 0),
        'ops': gens.oplist(st.one_of(st.just(['failed']), st.just(['failed']), st.just(['failed']), st.just(['success']),
                                     st.tuples(st.just('set'), st.sampled_from(['randomicity', 'exp_fac']), st.sampled_from([0, 0.5, 1, 2, 3, -1, 1.5]))), 1, 20)})
    op = gens.weighted(
        (5, st.tuples(st.just('fail'), st.lists(st.sampled_from(['help', 'sensor-list', 'request-timeout-hint', 'cb', 'stall', 'drop']), min_size=1, max_size=5))),
        (3, st.tuples(st.just('ok'), st.booleans())),
        (2, st.tuples(st.just('wait'), st.sampled_from([0.5, 3.0, 20.0]))))
    cl = st.fixed_dictionaries({
        'kind': st.just('client'), 'init': st.sampled_from([0.5, 1, 2]), 'max': st.sampled_from([2, 8, 40]), 'fac': st.sampled_from([3, 2, 1.5]),
        'r': st.sampled_from([None, 0, 0.5, 0.95]), 'ops': gens.oplist(op, 2, 8)})
    return gens.weighted((2, obj), (1, cl))


def run_obj(case, ctx):
    import katcp.inspecting_client as m
    from kv.core import check, equal
    B = m.ExponentialRandomBackoff
    kw = {'delay_initial': case['init'], 'delay_max': case['init'] + case['span'], 'exp_fac': case['fac'], 'randomicity': case['r']}
    if case['bad']:
        kw[case['bad'][0]] = case['bad'][1]
        try:
            B(**kw)
        except Exception:
            ctx.nt(False)
        else:
            check(False, 'invalid-accepted', lambda: repr(kw))
        return
    if case['default']:
        kw = {}
    b = B(**kw)
    kw = {'delay_initial': kw.get('delay_initial', 1.), 'delay_max': kw.get('delay_max', 90.), 'exp_fac': kw.get('exp_fac', 3.), 'randomicity': kw.get('randomicity', 0.95)}
    base = kw['delay_initial']
    hist = []

    def look(r, keep=None):
        d = b.delay
        equal(b.delay, d, 'delay-not-stable')
        if keep is not None:
            equal(d, keep, 'delay-changed')
            return
        lo, hi = (1 - r) * base, base
        eps = 1e-9 * (1 + base)
        check(lo - eps <= d <= hi + eps and 0 <= d <= kw['delay_max'], 'delay-bounds', lambda: '%r delay %r not in [%r, %r] after %r' % (kw, d, lo, hi, hist))
    look(kw['randomicity'])
    r, fac = kw['randomicity'], kw['exp_fac']
    for o in case['ops']:
        valid = 0 <= r <= 1 and fac > 1
        if o[0] == 'set':
            setattr(b, o[1], o[2])
            if o[1] == 'randomicity':
                r = o[2]
            else:
                fac = o[2]
            continue
        before = b.delay
        if o[0] == 'failed':
            b.failed()              # never raises
            if not valid:
                look(r, before)
                continue
            base = min(base * fac, kw['delay_max'])
        else:
            if not valid:
                continue
            b.success()
            base = kw['delay_initial']
        hist.append(o[0])
        look(r)
    if 'success' in hist and hist[:hist.index('success')].count('failed') >= 2 and hist[hist.index('success'):].count('failed'):
        ctx.nt()
    if 0 <= r <= 1 and fac > 1:
        ds = []
        for _ in range(40):
            b.success()
            base = kw['delay_initial']
            look(r)
            ds.append(b.delay)
        if r >= 0.25 and base > 1e-3:
            check(max(ds) - min(ds) > 0.2 * r * base, 'not-random', lambda: repr(ds[:10]))      # false alarm chance about 1e-15
        while base < kw['delay_max'] and fac >= 1.2 and base > 0:
            b.failed()
            base = min(base * fac, kw['delay_max'])
            look(r)


def run(case, ctx):
    ctx.tag(case['kind'])
    if case['kind'] == 'obj':
        return run_obj(case, ctx)
    from kv import vnet
    from kv.core import check
    from kv.props.i01 import make_device, new_client
    import katcp.inspecting_client as m
    with vnet.Env() as env:
        dev = make_device(env, '5.1', [['s', 'a', 0], ['r', 'r1', 0]])
        ic = new_client(env, dev)
        init, mx, fac, r = case['init'], max(case['init'], case['max']), 3., 0.95
        ic.initial_resync_timeout = init
        ic.max_resync_timeout = mx
        events = []             # (time, kind): attempt, failed, reconnectable failure, synced
        arm = []

        def on_request(msg):
            if msg.name == 'help':
                events.append((env.now, 'attempt', None))
                # an error of its user makes the client connect afresh
                if cbconn and cbconn.pop() == dev.accepted:
                    problems.append('still on the connection on which the state callback failed')
                if arm:
                    f = arm.pop(0)
                    if f in ('help', 'sensor-list', 'request-timeout-hint'):
                        dev.faults[f] = ['fail']
                        events.append((env.now, 'failed', f))
                    elif f == 'stall':
                        dev.faults['sensor-list'] = ['stall']
                        events.append((env.now + ic.sync_timeout, 'failed', f))
                    elif f == 'drop':
                        dev.faults['sensor-list'] = ['drop']
                        events.append((env.now, 'failed', f))
                    else:
                        cbfail.append(1)
        dev.on_request = on_request
        cbfail, cbconn, problems = [], [], []

        def cb(state, changes):
            if ic.state != state:
                problems.append('%r, told %r' % (ic.state, state))
            for f, w in ((ic.until_synced(), state.synced), (ic.until_not_synced(), not state.synced), (ic.until_data_synced(), state.data_synced),
                         (ic.until_state(state), True)):
                if f.done() != w:
                    problems.append('wait %s in state %r' % ('done' if f.done() else 'not done', state))
            if state.data_synced and cbfail:
                del cbfail[:]
                cbconn.append(dev.accepted)
                events.append((env.now, 'failed', 'cb'))
                raise ValueError('callback fails')
            if state.synced:
                events.append((env.now, 'synced', None))
        ic.set_state_callback(cb)
        env.loop.add_callback(ic.connect)
        env.advance(1)
        if case['r'] is not None:
            r, fac = case['r'], case['fac']
            ic.resync_delay = m.ExponentialRandomBackoff(init, mx, fac, r)
        for o in case['ops']:
            if o[0] == 'fail':
                arm.extend(o[1])
                dev.changed()
                env.settle()
            elif o[0] == 'ok':
                env.advance(mx * (len(arm) + 1) + 6 * len(arm) + 10)
                check(ic.synced, 'not-synced', lambda: 'events %r state %r' % (events[-6:], ic.state))
            else:
                env.advance(o[1])
            check(not env.loop.errors, 'loop-error', lambda: env.loop.errors[0][-1500:])
            check(not problems, 'state', lambda: problems[0])
        fails = 0
        last = None
        runs = []
        for t, k, f in events:
            if k == 'synced':
                runs.append(0)
                fails, last = 0, None
            elif k == 'failed':
                last = (t, min(init * fac ** fails, mx), f)
                fails += 1
                runs.append(1)
            elif last is not None:
                t0, base, f = last
                slack = 1.0 if f in ('drop', 'cb') else 0
                check((1 - r) * base - 1e-6 <= t - t0 <= base + slack + 1e-6, 'resync-delay',
                      lambda: 'attempt %.3f s after failure %d (%s), expected between %.3f and %.3f (+%s); events %r' % (t - t0, fails, f, (1 - r) * base, base, slack, [(round(a - events[0][0], 3), b, c) for a, b, c in events]))
                last = None
        s = ''.join(map(str, runs))
        if '1101' in s:
            ctx.nt()
        ic.stop()
        env.settle()
        dev.close()
