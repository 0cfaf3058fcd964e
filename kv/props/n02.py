"""N02: sampling strategies deliver exactly the updates they promise (virtual time)."""
ID = 'N02'
CASES = {'quick': 4000, 'thorough': 100000}
RULE = ('a case counts when updates were both delivered and withheld by the strategy and, for timed strategies, both a delayed or '
        'periodic delivery and an immediate one occurred')

G = 0.125
LONG = 80000     # a longest period of hours


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    n = st.integers(1, 12)
    strat = gens.weighted(
        (1, st.just(['none'])), (1, st.just(['auto'])), (2, st.just(['event'])),
        (2, n.map(lambda k: ['period', k])),
        (3, st.integers(1, 8).map(lambda k: ['differential', k])),
        (4, st.tuples(st.integers(0, 8), st.integers(0, 8), st.booleans(), st.booleans()).map(
            lambda t: ['event-rate', t[0], (None if t[3] else LONG) if t[2] and t[1] > 3 else t[0] + max(t[1], t[0] == 0)])),
        (4, st.tuples(st.integers(1, 8), st.integers(0, 8), st.integers(0, 8), st.booleans(), st.booleans()).map(
            lambda t: ['differential-rate', t[0], t[1], (None if t[4] else LONG) if t[3] and t[2] > 3 else t[1] + max(t[2], t[1] == 0)])))
    stat = gens.weighted((6, st.just('nominal')), (1, st.just('warn')), (1, st.sampled_from(['error', 'unknown'])))
    step = gens.weighted(
        (8, st.tuples(st.just('set'), stat, st.integers(-6, 6))),
        (6, st.tuples(st.just('run'), st.sampled_from([1, 1, 2, 3, 4, 6, 9, 15]))),
        (1, st.tuples(st.just('stall'), st.integers(1, 30))),
        (1, st.tuples(st.just('touch'))),
        (1, st.tuples(st.just('jitter'), st.sampled_from([0.25, 0.375, 0.625, 0.75, 0.875]))),
        (1, st.tuples(st.just('due'), st.booleans())),
        (1, st.tuples(st.just('burst'), st.lists(st.tuples(stat, st.integers(-6, 6)), min_size=2, max_size=4))),
        (1, st.tuples(st.just('bad'), st.integers(0, 30))))
    def fit(c):
        name = c['strat'][0]
        if name == 'differential' and c['t'] not in ('integer', 'float', 'timestamp'):
            c = dict(c, t={'discrete': 'integer', 'boolean': 'timestamp', 'string': 'float'}[c['t']])
        if name == 'differential-rate' and c['t'] not in ('integer', 'float'):
            c = dict(c, t='integer' if c['t'] in ('discrete', 'boolean') else 'float')
        if c['via'] == 'v4' and name.endswith('-rate'):
            c = dict(c, via='direct')
        return c
    return st.fixed_dictionaries({
        'strat': strat, 't': st.sampled_from(['integer', 'float', 'float', 'timestamp', 'discrete', 'boolean', 'string']),
        'via': st.sampled_from(['direct', 'v4', 'v5', 'v5bulk', 'v5loop']),
        'init': st.tuples(stat, st.integers(-6, 6)),
        'steps': st.lists(step, min_size=2, max_size=25)}).map(fit)


BAD = [('period', '0'), ('period', '-1'), ('period', 'x'), ('period',), ('period', '1', '2'), ('period', 'nan'), ('period', '-inf'),
       ('differential',), ('differential', '0'), ('differential', '-2'), ('differential', 'x'), ('differential', 'nan'), ('differential', '1', '2'),
       ('event', '1'), ('auto', '1'), ('none', '1'), ('event-rate', '1'), ('event-rate', '2', '1'), ('event-rate', '-1', '1'),
       ('event-rate', 'nan', '1'), ('event-rate', '1', 'nan'), ('event-rate', 'x', '1'), ('event-rate',), ('differential-rate', '1', '2'),
       ('differential-rate', '1', '2', '1'), ('differential-rate', 'x', '1', '2'), ('differential-rate', '1', '-1', '2'), ('bogus',), ('',),
       ('Period', '1'), ('differential-rate', '1.5', '1', '2'), ('differential', '1.5'), ('event-rate', '1', '2', '3')]


def run(case, ctx):
    import katcp
    from katcp import ProtocolFlags, Sensor
    from katcp.sampling import SampleStrategy
    from kv import harness as H, ksensors as ks, vnet
    from kv.core import check, equal, Discard
    from kv.vnet import Env
    strat, t, via = list(case['strat']), case['t'], case['via']
    name = strat[0]
    if name == 'differential' and t not in ('integer', 'float', 'timestamp') or name == 'differential-rate' and t not in ('integer', 'float') \
            or via == 'v4' and name.endswith('-rate'):
        raise Discard('strategy does not apply')
    spec = {'t': t, 'name': 's', 'desc': 'd', 'units': '', 'status': 'nominal', 'params': None}
    unit = 1 if t == 'integer' else 0.25
    if t == 'discrete':
        spec['params'] = ['v%d' % i for i in range(-6, 7)]

    def val(k):
        return {'integer': k, 'float': k * 0.25, 'timestamp': 100 + k * 0.25, 'discrete': 'v%d' % k, 'boolean': k > 0, 'string': 's%d' % k}[t]
    diff = shortest = longest = None
    params = []
    if name == 'period':
        longest = shortest = strat[1] * G
        params = [longest]
    elif name == 'differential':
        diff = strat[1] * unit
        params = [diff]
    elif name.endswith('-rate'):
        if name.startswith('diff'):
            diff = strat[1] * unit
            params = [diff]
        shortest = strat[-2] * G
        longest = None if strat[-1] is None else strat[-1] * G
        params += [shortest, 1e99 if longest is None else longest]
    with Env() as env:
        sen = ks.build(spec)
        sen.set(env.now - 1, ks.status(case['init'][0]), val(case['init'][1]))
        sent = []      # (time, reading, where in history)
        major = 4 if via == 'v4' else 5
        if via == 'direct':
            txt = [p if i % 2 else str(p).encode() for i, p in enumerate(params)]
            s = SampleStrategy.get_strategy(name, lambda so, r: (check(so is sen, 'sensor'), sent.append((env.now, tuple(r)))), sen, *txt, ioloop=env.loop)

            def collect():
                env.settle()
            s.start()
            equal(s.get_sampling_formatted()[0], name.encode(), 'get-sampling')
            equal([float(p) for p in s.get_sampling_formatted()[1]], params, 'get-sampling')
            fine = SampleStrategy.get_strategy('event-rate', lambda *a: None, sen, 0.123456789, 12345.678901, ioloop=env.loop)
            equal([float(p) for p in fine.get_sampling_formatted()[1]], [0.123456789, 12345.678901], 'get-sampling')
        else:
            class Dev(katcp.AsyncDeviceServer if via != 'v5loop' else katcp.DeviceServer):
                PROTOCOL_INFO = {'v4': ProtocolFlags(4, 0, []), 'v5bulk': ProtocolFlags(5, 1, [b'M', b'I', b'B'])}.get(via, ProtocolFlags(5, 0, [b'M', b'I']))

                def setup_sensors(self):
                    self.add_sensor(sen)
            dev = Dev('127.0.0.1', 0)
            if via == 'v5loop':
                dev.set_concurrency_options(thread_safe=True, handler_thread=False)
            port = H.start_device(env, dev)
            c = H.Raw(port)
            env.settle()
            c.msgs()
            reply = []

            def collect():
                env.settle()
                for m in c.msgs():
                    if m.name == 'sensor-status':
                        check(m.t == '#' and len(m.args) == 5 and m.args[1:3] == [b'1', b's'] and m.mid is None, 'inform-form', m)
                        sent.append((env.now, tuple(m.args[:1] + m.args[3:])))
                    else:
                        reply.append(m)
            wire = [str(int(p * 1000)) if via == 'v4' and name == 'period' else ('%d' % p if t == 'integer' and i == 0 and diff else repr(p))
                    for i, p in enumerate(params)]
            c.send(H.fmt('?', 'sensor-sampling', 7, ['s', name] + wire) + b'\n')
            collect()
            check(len(reply) == 1 and reply[0].t == '!' and reply[0].mid == '7', 'reply', reply)
            check(reply[0].args[:3] == [b'ok', b's', name.encode()], 'reply', reply)
            equal([float(a) for a in reply[0].args[3:]], [float(w) for w in wire], 'reply-params')
        checked = [0]
        cur = [tuple(sen.read())]
        last = [None, None, None]         # time, reading, pending
        pend = [False]                    # a change was seen since the last send
        stalled = [False]
        counts = {'immediate': 0, 'timed': 0, 'withheld': 0}

        def differs(r, l):
            if diff is not None:
                return r[1] != l[1] or abs(r[2] - l[2]) > diff
            return r[1:] != l[1:]

        def content(got, r, what):
            if via == 'direct':
                equal(got, r, 'reading-sent', what)
            else:
                check(ks.stamp_ok(got[0], r[0], major) and got[1] == ks.STATUSES[r[1]].encode() and ks.decodes(spec, got[2], r[2], major),
                      'reading-sent', lambda: '%s got %r want %r' % (what, got, r))

        def take(readings, what):
            """The sends since the last call; readings were the current ones, in order, during it."""
            new = sent[checked[0]:]
            checked[0] = len(sent)
            return new
        # initial
        collect()
        new = take(None, 'initial')
        if name == 'none':
            check(not new, 'none-sends', new)
        else:
            check(len(new) == 1, 'initial-reading', new)
            content(new[0][1], cur[0], 'initial')
            last[0], last[1] = env.now, cur[0]

        def on_update(r, new, what):
            """One sensor update at env.now; new: the sends it caused."""
            now = env.now
            if name in ('none', 'period'):
                check(not new, 'unexpected-update', lambda: '%s %r' % (what, new))
                return
            if name == 'auto':
                must, may = True, True
            elif name in ('event', 'differential'):
                must = may = differs(r, last[1])
            else:
                must = may = differs(r, last[1]) and now >= last[0] + shortest
                if differs(r, last[1]):
                    pend[0] = True
            check(len(new) <= 1, 'duplicate-update', lambda: '%s %r' % (what, new))
            check(new or not must, 'missing-update', lambda: '%s: last sent %r at %r, now %r reading %r' % (what, last[1], last[0], now, r))
            check(may or not new, 'unexpected-update', lambda: '%s: last sent %r at %r, now %r sent %r' % (what, last[1], last[0], now, new))
            if new:
                content(new[0][1], r, what)
                last[0], last[1] = now, r
                pend[0] = False
                counts['immediate'] += 1
            else:
                counts['withheld'] += 1

        def on_time(new, what):
            """Time has just reached env.now without updates; new: the sends."""
            now = env.now
            if name in ('none', 'auto', 'event', 'differential'):
                check(not new, 'unexpected-update', lambda: '%s %r' % (what, new))
                return
            # a late period may be made up for at the very moment the next one is due
            # (but a sampler more than a period late skips what it missed)
            check(len(new) <= 1 + (name == 'period' and stalled[0] and now - last[0] <= 2 * longest), 'duplicate-update', lambda: '%s %r' % (what, new))
            if new:
                content(new[0][1], cur[0], what)
                content(new[-1][1], cur[0], what)
                gap = now - last[0]
                ok = longest is not None and gap >= longest
                if name == 'period':
                    ok = ok or stalled[0]
                    stalled[0] = False
                else:
                    ok = ok or (pend[0] and gap >= shortest)
                check(ok, 'unexpected-update', lambda: '%s: gap %r after %r' % (what, gap, last[1]))
                last[0], last[1] = now, cur[0]
                pend[0] = False
                counts['timed'] += 1
            # what must have happened by now
            if longest is not None:
                check(now - last[0] < longest, 'period-exceeded', lambda: '%s: nothing since %r, longest %r' % (what, last[0], longest))
            if name.endswith('-rate'):
                check(not differs(cur[0], last[1]) or now < last[0] + shortest, 'pending-not-delivered',
                      lambda: '%s: %r pending since %r' % (what, cur[0], last[:2]))
        for i, op in enumerate(case['steps']):
            what = 'step %d %r' % (i, op)
            if op[0] in ('set', 'touch'):
                if op[0] == 'touch':
                    r = (env.now,) + cur[0][1:]
                else:
                    r = (env.now, ks.status(op[1]), val(op[2]))
                cur[0] = r
                sen.set(*r)
                collect()
                on_update(r, take(None, what), what)
            elif op[0] == 'burst':
                rs = [(env.now + j, ks.status(a), val(v)) for j, (a, v) in enumerate(op[1])]
                for r in rs:
                    cur[0] = r
                    sen.set(*r)
                collect()
                new = take(None, what)
                for r in rs:
                    # attribute sends to updates by their timestamps, which differ
                    mine = [x for x in new if (x[1][0] == r[0] if via == 'direct' else ks.stamp_ok(x[1][0], r[0], major))]
                    for x in mine:
                        new.remove(x)
                    on_update(r, mine, what)
                check(not new, 'unexpected-update', lambda: '%s %r' % (what, new))
            elif op[0] == 'run':
                for _ in range(op[1]):
                    env.advance(G)
                    collect()
                    on_time(take(None, what), what)
            elif op[0] == 'due' and strat[-1] == LONG:
                # whatever waits for the shortest period first, then all but the whole of the longest one, then the rest of it
                for _ in range(strat[-2] + 1):
                    env.advance(G)
                    collect()
                    on_time(take(None, what), what)
                env.advance(last[0] + longest - G - env.now)
                collect()
                on_time(take(None, what), what)
                if op[1]:
                    env.advance(G)
                    collect()
                    on_time(take(None, what), what)
            elif op[0] == 'stall':
                vnet.CLOCK.now += op[1] * G
                stalled[0] = name == 'period'
                collect()
                on_time(take(None, what), what)
                stalled[0] = name == 'period'
            elif op[0] == 'jitter' and name == 'period':
                # a loop that is late most of the time, though by less than a period, still sends one update per period
                start = env.now
                while env.now < start + 16 * longest:
                    vnet.CLOCK.now += op[1] * longest
                    collect()
                new = take(None, what)
                check(15 <= len(new) <= 18, 'periods-lost', lambda: '%s: %d updates in 16 periods' % (what, len(new)))
                for x in new:
                    content(x[1], cur[0], what)
                last[0], last[1] = new[-1][0], cur[0]
                counts['timed'] += 1
                stalled[0] = True
            elif op[0] == 'bad':
                bad = BAD[op[1] % len(BAD)]
                if bad[1:2] == ('1.5',) and t != 'integer':
                    continue
                if via == 'direct':
                    try:
                        SampleStrategy.get_strategy(bad[0], lambda *a: None, sen, *[x.encode() for x in bad[1:]], ioloop=env.loop)
                    except (ValueError, TypeError):
                        pass
                    else:
                        check(False, 'bad-parameters-accepted', (bad, t))
                else:
                    c.send(H.fmt('?', 'sensor-sampling', 8, ('s',) + bad) + b'\n')
                    del reply[:]
                    collect()
                    check(len(reply) == 1 and reply[0].t == '!' and reply[0].args[0] == b'fail', 'bad-parameters-accepted', lambda: '%r %s %r' % (bad, t, reply))
                    check(not take(None, what), 'unexpected-update', what)
                    c.send(H.fmt('?', 'sensor-sampling', 9, ['s']) + b'\n')
                    del reply[:]
                    collect()
                    check(reply[0].args[2] == name.encode(), 'strategy-lost', lambda: '%r %r' % (bad, reply))
                ctx.tag('bad-parameters')
        H.no_loop_errors(env)
        ctx.tag(name, via)
        timed = name == 'period' or name.endswith('-rate')
        ctx.nt(name in ('none', 'auto') or (counts['withheld'] + counts['timed'] > 0 if name == 'period' else
                                            counts['immediate'] and counts['withheld'] and (not timed or counts['timed'])))
