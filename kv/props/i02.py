"""I02: lookups return current information; sensor-status informs reach the sensor objects once and in order."""
ID = 'I02'
CASES = {'quick': 2500, 'thorough': 80000}
HISTORY = ('ops',)
RULE = ('a case counts when readings were delivered for at least two sensors, one inform carried several readings, a malformed inform was '
        'received, and an item unknown to the client was looked up or updated')

NAMES = ['a', 'b', 'a.b', 'c-d', 'new']
RNAMES = ['r1', 'r2', 'r-3']
VALS = {'integer': ['0', '-3', '5'], 'float': ['0', '-1.5', '1e3'], 'boolean': ['0', '1'], 'discrete': ['on', 'off'], 'string': ['', 'x y', 'on']}
BADVALS = {'integer': 'abc', 'float': 'x', 'boolean': '7', 'discrete': 'broken', 'string': None}
STATUSES = ['unknown', 'nominal', 'warn', 'error', 'failure', 'unreachable', 'inactive']
BAD = ['count', 'nocount', 'none', 'ts', 'name', 'fields']


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    from kv.props.i01 import edits
    nm = st.sampled_from(NAMES)
    rd = st.tuples(nm, gens.weighted((6, st.sampled_from(STATUSES)), (1, st.just('bogus'))), gens.weighted((6, st.integers(0, 2)), (1, st.just('bad'))))
    op = gens.weighted(
        (6, st.tuples(st.just('status'), gens.weighted((3, st.lists(rd, min_size=1, max_size=1)), (2, st.lists(rd, min_size=2, max_size=4))))),
        (2, st.tuples(st.just('same'), nm, st.integers(0, 2))),
        (2, st.tuples(st.just('malformed'), st.sampled_from(BAD), nm)),
        (5, st.tuples(st.just('lookup'), st.sampled_from(['s', 's', 'r']), st.integers(0, 4), st.sampled_from([None, None, True, False]))),
        (3, st.tuples(st.just('quiet'), st.sampled_from(['s', 's', 'r']), st.integers(0, 4), st.integers(0, 13))),
        (2, st.tuples(st.just('change'), st.lists(edits(), min_size=1, max_size=3))),
        (2, st.tuples(st.just('fault'), st.sampled_from(['sensor-list', 'sensor-list', 'help']),
                      st.lists(st.sampled_from([0.5, 2.0, 1.0, 'stall', 'fail', 'drop']), min_size=1, max_size=3))),
        (1, st.tuples(st.just('drop'))),
        (1, st.tuples(st.just('late'))), (1, st.tuples(st.just('note'), st.integers(0, 3))),
        (4, st.tuples(st.just('advance'), st.sampled_from([0.25, 0.75, 1.5, 6.0]))),
        (2, st.tuples(st.just('tick'), st.integers(1, 3))),
        (1, st.tuples(st.just('quiesce'))),
        (2, st.tuples(st.just('resync'))),
        (1, st.tuples(st.just('simple'), st.sampled_from(['r1', 'r2', 'nope']), st.sampled_from([None, None, 7, 12]), st.sampled_from([None, None, True, False]),
                      st.sampled_from([None, 0.5, 1.0, 2.0]), gens.weighted((2, st.just('ok')), (1, st.just('stall')), (1, st.just(0.75))))))
    return st.fixed_dictionaries({
        'ver': st.sampled_from(['5.1', '5.1', '5.0', '4.0']),
        'init': st.lists(edits(), max_size=6),
        'ops': gens.oplist(op, 3, 22)})


def decode(stype, raw):
    return {'integer': int, 'float': float, 'boolean': lambda v: v == '1', 'discrete': str, 'string': str}[stype](raw)


def run(case, ctx):
    import katcp
    from kv import vnet
    from kv.core import check, equal
    from kv.props.i01 import apply_edits, make_device, new_client, s_info, sensor, want_r, want_s
    hits = set()
    with vnet.Env() as env:
        dev = make_device(env, case['ver'], case['init'])
        log = []                    # (name, object, timestamp, status, value)

        class Obs(object):
            def update(self, s, reading):
                log.append((s.name, s, reading[0], reading[1], reading[2]))

        def factory(**kw):
            s = katcp.Sensor(**kw)
            s.attach(Obs())
            return s
        ic = new_client(env, dev)
        ic.sensor_factory = factory
        hooked = []
        ic.katcp_client.hook_inform('note', lambda m: hooked.append((1, m.name, tuple(m.arguments))))
        second = lambda m: hooked.append((2, m.name, tuple(m.arguments)))
        for _ in range(2):          # hooking the same twice is as good as once
            ic.katcp_client.hook_inform('note', second)
        ic.katcp_client.hook_inform('other', lambda m: hooked.append((3, m.name, ())))
        env.loop.add_callback(ic.connect)
        env.advance(1)
        check(ic.synced, 'not-synced')
        sent = []                   # [name, timestamp, status, decoded, mandatory]
        dirty = set()               # sensors that changed since the client last certainly knew
        rdirty = set()
        known = set(dev.sensors)    # what the client certainly knows without asking
        rknown = set(dev.requests)
        olds = []                   # what changed items were before the change
        epoch = {}                  # sensor -> number of changes
        lookups = []
        n = [0]
        calm = [True]               # no fault or loss of connection since the last quiesce

        def stamp():
            n[0] += 1
            return 1000 + n[0] * 0.25

        def ts(t):
            return '%.6f' % t if not case['ver'].startswith('4') else '%d' % round(t * 1000)

        def lose(names=None):
            for s in sent:
                if names is None or s[0] in names:
                    if not any(l[0] == s[0] and l[2] == s[1] for l in log):
                        s[4] = False
                        if names is not None:
                            s[3] = None         # the type may be another one by then
            for lk in lookups:
                lk['disturbed'] = True

        def options(lk):
            kind, name = lk['kind'], lk['name']
            if kind == 's':
                return want_s(dev, name) if name in dev.sensors else None
            return want_r(dev, name) if name in dev.requests else None

        def note():
            for lk in lookups:
                if not lk['f'].done():
                    lk['options'].append(options(lk))

        def collect(final=False):
            for lk in list(lookups):
                if not lk['f'].done():
                    check(not final, 'lookup-hangs', lambda: '%s %r' % (lk['kind'], lk['name']))
                    continue
                lookups.remove(lk)
                e = lk['f'].exception()
                if e is not None:
                    check(lk['disturbed'], 'lookup-raises', lambda: '%s %r: %r' % (lk['kind'], lk['name'], e))
                    continue
                o = lk['f'].result()
                got = None if o is None else s_info(o) if lk['kind'] == 's' else (o.name, o.description, o.timeout_hint)
                if got is None and lk['update'] is False:
                    check(lk['unsure'], 'lookup-lost', lambda: 'known %s %r not found' % (lk['kind'], lk['name']))
                    continue
                check(any(got == w for w in lk['options']), 'lookup', lambda: '%s %r update=%r: got %r want %r' % (lk['kind'], lk['name'], lk['update'], got, lk['options']))

        def verify(final=False):
            check(not env.loop.errors, 'loop-error', lambda: env.loop.errors[0][-1500:])
            by = {}
            for name, obj, t, s, v in log:
                by.setdefault(name, []).append((t, s, v))
            for name, recs in by.items():
                exp = [x for x in sent if x[0] == name]
                i = 0
                for t, s, v in recs:
                    while i < len(exp) and exp[i][1] != t:
                        i += 1
                    check(i < len(exp), 'order', lambda: 'sensor %r: readings %r sent %r' % (name, recs, [tuple(x[1:]) for x in exp]))
                    equal(katcp.Sensor.STATUSES[s], exp[i][2], 'status')
                    if exp[i][3] is not None:
                        equal(v, exp[i][3][0], 'value')
                        equal(type(v), type(exp[i][3][0]), 'value-type')
                    i += 1
            if final:
                for x in sent:
                    if x[4]:
                        check(any(r[0] == x[1] for r in by.get(x[0], ())), 'reading-lost', lambda: '%r; delivered %r' % (x, by.get(x[0])))

        def quiesce(lookups=True):
            dev.faults.clear()
            dev.up()
            env.advance(45)
            collect(True)
            check(ic.synced, 'not-synced', lambda: repr(ic.state))
            verify(True)
            dirty.clear()
            rdirty.clear()
            del olds[:]
            known.update(x for x in ic.sensors)
            known.intersection_update(ic.sensors)
            rknown.clear()
            rknown.update(ic.requests)
            calm[0] = True
            # the readings of the objects that lookups return
            if not lookups:
                return
            for name in sorted(known):
                o = env.run_sync(lambda: ic.future_get_sensor(name))
                equal(s_info(o), want_s(dev, name), 'sensor-object')
                mine = [l for l in log if l[1] is o]
                if mine:
                    equal(tuple(o.read()), mine[-1][2:], 'object-reading')
                last = [x for x in sent if x[0] == name][-1:]
                if last and last[0][4] and last[0][5] == epoch.get(name, 0):
                    equal(o.read()[0], last[0][1], 'last-reading')

        def send_status(rds):
            args, t = [], stamp()
            for name, s, v in rds:
                cur = dev.sensors.get(name)
                st = cur['type'] if cur else 'integer'
                raw = BADVALS[st] if v == 'bad' else VALS[st][v % len(VALS[st])]
                raw = 'x' if raw is None else raw
                args += [name, s, raw]
                if s not in STATUSES:
                    continue                # never delivered
                if cur is None or name in dirty:
                    sent.append([name, t, s, None, False, None])
                elif v != 'bad' or st == 'string':
                    sent.append([name, t, s, (decode(st, raw),), name in known or calm[0], epoch.get(name, 0)])
                    if name not in known:
                        hits.add('unknown')
            if len(args) > 3:
                hits.add('multi')
            dev.inform_all('sensor-status', ts(t), str(len(args) // 3), *args)

        def simple(name, mid, use_mid, timeout, how):
            quiesce(False)
            ids = not case['ver'].startswith('4')
            if how == 'stall' and (not ids or use_mid is False and mid is None) or (use_mid or mid is not None) and not ids:
                return
            if how != 'ok' and name in dev.requests:
                dev.faults[name] = [how]
            k, t0 = len(dev.log), env.now
            reply, informs = env.run_sync(lambda: ic.simple_request(name, 'p', 'q r', mid=mid, use_mid=use_mid, timeout=timeout))
            spent = env.now - t0
            dev.faults.clear()
            (_, _, m), = [x for x in dev.log[k:] if x[2].name == name]
            equal((m.t, m.name, list(m.args)), ('?', name, [b'p', b'q r']), 'simple-request')
            if mid is not None:
                equal(m.mid, str(mid), 'simple-request-id')
            else:
                equal(m.mid is not None, ids and use_mid is not False, 'simple-request-id')
            to = 5.0 if timeout is None else timeout
            late = name in dev.requests and (how == 'stall' or isinstance(how, float) and how > to and m.mid is not None)
            if late:
                check(not reply.reply_ok() and abs(spent - to) < 1e-6, 'simple-request-timeout', lambda: '%r after %r' % (reply, spent))
                env.advance(5)
            elif name in dev.requests:
                equal([x.decode() for x in reply.arguments], ['ok', 'p', 'q r'], 'simple-reply')
                equal(len(informs), 2, 'simple-informs')
            else:
                equal(reply.arguments[0], b'invalid', 'simple-reply')

        for o in case['ops']:
            op = o[0]
            ctx.tag(op)
            if op == 'status':
                rds, seen = [], set()
                for r in o[1]:              # one reading per sensor and inform (their timestamp identifies them)
                    if r[0] not in seen:
                        seen.add(r[0])
                        rds.append(r)
                if dev.live():
                    send_status(rds)
                    hits.update('s:' + r[0] for r in rds)
                    if not ic.connected:
                        lose(seen)
            elif op == 'same':
                if dev.live():
                    for k in range(2):
                        send_status([(o[1], 'nominal', o[2])])
                    if not ic.connected:
                        lose([o[1]])
            elif op == 'malformed':
                hits.add('malformed')
                nm, t = o[2], ts(stamp())
                a = {'count': [t, '2', nm, 'nominal', '1'], 'nocount': [t, 'x', nm, 'nominal', '1'], 'none': [],
                     'ts': ['yesterday', '1', nm, 'nominal', '1'], 'name': [t, '1', b'\xff\xfe', 'nominal', '1'],
                     'fields': [t, '1', nm, 'nominal']}[o[1]]
                dev.inform_all('sensor-status', *a)
            elif op == 'note':
                env.settle()
                if dev.live() and ic.connected:
                    del hooked[:]
                    dev.inform_all('note', 'x', str(o[1]))
                    env.settle()
                    want = ('note', (b'x', str(o[1]).encode()))
                    equal(hooked, [(1,) + want, (2,) + want], 'hooked-informs')
            elif op == 'late':
                dev.inform_all('sensor-value', ts(stamp()), '1', 'a', 'nominal', '1')
            elif op == 'lookup':
                name = (NAMES if o[1] == 's' else RNAMES + ['nope', 'help'])[o[2]]
                k, d = (known, dirty) if o[1] == 's' else (rknown, rdirty)
                unsure = name not in k or name in d
                lk = {'kind': o[1], 'name': name, 'update': o[3], 'unsure': unsure, 'disturbed': not calm[0] or not dev.live(), 'options': []}
                lk['options'].append(options(lk))
                if o[3] is False and name not in k:
                    lk['options'].append(None)
                if name not in k:
                    hits.add('unknown')
                if d and name in d:
                    lk['options'].extend(old for nm_, old in olds if nm_ == (o[1], name))
                lk['f'] = (ic.future_get_sensor if o[1] == 's' else ic.future_get_request)(name, o[3])
                lookups.append(lk)
                continue
            elif op == 'quiet':
                name = (NAMES if o[1] == 's' else RNAMES + ['nope', 'r1'])[o[2]]
                d = dev.sensors if o[1] == 's' else dev.requests
                if name not in d and name not in (known if o[1] == 's' else rknown) and name not in dirty and name not in rdirty:
                    if o[1] == 's':
                        d[name] = sensor(o[3])
                    else:
                        d[name] = 'help text %d' % (o[3] % 4)
                    note()
            elif op == 'change':
                before_s = dict((x, want_s(dev, x)) for x in dev.sensors)
                before_r = dict((x, want_r(dev, x)) for x in dev.requests)
                if apply_edits(dev, o[1]):
                    for x in set(before_s) | set(dev.sensors):
                        if before_s.get(x) != (want_s(dev, x) if x in dev.sensors else None):
                            dirty.add(x)
                            epoch[x] = epoch.get(x, 0) + 1
                            olds.append((('s', x), before_s.get(x)))
                    for x in set(before_r) | set(dev.requests):
                        if before_r.get(x) != (want_r(dev, x) if x in dev.requests else None):
                            rdirty.add(x)
                            olds.append((('r', x), before_r.get(x)))
                    lose(dirty)
                    note()
                    dev.changed()
            elif op == 'fault':
                dev.faults.setdefault(o[1], []).extend(o[2])
                if any(not isinstance(x, float) for x in o[2]):
                    calm[0] = False
                    lose()
            elif op == 'drop':
                dev.drop()
                calm[0] = False
                lose()
            elif op == 'advance':
                env.advance(o[1])
            elif op == 'tick':
                for _ in range(o[1]):
                    env.tick()
                continue
            elif op == 'resync':
                quiesce(False)
                continue
            elif op == 'simple':
                if calm[0] and dev.live():
                    simple(*o[1:])
                continue
            elif op == 'quiesce':
                quiesce()
                continue
            if op in ('advance', 'drop'):
                env.settle()
            collect()
            verify()
        quiesce()
        if {'malformed', 'unknown', 'multi'} <= hits and len(set(l[0] for l in log)) >= 2:
            ctx.nt()
        ic.stop()
        env.settle()
        dev.close()
