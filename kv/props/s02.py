"""S02: built-in requests report the device's actual requests, sensors and clients."""
ID = 'S02'
CASES = {'quick': 2500, 'thorough': 60000}
RULE = ('a case counts when sensors were added or removed while running, a regular expression or exact name selected some but not '
        'all of at least two sensors, and a request with no match or a malformed argument was made')


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens, ksensors as ks
    atom = st.sampled_from(['a', 'b', 'x', 'A', '.', '\\.', '^', '$', '[ab]', 'a*', 'b+', '(a|b)', '-', '_', '1', 'c', ''])
    rx = st.one_of(st.lists(atom, min_size=0, max_size=3).map(''.join),
                   st.sampled_from(['^a', 'b$', 'a.b', 'a\\.b', '^a$', '(', '[', '*', '(?i)A', '\\d', '', '/', 'a|b', '.'])).map(lambda s: '/' + s + '/')
    nm = ks.names()
    filt = gens.weighted((3, rx), (3, nm), (2, st.tuples(st.just('#'), st.integers(0, 6))),
                         (1, st.sampled_from(['/', '//', '/a', 'a/', '', '\xff', '/\xff/', 'b\xe9'])))

    def upd(spec):
        return st.tuples(ks.stamps(), st.sampled_from(ks.STATUSES), ks.values(spec))
    sensor = ks.specs().flatmap(lambda s: st.tuples(st.just(s), st.lists(upd(s), max_size=2)))
    op = gens.weighted(
        (4, st.tuples(st.just('list'), st.one_of(st.none(), filt))),
        (4, st.tuples(st.just('value'), st.one_of(st.none(), filt))),
        (3, st.tuples(st.just('add'), sensor)),
        (2, st.tuples(st.just('remove'), st.integers(0, 6), st.booleans())),
        (2, st.tuples(st.just('set'), st.integers(0, 6), st.integers(0, 1))),
        (1, st.tuples(st.just('help'), st.one_of(st.none(), st.sampled_from(['help', 'foo', 'slow-one', 'nope', 'sensor-list', '\xff', '', 'request_foo'])))),
        (1, st.tuples(st.just('hint'), st.one_of(st.none(), st.sampled_from(['help', 'foo', 'slow-one', 'nope', '\xff'])))),
        (1, st.tuples(st.just('clients'))), (1, st.tuples(st.just('connect'))), (1, st.tuples(st.just('drop'), st.integers(0, 3))),
        (1, st.tuples(st.just('versions'))),
        (1, st.tuples(st.just('extra'), st.sampled_from(['p', 'q', 'a']), st.sampled_from(['v1', 'v 2']), st.sampled_from([None, 'b1', '']))),
        (1, st.tuples(st.just('level'), st.one_of(st.none(), st.sampled_from(['warn', 'info', 'off', 'debug', 'trace', 'nope', '', 'WARN', '\xff'])))),
        (1, st.tuples(st.just('watchdog'))), (1, st.tuples(st.just('restart'))))
    return st.fixed_dictionaries({
        'sensors': st.lists(sensor, max_size=5), 'major': st.sampled_from([4, 5]),
        'ops': st.lists(op, min_size=1, max_size=18), 'mode': st.sampled_from(['async', 'loop']),
        'doc': st.sampled_from(['Foo doc.', '  Foo\n  more\xe9 ', 'x', 'Foo.\n\n    Notes\n    -----\n    More. And more\n\n'])})


def run(case, ctx):
    import re
    import katcp
    from katcp import ProtocolFlags
    from katcp.kattypes import request_timeout_hint
    from kv import harness as H, ksensors as ks
    from kv.core import b, check, equal
    from kv.vnet import Env
    from kv.props.k04 import offered
    major = case['major']
    flags = 'M' if major == 4 else 'IMT'
    minor = 0 if major == 4 else 1

    class Dev(katcp.AsyncDeviceServer if case['mode'] == 'async' else katcp.DeviceServer):
        PROTOCOL_INFO = ProtocolFlags(major, minor, [c.encode() for c in flags])
        VERSION_INFO = ('ver', 3, 7)
        BUILD_INFO = ('bld', 1, 2, 'rc1')

        def setup_sensors(self):
            pass

        def request_foo(self, req, msg):
            """Foo."""
            return req.make_reply('ok')

        @request_timeout_hint(12.5)
        def request_slow_one(self, req, msg):
            """Slow."""
            return req.make_reply('ok')
    with Env() as env:
        dev = Dev('127.0.0.1', 0)
        if case['mode'] != 'async':
            dev.set_concurrency_options(thread_safe=True, handler_thread=False)
        Dev.request_foo.__doc__ = case['doc']
        port = H.start_device(env, dev)
        clients = [H.Raw(port)]
        env.settle()
        c = clients[0]
        greet = [m.key()[1:2] + m.key()[3:] for m in c.msgs()]
        if major == 4:
            equal(greet, [('version', (b'ver-3.7',)), ('build-state', (b'bld-1.2rc1',))], 'greeting')
        else:
            equal(greet[2], ('version-connect', (b'katcp-device', b'ver-3.7', b'bld-1.2rc1')), 'greeting')
        model = {}      # name -> [spec, sensor, reading, updates]
        extra = {}
        level = 'warn'
        selective = nomatch = changed = False

        def add(sv):
            spec, ups = sv
            s = ks.build(spec)
            dev.add_sensor(s)
            model[spec['name']] = [spec, s, (env.now, spec['status'] or 'unknown', ks.default_value(spec)), ups]

        def ask(name, *args):
            c.send(H.fmt('?', name, None, args) + b'\n')
            env.settle()
            ms = c.msgs()
            r = [m for m in ms if m.t == '!']
            check(len(r) == 1 and r[0].name == name and ms[-1] is r[0], 'one-reply', ms)
            inf = ms[:-1]
            check(all(m.t == '#' and m.name == name for m in inf), 'foreign-inform', ms)
            if r[0].args[0] == b'ok' and inf:
                equal(r[0].args[1:], [b'%d' % len(inf)], 'inform-count', name)
            return r[0].args, inf

        for sv in case['sensors']:
            add(sv)
        for op in case['ops']:
            k = op[0]
            names = sorted(model)
            if k in ('list', 'value'):
                name = 'sensor-' + k
                f = op[1]
                if isinstance(f, (list, tuple)):
                    f = names[f[1] % len(names)] if names else 'nothing'
                args = () if f is None else (b(f) if not isinstance(f, bytes) else f,)
                r, inf = ask(name, *args)
                bad = False
                if f is None:
                    want = names
                else:
                    try:
                        fs = b(f).decode('utf-8')
                    except UnicodeDecodeError:
                        bad = True
                    if not bad and fs.startswith('/') and fs.endswith('/'):
                        try:
                            rx = re.compile(fs[1:-1])
                            want = [n for n in names if rx.search(n)]
                            if 0 < len(want) < len(names):
                                selective = True
                                ctx.tag('regex-some')
                        except re.error:
                            bad = True
                            ctx.tag('bad-regex')
                    elif not bad:
                        want = [n for n in names if n == fs]
                        bad = not want
                        if want and len(names) > 1:
                            selective = True
                            ctx.tag('exact')
                if bad:
                    nomatch = True
                    equal(r[0], b'fail', 'no-match', f)
                    check(not inf, 'inform-on-failure', inf)
                    continue
                equal(r, [b'ok', b'%d' % len(want)], 'reply', lambda: '%s %r' % (name, f))
                for m, n in zip(inf, want):
                    spec, _, (ts, stat, val), _ = model[n]
                    if k == 'list':
                        equal(m.args[:4], [n.encode(), ks.description(spec).encode(), spec['units'].encode(), spec['t'].encode()], 'sensor-list')
                        ps = spec['params'] or []
                        check(len(ps) == len(m.args) - 4 and all(
                            (a == p.encode() if spec['t'] == 'discrete' else float(a) == float(p)) for a, p in zip(m.args[4:], ps)), 'sensor-params',
                            lambda: '%r %r' % (m, spec))
                    else:
                        check(len(m.args) == 5 and m.args[1] == b'1' and m.args[2] == n.encode(), 'sensor-value', m)
                        check(ks.stamp_ok(m.args[0], ts, major), 'timestamp', lambda: '%r %r' % (m, ts))
                        equal(m.args[3], stat.encode(), 'status', m)
                        check(ks.decodes(spec, m.args[4], val, major), 'value', lambda: '%r %r' % (m, val))
            elif k == 'add':
                add(op[1])
                changed = True
            elif k == 'remove' and names:
                n = names[op[1] % len(names)]
                dev.remove_sensor(n if op[2] else model[n][1])
                del model[n]
                changed = True
            elif k == 'set' and names:
                e = model[names[op[1] % len(names)]]
                if e[3]:
                    ts, stat, val = e[3][op[2] % len(e[3])]
                    e[1].set(ts, ks.status(stat), ks.py(e[0], val))
                    e[2] = (ts, stat, ks.py(e[0], val))
            elif k == 'help':
                docs = {'foo': case['doc'], 'slow-one': 'Slow.'}
                allr = sorted(offered(major, minor, flags) | set(docs))
                r, inf = ask('help', *(() if op[1] is None else (b(op[1]),)))
                want = allr if op[1] is None else [n for n in allr if n == op[1]]
                if not want:
                    nomatch = True
                    equal(r[0], b'fail', 'help-unknown', op[1])
                    check(not inf, 'inform-on-failure', inf)
                else:
                    equal(r, [b'ok', b'%d' % len(want)], 'help-reply')
                    equal([m.args[0].decode() for m in inf], want, 'help')
                    for m in inf:
                        n = m.args[0].decode()
                        if n in docs:
                            equal(m.args[1].decode().strip(), docs[n].strip(), 'help-text', n)
                        check(len(m.args) == 2 and m.args[1].strip(), 'help-text', m)
            elif k == 'hint':
                r, inf = ask('request-timeout-hint', *(() if op[1] is None else (b(op[1]),)))
                if major == 4:
                    equal(r, [b'invalid', b'Unknown request.'], 'hint-v4')
                elif op[1] in ('nope', '\xff'):
                    nomatch = True
                    equal(r[0], b'fail', 'hint-unknown')
                else:
                    want = {None: [('slow-one', 12.5)], 'slow-one': [('slow-one', 12.5)], 'foo': [('foo', 0)], 'help': [('help', 0)]}[op[1]]
                    equal([(m.args[0].decode(), float(m.args[1])) for m in inf], want, 'hints')
                    equal(r, [b'ok', b'1'], 'hint-reply')
            elif k == 'clients':
                r, inf = ask('client-list')
                want = sorted('127.0.0.1:%d' % x.sock.getsockname()[1] for x in clients)
                equal(sorted(m.args[0].decode() for m in inf), want, 'client-list')
                check(all(len(m.args) == 1 for m in inf), 'client-list', inf)
                if len(want) > 1:
                    ctx.tag('several-clients')
            elif k == 'connect':
                clients.append(H.Raw(port))
                env.settle()
            elif k == 'drop' and len(clients) > 1:
                x = clients.pop(1 + op[1] % (len(clients) - 1))
                x.close()
                env.settle()
            elif k == 'versions':
                r, inf = ask('version-list')
                if major == 4:
                    equal(r, [b'invalid', b'Unknown request.'], 'version-list-v4')
                else:
                    want = [(b'katcp-protocol', b'5.1-IMT'), (b'katcp-library',), (b'katcp-device', b'ver-3.7', b'bld-1.2rc1')]
                    want += [tuple(z.encode() for z in (n,) + v if z is not None) for n, v in sorted(extra.items())]
                    got = [tuple(m.args) if i != 1 else tuple(m.args[:1]) for i, m in enumerate(inf)]
                    equal(got, want, 'version-list')
                    equal(r, [b'ok', b'%d' % len(want)], 'version-list-reply')
            elif k == 'extra':
                dev.extra_versions[op[1]] = extra[op[1]] = (op[2], op[3])
            elif k == 'level':
                r, inf = ask('log-level', *(() if op[1] is None else (b(op[1]),)))
                if op[1] is None or op[1] in ('warn', 'info', 'off', 'debug', 'trace'):
                    level = op[1] or level
                    equal(r, [b'ok', level.encode()], 'log-level')
                else:
                    nomatch = True
                    equal(r[0], b'fail', 'bad-log-level', op[1])
                equal(dev.log.level_name(), level, 'level-in-force')
            elif k == 'watchdog':
                equal(ask('watchdog'), ([b'ok'], []), 'watchdog')
            elif k == 'restart':
                equal(ask('restart')[0][0], b'fail', 'restart-without-queue')
        H.no_loop_errors(env)
        for x in clients[1:]:
            check(all(m.name in ('version-connect', 'version', 'build-state') for m in x.msgs()), 'answer-to-others')
        ctx.nt(selective and nomatch and changed)
        ctx.tag('v%d' % major)
