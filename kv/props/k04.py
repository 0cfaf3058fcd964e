"""K04: protocol version and flags are parsed, formatted and applied consistently."""
ID = 'K04'
CASES = {'quick': 3000, 'thorough': 60000}
RULE = ('a case counts when the device has a gated handler that is offered and one that is not, and either its version is below 5 '
        'or one of the optional flags T or B is set')

STRATS = ['none', 'auto', 'event', 'period', 'differential', 'event-rate', 'differential-rate', 'bogus']


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    flag = st.sampled_from('MITBMITBXz')
    flags = st.lists(flag, max_size=5, unique=True).map(lambda l: ''.join(sorted(l)))
    anyver = st.tuples(st.sampled_from([4, 5, 5, 5, 3, 6]), st.integers(0, 3), flags)
    ok = lambda al: st.lists(st.sampled_from(al), max_size=4, unique=True).map(lambda l: ''.join(sorted(l)))
    ver = gens.weighted((1, anyver), (2, st.tuples(st.just(4), st.integers(0, 3), ok('MXz'))),
                        (2, st.tuples(st.just(5), st.just(0), ok('MIX'))),
                        (5, st.tuples(st.just(5), st.integers(1, 3), ok('MITBX'))))
    gate = st.fixed_dictionaries({
        'min': st.one_of(st.none(), st.tuples(st.sampled_from([4, 5, 5, 6]), st.integers(0, 3))),
        'flags': st.one_of(st.none(), st.lists(flag, max_size=2).map(''.join)),
        'hint': st.one_of(st.none(), st.integers(1, 500).map(lambda x: x / 10.)),
        'sub': st.booleans()})
    text = gens.weighted(
        (4, st.tuples(st.integers(0, 9), st.integers(0, 12), flags).map(lambda t: '%d.%d%s' % (t[0], t[1], '-' + t[2] if t[2] else ''))),
        (2, st.tuples(st.integers(0, 9), st.integers(0, 12), st.text(st.one_of(st.sampled_from('\nM'), st.characters(max_codepoint=255)), max_size=3)).map(lambda t: '%d.%d-%s' % t)),
        (1, st.tuples(st.integers(0, 9), st.integers(0, 9), st.sampled_from(['\n', '-\n', '-M\n', '\r', ' '])).map(lambda t: '%d.%d%s' % t)),
        (3, st.text(st.sampled_from('0159.-MIT x\xe9'), max_size=8)), (1, gens.bytestr(6)))
    return st.fixed_dictionaries({
        'ver': ver, 'sub': st.one_of(st.none(), ver), 'gates': st.lists(gate, max_size=5),
        'probe': st.lists(st.tuples(st.integers(3, 7), st.integers(0, 3), st.sampled_from(['B', 'T', 'I', 'M', 'MB', 'MT', 'zB'])), max_size=4),
        'mode': st.sampled_from(['request', 'raw']), 'texts': st.lists(text, max_size=4),
        'strats': st.lists(st.sampled_from(STRATS), min_size=1, max_size=4),
        'period': st.integers(1, 40), 'ms': st.one_of(st.integers(1, 10 ** 7), st.integers(4000, 8100), st.integers(4000, 4100)), 'ts': st.integers(0, 4 * 10 ** 12)})


def valid_info(major, minor, flags):
    if 'I' in flags and major < 5:
        return False
    if ('T' in flags or 'B' in flags) and (major, minor) < (5, 1):
        return False
    return True


BASIC = {'client-list', 'halt', 'help', 'log-level', 'restart', 'sensor-list', 'sensor-sampling', 'sensor-sampling-clear',
         'sensor-value', 'watchdog'}


def offered(major, minor, flags):
    out = set(BASIC)
    if major >= 5:
        out.add('version-list')
    if 'T' in flags:
        out.add('request-timeout-hint')
    return out


def run(case, ctx):
    import re
    import katcp
    from katcp import ProtocolFlags, Sensor
    from katcp.kattypes import (has_katcp_protocol_flags, minimum_katcp_version, request, request_timeout_hint, return_reply, Int)
    from kv import harness as H, ksensors as ks
    from kv.core import b, check, equal, Discard
    from kv.vnet import Env

    def mk(v):
        return ProtocolFlags(v[0], v[1], [c.encode() for c in v[2]])

    # --- format and parse
    for v in [case['ver']] + ([case['sub']] if case['sub'] else []):
        try:
            p = mk(v)
        except ValueError:
            check(not valid_info(*v), 'valid-flags-refused', v)
            continue
        check(valid_info(*v), 'invalid-flags-accepted', v)
        equal(str(p), '%d.%d%s' % (v[0], v[1], '-' + v[2] if v[2] else ''), 'format')
        # two versions are equal exactly when all three parts are
        for w in ((v[0] + 1, v[1], v[2]), (v[0], v[1] + 1, v[2]), (v[0], v[1], v[2] + 'Q'), (v[0], v[1], v[2][1:]),
                  (v[0], v[1], v[2][::-1] + v[2])):
            if valid_info(*w):
                o = mk(w)
                same = (v[0], v[1], set(v[2])) == (w[0], w[1], set(w[2]))
                equal((p == o, p != o, o == p), (same, not same, same), 'flags-equality', (v, w))
        check(p != str(p) and not (p == str(p)), 'flags-equal-text', v)
        q = ProtocolFlags.parse_version(str(p).encode())
        check(q == p and not (q != p), 'parse-format', v)
        equal((q.multi_client, q.message_ids, q.request_timeout_hints, q.bulk_set_sensor_sampling),
              ('M' in v[2], 'I' in v[2], 'T' in v[2], 'B' in v[2]), 'attributes', v)
        for f in 'MITBXz':
            equal(q.supports(f.encode()), f in v[2], 'supports', v)
        if v[0] in (4, 5):
            for s in STRATS:
                equal(q.strategy_allowed(s.encode()), s != 'bogus' and (v[0] >= 5 or not s.endswith('-rate')), 'strategy-allowed', (v, s))
    for v in case.get('probe', ()):
        for parse in (lambda: mk(v), lambda: ProtocolFlags.parse_version(b('%d.%d-%s' % tuple(v)))):
            try:
                p = parse()
            except ValueError:
                check(not valid_info(*v), 'valid-flags-refused', v)
            else:
                check(valid_info(*v), 'invalid-flags-accepted', v)
    for t in case['texts']:
        data = b(t)
        m = re.fullmatch(rb'([0-9]+)\.([0-9]+)(?:-([^\n]*))?', data)
        want = (0, 0, '') if m is None else (int(m.group(1)), int(m.group(2)), ''.join(sorted(set((m.group(3) or b'').decode('latin-1')))))
        try:
            p = ProtocolFlags.parse_version(data)
        except ValueError:
            check(not valid_info(*want), 'parse-refused', t)
        else:
            check(valid_info(*want), 'parse-accepted', t)
            equal((p.major, p.minor, p.flags), (want[0], want[1], set(bytes([ord(c)]) for c in want[2])), 'parse', t)
            ctx.tag('parsed' if m else 'unparsable')

    # --- a device class, maybe derived from one with another version
    vers = [case['ver']] + ([case['sub']] if case['sub'] else [])
    if not all(valid_info(*v) for v in vers):
        return
    sens = Sensor.float('s', 'd', 'u', [-1e9, 1e9], default=1.5)
    sens2 = Sensor.integer('s2', 'd', 'u')

    def mkhandler(g, name):
        if case['mode'] == 'raw':
            def h(self, req, msg):
                """H."""
                return req.make_reply('ok')
            h.__name__ = name
        else:
            def h(self, req):
                """H."""
                return ('ok',)
            h.__name__ = name
            h = request()(return_reply()(h))
        if g['min'] is not None:
            h = minimum_katcp_version(*g['min'])(h)
        if g['flags'] is not None:
            h = has_katcp_protocol_flags([c.encode() for c in g['flags']])(h)
        if g['hint'] is not None:
            h = request_timeout_hint(g['hint'])(h)
        return h
    ns = {'PROTOCOL_INFO': mk(vers[0]), 'setup_sensors': lambda self: (self.add_sensor(sens), self.add_sensor(sens2), None)[2],
          '__module__': __name__}
    nssub = {'__module__': __name__}
    if len(vers) > 1:
        nssub['PROTOCOL_INFO'] = mk(vers[1])
    for i, g in enumerate(case['gates']):
        (nssub if g['sub'] else ns)['request_g%d' % i] = mkhandler(g, 'request_g%d' % i)
    base = katcp.AsyncDeviceServer
    cls = type(base)('Dev', (base,), ns)
    cls = type(base)('SubDev', (cls,), nssub)
    major, minor, flags = vers[-1]
    with Env() as env:
        try:
            dev = cls('127.0.0.1', 0)
        except ValueError:
            check(major not in (4, 5), 'version-refused', vers)
            ctx.tag('unsupported-major')
            return
        check(major in (4, 5), 'version-accepted', vers)
        port = H.start_device(env, dev)
        c = H.Raw(port)
        env.settle()
        greet = [m.key() for m in c.msgs()]
        vstr = ('%d.%d%s' % (major, minor, '-' + flags if flags else '')).encode()
        if major >= 5:
            check(greet[0] == ('#', 'version-connect', None, (b'katcp-protocol', vstr)) and len(greet) == 3, 'announced-version', greet)
        else:
            check([g[1] for g in greet] == ['version', 'build-state'], 'announced-version', greet)

        def ask(name, *args, **kw):
            c.send(H.fmt('?', name, kw.get('mid'), args) + b'\n')
            env.settle()
            env.advance(0.01)
            ms = c.msgs()
            r = [m for m in ms if m.t == '!']
            check(len(r) == 1 and r[0].name == name, 'one-reply', ms)
            return r[0], [m for m in ms if m.t == '#' and m.name != 'log'], [m for m in ms if m.name == 'log']
        want = offered(major, minor, flags)
        hints = {}
        for i, g in enumerate(case['gates']):
            if (g['min'] is None or (major, minor) >= tuple(g['min'])) and (g['flags'] is None or set(g['flags']) <= set(flags)):
                want.add('g%d' % i)
                if g['hint'] is not None:
                    hints['g%d' % i] = g['hint']
        r, inf, _ = ask('help')
        equal([m.args[0].decode() for m in inf], sorted(want), 'help')
        equal(r.args, [b'ok', b'%d' % len(want)], 'help-reply')
        for i in range(len(case['gates'])):
            r, _, _ = ask('g%d' % i)
            equal(r.args[0], b'ok' if 'g%d' % i in want else b'invalid', 'gated-request', case['gates'][i])
        for n in ('version-list', 'request-timeout-hint'):
            r, inf, _ = ask(n)
            equal(r.args[0], b'ok' if n in want else b'invalid', 'gated-builtin', (n, vers))
            if n == 'version-list' and n in want:
                check(tuple(inf[0].args) == (b'katcp-protocol', vstr), 'version-list', inf)
            if n == 'request-timeout-hint' and n in want:
                equal([(m.args[0].decode(), float(m.args[1])) for m in inf], sorted(hints.items()), 'hints')
        # --- strategies, bulk sampling, time units
        p = case['period'] * 0.25
        ptxt = (b'%d' % int(p * 1000)) if major < 5 else repr(p).encode()
        for s in case['strats']:
            args = {'period': [ptxt], 'differential': [b'2'], 'event-rate': [ptxt, ptxt], 'differential-rate': [b'2', ptxt, ptxt]}.get(s, [])
            r, inf, _ = ask('sensor-sampling', 's', s, *args)
            ok = s != 'bogus' and (major >= 5 or not s.endswith('-rate'))
            equal(r.args[0], b'ok' if ok else b'fail', 'strategy', (s, vers))
            if ok:
                got = [r.args[2].decode()] + [float(a) for a in r.args[3:]]
                equal(got, [s] + [float(a) for a in args], 'strategy-reply', vers)
                r, _, _ = ask('sensor-sampling', 's')
                equal([r.args[2].decode()] + [float(a) for a in r.args[3:]], [s] + [float(a) for a in args], 'strategy-query', vers)
            if s == 'period' and ok:
                env.settle()
                c.msgs()
                t0 = env.now
                env.advance(p * 3 - 0.02)
                n = [m for m in c.msgs() if m.name == 'sensor-status']
                check(2 <= len(n) <= 3, 'period-units', lambda: '%r in %r' % (n, p))
            ask('sensor-sampling', 's', 'none')
        if major < 5:
            for args in ([b'period', b'%d' % case.get('ms', 1001)], []):    # set, then asked
                r, _, _ = ask('sensor-sampling', 's', *args)
                equal(r.args[:4], [b'ok', b's', b'period', b'%d' % case.get('ms', 1001)], 'period-milliseconds')
        r, _, _ = ask('sensor-sampling', 's,s2', 'auto')
        equal(r.args[0], b'ok' if 'B' in flags else b'fail', 'bulk', vers)
        ask('sensor-sampling-clear')
        ts = case['ts'] / 1000.
        sens.set(ts, Sensor.NOMINAL, 2.5)
        r, inf, _ = ask('sensor-value', 's')
        check(ks.stamp_ok(inf[0].args[0], ts, major), 'time-units', lambda: '%r %r' % (inf, ts))
        dev.log.error('x')
        env.settle()
        lg = c.msgs()
        check(len(lg) == 1 and lg[0].name == 'log' and ks.stamp_ok(lg[0].args[1], env.now, major), 'log-time-units', lg)
        gated = ['g%d' % i in want for i in range(len(case['gates']))]
        ctx.nt(True in gated and False in gated and (major < 5 or 'T' in flags or 'B' in flags))
        ctx.tag('v%d' % major, 'B' if 'B' in flags else '-', 'T' if 'T' in flags else '-')
