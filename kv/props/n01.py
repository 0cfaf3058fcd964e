"""N01: sensors store, notify and format readings faithfully."""
ID = 'N01'
CASES = {'quick': 7000, 'thorough': 200000}
RULE = ('a case counts when at least two observers were attached, one of them was detached before a later update, at least three '
        'updates were accepted and a refused formatted reading or invalid value was offered')


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens, ksensors as ks

    def ops(spec):
        val = ks.values(spec)
        stat = st.sampled_from(ks.STATUSES)
        ts = ks.stamps()
        badval = {'discrete': st.text(st.sampled_from('abz'), min_size=5, max_size=6)}.get(spec['t'], st.nothing())
        op = gens.weighted(
            (3, st.tuples(st.just('attach'), st.integers(0, 3))),
            (2, st.tuples(st.just('detach'), st.integers(0, 3))),
            (3, st.tuples(st.just('set'), ts, stat, val)),
            (3, st.tuples(st.just('set_value'), st.one_of(st.none(), ts), st.one_of(st.none(), stat), val)),
            (1, st.tuples(st.just('bad_value'), badval) if spec['t'] == 'discrete' else st.just(('tick', 1))),
            (2, st.tuples(st.just('raw'), ts, stat, val)),
            (2, st.tuples(st.just('rawtext'), st.one_of(st.sampled_from(['1', '1.5', '1000', '', 'x', '-1', '1,5']), st.just('12.25')),
                          st.one_of(stat, stat, st.sampled_from(['', 'Nominal', 'bad', 'nominal '])), ks.texts(spec))),
            (2, st.tuples(st.just('nest'), st.integers(0, 3), ts, stat, val, val)),
            (2, st.tuples(st.just('copy'))),
            (1, st.tuples(st.just('tick'), st.integers(1, 5))))
        return st.fixed_dictionaries({'spec': st.just(spec), 'major': st.sampled_from([4, 5]),
                                      'pre': st.integers(0, 4), 'ops': st.lists(op, min_size=1, max_size=25)})
    return ks.specs().flatmap(lambda s: st.one_of(
        st.just(s), ks.values(s).map(lambda v: dict(s, default=v)))).flatmap(ops)


def run(case, ctx):
    import katcp
    from katcp import Sensor
    from kv import ksensors as ks, vnet
    from kv.core import b, check, equal
    spec, major = case['spec'], case['major']
    vnet.CLOCK.now, vnet.CLOCK.active = vnet.Clock.BASE, True
    try:
        sen, twin = ks.build(spec), ks.build(spec)
        cur = (vnet.CLOCK.now, ks.status(spec['status'] or 'unknown'), ks.default_value(spec))
        equal(tuple(sen.read()), cur, 'initial-reading')
        equal((sen.name, sen.description, sen.units, sen.stype, sen.type),
              (spec['name'], ks.description(spec), spec['units'], spec['t'], spec['t']), 'attributes')
        stype = Sensor.parse_type(sen.stype)
        equal(Sensor.parse_params(stype, sen.formatted_params), list(spec['params'] or []), 'params')

        class Obs(object):
            def __init__(self, i):
                self.i, self.calls = i, []

            def update(self, sensor, reading):
                check(sensor is sen, 'observer-sensor')
                # the sensor already shows the reading it announces
                if not nested:
                    equal(tuple(sensor.read()), tuple(reading), 'reading-during-update')
                self.calls.append(tuple(reading))
                if nested and nested[0] is self:
                    nested[0] = None
                    sen.set(*nested[1])
        nested = []
        obs = [Obs(i) for i in range(4)]
        attached = [False] * 4
        want = [[] for _ in obs]
        accepted = refused = detached_then = 0
        ever_detached = set()
        twins = 0

        def accept(reading):
            cur_ = reading
            for i in range(4):
                if attached[i]:
                    want[i].append(cur_)
            return cur_
        for op in [['attach', i] for i in range(case['pre'])] + case['ops']:
            k = op[0]
            if k == 'attach':
                sen.attach(obs[op[1]])
                attached[op[1]] = True
            elif k == 'detach':
                sen.detach(obs[op[1]])
                if attached[op[1]]:
                    ever_detached.add(op[1])
                attached[op[1]] = False
            elif k == 'set':
                v = ks.py(spec, op[3])
                sen.set(op[1], ks.status(op[2]), v)
                cur = accept((op[1], ks.status(op[2]), v))
                accepted += 1
            elif k == 'set_value':
                v = ks.py(spec, op[3])
                kw = {}
                if op[2] is not None:
                    kw['status'] = ks.status(op[2])
                if op[1] is not None:
                    kw['timestamp'] = op[1]
                sen.set_value(v, major=major, **kw)
                cur = accept((vnet.CLOCK.now if op[1] is None else op[1], ks.status(op[2] or 'nominal'), v))
                accepted += 1
            elif k == 'nest':
                # an observer sets the sensor again while it is told: everyone attached is told of both
                r1 = (op[2], ks.status(op[3]), ks.py(spec, op[4]))
                r2 = (op[2] + 1, ks.status(op[3]), ks.py(spec, op[5]))
                nested[:] = [obs[op[1]], r2]
                sen.set(*r1)
                rs = [r1, r2] if attached[op[1]] else [r1]
                del nested[:]
                for i in range(4):
                    got = obs[i].calls[len(want[i]):]
                    if attached[i]:
                        equal(sorted(got, key=repr), sorted(rs, key=repr), 'nested-observer-calls', lambda: 'observer %d after %r' % (i, op))
                    want[i].extend(got if attached[i] else [])
                cur = rs[-1]
                accepted += 1
            elif k == 'bad_value':
                try:
                    sen.set_value(op[1], major=major)
                except (ValueError, TypeError):
                    refused += 1
                else:
                    check(False, 'bad-value-accepted', op[1])
            elif k == 'raw':
                raw = sen.format_reading((op[1], ks.status(op[2]), ks.py(spec, op[3])), major)
                equal(tuple(sen.read()), cur, 'format-changes-reading')
                check(ks.stamp_ok(raw[0], op[1], major), 'stamp-format', (op[1], raw[0]))
                equal(raw[1], op[2].encode(), 'status-format')
                check(ks.decodes(spec, raw[2], op[3], major), 'value-format', (op[3], raw[2]))
                sen.set_formatted(raw[0], raw[1], raw[2], major)
                got = sen.read()
                check(abs(got.timestamp - op[1]) <= (1e-6 if major == 5 else 1e-3), 'raw-timestamp', (got, op))
                equal(got.status, ks.status(op[2]), 'raw-status')
                check(same_value(spec, got.value, ks.py(spec, op[3]), major), 'raw-value', lambda: '%r %r %r' % (got, op, raw))
                cur = accept(tuple(got))
                accepted += 1
            elif k == 'rawtext':
                ok = valid(spec, op, major, ks)
                try:
                    sen.set_formatted(b(op[1]), op[2].encode(), b(op[3]), major)
                except Exception as e:
                    check(ok is not True, 'valid-reading-refused', lambda: '%r %r' % (op, e))
                    refused += 1
                else:
                    check(ok is not False, 'invalid-reading-accepted', lambda: '%r -> %r' % (op, sen.read()))
                    cur = accept(tuple(sen.read()))
                    accepted += 1
            elif k == 'copy' and not representable(spec, cur):
                ctx.tag('not-representable')
            elif k == 'copy':
                raw = sen.read_formatted(major)
                twin.set_formatted(*(raw + (major,)))
                t = twin.read()
                check(abs(t.timestamp - cur[0]) <= (1e-6 if major == 5 else 1e-3), 'copy-timestamp', (t, cur))
                equal(t.status, cur[1], 'copy-status')
                check(same_value(spec, t.value, cur[2], major), 'copy-value', lambda: '%r %r %r' % (t, cur, raw))
                equal(twin.read_formatted(major), raw, 'copy-format')
                twins += 1
            elif k == 'tick':
                vnet.CLOCK.now += op[1]
            if accepted and any(not attached[i] for i in ever_detached):
                detached_then += k in ('set', 'set_value', 'raw', 'nest')
            equal(tuple(sen.read()), cur, 'reading', lambda: 'after %r' % (op,))
            r = sen.read()
            equal((r.timestamp, r.status, r.value, sen.value(), sen.status()), cur + (cur[2], cur[1]), 'accessors')
            for i in range(4):
                equal(obs[i].calls, want[i], 'observer-calls', lambda: 'observer %d after %r' % (i, op))
    finally:
        vnet.CLOCK.active = False
    ctx.tag(spec['t'], 'v%d' % major)
    if twins:
        ctx.tag('copied')
    if refused:
        ctx.tag('refused')
    ctx.nt(sum(1 for w in want if w) >= 2 and detached_then > 0 and accepted >= 3 and (refused > 0 or spec['t'] == 'string'))


def representable(spec, reading):
    # (nobody can write an infinite or absent time as a katcp timestamp)
    import math
    return math.isfinite(reading[0]) and (spec['t'] != 'timestamp' or math.isfinite(reading[2]))


def same_value(spec, got, want, major):
    if spec['t'] == 'timestamp':
        return abs(got - want) <= (1e-6 if major == 5 else 1e-3)
    return got == want and type(got) is type(want)


def valid(spec, op, major, ks):
    import re
    parts = []
    parts.append(True if re.fullmatch(r'-?[0-9]+(\.[0-9]+)?', op[1]) else False)
    parts.append(op[2] in ks.STATUSES)
    parts.append(ks.valid_text(spec, op[3].encode('latin-1'), major))
    if False in parts:
        return False
    return None if None in parts else True
