"""K01: every KATCP type decodes what it encodes."""
ID = 'K01'
CASES = {'quick': 8000, 'thorough': 300000}
RULE = 'a case (one type, up to 6 values and 4 texts) counts when at least one value is inside the domain and one text is accepted'


def cases(tier):
    from hypothesis import strategies as st
    from kv import ktypes
    return ktypes.specs().flatmap(lambda sp: st.fixed_dictionaries({
        'spec': st.just(sp), 'major': st.sampled_from([4, 5]),
        'values': st.lists(ktypes.values(sp), min_size=1, max_size=6),
        'texts': st.lists(ktypes.texts(sp), max_size=4)}))


def run(case, ctx):
    from kv import ktypes
    from kv.core import check, equal, b
    from katcp.core import Message, MessageParser
    spec, major = case['spec'], case['major']
    t = ktypes.build(spec)
    ctx.tag(spec['k'])
    ok = acc = False
    parser = MessageParser()
    for jv in case['values']:
        v = ktypes.to_py(spec, jv)
        if not ktypes.in_domain(spec, v, major):
            continue
        if spec['k'] == 'multi':
            if [x.strip().lower() for x in v] == ['all'] or any(spec['sep'] in x for x in v):
                continue
        ok = True
        enc = t.pack(v, major=major)
        check(isinstance(enc, bytes), 'encode-not-bytes', repr(enc))
        equal(t.pack(v, nocheck=True, major=major), enc, 'nocheck-differs')
        dec = t.unpack(enc, major=major)
        want = v
        if spec['k'] in ('timestamp', 'ts_or_now') and isinstance(v, (float, int)):
            prec = 0.5e-6 if major >= 5 else 1e-3
            check(abs(dec - v) <= prec + abs(v) * 2.0 ** -48, 'timestamp-precision', '%r -> %r -> %r (major %d)' % (v, enc, dec, major))
            # values exactly on the protocol's grid come back exactly
            if major == 4 and abs(v * 1000 - round(v * 1000)) < 1e-6 and abs(v) < 1e10:
                equal(enc, b'%d' % round(v * 1000), 'timestamp-ms', repr(v))
        else:
            if spec['k'] == 'multi':
                want = sorted(v, key=str.lower)
            elif spec['k'] == 'float':
                want = float(v)
            elif spec['k'] == 'strict':
                want = float(v)
            elif spec['k'] == 'struct':
                import struct
                want = struct.unpack(spec['fmt'], struct.pack(spec['fmt'], *v))
            check(ktypes.same(spec, dec, want, major), 'decode-encode-%s' % spec['k'],
                  lambda: '%r -> %r -> %r (major %d)' % (v, enc, dec, major))
        # through a real message line
        m = parser.parse(bytes(Message.request('x', enc)))
        equal(m.arguments, [enc], 'wire')
    for jt in case['texts']:
        data = b(jt)
        try:
            v = t.unpack(data, major=major)
        except (ValueError, TypeError):
            continue
        if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
            continue
        if spec['k'] in ('timestamp', 'ts_or_now') and isinstance(v, float) and abs(v) > 1e15:
            continue        # no such time
        if spec['k'] == 'multi' and (v == ['all'] or '' in v):
            continue
        acc = True
        enc = t.pack(v, major=major)
        v2 = t.unpack(enc, major=major)
        if spec['k'] in ('timestamp', 'ts_or_now') and isinstance(v, float):
            prec = 0.5e-6 if major >= 5 else 1e-3
            check(abs(v2 - v) <= prec + abs(v) * 2.0 ** -48, 'timestamp-reencode', '%r -> %r -> %r -> %r' % (data, v, enc, v2))
            if major == 4 and data.isdigit() and len(data) < 14:
                equal(int(enc), int(data), 'timestamp-ms-text', '%r -> %r' % (data, v))
        else:
            check(ktypes.same(spec, v2, v, major), 'reencode-%s' % spec['k'], lambda: '%r -> %r -> %r -> %r' % (data, v, enc, v2))
        if spec['k'] in ('timestamp', 'ts_or_now') and isinstance(v, float) and abs(v) > 1e11:
            continue        # below the precision of a float
        enc2 = t.pack(v2, major=major)
        equal(enc2, enc, 'reencode-not-stable', repr(data))
    ctx.nt(ok and acc)
