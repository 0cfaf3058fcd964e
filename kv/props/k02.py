"""K02: KATCP types reject exactly the values outside their domain."""
ID = 'K02'
CASES = {'quick': 8000, 'thorough': 300000}
RULE = ('a case (one type with default/optional setting, up to 6 values and 6 texts) counts when it contains both an accepted '
        'and a rejected value or text')


def cases(tier):
    from hypothesis import strategies as st
    from kv import ktypes
    return ktypes.specs().flatmap(lambda sp: st.fixed_dictionaries({
        'spec': st.just(sp), 'major': st.sampled_from([4, 5]), 'optional': st.booleans(),
        'default': st.one_of(st.none(), ktypes.values(sp)),
        'values': st.lists(st.one_of(ktypes.values(sp), st.none()), min_size=1, max_size=6),
        'texts': st.lists(st.one_of(ktypes.texts(sp), st.none()), max_size=6)}))


def outcome(fn, *a, **k):
    from kv.core import Violation
    try:
        return True, fn(*a, **k)
    except (ValueError, TypeError) as e:
        return False, e
    # anything else propagates and is attributed to katcp


def run(case, ctx):
    from kv import ktypes
    from kv.core import check, equal, b
    from katcp.core import FailReply
    from katcp.kattypes import Parameter
    spec, major = case['spec'], case['major']
    default = ktypes.to_py(spec, case['default'])
    if spec['k'] == 'multi' and default is not None and not default or \
            spec['k'] in ('struct', 'lru') and default is not None and not ktypes.in_domain(spec, default, major):
        default = None      # their unpacking has no use for the value of a bad default
    t = ktypes.build(spec, default=default, optional=case['optional'])
    par = Parameter(3, 'par', t, major)
    ctx.tag(spec['k'])
    a = r = False
    for jv in case['values']:
        v = ktypes.to_py(spec, jv)
        eff = default if v is None else v
        if eff is None:
            want = False
        else:
            want = ktypes.in_domain(spec, eff, major)
        if spec['k'] == 'multi' and eff is not None and not eff:
            continue
        got, res = outcome(t.pack, v, major=major)
        equal(got, want, 'pack-%s-%s' % ('accepts' if got else 'rejects', spec['k']),
              lambda: 'value %r default %r spec %r -> %r;' % (v, default, spec, res))
        pgot, pres = outcome(par.pack, v)
        equal(pgot, want, 'parameter-pack-%s' % ('accepts' if pgot else 'rejects'), lambda: 'value %r spec %r' % (v, spec))
        if got:
            equal(pres, res, 'parameter-pack-result')
            if v is None and want:
                equal(res, t.pack(default, major=major), 'default-pack')
        a, r = a or got, r or not got
    for jt in case['texts']:
        data = None if jt is None else b(jt)
        grey = None
        if data is None:
            if default is None:
                want, wv = case['optional'], None
            else:
                want, wv = ktypes.in_domain(spec, default, major), default
        else:
            try:
                grey, wv = ktypes.ref_decode(spec, data, major)
                if grey is not ktypes.GREY or wv is not None:
                    want = ktypes.in_domain(spec, wv, major)
                else:
                    want = True
            except ValueError:
                want, wv = False, None
        got, res = outcome(t.unpack, data, major=major)
        if isinstance(wv, float) and wv != wv:
            continue        # NaN: ranges do not say
        if grey is ktypes.GREY:
            if got and wv is not None and want:
                check(ktypes.same(spec, res, wv, major), 'unpack-grey', lambda: '%r -> %r want %r' % (data, res, wv))
            continue
        equal(got, want, 'unpack-%s-%s' % ('accepts' if got else 'rejects', spec['k']),
              lambda: 'text %r default %r spec %r -> %r;' % (data, default, spec, res))
        if got:
            if data is None:
                check(res is wv or res == wv, 'default-unpack', lambda: '%r %r' % (res, wv))
            else:
                check(ktypes.same(spec, res, wv, major), 'unpack-value', lambda: '%r -> %r want %r (major %d)' % (data, res, wv, major))
        try:
            pres = par.unpack(data)
            pgot = True
        except FailReply as e:
            pgot = False
            check('3' in str(e) and 'par' in str(e), 'parameter-error-names-parameter', str(e))
        except TypeError:
            pgot = False
        equal(pgot, want, 'parameter-unpack', lambda: 'text %r spec %r' % (data, spec))
        a, r = a or got, r or not got
    ctx.nt(a and r)
