"""K03: typed request handlers get exactly the decoded parameters and their results become typed replies."""
ID = 'K03'
CASES = {'quick': 2500, 'thorough': 60000}
RULE = ('a case (one declared handler, up to 6 requests) counts when at least one request reached the handler with two or more declared '
        'parameters and one was refused, or a result was refused')


def decl(nmax=3):
    from hypothesis import strategies as st
    from kv import ktypes
    one = ktypes.specs().flatmap(lambda sp: st.fixed_dictionaries({
        'spec': st.just(sp), 'optional': st.booleans(), 'default': st.one_of(st.none(), st.none(), ktypes.values(sp))}))
    # repeated values whose form depends on the protocol version
    ts = st.sampled_from(['timestamp', 'ts_or_now']).map(lambda k: {'spec': {'k': k}, 'optional': False, 'default': None})
    from kv import gens
    return gens.weighted((6, st.tuples(st.lists(one, max_size=nmax), st.booleans())),
                         (1, st.tuples(st.lists(one, max_size=1), ts).map(lambda t: (t[0] + [t[1]], True))))


def good_text(sp):
    """Mostly valid wire text for a type."""
    from hypothesis import strategies as st
    from kv import ktypes, gens
    k = sp['k']
    u8 = lambda s: s.encode('utf-8').decode('latin-1')
    if k == 'int':
        lo = sp.get('min', -60)
        good = st.integers(lo, max(lo, sp.get('max', 100))).map(str)
    elif k == 'float':
        lo = sp.get('min', -60)
        good = st.floats(lo, max(lo, sp.get('max', 1e6))).map(repr)
    elif k == 'bool':
        good = st.sampled_from('01')
    elif k == 'discrete':
        good = st.sampled_from(sp['values']).map(u8)
    elif k == 'lru':
        good = st.sampled_from(['nominal', 'error'])
    elif k == 'multi':
        good = st.lists(st.sampled_from(sp['values']), min_size=1, max_size=3).map(sp['sep'].join)
    elif k in ('timestamp', 'ts_or_now', 'strict'):
        good = st.integers(0, 10 ** 13).map(lambda v: '%d.%03d' % (v // 1000, v % 1000))
    elif k == 'address':
        good = st.sampled_from(['a.b:1', 'localhost', '[::1]:80', '[fe80::1]', '1.2.3.4:65535'])
    else:
        good = ktypes.texts(sp)
    return gens.weighted((5, good), (1, ktypes.texts(sp)))


def cases(tier):
    from hypothesis import strategies as st
    from kv import ktypes, gens

    def rest(d):
        (pars, pmult), (reps, rmult) = d

        def args():
            base = [good_text(p['spec']) for p in pars]
            more = [good_text(pars[-1]['spec']) if pars else gens.bytestr(4)] * 2
            return st.integers(0, len(base) + 2).flatmap(lambda n: st.tuples(*((base + more)[:n])).map(list))
        full = [good_text(p['spec']) for p in pars]

        def result():
            base = [ktypes.values(p['spec']) for p in reps]
            more = [ktypes.values(reps[-1]['spec']) if reps else st.integers()] * 2
            vals = st.one_of(st.integers(0, len(base) + 2), st.just(len(base))).flatmap(
                lambda n: st.tuples(*[st.one_of(x, x, x, st.none()) if i < len(reps) and (reps[i]['default'] is not None or i == 0) else x
                                      for i, x in enumerate((base + more)[:n])]).map(list))
            return gens.weighted((6, vals.map(lambda v: ['ok', v])),
                                 (1, st.text(st.characters(exclude_categories=['Cs']), max_size=5).map(lambda t: ['fail', [t]])),
                                 (1, st.sampled_from([['fail', []], ['fail', ['a', 'b']], ['OK', []], ['invalid', ['x']], ['error', ['x']]])))
        return st.fixed_dictionaries({
            'pars': st.just(pars), 'pmult': st.just(pmult and bool(pars)), 'reps': st.just(reps), 'rmult': st.just(rmult and bool(reps)),
            'include_msg': st.booleans(), 'major': st.sampled_from([None, 4, 5]), 'order': st.booleans(),
            'kind': st.sampled_from(['plain', 'plain', 'coro', 'send', 'concurrent']),
            'reqs': st.lists(st.tuples(st.one_of(st.tuples(*full).map(list), args()), result(), st.one_of(st.none(), st.integers(0, 99))),
                             min_size=1, max_size=6)})
    return st.tuples(decl(), decl()).flatmap(rest)


def run(case, ctx):
    import katcp
    from katcp import ProtocolFlags, AsyncReply, Message
    from katcp import kattypes as kt
    from kv import harness as H, ktypes
    from kv.core import check, equal, b, Discard
    from kv.vnet import Env
    from tornado import gen
    majorarg = {} if case['major'] is None else {'major': case['major']}
    major = case['major'] or 5

    def types(decls, mult):
        out, eff = [], []
        for i, d in enumerate(decls):
            dv = ktypes.to_py(d['spec'], d['default'])
            if dv is not None and (ktypes.in_domain(d['spec'], dv, major) is not True or (d['spec']['k'] == 'multi' and not dv)):
                dv = None
            m = mult and i == len(decls) - 1
            out.append(ktypes.build(d['spec'], default=dv, optional=d['optional'], multiple=m))
            eff.append((d['spec'], dv, d['optional'], m))
        return out, eff
    ptypes, peff = types(case['pars'], case['pmult'])
    rtypes, reff = types(case['reps'], case['rmult'])
    calls, result = [], [None]
    src = 'def request_h(self, req%s%s, *rest):\n    "H."\n    return body(self, req, %s, (%s) + rest)\n' % (
        ', msg' if case['include_msg'] else '', ''.join(', p%d' % i for i in range(len(ptypes))),
        'msg' if case['include_msg'] else 'None', ''.join('p%d, ' % i for i in range(len(ptypes))))

    def body(self, req, msg, args):
        calls.append((bytes(req.msg), None if msg is None else bytes(msg), list(args)))
        status, vals = result[0]
        if case['kind'] == 'send':
            self.cb(req, (status,) + tuple(vals))
            raise AsyncReply()
        return (status,) + tuple(vals)
    env_ns = {'body': body}
    exec(src, env_ns)
    handler = env_ns['request_h']
    if case['kind'] in ('coro', 'concurrent'):
        inner = handler
        names = ', '.join(['self', 'req'] + (['msg'] if case['include_msg'] else []) + ['p%d' % i for i in range(len(ptypes))] + ['*rest'])
        ns2 = {'inner': inner, 'gen': gen}
        exec('def request_h(%s):\n    "H."\n    return go(%s)\n' % (names, names), ns2)

        @gen.coroutine
        def go(*a):
            yield gen.moment
            raise gen.Return(inner(*a))
        ns2['go'] = go
        handler = ns2['request_h']
    ret = kt.return_reply(*rtypes, **majorarg)
    req = kt.request(*ptypes, include_msg=case['include_msg'], **majorarg)
    if case['kind'] == 'send':
        handler = req(handler)
    elif case['order']:
        handler = ret(req(handler))
    else:
        handler = req(ret(handler))
    if case['kind'] == 'concurrent':
        handler = kt.concurrent_reply(handler)

    @kt.send_reply(*rtypes, **majorarg)
    def cb(self, req, res):
        return (req,) + res
    Dev = type(katcp.AsyncDeviceServer)('Dev', (katcp.AsyncDeviceServer,), {
        'request_h': handler, 'setup_sensors': lambda self: None, 'cb': cb,
        'PROTOCOL_INFO': ProtocolFlags(5, 0, [b'M', b'I'])})

    # the same declaration for a received message (unpack_message / inform)
    seen = []
    src = 'def inform_h(self%s%s, *rest):\n    "H."\n    seen.append((%s, (%s) + rest))\n' % (
        ', msg' if case['include_msg'] else '', ''.join(', p%d' % i for i in range(len(ptypes))),
        'bytes(msg)' if case['include_msg'] else 'None', ''.join('p%d, ' % i for i in range(len(ptypes))))
    ns3 = {'seen': seen}
    exec(src, ns3)
    inform_h = (kt.inform if case['order'] else kt.unpack_message)(*ptypes, include_msg=case['include_msg'], **majorarg)(ns3['inform_h'])
    refused = called = result_refused = False
    with Env() as env:
        dev = Dev('127.0.0.1', 0)
        port = H.start_device(env, dev)
        c = H.Raw(port)
        env.settle()
        c.msgs()
        for args, res, mid in case['reqs']:
            args = [b(a) for a in args]
            vals = []
            for i, v in enumerate(res[1]):
                sp = case['reps'][min(i, len(case['reps']) - 1)]['spec'] if case['reps'] and res[0] == 'ok' else None
                vals.append(ktypes.to_py(sp, v) if sp else v)
            result[0] = (res[0], vals)
            del calls[:], seen[:]
            c.send(H.fmt('?', 'h', mid, args) + b'\n')
            env.settle()
            reps = c.msgs()
            H.no_loop_errors(env)
            check(len(reps) == 1 and reps[0].t == '!' and reps[0].name == 'h' and reps[0].mid == (None if mid is None else str(mid)),
                  'one-reply', reps)
            rep = reps[0]
            ok, want, fuzzy = decode(peff, args, major)
            if fuzzy:
                ctx.tag('grey')
            if ok or (fuzzy and calls):
                equal(len(calls), 1, 'handler-called', lambda: 'args %r decl %r reply %r' % (args, peff, rep))
                called = called or len(ptypes) > 1
                equal(calls[0][0], H.fmt('?', 'h', mid, args), 'handler-msg')
                equal(calls[0][1], H.fmt('?', 'h', mid, args) if case['include_msg'] else None, 'include-msg')
                compare(peff, calls[0][2], want, fuzzy, major, 'handler-argument', args)
                refused_here = reply(ctx, reff, case['rmult'], res[0], vals, rep, major, case['kind'])
                result_refused = result_refused or refused_here
            elif not fuzzy:
                check(not calls, 'handler-called-despite-bad-arguments', lambda: 'args %r decl %r call %r' % (args, peff, calls))
            if not calls:
                check(rep.args[0] == b'fail' and len(rep.args) == 2, 'fail-reply', rep)
                if not fuzzy and want is not None:
                    # the reply says which parameter was wrong
                    i = min(len(want), len(peff) - 1)
                    check(b'%d' % (len(want) + 1) in rep.args[1] and b'p%d' % i in rep.args[1], 'wrong-parameter-named',
                          lambda: 'parameter %d of %r: %r' % (len(want), args, rep))
                refused = True
            m = Message.inform('h', *args)
            try:
                inform_h(None, m)
            except Exception as e:
                if not isinstance(e, (katcp.FailReply, ValueError, TypeError)):
                    raise
            equal(bool(seen), bool(calls), 'unpack-message', lambda: '%r' % (args,))
            if seen:
                compare(peff, list(seen[0][1]), want, fuzzy, major, 'inform-argument', args)
                equal(seen[0][0], bytes(m) if case['include_msg'] else None, 'inform-include-msg')
    ctx.nt((called and refused) or result_refused)
    ctx.tag(case['kind'], 'major-%s' % case['major'])
    if case['pmult']:
        ctx.tag('multiple')


def decode(peff, args, major):
    """(accepted, expected values, whether either outcome is tolerated)."""
    from kv import ktypes
    if len(args) > len(peff) and not (peff and peff[-1][3]):
        return False, None, False
    want, fuzzy, ok = [], False, True
    for i in range(max(len(args), len(peff))):
        spec, dv, opt, _ = peff[min(i, len(peff) - 1)]
        if i >= len(args):
            if dv is None and not opt:
                return False, want, False
            want.append(('default', dv))
            continue
        try:
            g, v = ktypes.ref_decode(spec, args[i], major)
        except ValueError:
            return False, None if fuzzy else want, False
        if g is ktypes.GREY or (isinstance(v, float) and v != v):
            fuzzy = True
            want.append(('grey', v))
            continue
        if ktypes.in_domain(spec, v, major) is False:
            return False, None if fuzzy else want, False
        want.append(('value', v))
    return ok and not fuzzy, want, fuzzy


def compare(peff, got, want, fuzzy, major, sig, args):
    from kv import ktypes
    from kv.core import check, equal
    equal(len(got), len(want), sig + '-count', lambda: '%r' % (args,))
    for i, (kind, v) in enumerate(want):
        spec = peff[min(i, len(peff) - 1)][0]
        if kind == 'default':
            check(got[i] is v or got[i] == v, sig + '-default', lambda: '%d %r want %r' % (i, got[i], v))
        elif kind == 'value':
            check(ktypes.same(spec, got[i], v, major), sig, lambda: '%d %r want %r (text %r major %d)' % (i, got[i], v, args[i], major))


def reply(ctx, reff, mult, status, vals, rep, major, kind):
    """Checks the reply against the handler's result; True when the result had to be refused."""
    from kv import ktypes
    from kv.core import check, equal
    bad = lambda: (check(len(rep.args) == 2 and rep.args[0] == b'fail', 'bad-result-sent', lambda: 'status %r vals %r reply %r' % (status, vals, rep)),
                   check(status != 'fail' or rep.args[1] not in (b'', b'a'), 'bad-result-sent', lambda: '%r reply %r' % (vals, rep)), True)[2]
    if status == 'fail' and len(vals) == 1:
        equal(rep.args, [b'fail', vals[0].encode('utf-8')], 'fail-result')
        return False
    if status != 'ok':
        return bad()
    if len(vals) > len(reff) and not mult:
        return bad()
    n = max(len(vals), len(reff))
    eff = []
    for i in range(n):
        spec, dv, opt, _ = reff[min(i, len(reff) - 1)]
        v = vals[i] if i < len(vals) else None
        if v is None:
            v = dv
        if v is None:
            return bad()
        if spec['k'] == 'multi' and not v:
            return False
        d = ktypes.in_domain(spec, v, major)
        if d is None:
            return False
        if not d:
            return bad()
        eff.append((spec, v))
    check(rep.args[0] == b'ok', 'good-result-refused', lambda: 'vals %r reply %r' % (eff, rep))
    equal(len(rep.args), n + 1, 'reply-argument-count', lambda: '%r %r' % (eff, rep))
    for (spec, v), a in zip(eff, rep.args[1:]):
        ok = True
        try:
            g, got = ktypes.ref_decode(spec, a, major)
        except ValueError:
            ok, got = False, None
        k = spec['k']
        if ok:
            if k in ('timestamp', 'ts_or_now') and isinstance(v, float):
                ok = isinstance(got, float) and abs(got - v) <= max(1e-6 if major >= 5 else 5.1e-4, abs(v) * 2.0 ** -50)
            elif k == 'multi':
                ok = sorted(x.lower() for x in got) == sorted(set(x.lower() for x in v)) or sorted(got) == sorted(v)
            elif k == 'strict':
                ok = abs(got - v) <= 1e-6 + abs(v) * 1e-9
            elif k == 'discrete':
                ok = got == v
            elif k == 'float':
                ok = got == float(v) or abs(got - v) <= abs(v) * 1e-9
            elif k == 'struct':
                import struct
                ok = struct.pack(spec['fmt'], *v) == a
            elif k == 'address' or k == 'str' or k == 'regex':
                ok = got == v
        check(ok, 'reply-argument', lambda: '%s value %r sent as %r' % (k, v, a))
    return False
