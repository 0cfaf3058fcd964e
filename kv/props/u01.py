"""U01: asynchronous events, states and future combinators keep their contracts."""
ID = 'U01'
CASES = {'quick': 6000, 'thorough': 300000}
HISTORY = ('ops',)
RULE = ('a case counts when two waits on the same event, state or future were pending at once, one of them in a combination of '
        'several futures, and a wait ended by timeout or with an exception')

STATES = ['a', 'b', 'c', 'd']


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    tmo = gens.weighted((3, st.none()), (2, st.sampled_from([0.5, 1.0, 2.0])))
    src = gens.weighted((3, st.tuples(st.just('raw'), st.integers(0, 3))), (3, st.tuples(st.just('ev'), st.integers(0, 1))),
                        (3, st.tuples(st.just('st'), st.sampled_from(STATES))), (1, st.tuples(st.just('later'), st.sampled_from([0.5, 1.0]))))
    # what happens when the wait ends: nothing, or an operation done from its callback
    then = gens.weighted((6, st.none()), (1, st.tuples(st.just('clear'), st.integers(0, 1))), (1, st.tuples(st.just('set'), st.integers(0, 1))),
                         (1, st.tuples(st.just('state'), st.sampled_from(STATES))), (1, st.tuples(st.just('resolve'), st.integers(0, 3), st.sampled_from(['v', 'e']))))
    srcs = st.lists(src, min_size=1, max_size=4)
    op = gens.weighted(
        (3, st.tuples(st.just('wait'), src, tmo, then)),
        (4, st.tuples(st.just('any'), srcs, tmo, then)),
        (3, st.tuples(st.just('some'), srcs, gens.weighted((3, st.none()), (4, st.integers(0, 4))), tmo, st.booleans())),
        (3, st.tuples(st.just('state_in'), st.lists(st.sampled_from(STATES), min_size=1, max_size=3, unique=True), tmo, then)),
        (1, st.tuples(st.just('mgr'), st.lists(src, min_size=1, max_size=3), tmo)),
        (4, st.tuples(st.just('set'), st.integers(0, 1))), (2, st.tuples(st.just('clear'), st.integers(0, 1))),
        (4, st.tuples(st.just('state'), st.sampled_from(STATES))),
        (4, st.tuples(st.just('resolve'), st.integers(0, 3), st.sampled_from(['v', 'v', 'n', 'e']))),
        (1, st.tuples(st.just('fresh'), st.integers(0, 3))),
        (3, st.tuples(st.just('advance'), st.sampled_from([0.25, 0.5, 1.0, 3.0]))),
        (1, st.tuples(st.just('bad'), st.just(0))))
    lat = st.lists(st.tuples(st.booleans(), st.sampled_from([0, 0.0625, 0.125, 0.5])), max_size=8)
    again = st.tuples(st.booleans(), st.integers(1, 4), st.integers(0, 3))
    left = st.tuples(st.lists(st.sampled_from('pvde'), min_size=1, max_size=4), st.booleans(), st.booleans())
    return st.fixed_dictionaries({'ops': gens.oplist(op, 3, 24), 'cb': st.booleans(), 'lat': lat, 'again': st.lists(again, max_size=2),
                                  'left': st.lists(left, max_size=2)})


class Boom(Exception):
    pass


class F(object):
    """A future as the model sees it."""

    def __init__(self):
        self.out = None        # ('v', x) | ('e', x) | ('timeout',)
        self.subs = []

    def finish(self, out):
        if self.out is None:
            self.out = out
            subs, self.subs = self.subs, []
            for s in subs:
                s(self)

    def then(self, fn):
        if self.out is not None:
            fn(self)
        else:
            self.subs.append(fn)


def run(case, ctx):
    import logging
    from katcp import core
    import tornado.gen
    from tornado.concurrent import Future
    from kv import vnet
    from kv.core import check, equal
    logging.getLogger('tornado').disabled = True
    logging.getLogger('tornado.application').disabled = True
    hits = set()
    with vnet.Env() as env:
        calls = [[], []]
        evs = []
        for i in range(2):
            if case['cb']:
                def cb(x, i=i):
                    calls[i].append(x)
                    if len(calls[i]) == 2:
                        raise ValueError('callback')
                evs.append(core.AsyncCallbackEvent(cb))
            else:
                evs.append(core.AsyncEvent(ioloop=env.loop))
        state = core.AsyncState(STATES, initial_state='b', ioloop=env.loop)
        raws = [Future() for _ in range(4)]
        # model
        S = {'ev': [False, False], 'evw': [[], []], 'state': 'b', 'stw': dict((s, []) for s in STATES), 'raw': [F() for _ in range(4)]}
        want_calls = [[], []]
        timers = []         # (deadline, order, fn)
        pend = []           # (real future, model F, description)
        count = [0]

        def at(dt, fn):
            count[0] += 1
            timers.append([env.now + dt, count[0], fn])

        def m_src(s):
            k = s[0]
            f = F()
            if k == 'raw':
                return S['raw'][s[1]]
            if k == 'ev':
                if S['ev'][s[1]]:
                    f.finish(('v', True))
                else:
                    S['evw'][s[1]].append(f)
            elif k == 'st':
                if S['state'] == s[1]:
                    f.finish(('v', True))
                else:
                    S['stw'][s[1]].append(f)
            else:
                at(s[1], lambda: f.finish(('v', None)))
            return f

        def r_src(s):
            k = s[0]
            if k == 'raw':
                return raws[s[1]]
            if k == 'ev':
                return evs[s[1]].until_set()
            if k == 'st':
                return state.until_state(s[1])
            return core.until_later(s[1], ioloop=env.loop)

        def m_timeout(f, tmo):
            if tmo is None:
                return f
            g = F()
            f.then(lambda x: g.finish(x.out))
            if g.out is None:
                at(tmo, lambda: g.finish(('timeout',)))
            return g

        def m_any(fs):
            g = F()
            for f in fs:
                f.then(lambda x: g.finish(x.out))
                if g.out is not None:
                    break
            return g

        def m_some(fs, keys, n):
            g = F()
            res = []
            if n is None:
                n = len(fs)

            def one(x, k):
                if g.out is not None:
                    return
                if x.out[0] == 'e':
                    g.finish(x.out)
                else:
                    res.append((k, x.out[1]))
                    if len(res) >= min(n, len(fs)):
                        g.finish(('v', list(res)))
            if n == 0:
                g.finish(('v', []))
            for f, k in zip(fs, keys):
                f.then(lambda x, k=k: one(x, k))
            return g

        def m_op(o):
            k = o[0]
            if k == 'set':
                S['ev'][o[1]] = True
                want_calls[o[1]].append(True)
                w, S['evw'][o[1]] = S['evw'][o[1]], []
                for f in w:
                    f.finish(('v', True))
            elif k == 'clear':
                S['ev'][o[1]] = False
                want_calls[o[1]].append(False)
            elif k == 'state':
                S['state'] = o[1]
                w, S['stw'][o[1]] = S['stw'][o[1]], []
                for f in w:
                    f.finish(('v', True))
            elif k == 'resolve':
                S['raw'][o[1]].finish(('e', o[1]) if o[2] == 'e' else ('v', None if o[2] == 'n' else 'raw%d' % o[1]))

        def r_op(o):
            k = o[0]
            if k == 'set':
                evs[o[1]].set()
            elif k == 'clear':
                evs[o[1]].clear()
            elif k == 'state':
                state.set_state(o[1])
            elif k == 'resolve':
                f = raws[o[1]]
                if not f.done():
                    if o[2] == 'e':
                        f.set_exception(Boom(o[1]))
                    else:
                        f.set_result(None if o[2] == 'n' else 'raw%d' % o[1])

        def watch(real, model, desc, then=None):
            box = {'n': 0}

            def done(f):
                box['n'] += 1
            real.add_done_callback(done)
            if then is not None:
                # done on the loop once the wait has ended, in real and model alike
                real.add_done_callback(lambda f: env.loop.add_callback(r_op, then))
                model.then(lambda f: after.append(then))
            pend.append((real, model, desc, box))
        after = []

        def run_after():
            while after:
                m_op(after.pop(0))

        def outcome(f):
            if not f.done():
                return None
            e = f.exception()
            if e is None:
                return ('v', f.result())
            if isinstance(e, Boom):
                return ('e', e.args[0])
            if isinstance(e, tornado.gen.TimeoutError):
                return ('timeout',)
            return ('other', repr(e))

        def norm(o):
            if o and o[0] == 'v' and isinstance(o[1], list):
                return ('v', [tuple(x) for x in o[1]])
            return o

        def verify(op):
            check(not env.loop.errors, 'loop-error', lambda: env.loop.errors[0][-1000:])
            for i in range(2):
                equal(evs[i].isSet(), S['ev'][i], 'event-state')
                equal(evs[i].is_set(), S['ev'][i], 'event-state')
                if case['cb']:
                    equal(calls[i], want_calls[i], 'event-callback')
            equal(state.state, S['state'], 'state')
            for real, model, desc, box in pend:
                got, want = outcome(real), model.out
                check(norm(got) == norm(want), 'not-woken' if got is None else 'woken-early' if want is None else 'wrong-outcome',
                      lambda: '%r after %r: got %r want %r' % (desc, op, got, want))
                equal(box['n'], 1 if want is not None else 0, 'resolved-times')

        def sync(op):
            env.settle()
            run_after()
            verify(op)

        for o in case['ops']:
            op = o[0]
            ctx.tag(op)
            n_wait = len([p for p in pend if p[1].out is None])
            if op == 'wait':
                s, tmo = o[1], o[2]
                if s[0] == 'ev':
                    real = evs[s[1]].until_set(timeout=tmo)
                    model = m_timeout(m_src(s), tmo)
                elif s[0] == 'st':
                    real = state.until_state(s[1], timeout=tmo)
                    model = m_timeout(m_src(s), tmo)
                else:
                    real, model = r_src(s), m_src(s)
                watch(real, model, o, o[3])
            elif op == 'any':
                srcs = o[1]
                real = core.until_any(*[r_src(s) for s in srcs], **({} if o[2] is None else {'timeout': o[2], 'ioloop': env.loop}))
                model = m_timeout(m_any([m_src(s) for s in srcs]), o[2])
                if n_wait and len(srcs) > 1:
                    hits.add('combi')
                watch(real, model, o, o[3])
            elif op == 'some':
                seen, srcs = set(), []
                for s in o[1]:      # distinct futures
                    if s[0] == 'later' or tuple(s) not in seen:
                        seen.add(tuple(s))
                        srcs.append(s)
                names = ['k%d' % i for i in range(len(srcs))]
                kw = {} if o[2] is None else {'done_at_least': o[2]}
                if o[3] is not None:
                    kw['timeout'] = o[3]
                if o[4]:
                    real = core.until_some(**dict(dict(zip(names, [r_src(s) for s in srcs])), **kw))
                else:
                    real = core.until_some(*[r_src(s) for s in srcs], **kw)
                model = m_timeout(m_some([m_src(s) for s in srcs], names if o[4] else list(range(len(srcs))), o[2]), o[3])
                if n_wait:
                    hits.add('combi')
                watch(real, model, o)
            elif op == 'state_in':
                real = state.until_state_in(*o[1], **({} if o[2] is None else {'timeout': o[2]}))
                model = m_timeout(m_any([m_src(('st', s)) for s in o[1]]), o[2])
                if n_wait and len(o[1]) > 1:
                    hits.add('combi')
                watch(real, model, o, o[3])
            elif op == 'mgr':
                srcs, tmo = o[1], o[2]
                rs = [r_src(s) for s in srcs]
                ms = [m_src(s) for s in srcs]

                @tornado.gen.coroutine
                def go(tmo=tmo, rs=rs):
                    m = core.future_timeout_manager(tmo, env.loop)
                    r = []
                    for f in rs:
                        r.append((yield m(f)))
                        if tmo is None:
                            check(m.remaining() is None, 'remaining')
                    raise tornado.gen.Return(r[-1])
                g = F()

                def step(i, g=g, ms=ms):
                    def fin(x):
                        if g.out is None:
                            if x.out[0] == 'e' or i == len(ms) - 1:
                                g.finish(x.out)
                            else:
                                step(i + 1, g, ms)
                    ms[i].then(fin)
                step(0)
                model = g if tmo is None else m_timeout(g, tmo)
                watch(go(), model, o)
            elif op == 'bad':
                for f in (lambda: state.set_state('z'), lambda: state.until_state('z'), lambda: state.until_state_in('a', 'z'),
                          lambda: state.until_state_in('z', timeout=1)):
                    try:
                        f()
                    except ValueError:
                        continue
                    check(False, 'bad-state-accepted')
            elif op == 'fresh':
                if S['raw'][o[1]].out is not None:
                    raws[o[1]] = Future()
                    S['raw'][o[1]] = F()
            elif op == 'advance':
                end = env.now + o[1]
                while True:
                    due = sorted(t for t in timers if t[0] <= end)
                    if not due:
                        break
                    t = due[0][0]
                    env.advance(t - env.now)
                    for d in due:
                        if d[0] == t:
                            timers.remove(d)
                            d[2]()
                    sync(o)
                env.advance(end - env.now)
            else:
                m_op(o)
                r_op(o)
            sync(o)
        for p in pend:
            if p[1].out and p[1].out[0] in ('timeout', 'e'):
                hits.add('bad-end')
        if {'combi', 'bad-end'} <= hits:
            ctx.nt()
        # a waiter that undoes the event, or leaves the state, as soon as it is woken and waits again is woken next time, not before
        for is_ev, rounds, extra in case.get('again', ()):
            ev = core.AsyncEvent(ioloop=env.loop) if is_ev else core.AsyncState(STATES, initial_state='b', ioloop=env.loop)
            wait = ev.until_set if is_ev else lambda ev=ev: ev.until_state('a')
            waits, others = [], []

            def woken(f, ev=ev, is_ev=is_ev, wait=wait, waits=waits):
                if is_ev:
                    ev.clear()
                else:
                    ev.set_state('b')
                g = wait()
                waits.append(g)
                g.add_done_callback(woken)
            waits.append(wait())
            waits[0].add_done_callback(woken)
            for i in range(rounds):
                others = [wait() for _ in range(extra)]
                if is_ev:
                    ev.set()
                else:
                    ev.set_state('a')
                env.settle()
                equal([w.done() for w in waits], [True] * (i + 1) + [False], 'wait-again')
                check(all(o.done() for o in others), 'not-woken', 'others')
        # a combination which has ended leaves nothing behind on the futures which are still pending
        for kinds, early, with_timeout in case.get('left', ()):
            fs = [Future() for _ in kinds]

            def fire():
                for f, k in zip(fs, kinds):
                    if k == 'v':
                        f.set_result(1)
                    elif k in 'de':
                        f.set_exception(Boom(1))
            if early:
                fire()
            before = [len(f._callbacks or ()) for f in fs]
            r = core.until_any(*fs, **({'timeout': 1, 'ioloop': env.loop} if with_timeout else {}))
            if not early:
                fire()
            env.settle()
            check(r.done() == any(k != 'p' for k in kinds), 'until-any-done', lambda: '%r' % (kinds,))
            if r.done():
                r.exception()
                equal([len(f._callbacks or ()) for f, k in zip(fs, kinds) if k == 'p'], [n for n, k in zip(before, kinds) if k == 'p'],
                      'left-behind', lambda: '%r' % (kinds,))
        # a latency timer asks for a yield when futures have been ready for longer than allowed without a break
        t = core.LatencyTimer(0.125, ioloop=env.loop)
        since, prev = env.now, False
        for done, dt in case['lat']:
            f = Future()
            if done:
                f.set_result(1)
            env.advance(dt)
            t.check_future(f)
            if done and not prev:
                since = env.now
            prev = done
            equal(t.time_to_yield(), done and env.now - since > 0.125, 'latency-timer')
