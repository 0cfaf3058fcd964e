"""U02: the I/O loop manager and thread wrapper run and stop cleanly (real threads, real time)."""
ID = 'U02'
CASES = {'quick': 700, 'thorough': 30000}
HISTORY = ('ops', 'calls')
CASE_TIMEOUT = 60
REPLAY_TRIES = 3
RULE = ('a manager case counts when the loop was started twice or a start, stop or join came at a moment at which it has nothing '
        'to do (or several came at once); a calls case counts when calls of several threads were under way at once and one of them '
        'raised, timed out or came from the loop itself')

HANG = 10.0       # seconds after which a call that should return at once counts as hanging


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    cb = st.sampled_from(['none', 'plain', 'raise', 'coro', 'cororaise', 'more'])
    tmo = st.sampled_from([None, None, HANG])
    op = gens.weighted(
        (3, st.just(('get',))), (1, st.just(('set',))), (5, st.tuples(st.just('start'), tmo)),
        (4, st.tuples(st.just('stop'), cb, tmo)), (2, st.just(('ping',))),
        (2, st.tuples(st.just('join'), st.sampled_from([0.001, 0.02]))),
        (1, st.tuples(st.just('daemon'), st.booleans())),
        (2, st.tuples(st.just('pstart'), st.integers(2, 4))),
        (2, st.tuples(st.just('pstop'), st.integers(2, 4), cb)),
        (1, st.just(('closing',))), (2, st.just(('dstart',))),
        (4, st.tuples(st.just('cycle'), tmo, cb)))
    mgr = st.fixed_dictionaries({'k': st.just('mgr'), 'ops': gens.oplist(op, 2, 12)})
    uop = gens.weighted(
        (3, st.tuples(st.just('start'), tmo)), (4, st.tuples(st.just('stop'), cb, tmo)), (2, st.just(('ping',))),
        (2, st.tuples(st.just('join'), st.sampled_from([None, 0.01]))), (1, st.just(('set',))), (1, st.just(('get',))),
        (1, st.tuples(st.just('pstart'), st.integers(2, 4))), (1, st.tuples(st.just('pstop'), st.integers(2, 4), cb)))
    unm = st.fixed_dictionaries({'k': st.just('unm'), 'how': st.sampled_from(['default', 'set']), 'ops': gens.oplist(uop, 2, 10)})
    what = gens.weighted((4, st.just('ret')), (3, st.just('coro')), (3, st.just('raise')), (3, st.just('cororaise')),
                         (2, st.just('never')), (1, st.just('retnone')), (2, st.just('reenter')), (1, st.just('toraise')),
                         (1, st.just('badargs')), (2, st.just('attr')), (2, st.just('method')), (1, st.just('cometh')),
                         (1, st.just('missing')), (1, st.just('prop')), (2, st.just('event')))
    call = st.fixed_dictionaries({
        'th': st.integers(0, 3), 'what': what, 'via': st.sampled_from(['call', 'deco']),
        'v': st.integers(-3, 300), 'd': st.sampled_from([0, 0, 0.001, 0.004]),
        'tmo': st.sampled_from([None, HANG]), 'short': st.sampled_from([0.02, 0.05])})
    wrap = st.fixed_dictionaries({'k': st.just('wrap'), 'default': st.booleans(), 'calls': gens.oplist(call, 2, 16)})
    return gens.weighted((4, mgr), (2, unm), (5, wrap))


class Boom(Exception):
    pass


def guarded(fn):
    """Run fn in a thread; (finished, result, exception)."""
    import threading
    box = {}

    def target():
        try:
            box['r'] = fn()
        except BaseException as e:      # noqa: the kind is what is checked
            box['e'] = e
    t = threading.Thread(target=target)
    t.daemon = True
    t.start()
    t.join(HANG * 2)
    return (not t.is_alive(), box.get('r'), box.get('e'))


def together(k, fn):
    import threading
    bar = threading.Barrier(k)
    out = [None] * k

    def target(i):
        bar.wait()
        try:
            out[i] = ('r', fn(i))
        except BaseException as e:      # noqa
            out[i] = ('e', e)
    ts = [threading.Thread(target=target, args=(i,)) for i in range(k)]
    for t in ts:
        t.daemon = True
        t.start()
    for t in ts:
        t.join(HANG * 2)
    return out


class Loops(object):
    """An IOLoopManager under test and what should be true of it."""

    def __init__(self, ctx):
        import threading
        from katcp.ioloop_manager import IOLoopManager
        self.th = threading
        self.ctx = ctx
        self.base = set(threading.enumerate())
        self.m = IOLoopManager()
        self.state = 'none'          # none | have | pend | running
        self.started = False
        self.loop = None
        self.thread = None
        self.daemon = False
        self.starts = 0
        self.odd = 0
        self.pending = []

    def fresh(self):
        return [t for t in self.th.enumerate() if t not in self.base]

    def ping(self, what):
        from kv.core import check, equal
        ev = self.th.Event()
        box = []

        def cb():
            box.append(self.th.current_thread())
            ev.set()
        self.loop.add_callback(cb)
        check(ev.wait(HANG), 'loop-not-running', '%s: the started loop does not run callbacks' % what)
        if self.thread is None:
            self.thread = box[0]
            check(self.thread not in self.base, 'loop-thread', what)
            equal(self.thread.daemon, self.daemon, 'daemon-flag', what)
        check(box[0] is self.thread, 'loop-thread-changed', what)
        equal(len(self.fresh()), 1, 'loop-threads', '%s: threads running: %r' % (what, self.fresh()))

    def get(self):
        from kv.core import check
        loop = self.m.get_ioloop()
        if self.loop is not None:
            check(loop is self.loop, 'get-ioloop-changed', 'get_ioloop() gave another loop while one was set')
        else:
            self.loop, self.state = loop, 'have'

    def started_now(self, what):
        self.started = True
        self.starts += 1
        self.thread = None
        if self.state == 'pend':
            return self.ended(what)
        self.state = 'running'
        self.ping(what)

    def start(self, tmo):
        from kv.core import check, equal
        if self.state == 'pend':
            tmo = None
        fin, r, e = guarded(lambda: self.m.start(tmo) if tmo else self.m.start())
        check(fin, 'start-hangs')
        if self.state in ('none', 'running'):
            self.odd += 1
            check(isinstance(e, RuntimeError), 'start-not-refused', 'start() in state %s gave %r / %r' % (self.state, r, e))
            if self.state == 'running':
                self.ping('after a refused start')
            return
        check(e is None, 'start-raised', repr(e))
        if tmo:
            equal(bool(r), True, 'start-timeout-result', 'start(timeout) on a loop that came up')
        self.started_now('start')

    def callback(self, kind):
        """A stop callback and the record of what became of it."""
        from tornado import gen
        rec = {'n': 0, 'thread': None, 'done': 0, 'more': 0, 'kind': kind}

        def plain():
            rec['n'] += 1
            rec['thread'] = self.th.current_thread()
            rec['done'] += 1
            if kind == 'raise':
                raise Boom('stop callback')
            if kind == 'more':
                self.loop_at_stop.add_callback(more)

        def more():
            rec['more'] += 1

        @gen.coroutine
        def coro():
            rec['n'] += 1
            rec['thread'] = self.th.current_thread()
            yield gen.sleep(0.003)
            rec['done'] += 1
            if kind == 'cororaise':
                raise Boom('stop callback')
        self.loop_at_stop = self.loop
        return {'none': None, 'coro': coro, 'cororaise': coro}.get(kind, plain), rec

    def called(self, rec, what):
        from kv.core import check, equal
        if rec['kind'] == 'none':
            return
        equal((rec['n'], rec['done']), (1, 1), 'stop-callback', '%s: calls begun and finished of a %s stop callback' % (what, rec['kind']))
        check(rec['thread'] is self.thread or self.thread is None, 'stop-callback-thread', what)
        if rec['kind'] == 'more':
            equal(rec['more'], 1, 'stop-callback-followup', 'callbacks scheduled by the stop callback that ran')

    def stop(self, kind, tmo, joiner=True):
        from kv.core import check
        cb, rec = self.callback(kind)
        if self.state != 'running':
            tmo = 0.01 if tmo else None
            self.odd += 1
        fin, fut, e = guarded(lambda: self.m.stop(tmo, cb))
        check(fin, 'stop-hangs')
        check(e is None, 'stop-raised', 'stop() in state %s: %r' % (self.state, e))
        check(hasattr(fut, 'result'), 'stop-future', repr(fut))
        if self.state == 'running':
            self.resolved(fut, rec)
            self.ended('stop')
        elif self.state == 'have':
            self.state = 'pend'
            self.pending = [(fut, rec)]
        elif self.state == 'pend':
            self.pending = []      # whichever stop comes first ends the loop: the others may not finish

    def resolved(self, fut, rec):
        from kv.core import check
        try:
            fut.result(HANG)
        except Exception as e:
            check(False, 'stop-future-unresolved', 'the future of stop() gave %r (callback: %s)' % (e, rec))
        self.called(rec, 'stop')

    def ended(self, what):
        from kv.core import check, equal
        fin, _, e = guarded(lambda: self.m.join(HANG))
        check(fin and e is None, 'join-after-stop', repr(e))
        check(not self.fresh(), 'loop-survives-stop', '%s: still running after stop and join: %r' % (what, self.fresh()))
        for fut, rec in self.pending[:1]:
            self.called(rec, 'stop before start')
        self.pending = []
        self.state, self.loop, self.thread = 'none', None, None

    def run(self, op):
        from kv.core import check, equal
        k = op[0]
        if k == 'get':
            self.get()
        elif k == 'set':
            from tornado.platform.asyncio import AsyncIOLoop
            loop = AsyncIOLoop()
            try:
                self.m.set_ioloop(loop)
                err = None
            except RuntimeError as e:
                err = e
            if self.state == 'none':
                check(err is None, 'set-refused', repr(err))
                self.loop, self.state = loop, 'have'
            else:
                loop.close()
                check(err is not None, 'set-not-refused', 'set_ioloop() replaced a loop that was set')
                self.odd += 1
                check(self.m.get_ioloop() is self.loop, 'set-changed-loop')
        elif k == 'start':
            self.start(op[1])
        elif k == 'stop':
            self.stop(op[1], op[2])
        elif k == 'cycle':
            self.get()
            if self.state != 'running':
                self.start(op[1])
            if self.state == 'running':
                self.stop(op[2], op[1])
        elif k == 'ping':
            if self.state == 'running':
                self.ping('ping')
            else:
                equal(len(self.fresh()), 0, 'loop-threads', 'threads running although not started')
        elif k == 'join':
            fin, _, e = guarded(lambda: self.m.join(op[1]))
            check(fin, 'join-hangs')
            if not self.started:
                self.odd += 1
                check(isinstance(e, RuntimeError), 'join-not-refused', repr(e))
            else:
                check(e is None, 'join-raised', repr(e))
                if self.state == 'running':
                    self.ping('after join(timeout)')
        elif k == 'daemon':
            self.m.setDaemon(op[1])
            self.daemon = op[1]
        elif k == 'pstart':
            self.odd += 1
            out = together(op[1], lambda i: self.m.start())
            good = [o for o in out if o and o[0] == 'r']
            bad = [o for o in out if not o or (o[0] == 'e' and not isinstance(o[1], RuntimeError))]
            check(not bad, 'pstart-raised', repr(out))
            if self.state == 'have':
                equal(len(good), 1, 'pstart-once', 'start() calls at once that succeeded: %r' % (out,))
                self.started_now('pstart')
            elif self.state == 'pend':
                check(len(good) >= 1, 'pstart-once', repr(out))
                self.started_now('pstart')
            else:
                equal(len(good), 0, 'start-not-refused', 'state %s: %r' % (self.state, out))
                if self.state == 'running':
                    self.ping('after refused starts')
        elif k == 'dstart':
            # a second start while the loop of the first is only coming up
            if self.state != 'have':
                return
            self.odd += 1
            gate = self.th.Event()
            self.loop.add_callback(gate.wait, HANG)
            fin, _, e = guarded(self.m.start)
            check(fin and e is None, 'start-raised', repr(e))
            fin, _, e = guarded(self.m.start)
            gate.set()
            check(fin and isinstance(e, RuntimeError), 'start-not-refused', 'start() while the loop is coming up: %r' % (e,))
            self.started_now('dstart')
        elif k == 'pstop':
            self.odd += 1
            was = self.state
            cbs = [self.callback(op[2]) for _ in range(op[1])]
            out = together(op[1], lambda i: self.m.stop(None, cbs[i][0]))
            check(all(o and o[0] == 'r' for o in out), 'stop-raised', 'stop() from several threads at once: %r' % (out,))
            if was == 'running':
                # whichever came first did everything; none is called twice
                self.ended('pstop')
                check(all(rec['n'] <= 1 for _, rec in cbs), 'stop-callback', repr(cbs))
                if op[2] != 'none':
                    check(any(rec['n'] for _, rec in cbs), 'stop-callback', 'no callback of %d stops was called' % op[1])
            elif was in ('have', 'pend'):
                self.state, self.pending = 'pend', []
        elif k == 'closing':
            # a second stop while the loop of the first is being closed
            if self.state != 'running':
                return
            self.odd += 1
            slow, ready = self.th.Event(), self.th.Event()

            class Handle(object):
                def __init__(self):
                    import os
                    self.r, self.w = os.pipe()

                def fileno(self):
                    return self.r

                def close(self):
                    import os
                    ready.set()
                    slow.wait(HANG)
                    os.close(self.r)
                    os.close(self.w)
            h = Handle()
            add = self.th.Event()
            self.loop.add_callback(lambda: (self.loop.add_handler(h, lambda fd, ev: None, self.loop.READ), add.set()))
            check(add.wait(HANG), 'loop-not-running')
            fut = self.m.stop()
            closing = ready.wait(HANG)
            fin, _, e = guarded(lambda: self.m.stop())
            slow.set()
            check(closing, 'loop-not-closed', 'stop() does not close the file descriptors of the loop')
            check(fin, 'stop-hangs')
            check(e is None, 'stop-raised', 'stop() while the loop is closing: %r' % (e,))
            del fut
            self.ended('closing')

    def finish(self):
        if self.state == 'running':
            self.stop('none', None)
        elif self.state == 'pend':
            self.start(None)
        elif self.loop is not None:
            self.loop.close()


class LoopThread(object):
    """A loop the harness runs in a thread of its own."""

    def __init__(self):
        import threading
        from tornado.platform.asyncio import AsyncIOLoop
        self.loop = AsyncIOLoop()
        self.up = threading.Event()
        self.t = threading.Thread(target=self.go)
        self.t.daemon = True
        self.loop.add_callback(self.up.set)
        self.t.start()
        self.up.wait(HANG)

    def go(self):
        self.loop.make_current()
        self.loop.start()
        self.loop.close(all_fds=True)

    def ping(self):
        import threading
        ev = threading.Event()
        try:
            self.loop.add_callback(ev.set)
        except RuntimeError:
            return False
        return ev.wait(HANG)

    def end(self):
        try:
            self.loop.add_callback(self.loop.stop)
        except RuntimeError:
            pass
        self.t.join(HANG)


def unmanaged(case, ctx):
    from kv.core import check, equal
    import threading
    from katcp.ioloop_manager import IOLoopManager
    lt = LoopThread()
    odd = 0
    try:
        if case['how'] == 'default':
            m = IOLoopManager(managed_default=False)
            m.set_ioloop(lt.loop)
        else:
            m = IOLoopManager()
            m.set_ioloop(lt.loop, managed=False)
        equal(m.managed, False, 'managed-flag')
        base = set(threading.enumerate())
        helper = Loops.__new__(Loops)
        helper.th, helper.thread, helper.loop = threading, lt.t, lt.loop
        for op in case['ops']:
            k = op[0]
            if k == 'start':
                fin, r, e = guarded(lambda: m.start(op[1]) if op[1] else m.start())
                check(fin and e is None, 'start-raised', repr(e))
                if op[1]:
                    equal(bool(r), True, 'start-timeout-result')
                ctx.tag('ustart')
                odd += 1
            elif k == 'stop':
                cb, rec = helper.callback(op[1])
                fin, fut, e = guarded(lambda: m.stop(0.01 if op[2] else None, cb))
                check(fin and e is None, 'stop-raised', repr(e))
                helper.resolved(fut, rec) if rec['kind'] != 'more' else fut.result(HANG)
                if rec['kind'] == 'more':
                    check(lt.ping(), 'unmanaged-loop-stopped')
                    helper.called(rec, 'stop')
                odd += 1
                ctx.tag('ustop')
            elif k == 'join':
                fin, _, e = guarded(lambda: m.join(op[1]) if op[1] else m.join())
                check(fin, 'join-hangs', 'join() of an unmanaged loop must do nothing')
                check(e is None, 'join-raised', repr(e))
            elif k == 'set':
                try:
                    m.set_ioloop(lt.loop)
                    check(False, 'set-not-refused')
                except RuntimeError:
                    pass
            elif k == 'get':
                check(m.get_ioloop() is lt.loop, 'get-ioloop-changed')
            elif k == 'pstart':
                out = together(op[1], lambda i: m.start())
                check(all(o and o[0] == 'r' for o in out), 'start-raised', repr(out))
                odd += 1
            elif k == 'pstop':
                cbs = [helper.callback(op[2]) for _ in range(op[1])]
                out = together(op[1], lambda i: m.stop(None, cbs[i][0]))
                check(all(o and o[0] == 'r' for o in out), 'stop-raised', repr(out))
                for i, o in enumerate(out):
                    try:
                        o[1].result(HANG)
                    except Exception as e:
                        check(False, 'stop-future-unresolved', repr(e))
                if op[2] == 'more':
                    lt.ping()
                for _, rec in cbs:
                    helper.called(rec, 'pstop')
                odd += 1
            check(lt.t.is_alive() and lt.ping(), 'unmanaged-loop-stopped', 'the loop does not run any more after %r' % (op,))
            extra = [t for t in threading.enumerate() if t not in base]
            check(not extra, 'unmanaged-loop-started', 'threads after %r: %r' % (op, extra))
        ctx.nt(odd >= 2)
    finally:
        lt.end()


def calls(case, ctx):
    from kv.core import check, equal
    import threading
    import time
    from concurrent.futures import TimeoutError
    from tornado import gen
    from tornado.concurrent import Future as TFuture
    from katcp.core import AsyncEvent
    from katcp.ioloop_manager import IOLoopThreadWrapper, ThreadSafeMethodAttrWrapper
    lt = LoopThread()
    try:
        w = IOLoopThreadWrapper(lt.loop)
        if case['default']:
            w.default_timeout = HANG * 3
        check(lt.ping(), 'loop-not-running')
        seen = []           # (uid, thread) of every execution

        class Subject(object):
            plain = 'a value'

            def meth(self, uid, v, k=None):
                """meth doc"""
                seen.append((uid, threading.current_thread()))
                return ('meth', uid, v, k)

            @gen.coroutine
            def cometh(self, uid, v, k=None):
                seen.append((uid, threading.current_thread()))
                yield gen.sleep(0.001)
                raise gen.Return(('cometh', uid, v, k))

            @property
            def prop(self):
                return ('prop', threading.current_thread() is lt.t)

        class Wrapped(ThreadSafeMethodAttrWrapper):
            @property
            def prop(self):
                return self._getattr('prop')
        subj = Subject()
        obj = Wrapped(subj, w)

        def one(uid, c):
            """Outcome of one call, as (kind, value)."""
            what, v, d = c['what'], c['v'], c['d']

            def note():
                seen.append((uid, threading.current_thread()))

            def ret(a, k=None):
                note()
                return (uid, a, k)

            @gen.coroutine
            def coro(a, k=None):
                note()
                if d:
                    yield gen.sleep(d)
                else:
                    yield gen.moment
                raise gen.Return((uid, a, k))

            def raises(a, k=None):
                note()
                raise Boom(uid, a, k)

            def toraise(a, k=None):
                note()
                raise TimeoutError('mine %s' % uid)

            @gen.coroutine
            def cororaise(a, k=None):
                note()
                if d:
                    yield gen.sleep(d)
                raise Boom(uid, a, k)

            def never(a, k=None):
                note()
                return TFuture()

            def retnone(a, k=None):
                note()

            def badargs():
                note()

            def reenter(a, k=None):
                note()
                try:
                    return ('got', w.call_in_ioloop(lambda: 1, (), {}, 1))
                except RuntimeError:
                    return 'refused'
            fn = {'ret': ret, 'coro': coro, 'raise': raises, 'cororaise': cororaise, 'never': never, 'retnone': retnone,
                  'badargs': badargs, 'reenter': reenter, 'toraise': toraise}.get(what)
            tmo = c['short'] if what == 'never' else c['tmo']
            if what == 'attr':
                return ('r', obj.plain)
            if what == 'missing':
                return ('r', getattr(obj, 'nonesuch', 'absent'))
            if what == 'prop':
                return ('r', obj.prop)
            if what == 'method':
                return ('r', obj.meth(uid, v, k=d))
            if what == 'cometh':
                return ('r', obj.cometh(uid, v, k=d))
            if what == 'event':
                # a blocking wait for an event set in the loop, or that never is
                note2 = AsyncEvent()
                if v % 3 == 0:
                    got = note2.wait_with_ioloop(lt.loop, c['short'])
                else:
                    lt.loop.add_callback(lambda: lt.loop.call_later(d, note2.set))
                    got = note2.wait_with_ioloop(lt.loop, c['tmo'])
                return ('r', got)
            if c['via'] == 'deco' and what == 'ret' and tmo is not None:
                def ret2(a, k=None, timeout='absent'):
                    return ret(a, k) if timeout == tmo else ('timeout given to the callable', timeout)
                return ('r', w.decorate_callable(ret2)(v, k=d, timeout=tmo))
            if c['via'] == 'deco' and what not in ('never',):
                return ('r', w.decorate_callable(fn)(v, k=d))
            if c['via'] == 'deco':
                # the timeout keyword of a decorated callable bounds the wait, and is passed on
                def never2(a, k=None, timeout=None):
                    note()
                    return TFuture() if timeout == tmo else ('timeout given to the callable', timeout)
                return ('r', w.decorate_callable(never2)(v, k=d, timeout=tmo))
            return ('r', w.call_in_ioloop(fn, (v,), {'k': d}, tmo))

        res = {}
        ths = sorted(set(c['th'] for c in case['calls']))
        bar = threading.Barrier(len(ths))

        def thread(th):
            bar.wait()
            for i, c in enumerate(case['calls']):
                if c['th'] != th:
                    continue
                t0 = time.time()
                try:
                    r = one(i, c)
                except BaseException as e:     # noqa
                    r = ('e', e)
                res[i] = r + (time.time() - t0,)
        ts = [threading.Thread(target=thread, args=(th,)) for th in ths]
        for t in ts:
            t.daemon = True
            t.start()
        end = time.time() + HANG * 3
        for t in ts:
            t.join(max(0.01, end - time.time()))
        for i, c in enumerate(case['calls']):
            what, v, d = c['what'], c['v'], c['d']
            r = res.get(i)
            where = 'call %d (%r) of thread %d' % (i, what, c['th'])
            check(r is not None, 'call-hangs', '%s never returned' % where)
            ctx.tag(what)
            runs = [t for uid, t in seen if uid == i]
            if what in ('ret', 'coro', 'retnone', 'reenter'):
                want = {'retnone': None, 'reenter': 'refused'}.get(what, (i, v, d))
                equal(r[:2], ('r', want), 'call-result', where)
            elif what in ('raise', 'cororaise'):
                check(r[0] == 'e' and type(r[1]) is Boom and r[1].args == (i, v, d), 'call-exception', '%s gave %r' % (where, r))
            elif what == 'toraise':
                check(r[0] == 'e' and isinstance(r[1], TimeoutError) and r[1].args == ('mine %s' % i,), 'call-exception', '%s gave %r' % (where, r))
            elif what == 'badargs':
                check(r[0] == 'e' and isinstance(r[1], TypeError), 'call-exception', '%s gave %r' % (where, r))
                equal(len(runs), 0, 'call-runs', where)
                continue
            elif what == 'never':
                check(r[0] == 'e' and isinstance(r[1], TimeoutError), 'call-timeout', '%s gave %r' % (where, r))
                check(r[2] < c['short'] + HANG, 'call-timeout-late', '%s took %s s' % (where, r[2]))
                # (a call that is not over may still be queued if the machine is very slow)
                continue
            elif what == 'event':
                equal(r[:2], ('r', v % 3 != 0), 'wait-result', where)
                continue
            elif what in ('method', 'cometh'):
                equal(r[:2], ('r', (('meth' if what == 'method' else 'cometh'), i, v, d)), 'call-result', where)
            elif what == 'attr':
                equal(r[:2], ('r', 'a value'), 'wrapped-attribute', where)
                continue
            elif what == 'prop':
                equal(r[:2], ('r', ('prop', True)), 'wrapped-property', '%s (value, read in the loop thread)' % where)
                continue
            elif what == 'missing':
                equal(r[:2], ('r', 'absent'), 'wrapped-attribute', where)
                continue
            equal(len(runs), 1, 'call-runs', '%s: times the function ran' % where)
            check(runs[0] is lt.t, 'call-thread', '%s ran outside the thread of the loop' % where)
        check('meth doc' in (obj.meth.__doc__ or '') and obj.meth.__name__ == 'meth', 'wrapped-doc')
        check(lt.ping(), 'loop-not-running', 'after the calls')
        ctx.nt(len(ths) > 1 and any(c['what'] in ('raise', 'cororaise', 'never', 'reenter', 'toraise', 'badargs') for c in case['calls']))
    finally:
        lt.end()


def run(case, ctx):
    ctx.tag(case['k'])
    if case['k'] == 'unm':
        return unmanaged(case, ctx)
    if case['k'] == 'wrap':
        return calls(case, ctx)
    loops = Loops(ctx)
    for op in case['ops']:
        ctx.tag(op[0])
        loops.run(op)
    loops.finish()
    ctx.nt(loops.odd >= 1 and loops.starts >= 1 or loops.starts >= 2)
