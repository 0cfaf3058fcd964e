"""A03: blocking and thread-safe client calls are safe from any thread (real threads, real time)."""
ID = 'A03'
CASES = {'quick': 800, 'thorough': 40000}
HISTORY = ('threads',)
CASE_TIMEOUT = 120
REPLAY_TRIES = 12
RULE = ('a case counts when calls of two or more threads were in flight at once and the server answered some out of order, late, '
        'never, or dropped the connection (or, for a wrapped resource, when two or more threads used it at once)')

HANG = 12.0


def cases(tier):
    from hypothesis import strategies as st
    from kv import gens
    how = gens.weighted((7, st.just('ok')), (3, st.just('fail')), (2, st.just('never')), (1, st.just('drop')), (2, st.just('twice')), (1, st.just('late')), (1, st.just('many')))
    call = st.fixed_dictionaries({
        'op': gens.weighted((6, st.just('block')), (3, st.just('cb')), (1, st.just('check')), (1, st.just('future')), (1, st.just('wait')), (1, st.just('send')), (1, st.just('isc')), (1, st.just('nap'))),
        'how': how, 'd': st.sampled_from([0, 0, 1, 3, 8]), 'inf': st.integers(0, 3), 'name': st.integers(0, 1),
        'pay': gens.weighted((6, st.sampled_from([0, 3, 50])), (1, st.just(30000)), (1, st.just(200000))),
        'tmo': gens.weighted((3, st.just(None)), (1, st.just(HANG)))})
    raw = st.fixed_dictionaries({
        'k': st.just('raw'), 'cls': st.sampled_from(['blocking', 'callback', 'async', 'inspect']), 'loop': st.sampled_from(['own', 'own', 'given']),
        'mids': gens.weighted((4, st.just(True)), (1, st.just(False))),
        'threads': st.lists(st.lists(call, min_size=1, max_size=6), min_size=1, max_size=4),
        'end': gens.weighted((3, st.just('calm')), (1, st.just('midway'))), 'again': st.booleans(), 'gone': st.booleans(), 'nraise': st.booleans(),
        'greet': gens.weighted((3, st.just(0)), (1, st.just(3))),
        'fuzz': gens.weighted((1, st.just(0)), (2, st.sampled_from([0.02, 0.1, 0.3]))), 'seed': st.integers(0, 10 ** 6)})
    rop = st.tuples(gens.weighted((4, st.just('echo')), (2, st.just('fail')), (2, st.just('coro')), (2, st.just('value')), (2, st.just('strategy')), (1, st.just('sampling')),
                                  (1, st.just('names')), (1, st.just('attrs')), (1, st.just('listen')), (1, st.just('child')), (1, st.just('timeout')), (1, st.just('dict')),
                                  (1, st.just('group')), (1, st.just('set')), (1, st.just('list')), (1, st.just('missing')), (2, st.just('grow')), (2, st.just('iter'))),
                    st.integers(0, 5))
    res = st.fixed_dictionaries({'k': st.just('res'), 'threads': st.lists(st.lists(rop, min_size=1, max_size=6), min_size=1, max_size=4),
                                 'cont': st.booleans(), 'mode': st.sampled_from(['own-ht', 'own-ts']),
                                 'fuzz': gens.weighted((2, st.just(0)), (1, st.just(0.03))), 'seed': st.integers(0, 10 ** 6)})
    return gens.weighted((3, raw), (1, res))


class Scripted(object):
    """A server in threads of its own that does with each request what the request says."""

    def __init__(self, mids, greet):
        import socket
        import threading
        self.th = threading
        self.mids, self.greet = mids, greet
        self.ls = socket.socket()
        self.ls.bind(('127.0.0.1', 0))
        self.ls.listen(50)
        self.port = self.ls.getsockname()[1]
        self.seen = {}            # uid -> times received
        self.bad = []             # lines that are no request of ours
        self.socks = []
        self.conns = 0
        self.over = False
        self.t = threading.Thread(target=self.accept)
        self.t.daemon = self.t.kv_client = True
        self.t.start()

    def accept(self):
        while not self.over:
            try:
                s, _ = self.ls.accept()
            except OSError:
                return
            self.conns += 1
            self.socks.append(s)
            t = self.th.Thread(target=self.guard, args=(s,))
            t.daemon = t.kv_client = True
            t.start()

    def guard(self, s):
        try:
            self.serve(s)
        except OSError:
            pass
        finally:
            try:
                s.close()
            except OSError:
                pass

    def serve(self, s):
        import heapq
        import select
        import time
        from kv.harness import fmt
        import re
        head = re.compile(rb'([?!#])([a-z0-9-]+)(?:\[([0-9]+)\])?((?: [^ \t\\]+| \\@)*)\Z')

        def parse(ln):
            # all arguments used here are plain words, or empty
            g = head.match(ln)
            return g and (b'?!#'.index(g.group(1)), g.group(2).decode(), g.group(3), [x.replace(b'\\@', b'') for x in g.group(4).split(b' ')[1:]])
        flags = b'5.0-MI' if self.mids else b'5.0-M'
        if self.greet:
            time.sleep(0.001 * self.greet)
        s.sendall(b'#version-connect katcp-protocol ' + flags + b'\n#version-connect katcp-library l-1 l-1.0\n#version-connect katcp-device d-1 b-1\n')
        buf = b''
        due, n = [], 0
        while True:
            now = time.time()
            while due and due[0][0] <= now:
                data = heapq.heappop(due)[2]
                if data is None:
                    return
                s.sendall(data)
            r, _, _ = select.select([s], [], [], max(0, due[0][0] - now) if due else 5)
            if not r:
                continue
            d = s.recv(1 << 20)
            if not d:
                return
            buf += d
            *lines, buf = buf.split(b'\n')
            for ln in lines:
                m = parse(ln)
                if m is None or m[0] != 0 or len(m[3]) < 5 or (m[2] is not None) != self.mids:
                    if m is not None and len(m[3]) == 1 and (m[0] == 2 and m[1] == 'note' or m[0] == 0 and m[1] == 'plain'):
                        self.seen[m[3][0]] = self.seen.get(m[3][0], 0) + 1
                        continue
                    self.bad.append(ln[:200])
                    continue
                _, name, mid, a = m
                uid, how, delay, ninf, pay = a[0], a[1], int(a[2]), int(a[3]), a[4]
                if pay != payload(uid, len(pay)):
                    self.bad.append(ln[:200])
                    continue
                self.seen[uid] = self.seen.get(uid, 0) + 1
                mid = None if mid is None else mid.decode()
                out = b''
                for i in range(ninf):
                    out += fmt('#', name, mid, (uid, i)) + b'\n'
                    if how == 'many' and i == 0:
                        out += fmt('#', 'unasked', None, (uid,)) + b'\n'
                if how in (b'ok', b'many', b'late', b'twice'):
                    out += fmt('!', name, mid, ('ok', uid, pay[:300])) + b'\n'
                    if how == b'twice':
                        out += fmt('#', name, mid, (uid, 99)) + b'\n' + fmt('!', name, mid, ('ok', uid, 'again')) + b'\n'
                elif how == b'fail':
                    out += fmt('!', name, mid, ('fail', uid)) + b'\n'
                elif how == b'never':
                    pass
                at = time.time() + 0.001 * delay
                if not self.mids:
                    # no message ids: answers come in the order of the requests
                    at = max([at] + [x[0] for x in due])
                n += 1
                heapq.heappush(due, (at, n, None if how == b'drop' else out))

    def close(self):
        self.over = True
        import socket
        for s in [self.ls] + self.socks:
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            try:
                s.close()
            except OSError:
                pass


def payload(uid, n):
    return ((uid + b'-' + bytes(range(97, 123))) * (n // (len(uid) + 27) + 1))[:n]


SHORT = 0.15


def raw(case, ctx):
    import threading
    import time
    from kv.core import check, equal
    from kv.sched import Fuzz
    from katcp import Message, BlockingClient, CallbackClient, AsyncClient
    from katcp.client import request_check
    from katcp.core import KatcpClientDisconnected, KatcpVersionError
    from kv.props.u02 import LoopThread, guarded
    mids = case['mids']
    base = set(threading.enumerate())
    srv = Scripted(mids, case['greet'])
    lt = LoopThread() if case['loop'] == 'given' else None
    cls = {'blocking': BlockingClient, 'callback': CallbackClient, 'async': AsyncClient}.get(case['cls'], CallbackClient)
    stray = []

    class Client(cls):
        def unhandled_inform(self, msg):
            stray.append(msg)

        def unhandled_reply(self, msg):
            stray.append(msg)

        def notify_connected(self, connected):
            notes.append((connected, self.is_connected()))
            if not connected and case['nraise']:
                raise ValueError('notification')
    notes = []
    fz = Fuzz(case['seed'], case['fuzz'], ['client', 'core', 'ioloop_manager'])
    try:
        # (a call made while the loop ends waits for its whole timeout)
        c = Client('127.0.0.1', srv.port, timeout=0.6 if case['end'] == 'midway' else HANG)
        if lt:
            c.set_ioloop(lt.loop)
        else:
            c._ioloop_manager.setDaemon(True)
        c.auto_reconnect_delay = 0.02
        drops = any(x['how'] == 'drop' and mids for t in case['threads'] for x in t)
        early = case['seed'] % 3 == 0 and mids and case['end'] == 'calm' and not case['greet']
        with fz:
            c.start(timeout=HANG)
            if not early:
                check(c.wait_protocol(HANG), 'no-protocol', 'wait_protocol() of a client of a server that greets')
                check(c.wait_connected(HANG) and c.is_connected(), 'not-connected')
            res, again = {}, {}
            n = 0
            plan = []
            halted, gone = threading.Event(), threading.Event()
            for th, ops in enumerate(case['threads']):
                for x in ops:
                    plan.append((n, th, x))
                    n += 1
            bar = threading.Barrier(len(case['threads']))

            def one(i, x):
                uid = b'u%d' % i
                how = x['how']
                if not mids and how in ('never', 'drop', 'twice', 'late'):
                    how = 'ok'
                name = 'req%d' % x['name']
                msg = Message.request(name, uid, how, x['d'], x['inf'], payload(uid, x['pay']))
                tmo = SHORT if how == 'never' else None if case['end'] == 'midway' else x['tmo']
                if how == 'late':
                    # the reply comes about when the time is up
                    msg.arguments[2] = b'20'
                    tmo = 0.02
                if x['op'] == 'block':
                    kw = {} if tmo is None else {'timeout': tmo}
                    return ('reply',) + tuple(c.blocking_request(msg, **kw))
                if x['op'] == 'check':
                    args = (name, uid, how, x['d'], x['inf'], payload(uid, x['pay']))
                    kw = {} if how != 'never' else {'timeout': SHORT}
                    if how == 'late':
                        args = (name, uid, 'ok') + args[3:]
                    try:
                        return ('reply',) + tuple(request_check(c, KeyError, *args, **kw))
                    except KeyError as e:
                        return ('failed', str(e))
                if x['op'] in ('cb', 'future'):
                    got = threading.Event()
                    before = not halted.is_set()
                    box = {'replies': [], 'informs': [], 'ud': set()}

                    def reply_cb(m, *ud):
                        box['replies'].append(m)
                        box['ud'].add(ud)
                        box['thread'] = threading.current_thread()
                        got.set()

                    def inform_cb(m, *ud):
                        box['informs'].append(m)
                        box['ud'].add(ud)
                    if x['op'] == 'future':
                        def go():
                            f = c.future_request(msg, timeout=tmo)
                            f.add_done_callback(lambda f: (box['informs'].extend(f.result()[1]), reply_cb(f.result()[0], uid, 7)))
                            box['ud'].add((uid, 7))
                        c.ioloop.add_callback(go)
                    elif case['cls'] == 'async':
                        c.ioloop.add_callback(c.callback_request, msg, reply_cb, inform_cb, (uid, 7), tmo)
                    else:
                        c.callback_request(msg, reply_cb=reply_cb, inform_cb=inform_cb, user_data=(uid, 7), timeout=tmo)
                    before = before and not halted.is_set()
                    end = time.time() + HANG * 2
                    while not got.wait(0.2):
                        if time.time() > end:
                            return ('lost', box)
                        if not before and gone.is_set():
                            return ('wait', True, True)
                    return ('box', box)
                if x['op'] == 'send' and case['cls'] != 'async':
                    if x['d'] % 2:
                        c.send_message(Message.inform('note', uid))
                        return ('sent', None)
                    mid = c.request(Message.request('plain', uid))
                    return ('sent', mid)
                if x['op'] == 'wait':
                    quick = drops or case['end'] == 'midway'
                    return ('wait', c.wait_connected(0.1 if quick else HANG), c.wait_running(0.1 if quick else HANG))
                if x['op'] == 'isc':
                    return ('isc', c.is_connected())
                time.sleep(0.001 * x['d'])
                return ('nap',)

            def thread(th):
                bar.wait()
                if early and not c.wait_protocol(HANG):
                    res['early'] = th
                for i, t, x in plan:
                    if t != th:
                        continue
                    t0 = time.time()
                    for k in range(4):
                        try:
                            r = one(i, x)
                        except Exception as e:
                            import traceback
                            r = ('raised', e, traceback.format_exc())
                            if x['how'] in ('never', 'late') and isinstance(e, RuntimeError) and not halted.is_set() and 'timeout period' in str(e):
                                # the client allows its loop one second more than the call; only a loop that never answers counts
                                again[i] = k
                                continue
                        break
                    res[i] = (r, time.time() - t0, halted.is_set())
            ts = [threading.Thread(target=thread, args=(t,)) for t in range(len(case['threads']))]
            for t in ts:
                t.daemon = t.kv_client = True
                t.start()
            stopped = True
            if case['end'] == 'midway':
                time.sleep(0.001 * (case['seed'] % 15))
                halted.set()
                fin, _, e = guarded(lambda: c.stop(HANG))
                check(fin and e is None, 'stop-raised', repr(e))
                if lt is None:
                    fin, _, e = guarded(lambda: c.join(HANG))
                    check(fin and e is None, 'join-raised', repr(e))
                else:
                    while c.running():
                        time.sleep(0.002)
                    lt.ping()
                time.sleep(0.05)
                gone.set()
            end = time.time() + HANG * 3
            for t in ts:
                t.join(max(0.01, end - time.time()))
        midway = case['end'] == 'midway'
        alive = [t for t in ts if t.is_alive()]
        check(not alive, 'call-hangs', lambda: 'calls that have not returned: %r' % ([(i, x) for i, t, x in plan if i not in res],))
        check('early' not in res, 'no-protocol', 'wait_protocol() in thread %s' % res.get('early'))
        odd = 0
        mids_used = {}
        for i, t, x in plan:
            r, dt, late = res[i]
            uid = b'u%d' % i
            how = x['how'] if mids or x['how'] not in ('never', 'drop', 'twice', 'late') else 'ok'
            if x['op'] == 'check' and how == 'late':
                how = 'ok'
            where = 'call %d of thread %d (%s, server: %s%s)' % (i, t, x['op'], how, ', client stopped meanwhile' if midway else '')
            odd += how in ('never', 'drop', 'late') or x['d'] > 1
            ctx.tag(x['op'], how)
            loose = midway or drops
            if r[0] == 'raised':
                if midway and isinstance(r[1], (RuntimeError, AttributeError)) or (drops or midway) and x['op'] == 'send':
                    continue
                check(False, 'call-raised', '%s: %s' % (where, r[2]))
            check(r[0] != 'lost', 'call-lost', '%s: no reply callback in %s s: %r' % (where, HANG * 2, r))
            if r[0] in ('sent', 'isc', 'nap', 'wait'):
                if r[0] == 'wait' and not loose:
                    equal(r[1:], (True, True), 'wait-result', where)
                if r[0] == 'isc' and not loose:
                    equal(r[1], True, 'wait-result', where)
                if r[0] == 'sent' and not loose and mids and x['d'] % 2 == 0:
                    equal(mids_used.get(r[1]), None, 'request-result', where + ': a message id used before')
                    mids_used[r[1]] = i
                continue
            if r[0] == 'failed':
                check(how in ('fail', 'never') or loose or how == 'drop', 'reply-wrong', '%s: %r' % (where, r))
                continue
            if r[0] == 'reply':
                reply, informs = r[1], r[2]
                if x['op'] == 'check':
                    check(reply.reply_ok(), 'reply-wrong', '%s: %s' % (where, reply))
            else:
                box = r[1]
                equal(len(box['replies']), 1, 'callback-count', where)
                equal(box['ud'], {(uid, 7)}, 'user-data', where)
                reply, informs = box['replies'][0], box['informs']
            check(reply.mtype == Message.REPLY and reply.name == 'req%d' % x['name'], 'reply-wrong', '%s: %s' % (where, reply))
            own = len(reply.arguments) > 1 and reply.arguments[1] == uid
            if midway and not mids and not own:
                # the answer to a request that stop() gave up on, or its informs; without message ids nothing tells
                continue
            infs = [(m.name, m.arguments) for m in informs]
            wantinf = [('req%d' % x['name'], [uid, b'%d' % k]) for k in range(x['inf'])]
            if own:
                kind = {'fail': b'fail'}.get(how, b'ok')
                check(how not in ('never', 'drop'), 'reply-wrong', where)
                equal(reply.arguments[0], kind, 'reply-wrong', where)
                equal(infs, wantinf, 'informs-wrong', where)
                if how != 'fail':
                    equal(reply.arguments[2] if len(reply.arguments) > 2 else b'', payload(uid, x['pay'])[:300], 'reply-wrong', where)
                equal(srv.seen.get(uid), 1, 'sent-count', where)
            else:
                # the client's own failure reply
                check(reply.arguments[0] == b'fail' and len(reply.arguments) == 2 and not reply.arguments[1].startswith(b'u'), 'reply-wrong', '%s: %s' % (where, reply))
                check(how in ('never', 'drop', 'late') or loose, 'reply-lost', '%s: %s' % (where, reply))
                check(infs == wantinf[:len(infs)], 'informs-wrong', '%s: %r' % (where, infs))
                if how == 'never':
                    check(loose or b'timed out' in reply.arguments[1], 'timeout-reply', '%s: %s' % (where, reply))
                    check(loose or dt >= SHORT * 0.9, 'timeout-early', '%s after %s s' % (where, dt))
                check(dt < SHORT + 1 + HANG, 'timeout-late', '%s took %s s' % (where, dt))
        check(not srv.bad, 'bytes-interleaved', lambda: 'the server received %r' % srv.bad[:3])
        over = {u: k for u, k in list(srv.seen.items()) if k != 1 and int(u.strip(b'uagain') or 0) not in again}
        check(not over, 'sent-count', 'requests the server received more than once: %r' % over)
        for m in stray:
            # replies that nobody waits for any more, and informs of requests that are over
            check(m.name == 'unasked' or m.name.startswith('req') or m.name in ('version-connect', 'build-state', 'plain'), 'stray', str(m))
        ctx.tag(case['cls'], case['end'], case['loop'])
        if fz.naps:
            ctx.tag('fuzzed')
        ctx.nt(len(case['threads']) > 1 and odd > 0)
        if not midway and case['cls'] != 'async' and not mids:
            # what goes wrong in the loop is raised to the caller
            fin, r, e = guarded(lambda: c.request(Message.request('plain', 'x', mid=7)))
            check(fin and isinstance(e, KatcpVersionError), 'call-exception', 'a message id given to a server without ids: %r / %r' % (r, e))
        if not midway and not drops and case['gone']:
            ctx.tag('gone')
            box = []
            t = threading.Thread(target=lambda: box.append(c.wait_disconnected(HANG)))
            t.daemon = t.kv_client = True
            t.start()
            srv.close()
            t.join(HANG * 2)
            equal(box, [True], 'wait-disconnected', 'of a client whose server went away')
            end = time.time() + HANG
            while (not notes or notes[-1][0]) and time.time() < end:
                time.sleep(0.002)
            check(not c.is_connected() and c.running(), 'still-connected', 'after the server went away: connected %r running %r' % (c.is_connected(), c.running()))
            equal(c.wait_connected(0.05), False, 'wait-result', 'wait_connected() after the server went away')
            fin, r, e = guarded(lambda: c.blocking_request(Message.request('req0', 'x', 'ok', 0, 0, '')))
            check(fin and e is None and not r[0].reply_ok() and r[1] == [] and r[0].name == 'req0', 'reply-wrong', 'of a request without a connection: %r / %r' % (r, e))
            if case['cls'] != 'async':
                fin, r, e = guarded(lambda: c.send_message(Message.inform('note', 'x')))
                check(fin and isinstance(e, KatcpClientDisconnected), 'call-exception', 'of a message sent without a connection: %r / %r' % (r, e))
        if not midway:
            fin, _, e = guarded(lambda: c.stop(HANG))
            check(fin and e is None, 'stop-raised', repr(e))
        if lt is None:
            fin, _, e = guarded(lambda: c.join(HANG))
            check(fin and e is None, 'join-raised', repr(e))
            end = time.time() + HANG
            while time.time() < end:
                left = [t for t in threading.enumerate() if t not in base and not getattr(t, 'kv_client', False)]
                if not left:
                    break
                time.sleep(0.002)
            check(not left, 'threads-left', repr(left))
            check(not c.running() and not c.is_connected(), 'still-running')
            check(notes and all(n == (i % 2 == 0, i % 2 == 0) for i, n in enumerate(notes)) and not notes[-1][0], 'notifications', lambda: repr(notes))
            if case['again'] and not (case['gone'] and not drops):
                ctx.tag('restart')
                c.start(timeout=HANG)
                check(c.wait_protocol(HANG), 'no-protocol', 'after a restart')
                reply, informs = c.blocking_request(Message.request('req0', b'again', 'ok', 0, 2, payload(b'again', 9)))
                check(reply.arguments[:2] == [b'ok', b'again'] and len(informs) == 2, 'reply-wrong', 'after a restart: %s' % reply)
                c.stop(HANG)
                c.join(HANG)
        else:
            check(lt.ping(), 'given-loop-stopped', 'stop() of the client stopped a loop it was given')
    finally:
        fz.left = 0
        srv.close()
        if lt:
            lt.end()


def res(case, ctx):
    import threading
    import time
    from kv.core import check, equal
    from kv.sched import Fuzz
    from kv.props.s05 import Host
    from kv.props.u02 import guarded, LoopThread
    from concurrent.futures import TimeoutError
    from katcp import resource_client
    from katcp.ioloop_manager import IOLoopThreadWrapper
    host = Host(case['mode'])
    lt = LoopThread()
    lt.t.kv_client = True
    fz = Fuzz(case['seed'], case['fuzz'], ['resource_client', 'client', 'ioloop_manager', 'inspecting_client'])
    w = IOLoopThreadWrapper(lt.loop)
    w.default_timeout = HANG
    made = []
    try:
        with fz:
            check(lt.ping(), 'loop-not-running')

            def make():
                spec = dict(name='dev', address=('127.0.0.1', host.port), controlled=True)
                if case['cont']:
                    r = resource_client.KATCPClientResourceContainer({'clients': {'dev': dict(address=('127.0.0.1', host.port), controlled=True)},
                                                                      'groups': {'all': ['dev']}, 'name': 'top'})
                else:
                    r = resource_client.KATCPClientResource(spec)
                r.set_ioloop(lt.loop)
                r.start()
                made.append(r)
                return r.until_synced(HANG)
            w.call_in_ioloop(make, (), {}, HANG)
            r = made[0]
            top = resource_client.ThreadSafeKATCPClientResourceWrapper(r, w)
            client = top.children['dev'] if case['cont'] else top
            pre = 'dev_' if case['cont'] else ''
            out = {}
            plan = [(i, t) + tuple(op) for i, (t, op) in enumerate((t, op) for t, ops in enumerate(case['threads']) for op in ops)]
            bar = threading.Barrier(len(case['threads']))
            listened, grown = {}, []
            grows = any(op[0] == 'grow' for t in case['threads'] for op in t)

            def one(i, op, n):
                uid = 'u%d' % i
                if op == 'echo':
                    rep = client.req.echo(uid, n)
                    return bool(rep), list(rep.reply.arguments), threading.current_thread() is lt.t
                if op == 'fail':
                    rep = client.req['fail'](uid)
                    return bool(rep), rep.reply.arguments[0]
                if op == 'coro':
                    rep = client.req.coro(n)
                    return bool(rep), len(rep.informs)
                if op == 'value':
                    return getattr(top.sensor, pre + 's2').get_value()
                if op == 'set':
                    rep = client.req.set(0, n)
                    return bool(rep)
                if op == 'strategy':
                    top.sensor[pre + 's1'].set_strategy('event')
                    return top.sensor[pre + 's1'].sampling_strategy[0] if case['threads'] else None
                if op == 'sampling':
                    return isinstance(top.sensor[pre + 's2'].sampling_strategy, tuple), getattr(top.sensor, pre + 's2').name
                if op == 'names':
                    return {pre + 's%d' % j for j in range(3)} <= set(top.sensor), sorted(dir(top.req)) == sorted(r.req), len(top.sensor) >= 3, (pre + 's0') in top.sensor
                if op == 'attrs':
                    return top.name, top.synced or grows if not case['cont'] else True, client.connected if hasattr(type(client.__subject__), 'connected') else True
                if op == 'listen':
                    seen = listened.setdefault(i, [])
                    getattr(top.sensor, pre + 's0').register_listener(lambda *a: seen.append(a))
                    return True
                if op == 'child':
                    if case['cont']:
                        return type(top.children.dev) is type(top), top.children['dev'].parent.name, sorted(top.children)
                    return True, 'top', ['dev']
                if op == 'timeout':
                    try:
                        rep = client.req.nap(n % 3, timeout=HANG)
                        return bool(rep)
                    except TimeoutError:
                        return False
                if op == 'dict':
                    return top.req[pre + 'echo'].name, (pre + 'echo') in top.req, client.req.echo.description is not None
                if op == 'group':
                    if not case['cont']:
                        return True, True, 1
                    g = top.groups['all']
                    rs = g.req.echo(uid)
                    return bool(rs), list(rs.values())[0].reply.arguments == [b'ok', uid.encode()], len(g.clients)
                if op == 'list':
                    return sorted(s.name for s in top.list_sensors('s[0-9]$'))
                if op == 'grow':
                    rep = client.req.add(uid)
                    grown.append('xu%d' % i)
                    return bool(rep)
                if op == 'iter':
                    k = 0
                    for name in top.sensor:
                        k += 1
                        if k < 4:
                            time.sleep(0.0005 * n)
                    for s in list(top.req.items()) + list(top.sensor.values()):
                        k += 1
                    return k >= 3
                if op == 'missing':
                    try:
                        client.req['nonesuch']
                        a = 'found'
                    except KeyError:
                        a = 'KeyError'
                    try:
                        top.sensor.nonesuch
                        b = 'found'
                    except AttributeError:
                        b = 'AttributeError'
                    return a, b

            def thread(th):
                bar.wait()
                for i, t, op, n in plan:
                    if t == th:
                        try:
                            out[i] = ('r', one(i, op, n))
                        except Exception as e:
                            import traceback
                            out[i] = ('e', e, traceback.format_exc())
            ts = [threading.Thread(target=thread, args=(t,)) for t in range(len(case['threads']))]
            for t in ts:
                t.daemon = t.kv_client = True
                t.start()
            end = time.time() + HANG * 2
            for t in ts:
                t.join(max(0.01, end - time.time()))
        for i, t, op, n in plan:
            where = 'call %d of thread %d: %s' % (i, t, op)
            ctx.tag('res-' + op)
            check(i in out, 'call-hangs', where)
            check(out[i][0] == 'r', 'call-raised', lambda: '%s: %s' % (where, out[i][2]))
            got = out[i][1]
            uid = b'u%d' % i
            want = {'echo': (True, [b'ok', uid, b'%d' % n], False), 'fail': (False, b'fail'), 'set': True, 'grow': True, 'iter': True, 'value': 0, 'strategy': 'event',
                    'sampling': (True, ('s2' if not case['cont'] else 's2')), 'names': (True, True, True, True), 'listen': True, 'child': (True, 'top', ['dev']),
                    'timeout': True, 'dict': ('echo', True, True), 'group': (True, True, 1), 'missing': ('KeyError', 'AttributeError')}
            if op == 'coro':
                want['coro'] = (True, 3) if n not in (2, 3) else (False, 2)
            if op == 'attrs':
                want['attrs'] = ('top' if case['cont'] else 'dev', True, True)
            if op == 'list':
                want['list'] = [('dev.' if case['cont'] else '') + x for x in ('s0', 's1', 's2')]
            equal(got, want[op], 'call-result', where)
        ctx.nt(len(case['threads']) > 1)
        if grown:
            end = time.time() + HANG
            lack = True
            while lack and time.time() < end:
                time.sleep(0.002)
                lack = [x for x in grown if pre + x not in top.sensor]
            check(not lack, 'sensors-stale', 'sensors the device has that the resource never lists: %r' % lack)
            for x in grown:
                equal(getattr(top.sensor, pre + x).get_value(), 0, 'call-result', 'value of a sensor added meanwhile')
            # a listing begun before the device changed can be gone through to its end
            views = [iter(client.sensor), iter(client.req), iter(client.sensor.items())]
            first = [next(v) for v in views]
            check(bool(client.req.add('last')), 'call-result', 'request add')
            end = time.time() + HANG
            while 'xlast' not in client.sensor and time.time() < end:
                time.sleep(0.002)
            check('xlast' in client.sensor, 'sensors-stale', 'a sensor added is never listed')
            for v, f in zip(views, first):
                try:
                    rest = [f] + list(v)
                except Exception as e:
                    check(False, 'listing-breaks', 'going through a listing while the device changes: %r' % (e,))
                names = [x[0] if isinstance(x, tuple) else x for x in rest]
                check({'s0', 's1', 's2'} <= set(names) or 'echo' in names, 'listing-incomplete', names)
        fin, _, e = guarded(lambda: top.stop())
        check(fin and e is None, 'stop-raised', repr(e))
        check(lt.ping(), 'loop-not-running', 'after the calls')
    finally:
        fz.left = 0
        try:
            host.stop()
        finally:
            lt.end()
            host.close()


def run(case, ctx):
    from kv.core import Discard
    ctx.tag(case['k'])
    if not case['threads'] or not all(case['threads']):
        raise Discard()
    {'raw': raw, 'res': res}[case['k']](case, ctx)
